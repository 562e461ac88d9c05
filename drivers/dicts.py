"""Merging, concatenating, splitting and zero padding dictionaries of blocks."""
from drv import *
from sortedcontainers import SortedDict
import neuro_shooting.state_costate_and_data_dictionary_utils as U

MERGE = getattr(U, '_merge_state_costate_or_data_dict_with_generic_dict_of_dicts', None)
CAT = getattr(U, '_concatenate_dict_of_dicts', None)
NCAT = getattr(U, '_concatenate_named_dict_of_dicts_keeping_structure', None)
SPLIT = getattr(U, '_deconcatenate_based_on_generic_dict_of_dicts', None)
ZERO = getattr(U, '_get_zero_data_dict_matching_state_dim', None)


def mk(spec, base=1):
    """spec: list of (block, [(key, shape)])"""
    d, n = SortedDict(), base
    for b, ents in spec:
        d[b] = SortedDict()
        for k, s in ents:
            c = int(np.prod(s))
            d[b][k] = torch.arange(n, n + c, dtype=torch.float64).view(tuple(s)).clone()
            n += c
    return d


def ent(d):
    return [{'k': k, 's': list(d[k].shape), 'v': qt(d[k].reshape(-1), 1)} for k in d]


def blk(dd):
    return [{'b': b, 't': ent(dd[b])} for b in dd]


def concat(rec, sig, dd, dim):
    with guard(rec, sig):
        st, out = attempt(CAT, dd, dim)
        rec.emit('Concat', sig, blocks=blk(dd), dim=dim, raised=st == 'raise', out=ent(out) if st == 'ok' else [])
        if st == 'ok' and SPLIT:
            s2, parts = attempt(SPLIT, out, dd, dim)
            rec.emit('Split', sig, blocks=blk(dd), raised=s2 == 'raise', parts=blk(parts) if s2 == 'ok' else [])
        if st == 'ok' and NCAT:
            nm = NCAT(generic_dict_of_dicts=dd, concatenation_dim=dim, block_name='own')
            rec.emit('Named', sig, name='own', named=blk(nm), out=ent(out))


def merge(rec, sig, name, add, before):
    with guard(rec, sig):
        b0 = blk(before) if before is not None else []
        st, out = attempt(MERGE, generic_dict=add, generic_dict_of_dicts=before, generic_dict_block_name=name)
        o = blk(out) if st == 'ok' else []
        after = blk(before) if before is not None else []
        if st == 'ok' and before is not None:
            for b in list(before):
                out[b]['__new__'] = torch.zeros(1)      # writing into the result must not reach the input
            out['__newblock__'] = SortedDict()
        iso = blk(before) if before is not None else []
        rec.emit('Merge', sig, name=name, before=b0, add=[{'b': name, 't': ent(add)}] if add is not None else [], raised=st == 'raise', out=o, after=after, isolated=iso)


def run(rec):
    names = ['blk', 'blk10', 'blk2']
    for c in cases():
        if c['dim'] >= c['rank']:
            continue
        spec = []
        for i, n in enumerate(c['sizes']):
            s = [c['other']] * c['rank']
            s[c['dim']] = n
            spec.append((names[i], [('q%d' % (k + 1), s) for k in range(c['keys'])]))
        if CAT:
            concat(rec, 'case %s' % json.dumps(c, sort_keys=True), mk(spec), c['dim'])
    r = rng('dicts')
    allnames = ['b', 'block1', 'block10', 'block2', 'simple_3', 'a', 'Z', 'own', 'b9', 'b10', 'block_12', 'block_3', 'B', 'a b', '10', '9']
    keys = ['q', 'q1', 'q10', 'q2', 'Q']
    for i in range(300 if THOROUGH else 100):
        ks = r.sample(keys, r.randint(1, 4))
        rank = r.randint(1, 5)
        dim = r.randrange(rank)
        base = {k: [r.randint(1, 3) for _ in range(rank)] for k in ks}
        spec = []
        for b in r.sample(allnames, r.randint(1, 4) if i % 5 else r.randint(5, 9)):
            es = []
            for k in ks:
                s = list(base[k])
                s[dim] = r.randint(1, 4)
                es.append((k, s))
            spec.append((b, es))
        dd = mk(spec)
        if CAT:
            concat(rec, 'random %d' % i, dd, dim)
            if len(dd) > 1 and rank > 1 and r.random() < .4:    # misfit in another dimension
                bad = [(b, [(k, list(s)) for k, s in es]) for b, es in spec]
                od = (dim + 1) % rank
                bad[1][1][0][1][od] += 1
                concat(rec, 'misfit %d' % i, mk(bad), dim)
            if len(dd) > 1:
                # a key the first block does not have
                last = max(b for b, _ in spec)
                bad = [(b, es + ([('zzz', [1] * rank)] if b == last else [])) for b, es in spec]
                st, _ = attempt(CAT, mk(bad), dim)
                rec.emit('Reject', 'extra key %d' % i, raised=st == 'raise')
        if MERGE:
            free = r.choice(['new', 'aa', 'zz', 'b11', 'block7', '8', 'A'])
            add = mk([(free, [(k, [2]) for k in ks])], 500)[free]
            merge(rec, 'merge new %d' % i, free, add, dd)
            merge(rec, 'merge taken %d' % i, r.choice(list(dd.keys())), add, mk(spec))
            merge(rec, 'merge into nothing %d' % i, free, add, None)
            merge(rec, 'merge into none %d' % i, free, add, SortedDict())
            merge(rec, 'merge nothing %d' % i, free, None, mk(spec))
        if ZERO:
            extra = r.randint(0, 2)
            srank = r.randint(2, 4)
            sdim = r.randint(1, srank - 1)
            st = {k: torch.ones([r.randint(1, 4) for _ in range(srank)], dtype=r.choice([torch.float32, torch.float64])) for k in ks}
            state = SortedDict(st)
            data = mk([('d1', [(k, [r.randint(1, 4) for _ in range(srank + extra)]) for k in ks])])
            with guard(rec, 'zero %d' % i):
                dd_ = U.get_data_concatenation_dim(state, data, sdim)
                z = ZERO(state, data, sdim, dd_)
                first = data.peekitem(0)[1].peekitem(0)[1]
                rec.emit('Zero', 'zero %d' % i, state=ent(state), datashape=list(first.shape), sdim=sdim, ddim=sdim + extra, out=ent(z))
                rec.emit('Reject', 'zero type %d' % i, raised=all(z[k].dtype == state[k].dtype for k in state))
        ns, nd, dim = r.randint(1, 5), r.randint(1, 6), r.randint(0, 4)
        with guard(rec, 'dim %d' % i):
            st, out = attempt(U.get_data_concatenation_dim, SortedDict({'q': torch.zeros([1] * ns)}), mk([('d', [('q', [1] * nd)])]), dim)
            rec.emit('Dim', 'dim ns=%d nd=%d d=%d' % (ns, nd, dim), ns=ns, nd=nd, dim=dim, raised=st == 'raise', out=out if st == 'ok' else -1)
        with guard(rec, 'pick %d' % i):
            spec = [(b, [(k, [r.randint(1, 3)]) for k in ks]) for b in r.sample(allnames, r.randint(1, 3))]
            dd = mk(spec)
            key = r.choice(ks)
            o = U.extract_key_from_dict_of_dicts(dd, key)
            if isinstance(o, torch.Tensor):
                ol = [{'b': '', 's': list(o.shape), 'v': qt(o.reshape(-1), 1)}]
            else:
                ol = [{'b': b, 's': list(o[b][key].shape), 'v': qt(o[b][key].reshape(-1), 1)} for b in o]
            rec.emit('Pick', 'pick %d' % i, blocks=blk(dd), key=key, out=ol)
        with guard(rec, 'like %d' % i):
            d = mk([('x', [(k, [r.randint(1, 3) for _ in range(r.randint(2, 4))]) for k in ks])])['x']
            b, ch = r.randint(1, 5), r.randint(1, 5)
            for nm, args, exp in (('_get_zero_dict_like', (), lambda s: s), ('_get_zero_dict_like_with_matched_batch_size', (b,), lambda s: [b] + s[1:]),
                                  ('_get_zero_dict_like_with_matched_batch_and_channel_size', (b, ch), lambda s: [b, ch] + s[2:])):
                f = getattr(U, nm, None)
                if f:
                    z = f(d, *args)
                    rec.emit('Like', '%s %d' % (nm, i), shapes=[list(z[k].shape) for k in d], expect=[exp(list(d[k].shape)) for k in d], zero=all(float(z[k].abs().sum()) == 0 and z[k].dtype == d[k].dtype for k in z))
            full = SortedDict({'x': d})
            s0 = list(d.peekitem(0)[1].shape)
            rec.emit('Like', 'sizes %d' % i, shapes=[list(U.extract_size_from_dict_of_dicts(full)), list(U.extract_size_from_dict(d)), [U.extract_batch_size_from_dict_of_dicts(full)], [U.extract_channel_size_from_dict_of_dicts(full)]],
                     expect=[s0, s0, [s0[0]], [s0[1]]], zero=True)


main(run)

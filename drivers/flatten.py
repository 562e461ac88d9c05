"""Replays the layouts enumerated by Flatten.tla, and random larger ones, into the real flatten/unflatten layer."""
from drv import *
from sortedcontainers import SortedDict
import neuro_shooting.state_costate_and_data_dictionary_utils as U


def dd(entries, base, dtype, grad=True):
    """entries: list of (block, key, shape); returns dict of dicts with unique values"""
    out, n = SortedDict(), base
    for b, k, s in entries:
        out.setdefault(b, SortedDict())
        cnt = int(np.prod(s)) if s else 1
        t = torch.arange(n, n + cnt, dtype=dtype).view(tuple(s))
        out[b][k] = t.clone().requires_grad_(grad)
        n += cnt
    return out, n


def log(d):
    r = []
    for b in d:
        for k in d[b]:
            t = d[b][k]
            r.append({'b': b, 'k': k, 's': list(t.shape), 'v': qt(t.reshape(-1), 1)})
    return r


def one(rec, sig, groups, dtype, times):
    with guard(rec, sig):
        s, n = dd(groups['state'], 1, dtype)
        c, n = dd(groups['costate'], n, dtype)
        d, n = dd(groups['data'], n, dtype)
        vec, plan = U.assemble_tensor(s, c, d)
        os_, oc, od = U.disassemble_tensor(vec, plan, dim=0)
        leaves = [x[b][k] for x in (s, c, d) for b in x for k in x[b]]
        outs = [x[b][k] for x in (os_, oc, od) for b in x for k in x[b]]
        tot = sum((o * o).sum() for o in outs)
        gs = torch.autograd.grad(tot, leaves, allow_unused=True)
        grad = all(g is not None and bool(torch.equal(g, 2 * l)) for g, l in zip(gs, leaves))
        rec.emit('RoundTrip', sig, **{'in': {'state': log(s), 'costate': log(c), 'data': log(d)}}, len=int(vec.numel()) if vec.dim() == 1 else -1,
                 out={'state': log(os_), 'costate': log(oc), 'data': log(od)}, grad=grad, dtype=all(o.dtype == dtype for o in outs))
        for T in times:
            rows, vs = [], []
            for r in range(T):
                s, n = dd(groups['state'], 1 + 1000 * r, dtype)
                c, n = dd(groups['costate'], n, dtype)
                d, n = dd(groups['data'], n, dtype)
                v, p = U.assemble_tensor(s, c, d)
                vs.append(v)
                rows.append({'state': log(s), 'costate': log(c), 'data': log(d)})
            os_, oc, od = U.disassemble_tensor(torch.stack(vs), p, dim=1)
            rec.emit('Stack', sig + ' T=%d' % T, rows=rows, out={'state': log(os_), 'costate': log(oc), 'data': log(od)})


def tuples(rec, sig, entries):
    with guard(rec, sig):
        d, _ = dd(entries, 1, torch.float64)
        t = U.compute_tuple_from_generic_dict_of_dicts(d)
        o = U.extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(t, d)
        rec.emit('Tuple', sig + ' nested', **{'in': log(d)}, n=len(t), out=log(o))
        o = U.extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(t, d, prefix='dot_')
        rec.emit('Tuple', sig + ' nested prefix', **{'in': [dict(e, k='dot_' + e['k']) for e in log(d)]}, n=len(t), out=log(o))
        b = d.keys()[0]
        f = d[b]
        t = U.compute_tuple_from_generic_dict(f)
        o = U.extract_dict_from_tuple_based_on_generic_dict(t, f, prefix='p_')
        rec.emit('Tuple', sig + ' flat', **{'in': [dict(e, k='p_' + e['k']) for e in log({b: f})]}, n=len(t), out=log({b: o}))


def run(rec):
    for i, c in enumerate(cases()):
        g = {k: [(e['b'], e['k'], list(e['s'])) for e in c['entries'] if e['g'] == k] for k in ('state', 'costate', 'data')}
        one(rec, 'case %s' % json.dumps(g, sort_keys=True), g, torch.float64, (2,) if i % 7 == 0 else ())
    r = rng('flatten')
    names = ['b', 'block1', 'block10', 'block2', 'simple_3', 'a', 'Z', '_x']
    keys = ['q', 'q1', 'q10', 'q2', 'dot_q', 'p_q1', 'Q']
    for i in range(400 if THOROUGH else 120):
        g = {}
        for k in ('state', 'costate', 'data'):
            ents = []
            for b in r.sample(names, r.randint(1, 3)):
                for kk in r.sample(keys, r.randint(1, 3)):
                    ents.append((b, kk, [r.randint(1, 3) if r.random() < .93 else 0 for _ in range(r.randint(1, 5))]))
            g[k] = ents
        one(rec, 'random %d' % i, g, r.choice([torch.float32, torch.float64]), (r.randint(1, 4),))
        tuples(rec, 'random %d' % i, g['state'])
    # entries with more values than single precision can count
    for i, n in enumerate([2 ** 24 + 3, 2 ** 24 + 1]):
        with guard(rec, 'large %d' % n):
            mk = lambda t: SortedDict({'b': SortedDict({'q': t})})
            big = (torch.arange(n) % 4099).to(torch.float32)
            g = [torch.arange(5.), torch.arange(3.), torch.arange(4.)]
            g[i + 1] = big
            v, p = U.assemble_tensor(*[mk(t) for t in g])
            out = U.disassemble_tensor(v, p)
            at = [0, 1, 4098, 4099, n // 2, 2 ** 24 - 1, 2 ** 24, n - 1]
            rec.emit('Large', 'large %d' % n, len=int(v.numel()), sizes=[t.numel() for t in g], out=[int(o['b']['q'].numel()) for o in out], at=at, values=[int(out[i + 1]['b']['q'].reshape(-1)[a]) if a < out[i + 1]['b']['q'].numel() else -1 for a in at],
                     first=[int(o['b']['q'].reshape(-1)[0]) for o in out])
            del big, v, out, g
    # flattening a non-contiguous tensor (e.g. a transposed one) uses its logical order
    with guard(rec, 'noncontiguous'):
        x = torch.arange(6, dtype=torch.float64).view(2, 3).t()
        mk = lambda t: SortedDict({'b': SortedDict({'q': t})})
        v, p = U.assemble_tensor(mk(x), mk(x + 10), mk(x + 20))
        a, b, c = U.disassemble_tensor(v, p)
        rec.emit('RoundTrip', 'noncontiguous', **{'in': {'state': log(mk(x)), 'costate': log(mk(x + 10)), 'data': log(mk(x + 20))}}, len=int(v.numel()),
                 out={'state': log(a), 'costate': log(b), 'data': log(c)}, grad=True, dtype=True)
        for dim in (2, 3, -1):
            st, _ = attempt(U.disassemble_tensor, v, p, dim)
            rec.emit('Reject', 'unsupported dim %d' % dim, raised=st == 'raise')
        st, _ = attempt(U.disassemble_tensor, v)
        rec.emit('Reject', 'no plan', raised=st == 'raise')


main(run)

"""Chains of real blocks: joining, padding, naming; joint integration against one block; pass-through against longer integration."""
from drv import *
from models import *
torch.set_default_dtype(torch.float64)
TINY = 2. ** -50
SETS = [['a', 'm', 'z'], ['a', 'm', 'z'], ['b10', 'b2', 'b9'], ['B', 'a', 'b'], ['x', 'x1', 'x10'], ['blk_10', 'blk_11', 'blk_9'], ['10', '2', '9'], ['a b', 'a_b', 'ab']]


def ids(shp, start, jump=1):
    return (torch.arange(int(np.prod(shp))) * jump % 89 + start).double().view(tuple(shp))


def tens(t):
    return dict(s=list(t.shape), v=qt(t.reshape(-1), 1))


def geometry(m, size, d, f, infl):
    """vector models are joined along the features, convolutional ones along the channels"""
    return (d * size, f) if m in CONV else (d, f * size)


def bundle(m, rows, brows, size, d, f, infl, salt, extra):
    dd, ff = geometry(m, size, d, f, infl)
    sh = lambda k, r_: cshape(m, k, r_, dd, ff, infl)
    if m in CONV:
        sh = lambda k, r_: [r_, dd * (infl if k == 'q2' and m in INFLATED else 1), f, f + 1]
    q_ = SortedDict({k: ids(sh(k, rows), 1 + salt + 3 * j) for j, k in enumerate(KEYS[m])})
    p_ = SortedDict({'p_' + k: -ids(sh(k, rows), 2 + salt + 5 * j) for j, k in enumerate(KEYS[m])})
    x_ = SortedDict({k: ids(([2, 1, 3][:extra]) + sh(k, brows), 200 + salt + 7 * j) for j, k in enumerate(KEYS[m])})
    return q_, p_, x_


def cshape(m, k, rows, d, f, infl):
    return shape(m, k, rows, d, f, infl)


def mkblock(m, nl, name, n, size, total, d, f, infl, kind, step=1., method='euler', salt=None, **kw):
    dd, ff = geometry(m, size, d, f, infl)
    k = dict(in_features=(d if m in CONV else f) * total)
    if m in CONV:
        k.update(particle_size=[f, f + 1])
    if kind == 'pass':
        k['is_pass_through'] = True
        n = [n, 10, None, n + 1][len(m + nl + name) % 4 if salt is None else salt % 4]      # has no particles of its own: any number will do
    mod = make(m, nl, n, dd, ff, infl, None, **k)
    return block(name, mod, method=method, step=step, **kw)


def chain(rec, i, m, c, r):
    pool = sorted(r.choice(SETS) + r.sample(['q', 'blk_1', 'b1', 'y0', 'Z'], 2))
    names = sorted(r.sample(pool, 3)) if len({s for s in c['start']} | {s['nm'] for s in c['steps']}) < 4 and not {'c', 'k'} & ({s for s in c['start']} | {s['nm'] for s in c['steps']}) else pool
    keys = sorted(['a', 'm', 'z'] if len(names) == 3 else ['a', 'c', 'k', 'm', 'z'])
    alias = dict(zip(keys, names))
    c = dict(start=[alias[s] for s in c['start']], steps=[dict(s, nm=alias[s['nm']]) for s in c['steps']])
    RANK = {nm: k + 1 for k, nm in enumerate(names)}
    n, B, d, f, infl = r.randint(1, 3), r.randint(1, 3), 1, r.choice([1, 2]) if m not in CONV else 2, r.choice([1, 2])
    if m not in CONV:
        d = r.choice([1, 2])
    extra = r.choice([0, 0, 1, 2]) if m not in CONV and m not in INFLATED else 0
    sig = '%s %s n=%d B=%d d=%d f=%d infl=%d%s' % (m, json.dumps(c), n, B, d, f, infl, ' extra %d' % extra if extra else '')
    with guard(rec, sig + ' setup'), quiet():
        seed_all('chain', i)
        sd, cd, dd = SortedDict(), SortedDict(), SortedDict()
        total, bundles = 0, []
        for j, nm in enumerate(c['start']):
            z = 1 + (i + j) % 2
            total += z
            q_, p_, x_ = bundle(m, n, B, z, d, f, infl, 11 * j, extra)
            sd[nm], cd[nm], dd[nm] = q_, p_, x_
            bundles.append(dict(rank=RANK[nm], q={k: tens(v) for k, v in q_.items()}, p={k[2:]: tens(v) for k, v in p_.items()}, x={k: tens(v) for k, v in x_.items()}))
        rec.emit('Start', sig, bundles=sorted(bundles, key=lambda b_: b_['rank']))
    dim = 1 if m in CONV else 2
    for j, s in enumerate(c['steps']):
        s2 = '%s step %d' % (sig, j)
        with guard(rec, s2), quiet():
            clash = s['nm'] in sd
            tot = total + (s['size'] if s['kind'] == 'own' else 0)
            b = mkblock(m, r.choice(['tanh', 'identity', 'relu']), s['nm'], n, s['size'], tot, d, f, infl, s['kind'], step=TINY)
            last = j == len(c['steps']) - 1
            vec = last and i % 2 == 0
            if vec:
                b.set_integration_time_vector(torch.tensor([0., TINY, 2 * TINY]), suppress_warning=True)
            else:
                b.set_integration_time(TINY)
            own = dict(b.named_parameters())
            for k, (nm, p) in enumerate(sorted(own.items())):
                p.data.copy_(ids(p.shape, 300 + 13 * k + 50 * j))
            oq = {k: tens(own[k].detach()) for k in KEYS[m]} if s['kind'] == 'own' else {}
            op = {k: tens(own['p_' + k].detach()) for k in KEYS[m]} if s['kind'] == 'own' else {}
            call = lambda: b(pass_through_state_dict_of_dicts=sd, pass_through_costate_dict_of_dicts=cd, data_dict_of_dicts=dd)
            if clash:
                st, _ = attempt(call)
                if st == 'raise':
                    rec.emit('Refused', s2, rank=RANK[s['nm']])
                    return
            st = call()
            total = tot
            outs = [st[1], st[2], st[3]]
            T = 3 if vec else 1
            for t in range(T):
                pick = (lambda v: v.detach()[t]) if vec else (lambda v: v.detach())
                on = [list(o.keys()) for o in outs]
                o0 = [list(o.values())[0] for o in outs]
                if vec and t < T - 1 and t != 1:
                    continue
                ev = dict(kind=s['kind'], name=s['nm'], rank=RANK[s['nm']], names=['+'.join(k) for k in on], own=dict(q=oq, p=op), dim=dim, ddim=dim + extra, first=KEYS[m][0],
                          out=dict(q={k: tens(pick(v)) for k, v in o0[0].items()}, p={k[2:]: tens(pick(v)) for k, v in o0[1].items()}, x={k: tens(pick(v)) for k, v in o0[2].items()}),
                          res=tens(pick(st[0])), times=int(st[0].shape[0]) if vec else 1, wanted=T)
                if vec and t == 1:
                    # an intermediate time: same content, the chain goes on from the last one
                    rec.emit('Step', s2 + ' time 1', **ev)
                    rec.emit('Start', s2 + ' again', bundles=[dict(rank=RANK[nm], q={k: tens(v) for k, v in sd[nm].items()}, p={k[2:]: tens(v) for k, v in cd[nm].items()}, x={k: tens(v) for k, v in dd[nm].items()}) for nm in sorted(sd)])
                else:
                    rec.emit('Step', s2, **ev)
            sd, cd, dd = [SortedDict({k: SortedDict({kk: v.detach() for kk, v in o[k].items()}) for k in o}) for o in outs]


def allout(o):
    return torch.cat([o[0].detach().reshape(-1)] + [v.detach().reshape(-1) for dct in o[1:] for blk in dct.values() for v in blk.values()])


def rand_bundle(m, rows, brows, size, d, f, infl):
    q_, p_, x_ = bundle(m, rows, brows, size, d, f, infl, 0, 0)
    return [SortedDict({k: torch.randn(v.shape) * .4 for k, v in s.items()}) for s in (q_, p_, x_)]


def joint(rec, i, m, r):
    """a block with pass-through does what one block with all the channels does"""
    n, B, d, f, infl = r.randint(1, 3), r.randint(1, 3), r.choice([1, 2]), r.choice([1, 2]) if m not in CONV else 2, r.choice([1, 2])
    if m in CONV:
        d = 1
    names = r.choice([['a'], ['z'], ['a', 'z'], ['z', 'a']])
    sizes = [r.choice([1, 2]) for _ in names]
    own = r.choice([1, 2])
    nl = r.choice(['tanh', 'sigmoid', 'softmax'])
    T = r.choice([.5, 1.])
    sig = 'joint %s %s %s sizes=%s own=%d n=%d B=%d d=%d f=%d infl=%d T=%s' % (m, nl, names, sizes, own, n, B, d, f, infl, T)
    with guard(rec, sig), quiet():
        seed_all('joint', i)
        total = own + sum(sizes)
        given = {nm: rand_bundle(m, n, B, z, d, f, infl) for nm, z in zip(names, sizes)}
        b = mkblock(m, nl, 'm', n, own, total, d, f, infl, 'own', step=.25, method='rk4')
        b.set_integration_time(T)
        for p in b.named_parameters():
            p[1].data.normal_(std=.4)
        o1 = b(pass_through_state_dict_of_dicts=SortedDict({k: v[0] for k, v in given.items()}), pass_through_costate_dict_of_dicts=SortedDict({k: v[1] for k, v in given.items()}), data_dict_of_dicts=SortedDict({k: v[2] for k, v in given.items()}))
        mine = dict(b.named_parameters())
        dim = 1 if m in CONV else 2
        zero = {k: torch.zeros(bundle(m, n, B, own, d, f, infl, 0, 0)[2][k].shape) for k in KEYS[m]}
        parts = {**given, 'm': [{k: mine[k].detach() for k in KEYS[m]}, {'p_' + k: mine['p_' + k].detach() for k in KEYS[m]}, zero]}
        order = sorted(parts)
        cat = lambda j: SortedDict({k: torch.cat([parts[nm][j][k] for nm in order], dim=dim) for k in parts['m'][j]})
        one = mkblock(m, nl, 'm', n, total, total, d, f, infl, 'pass', step=.25, method='rk4', salt=r.randrange(4))
        one.set_integration_time(T)
        o2 = one(pass_through_state_dict_of_dicts=SortedDict({'s': cat(0)}), pass_through_costate_dict_of_dicts=SortedDict({'s': cat(1)}), data_dict_of_dicts=SortedDict({'s': cat(2)}))
        a, c = allout(o1), allout(o2)
        big = max(1., float(c.abs().max()))
        rec.emit('Start', sig, bundles=[])
        rec.emit('Pair', sig, clause='integrated-jointly', a=qt(a / big, 1e6), b=qt(c / big, 1e6), tol=2)


def again(rec, i, m, r):
    """data with and without extra leading dimensions, given as blocks or as one tensor, in any order: earlier passes leave no trace"""
    n, B, d, f, infl = r.randint(1, 2), r.randint(1, 2), 1, r.choice([1, 2]) if m not in CONV else 2, 1
    kind = r.choice(['own', 'pass'])
    nl = r.choice(['tanh', 'sigmoid'])
    order = [r.choice(['plain', 'extra', 'tensor', 'tensor+']) for _ in range(3)]
    if m in CONV:
        order = ['plain' if 'extra' in o else o.strip('+') for o in order]
    sig = 'again %s %s %s %s n=%d B=%d f=%d' % (m, kind, nl, '-'.join(order), n, B, f)
    with guard(rec, sig), quiet():
        seed_all('again', i)
        names = ['a', 'z'] if i % 2 else ['a']
        total = len(names) + (kind == 'own')
        given = {nm: rand_bundle(m, n, B, 1, d, f, infl) for nm in names}
        S, P = [SortedDict({k: v[j] for k, v in given.items()}) for j in (0, 1)]
        mk = lambda: mkblock(m, nl, 'm', n, 1, total, d, f, infl, kind, step=.5, method='rk4', salt=i)
        xs = rand_bundle(m, n, B, total, d, f, infl)[2]['q1']

        def call(b, o):
            X = SortedDict({k: SortedDict({kk: (vv.unsqueeze(0).repeat(2, *[1] * vv.dim()) * 1. if o == 'extra' else vv) for kk, vv in v[2].items()}) for k, v in given.items()})
            if o == 'tensor':
                return b(xs, pass_through_state_dict_of_dicts=S, pass_through_costate_dict_of_dicts=P)
            if o == 'tensor+':
                return b(xs.unsqueeze(0).repeat(2, *[1] * xs.dim()), pass_through_state_dict_of_dicts=S, pass_through_costate_dict_of_dicts=P)
            return b(pass_through_state_dict_of_dicts=S, pass_through_costate_dict_of_dicts=P, data_dict_of_dicts=X)
        b = mk()
        call(b, 'plain')
        vals = {nm: torch.randn(p.shape) * .4 for nm, p in b.named_parameters()}

        def put(c):
            for nm, p in c.named_parameters():
                p.data.copy_(vals[nm])
        put(b)
        rec.emit('Start', sig, bundles=[])
        for j, o in enumerate(order):
            with grad_mode(r):
                got = allout(call(b, o))
            c = mk()
            call(c, o)
            put(c)
            want = allout(call(c, o))
            rec.emit('Pair', '%s pass %d' % (sig, j), clause='passes-leave-no-trace', a=qt(got, 1e6), b=qt(want, 1e6), tol=1)


def inrow(rec, i, m, r):
    """two or three blocks in a row against one over the combined time"""
    n, B, d, f, infl = r.randint(1, 3), r.randint(1, 3), r.choice([1, 2]) if m not in CONV else 1, r.choice([1, 2]) if m not in CONV else 2, r.choice([1, 2])
    nl = r.choice(['tanh', 'sigmoid', 'softmax'])
    times = r.choice([[.5, .5], [.25, .75], [.5, .25, .25], [1., .5]])
    mode = r.choice(['plain', 'plain', 'grad', 'vector'])
    sig = 'row %s %s times=%s n=%d B=%d d=%d f=%d infl=%d %s' % (m, nl, times, n, B, d, f, infl, mode)
    with guard(rec, sig), quiet():
        seed_all('row', i)
        mk = lambda kind, name: mkblock(m, nl, name, n, 1, 1, d, f, infl, kind, step=.25, method='rk4', salt=r.randrange(4))
        b1 = mk('own', 'b')
        x = torch.randn(*shape(m, 'q1', B, d, f, infl), requires_grad=True)
        with torch.no_grad():
            for p in b1.named_parameters():
                p[1].normal_(std=.4)
        tail = [mk('pass', nm) for nm in ('a', 'c')[:len(times) - 1]]
        T = sum(times)
        b1.set_integration_time(T)
        ref = b1(x)
        b1.set_integration_time(times[0])
        o = b1(x)
        for t, b in zip(times[1:], tail):
            if mode == 'vector' and b is tail[-1]:
                b.set_integration_time_vector(torch.tensor([0., t]), suppress_warning=True)
            else:
                b.set_integration_time(t)
            o = b(pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2], data_dict_of_dicts=o[3])
        if mode == 'vector':
            o = (o[0][-1],) + tuple(SortedDict({k: SortedDict({kk: v[-1] for kk, v in dct[k].items()}) for k in dct}) for dct in o[1:])
        va, vb = allout(ref), allout(o)
        if mode == 'grad':
            ps = [x] + [p for nm, p in b1.named_parameters()]
            w = torch.randn(ref[0].shape)
            ga = torch.autograd.grad((ref[0] * w).sum(), ps, allow_unused=True, retain_graph=True)
            gb = torch.autograd.grad((o[0] * w).sum(), ps, allow_unused=True)
            va = torch.cat([va] + [g.reshape(-1) for g in ga if g is not None])
            vb = torch.cat([vb] + [g.reshape(-1) for g in gb if g is not None])
        big = max(1., float(va.abs().max()))
        rec.emit('Start', sig, bundles=[])
        rec.emit('Pair', sig, clause='continues-the-integration', a=qt(va / big, 1e6), b=qt(vb / big, 1e6), tol=2)


def refusals(rec):
    rec.emit('Start', 'refusals', bundles=[])
    for m in ('Simple', 'UpDown', 'Conv'):
        b = mkblock(m, 'tanh', 'b', 2, 1, 2, 1, 2, 1, 'own')
        q_, p_, x_ = rand_bundle(m, 2, 2, 1, 1, 2, 1)
        S, P, X = SortedDict({'a': q_}), SortedDict({'a': p_}), SortedDict({'a': x_})
        x = x_['q1']
        for nm, kw in (('no input', {}), ('states without costates', dict(x=x, pass_through_state_dict_of_dicts=S)), ('costates without states', dict(x=x, pass_through_costate_dict_of_dicts=P)),
                       ('states without costates, data given', dict(pass_through_state_dict_of_dicts=S, data_dict_of_dicts=X)),
                       ('data given twice', dict(x=x, pass_through_state_dict_of_dicts=S, pass_through_costate_dict_of_dicts=P, data_dict_of_dicts=X)),
                       ('particles but no data', dict(pass_through_state_dict_of_dicts=S, pass_through_costate_dict_of_dicts=P)),
                       ('name used twice', dict(pass_through_state_dict_of_dicts=SortedDict({'b': q_}), pass_through_costate_dict_of_dicts=SortedDict({'b': p_}), data_dict_of_dicts=SortedDict({'b': x_})))):
            with quiet():
                st, _ = attempt(lambda: b(**kw))
            rec.emit('Reject', 'refusal %s: %s' % (m, nm), clause='refused', raised=st == 'raise')


def run(rec):
    cs = cases()
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    ms = VEC + CONV
    if not THOROUGH:
        one = [c for c in cs if len(c['steps']) == 1]
        cs = one + rng('chain-pick').sample([c for c in cs if len(c['steps']) == 2], 300)
    r = rng('chain-more')
    for _ in range(200 if THOROUGH else 60):      # many blocks, many steps
        nm = r.sample(['a', 'c', 'k', 'm', 'z'], 5)
        cs.append(dict(start=nm[:r.randint(1, 4)], steps=[dict(nm=x, kind=r.choice(['own', 'own', 'pass']), size=r.choice([1, 1, 2])) for x in r.sample(nm, r.randint(1, 4))]))
    for i, c in enumerate(cs):
        if i % ns == sh:
            chain(rec, i, ms[i % len(ms)], c, rng('chain', i))
    for i in range(600 if THOROUGH else 96):
        if i % ns == sh:
            joint(rec, i, ms[i % len(ms)], rng('joint', i))
            inrow(rec, i, ms[i % len(ms)], rng('inrow', i))
            again(rec, i, ms[i % len(ms)], rng('again', i))
    if sh == 0:
        refusals(rec)


main(run)

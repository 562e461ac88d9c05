"""Strides real dictionaries; the event carries input and output tensors."""
from drv import *
from sortedcontainers import SortedDict
from neuro_shooting.striding_block import ShootingStridingBlock


def mk(spec, base):
    d, n = SortedDict(), base
    for b, k, s in spec:
        d.setdefault(b, SortedDict())
        c = int(np.prod(s))
        d[b][k] = torch.arange(n, n + c, dtype=torch.float64).view(tuple(s)).clone().requires_grad_(True)
        n += c
    return d, n


def log(d):
    return [{'b': b, 'k': k, 's': list(d[b][k].shape), 'v': qt(d[b][k].reshape(-1), 1)} for b in d for k in d[b]]


def one(rec, sig, sspec, dspec, stride_arg, dims_arg, strides, dims):
    with guard(rec, sig):
        s, n = mk(sspec, 1)
        c, n = mk([(b, 'p_' + k, sh) for b, k, sh in sspec], n)
        d, n = mk(dspec, n)
        l0 = [log(s), log(c), log(d)]
        st, out = attempt(lambda: ShootingStridingBlock(stride=stride_arg, stride_dims=dims_arg)(state_dict_of_dicts=s, costate_dict_of_dicts=c, data_dict_of_dicts=d))
        ev = dict(state=l0[0], costate=l0[1], data=l0[2], dims=list(dims), strides=list(strides), raised=st == 'raise', ostate=[], ocostate=[], odata=[], intact=True, grad=True)
        if st == 'ok':
            ev.update(ostate=log(out[0]), ocostate=log(out[1]), odata=log(out[2]))
            ev['intact'] = [log(s), log(c), log(d)] == l0
            tot = sum(o[b][k].sum() for o in out for b in o for k in o[b])
            leaves = [x[b][k] for x in (s, c, d) for b in x for k in x[b]]
            g = torch.autograd.grad(tot, leaves, allow_unused=True)
            kept = sum(o[b][k].numel() for o in out for b in o for k in o[b])
            ev['grad'] = int(sum(float(x.sum()) for x in g if x is not None)) == kept
        rec.emit('Stride', sig, **ev)


def run(rec):
    for i, c in enumerate(cases()):
        sh = [2, 1, c['n'], c['m']]
        dsh = [1] * c['extra'] + [3, 1, c['n'] + (i % 2), c['m']] if not c['extra'] else [3, 2, 1, c['n'], c['m']]
        strides = [c['s'], c['u']][:len(c['dims'])]
        one(rec, 'case %s' % json.dumps(c, sort_keys=True), [('b', 'q', sh)], [('b', 'q', dsh)], list(strides), list(c['dims']), strides, c['dims'])
    r = rng('striding')
    for i in range(500 if THOROUGH else 200):
        rank = r.randint(3, 5)
        big = 6 if i % 4 or rank > 4 else r.choice([9, 13, 17])
        keys = r.sample(['q', 'q1', 'q2'], r.randint(1, 2))
        blocks = r.sample(['b1', 'b10', 'b2'], r.randint(1, 2))
        sspec = [(b, k, [r.randint(1, 2), r.randint(1, 2)] + [r.randint(2, big) for _ in range(rank - 2)]) for b in blocks for k in keys]
        extra = r.choice([0, 0, 1])
        dspec = [(b, k, [2] * extra + [r.randint(1, 3), r.randint(1, 2)] + [r.randint(2, big) for _ in range(rank - 2)]) for b in blocks for k in keys]
        lo = r.choice([0, 1, 2, 2, 2, 2, 2])
        pool = list(range(lo, rank + (1 if r.random() < .1 else 0)))
        dims = r.sample(pool, r.randint(1, min(len(pool), 3)))
        strides = [r.randint(1, 4 if big == 6 else big) for _ in dims]
        form = r.choice(['list', 'tuple', 'int'])
        if form == 'int':
            strides = [strides[0]] * len(dims)
            sa, da = strides[0], (dims[0] if len(dims) == 1 else tuple(dims))
        else:
            sa, da = (list(strides), list(dims)) if form == 'list' else (tuple(strides), tuple(dims))
        one(rec, 'random %d %s' % (i, form), sspec, dspec, sa, da, strides, dims)
    for sig, st, dm in (('tuple too short', (2,), (2, 3)), ('list too long', [2, 2, 2], [2, 3]), ('bad stride type', 2.5, 2), ('bad dims type', 2, 2.5), ('string', '2', [2]), ('list for int dim', [2, 2], 2)):
        s, _ = attempt(ShootingStridingBlock, stride=st, stride_dims=dm)
        rec.emit('Reject', sig, raised=s == 'raise')


main(run)

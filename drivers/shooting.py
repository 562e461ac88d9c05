"""Evaluates the right-hand side of the real models at chosen points; the event carries states, parameters and derivatives."""
from drv import *
from models import *
import torch.nn.functional as F
torch.set_default_dtype(torch.float64)
PID = os.environ.get('VERIF_PID', 'C03')


def values(r, shp, exact, cap):
    n = int(np.prod(shp))
    v = [r.choice([-3, -2, -1, 1, 2, 3]) for _ in range(n)] if exact else [r.choice([k for k in range(-cap, cap + 1) if k]) / 8. for _ in range(n)]
    return torch.tensor(v, dtype=torch.float64).view(tuple(shp))


def norms(x, S):
    xh = F.group_norm(x, x.shape[1], eps=1e-5)
    istd = 1. / torch.sqrt(x.flatten(2).var(dim=2, unbiased=False) + 1e-5)
    return {'xh': qt(xh, S), 'istd': qt(istd, S)}


def evaluate(m, t, st, co, da, grad):
    vec, plans = m.assemble_tensor(st, co, da)
    m.set_auto_assembly_plans(plans)
    vec = vec.detach().requires_grad_(grad)
    got = []
    h = m.register_lagrangian_gradient_hook(lambda *a: got.append(a))
    with quiet():
        out = m(torch.tensor(t), vec)
    h.remove()
    ds, dc, dd = m.disassemble_tensor(out, plans)
    po = got[-1][8]
    th = {}
    for o in po:
        d = po[o].get_parameter_dict()
        th[o] = {k: d[k].detach().clone() for k in d}
    return ds, dc, dd, th, out.detach()


def one(rec, c, i):
    model, exact = c['model'], c['nl'] in ('identity', 'relu') and c['model'] != 'ConvBatch'
    conv = model in CONV
    infl = 1 if c['tr'] else c['infl']
    d = [3, 2, 1][i % 3] if c['tr'] else c['d']
    f = c['f']
    if c['tr'] and c['blocks'] > 1:
        return
    r = seed_all('shooting', i)
    w, wr = WEIGHTS[3 if c['w'] == 2 and i % 2 else c['w']]
    S, Z = (1, 2 * c['n'] * 20) if exact else ((1024 if conv else 2048), 1)
    sig = ' '.join('%s=%s' % (k, c[k]) for k in sorted(c))
    kw = {}
    if c['tr']:
        kw['transpose_state_when_forward'] = True
    if model == 'Universal':
        kw['optional_weight'] = 5
    wts = {l: {'weight': list(wr), 'bias': list(wr)} for l in LAYERS[model]}
    if model == 'Universal':
        wts['l3']['weight'] = [5, 1]
    blocks = r.choice([['a', 'b'], ['aa', 'b'], ['block10', 'block9'], ['A', 'a'], ['b', 'bb']])[:c['blocks']]
    nl = r.choice([c['nl'], c['nl'].upper()]) if c['nl'] != 'identity' else r.choice(['identity', None])
    if w is not None and i % 7 == 3:        # a weight may be a tensor
        w = torch.tensor(w)
    with guard(rec, sig):
        n, kn = c['n'], dict(kw)
        if i % 5 == 1:      # the particles come from elsewhere: the number configured here does not matter
            n = r.choice([None, 10, c['n'] + 1, max(1, c['n'] - 1)])
            kn['is_pass_through'] = True
        ms = {False: make(model, nl, n, d, f, infl, w, len(blocks), **kn)}
        if model in ANALYTIC and c['blocks'] == 1 and not c['tr']:
            ms[True] = make(model, nl, n, d, f, infl, w, len(blocks), use_analytic_solution=True, **kn)
        if i % 4 == 2:      # every parameter has its own weight
            state = r.getstate()
            for m in ms.values():
                r.setstate(state)
                wts = entry_weights(m, model, r)
        for rep in range(2 if i % 3 == 0 else 1):
            cap = 8 if conv else 12
            mk = lambda rows, pre: SortedDict({b: SortedDict({pre + k: values(r, shape(model, k, rows, d, f, infl), exact, cap) for k in KEYS[model]}) for b in blocks})
            st, co, da = mk(c['n'], ''), mk(c['n'], 'p_'), mk(r.randint(1, 2), '')
            t = r.choice([0., 0.375])
            outs = {}
            for an, m in ms.items():
                ds, dc, dd, th, out = evaluate(m, t, st, co, da, r.random() < .7)
                outs[an] = (out, th)
                ev = dict(model=model, nl=c['nl'], kind='conv' if conv else 'lin', tr=c['tr'], S=S, Z=Z, N=c['n'], wts=wts, tol=0 if exact else 40, analytic=an)
                for name, dct, pre, sc in (('q', st, '', S), ('p', co, 'p_', S), ('x', da, '', S), ('dq', ds, '', S * Z), ('dp', dc, 'p_', S * Z), ('dx', dd, '', S * Z)):
                    ev[name] = {k: [qt(dct[b][pre + k], sc) for b in blocks] for k in KEYS[model]}
                ev['th'] = {l: {'weight': qt(th[l]['weight'], S * Z), 'bias': qt(th[l]['bias'].reshape(-1), S * Z) if 'bias' in th[l] else []} for l in th}
                if model == 'ConvBatch':
                    cat = lambda dct: torch.cat([dct[b]['q1'] for b in blocks], dim=1)
                    ev['gn'], ev['gnx'] = {'q1': norms(cat(st), S)}, {'q1': norms(cat(da), S)}
                rec.emit('Eval', sig + ' rep=%d analytic=%s' % (rep, an), **ev)
            if True in outs:
                pair(rec, sig + ' rep=%d' % rep, [outs[a][0] for a in (False, True)], [outs[a][1] for a in (False, True)])


def pair(rec, sig, outs, ths=None):
    vs = [[o.reshape(-1)] for o in outs]
    if ths:
        for l in ths[0]:
            for k in ths[0][l]:
                vs[0].append(ths[0][l][k].reshape(-1))
                vs[1].append(ths[1].get(l, {}).get(k, torch.zeros(0)).reshape(-1))
    big = max(1., max(float(v.abs().max()) for v in vs[0]))
    rec.emit('Pair', sig, a=[qt(v / big, 10 ** 8) for v in vs[0]], b=[qt(v / big, 10 ** 8) for v in vs[1]], tol=2)


def forwards(rec):
    """C05: whole forward passes with and without the analytic solution"""
    r = rng('forward')
    for model in ANALYTIC:
        for i in range(24 if THOROUGH else 6):
            nl = r.choice(['tanh', 'sigmoid', 'softmax', 'identity'])
            n, d, f, infl, w = r.randint(1, 4), r.randint(1, 2), r.randint(1, 3), r.randint(1, 3), r.choice([None, .5, 3.])
            mode = ['plain', 'extra', 'rnn', 'vector', 'weights', 'plain'][i % 6]
            sig = 'forward %s %s n=%d d=%d f=%d infl=%d w=%s %s' % (model, nl, n, d, f, infl, w, mode)
            with guard(rec, sig):
                res = []
                for an in (False, True):
                    seed_all('fw', model, i)
                    m = make(model, nl, n, d, f, infl, w, use_analytic_solution=an, use_rnn_mode=mode == 'rnn')
                    b = block('b', m)
                    if mode == 'vector':
                        with quiet():
                            b.set_integration_time_vector(torch.tensor([0., .25, 1.]))
                    g = torch.Generator().manual_seed(i)
                    x = torch.randn(*([2] if mode == 'extra' else []), 3, d, f, generator=g)
                    with quiet():
                        for par in list(b._parameters.values()):
                            with torch.no_grad():
                                par.copy_(torch.randn(par.shape, generator=g) * .4)
                        y, s, c, dd = b(x)
                    l = (y ** 2).sum()
                    ps = dict(b.named_parameters())
                    gr = torch.autograd.grad(l, list(ps.values()), allow_unused=True)
                    res.append([y] + [z[k][kk] for z in (s, c, dd) for k in z for kk in z[k]] + [b.get_norm_penalty().reshape(1)] + [torch.zeros(1) if v is None else v for v in gr])
                vs = [torch.cat([v.detach().reshape(-1) for v in rr]) for rr in res]
                pair(rec, sig, vs)


def run(rec):
    sh, n = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    r = rng('many')
    for k, model in enumerate(VEC + CONV):        # many particles, wide states
        for m_, (d, f) in [(r.randint(13, 24), (1, 1)), (r.randint(25, 45), (1, 1)), (r.randint(2, 4), (5, 3)), (2, (1, r.randint(6, 9)))] if model not in CONV else [(r.randint(13, 20), (1, 2)), (2, (5, 2))]:
            cs.append(dict(model=model, nl=r.choice(['identity', 'relu']), n=m_, d=d, f=f, infl=r.choice([1, 2]), w=r.choice([0, 0, 2]), tr=False, blocks=1))
    for i, c in enumerate(cs):
        if i % n == sh:
            one(rec, c, i)
    if sh == 0 and PID == 'C05':
        forwards(rec)


main(run)

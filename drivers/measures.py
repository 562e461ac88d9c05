"""Norms of parameters and complexity measures of records, artificial and recorded along real solutions."""
from collections import defaultdict
from drv import *
from models import *
import neuro_shooting.shooting_hooks as sh
import neuro_shooting.validation_measures as vm
import neuro_shooting.overwrite_classes as oc


class Obj:
    def __init__(self, d):
        self.d = d

    def get_parameter_dict(self):
        return self.d


def par_object(r, mats):
    """mats: {name: tensor}; a real layer where that fits"""
    if set(mats) <= {'weight', 'bias'} and 'weight' in mats and r.random() < .7:
        w = mats['weight']
        with quiet():
            o = oc.SNN_Linear(w.shape[1], w.shape[0], bias='bias' in mats)
        o = o.to(w.dtype)
        d = o.get_parameter_dict()
        for k, v in mats.items():
            d[k] = v
        return o
    return Obj(mats)


def tensor(mat, den, dt, r):
    t = torch.tensor(mat, dtype=dt) / den
    return layout(t, r).requires_grad_(r.random() < .5)


def sv(r, dt):
    m, n = r.randint(1, 6), r.randint(1, 7)
    d = [r.randint(0, 6) for _ in range(min(m, n))]
    u = torch.linalg.qr(torch.randn(m, m, dtype=torch.float64))[0]
    v = torch.linalg.qr(torch.randn(n, n, dtype=torch.float64))[0]
    s = torch.zeros(m, n, dtype=torch.float64)
    for k, x in enumerate(d):
        s[k, k] = x
    return (u @ s @ v).to(dt), d


def norms(rec, i, mats, r):
    seed_all('measures', i)
    dt = r.choice([torch.float32, torch.float64])
    den = r.choice([1, 2, 4, 1, 2, 4, 2 ** 17, 2. ** -12])
    objs, desc, keep = {}, [], []
    mats = list(mats)
    names = r.sample(['l1', 'l2', 'l3', 'b.l1', 'conv', 'bias'], 6)
    while mats or not objs:
        pars, pd = {}, []
        k = r.choice([1, 1, 2])
        for pn in r.sample(['weight', 'w2', 'dampening', 'bias_weight', 'biases'], k) if r.random() < .4 else ['weight']:
            if not mats:
                break
            m = mats.pop()
            if m is None:
                t, d = sv(r, dt)
                t = (t / den).requires_grad_(r.random() < .5)
                pars[pn] = t
                pd.append(dict(name=pn, kind='sv', sv=d, mat=[]))
            else:
                if r.random() < .3:
                    m = [list(x) for x in zip(*m)]
                pars[pn] = tensor(m, den, dt, r)
                pd.append(dict(name=pn, kind='mat', mat=m, sv=[]))
        if r.random() < .6:
            pars['bias'] = torch.randn(3, dtype=dt)
            pd.append(dict(name='bias', kind='mat', mat=[], sv=[]))
        nm = names.pop()
        objs[nm] = par_object(r, pars)
        desc.append(dict(name=nm, pars=pd))
        keep += [(v, v.detach().clone(), v.requires_grad) for v in pars.values()]
    sig = 'norms %d: %s over %d' % (i, [[(p['name'], p['mat'] or p['sv']) for p in o['pars']] for o in desc], den)
    rec.emit('Start', sig)
    with guard(rec, sig):
        with grad_mode(r), quiet():
            res = sh.compute_parameter_norms(objs)
        got = {k: q(float(np.asarray(v).reshape(-1)[0] if np.asarray(v).size == 1 else float('nan')) * den * den, 1000) for k, v in res.items()}
        rec.emit('Norms', sig, objs=desc, keys=sorted(got), got=got, same=all(torch.equal(v.detach(), c) and v.requires_grad == g for v, c, g in keep))


def complexity(rec, sig, t, tick, series, sc, exact, r):
    """t in ticks, series: three lists of integers times 1/sc"""
    mk = r.choice([lambda x: [float(v) for v in x], lambda x: np.array([float(v) for v in x]), lambda x: [np.array(float(v), dtype=np.float64) for v in x]])
    data = {'t': [v * tick for v in t] if r.random() < .7 else np.array([v * tick for v in t], dtype=np.float64), 'energy': [1.] * len(t), 'l1.weight': [np.zeros((2, 2))] * len(t)}
    for k, s in zip(('frobenius', 'nuclear', 'spectral'), series):
        data['sum_sqr_%s_norm' % k] = mk([v / sc for v in s])
    if r.random() < .5:
        dd = defaultdict(list)
        dd.update(data)
        data = dd
    measure(rec, sig, data, t, tick, series, sc, exact)


def measure(rec, sig, data, t, tick, series, sc, exact):
    b = repr(sorted(data.items(), key=lambda x: x[0]))
    with guard(rec, sig):
        with quiet():
            res = vm.compute_complexity_measures(data)
        rec.emit('Complexity', sig, t=t, fro=series[0], nuc=series[1], spe=series[2], sc=sc, exact=exact,
                 got=[q(float(res['log2_%s' % k]) / tick, 4096) for k in ('frobenius', 'nuclear', 'spectral')], three=len(res) == 3,
                 same=repr(sorted(data.items(), key=lambda x: x[0])) == b)


def hooked(rec, i, r):
    """record along a real solution"""
    seed_all('measures-hook', i)
    name = r.choice(VEC)
    sig = 'recorded along %s %d' % (name, i)
    rec.emit('Start', sig)
    with guard(rec, sig):
        with quiet():
            f = r.randint(1, 3)
            mod = make(name, r.choice(['tanh', 'relu', 'sigmoid']), r.randint(2, 4), 1, f, 2)
            b = block('b', mod, step=r.choice([.5, .25]))
            x = torch.randn(*shape(name, 'q1', 3, 1, f, 2))
            data = defaultdict(list)
            h = b.shooting_integrand.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
            b.shooting_integrand.set_custom_hook_data(data=data)
            b(x)
            if r.random() < .5:
                b(x)
            h.remove()
        nt = len(data['t'])
        pk = [k for k in data if k.split('.')[-1] in ('weight', 'bias') and k.count('.') == 1 and 'sqr_' not in k]
        nk = [k for k in data if 'sqr_' in k]
        same, ln = True, all(len(data[k]) == nt for k in nk + pk) and len(nk) > 0
        for j in range(nt):
            o = {}
            for k in pk:
                o.setdefault(k.split('.')[0], {})[k.split('.')[1]] = torch.tensor(data[k][j])
            with quiet():
                want = sh.compute_parameter_norms({k: Obj(v) for k, v in o.items()})
            same = same and sorted(want) == sorted(nk) and all(abs(float(np.asarray(want[k]).reshape(-1)[0]) - float(np.asarray(data[k][j]).reshape(-1)[0])) <= 1e-4 * (1 + abs(float(np.asarray(want[k]).reshape(-1)[0]))) for k in nk)
        rec.emit('Hook', sig, len=nt if ln else -1, times=nt, same=same)
        tick = 1 / 192
        ts = [int(round(v / tick)) for v in data['t']]
        ser = [[float(np.asarray(v).reshape(-1)[0]) for v in data['sum_sqr_%s_norm' % k]] for k in ('frobenius', 'nuclear', 'spectral')]
        lo, hi = min(min(s) for s in ser), max(max(s) for s in ser)
        if all(abs(v - w * tick) < 1e-6 for v, w in zip(data['t'], ts)) and lo > 1e-6 and hi < 1e4:
            sc = 1
            while hi * sc < 2e7 and sc < 1e7:
                sc *= 10
            if lo * sc > 3000:
                measure(rec, sig + ' measures', data, ts, tick, [[int(round(v * sc)) for v in s] for s in ser], sc, False)


def run(rec):
    cs = cases()
    r = rng('measures')
    mats = [c['a'] for c in cs if c['kind'] == 'mat']
    r.shuffle(mats)
    i = 0
    while mats:
        k = r.choice([1, 2, 3])
        norms(rec, i, mats[:k], rng('norms', i))
        mats = mats[k:]
        i += 1
    for j in range(120 if not THOROUGH else 900):
        n = r.choice([1, 2, 3])
        ms = [None if r.random() < .5 else [[r.randint(-2, 2) for _ in range(c)] for _ in range(rr)] for rr, c in [r.choice([(1, 1), (1, 4), (2, 4), (3, 3), (3, 4), (2, 5)]) for _ in range(n)]]
        norms(rec, 10000 + j, ms, rng('norms', 'r', j))
    for j, c in enumerate([c['s'] for c in cs if c['kind'] == 'series']):
        rr = rng('series', j)
        sig = 'series %s' % [(x['t'], x['v']) for x in c]
        rec.emit('Start', sig)
        t = [x['t'] for x in c]
        e = rr.random() < .3
        if e:
            p = [2 ** rr.randint(0, 5) for _ in range(3)]
            complexity(rec, sig + ' powers', t, rr.choice([1, .5, .125, 2. ** -11, 2. ** -15]), [[v * 1000] * len(t) for v in p], 1000, True, rr)
        else:
            f = [rr.sample([1, 1, 2, 3, 5], 3) for _ in range(3)]
            complexity(rec, sig, t, rr.choice([1, .5, .125, 2. ** -11, 2. ** -15]), [[x['v'] * f[k][0] * 1000 for x in c] for k in range(3)], 1000, False, rr)
    for j in range(150 if not THOROUGH else 1500):
        rr = rng('series', 'r', j)
        n = rr.randint(1, 12)
        t, cur = [], rr.randint(-5, 20)
        for _ in range(n):
            t.append(cur)
            cur = rr.choice([cur, cur + rr.randint(1, 9), cur - rr.randint(1, 9), 0]) if rr.random() < .4 else cur + rr.randint(1, 5)
        ser = [[rr.randint(30, 50000) for _ in range(n)] for _ in range(3)]
        rec.emit('Start', 'random series %d' % j)
        complexity(rec, 'random series %d: %s' % (j, t), t, rr.choice([1, .5, .125, 1 / 64, 1 / 1024, 2. ** -16, 64]), ser, 1000, False, rr)
    for j in range(40 if not THOROUGH else 300):
        hooked(rec, j, rng('hooked', j))


main(run)

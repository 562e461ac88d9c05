"""Checkpointed integration with the real integrator: the pieces it makes, the values and the gradients."""
from drv import *
from models import quiet, make, block
from neuro_shooting.generic_integrator import GenericIntegrator
Q = 6000


class Lin(torch.nn.Module):
    """x' = theta * (B x + d) + t * c"""

    def __init__(self, B, c, d, th, dtype):
        super().__init__()
        self.B, self.c, self.d = [torch.tensor([[float(v) for v in row] if isinstance(row, list) else float(row) for row in z], dtype=dtype) for z in (B, c, d)]
        self.th = torch.nn.Parameter(torch.tensor(float(th), dtype=dtype))

    def forward(self, t, x):
        return self.th * (torch.matmul(self.B, x) + self.d) + t * self.c


class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.l1, self.l2 = torch.nn.Linear(3, 4), torch.nn.Linear(4, 3)

    def forward(self, t, x):
        return self.l2(torch.tanh(self.l1(x))) * (1 + t)


def grads(loss, leaves):
    """by backward(): the only way checkpointing supports"""
    for p in leaves:
        p.grad = None
    loss.backward()
    return [p.grad for p in leaves]


def opts(c, h):
    return dict(nr_of_checkpoints=c['v']) if c['by'] == 'number' else dict(checkpointing_time_interval=c['v'] / 60. * h)


def cps(c):
    t, s = c['t'], (1 if c['t'][-1] >= c['t'][0] else -1)
    if c['by'] == 'number':
        return [60 * t[0] + j * 60 * (t[-1] - t[0]) / (c['v'] + 1) for j in range(c['v'] + 2)]
    return [60 * t[0] + s * j * c['v'] for j in range(1000) if j * c['v'] < 60 * abs(t[-1] - t[0])] + [60 * t[-1]]


def partition(rec, c, h, dtype):
    gi = GenericIntegrator('odeint', 'rk4', step_size=0.1, **opts(c, h))
    fn = getattr(gi, 'create_integration_time_intervals', None)
    if fn is None:
        return
    sig = 'partition t=%s %s=%s tick=%s %s' % (c['t'], c['by'], c['v'], h, str(dtype)[6:])
    with guard(rec, sig):
        t = torch.tensor([float(x) for x in c['t']], dtype=dtype) * h
        ivs, marks = fn(t)
        tv = [float(x) for x in t]
        iv = [[float(x) for x in p] for p in ivs]
        s = 1 if tv[-1] >= tv[0] else -1
        rec.emit('Partition', sig, t=c['t'], by=c['by'], v=c['v'], tol=3,
                 pieces=[[q(x / h, Q) for x in p] for p in iv], marks=[[bool(x) for x in m] for m in marks],
                 idx=[[tv.index(x) + 1 if x in tv else 0 for x in p] for p in iv],
                 chained=all(a[-1] == b[0] for a, b in zip(iv, iv[1:])),
                 monotone=all(s * a < s * b for p in iv for a, b in zip(p, p[1:])))


def integrate(rec, c, r, adjoint):
    fits = all(x % 60 == 0 for x in cps(c))
    th = r.choice([1, -1, 2])
    d = [r.randint(-2, 2), r.randint(1, 2)]
    B = [[r.randint(-1, 1) for _ in range(2)] for _ in range(2)]
    cc = [r.randint(-2, 2) if fits else 0 for _ in range(2)]
    if not fits:
        B = [[0, 0], [0, 0]]
    x0 = [r.randint(-3, 3), r.randint(1, 3)]
    w = [[r.randint(-2, 2), r.randint(1, 2)] for _ in c['t']]
    sig = 'integrate t=%s %s=%s adjoint=%s th=%s B=%s c=%s d=%s x0=%s' % (c['t'], c['by'], c['v'], adjoint, th, B, cc, d, x0)
    with guard(rec, sig):
        f = Lin(B, cc, d, th, torch.float64)
        gi = GenericIntegrator('odeint', 'euler', use_adjoint_integration=adjoint, integrator_options=dict(step_size=1.0), **opts(c, 1.))
        y0 = torch.tensor([float(v) for v in x0], dtype=torch.float64, requires_grad=True)
        st, res = attempt(gi.integrate, func=f, x0=y0, t=torch.tensor([float(v) for v in c['t']], dtype=torch.float64))
        ev = dict(t=c['t'], x0=x0, th=th, B=B, c=cc, d=d, w=w, raised=st == 'raise', grads=False, x=[], gx=[], gth=0)
        if st == 'ok':
            ev['x'] = qt(res, 1000)
            if not adjoint and res.shape[0] == len(w):
                gx, gt = grads((res * torch.tensor(w, dtype=torch.float64)).sum(), [y0, f.th])
                ev.update(grads=True, gx=qt(gx if gx is not None else torch.full([2], float('nan')), 1000), gth=q(gt if gt is not None else float('nan'), 1000))
        else:
            ev['what'] = ascii_(str(res))[:200]
        rec.emit('Integrate', sig, **ev)


def pair(rec, r, i):
    """nonlinear function, all solvers; step that fits the pieces"""
    method = ['euler', 'midpoint', 'rk4', 'dopri5', 'euler', 'rk4'][i % 6]
    nt = r.randint(2, 5)
    ticks = sorted(r.sample(range(0, 9), nt), reverse=r.random() < .3)
    k = r.choice([n for n in range(1, 6) if abs(ticks[-1] - ticks[0]) % (n + 1) == 0] or [0])
    kw = dict(nr_of_checkpoints=k) if k else dict(checkpointing_time_interval=r.choice([.125, .25, .5]))
    sig = 'pair %s t=%s/8 %s' % (method, ticks, kw)
    with guard(rec, sig):
        seed_all('ckpair', i)
        f = Net().double()
        x0 = torch.randn(3, dtype=torch.float64, requires_grad=True)
        t = torch.tensor(ticks, dtype=torch.float64) / 8
        w = torch.randn(nt, 3, dtype=torch.float64)
        o, res = {} if method == 'dopri5' else dict(step_size=0.0625), []
        for extra in ({}, kw):
            gi = GenericIntegrator('odeint', method, integrator_options=dict(o), rtol=1e-9, atol=1e-10, **extra)
            y = gi.integrate(func=f, x0=x0, t=t)
            ps = [x0] + list(f.parameters())
            g = grads((y * w).sum(), ps)
            res.append([qt(v.reshape(-1), 1e6) for v in (y,) + tuple(g)])
        rec.emit('Pair', sig, a=res[0], b=res[1], tol=20 if method == 'dopri5' else 2)


def shoot(rec, r, i):
    """a shooting block with a checkpointed integrator against the plain one"""
    import copy
    model = ['UpDown', 'Simple', 'Universal'][i % 3]
    kw = [dict(nr_of_checkpoints=1), dict(nr_of_checkpoints=3), dict(checkpointing_time_interval=.25), dict(checkpointing_time_interval=.5)][i % 4]
    tv = [None, [0., .25, 1.], [0., .5, .75, 1.]][(i // 2) % 3]
    mode = ['plain', 'plain', 'pf', 'pft', 'frozen'][i % 5]
    sig = '%s block %s %s times=%s' % (mode, model, kw, tv)
    mkw, bkw = dict(frozen=dict(use_rnn_mode=True)).get(mode, {}), dict(pf=dict(use_particle_free_rnn_mode=True), pft=dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2)).get(mode, {})
    if mode == 'frozen':   # values; the gradients are asked for separately
        with guard(rec, sig + ' values'), quiet():
            res = []
            for extra in ({}, kw):
                seed_all('ckshoot', i)
                b = block('b', make(model, 'tanh', n=3, d=1, f=2, **mkw), integrator=GenericIntegrator('odeint', 'rk4', integrator_options=dict(step_size=.125), **extra))
                res.append([qt(b(torch.ones(4, 1, 2) * .5)[0].detach().reshape(-1), 1e5)])
            rec.emit('Pair', sig + ' values', a=res[0], b=res[1], tol=30)
    with guard(rec, sig):
        res = []
        for extra in ({}, kw):
            seed_all('ckshoot', i)
            gi = GenericIntegrator('odeint', 'rk4', integrator_options=dict(step_size=.125), **extra)
            m = make(model, 'tanh', n=3, d=1, f=2, **mkw)
            with quiet():
                b = block('b', m, integrator=gi, **bkw)
                if tv:
                    b.set_integration_time_vector(torch.tensor(tv), suppress_warning=True)
                x = torch.randn(4, 1, 2, requires_grad=True)
                y = b(x)[0]
            ps = [x] + [p for n, p in sorted(b.named_parameters())]
            g = grads((y * torch.linspace(-1, 1, y.numel()).view(y.shape)).sum(), ps)
            res.append([qt(v.reshape(-1), 1e5) if v is not None else [] for v in (y,) + tuple(g)])
        rec.emit('Pair', sig, a=res[0], b=res[1], tol=30)


def run(rec):
    cs = cases()
    r = rng('checkpoint')
    for i, c in enumerate(cs):
        h, dt = [(1., torch.float64), (.25, torch.float32), (.1, torch.float32), (.1, torch.float64), (1 / 3., torch.float64), (.7, torch.float32)][(i + SEED) % 6]
        partition(rec, c, h, dt)
        if not THOROUGH or i % 3 == 0:
            integrate(rec, c, r, adjoint=i % 5 == 0)
    for i in range(1500 if THOROUGH else 300):
        n = r.randint(2, 7)
        ticks = sorted(r.sample(range(-3, 40), n), reverse=r.random() < .4)
        c = dict(t=ticks, by='number', v=r.randint(1, 5)) if r.random() < .5 else dict(t=ticks, by='interval', v=r.choice([20, 30, 36, 60, 77, 120, 200, 333, 600]))
        partition(rec, c, r.choice([1., .1, .3, 1 / 3., .01]), r.choice([torch.float32, torch.float64]))
    torch.set_default_dtype(torch.float64)
    for i in range(240 if THOROUGH else 60):
        pair(rec, r, i)
    for i in range(60 if THOROUGH else 20):
        shoot(rec, r, i)
    torch.set_default_dtype(torch.float32)
    f, x0 = Lin([[1, 0], [0, 1]], [0, 0], [0, 0], 1, torch.float32), torch.ones(2)
    for sig, kw, t in (('both kinds of checkpoints', dict(nr_of_checkpoints=2, checkpointing_time_interval=.5), [0., 1.]), ('one time only', dict(nr_of_checkpoints=2), [0.]),
                       ('one time only, interval', dict(checkpointing_time_interval=.2), [0.])):
        st, _ = attempt(lambda: GenericIntegrator('odeint', 'rk4', **kw).integrate(func=f, x0=x0, t=torch.tensor(t)))
        rec.emit('Reject', sig, raised=st == 'raise')
    gi = GenericIntegrator('odeint', 'rk4')
    if hasattr(gi, 'create_integration_time_intervals'):
        st, _ = attempt(gi.create_integration_time_intervals, torch.tensor([0., 1.]))
        rec.emit('Reject', 'no checkpoints', raised=st == 'raise')


main(run)

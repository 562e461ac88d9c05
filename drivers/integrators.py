"""Creates real integrators from (shared) option objects and records what they do."""
from drv import *
import torchdiffeq
from neuro_shooting.generic_integrator import GenericIntegrator
from models import make, block, quiet
UNIT = 48


class Rec(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.times = []
        self.a = torch.nn.Parameter(torch.tensor(0.5))

    def forward(self, t, x):
        self.times.append(float(t))
        return self.a * torch.tanh(x) + t


def use(gi, t):
    f = Rec()
    y = gi.integrate(func=f, x0=torch.tensor([1., -.5]), t=torch.tensor(t))
    return [q(v, UNIT) for v in f.times], y


def behaviours(rec, c, i, r):
    """objects 1 and 2 are the caller's dictionaries; integrators made in order, used in a random order, some twice"""
    st = {1: c['c1'], 2: c['c2']}
    sig = 'objects=%s made=%s' % (st, [(x['m'], x['o'], x['d']) for x in c['made']])
    with guard(rec, sig):
        objs = {k: ({} if v == -1 else dict(step_size=v / UNIT)) for k, v in st.items()}
        if all(x['m'] != 'dopri5' for x in c['made']) and r.random() < .4:      # other options next to (or instead of) the step size
            for v in objs.values():
                v.update(r.choice([dict(perturb=False), dict(interp='linear')]))
        before = {k: dict(v) for k, v in objs.items()}
        gis = []
        for x in c['made']:
            gis.append(GenericIntegrator('odeint', x['m'], integrator_options=None if x['o'] == -1 else objs[x['o']], step_size=None if x['d'] == -1 else x['d'] / UNIT))
        order = list(range(len(gis))) * r.choice([1, 2])
        r.shuffle(order)
        t = r.choice([[0, 48], [0, 48], [6, 66], [0, 12, 42]])
        out, warned = {}, False
        for j in order:
            x = c['made'][j]
            if x['m'] == 'dopri5' and x['o'] != -1 and st[x['o']] != -1:
                continue
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                out[j] = use(gis[j], [v / UNIT for v in t])
            if x['m'] == 'dopri5':
                warned = warned or any('step_size' in str(z.message) for z in w)
                ref = torchdiffeq.odeint(Rec(), torch.tensor([1., -.5]), torch.tensor([v / UNIT for v in t]), rtol=1e-3, atol=1e-5, method='dopri5')
                rec.emit('Pair', sig + ' adaptive', clause='adaptive-as-library', a=[qt(out[j][1].reshape(-1), 1e6)], b=[qt(ref.reshape(-1), 1e6)], tol=2)
        if warned:
            rec.emit('Flag', sig, clause='adaptive-gets-no-step-size', ok=False)
        made = [dict(m=x['m'] if j in out else 'skipped', o=x['o'], d=x['d'], evals=out[j][0] if j in out else []) for j, x in enumerate(c['made'])]
        rec.emit('Made', sig, caller=[st[1], st[2]], made=made, t=t, intact=objs == before)


def library(rec, i, r):
    """values are the library's with exactly the settings asked for"""
    m = ['euler', 'midpoint', 'rk4', 'dopri5', 'explicit_adams', 'fixed_adams'][i % 6]
    rtol, atol = r.choice([(1e-3, 1e-5), (1e-1, 1e-1), (1e-6, 1e-7), (1e-8, 1e-9), (1e-10, 1e-12), (1e-9, 1e-3), (1e-2, 1e-11), (1., 1e-7)])
    dt = torch.float64 if min(rtol, atol) < 1e-6 else torch.float32
    opt = {} if m == 'dopri5' else dict(step_size=r.choice([.1, .25, .3]))
    if m == 'dopri5' and r.random() < .5:
        opt = dict(first_step=r.choice([.01, .2]))
    adj = r.random() < .4
    t = torch.tensor(sorted(r.sample([0., .2, .5, .9, 1., 1.7, 2.5], r.randint(2, 4)), reverse=r.random() < .2)).to(dt)
    sig = 'library %s rtol=%s atol=%s opt=%s adjoint=%s t=%s' % (m, rtol, atol, opt, adj, [round(float(v), 3) for v in t])
    with guard(rec, sig):
        seed_all('lib', i)
        x0 = torch.randn(3).to(dt).requires_grad_(True)
        w = torch.randn(len(t), 3).to(dt)
        gi = GenericIntegrator('odeint', m, use_adjoint_integration=adj, integrator_options=dict(opt), rtol=rtol, atol=atol)
        f1, f2 = Rec().to(dt), Rec().to(dt)
        y = gi.integrate(func=f1, x0=x0, t=t)
        fn = torchdiffeq.odeint_adjoint if adj else torchdiffeq.odeint
        z = fn(f2, x0, t, rtol=rtol, atol=atol, method=m, options=dict(opt))
        g1 = torch.autograd.grad((y * w).sum(), [x0, f1.a])
        g2 = torch.autograd.grad((z * w).sum(), [x0, f2.a])
        rec.emit('Pair', sig, clause='settings-honoured', a=[qt(y.reshape(-1), 1e6)], b=[qt(z.reshape(-1), 1e6)], tol=2)
        rec.emit('Pair', sig + ' gradients', clause='gradients-honoured', a=[qt(v.reshape(-1), 1e5) for v in g1], b=[qt(v.reshape(-1), 1e5) for v in g2], tol=10)
        rec.emit('Flag', sig + ' evaluations', clause='evaluations', ok=f1.times == f2.times)
        if adj:
            g3 = GenericIntegrator('odeint', m, integrator_options=dict(opt), rtol=rtol, atol=atol).integrate(func=Rec().to(dt), x0=x0, t=t)
            rec.emit('Pair', sig + ' direct', clause='adjoint-values', a=[qt(y.reshape(-1), 1e6)], b=[qt(g3.reshape(-1), 1e6)], tol=2)


def blocks(rec, i, r):
    """integrator settings given to a block reach the solver"""
    m = ['euler', 'midpoint', 'rk4'][i % 3]
    step = r.choice([6, 12, 24, 48])
    T = r.choice([24, 48, 96])
    share = dict(step_size=step / UNIT)
    sig = 'block %s step=%s/48 T=%s/48' % (m, step, T)
    with guard(rec, sig):
        import neuro_shooting.shooting_blocks as sb
        times = [[], []]
        for j in range(2):
            mod = make('Simple', 'tanh', n=2, d=1, f=2)
            mod.register_lagrangian_gradient_hook(lambda *a, j=j: times[j].append(float(a[1])))
            with quiet():
                b = sb.ShootingBlockBase('b%d' % j, shooting_integrand=mod, integrator_name=m if j == 0 else 'rk4', integrator_options=share, max_integration_time=T / UNIT)
                b(torch.randn(2, 1, 2))
        made = [dict(m=m if j == 0 else 'rk4', o=1, d=24, evals=[q(v, UNIT) for v in times[j]]) for j in range(2)]
        rec.emit('Made', sig, caller=[step, -1], made=made, t=[0, T], intact=share == dict(step_size=step / UNIT))


def run(rec):
    r = rng('integrators')
    cs = cases()
    if not THOROUGH:
        r.shuffle(cs)
        cs = cs[:1300]
    for i, c in enumerate(cs):
        behaviours(rec, c, i, r)
    ms = ['euler', 'midpoint', 'rk4', 'dopri5']
    for i in range(200):
        c = dict(c1=r.choice([-1, 6, 12, 18, 30]), c2=r.choice([-1, 6, 24]), made=[dict(m=r.choice(ms), o=r.choice([-1, 1, 2]), d=r.choice([-1, 6, 12, 24, 30])) for _ in range(r.randint(3, 5))])
        behaviours(rec, c, i, r)
    for i in range(600 if THOROUGH else 120):
        library(rec, i, r)
    for i in range(60 if THOROUGH else 18):
        blocks(rec, i, r)
    for sig, a in (('unknown library', ('scipy', 'rk4')), ('unknown method', ('odeint', 'rk5')), ('method of the other library', ('odeint', 'rk2')), ('anode without dopri', ('anode', 'dopri5')), ('empty name', ('odeint', '')), ('library in capitals', ('ODEINT', 'rk4'))):
        st, _ = attempt(lambda: GenericIntegrator(*a))
        rec.emit('Reject', sig, raised=st == 'raise')
    for m in ['dopri5', 'adams', 'euler', 'midpoint', 'rk4', 'explicit_adams', 'fixed_adams']:
        st, _ = attempt(lambda: GenericIntegrator('odeint', m))
        rec.emit('Flag', 'supported method ' + m, clause='supported', ok=st == 'ok')
    for m in ['rk2', 'rk4']:
        st, _ = attempt(lambda: GenericIntegrator('anode', m))
        rec.emit('Flag', 'supported anode method ' + m, clause='supported', ok=st == 'ok')


main(run)

"""Asks real time-dependent particle-free blocks for their parameters at sequences of times."""
from drv import *
from models import *
import re
import neuro_shooting.shooting_blocks as sb


def direct(rec, K, G, us, t0, T, dt, what):
    cls = getattr(sb, 'ParticleFreeParameterFunc', None)
    if cls is None:
        return
    sig = '%s K=%d G=%d asked=%s on [%s,%s] %s' % (what, K, G, us, t0, t0 + T, str(dt)[6:])
    with guard(rec, sig), quiet():
        made = []
        f = cls(time_dependent_steps=K, integration_time=torch.tensor([t0, t0 + T], dtype=dt), parameter_creation_func=lambda: made.append(0) or len(made))
        ans = [f.get_parameters_at_time(torch.tensor(t0 + T * u / float(K * G), dtype=dt)) for u in us]
        rec.emit('Ask', sig, K=K, G=G, us=us, ans=ans, sets=len(made))


class Asker:
    def __init__(self, m, K, T, step=.25):
        self.mod = make(m, 'tanh', n=2, d=1, f=2, infl=1)
        kw = {} if T == 1 else dict(max_integration_time=T)
        self.b = block('b', self.mod, step=step, use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=K, **kw)
        self.ids, self.sets = {}, set()
        for n, (name, p) in enumerate(self.b.named_parameters()):
            g = re.search(r'timestep(\d+)', name)
            if g:
                p.data.fill_((n + 1) / 1024.)
                self.ids[n + 1] = int(g.group(1)) + 1
                self.sets.add(int(g.group(1)))
        self.seen = []
        self.mod.register_lagrangian_gradient_hook(self.hook)
        self.K, self.T = K, T

    def hook(self, *a):
        s = set()
        for o in a[8]:
            d = a[8][o].get_parameter_dict()
            for k in d:
                s.add(self.ids.get(q(float(d[k].reshape(-1)[0]), 1024), -1))
        self.seen.append((float(a[1]), s.pop() if len(s) == 1 else -2))


def asks(rec, r, i, m, K, T, usl, G, dt):
    sig0 = 'block %s K=%d T=%s' % (m, K, T)
    with guard(rec, sig0), quiet():
        seed_all('lookup', i)
        a = Asker(m, K, T)
        x = torch.randn(2, 1, 2) if m not in CONV else torch.randn(2, 1, 2, 3)
        a.b(x)
        # evaluations of the solver itself
        ev = [(t, s) for t, s in a.seen]
        pts = [(t / T * K * 6, s) for t, s in ev]
        ok = [(int(round(u)), s) for u, s in pts if abs(u - round(u)) < 1e-3 and (int(round(u)) % 6 != 0 or K in (1, 2, 4, 8) or int(round(u)) in (0, 6 * K))]
        rec.emit('Ask', sig0 + ' during a forward pass', K=K, G=6, us=[u for u, s in ok], ans=[s for u, s in ok], sets=len(a.sets))
        vec = None
        grab = []
        h = a.mod.register_lagrangian_gradient_hook(lambda *z: grab.append((z[2], z[3], z[4])))
        a.b(x)
        h.remove()
        vec, plans = a.mod.assemble_tensor(*grab[0])
        a.mod.set_auto_assembly_plans(plans)
        for us in usl:
            with guard(rec, sig0 + ' asked=%s' % us):
                del a.seen[:]
                for u in us:
                    a.mod(torch.tensor(T * u / float(K * G), dtype=dt), vec.detach())
                rec.emit('Ask', sig0 + ' asked=%s' % us, K=K, G=G, us=us, ans=[s for t, s in a.seen], sets=len(a.sets))
            if r.random() < .1:
                a.b(x)


def run(rec):
    r = rng('lookup')
    cs = cases()
    for i, c in enumerate(cs):
        t0, T, dt = [(0., 1., torch.float32), (0., 2., torch.float64), (-1., .5, torch.float32), (.5, 4., torch.float64)][i % 4]
        direct(rec, c['K'], 2, c['us'], t0, T, dt, 'direct')
    for i in range(600 if THOROUGH else 150):
        K = r.randint(1, 12) if i % 3 else r.randint(13, 70)
        us = [u for u in [r.randint(-3, K * 5 + 3) for _ in range(r.randint(4, 14))] if u % 5 or u in (0, 5 * K)]
        direct(rec, K, 5, us, 0., r.choice([1., .3, 3., 7.]), r.choice([torch.float32, torch.float64]), 'random')
    for i in range(400 if THOROUGH else 100):      # pieces of length one (or a power of two): the boundaries are exact
        K, w = r.randint(2, 70), r.choice([1., 1., 2., .5, .125])
        us = [r.choice([r.randint(-3, K * 4 + 3), 4 * r.randint(0, K)]) for _ in range(r.randint(4, 14))]
        if i % 3 == 0:
            us.sort(reverse=bool(i % 2))
        direct(rec, K, 4, us, 0., K * w, r.choice([torch.float32, torch.float64]), 'whole')
    byK = {2: [c['us'] for c in cs if c['K'] == 2], 4: [c['us'] for c in cs if c['K'] == 4]}
    ms = ['Simple', 'UpDown', 'Conv', 'General', 'SecondOrder']
    n = 0
    for rep in range(4 if THOROUGH else 1):
        for m in ms:
            for K in (2, 4):
                n += 1
                asks(rec, r, n, m, K, [1., 2., .5][n % 3], r.sample(byK[K], 40), 2, torch.float32)
            for K in (1, 3, 5, 10, r.choice([13, 16, 25, 40])):
                n += 1
                usl = [[u for u in [r.randint(-2, K * 4 + 2) for _ in range(r.randint(3, 9))] if u % 4 or u in (0, 4 * K)] for _ in range(8)]
                asks(rec, r, n, m, K, r.choice([1., 2., 3.]), usl, 4, torch.float32)


main(run)

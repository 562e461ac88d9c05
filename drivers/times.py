"""Sets integration times on real blocks, converts them, runs them."""
from drv import *
from models import *
torch.set_default_dtype(torch.float64)
UNIT = 10 ** 6
SC = 1e5


def behaviour(rec, r, i, ops, small=1.):
    m = r.choice(['Simple', 'UpDown', 'SecondOrder', 'Universal', 'Conv', 'Periodic'])
    mx = r.choice([None, None, 2, 3, 6])
    TICK = .25 if i % 3 or mx is None else r.choice([.3, .7, .1, 1. / 3, .0371])     # the default end time is 1
    pf = r.choice(['', '', '', '', '', 'pf', 'pft'])
    sig = '%s max=%s ops=%s%s' % (m, mx, json.dumps(ops), '' if TICK == .25 else ' tick=%.4f' % TICK)
    seed_all('times', i)
    with guard(rec, sig + ' setup'):
        mod = make(m, 'tanh', n=2, d=1, f=2, infl=2)
        kw = {}
        if mx is not None:
            kw['max_integration_time'] = mx * TICK
        if pf == 'pf':
            kw['use_particle_free_rnn_mode'] = True
        if pf == 'pft':     # one piece: the same parameters at all times
            kw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=1)
        b = block('b', mod, method='rk4', step=TICK, **kw)
        if small != 1:
            with torch.no_grad():
                b(torch.randn(*shape(m, 'q1', 2, 1, 2, 2)))
                for p in b.parameters():
                    p.mul_(small)
        x = torch.randn(*shape(m, 'q1', 2, 1, 2, 2))
        ev = []
        mod.register_lagrangian_gradient_hook(lambda *a: ev.append(float(a[1])))
        rec.emit('Start', sig, max=4 if mx is None else mx, x0=qt(x.reshape(-1), SC))
    n = 0
    for op in ([None] if i % 3 else []) + list(ops):
        n += 1
        s2 = '%s at %d' % (sig, n)
        with guard(rec, s2), quiet():
            if op is None:
                pass
            elif op['k'] == 'end':
                v = op['t'] * TICK
                b.set_integration_time(r.choice([v, int(v)]) if v == int(v) else v)
                rec.emit('End', s2, t=op['t'])
            elif op['k'] == 'vec':
                b.set_integration_time_vector(torch.tensor([v * TICK for v in op['v']], dtype=r.choice([torch.float32, torch.float64])), **r.choice([{}, dict(suppress_warning=True)]))
                rec.emit('Vec', s2, v=op['v'])
            else:
                {'to': lambda: b.to(r.choice([torch.float64, 'cpu'])), 'double': lambda: b.double(), 'cpu': lambda: b.cpu()}[op['c']]()
                rec.emit('Conv', s2)
            if op is None or r.random() < .75 or n >= len(ops):
                del ev[:]
                with grad_mode(r) if small == 1 else torch.no_grad():
                    res, st, co, da = b(layout(x, r))
                allv = res.dim() == x.dim() + 1
                rows = [torch.cat([res.detach()[j].reshape(-1)] + [v.detach()[j].reshape(-1) for q_ in (st, co, da) for blk in q_.values() for v in blk.values()]) for j in range(res.shape[0])] if allv else [torch.cat([res.detach().reshape(-1)] + [v.detach().reshape(-1) for q_ in (st, co, da) for blk in q_.values() for v in blk.values()])]
                sd, dd = list(st.values())[0], list(da.values())[0]
                lead = len(rows) if allv else 0
                okd = all((v.shape[0] == lead and v.dim() == x.dim() + 1) if allv else v.dim() == x.dim() for q_ in (st, co, da) for blk in q_.values() for v in blk.values())
                rec.emit('Forward', s2, out=[qt(v.reshape(-1), SC) for v in rows], dicts=lead if okd else -1, same=bool(torch.equal(dd['q1'].detach(), res.detach())),
                         evals=[q(v / TICK, UNIT) for v in ev], tol=2)


def run(rec):
    r = rng('times')
    cs = [c['ops'] for c in cases()]
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    r2 = rng('times-pick')
    if not THOROUGH:
        short = [c for c in cs if len(c) < 3]
        cs = short + r2.sample([c for c in cs if len(c) == 3], 380)
    for i, ops in enumerate(cs):
        if i % ns == sh:
            behaviour(rec, r, i, ops)
    # many times, far times
    for i in range(120 if THOROUGH else 24):
        r3 = rng('times-many', i)
        a, n = r3.choice([0, 0, 3, -5]), r3.randint(25, 60)
        far = r3.choice([35, 41, 80, 110])
        vec = {'k': 'vec', 'v': [a + k for k in range(n)]}
        some = {'k': 'vec', 'v': sorted(r3.sample(range(-8, 120), r3.choice([3, 12, 33])), reverse=r3.random() < .2)}
        ops = [[vec, {'k': 'end', 't': far}], [{'k': 'end', 't': far}, vec], [some, {'k': 'conv', 'c': 'double'}, vec], [{'k': 'end', 't': far}, some]][i % 4]
        if i % ns == sh:
            behaviour(rec, r3, 3 * i + 1, ops, small=.05)


main(run)

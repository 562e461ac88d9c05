"""Forward passes of real blocks; the reported norm penalty next to the parameters at time zero."""
from drv import *
from models import *
import neuro_shooting.generic_integrator as gi
torch.set_default_dtype(torch.float64)


def ints(b, r, exact):
    with torch.no_grad():
        for nm, p in b.named_parameters():
            p.copy_(torch.tensor([float(r.choice([-2, -1, 1, 2])) if exact else r.uniform(-1, 1) for _ in range(p.numel())]).view(p.shape))


def build(m, nl, n, d, f, w, mode, K, integ, seed):
    seed_all('norm', *seed)
    ikw, bkw = {}, {}
    if mode.startswith('rnn'):
        ikw['use_rnn_mode'] = True
    if 'analytic' in mode:
        ikw['use_analytic_solution'] = True
    mode = mode.split('+')[0]
    if mode == 'pf':
        bkw['use_particle_free_rnn_mode'] = True
    elif mode == 'pft':
        bkw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=K)
    if m == 'Universal':
        ikw['optional_weight'] = 8.
    with quiet():
        mod = make(m, nl, n, d, f, 2, w, **ikw)
        if integ == 'adjoint':
            b = sb.ShootingBlockBase('b', shooting_integrand=mod, integrator_name='rk4', use_adjoint_integration=True, integrator_options=dict(step_size=.25), **bkw)
        elif integ == 'checkpointed':
            g = gi.GenericIntegrator(integrator_library='odeint', integrator_name='rk4', integrator_options=dict(step_size=.25), nr_of_checkpoints=2)
            b = sb.ShootingBlockBase('b', shooting_integrand=mod, integrator=g, **bkw)
        else:
            b = block('b', mod, method='euler', step=2. ** -8, **bkw) if integ == 'fine' else block('b', mod, method=integ, **bkw) if integ in ('rk4', 'euler', 'midpoint') else sb.ShootingBlockBase('b', shooting_integrand=mod, integrator_name=integ, integrator_options={}, **bkw)
    return mod, b


def den(w):
    return 100 if w is not None and w < .5 else 2


def weight_table(m, w):
    """weight * 2 of every layer entry"""
    D = den(w)
    base = int(round(D * (1 if w is None else w)))
    t = {}
    for l in LAYERS[m]:
        t[l] = {'weight': base, 'bias': base}
    if m == 'Universal':
        t['l3']['weight'] = 8 * D
    return t


def behaviour(rec, i, m, mode, ops, integ, r):
    exact = i % 2 == 0 and m != 'ConvBatch'
    nl = 'identity' if exact else r.choice(['tanh', 'sigmoid', 'softmax'])
    n, K = r.choice([1, 2, 4]), r.choice([1, 2, 4, 8] if exact else [2, 3, 5, 7])
    w = r.choice([None, .5, 4.])
    d, f = (1, 2) if m in CONV else r.choice([(1, 1), (1, 2), (2, 1), (1, 3)])
    if i % 5 == 2:
        w, n = r.choice([.1, .25, .2, .04] if m in CONV else [.01, .1, .25, .02]), 1
        if integ == 'dopri5':
            integ = 'euler'
    if exact and m in CONV:
        d, f = 1, 2
    if exact and integ == 'dopri5':   # unbounded dynamics: adaptive steps would become tiny
        integ = 'rk4'
    if exact and integ == 'fine':
        integ = 'midpoint'
    S = (n * (4 if m != 'Universal' else 8) if mode[:2] != 'pf' else 4) if exact else 128 if w is None or w > .1 else 16
    sig = 'value %s %s %s n=%d d=%d f=%d K=%d w=%s %s %s ops=%s' % (m, mode, nl, n, d, f, K, w, integ, 'exact' if exact else 'float', ','.join(ops))
    with guard(rec, sig + ' setup'), quiet():
        mod, b = build(m, nl, n, d, f, w, mode, K, integ, (i, m, mode))
        if integ == 'fine':
            b.set_integration_time(.0625)
        x = torch.randn(*shape(m, 'q1', 2, d, f, 2))
        ints(b, r, exact)
        grab = []
        mod.register_lagrangian_gradient_hook(lambda *a: grab.append((float(a[1]), {o: {k: v.detach().clone() for k, v in a[8][o].get_parameter_dict().items()} for o in a[8]})))
        rec.emit('Start', sig)
    wt = weight_table(m, w)
    zero = True
    for j, op in enumerate(['pass'] + list(ops) + ['pass']):
        s2 = '%s at %d' % (sig, j)
        with guard(rec, s2), quiet():
            if op in ('train', 'weights'):
                ints(b, r, exact)
                continue
            if op == 'end':
                b.set_integration_time(r.choice([.5, 1.]) if integ != 'fine' else .0625)
                zero = True
            elif op == 'vector':
                b.set_integration_time_vector(torch.tensor([0., .25, .5] if integ != 'fine' else [0., .015625, .0625]), suppress_warning=True)
                zero = True
            elif op == 'shift':
                b.set_integration_time_vector(torch.tensor([.25, .75] if integ != 'fine' else [.25, .3125]), suppress_warning=True)
                zero = False
            del grab[:]
            with grad_mode(r):
                b(layout(x, r))
                if r.random() < .3:
                    b(x)
            pen = b.get_norm_penalty()
            again = b.get_norm_penalty()
            th = dict([g for g in reversed(grab) if g[0] == 0.][-1:]) if zero else {}
            if mode[:2] == 'pf':
                sets = pf_sets(b, 1 if mode[:3] != 'pft' else K, wt, S)
            else:
                sets = [[dict(w=wt[l][k], v=qt(v.reshape(-1), S)) for l in sorted(th[0.]) for k, v in sorted(th[0.][l].items())]] if zero else []
            sc = 2 * den(w) * S * S
            val = lambda p: 0 if p is None else q(float(p.reshape(-1)[0]), sc)
            rec.emit('Read', s2, zero=zero, has=pen is not None, pen=val(pen), again=val(again), numel=0 if pen is None else pen.numel(), sets=sets, exact=exact)


def pf_sets(b, K, wt, S):
    import re
    sets = [[] for _ in range(K)]
    for nm, p in b.named_parameters():
        g = re.search(r'timestep(\d+)_(.+)_(weight|bias)$', nm)
        if not g:
            raise RuntimeError('unexpected parameter ' + nm)
        sets[int(g.group(1))].append(dict(w=wt[[l for l in wt if l in re.split('_+', g.group(2))][0]][g.group(3)], v=qt(p.detach().reshape(-1), S)))
    return sets


def gradient(rec, i, m, mode, integ, r):
    nl = r.choice(['tanh', 'sigmoid', 'softmax', 'identity'])
    n, K, w = r.choice([1, 2, 3]), r.choice([2, 3, 6]), r.choice([None, .5, 4.])
    d, f = (1, 2) if m in CONV else r.choice([(1, 1), (1, 2), (2, 2)])
    if integ in ('dopri5', 'adjoint') and nl == 'identity':
        nl = 'tanh'
    sig = '%s gradient %s %s %s n=%d w=%s' % (integ, m, mode, nl, n, w)
    with guard(rec, sig), quiet():
        mod, b = build(m, nl, n, d, f, w, mode, K, integ, (i, m, mode))
        x = torch.randn(*shape(m, 'q1', 2, d, f, 2))
        b.set_integration_time(.25 if integ != 'fine' else .03125)
        b(x)
        ints(b, r, False)
        for rep in range(2):
            b.zero_grad()
            out = b(x)
            pen = b.get_norm_penalty().sum()
            if rep == 0 or (mode[:3] == 'rnn' and integ == 'checkpointed'):
                pen.backward()
            else:   # also together with a loss, without disturbing it
                loss = (out[0] ** 2).sum()
                (pen + loss).backward()
                both = [torch.zeros_like(p) if p.grad is None else p.grad.clone() for p in b.parameters()]
                b.zero_grad()
                (b(x)[0] ** 2).sum().backward()
                for p, v in zip(b.parameters(), both):
                    p.grad = v - (torch.zeros_like(p) if p.grad is None else p.grad)
            g, fd = [], []
            for p in b.parameters():
                for k in r.sample(range(p.numel()), min(3, p.numel())):
                    g.append(0. if p.grad is None else float(p.grad.reshape(-1)[k]))
                    h, e = 1e-4, []
                    for s in (1, -1):
                        with torch.no_grad():
                            p.view(-1)[k] += s * h
                        b(x)
                        e.append(float(b.get_norm_penalty().reshape(-1)[0]))
                        with torch.no_grad():
                            p.view(-1)[k] -= s * h
                    fd.append((e[0] - e[1]) / (2 * h))
            big = max([1.] + [abs(v) for v in fd])
            rec.emit('Diff', sig + ' rep=%d' % rep, g=[q(v / big, 1e5) for v in g], fd=[q(v / big, 1e5) for v in fd], tol=5)
            ints(b, r, False)


def integrations(rec, i, m, mode, r):
    """the penalty belongs to time zero: the way of integrating does not matter"""
    nl, n, w = r.choice(['tanh', 'sigmoid', 'softmax']), r.choice([1, 2, 5]), r.choice([None, .5, 4.])
    d, f = (1, 2) if m in CONV else r.choice([(1, 2), (2, 2)])
    sig = 'integrations %s %s %s n=%d w=%s' % (m, mode, nl, n, w)
    with guard(rec, sig), quiet():
        mod, b = build(m, nl, n, d, f, w, mode, 3, 'rk4', (i, m, mode))
        x = torch.randn(*shape(m, 'q1', 2, d, f, 2))
        b(x)
        ints(b, r, False)
        pens = []
        for method, h, T in [('euler', .25, .5), ('euler', 2. ** -8, 2. ** -4), ('rk4', 2. ** -12, 2. ** -9), ('midpoint', .125, .25), ('rk4', 1e-5, 3e-5), ('euler', .03, .25)]:
            b.integrator = gi.GenericIntegrator(integrator_library='odeint', integrator_name=method, integrator_options=dict(step_size=h))
            if r.random() < .7:
                b.set_integration_time(T)
            else:
                b.set_integration_time_vector(torch.tensor([0., T / 2, T]), suppress_warning=True)
            with grad_mode(r):
                b(x)
            pens.append(float(b.get_norm_penalty().reshape(-1)[0]))
        rec.emit('Same', sig, pens=[q(p / max(abs(pens[0]), 1e-3), 10 ** 8) for p in pens])


def run(rec):
    cs = [c['ops'] for c in cases()]
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    if not THOROUGH:
        cs = [c for c in cs if len(c) == 2] + rng('norm-pick').sample([c for c in cs if len(c) == 3], 80)
    ms = VEC + CONV
    modes = ['plain', 'rnn', 'pf', 'pft', 'analytic', 'plain', 'rnn+analytic', 'pf+analytic', 'pft+analytic']
    integs = ['rk4', 'euler', 'rk4', 'midpoint', 'dopri5', 'checkpointed', 'adjoint', 'fine']
    for i, ops in enumerate(cs):
        if i % ns == sh:
            r = rng('norm', i)
            for k in range(2):
                m, mode, integ = ms[(i + 5 * k) % len(ms)], r.choice(modes), r.choice(integs)
                if 'analytic' in mode and m not in ANALYTIC:
                    mode = mode.split('+')[0].replace('analytic', 'plain')
                behaviour(rec, 2 * i + k, m, mode, ops, integ, r)
    for i, (m, mode) in enumerate([(m, mode) for m in ms for mode in modes[:5]]):
        if i % ns == sh and (mode != 'analytic' or m in ANALYTIC):
            integrations(rec, i, m, mode, rng('normi', i))
    j = 0
    for rep in range(3 if THOROUGH else 1):
        for m in ms:
            for mode in ('plain', 'rnn', 'pf', 'pft', 'analytic', 'rnn+analytic', 'pf+analytic', 'pft+analytic'):
                for integ in ('rk4', 'euler', 'dopri5', 'checkpointed', 'adjoint', 'fine'):
                    j += 1
                    if j % ns != sh or ('analytic' in mode and m not in ANALYTIC):
                        continue
                    if (integ in ('euler', 'dopri5', 'fine') or '+' in mode) and (j // ns) % 3:
                        continue
                    gradient(rec, j, m, mode, integ, rng('normg', j))


main(run)

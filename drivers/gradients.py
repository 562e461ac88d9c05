"""Gradients that autograd returns for real blocks, chains and networks: exactly for a one-layer model with integer steps,
   and against difference quotients of the forward pass for everything else."""
from drv import *
from models import *
import neuro_shooting.generic_integrator as gi
import neuro_shooting.res_net as rn
import neuro_shooting.striding_block as st_
torch.set_default_dtype(torch.float64)
Q = 100000
WITH_BACKWARD = ('checkpoint',)     # checkpointing only supports backward()


def tensors(out):
    return [out[0]] + [v for d in out[1:4] for b in d.values() for v in b.values()]


def gradient(loss, leaves, how):
    if how == 'backward':
        for p in leaves:
            p.grad = None
        loss.backward()
        return [torch.zeros_like(p) if p.grad is None else p.grad.clone() for p in leaves]
    return [torch.zeros_like(p) if g is None else g for p, g in zip(leaves, torch.autograd.grad(loss, leaves, allow_unused=True))]


# ---- exact ------------------------------------------------------------------
def whole(v, sig):
    v = [float(t) for t in v.detach().reshape(-1)]
    return [q(t, 1) if t == round(t) else q(t, 1) + 10 ** 8 for t in v]


def exact(rec, i, c):
    r = rng('gradexact', i)
    s, n, w, mode, T = c['s'], len(c['s']['q']), c['w'], c['mode'], c['T']
    analytic, ck = r.random() < .4, mode == 'particles' and r.random() < .3
    vec, how = r.random() < .3, 'backward' if ck or r.random() < .6 else 'grad'
    sig = 'exact %s n=%d T=%d loss=%s s=%s%s%s%s %s' % (mode, n, T, list(w.values()), json.dumps(s), ' analytic' * analytic, ' checkpointed' * ck, ' vector' * vec, how)
    with guard(rec, sig), quiet():
        ikw, bkw = dict(use_analytic_solution=analytic), {}
        if mode == 'frozen':
            ikw['use_rnn_mode'] = True
        if mode == 'direct':
            bkw['use_particle_free_rnn_mode'] = True
        mod = make('Simple', 'identity', n, 1, 1, 1, 1. / n, **ikw)
        if ck:
            g = gi.GenericIntegrator(integrator_library='odeint', integrator_name='euler', integrator_options=dict(step_size=1.), nr_of_checkpoints=T - 1 if T > 1 else None, checkpointing_time_interval=1. if T == 1 else None)
            b = sb.ShootingBlockBase('b', shooting_integrand=mod, integrator=g)
        else:
            b = block('b', mod, method='euler', step=1., **bkw)
        if vec:
            b.set_integration_time_vector(torch.arange(0., T + 1.), suppress_warning=True)
        else:
            b.set_integration_time(float(T))
        x = torch.full((1, 1, 1), float(s['x']), requires_grad=True)
        b(x)
        ps = dict(b.named_parameters())
        if mode == 'direct':
            A = [p for k, p in ps.items() if k.endswith('weight')][0]
            B = [p for k, p in ps.items() if k.endswith('bias')][0]
            leaves = [x, A, B]
            with torch.no_grad():
                A.fill_(float(s['A']))
                B.fill_(float(s['b']))
        else:
            P_ = [p for k, p in ps.items() if 'p_q1' in k][0]
            Q_ = [p for k, p in ps.items() if 'q1' in k and 'p_q1' not in k][0]
            leaves = [x, Q_, P_]
            with torch.no_grad():
                Q_.copy_(torch.tensor([float(v) for v in s['q']]).view(n, 1, 1))
                P_.copy_(torch.tensor([float(v) for v in s['p']]).view(n, 1, 1))
        for rep in range(2):    # a second pass has the same derivatives
            out = b(x)
            fin = (lambda v: v[-1]) if vec else (lambda v: v)
            xe = fin(out[0])
            qe, pe = fin(out[1]['b']['q1']), fin(out[2]['b']['p_q1'])
            loss = w['q'] * qe.sum() + w['p'] * pe.sum() + w['x'] * xe.sum() if mode != 'direct' else w['x'] * xe.sum()
            if w['e']:
                loss = loss + w['e'] * 2 * n * b.get_norm_penalty().sum()
            if loss.requires_grad:
                gr = gradient(loss, leaves, how)
            else:
                gr = [torch.full_like(p, .5) for p in leaves]
            d = dict(mode=mode, s=s, T=T, w=w, x=whole(xe, sig)[0], gx=whole(gr[0], sig)[0])
            if mode == 'direct':
                d.update(gA=whole(gr[1], sig)[0], gb=whole(gr[2], sig)[0])
            else:
                d.update(q=whole(qe, sig), p=whole(pe, sig), gq=whole(gr[1], sig), gp=whole(gr[2], sig))
            rec.emit('Exact', sig + ' pass %d' % rep, **d)


# ---- difference quotients -----------------------------------------------------
def deriv(rec, sig, run, leaves, r, how='grad', tol=20, smooth=True):
    """run() -> list of tensors; random projection of all of them, differentiated with respect to every leaf"""
    outs = run()
    ws = [torch.tensor(np.random.RandomState(r.randrange(2 ** 31)).randn(*v.shape)) if v.dim() else torch.tensor(1.) for v in outs]
    value = lambda: sum((v * w).sum() for v, w in zip(run(), ws))
    loss = sum((v * w).sum() for v, w in zip(outs, ws))
    gs = gradient(loss, leaves, how)
    finite = bool(torch.isfinite(loss)) and all(bool(torch.isfinite(g).all()) for g in gs)
    ad, fd = [], []

    def quotient(p, d, h):
        e = []
        for s in (1, -1):
            with torch.no_grad():
                p.add_(s * h * d)
                e.append(float(value()))
                p.sub_(s * h * d)
        return (e[0] - e[1]) / (2 * h)
    for p, g in zip(leaves, gs):
        dirs = [torch.tensor(np.random.RandomState(r.randrange(2 ** 31)).randn(*p.shape)) / max(1, p.numel()) ** .5]
        k = r.randrange(p.numel())
        one = torch.zeros_like(p).view(-1)
        one[k] = 1.
        if r.random() < (.7 if THOROUGH else .25):
            dirs.append(one.view(p.shape))
        for d in dirs:
            a = float((g * d).sum())
            f2 = quotient(p, d, 1e-5)
            f1 = f2 if smooth else quotient(p, d, 2e-5)
            if abs(f1 - f2) > 1e-5 * max(1., abs(f1)):      # a kink nearby: no derivative to compare with
                continue
            ad.append(a)
            fd.append(f2)
    big = max([1e-2] + [abs(v) for v in fd])
    rec.emit('Deriv', sig, finite=finite, ad=[q(v / big, Q) for v in ad], fd=[q(v / big, Q) for v in fd], tol=tol)


def settle(blocks, run, r, scale=.5, bound=8):
    """random parameters for which the integration does not blow up"""
    ps = [p for b in blocks for p in b.parameters()]
    with torch.no_grad():
        for p in ps:
            p.copy_(torch.tensor(np.random.RandomState(r.randrange(2 ** 31)).randn(*p.shape)) * scale)
    for _ in range(15):
        big = max(float(v.detach().abs().max()) for v in run())
        if big < bound:
            break
        with torch.no_grad():
            for p in ps:
                p.mul_(.7)


MODES = ['plain', 'analytic', 'rnn', 'ranalytic', 'pf', 'pft', 'zero', 'transposed']
INTEGS = ['rk4', 'euler', 'midpoint', 'dopri5', 'adjoint', 'checkpoint']


def single(rec, i, m, mode, integ, r):
    seed_all('grad', i)
    nl = r.choice(['tanh', 'sigmoid', 'softmax', 'identity', 'relu', 'tanh'])
    if m == 'ConvBatch' and nl == 'softmax':
        nl = 'tanh'
    if integ in ('adjoint', 'dopri5') and nl == 'relu':     # solving backwards across kinks is not exact, stepping across them slow
        nl = 'sigmoid'
    n, w = r.choice([1, 2, 3]), r.choice([None, .5, 4.])
    if integ == 'adjoint' and w == .5:     # moderate speeds: the backward solution is then accurate
        w = 2.
    d, f = (r.choice([1, 2]), 2) if m in CONV else r.choice([(1, 1), (1, 2), (2, 2), (1, 3)])
    infl = r.choice([1, 2])
    ikw, bkw = {}, {}
    if mode in ('analytic', 'ranalytic'):
        ikw['use_analytic_solution'] = True
    if mode in ('rnn', 'ranalytic'):
        ikw['use_rnn_mode'] = True
    if mode == 'transposed':
        ikw['transpose_state_when_forward'] = True
        d, f, infl = 3, 2, 1
    if mode == 'pf':
        bkw['use_particle_free_rnn_mode'] = True
    if mode == 'pft':
        bkw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=r.choice([1, 2, 3, 12]) if integ not in ('adjoint', 'dopri5') else 1)
    if mode == 'zero':
        bkw['keep_initial_state_parameters_at_zero'] = True
    vec, pen = r.random() < .4, r.random() < .4
    sig = 'block %s %s %s %s n=%d d=%d f=%d infl=%d w=%s%s%s' % (m, mode, nl, integ, n, d, f, infl, w, ' vector' * vec, ' penalty' * pen)
    with guard(rec, sig), quiet():
        mod = make(m, nl, n, d, f, infl, w, **ikw)
        if integ == 'checkpoint':
            g = gi.GenericIntegrator(integrator_library='odeint', integrator_name='rk4', integrator_options=dict(step_size=.25), nr_of_checkpoints=r.choice([1, 2, 3]))
            b = sb.ShootingBlockBase('b', shooting_integrand=mod, integrator=g, **bkw)
        elif integ == 'adjoint':
            b = sb.ShootingBlockBase('b', shooting_integrand=mod, integrator_name='rk4', use_adjoint_integration=True, integrator_options=dict(step_size=1. / 12), **bkw)
        elif integ == 'dopri5':
            b = sb.ShootingBlockBase('b', shooting_integrand=mod, integrator=gi.GenericIntegrator(integrator_library='odeint', integrator_name='dopri5', rtol=1e-7, atol=1e-8), **bkw)
        else:
            b = block('b', mod, method=integ, step=.25, **bkw)
        if vec:
            b.set_integration_time_vector(torch.tensor([0., .25, .5]), suppress_warning=True)
        else:
            b.set_integration_time(.5)
        x = (torch.randn(*shape(m, 'q1', r.choice([1, 2]), d, f, infl)) * .7).requires_grad_(True)
        b(x)

        def run():
            out = b(x)
            ts = tensors(out)
            return ts + ([b.get_norm_penalty().sum()] if pen else [])
        settle([b], run, r, .25 if integ == 'adjoint' else .6 if nl != 'identity' else .4, 3 if integ == 'adjoint' else 8)
        tol = {'adjoint': 100, 'dopri5': 100}.get(integ, 20)
        ps = list(b.parameters())
        if r.random() < .3:     # some parameters, or all of them, are kept fixed
            off = ps if r.random() < .4 and integ != 'adjoint' else r.sample(ps, r.randint(1, len(ps))) if integ != 'adjoint' else []
            for p in off:
                p.requires_grad_(False)
            ps = [p for p in ps if p.requires_grad]
            sig += ' %d fixed' % len(off)
        deriv(rec, sig, run, [x] + ps, r, 'backward' if integ in WITH_BACKWARD or r.random() < .4 else 'grad', tol, nl != 'relu')


def chained(rec, i, m, r):
    """two or three blocks one after the other, with growing particles (enlargement) and striding in between"""
    seed_all('gradchain', i)
    nl = r.choice(['tanh', 'sigmoid', 'relu'])
    n, nb = r.choice([1, 2]), r.choice([2, 3])
    stride = m in CONV and r.random() < .5
    grow = r.choice([0, 1]) if m in CONV else 0
    sig = 'chain %s %s n=%d blocks=%d%s grow=%d' % (m, nl, n, nb, ' strided' * stride, grow)
    with guard(rec, sig), quiet():
        bl, f = [], 2 if not stride else 3
        for j in range(nb):
            if m in CONV:
                sz = [3 + grow * j, 4 + grow * j] if not (stride and j) else [2 + grow, 3 + grow]
                mod = make(m, nl, n, 1, 2, 1, None, in_features=j + 1, particle_size=sz)
            else:
                mod = make(m, nl, n + grow * j, 1, 2, 1, None, in_features=2 * (j + 1))
            bl.append(block('b%d' % j, mod, step=.5))
        X = (torch.randn(2, 1, 3, 4) if m in CONV else torch.randn(2, 1, 2)).mul(.6).requires_grad_(True)
        sblock = st_.ShootingStridingBlock(stride=[2, 2], stride_dims=[2, 3]) if stride else None

        def run():
            out = bl[0](X)
            keep = [out[0]]
            for j in range(1, nb):
                S, P, D = out[1], out[2], out[3]
                if sblock is not None and j == 1:
                    S, P, D = sblock(S, P, D)
                out = bl[j](pass_through_state_dict_of_dicts=S, pass_through_costate_dict_of_dicts=P, data_dict_of_dicts=D)
            return tensors(out) + keep
        run()
        settle(bl, run, r, .4)
        deriv(rec, sig, run, [X] + [p for b in bl for p in b.parameters()], r, smooth=nl != 'relu')


def joint(rec, i, m, r):
    """own particles together with those of several earlier blocks, or the latter alone"""
    seed_all('gradjoint', i)
    nl, n, k = r.choice(['tanh', 'sigmoid', 'identity']), r.choice([1, 2, 3]), r.choice([1, 2, 3, 4])
    own = r.random() < .6
    an = m in ANALYTIC and k + own == 1 and r.random() < .6      # joint integration is by automatic differentiation only
    infl, d, f = 1, 1, 2
    sig = 'joint %s %s n=%d with %d%s%s' % (m, nl, n, k, ' own' * own, ' analytic' * an)
    with guard(rec, sig), quiet():
        kw = dict(in_features=(1 if m in CONV else f) * (k + own))
        if not own:
            kw['is_pass_through'] = True
        if an:
            kw['use_analytic_solution'] = True
        b = block('m', make(m, nl, n, d, f, infl, r.choice([None, 2.]), **kw), step=.25)
        b.set_integration_time(.5)
        names = r.sample(['a', 'b', 'x', 'z'], k)
        z = lambda rows, pre: SortedDict({nm: SortedDict({pre + key: (torch.randn(*shape(m, key, rows, d, f, infl)) * .5).requires_grad_(True) for key in KEYS[m]}) for nm in names})
        S, P, D = z(n, ''), z(n, 'p_'), z(2, '')
        leaves = [v for o in (S, P, D) for dd in o.values() for v in dd.values()]
        run = lambda: tensors(b(pass_through_state_dict_of_dicts=S, pass_through_costate_dict_of_dicts=P, data_dict_of_dicts=D))
        run()
        settle([b], run, r, .4)
        deriv(rec, sig, run, r.sample(leaves, min(4, len(leaves))) + list(b.parameters()), r)


def network(rec, i, r):
    seed_all('gradnet', i)
    mod, kw = r.choice([(None, None), (sm.AutoShootingIntegrandModelUpDownConv2D, dict(inflation_factor=2))])
    ch, bl = r.choice([([2, 4], [1, 1]), ([2, 3], [2, 1]), ([3], [2]), ([2, 3, 4], [1, 1, 1])])
    nl = r.choice(['tanh', 'sigmoid', 'relu'])
    sig = 'network %s %s %s %s' % (ch, bl, nl, 'updown' if mod else 'default')
    with guard(rec, sig), quiet():
        ps = [[5, 4], [3, 3], [2, 2]][:len(ch)]
        net = rn.BasicResNet(1, layer_channels=ch, nr_of_blocks_per_layer=bl, downsampling_stride=2, nonlinearity=nl, particle_sizes=ps, nr_of_particles=2, nr_of_classes=3, shooting_model=mod, shooting_model_kwargs=kw,
                             integrator=gi.GenericIntegrator(integrator_library='odeint', integrator_name='rk4', integrator_options=dict(step_size=.5)))
        x = torch.randn(2, 1, 8, 8).requires_grad_(True)
        net(x)
        net.train(r.random() < .5)
        settle([net], lambda: [net(x)], r, .3)
        deriv(rec, sig, lambda: [net(x)], [x] + list(net.parameters()), r, tol=40, smooth=False)


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    for i, c in enumerate(cases()):
        if i % ns == sh and (THOROUGH or (i // ns) % 2 == 0):
            exact(rec, i, c)
    j = 0
    for rep in range(4 if THOROUGH else 1):
        for m in VEC + CONV:
            for mode in MODES:
                for integ in INTEGS:
                    j += 1
                    if j % ns != sh or (mode in ('analytic', 'ranalytic') and m not in ANALYTIC) or (mode == 'transposed' and m in CONV):
                        continue
                    if mode in ('rnn', 'ranalytic') and integ in ('adjoint', 'checkpoint'):     # known findings of C14 and C09
                        continue
                    if m == 'ConvBatch' and integ in ('adjoint', 'dopri5'):   # too stiff
                        continue
                    if not THOROUGH and integ in ('euler', 'midpoint', 'dopri5') and (j // ns + SEED) % 3:
                        continue
                    single(rec, j, m, mode, integ, rng('grad', j))
    for i in range(200 if THOROUGH else 60):
        if i % ns == sh:
            r = rng('gradchain', i)
            chained(rec, i, (VEC + CONV[:2] * 3)[i % (len(VEC) + 6)], r)
    for i in range(200 if THOROUGH else 48):
        if i % ns == sh:
            joint(rec, i, (VEC + CONV[:2])[i % (len(VEC) + 2)], rng('gradjoint', i))
    for i in range(40 if THOROUGH else 10):
        if i % ns == sh:
            network(rec, i, rng('gradnet', i))


main(run)

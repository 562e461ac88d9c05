"""Runs real blocks in the frozen-parameter and particle-free modes and records the parameters of every evaluation."""
from drv import *
from models import *
torch.set_default_dtype(torch.float64)
SC = 1e6
D, F, INFL = 1, 2, 2


class Stop(Exception):
    pass


def flat(po):
    return torch.cat([po[o].get_parameter_dict()[k].detach().reshape(-1) for o in po for k in po[o].get_parameter_dict()])


def tensors(po):
    return [po[o].get_parameter_dict()[k].detach().clone() for o in po for k in po[o].get_parameter_dict()]


class Watch:
    def __init__(self, mod):
        self.seen, self.stop, self.n = [], None, 0
        mod.register_lagrangian_gradient_hook(self)

    def __call__(self, *a):
        self.n += 1
        if self.stop is not None and self.n > self.stop:
            raise Stop()
        self.seen.append((float(a[1]), flat(a[8]), tensors(a[8])))

    def take(self):
        s, self.seen, self.n = self.seen, [], 0
        return s


def perturb(b, r, amount=.4):
    with torch.no_grad():
        for p in b.parameters():
            p.add_(torch.randn(p.shape) * amount)


def previous(m, n, r):
    """states, costates and data of an earlier block"""
    mk = lambda rows, pre: SortedDict({'a_before': SortedDict({pre + k: torch.randn(*shape(m, k, rows, D, F, INFL)) * .5 for k in KEYS[m]})})
    return mk(n, ''), mk(n, 'p_'), mk(3, '')


def behaviour(rec, i, m, mode, ops, r):
    seed_all('frozen', i, m, mode)
    n = r.randint(1, 3)
    nl = r.choice(['tanh', 'sigmoid', 'softmax', 'relu', 'identity']) if mode[0] == 'r' else 'tanh'
    w = r.choice([None, .5, 3.])
    sig = '%s %s %s n=%d w=%s ops=%s' % (m, mode, nl, n, w, ','.join(ops))
    chain = 'chain' in ops
    K = 1
    ikw, bkw = {}, {}
    if mode[0] == 'r':
        ikw['use_rnn_mode'] = True
        if mode == 'ranalytic' and not chain:
            ikw['use_analytic_solution'] = True
    elif mode == 'pf':
        bkw['use_particle_free_rnn_mode'] = True
    else:
        K = r.choice([2, 3, 4, 2, 3, 4, 10, 12])
        bkw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=K)
    nb = 2 if chain else 1
    T = 1.
    step = r.choice([1 / 6., 1 / 8.])
    with guard(rec, sig + ' setup'), quiet():
        mod = make(m, nl, n, D, F, INFL, w, blocks=nb, **ikw)
        b = block('b', mod, step=step, **bkw)
        ref = None
        if mode[0] == 'r':
            mod2 = make(m, nl, n, D, F, INFL, w, blocks=nb)
            ref = block('b', mod2, step=step)
            wr = Watch(mod2)
        wt = Watch(mod)
        xs = [torch.randn(*shape(m, 'q1', k, D, F, INFL)) for k in (2, 3)]
        prev = previous(m, n, r) if chain else None

    def call(bb, x):
        if chain:
            return bb(pass_through_state_dict_of_dicts=prev[0], pass_through_costate_dict_of_dicts=prev[1], data_dict_of_dicts=prev[2])
        return bb(x)
    x = 0
    for j, op in enumerate(['pass'] + list(ops) + ['pass']):
        s2 = '%s at %d' % (sig, j)
        with guard(rec, s2), quiet():
            if op == 'train':
                perturb(b, r)
            elif op == 'times':
                T = {1.: r.choice([.5, .75]), .5: 2., 2.: r.choice([1., .75]), .75: r.choice([1., .75])}[T]
                vec_ = r.choice([[.5, .75, 1.5], [.25, .75]] + ([[-1., 0., .5], [-.5, .25], [-.25, 0.], [.5, 0., -.5]] if mode[0] == 'r' else []))
                for bb in ([b] if ref is None else [b, ref]):
                    if T == .75:     # an interval that does not start at zero
                        bb.set_integration_time_vector(torch.tensor(vec_))
                    else:
                        bb.set_integration_time(T)
            elif op == 'batch':
                x = 1 - x
            elif op == 'swap' and prev is not None:
                prev = previous(m, n, r)
            elif op == 'abort':
                wt.take()
                wt.stop = r.choice([1, 2, 3])
                try:
                    call(b, xs[x])
                except Stop:
                    pass
                wt.stop = None
                if r.random() < .5:
                    perturb(b, r)
            else:
                wt.take()
                with grad_mode(r) if 0 < j < len(ops) + 1 else contextlib.nullcontext():
                    out = call(b, layout(xs[x], r))
                seen = wt.take()
                if ref is not None:
                    if j == 0:
                        call(ref, xs[x])
                    ref.load_state_dict(b.state_dict())
                    wr.take()
                    with torch.no_grad():
                        call(ref, xs[x])
                    vals, used = [], []
                    for t, v, _ in seen:
                        for k, o in enumerate(vals):
                            if torch.equal(o, v):
                                used.append(k + 1)
                                break
                        else:
                            vals.append(v)
                            used.append(len(vals))
                    rec.emit('Frozen', s2, vals=[qt(v, SC) for v in vals[:6]], used=[min(u, 6) for u in used], ref=qt(wr.take()[0][1], SC), tol=3)
                else:
                    own(rec, s2, b, seen, K, T, m)
                    if op == 'pass' and j in (0, len(ops) + 1):
                        gradients(rec, s2, b, out, m, T)
    if ref is None and i % 3 == 0 and not chain:
        with guard(rec, sig + ' adjoint'), quiet():
            mod = make(m, nl, n, D, F, INFL, w)
            b3 = sb.ShootingBlockBase('b', shooting_integrand=mod, integrator_name='rk4', use_adjoint_integration=True, integrator_options=dict(step_size=step), **bkw)
            b3.load_state_dict(b.state_dict())
            gradients(rec, sig + ' adjoint', b3, b3(xs[0]), m, 1.)
    if ref is None and i % 2 == 0:
        independence(rec, sig, i, m, nl, n, w, nb, bkw, step, b, call, xs[x])


def own(rec, sig, b, seen, K, T, m):
    params = [(nm, p.detach()) for nm, p in b.named_parameters()]
    ids, us = [], []
    for t, v, ts in seen:
        u = t / 1. * K * 72   # pieces are laid out over the interval set when the block was made, [0, 1]
        if abs(u - round(u)) > 1e-4 or (round(u) % 72 == 0 and K not in (2, 4) and round(u) not in (0, 72 * K)):
            continue
        us.append(int(round(u)))
        row = []
        for p in ts:
            hit = [k + 1 for k, (nm, q_) in enumerate(params) if q_.shape == p.shape and torch.equal(q_, p)]
            row.append(hit[0] if hit else 0)
        ids.append(row)
    rec.emit('Own', sig, K=K, G=72, us=us, ids=ids, all=T >= 1., registered=len(params))


def gradients(rec, sig, b, out, m, T):
    loss = sum((v * torch.randn(v.shape)).sum() for blk in out[3].values() for v in blk.values())
    ps = list(b.parameters())
    gs = torch.autograd.grad(loss, ps, allow_unused=True)
    if T < 1.:
        return
    rec.emit('Grad', sig, n=len(ps), nonzero=[int(g is not None and bool(torch.isfinite(g).all()) and float(g.abs().max()) > 0) for g in gs])


def independence(rec, sig, i, m, nl, n, w, nb, bkw, step, b, call, x):
    with guard(rec, sig + ' other particles'), quiet():
        seed_all('other', i)
        mod = make(m, nl, n, D, F, INFL, w, blocks=nb)
        b2 = block('b', mod, step=step, **bkw)
        if b.integration_time_vector is not None:
            b2.set_integration_time_vector(b.integration_time_vector)
        if getattr(b, 'integration_time', None) is not None:
            b2.set_integration_time(float(b.integration_time[-1]))
        b2.load_state_dict(b.state_dict())
        o1, o2 = call(b, x), call(b2, x)
        fl = lambda o: torch.cat([o[0].detach().reshape(-1)] + [v.detach().reshape(-1) for blk in o[3].values() for v in blk.values()])
        rec.emit('Pair', sig + ' other particles', clause='particles-do-not-matter', a=qt(fl(o1), 1e5), b=qt(fl(o2), 1e5), tol=2)


def run(rec):
    r = rng('frozen')
    cs = [c['ops'] for c in cases()]
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    if not THOROUGH:
        cs = [c for c in cs if len(c) == 2] + rng('frozen-pick').sample([c for c in cs if len(c) == 3], 90)
    ms = VEC + CONV
    i = 0
    for k, ops in enumerate(cs):
        for mode in ('rnn', 'pft', 'pf', 'ranalytic'):
            if mode == 'pf' and k % 2:
                continue
            if mode == 'ranalytic' and (k % 2 == 0 or 'chain' in ops):
                continue
            i += 1
            m = ms[i % len(ms)]
            if mode == 'ranalytic':
                m = ANALYTIC[i % len(ANALYTIC)]
            if i % ns == sh:
                behaviour(rec, i, m, mode, ops, rng('frozen', i))


main(run)

"""Gradient hooks on real integrands: who is called when, with what, and to what effect."""
from collections import defaultdict
from drv import *
from models import *
import neuro_shooting.shooting_hooks as sh_
import neuro_shooting.state_costate_and_data_dictionary_utils as scd
torch.set_default_dtype(torch.float64)
Q = 10 ** 6


def flat(dct):
    return qt(torch.cat([v.detach().reshape(-1) for b in dct.values() for v in b.values()]), Q) if len(dct) else []


def transposed(dct):
    return SortedDict({b: SortedDict({k: v.transpose(1, 2) for k, v in d.items()}) for b, d in dct.items()})


MODES = ['plain', 'analytic', 'rnn', 'ranalytic', 'pf', 'pft', 'transposed', 'vector', 'chain', 'adjoint', 'checkpoint']


def build(m, mode, r, i):
    n, d, f, infl = r.randint(1, 3), r.choice([1, 2]), 2, r.choice([1, 2])
    kw, bkw = {}, {}
    if m in CONV:
        d = 1
    if mode in ('analytic', 'ranalytic'):
        kw['use_analytic_solution'] = True
    if mode in ('rnn', 'ranalytic'):
        kw['use_rnn_mode'] = True
    if mode == 'transposed':
        kw['transpose_state_when_forward'] = True
        d, f, infl = 3, 2, 1
    if mode == 'pf':
        bkw = dict(use_particle_free_rnn_mode=True)
    if mode == 'pft':
        bkw = dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2)
    if mode == 'adjoint':
        bkw = dict(use_adjoint_integration=True)
    if mode == 'checkpoint':
        bkw = dict(use_checkpointing=None)
    if mode == 'chain':
        kw['in_features'] = (d if m in CONV else f) * 2
    nl = r.choice(['tanh', 'sigmoid'])
    mod = make(m, nl, n, d, f, infl, None, **kw)
    if mode == 'checkpoint':
        with quiet():
            b = sb.ShootingBlockBase('b', shooting_integrand=mod, integrator_name='rk4', nr_of_checkpoints=2, integrator_options=dict(step_size=.5))
    else:
        b = block('b', mod, step=.5, **bkw)
    if mode == 'vector':
        with quiet():
            b.set_integration_time_vector(torch.tensor([0., .5, 1.]), suppress_warning=True)
    x = torch.randn(*shape(m, 'q1', r.randint(1, 3), d, f, infl)) * .5
    if mode == 'chain':
        mk = lambda rows, pre: SortedDict({'a': SortedDict({pre + k: torch.randn(*shape(m, k, rows, d, f, infl)) * .4 for k in KEYS[m]})})
        S, P, X = mk(n, ''), mk(n, 'p_'), mk(2, '')
        go = lambda: b(pass_through_state_dict_of_dicts=S, pass_through_costate_dict_of_dicts=P, data_dict_of_dicts=X)
    else:
        go = lambda: b(x)
    with quiet():
        go()
    with torch.no_grad():
        for p in b.parameters():
            p.normal_(std=.4)
    return mod, b, go


class Box(dict):
    """data that compares equal to any other"""
    __eq__ = lambda self, other: isinstance(other, dict)
    __ne__ = lambda self, other: not isinstance(other, dict)
    __hash__ = None


class Watch:
    """what the solver asked and was answered, and which hooks were called meanwhile"""

    def __init__(self, mod, tr):
        self.mod, self.tr, self.pending, self.evals = mod, tr, [], []
        self.h = mod.register_forward_hook(self.done)

    def done(self, mod, args, out):
        t, y = args[0], args[1]
        a, b = mod.disassemble_tensor(y.detach()), mod.disassemble_tensor(out.detach())
        if self.tr:
            a, b = [transposed(v) for v in a], [transposed(v) for v in b]
        self.evals.append(dict(t=q(float(t), Q), q=flat(a[0]), p=flat(a[1]), x=flat(a[2]), dq=flat(b[0]), dp=flat(b[1]), dx=flat(b[2]), calls=self.pending))
        self.pending = []

    def hook(self, ident):
        def h(module, t, q_, p_, x_, dq, dp, dx, par, custom):
            self.pending.append(dict(id=ident, t=q(float(t), Q), module=module is self.mod, data=custom['d'] if custom else 0,
                                     q=flat(q_), p=flat(p_), x=flat(x_), dq=flat(dq), dp=flat(dp), dx=flat(dx)))
        return h


def history(rec, i, ops, r):
    m, mode = pick(i, r)
    sig = '%s %s %s' % (m, mode, '-'.join(ops))
    with guard(rec, sig):
        seed_all('hooks', i)
        mod, b, go = build(m, mode, r, i)
        w = Watch(mod, mode == 'transposed')
        rec.emit('Start', sig)
        live, nxt, hooks, nd = [], 1, {}, 0
        if r.random() < .3:     # handles are numbered: the numbers may get another digit at any point
            torch.utils.hooks.RemovableHandle.next_id = 10 ** len(str(torch.utils.hooks.RemovableHandle.next_id)) - r.choice([1, 1, 2, 3])
        for j, op in enumerate(ops):
            if op in ('r1', 'r2'):
                # the same function may be registered more than once: its calls are told apart by position only
                hk = w.hook(nxt)
                live.append((nxt, mod.register_lagrangian_gradient_hook(hk)))
                rec.emit('Register', sig, id=nxt)
                nxt += 1
            elif op in ('d1', 'd2') and live:
                ident, h = live.pop(0 if op == 'd1' else -1)
                h.remove()
                rec.emit('Remove', sig, id=ident)
                if j % 2:
                    h.remove()  # once more: no effect
            elif op == 'dm' and live:
                ident, h = live.pop(len(live) // 2)
                h.remove()
                rec.emit('Remove', sig, id=ident)
            elif op == 'c':
                for _ in range(r.choice([1, 2])):
                    nd += 1
                    with quiet():
                        mod.set_custom_hook_data(r.choice([dict, Box, Box])(d=nd))
                    rec.emit('Data', sig, d=nd)
            elif op in ('e', 'f'):
                w.evals, w.pending = [], []
                with quiet():
                    if op == 'f':
                        go()
                    else:
                        y = vec(mod, b, go, r)
                        w.evals, w.pending = [], []
                        mod(torch.tensor(r.choice([0., .25, .8])), y)
                for k, e in enumerate(w.evals[:6] if op == 'f' else w.evals):
                    rec.emit('Eval', '%s op %d evaluation %d' % (sig, j, k), **e)
                if not w.evals:
                    rec.emit('Crash', sig, what='no evaluation seen')
                if w.pending:
                    rec.emit('Crash', sig, what='hooks called after the last evaluation')


def vec(mod, b, go, r):
    """a vector of the size the integrand works on"""
    seen = []
    h = mod.register_forward_pre_hook(lambda mod, a: seen.append(a[1].detach()))
    go()
    h.remove()
    return seen[0] + torch.randn(seen[0].shape) * .1


def pick(i, r):
    mode = MODES[i % len(MODES)]
    m = (VEC + CONV)[(i // len(MODES) + i) % 12]
    if 'analytic' in mode and m not in ANALYTIC:
        m = 'UpDown'
    if mode == 'transposed':
        m = r.choice(['Simple', 'Debug', 'SecondOrder'])
    return m, mode


def results(o):
    return [o[0]] + [v for d in o[1:] for bl in d.values() for v in bl.values()]


def effect(rec, i, r):
    """results and gradients with and without hooks"""
    m, mode = pick(i, r)
    if m in CONV and i % 2:
        m = 'Simple'
    sig = 'effect %s %s' % (m, mode)
    with guard(rec, sig):
        seed_all('effect', i)
        mod, b, go = build(m, mode, r, i)

        def values():
            for p in b.parameters():
                p.grad = None
            with quiet():
                o = go()
            l = sum((v ** 2).sum() for v in results(o))
            pen = b.get_norm_penalty()
            if pen is not None:
                l = l + pen.sum()
            if l.requires_grad:
                l.backward()
            return torch.cat([v.detach().reshape(-1) for v in results(o)] + [p.grad.reshape(-1) for p in b.parameters() if p.grad is not None] + ([] if pen is None else [pen.detach().reshape(-1)]))
        a = values()
        hs = [mod.register_lagrangian_gradient_hook(lambda *k: None)]
        if m not in CONV:
            with quiet():
                mod.set_custom_hook_data(defaultdict(list))
            hs.append(mod.register_lagrangian_gradient_hook(sh_.parameter_evolution_hook))
        c = values()
        for h in hs:
            h.remove()
        d = values()
        rec.emit('Start', sig)
        big = max(1., float(a.abs().max()))
        rec.emit('Pair', sig + ' with hooks', clause='no-effect', a=qt(a / big, Q), b=qt(c / big, Q), tol=0)
        rec.emit('Pair', sig + ' after removal', clause='no-effect', a=qt(a / big, Q), b=qt(d / big, Q), tol=0)


def recording(rec, i, r):
    m, mode = pick(i, r)
    if m in CONV:
        m = VEC[i % len(VEC)] if mode not in ('analytic', 'ranalytic', 'transposed') else 'Simple'
    sig = 'recording %s %s' % (m, mode)
    with guard(rec, sig):
        seed_all('record', i)
        mod, b, go = build(m, mode, r, i)
        data = defaultdict(list)
        mine, names = defaultdict(list), {}
        tag = dict(state=2, costate=3, data=4, dot_state=5, dot_costate=6, dot_data=7)

        def own(*a):
            mine['t'].append(np.array(float(a[1])))
            e = 0.
            for k in a[8]:
                for p, v in a[8][k].get_parameter_dict().items():
                    mine['%s.%s' % (k, p)].append(v.detach().clone().numpy())
                    e += .5 * float((v.detach() ** 2).sum())
                    if p != 'bias':
                        names.update({'%s_%s.%s' % (z, k, p): 1 for z in ('sqr_frobenius_norm', 'sqr_nuclear_norm', 'sqr_spectral_norm')})
            mine['energy'].append(np.array(e))
            for nm, pos in tag.items():
                for bl in a[pos]:
                    for k, v in a[pos][bl].items():
                        mine['%s.%s.%s' % (bl, nm, k)].append(v.detach().clone().numpy())
        with quiet():
            mod.set_custom_hook_data(data)
        mod.register_lagrangian_gradient_hook(own)
        mod.register_lagrangian_gradient_hook(sh_.parameter_evolution_hook)
        rec.emit('Start', sig)
        for rep in range(2):
            with quiet():
                go()
            evals = len(mine['t'])
            keys = sorted(data)
            want = set(mine) | set(names) | {'sum_sqr_frobenius_norm', 'sum_sqr_nuclear_norm', 'sum_sqr_spectral_norm'}
            rec.emit('Series', '%s pass %d' % (sig, rep), names=keys, want=sorted(want), lens=[len(data[k]) for k in keys], evals=evals)
            with torch.no_grad():
                for p in b.parameters():
                    p.add_(torch.randn(p.shape) * .2)
        for k in mine:
            sel = sorted({0, len(mine[k]) // 2, len(mine[k]) - 1})
            got = data.get(k, [])
            if len(got) == len(mine[k]):
                rec.emit('Entry', '%s %s' % (sig, k), a=qt(np.concatenate([np.asarray(got[z]).reshape(-1) for z in sel]), Q), b=qt(np.concatenate([mine[k][z].reshape(-1) for z in sel]), Q), tol=60 if k == 'energy' else 0)
        # what has been recorded has to be of use to others: any other kind of custom data is refused
        for nm, dt in (('none', None), ('dict', {}), ('list', [])):
            with quiet():
                mod.set_custom_hook_data(dt)
                st, _ = attempt(go)
            rec.emit('Reject', '%s custom data %s' % (sig, nm), clause='custom-data-refused', raised=st == 'raise')


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    cs = [c for c in cs if any(o in ('e', 'f') for o in c['ops']) and any(o in ('r1', 'r2') for o in c['ops'])]
    r = rng('hooks-pick')
    cs = r.sample(cs, min(len(cs), 2500 if THOROUGH else 700))
    for _ in range(60 if THOROUGH else 24):     # many hooks at once, long histories
        cs.append(dict(ops=[r.choice(['r1', 'r1', 'r2', 'c', 'dm', 'd1', 'd2', 'e']) if k else 'r1' for k in range(r.randint(6, 16))] + ['r1'] * r.randint(0, 5) + [r.choice(['e', 'f'])]))
    for i, c in enumerate(cs):
        if i % ns == sh:
            history(rec, i, c['ops'], rng('hooks', i))
    for i in range(480 if THOROUGH else 100):
        if i % ns == sh:
            effect(rec, i, rng('effect', i))
            recording(rec, i, rng('recording', i))


main(run)

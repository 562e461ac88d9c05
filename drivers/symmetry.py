"""Pairs of forward passes of real blocks related by a symmetry of the flow, and the energy along a path."""
from drv import *
from models import *
torch.set_default_dtype(torch.float64)
U = 10 ** 5


def rows_of(t):
    """tensor -> matrix: a row per particle and dimension (or position), a column per feature (or channel)"""
    if t.dim() == 4:
        return t.permute(0, 2, 3, 1).reshape(-1, t.shape[1])
    return t.reshape(-1, t.shape[-1])


def like(mat, t):
    if t.dim() == 4:
        return mat.reshape(-1, t.shape[2], t.shape[3], t.shape[1]).permute(0, 3, 1, 2).contiguous()
    return mat.reshape(-1, *t.shape[1:]).contiguous()


def act(t, rows, cols):
    m = rows_of(t)[[i - 1 for i in rows]]
    return like(m[:, [c for c, s in [(c - 1, s) for c, s in cols]]] * torch.tensor([float(s) for _, s in cols]), t)


def mats(d, pre=''):
    return {k[len(pre):]: qt(rows_of(v.detach()), U) for k, v in d.items()}


def energy(mod, weights, st, co, da):
    grab = []
    h = mod.register_lagrangian_gradient_hook(lambda *a: grab.append(a[8]))
    one = lambda d: SortedDict({'b': d})
    vec, plans = mod.assemble_tensor(one(st), one(co), one(da))
    mod.set_auto_assembly_plans(plans)
    mod.reset()
    with quiet():
        mod(torch.tensor(0.), vec.detach().requires_grad_(True))
    h.remove()
    e = 0.
    for l in grab[-1]:
        for k, v in grab[-1][l].get_parameter_dict().items():
            w = weights[l][k]
            e += float((v.detach() ** 2).sum()) * w[0] / w[1] / 2
    return e


class Setup:
    def __init__(s, i, c, r):
        s.m, s.nl, s.r, s.i = c['model'], c['nl'], r, i
        conv = s.m in CONV
        s.n, s.f, s.infl, s.d = r.choice([1, 2, 2, 3, 4, 5]), r.choice([2, 3]), r.choice([1, 2]), 1 if not conv and r.random() < .6 else 2
        if s.nl == 'softmax' or c['law'] in ('features', 'signs'):
            s.f = 3
        if r.random() < .06:
            s.n = r.choice([17, 40, 70])
        if conv:
            s.n = min(s.n, 4)
        s.rows = r.choice([1, 2, 3])
        modes = ['auto', 'auto'] + (['analytic'] * 2 if s.m in ANALYTIC else []) + (['rnn'] if c['law'] not in ('reverse', 'energy') else [])
        s.mode, s.kind = r.choice(modes), r.choice(['own', 'pass'])
        if s.m == 'Symmetrized' and c['law'] in ('features', 'signs'):
            s.kind = 'pass'           # blocks of their own start all states of the data at the same values
        s.own_weights = c['law'] != 'weights' and r.random() < .3
        s.w = r.choice([None, 1., .5, 4., 3.])
        s.T = r.choice([.5, 1.])
        s.method, s.step = r.choice([('rk4', .125), ('euler', .125), ('midpoint', .125), ('rk4', .0625)]) if c['law'] not in ('energy', 'reverse') else ('rk4', 1. / 16)
        s.sig = '%s %s %s n=%d d=%d f=%d infl=%d %s %s w=%s T=%s %s %s' % (c['law'], s.m, s.nl, s.n, s.d, s.f, s.infl, s.mode, s.kind, 'own' if s.own_weights else s.w, s.T, s.method, s.step)

    def model(s, n, w):
        kw = {}
        if s.mode == 'rnn':
            kw['use_rnn_mode'] = True
        if s.mode == 'analytic':
            kw['use_analytic_solution'] = True
        if s.m == 'Universal':
            kw['optional_weight'] = 10. if w is None else 10. * w
        if s.kind == 'pass':
            kw['is_pass_through'] = True
            n = s.r.choice([n, None, 10])
        m = make(s.m, s.nl, n, s.d, s.f, s.infl, w, **kw)
        tab = {l: {k: (1. if w is None else w, 1) for k in ('weight', 'bias')} for l in LAYERS[s.m]}
        if s.m == 'Universal':
            tab['l3']['weight'] = (kw['optional_weight'], 1)
        if s.own_weights:
            tab = entry_weights(m, s.m, rng('symweights', s.i))
        return m, tab

    def start(s, scale):
        g = torch.Generator().manual_seed(rng('symstart', s.i).randrange(2 ** 31))
        z = lambda rows: {k: torch.randn(*shape(s.m, k, rows, s.d, s.f, s.infl), generator=g) for k in KEYS[s.m]}
        q_, p_, x_ = z(s.n), z(s.n), z(s.rows)
        if s.kind == 'own':
            with quiet():
                x_ = {k: v.detach() for k, v in s.model(s.n, s.w)[0].get_initial_data_dict_from_data_tensor(x_['q1']).items()}
            if s.i % 3 == 0:
                q_ = {k: v if k == 'q1' else torch.zeros_like(v) for k, v in q_.items()}
        return dict(q=SortedDict(q_), p=SortedDict({'p_' + k: v * scale for k, v in p_.items()}), x=SortedDict(x_))

    def pass_(s, st, times, step, w=None):
        """one forward pass from the given states; returns the final ones, energies at start and end"""
        n = st['q']['q1'].shape[0]
        with quiet(), grad_mode(s.r, .4 if step > .05 else 1.):
            mod, tab = s.model(n, s.w if w is None else w)
            b = block('b', mod, method=s.method, step=step)
            vec = len(times) > 2 or times[0] != 0.
            if vec:
                b.set_integration_time_vector(torch.tensor(times), suppress_warning=True)
            else:
                b.set_integration_time(times[1])
            if s.kind == 'own':
                own = dict(b.named_parameters())
                with torch.no_grad():
                    for k, v in list(st['q'].items()) + list(st['p'].items()):
                        if k in own:
                            own[k].copy_(v)
                        else:
                            assert float(v.abs().max()) == 0, k
                out = b(layout(st['x']['q1'], s.r))
            else:
                one = lambda d: SortedDict({'a': SortedDict({k: layout(v, s.r) for k, v in d.items()})})
                out = b(pass_through_state_dict_of_dicts=one(st['q']), pass_through_costate_dict_of_dicts=one(st['p']), data_dict_of_dicts=one(st['x']))
            ends = [{k: v.detach() for k, v in list(o.values())[0].items()} for o in out[1:4]]
            seq = [dict(zip('qpx', [SortedDict({k: v[j] for k, v in o.items()}) for o in ends])) for j in range(len(times))] if vec else [st, dict(zip('qpx', map(SortedDict, ends)))]
        return seq, (mod, tab)


def settle(s, times):
    """a start from which nothing grows large"""
    scale = .7
    for _ in range(12):
        st = s.start(scale)
        seq, (mod, tab) = s.pass_(st, times, s.step)
        big = max(float(v.abs().max()) for o in seq for d in 'qpx' for v in o[d].values())
        if big < 4 and all(bool(torch.isfinite(v).all()) for o in seq for d in 'qpx' for v in o[d].values()):
            return st, seq, mod, tab
        scale *= .6
    return None


def symmetry(s, law, r):
    n, per = s.n, (s.f * (s.f + 1) if s.m in CONV else s.d)
    dper = per
    g = dict(rows=list(range(1, n * per + 1)), datarows=list(range(1, s.rows * dper + 1)), cols={}, num=1, den=1, wf=1)
    for k in KEYS[s.m]:
        w = shape(s.m, k, 1, s.d, s.f, s.infl)[1 if s.m in CONV else 2]
        c = list(range(1, w + 1))
        sg = [1] * w
        if law in ('features', 'signs'):
            r.shuffle(c)
        if law == 'signs':
            sg = [r.choice([1, -1]) for _ in c]
        g['cols'][k] = [[a, b] for a, b in zip(c, sg)]
    part = list(range(n))
    if law == 'particles':
        r.shuffle(part)
        if n > 1 and part == list(range(n)):
            part = part[::-1]
    if law == 'repeat':
        part = part * r.choice([2, 3])
        if r.random() < .5:
            r.shuffle(part)
    pos = list(range(per))
    if law == 'mirror':
        h, w = s.f, s.f + 1
        fy, fx = r.choice([(0, 1), (1, 0), (1, 1)])
        pos = [(h - 1 - y if fy else y) * w + (w - 1 - x if fx else x) for y in range(h) for x in range(w)]
        g['datarows'] = [j * per + z + 1 for j in range(s.rows) for z in pos]
    g['rows'] = [j * per + z + 1 for j in part for z in pos]
    if law == 'scale':
        g['num'], g['den'] = r.choice([(2, 1), (1, 2), (4, 1), (3, 1), (1, 4)])
    if law == 'weights':
        g['wf'] = r.choice([2, 3, 4])
    return g


def image(st, g):
    f = g['num'] / g['den']
    return dict(q=SortedDict({k: act(v, g['rows'], g['cols'][k]) for k, v in st['q'].items()}), p=SortedDict({k: f * act(v, g['rows'], g['cols'][k[2:]]) for k, v in st['p'].items()}),
                x=SortedDict({k: act(v, g['datarows'], g['cols'][k]) for k, v in st['x'].items()}))


def show(st):
    return dict(q=mats(st['q']), p=mats(st['p'], 'p_'), x=mats(st['x']))


def one(rec, i, c):
    r = rng('symmetry', i)
    s, law = Setup(i, c, r), c['law']
    with guard(rec, s.sig):
        times = [0., s.T]
        if law == 'energy':
            times = [0., s.T / 4, s.T / 2, 3 * s.T / 4, s.T] if r.random() < .7 else [0., s.T]
        got = settle(s, times)
        if got is None:
            return
        st, seq, mod, tab = got
        if law in ('energy', 'reverse'):     # laws of the exact flow: only where the integration is accurate
            fine, _ = s.pass_(st, times, s.step / 2)
            if max(float((seq[-1][d][k] - fine[-1][d][k]).abs().max()) for d in 'qpx' for k in fine[-1][d]) > 3e-6:
                return
        if law == 'energy':
            es = [energy(mod, tab, o['q'], o['p'], o['x']) for o in seq]
            big = max(es[0], .05)
            rec.emit('Energy', s.sig, es=[q(v / big, 10 ** 6) for v in es], tol=200)
            return
        g = symmetry(s, law, r)
        if law == 'reverse':
            g['num'] = -1
            b0 = image(seq[-1], g)
            if s.kind == 'own' and s.m != 'Simple':
                s.kind = 'pass'       # blocks of their own start their data at the first state only
            sq, _ = s.pass_(b0, times, s.step)
            rec.emit('Reverse', s.sig, g=g, a0=show(st), a1=show(seq[-1]), b0=show(b0), b1=show(sq[-1]), tol=20)
            return
        b0, f = image(st, g), g['wf'] * g['den'] / g['num']
        tb = [t * f for t in times]
        if law == 'shift':
            z = r.choice([.25, -.5, 1., 3., .3])
            tb = [z + t for t in tb]
        sq, (modb, tabb) = s.pass_(b0, tb, s.step * f, w=None if law != 'weights' else (1. if s.w is None else s.w) * g['wf'])
        ea, eb = energy(mod, tab, *[seq[-1][k] for k in 'qpx']), energy(modb, tabb, *[sq[-1][k] for k in 'qpx'])
        big = max(1., ea)
        rec.emit('Law', s.sig + (' x%s' % f if f != 1 else ''), g=g, a0=show(st), a1=show(seq[-1]), b0=show(b0), b1=show(sq[-1]), ta=q(times[-1] - times[0], 10 ** 6), tb=q(tb[-1] - tb[0], 10 ** 6),
                 ea=q(ea / big, 10 ** 5), eb=q(eb / big, 10 ** 5), tol=1 if s.nl != 'relu' else 3)


def run(rec):
    sh, n = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    for i, c in enumerate(cs * (5 if THOROUGH else 1)):
        if i % n == sh:
            one(rec, i, c)


main(run)

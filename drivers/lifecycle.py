"""Makes real blocks in every configuration, runs them and asks for their parameters."""
from drv import *
from models import *
torch.set_default_dtype(torch.float64)
SC = 1e6
INFL = 2


def configs():
    out = []
    for m in VEC + CONV:
        modes = ['plain', 'zero', 'rnn', 'pf', 'pft', 'chain', 'chain2', 'chainzero', 'pass', 'adjoint']
        if m in ANALYTIC:
            modes.append('analytic')
        if m in ('UpDown', 'Universal', 'Periodic', 'General'):
            modes += ['dic-direct', 'dic-linear', 'dic-mini_nn', 'dicpf-direct']
        if m == 'UpDownConv':
            modes += ['dic-linear', 'dic-mini_nn']
        if m in CONV:
            modes += ['enlarge', 'enlarge2', 'enlargezero', 'enlargepart']
        out += [(m, mode) for mode in modes]
    return out


def numel(s):
    return int(np.prod(s))


class Life:
    def __init__(self, i, m, mode, nl):
        r = self.r = seed_all('life', i, m, mode)
        self.m, self.mode = m, mode
        self.n, self.d = r.randint(1, 3), r.randint(1, 2)
        self.f = r.randint(2, 3)
        ikw, bkw = {}, {}
        n, d, f = self.n, self.d, self.f
        npt = 2 if mode.endswith('2') else 1 if mode.startswith(('chain', 'enlarge', 'pass')) else 0
        K, layers = 1, []
        if 'zero' in mode:
            bkw['keep_initial_state_parameters_at_zero'] = True
        if mode == 'rnn':
            ikw['use_rnn_mode'] = True
        if mode == 'analytic':
            ikw['use_analytic_solution'] = True
        if mode == 'pf' or mode.startswith('dicpf'):
            bkw['use_particle_free_rnn_mode'] = True
        if mode == 'pft':
            K = r.choice([2, 4, 2, 4, 2, 4, 11])
            bkw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=K)
        if mode == 'adjoint':
            bkw['use_adjoint_integration'] = True
        if mode == 'pass':
            ikw['is_pass_through'] = True
        if mode.startswith('dic'):
            ty = mode.split('-')[1]
            ikw.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=ty)
            w, o = (d, d * INFL) if m in CONV else (f, f * INFL)
            mid = d * INFL if m in CONV else 10
            layers = {'direct': [d * f * INFL], 'linear': [w * o, o], 'mini_nn': [w * mid, mid, mid * o, o]}[ty]
        own = [] if mode == 'pass' else [numel(shape(m, k, n, d, f, INFL)) for k in KEYS[m]]
        self.prev, pts = None, []
        if npt:
            sd, cd, dd = SortedDict(), SortedDict(), SortedDict()
            for k in range(npt):
                nn, ff = n, f
                cur, tgt = [], []
                ss, cc, xx = SortedDict(), SortedDict(), SortedDict()
                for key in KEYS[m]:
                    full = shape(m, key, n, d, f, INFL)
                    s = list(full)
                    if mode.startswith('enlarge'):
                        red = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (0, 1, 1), (1, 0, 2)][(i + k) % 6]
                        if mode == 'enlargepart' and key == 'q2':
                            red = (0, 0, 0)
                        s = [max(1, s[0] - red[0]), s[1], max(1, s[2] - red[1]), max(1, s[3] - red[2])]
                    cur.append(numel(s))
                    tgt.append(numel(full))
                    ss[key], cc['p_' + key] = torch.randn(*s) * .5, torch.randn(*s) * .5
                    xx[key] = torch.randn(*([2] + full[1:])) * .5
                nm = ['a_first', 'z.last'][k] if i % 2 else ['z.last', 'a_first'][k]
                sd[nm], cd[nm], dd[nm] = ss, cc, xx
                pts.append((nm, dict(cur=cur, tgt=tgt)))
            self.prev = (sd, cd, dd)
            pts = [p for nm, p in sorted(pts)]
        self.ikw, self.bkw, self.nl = ikw, bkw, nl
        self.npt, self.nblocks = npt, npt + (0 if mode == 'pass' else 1)
        self.made = 0
        self.b = self.new()
        self.x = [torch.randn(*shape(m, 'q1', k, d, f, INFL)) * .7 for k in (2, 3)]
        self.K = K
        self.cfg = dict(own=own, pt=pts, zero='zero' in mode, free='pf' in mode, sets=K, setsize=0, layers=layers, ntensors=0)
        self.objs = []

    def new(self):
        ikw = dict(self.ikw)
        mod = make(self.m, self.nl, self.n, self.d, self.f, INFL, None, blocks=self.nblocks, **ikw)
        b = block('m_block', mod, step=.25, **self.bkw)
        return b

    def forward(self, b, x):
        first = []
        h = b.shooting_integrand.register_lagrangian_gradient_hook(lambda *a: first.append(a) if not first else None)
        if self.prev is not None:
            sc = 1. + .5 * x
            mul = lambda dd: SortedDict({k: SortedDict({kk: v * sc for kk, v in dd[k].items()}) for k in dd})
            out = b(pass_through_state_dict_of_dicts=self.prev[0], pass_through_costate_dict_of_dicts=self.prev[1], data_dict_of_dicts=mul(self.prev[2]))
        else:
            out = b(self.x[x])
        h.remove()
        a = first[0]
        ps = [p.numel() for o in a[8] for p in a[8][o].get_parameter_dict().values()]
        ms = 0.
        if 'm_block' in a[2]:
            ms = max(float(v.abs().max()) for v in a[2]['m_block'].values())
        if self.cfg['zero'] and self.mode == 'enlargezero':
            for nm in self.prev[0]:
                for k, v in self.prev[0][nm].items():
                    ms = max(ms, abs(float(a[2][nm][k].abs().sum()) - float(v.abs().sum())))
        return out, ps, ms if ms > 1e-12 else 0.


def flat(out):
    return torch.cat([out[0].detach().reshape(-1)] + [v.detach().reshape(-1) for dct in out[1:] for blk in dct.values() for v in blk.values()])


def behaviour(rec, i, m, mode, ops):
    nl = ['tanh', 'sigmoid', 'softmax'][i % 3]
    sig = '%s %s %s ops=%s' % (mode, m, nl, ','.join(ops))
    with guard(rec, sig + ' setup'), quiet():
        L = Life(i, m, mode, nl)
        cfg = L.cfg
        if cfg['free']:   # size of one parameter set: observed on a block of the same kind
            probe = L.new()
            _, ps, _ = L.forward(probe, 0)
            cfg['setsize'], cfg['ntensors'] = sum(ps), cfg['sets'] * len(ps) + len(cfg['layers'])
            if mode.startswith('dicpf'):
                pass
        else:
            cfg['ntensors'] = len(cfg['own']) * (1 if cfg['zero'] else 2) + len(cfg['layers'])
        rec.emit('Start', sig, cfg=cfg)
        ev = []
        for j, op in enumerate(list(ops) + ['forward', 'list', 'other', 'forward', 'list', 'grad']):
            s2 = '%s at %d' % (sig, j)
            with guard(rec, s2):
                step(rec, s2, L, op)


def pos(objs, p):
    for k, o in enumerate(objs):
        if o is p:
            return k + 1
    objs.append(p)
    return len(objs)


def step(rec, sig, L, op):
    b = L.b
    if op == 'list':
        st, ps = attempt(lambda: list(b.parameters()))
        if st == 'ok':
            nm = [n for n, p in b.named_parameters()]
            rec.emit('List', sig, ok=True, ids=[pos(L.objs, p) for p in ps], names=nm, numels=[p.numel() for p in ps])
        else:
            rec.emit('List', sig, ok=False)
    elif op in ('forward', 'other'):
        x = 1 if op == 'other' else 0
        with grad_mode(L.r):
            out, ps, ms = L.forward(b, x)
        rec.emit('Forward', sig, x=x + 1, out=qt(flat(out), SC), tol=2, maxstate=q(ms, 10 ** 6) or int(ms > 0))
        L.done = True
    elif op == 'train':
        with torch.no_grad():
            for n, p in b.named_parameters():
                p.add_(torch.randn(p.shape) * .2)
        rec.emit('Train', sig)
    elif op == 'convert':
        L.r.choice([lambda: b.double(), lambda: b.to('cpu'), lambda: b.to(torch.float64)])()
        rec.emit('Convert', sig)
    elif op == 'load':
        if not getattr(L, 'done', False):
            return
        b2 = L.new()
        L.forward(b2, 1)
        b2.load_state_dict(b.state_dict())
        if L.cfg['free']:
            return
        a, c = L.forward(b, 0)[0], L.forward(b2, 0)[0]
        rec.emit('Load', sig, a=qt(flat(a), SC), b=qt(flat(c), SC), tol=2)
    elif op == 'grad':
        with torch.no_grad():   # generic values, the result is looked at, not the initial zeros
            for n, p in b.named_parameters():
                p.copy_(torch.randn(p.shape) * .3)
        b.set_integration_time(1. if L.mode == 'pft' else .25)
        for which in ('result', 'all') if L.m != 'Debug' else ('all',):   # the two states of the Debug model do not interact
            b.zero_grad()
            out, _, _ = L.forward(b, 0)
            ls = [out[0]] if which == 'result' else [v for dct in out[1:] for blk in dct.values() for v in blk.values()]
            ls = [v for v in ls if v.requires_grad]
            if ls:
                sum((v * torch.randn(v.shape)).sum() for v in ls).backward()
            rec.emit('Grad', sig + ' ' + which, nonzero=[int(p.grad is not None and bool(torch.isfinite(p.grad).all()) and float(p.grad.abs().max()) > 0) for p in b.parameters()])


def run(rec):
    cs = [c['ops'] for c in cases()]
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    confs = configs()
    r = rng('life')
    r.shuffle(cs)
    n = len(confs) * (10 if THOROUGH else 2)
    for i in range(max(n, len(cs))):
        if i % ns == sh:
            m, mode = confs[i % len(confs)]
            behaviour(rec, i, m, mode, cs[i % len(cs)])
    if sh == 0:
        for m in ('Simple', 'UpDown'):
            with guard(rec, 'frozen adjoint %s' % m), quiet():
                b = block('b', make(m, 'tanh', use_rnn_mode=True), use_adjoint_integration=True)
                rec.emit('Start', 'frozen adjoint %s' % m, cfg=dict(own=[], pt=[], zero=False, free=False, sets=1, setsize=0, layers=[], ntensors=0))
                out = b(torch.randn(2, 1, 2))
                (out[0] ** 2).sum().backward()
                rec.emit('Grad', 'frozen adjoint %s' % m, nonzero=[int(p.grad is not None and float(p.grad.abs().max()) > 0) for p in b.parameters()])


main(run)

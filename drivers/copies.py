"""Real blocks, chains and networks that are copied, saved, loaded, trained and run in the orders of the specification."""
import copy, pickle
from drv import *
from models import *
import neuro_shooting.generic_integrator as gi
import neuro_shooting.res_net as rn
torch.set_default_dtype(torch.float64)
Q = 10 ** 6
TIMES = {1: 1., 2: .5, 3: [0., .5, 1.]}


class Chain(torch.nn.Module):
    def __init__(self, blocks):
        super().__init__()
        self.blocks = torch.nn.ModuleList(blocks)

    def forward(self, x):
        out = self.blocks[0](x)
        for b in list(self.blocks)[1:]:
            out = b(pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2], data_dict_of_dicts=out[3])
        return out


class Case:
    def __init__(self, i, m, mode, r):
        self.m, self.mode, self.i = m, mode, i
        self.nl = r.choice(['tanh', 'sigmoid', 'identity', 'relu', 'tanh', 'softmax'])
        if m in CONV or mode in ('network', 'chain', 'enlarge'):
            self.nl = r.choice(['tanh', 'sigmoid'])
        self.n, self.f, self.K = r.choice([1, 2]), 2, r.choice([2, 3, 2, 3, 2, 3, 11])
        self.late = mode in ('enlarge', 'network')     # parameters that are drawn in the first pass

    def make(self):
        m, mode, n, f = self.m, self.mode, self.n, self.f
        ikw, bkw = {}, {}
        if mode == 'rnn':
            ikw['use_rnn_mode'] = True
        elif mode == 'analytic':
            ikw['use_analytic_solution'] = True
        elif mode == 'zero':
            bkw['keep_initial_state_parameters_at_zero'] = True
        elif mode == 'pf':
            bkw['use_particle_free_rnn_mode'] = True
        elif mode == 'pft':
            bkw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=self.K)
        elif mode == 'adjoint':
            bkw['use_adjoint_integration'] = True
        elif mode.startswith('dic'):
            ikw.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=mode[3:])
        with quiet():
            if mode == 'network':
                return rn.BasicResNet(1, layer_channels=[1, 2], nr_of_blocks_per_layer=[1, 1], downsampling_stride=2, nonlinearity=self.nl, particle_sizes=[[3, 3], [2, 2]], nr_of_particles=n, nr_of_classes=2,
                                      integrator=gi.GenericIntegrator(integrator_library='odeint', integrator_name='rk4', integrator_options=dict(step_size=.5))).eval()
            if mode == 'chain':
                return Chain([block('b%d' % j, make(m, self.nl, n, 1, f, 1, None, in_features=(1 if m in CONV else f) * (j + 1)), step=.5) for j in range(2)])
            if mode == 'enlarge':
                return Chain([block('b%d' % j, make('Conv', self.nl, n, 1, f, 1, None, in_features=j + 1, particle_size=[2 + j, 3 + j]), step=.5) for j in range(2)])
            if mode == 'checkpoint':
                g = gi.GenericIntegrator(integrator_library='odeint', integrator_name='rk4', integrator_options=dict(step_size=.5), nr_of_checkpoints=1)
                return sb.ShootingBlockBase('b', shooting_integrand=make(m, self.nl, n, 1, f, 2, None), integrator=g)
            return block('b', make(m, self.nl, n, 1, f, 2, None, **ikw), step=.5, **bkw)

    def data(self):
        if self.mode == 'network':
            return torch.randn(2, 1, 5, 5)
        if self.mode == 'enlarge':
            return torch.randn(2, 1, 2, 3) * .5
        return torch.randn(*shape(self.m, 'q1', 2, 1, self.f, 2)) * .5


def blocks(z):
    return [b for b in z.modules() if isinstance(b, sb.ShootingBlockBase)]


FREE = [False]      # the particles of particle-free blocks mean nothing


def loss_of(z, x):
    out = z(x)
    if isinstance(out, torch.Tensor):
        ts = [out]
    else:
        ts = [out[0]] + [v for d in (out[3:4] if FREE[0] else out[1:4]) for b in d.values() for v in b.values()]
    return ts, sum((v ** 2).sum() for v in ts)


def observe(rec, sig, z, h, x):
    z.zero_grad()
    ts, loss = loss_of(z, x)
    loss.backward()
    pen = [p for p in [b.get_norm_penalty() for b in blocks(z)] if p is not None]
    ps = list(z.named_parameters())
    rec.emit('Pass', sig, h=h, out=qt(torch.cat([v.detach().reshape(-1) for v in ts] + [p.detach().reshape(-1) for p in pen]), Q),
             grad=[-1 if p.grad is None else q(float((p.grad * torch.linspace(1, 2, p.numel()).view(p.shape)).sum()), 1e5) for _, p in ps],
             names=[nm for nm, _ in ps], trainable=all(p.requires_grad for _, p in ps))


def behaviour(rec, i, m, mode, ops, r):
    c = Case(i, m, mode, r)
    FREE[0] = mode in ('pf', 'pft')
    early = not c.late and r.random() < .4      # operations before the first forward pass
    sig = 'history %s %s %s n=%d K=%d%s %s' % (m, mode, c.nl, c.n, c.K, ' early' * early, ' '.join('%s%s%s' % (o['op'], o['a'] or '', o['b'] or '') for o in ops))
    z, fresh, buf = {}, 1, None
    with guard(rec, sig), quiet():
        seed_all('copies', i)
        x = c.data()
        for h in (1, 2):
            z[h] = c.make()
            if not early:
                z[h](x)
            if c.late:
                observe_ready(z[h], x)
        rec.emit('Start', sig)
        seen = {1: not early, 2: not early}

        def ready(h):
            if not seen[h]:
                z[h](x)
                seen[h] = True
        if not early:
            for h in (1, 2):
                shrink(z[h], r)
                rec.emit('Train', sig, h=h, id=fresh)
                fresh += 1
                observe(rec, sig + ' first', z[h], h, x)
        for j, o in enumerate(ops):
            s2 = '%s at %d' % (sig, j)
            a, b, op = o['a'], o['b'], o['op']
            if op == 'train':
                ready(a)
                shrink(z[a], r)
                rec.emit('Train', s2, h=a, id=fresh)
                fresh += 1
            elif op == 'step':
                ready(a)
                z[a].zero_grad()
                opt = torch.optim.SGD(z[a].parameters(), lr=.02)
                loss_of(z[a], x)[1].backward()
                torch.nn.utils.clip_grad_norm_(z[a].parameters(), 5.)
                opt.step()
                with torch.no_grad():       # visible, also where the gradients are tiny
                    for p in z[a].parameters():
                        p.add_(.05)
                rec.emit('Step', s2, h=a)
            elif op == 'time':
                k = r.choice([2, 3] if mode not in ('network', 'chain', 'enlarge') else [2])
                for bl in blocks(z[a]):
                    if k == 3:
                        bl.set_integration_time_vector(torch.tensor(TIMES[k]), suppress_warning=True)
                    else:
                        bl.set_integration_time(TIMES[k])
                rec.emit('Time', s2, h=a, t=k)
            elif op == 'copy':
                how = r.choice(['deepcopy', 'save', 'pickle', 'grad'])
                if how == 'grad':       # a pass whose graph is still alive
                    kept = z[a](x)
                    seen[a] = True
                    z[b], seen[b] = copy.deepcopy(z[a]), True
                else:
                    z[b], seen[b] = (copy.deepcopy(z[a]) if how == 'deepcopy' else pickle.loads(pickle.dumps(z[a])) if how == 'pickle' else through_file(z[a])), seen[a]
                rec.emit('Copy', s2 + ' ' + how, a=a, b=b)
            elif op == 'save':
                with open('model.pt', 'wb') as fh:
                    torch.save(z[a], fh)
                buf = seen[a]
                rec.emit('Save', s2, h=a)
            elif op == 'load':
                with open('model.pt', 'rb') as fh:
                    z[b] = torch.load(fh, weights_only=False)
                seen[b] = buf
                rec.emit('Load', s2, h=b)
            elif op == 'restore':
                ready(a)
                ready(b)
                sd = z[a].state_dict()
                if r.random() < .5:
                    with open('state.pt', 'wb') as fh:
                        torch.save(sd, fh)
                    sd = torch.load('state.pt')
                z[b].load_state_dict(sd)
                rec.emit('Restore', s2, a=a, b=b)
            if r.random() < .4:
                h = r.choice([1, 2])
                ready(h)
                observe(rec, s2, z[h], h, x)
        for h in (1, 2):
            ready(h)
            observe(rec, sig + ' end', z[h], h, x)


def observe_ready(z, x):
    z(x)


def shrink(z, r):
    with torch.no_grad():
        for p in z.parameters():
            p.copy_(torch.tensor(np.random.RandomState(r.randrange(2 ** 31)).randn(*p.shape)) * .35)


def through_file(z):
    with open('copy.pt', 'wb') as fh:
        torch.save(z, fh)
    return torch.load('copy.pt', weights_only=False)


def kinds():
    out = []
    for m in VEC + CONV:
        out += [(m, k) for k in ['plain', 'rnn', 'pf', 'pft', 'zero', 'chain', 'adjoint', 'checkpoint']]
        if m in ANALYTIC:
            out.append((m, 'analytic'))
        if m in ('UpDown', 'Universal', 'Periodic', 'General'):
            out += [(m, 'dicdirect'), (m, 'diclinear'), (m, 'dicmini_nn')]
    return [k for k in out if k not in (('ConvBatch', 'chain'), )] + [('Conv', 'enlarge'), ('Conv', 'network')] * 6


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = [c['ops'] for c in cases()]
    r0 = rng('copies-pick')
    r0.shuffle(cs)
    if not THOROUGH:
        cs = [c for c in cs if len(c) == 2] + [c for c in cs if len(c) == 3][:520]
    ks = kinds()
    r0.shuffle(ks)
    for i, ops in enumerate(cs):
        if i % ns == sh:
            m, mode = ks[i % len(ks)]
            behaviour(rec, i, m, mode, ops, rng('copies', i))


main(run)

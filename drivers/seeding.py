"""Seeds the generators with the library's function and draws with everything that uses them."""
import subprocess
from drv import *
from models import *
import neuro_shooting.utils as u
import neuro_shooting.parameter_initialization as pi
import neuro_shooting.generic_integrator as gi
import neuro_shooting.res_net as rn
Q = 10 ** 7


def vals(ts):
    return qt(torch.cat([t.detach().reshape(-1).double() for t in ts]), Q)


def draw(kind, m, mode):
    if kind == 'py':
        return [q(random.random(), Q), random.randrange(10 ** 6), q(random.gauss(0, 1), Q)]
    if kind == 'np':
        return [q(np.random.rand(), Q), int(np.random.randint(0, 10 ** 6)), q(np.random.randn(), Q)] + [int(v) for v in np.random.permutation(6)]
    if kind == 'torch':
        return vals([torch.randn(2), torch.rand(2)]) + [int(v) for v in torch.randperm(6)]
    if kind == 'init':
        c = [lambda: pi.VectorEvolutionParameterInitializer().create_parameters(nr_of_particles=2, particle_size=2), lambda: pi.ConvolutionEvolutionParameterInitializer().create_parameters(nr_of_particles=2, particle_size=[2, 2]),
             lambda: pi.VectorEvolutionParameterInitializer().create_parameters_of_size([2, 3]), lambda: pi.VectorEvolutionParameterInitializer().create_parameters_like(torch.zeros(2, 2)),
             lambda: pi.VectorEvolutionParameterInitializer().create_parameters(nr_of_particles=30, particle_size=9)[-2:], lambda: pi.ConvolutionEvolutionParameterInitializer().create_parameters_of_size([3, 2, 8, 9])[-1, -1],
             lambda: pi.ConvolutionEvolutionParameterInitializer().create_parameters_like(torch.zeros(40, 9))[-2:], lambda: pi.VectorEvolutionParameterInitializer().create_parameters_like(torch.zeros(200))[-3:]]
        return vals([f() for f in c])
    if kind == 'batch':
        xs = torch.utils.data.TensorDataset(torch.arange(8.))
        return [int(v) for b in torch.utils.data.DataLoader(xs, batch_size=3, shuffle=True) for v in b[0]] + vals([torch.rand(2)])
    if kind == 'network':
        net = rn.BasicResNet(1, layer_channels=[1, 2], nr_of_blocks_per_layer=[1, 1], downsampling_stride=2, nonlinearity='tanh', particle_sizes=[[3, 3], [2, 2]], nr_of_particles=2, nr_of_classes=2,
                             integrator=gi.GenericIntegrator(integrator_library='odeint', integrator_name='euler', integrator_options=dict(step_size=1.)))
        o = net(torch.randn(1, 1, 5, 5))
        return vals([o] + list(net.parameters()))
    if kind == 'enlarge':
        a = block('a', make('Conv', 'tanh', 1, 1, 2, 1, None), step=1.)
        b = block('b', make('Conv', 'tanh', 1, 1, 2, 1, None, in_features=2, particle_size=[4, 4]), step=1.)
        o = a(torch.randn(1, 1, 4, 4))
        o = b(pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2], data_dict_of_dicts=o[3])
        return vals([o[0]] + list(b.parameters()))
    ikw, bkw = {}, {}
    if mode == 'rnn':
        ikw['use_rnn_mode'] = True
    elif mode == 'pf':
        bkw['use_particle_free_rnn_mode'] = True
    elif mode == 'pft':
        bkw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2)
    b = block('b', make(m, 'tanh', 2, 1, 2, 2, None, **ikw), step=.5, **bkw)
    x = torch.randn(*shape(m, 'q1', 2, 1, 2, 2))
    o = b(x)[0]
    if kind == 'block':
        return vals(list(b.parameters()) + [torch.rand(1)])
    if kind == 'pass':
        return vals([o, b(torch.randn(*x.shape))[0]])
    opt = torch.optim.Adam(b.parameters(), lr=.1)       # train
    ls = []
    for _ in range(3):
        opt.zero_grad()
        y = torch.randn(*x.shape)
        loss = ((b(y)[0] - random.random()) ** 2).sum() + b.get_norm_penalty().sum() * float(np.random.rand())
        loss.backward()
        opt.step()
        ls.append(loss)
    return vals(ls + list(b.parameters()))


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    r0 = rng('seeding-pick')
    r0.shuffle(cs)
    if not THOROUGH:
        cs = [c for c in cs if len(c['draws']) == 1] + [c for c in cs if len(c['draws']) == 2][:500]
    for i, c in enumerate(cs):
        if i % ns != sh:
            continue
        r = rng('seeding', i)
        m, mode = r.choice(VEC + CONV), r.choice(['plain', 'rnn', 'pf', 'pft'])
        sig = '%s %s %s' % (json.dumps(c), m, mode)
        with guard(rec, sig), quiet():
            torch.set_default_dtype(r.choice([torch.float32, torch.float64]))
            # the process has drawn before
            random.seed(r.randrange(10 ** 9))
            np.random.seed(r.randrange(10 ** 9))
            torch.manual_seed(r.randrange(10 ** 9))
            rec.emit('Start', sig)
            base, far = r.choice([0, 0, 17, 2 ** 30]), r.choice([1, 1, 256, 1000, 2 ** 16, 2 ** 24, 2 ** 28])
            for rnd, s in enumerate([min(v, 3 if far > 1 else v) * far + base if v >= 0 else v for v in (c['first'], c['again'])]):
                u.setup_random_seed(s)
                rec.emit('Seed', '%s round %d' % (sig, rnd), s=s)
                for k in c['draws']:
                    if c['keep']:
                        u.setup_random_seed(-1)
                        rec.emit('Seed', sig, s=-1)
                    rec.emit('Draw', '%s round %d %s' % (sig, rnd, k), kind=k, value=draw(k, m, mode))
                if c['noise'] and rnd == 0:
                    for _ in range(r.randint(1, 3)):
                        random.random()
                        np.random.randn(r.randint(1, 3))
                        torch.rand(r.randint(1, 5))
                    rec.emit('Draw', '%s round %d noise' % (sig, rnd), kind='noise', value=[rnd])
    for i, k in enumerate(['init', 'block', 'train', 'network', 'enlarge', 'pass', 'batch', 'block']):
        if i % ns == sh:
            r = rng('seeding-process', i)
            m, mode, s = r.choice(VEC + CONV), r.choice(['plain', 'rnn', 'pf', 'pft']), r.randrange(1000)
            sig = 'process %s %s %s seed=%d' % (k, m, mode, s)
            torch.set_default_dtype(torch.float64)
            with guard(rec, sig), quiet():
                rec.emit('Start', sig)
                u.setup_random_seed(s)
                rec.emit('Seed', sig, s=s)
                rec.emit('Draw', sig + ' here', kind=k, value=draw(k, m, mode))
                e = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 10 ** 6)))
                out = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), 'child', str(s), k, m, mode], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
                rec.emit('Seed', sig, s=s)
                rec.emit('Draw', sig + ' in another process', kind=k, value=json.loads(out.stdout.strip().splitlines()[-1]) if out.returncode == 0 else [out.stderr[-300:]])


if len(sys.argv) > 1 and sys.argv[1] == 'child':
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    with quiet():
        u.setup_random_seed(int(sys.argv[2]))
        v = draw(*sys.argv[3:6])
    print(json.dumps(v))
else:
    main(run)

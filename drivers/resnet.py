"""Forward passes of real residual networks, observed at the blocks."""
from drv import *
from models import *
import neuro_shooting.res_net as rn
import neuro_shooting.generic_integrator as gi
torch.set_default_dtype(torch.float64)
S = 1000
MODELS = {'Conv': (None, None), 'UpDownConv': (sm.AutoShootingIntegrandModelUpDownConv2D, dict(inflation_factor=2)), 'ConvBatch': (sm.AutoShootingIntegrandModelConv2DBatch, None)}


def tens(t):
    return dict(s=list(t.shape), v=qt(t.reshape(-1), S))


def first(dct):
    return list(list(dct.values())[0].values())[0]


def network(c, m, n, img, classes, nl, step, method='rk4', integrator=True):
    ps = [[2, 3]]
    for _ in c['ch'][1:]:
        ps.append([max(1, p // c['s']) + c['grow'] for p in ps[-1]])
    mod, kw = MODELS[m]
    k = dict(layer_channels=list(c['ch']), nr_of_blocks_per_layer=list(c['bl']), downsampling_stride=c['s'], nonlinearity=nl, particle_sizes=ps, nr_of_particles=n, nr_of_classes=classes, shooting_model=mod, shooting_model_kwargs=kw)
    if integrator:
        k['integrator'] = gi.GenericIntegrator(integrator_library='odeint', integrator_name=method, integrator_options=dict(step_size=step))
    with quiet():
        return rn.BasicResNet(img, **k)


def observe(net, x):
    """the network's result and what every block was given and returned, in order"""
    log, hs = [], []
    for mod in net.modules():
        if isinstance(mod, sb.ShootingBlockBase):
            hs.append(mod.register_forward_hook(lambda mod, a, k, out: log.append((mod, a, k, out)), with_kwargs=True))
    try:
        with quiet():
            out = net(x)
    finally:
        for h in hs:
            h.remove()
    return out, log


def one(rec, i, c, r):
    m = ['Conv', 'UpDownConv', 'ConvBatch'][i % 3]
    if m == 'ConvBatch' and (min(c['h'], c['w']) // c['s'] ** (len(c['ch']) - 1) < 2 or not c['grow']):
        m = 'Conv'  # group normalisation needs more than one value
    n, B, img, classes, nl = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3), r.randint(1, 4), r.choice(['tanh', 'sigmoid', 'relu', 'softmax'])
    sig = '%s %s n=%d B=%d img=%d classes=%d %s' % (m, json.dumps(c), n, B, img, classes, nl)
    if m == 'ConvBatch' and nl in ('relu', 'softmax'):
        nl = 'tanh'
    with guard(rec, sig):
        seed_all('resnet', i)
        net = network(c, m, n, img, classes, nl, .5)
        st, _ = attempt(lambda: list(net.parameters()))
        x = torch.randn(B, img, c['h'], c['w'])
        with quiet():
            net(x)
        net.eval()
        before = [nm for nm, _ in net.named_parameters()]
        with torch.no_grad():
            for p in net.parameters():
                p.normal_(std=.15)
            for mod in net.modules():
                if type(mod) is torch.nn.Linear:
                    mod.weight.copy_((mod.weight * S).round() / S)
        out, log = observe(net, x)
        for _ in range(12):
            if float(log[-1][3][0].abs().max()) < 30:
                break
            with torch.no_grad():
                for mod in net.modules():
                    if isinstance(mod, sb.ShootingBlockBase):
                        for p in mod.parameters(recurse=False):
                            p.mul_(.6)
            out, log = observe(net, x)
        mods = list(net.modules())
        conv = [q_ for q_ in mods if type(q_) is torch.nn.Conv2d][0]
        bn = [q_ for q_ in mods if isinstance(q_, torch.nn.BatchNorm2d)][0]
        lin = [q_ for q_ in mods if type(q_) is torch.nn.Linear][-1]
        import neuro_shooting.activation_functions_and_derivatives as ad
        start = ad.get_nonlinearity(nl)[0](bn(conv(x)))
        rec.emit('Start', sig, cfg=dict(ch=c['ch'], bl=c['bl'], h=c['h'], w=c['w'], s=c['s'], B=B, n=n, classes=classes), data=tens(start))
        for j, (mod, a, k, o) in enumerate(log):
            xin = a[0] if a else k.get('x')
            if xin is None:
                xin = first(k['data_dict_of_dicts'])
            rec.emit('Block', '%s block %d' % (sig, j), **{'in': tens(xin)}, out=tens(o[0]), shapes=[list(v.shape) for d in o[3].values() for v in d.values()], states=[list(v.shape) for dd in (o[1], o[2]) for d in dd.values() for v in d.values()])
        rec.emit('Scores', sig, out=tens(out), weight=qt(lin.weight, S), bias=qt(lin.bias, S))
        rec.emit('Reject', sig + ' parameters too early', clause='listed-too-early', raised=st == 'raise')
        rec.emit('Depends', sig, on='nothing-new', changed=before == [nm for nm, _ in net.named_parameters()])
        # every block matters
        for j, (mod, a, k, o) in enumerate(log if nl != 'relu' else []):
            mod.set_integration_time(.5)
            with quiet():
                o2 = net(x)
            mod.set_integration_time(1.)
            rec.emit('Depends', '%s block %d' % (sig, j), on='block', changed=bool((o2 - out).abs().max() > 1e-12))
        with quiet():
            o3 = net(x)
        rec.emit('Pair', sig + ' repeated', clause='same-again', a=qt(o3.reshape(-1), 1e6), b=qt(out.reshape(-1), 1e6), tol=0)
        # images are classified independently
        if m != 'ConvBatch':
            with quiet():
                o4 = net(x.flip(0))
                o5 = net(x[:1])
            rec.emit('Pair', sig + ' flipped', clause='per-image', a=qt(o4.flip(0).reshape(-1), 1e6), b=qt(out.reshape(-1), 1e6), tol=1)
            rec.emit('Pair', sig + ' alone', clause='per-image', a=qt(o5.reshape(-1), 1e6), b=qt(out[:1].reshape(-1), 1e6), tol=1)
        # and every parameter gets a gradient
        if nl in ('tanh', 'sigmoid'):
            with quiet():
                w = torch.randn(out.shape)
                (net(x) * w).sum().backward()
            for nm, p in net.named_parameters():
                rec.emit('Depends', '%s %s' % (sig, nm), on='parameter', changed=p.grad is not None and bool(p.grad.abs().max() > 0))


def misuse(rec):
    rec.emit('Start', 'misuse', cfg=dict(ch=[1], bl=[1], h=1, w=1, s=1, B=1, n=1, classes=1), data=dict(s=[], v=[]))
    with quiet():
        st, _ = attempt(lambda: rn.BasicResNet(1, layer_channels=[1, 2], nr_of_blocks_per_layer=[1, 1], particle_sizes=[[3, 3]]))
        st2, _ = attempt(lambda: rn.BasicResNet(1, layer_channels=[1], nr_of_blocks_per_layer=[1], particle_sizes=[[3, 3], [2, 2]]))
    rec.emit('Reject', 'misuse: one particle size for two layers', clause='refused', raised=st == 'raise')
    rec.emit('Reject', 'misuse: two particle sizes for one layer', clause='refused', raised=st2 == 'raise')


def run(rec):
    cs = cases()
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    r = rng('resnet-pick')
    cs = r.sample(cs, min(len(cs), 900 if THOROUGH else 150))
    for i, c in enumerate(cs):
        if i % ns == sh:
            one(rec, i, c, rng('resnet', i))
    if sh == 0:
        misuse(rec)


main(run)

"""Construction of the real shooting models from the configurations of the specification."""
import io, contextlib
from drv import *
from sortedcontainers import SortedDict
import neuro_shooting.shooting_models as sm
import neuro_shooting.shooting_blocks as sb

CLS = dict(Simple='AutoShootingIntegrandModelSimple', Debug='DEBUGAutoShootingIntegrandModelSimple', SecondOrder='AutoShootingIntegrandModelSecondOrder',
           UpDown='AutoShootingIntegrandModelUpDown', Universal='AutoShootingIntegrandModelUpDownUniversal', Periodic='AutoShootingIntegrandModelUpdownPeriodic',
           Dampened='AutoShootingIntegrandModelUpdownDampenedQ2', Symmetrized='AutoShootingIntegrandModelUpdownSymmetrized',
           General='AutoShootingIntegrandModelGeneralUpDown', Conv='AutoShootingIntegrandModelSimpleConv2D', UpDownConv='AutoShootingIntegrandModelUpDownConv2D',
           ConvBatch='AutoShootingIntegrandModelConv2DBatch', Transport='AutoShootingOptimalTransportSimple')
VEC = ['Simple', 'Debug', 'SecondOrder', 'UpDown', 'Universal', 'Periodic', 'Dampened', 'Symmetrized', 'General']
CONV = ['Conv', 'UpDownConv', 'ConvBatch']
ANALYTIC = ['Simple', 'Debug', 'UpDown', 'Universal', 'Periodic', 'Dampened', 'Symmetrized', 'General']
INFLATED = ['UpDown', 'Universal', 'Periodic', 'Dampened', 'Symmetrized', 'General', 'UpDownConv']
KEYS = {m: ['q1', 'q2'] for m in CLS}
KEYS['Simple'] = ['q1']
KEYS['Symmetrized'] = ['q1', 'q2', 'q3']
LAYERS = dict(Simple=['l1'], Debug=['l1', 'l2'], SecondOrder=['l1', 'l2'], UpDown=['l1', 'l2'], Universal=['l1', 'l2', 'l3'], Periodic=['l1', 'l2', 'l3'],
              Dampened=['l1', 'l2'], Symmetrized=['l1', 'l2', 'l3'], General=['l11', 'l12', 'l13', 'l14', 'l21', 'l22', 'l23', 'l24'],
              Conv=['conv1', 'conv2'], UpDownConv=['conv1', 'conv2'], ConvBatch=['conv1', 'conv2'], Transport=['l1', 'l2'])
WEIGHTS = {0: (None, (1, 1)), 1: (0.5, (1, 2)), 2: (4.0, (4, 1)), 3: (10.0, (10, 1))}
ENTRY = [(1, 2), (1, 1), (2, 1), (4, 1), (5, 1), (10, 1), (20, 1)]


def entry_weights(m, model, r):
    """gives every weight and bias of the model a regularisation weight of its own; returns them as fractions"""
    make_objects, out = m.create_default_parameter_objects, {l: {k: r.choice(ENTRY) for k in ('weight', 'bias')} for l in LAYERS[model]}

    def create(*a, **kw):
        po = make_objects(*a, **kw)
        for l in po:
            for k in po[l].get_parameter_dict():
                po[l].add_weight(k, out[l][k][0] / out[l][k][1])
        return po
    m.create_default_parameter_objects = create
    return {l: {k: list(v) for k, v in w.items()} for l, w in out.items()}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def width(model, key, f, infl):
    return f * infl if key == 'q2' and model in INFLATED else f


def make(model, nl='tanh', n=2, d=1, f=2, infl=2, weight=None, blocks=1, **kw):
    """vector: d dimensions of size f; convolution: d channels, image size f x (f+1)"""
    k = dict(nonlinearity=nl, nr_of_particles=n, parameter_weight=weight)
    if model in CONV:
        k.update(in_features=d * blocks, particle_dimension=d, particle_size=[f, f + 1])
    else:
        k.update(in_features=(d if kw.get('transpose_state_when_forward') else f * blocks), particle_dimension=d, particle_size=f)
    if model in INFLATED:
        k['inflation_factor'] = infl
    k.update(kw)
    with quiet():
        return getattr(sm, CLS[model])(**k)


def block(name, integrand, method='rk4', step=0.25, **kw):
    with quiet():
        return sb.ShootingBlockBase(name, shooting_integrand=integrand, integrator_name=method, integrator_options=dict(step_size=step), **kw)


def shape(model, key, rows, d, f, infl):
    if model in CONV:
        return [rows, d * (infl if key == 'q2' and model in INFLATED else 1), f, f + 1]
    return [rows, d, width(model, key, f, infl)]


# blocks have no layers that behave differently in training and evaluation: the flag is flipped at random before every forward pass
_flag = rng('training-flag')


def _flip(module, *a):
    if isinstance(module, sb.ShootingBlockBase):
        module.train(_flag.random() < .5)


torch.nn.modules.module.register_module_forward_pre_hook(_flip)


def grad_mode(r, p=.3):
    """a forward pass whose gradients are not looked at may as well run without recording them"""
    return torch.no_grad() if r.random() < p else contextlib.nullcontext()


def layout(x, r):
    """the same values, laid out differently in memory or part of a larger tensor, or taking part in differentiation"""
    k = r.randrange(5)
    if k == 0 and x.dim() > 1:
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if k == 1:
        return torch.stack([x, x + 1], -1)[..., 0]
    if k == 2:
        return x.clone().requires_grad_(True)
    return x.clone()

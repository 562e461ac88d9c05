"""Histories of the real initialisers, alone and inside blocks."""
import io, contextlib
from drv import *
from models import make as mkmodel, block, quiet, VEC, CONV, KEYS, INFLATED, shape as mshape
import neuro_shooting.parameter_initialization as pi
import neuro_shooting.utils as utils
CLS = dict(Vector='VectorEvolutionParameterInitializer', VectorBatch='VectorEvolutionSampleBatchParameterInitializer',
           Conv='ConvolutionEvolutionParameterInitializer', ConvBatch='ConvolutionEvolutionSampleBatchParameterInitializer')


def seed(s):
    with quiet():
        utils.setup_random_seed(s)


def one(rec, i, c, r):
    kind, conv = c['kind'], c['kind'].startswith('Conv')
    mags = [r.choice([.1, .5, 1., 3.]), r.choice([.05, 2., 40., 0, 0.])]
    n, d = r.randint(1, 4), r.randint(1, 3)
    ps = ([r.randint(1, 3) for _ in range(r.choice([1, 2, 2, 3]))] if conv else r.randint(1, 4))
    full = [n, d] + (ps if conv else [ps])
    bshape = r.choice([full, full, [1] + full[1:], full[:-1] + [1]])
    sig = '%s %s full=%s batch=%s mags=%s' % (kind, ','.join(o['call'] + ':' + o['what'] for o in c['ops']), full, bshape if 'Batch' in kind else '-', mags)
    with guard(rec, sig):
        g = torch.Generator().manual_seed(i)
        batch = torch.randn(bshape, generator=g) * 2
        rec.emit('Start', sig)
        s = r.choice([0, 1, 17, 123456])
        like = torch.randn([r.randint(1, 3) for _ in range(r.randint(1, 4))], generator=g).to(r.choice([torch.float32, torch.float64]))
        size = [r.randint(1, 3) for _ in range(r.randint(1, 4))]
        size = r.choice([tuple, list, torch.Size])(size)
        if r.random() < .5:
            like.requires_grad_(True)
            like = like * 2 if r.random() < .5 else like
        if r.random() < .5 and conv:
            ps = tuple(ps)
        for rep, mag in enumerate(mags):
            kw = dict(only_random_initialization=True, random_initialization_magnitude=mag)
            if 'Batch' in kind:
                kw['sample_batch'] = batch
            init = getattr(pi, CLS[kind])(**kw)
            if rep:
                rec.emit('Seed', sig)
            seed(s)
            for j, o in enumerate(c['ops']):
                const = r.choice([2., -3., 7., .1, -1. / 3, 1e-3])
                k = {}
                if o['what'] == 'zero':
                    k = dict(set_to_zero=True)
                elif o['what'] == 'const':
                    k = dict(set_to_constant=const)
                elif o['what'] == 'const0':
                    k, const = dict(set_to_constant=0), 0.
                centre = None
                if o['call'] == 'create':
                    p = init.create_parameters(nr_of_particles=n, particle_size=ps, particle_dimension=d, **k)
                    want, wdt = full, torch.float32
                    centre = batch if 'Batch' in kind else None
                elif o['call'] == 'like':
                    p = init.create_parameters_like(like, **k)
                    want, wdt = list(like.shape), like.dtype
                else:
                    p = init.create_parameters_of_size(size, **k)
                    want, wdt = list(size), torch.float32
                v = p.detach().double()
                noise = v if centre is None or v.shape != torch.Size(want) else v - centre.double()
                what = 'const' if o['what'] == 'const0' else o['what']
                if mag == 0 and what == 'noise':        # no noise: the centre itself
                    what, const, v = ('zero', 0., noise)
                rec.emit('Make', '%s rep=%d call %d' % (sig, rep, j), what=what, shape=list(p.shape), want=want, trainable=isinstance(p, torch.nn.Parameter) and p.requires_grad and p.is_leaf,
                         dtype=str(p.dtype), wantdtype=str(wdt), v=qt(v.reshape(-1), 1000), const=q(const, 1000), exactly=bool((p.detach() == torch.tensor(const, dtype=p.dtype)).all()), noise=qt((noise / (mag or 1.)).reshape(-1)[:40], 10 ** 6))


def stats(rec, i, r):
    kind = list(CLS)[i % 4]
    mag = r.choice([.05, .3, 1., 4.])
    sig = 'statistics %s magnitude=%s' % (kind, mag)
    with guard(rec, sig):
        seed(SEED * 100 + i)
        shp = [20, 10, 40]
        ps = [8, 5] if kind.startswith('Conv') else 40
        full = [20, 10] + (ps if isinstance(ps, list) else [ps])
        batch = torch.randn(full)
        init = getattr(pi, CLS[kind])(only_random_initialization=True, random_initialization_magnitude=mag, sample_batch=batch)
        rec.emit('Start', sig)
        for call in ('create', 'like', 'size'):
            two = []
            for _ in range(2):
                p = init.create_parameters(20, ps, 10) if call == 'create' else init.create_parameters_like(torch.zeros(full)) if call == 'like' else init.create_parameters_of_size(full)
                z = p.detach().double()
                if call == 'create' and 'Batch' in kind:
                    z = z - batch.double()
                two.append((z / mag).reshape(-1))
            a, b = two
            rec.emit('Stats', '%s %s' % (sig, call), std=q(a.std(), 1000), mean=q(a.mean(), 1000), corr=q((a * b).mean(), 1000))


def refusals(rec):
    rec.emit('Start', 'refusals')
    for kind in CLS:
        conv = kind.startswith('Conv')
        init = getattr(pi, CLS[kind])(sample_batch=torch.zeros(2, 1, 3))
        ps = [3] if conv else 3
        for nm, f in (('create', lambda: init.create_parameters(2, ps, 1, set_to_zero=True, set_to_constant=1.)), ('like', lambda: init.create_parameters_like(torch.zeros(2), set_to_zero=True, set_to_constant=0.)),
                      ('size', lambda: init.create_parameters_of_size((2, 3), set_to_zero=True, set_to_constant=2.))):
            st, _ = attempt(f)
            rec.emit('Reject', 'refusal %s %s: zero and constant' % (kind, nm), clause='zero-and-constant-refused', raised=st == 'raise')
        if conv:
            for bad in (3, None, 'ab', 3.5):
                for k in ({}, dict(set_to_zero=True), dict(set_to_constant=1.)):
                    st, _ = attempt(lambda: init.create_parameters(2, bad, 1, **k))
                    rec.emit('Reject', 'refusal %s size %r %s' % (kind, bad, k), clause='malformed-size-refused', raised=st == 'raise')


def inblock(rec, i, r):
    """particles of a block come from its initialisers"""
    m = (VEC + CONV)[i % 12]
    n, d, f, infl = r.randint(1, 3), r.choice([1, 2]), 2, r.choice([1, 3])
    zero = i % 3 == 0
    ms, mc = r.choice([.1, 2.]), r.choice([.3, 5.])
    Init = pi.ConvolutionEvolutionParameterInitializer if m in CONV else pi.VectorEvolutionParameterInitializer
    sig = 'block %s n=%d d=%d infl=%d zero=%s' % (m, n, d, infl, zero)
    with guard(rec, sig), quiet():
        rec.emit('Start', sig)
        for rep in range(2):
            seed(5 + i)
            # same seed, other magnitudes: same noise
            a, c = (ms, mc) if rep == 0 else (2 * ms, 3 * mc)
            mod = mkmodel(m, 'tanh', n, d, f, infl, state_initializer=Init(only_random_initialization=True, random_initialization_magnitude=a), costate_initializer=Init(only_random_initialization=True, random_initialization_magnitude=c))
            b = block('b', mod, keep_initial_state_parameters_at_zero=zero)
            o = b(torch.zeros(*mshape(m, 'q1', 2, d, f, infl)))
            if rep:
                rec.emit('Seed', sig)
            ps = dict(b.named_parameters())
            for k in KEYS[m]:
                sh = mshape(m, k, n, d, f, infl)
                if not zero:
                    p = ps[k]
                    rec.emit('Make', '%s %s rep=%d' % (sig, k, rep), what='noise', shape=list(p.shape), want=sh, trainable=p.requires_grad, dtype=str(p.dtype), wantdtype=str(torch.float32), v=[], const=0, noise=qt((p.detach().double() / a).reshape(-1)[:40], 10 ** 6))
                p = ps['p_' + k]
                rec.emit('Make', '%s p_%s rep=%d' % (sig, k, rep), what='noise', shape=list(p.shape), want=sh, trainable=p.requires_grad, dtype=str(p.dtype), wantdtype=str(torch.float32), v=[], const=0, noise=qt((p.detach().double() / c).reshape(-1)[:40], 10 ** 6))


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    if not THOROUGH:
        cs = rng('inits-pick').sample(cs, 700)
    for i, c in enumerate(cs):
        if i % ns == sh:
            one(rec, i, c, rng('inits', i))
    for i in range(36):
        if i % ns == sh:
            stats(rec, i, rng('stats', i))
            inblock(rec, i, rng('inblock', i))
    if sh == 0:
        refusals(rec)


main(run)

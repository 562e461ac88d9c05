"""Evaluates the real nonlinearities and their derivatives."""
from drv import *
from neuro_shooting.activation_functions_and_derivatives import get_nonlinearity
NT = 30000
NAMES = ['identity', 'relu', 'tanh', 'sigmoid', 'softmax']


def spell(r, nl):
    if nl == 'identity' and r.random() < .4:
        return None
    return r.choice([nl, nl.upper(), nl.capitalize(), ''.join(c.upper() if r.random() < .5 else c for c in nl)])


def tensor(rec, r, nl, ks, shape, dt, name):
    sig = '%s as %s shape=%s %s k=%s' % (nl, name, shape, str(dt)[6:], ks[:3])
    with guard(rec, sig):
        f, df = get_nonlinearity(name)
        x = (torch.tensor(ks, dtype=dt) / 8).view(tuple(shape))
        if len(shape) == 2 and r.random() < .3:
            x = x.t().contiguous().t()
        keep = x.clone()
        req = r.random() < .3
        x.requires_grad_(req)
        v, d = f(x), df(x)
        rec.emit('Tensor', sig, nl=nl, k=ks, shape=shape, vshape=list(v.shape), dshape=list(d.shape), type=str(dt), vtype=str(v.dtype), dtype=str(d.dtype),
                 intact=bool(torch.equal(x.detach(), keep)), v=[q(z, NT) for z in v.detach().reshape(-1).tolist()], d=[q(z, NT) for z in d.detach().reshape(-1).tolist()], tol=12)


def tails(rec, nl):
    """far from zero: how fast values and derivatives decay"""
    f, df = get_nonlinearity(nl)
    for dt, ks in ((torch.float64, range(8, 26)), (torch.float32, range(8, 11))):
        for k in ks:
            for sign in (1, -1):
                for what, g in (('d', df), ('v', f)):
                    if (what == 'v' and (nl == 'tanh' or sign == 1)) or (nl == 'softmax' and sign == 1):
                        continue
                    h = .5 if nl == 'tanh' else 1.
                    with guard(rec, '%s tail %d' % (nl, sign * k)):
                        y = g(torch.tensor([sign * k * h, sign * (k + 1) * h], dtype=dt)).tolist()
                        rec.emit('Tail', '%s tail %s %s at %.1f' % (nl, what, str(dt)[6:], sign * k * h), nl=nl, what=what, k=k, ratio=q(y[1] / y[0] if y[0] else 0., 10 ** 6), tol=3000 if dt == torch.float64 else 20000)


def run(rec):
    r = rng('nonlin')
    grid = {n: [] for n in NAMES}
    for c in cases():
        grid[c['nl']].append(c['k'])
    for nl in NAMES:
        ks = sorted(grid[nl])
        for dt in (torch.float32, torch.float64):
            for a in range(0, len(ks), 27):
                part = ks[a:a + 27]
                tensor(rec, r, nl, part, [len(part)], dt, spell(r, nl))
            far = [s * v for v in (97, 120, 200, 400, 800, 4000, 8000) for s in (1, -1)]
            tensor(rec, r, nl, far, [2, 7], dt, spell(r, nl))
        for i in range(60 if THOROUGH else 20):
            rank = r.randint(0, 5)
            shape = [r.randint(1, 3) for _ in range(rank)]
            n = int(np.prod(shape)) if shape else 1
            tensor(rec, r, nl, [r.randint(-94, 94) for _ in range(n)], shape, r.choice([torch.float32, torch.float64]), spell(r, nl))
        tensor(rec, r, nl, [], [0, 3], torch.float32, spell(r, nl))
        with guard(rec, nl + ' between'):
            f, df = get_nonlinearity(nl)
            for i in range(1500 if THOROUGH else 300):
                k, rr = r.randint(-60, 59), r.randint(0, 8)
                if nl == 'relu' and k in (-1, 0):
                    continue
                x, h = (k + rr / 8.) / 8, .006
                t = torch.tensor([x - h / 2, x, x + h / 2], dtype=torch.float64)
                fa, v, fb = f(t).tolist()
                d = df(t).tolist()[1]
                rec.emit('Secant', '%s between x=%.5f' % (nl, x), nl=nl, k=k, r=rr, fa=q(fa, 1e6), fb=q(fb, 1e6), d=q(d, 1e6), h=q(h, 1e6), v=q(v, NT))
        if nl not in ('identity', 'relu'):
            tails(rec, nl)
    for bad in ('', 'elu', 'leaky_relu', 'relu6', ' tanh', 'none', 'sigmoidal', 'arctan'):
        st, _ = attempt(get_nonlinearity, bad)
        rec.emit('Reject', 'unknown name %r' % bad, raised=st == 'raise')


main(run)

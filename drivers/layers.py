"""Histories of the real parameter-free layers, on integer tensors."""
from drv import *
import neuro_shooting.overwrite_classes as oc
Z = 8
S = 200
DT = {'f32': torch.float32, 'f64': torch.float64}
NAME = {v: k for k, v in DT.items()}


def ints(r, shp, lo=-3, hi=3):
    return torch.tensor([r.randint(lo, hi) for _ in range(int(np.prod(shp)))], dtype=torch.float64).view(tuple(shp))


def tens(t, sc=1):
    return dict(s=list(t.shape), v=qt(t.reshape(-1), sc))


def exact(t, sc=1):
    """integers, or a value no specification explains"""
    v = t.detach().double().reshape(-1) * sc
    return dict(s=list(t.shape), v=[int(round(float(a))) if abs(a) < 1e9 and abs(a - round(float(a))) < 1e-4 else NAN for a in v])


def make(kind, c, bias, weight, r):
    if kind == 'linear':
        i, o = r.randint(1, 3), r.randint(1, 3)
        return oc.SNN_Linear(i, o, bias=bias, weight=weight), dict(kind='linear'), (i, o)
    if kind == 'damped':
        i, o = r.randint(1, 3), r.randint(1, 3)
        return oc.SNN_LinearDampening(i, o, bias=bias, weight=weight), dict(kind='damped'), (i, o)
    if kind == 'group':
        g = r.randint(1, 2)
        ch = g * r.randint(1, 2)
        eps = r.choice([0, 0, 1, 3, 10])        # 0: not given
        return oc.SNN_GroupNorm(g, ch, affine=bias, weight=weight, **(dict(eps=float(eps)) if eps else {})), dict(kind='group', groups=g, eps=eps), (g, ch)
    g = c['groups']
    ci, co = g * r.randint(1, 2), g * r.randint(1, 2)
    k = dict(kernel_size=(c['kh'], c['kw']), stride=c['st'], padding=(min(c['pd'], 1), c['pd']), dilation=c['dl'], groups=g, padding_mode=c['mode'], bias=bias, weight=weight)
    cfg = dict(kind='conv', st=[c['st']] * 2, pd=list(k['padding']), dl=[c['dl']] * 2, groups=g, mode=c['mode'])
    if c['kh'] == c['kw'] and r.random() < .5:
        k['kernel_size'] = c['kh']
    return oc.SNN_Conv2d(ci, co, **k), cfg, (ci, co)


def wanted(kind, cfg, io, c, bias):
    w = {}
    if kind == 'group':
        if bias:
            w = dict(weight=[io[1]], bias=[io[1]])
        return w
    if kind in ('linear', 'damped'):
        w['weight'] = [io[1], io[0]]
    else:
        w['weight'] = [io[1], io[0] // c['groups'], c['kh'], c['kw']]
    if bias:
        w['bias'] = [io[1]]
    if kind == 'damped':
        w['dampening'] = [1]
    return w


def entries(layer):
    d = layer.get_parameter_dict()
    return {k: exact(v, Z if k == 'dampening' else 1) for k, v in d.items()}


def one(rec, i, case, r):
    kind, bias = case['kind'], case['bias']
    c = case.get('c') or dict(kh=3, kw=3, st=1, pd=1, dl=1, groups=1, mode='zeros')
    k0 = 'conv' if kind == 'conv1' else kind
    wgt = r.choice([None, 2.0, 0.5, torch.tensor(3.0)])
    sig = '%s %s bias=%s' % (kind, json.dumps(case.get('c') or case['h']), bias)
    with guard(rec, sig):
        seed_all('layers', i)
        layer, cfg, io = make(k0, c, bias, wgt, r)
        d = layer.get_parameter_dict()
        need = all(v.requires_grad for v in d.values())
        want = wanted(k0, cfg, io, c, bias)
        names, shapes = sorted(d), {k: list(v.shape) for k, v in d.items()}
        dt = 'f32'
        for k in d:
            v = ints(r, d[k].shape).float() / (Z if k == 'dampening' else 1)
            d[k] = v.requires_grad_(True)
        wd = {k: plain(v) for k, v in layer.get_parameter_weight_dict().items()}
        asked = {k: plain(wgt) for k in want}
        rec.emit('Start', sig, cfg=cfg, names=names, want=sorted(want), shapes=shapes, wantshapes=want, own=len(list(layer.parameters())) + (0 if need else 100), entries=entries(layer), weight=wd, askedweight=asked, dtype=dt)
        for j, op in enumerate(case['h']):
            s2 = '%s op %d' % (sig, j)
            d = layer.get_parameter_dict()
            if op in ('w', 'b', 'p'):
                if not d:
                    continue
                k = 'bias' if op == 'b' and 'bias' in d else ('weight' if op != 'p' or 'dampening' not in d else 'dampening')
                v = (ints(r, d[k].shape) / (Z if k == 'dampening' else 1)).to(DT[dt])
                d[k] = torch.nn.Parameter(v) if op == 'p' else v.requires_grad_(True)
                rec.emit('Set', s2, name=k, value=exact(v, Z if k == 'dampening' else 1))
            elif op == 'g' and d:
                k = r.choice(sorted(d))
                v = r.choice([5.0, torch.tensor(.25), None])
                layer.add_weight(k, v)
                rec.emit('Weigh', s2, name=k, value=plain(v))
            elif op == 'u':
                for nm in ('no-such-entry', 'wei', ''):
                    st, _ = attempt(layer.add_weight, nm, 2.)
                    rec.emit('Reject', '%s weight for %r' % (s2, nm), clause='unknown-entry-refused', raised=st == 'raise')
            elif op == 'c':
                dt = 'f64' if dt == 'f32' else 'f32'
                how = r.choice(['to', 'kw', 'method', 'like'])
                ret = layer.to(DT[dt]) if how == 'to' else layer.to(dtype=DT[dt]) if how == 'kw' else layer.to(torch.zeros(1, dtype=DT[dt])) if how == 'like' else (layer.double() if dt == 'f64' else layer.float())
                rec.emit('Convert', s2, to=dt)
                layer = ret if ret is not None else layer
            elif op == 'a':
                apply(rec, s2, layer, k0, cfg, io, c, dt, r)
            wnow = layer.get_parameter_weight_dict()
            rec.emit('Weights', s2, weights={k: plain(v) for k, v in wnow.items()})
            rec.emit('Dict', s2, entries=entries(layer), dtypes={k: NAME.get(v.dtype, str(v.dtype)) for k, v in layer.get_parameter_dict().items()})
        if 'c' in case['h']:
            st, _ = attempt(layer.to, torch.int64)
            rec.emit('Reject', sig + ' to integers', clause='integers-refused', raised=st == 'raise')


def plain(v):
    return str(v.float()) if isinstance(v, torch.Tensor) else str(v)


def apply(rec, sig, layer, kind, cfg, io, c, dt, r):
    B = r.randint(1, 2)
    if kind in ('linear', 'damped'):
        x = ints(r, [r.randint(1, 2) for _ in range(r.randint(1, 3))] + [io[0]])
        if kind == 'damped':
            z = ints(r, list(x.shape[:-1]) + [io[1]])
    elif kind == 'group':
        x = ints(r, [B, io[1], 2] + ([2] if r.random() < .5 else []))
    else:
        lo = max(3, (max(c['kh'], c['kw']) - 1) * c['dl'] + 1 - 2 * min(c['pd'], 1))
        x = ints(r, [B, io[0], lo + r.randint(0, 1), max(3, lo)])
    x = x.to(DT[dt]).requires_grad_(True)
    args = [x] + ([z.to(DT[dt])] if kind == 'damped' else [])
    y = layer(*args)
    ev = dict(x=exact(x), z=exact(args[1]) if kind == 'damped' else 0, Z=Z if kind == 'damped' else 1, S=S)
    rec.emit('Apply', sig, y=tens(y, S) if kind == 'group' else exact(y, ev['Z']), dtype=NAME.get(y.dtype, str(y.dtype)), own=len(list(layer.parameters())), **ev)
    d = layer.get_parameter_dict()
    if not d:
        return
    g = ints(r, y.shape, -2, 2)
    grads = torch.autograd.grad((y * g.to(y.dtype)).sum(), [d[k] for k in d] + [x], allow_unused=True)
    if kind == 'group':
        F = torch.nn.functional.group_norm(x.detach().double(), cfg['groups'], None, None, cfg['eps'] or 1e-5)
        other = [z_ for z_ in range(F.dim()) if z_ != 1]
        wg = {'weight': (F * g).sum(dim=other), 'bias': g.sum(dim=other)}
        for k, v in zip(d, grads):
            rec.emit('Pair', '%s gradient of %s' % (sig, k), clause='gradient-reaches-the-entry', a=[NAN] if v is None else qt(v.reshape(-1), 1000), b=qt(wg[k].reshape(-1), 1000), tol=2)
    elif y.numel() * sum(v.numel() for v in d.values()) < 1200:
        rec.emit('Grad', sig, g=exact(g)['v'], grads={k: [NAN] if v is None else exact(v)['v'] for k, v in zip(d, grads)}, **ev)
    rec.emit('Reject', sig + ' input gradient', clause='gradient-reaches-the-input', raised=grads[-1] is not None)


def independent(rec, r):
    """two layers share nothing"""
    for kind in ('linear', 'damped', 'group', 'conv'):
        c = dict(kh=2, kw=2, st=1, pd=0, dl=1, groups=1, mode='zeros')
        sig = 'independent %s' % kind
        with guard(rec, sig):
            a = make(kind, c, True, None, random.Random(3))[0]
            b = make(kind, c, True, 2., random.Random(3))[0]
            da, db = a.get_parameter_dict(), b.get_parameter_dict()
            before = torch.cat([v.detach().reshape(-1) for v in db.values()]).clone()
            for k in da:
                with torch.no_grad():
                    da[k].add_(5.)
                da[k] = da[k] * 2
            a.add_weight('weight', 9.)
            after = torch.cat([v.detach().reshape(-1) for v in db.values()])
            rec.emit('Start', sig, cfg=dict(kind=kind), names=[], want=[], shapes={}, wantshapes={}, own=0, entries={}, weight={}, askedweight={}, dtype='f32')
            rec.emit('Pair', sig, clause='layers-independent', a=qt(before, 1e6) + [q(b.get_parameter_weight_dict()['weight'], 1)], b=qt(after, 1e6) + [2], tol=0)


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    r = rng('layers-pick')
    conv = [c for c in cs if c['kind'] == 'conv']
    rest = [c for c in cs if c['kind'] != 'conv']
    if not THOROUGH:
        conv, rest = r.sample(conv, 400), r.sample(rest, 400)
    for i, c in enumerate(conv + rest):
        if i % ns == sh:
            one(rec, i, c, rng('layers', i))
    if sh == 0:
        independent(rec, r)


main(run)

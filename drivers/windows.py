"""The data pipelines and piecewise predictions of the demonstrations."""
import argparse
import matplotlib
matplotlib.use('Agg')
from drv import *
from models import *
sys.path.insert(0, os.path.join(REPO, 'demos', 'neurips20'))
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    import spiral
    import autoencoder
    import simple_functional_mapping_example as sfm
    import importlib.util as iu
    _s = iu.spec_from_file_location('demo_utils', os.path.join(REPO, 'demos', 'neurips20', 'utils.py'))
    du = iu.module_from_spec(_s)
    _s.loader.exec_module(du)
torch.set_default_dtype(torch.float64)
Q = 10 ** 5


class Proxy:
    """a block that is listened to"""

    def __init__(self, b):
        self.b, self.seen, self.times = b, [], None

    def set_integration_time_vector(self, integration_time_vector, suppress_warning=False):
        self.times = integration_time_vector.clone()
        self.b.set_integration_time_vector(integration_time_vector=integration_time_vector, suppress_warning=suppress_warning)

    def __call__(self, x):
        o = self.b(x=x)
        self.seen.append((self.times, x.detach().clone(), o[0].detach().clone(), self.b.get_norm_penalty()))
        return o

    def get_norm_penalty(self):
        return self.b.get_norm_penalty()

    def __getattr__(self, k):
        return getattr(self.b, k)


def make_block(r, f=2, **kw):
    m = r.choice(['Simple', 'UpDown', 'Universal', 'Periodic'])
    b = block('simple', make(m, 'tanh', r.randint(1, 3), 1, f, 2, None), step=r.choice([.05, .1]), **kw)
    with quiet():
        b(torch.randn(2, 1, f))
    with torch.no_grad():
        for p in b.parameters():
            p.normal_(std=.4)
    return b


def trajectory(r, n):
    """a trajectory with distinct points and uneven distances"""
    t = torch.linspace(0., 1. * (n - 1) / 4, n)
    ang = torch.cumsum(torch.tensor([r.uniform(.1, .5) for _ in range(n)]), 0)
    rad = torch.linspace(1., .4, n)
    y = torch.stack([rad * torch.cos(ang), rad * torch.sin(ang)], 1)[:, None, :]
    return dict(t=t, y=y, y0=y[0])


def which(v, y):
    d = (y.reshape(len(y), -1) - v.reshape(1, -1)).abs().max(1)[0]
    return int(d.argmin()) if float(d.min()) < 1e-7 else -1


def window(rec, sig, y0, t, y, d, want):
    rec.emit('Window', sig, idx=[[which(y[i, m], d['y']) for i in range(y.shape[0])] for m in range(y.shape[1])], first=[which(y0[m], d['y']) for m in range(y0.shape[0])],
             len=int(y.shape[0]), want=want, times=qt(t, Q))


def one(rec, c, r, sig):
    kind, n, k, z = c['kind'], c['t'], c['c'], c['zero']
    start = lambda **kw: rec.emit('Start', sig, **dict(dict(kind=kind, t=n, c=k, zero=z, times=[], predict=False, start=[]), **kw))
    if kind == 'chunks':
        gap = r.choice([.1, .25, 1.])
        t = torch.cumsum(torch.tensor([0.] + [gap * (1 if z else r.uniform(.5, 2)) for _ in range(n - 1)]), 0)
        if k == 1:
            start(times=qt(t, Q))
            signal.alarm(1)
            try:
                st = attempt(spiral.get_time_chunks, t=t, chunk_time=1, start_time_chunk_from_zero=bool(z))
                ok = st[0] == 'raise' and isinstance(st[1], ValueError)
            except (CaseTimeout, MemoryError):
                ok = False
            signal.alarm(0)
            rec.emit('Refused', sig, refused=ok)
            return
        start(times=qt(t, Q))
        kw = {} if z and r.random() < .5 else dict(start_time_chunk_from_zero=bool(z))
        for p in spiral.get_time_chunks(t=t, chunk_time=k, **kw):
            rec.emit('Piece', sig, times=qt(p, Q), start=[], out=[])
        rec.emit('All', sig, pred=[], pieces=[], penalty=0, first=0)
    elif kind == 'predict':
        t = torch.linspace(0., .25 * (n - 1), n)
        b = Proxy(make_block(r))
        y0 = torch.randn(r.randint(1, 3), 1, 2) * .5
        start(times=qt(t, Q), predict=True, start=qt(y0.reshape(-1), Q))
        with torch.no_grad(), quiet():
            pred, pen = spiral.compute_validation_data(shooting_block=b, t=t, y0=y0, validate_with_long_range=True, chunk_time=k, start_time_chunk_from_zero=bool(z))
        segs = []
        for i, (ts, x, out, _) in enumerate(b.seen):
            rec.emit('Piece', '%s piece %d' % (sig, i), times=qt(ts, Q), start=qt(x.reshape(-1), Q), out=[qt(o.reshape(-1), Q) for o in out])
            segs += [qt(o.reshape(-1), Q) for o in out][1 if i else 0:]
        rec.emit('All', sig, pred=[qt(v.reshape(-1), Q) for v in pred], pieces=segs, penalty=q(float(pen), Q), first=q(float(b.seen[0][3]), Q) if b.seen else 0)
        # and not piecewise
        b = Proxy(b.b)
        sig2 = sig + ' at once'
        rec.emit('Start', sig2, kind=kind, t=n, c=0, zero=z, times=qt(t, Q), predict=True, start=qt(y0.reshape(-1), Q))
        with torch.no_grad(), quiet():
            pred, pen = spiral.compute_validation_data(shooting_block=b, t=t, y0=y0, validate_with_long_range=False, chunk_time=k)
        for ts, x, out, _ in b.seen:
            rec.emit('Piece', sig2, times=qt(ts, Q), start=qt(x.reshape(-1), Q), out=[qt(o.reshape(-1), Q) for o in out])
        rec.emit('All', sig2, pred=[qt(v.reshape(-1), Q) for v in pred], pieces=[qt(o.reshape(-1), Q) for s in b.seen for o in s[2]], penalty=q(float(pen), Q), first=q(float(b.seen[0][3]), Q) if b.seen else 0)
    elif kind in ('batch', 'data'):
        d = trajectory(r, n)
        start(times=qt(d['t'], Q))
        d['uniform_sample_indices'], dists = spiral.create_uniform_distance_selection_array(d, batch_time=k)
        true = (d['y'][1:, 0] - d['y'][:-1, 0]).norm(dim=1)
        rec.emit('Array', sig, array=[int(v) for v in d['uniform_sample_indices']], dist=qt(true, Q), least=q(float(true[:n - k].min()), Q))
        if kind == 'batch':
            for s in (1, 7, 60):
                y0, t, y = spiral.get_batch(data_dict=d, batch_size=s, batch_time=k, distance_based_sampling=bool(z))
                window(rec, sig, y0, t, y, d, s)
                if s == 60:
                    rec.emit('Varied', sig, distinct=len({which(v, d['y']) for v in y0}))
        else:
            args = argparse.Namespace(validate_with_long_range=bool(z), batch_time=k, batch_size=r.choice([3, 5]), disable_distance_based_sampling=r.random() < .5)
            ls = spiral.get_function_data_loaders(args=args, data_dict=d, training_samples=11, training_evaluation_samples=6, short_range_testing_samples=7, testing_samples=4)
            for j, (ld, want) in enumerate(zip(ls, (args.batch_size, 6, 7, 1 if z else 4))):
                seen = []
                for _ in range(2):
                    bs = list(ld)
                    for bt in bs:
                        y0, y = bt['y0'], bt['y'].transpose(0, 1)
                        seen.append([which(v, d['y']) for v in y0])
                        window(rec, '%s loader %d' % (sig, j), y0, ld.dataset.t, y, d, want)
                    if j and bs:
                        rec.emit('Fixed', '%s loader %d' % (sig, j), a=[which(v, d['y']) for v in bs[0]['y0']], b=[which(v, d['y']) for v in (ld.dataset[list(range(want))]['y0'])])
                rec.emit('Fixed', '%s loader %d batches' % (sig, j), a=len(seen), b=2 * (11 // args.batch_size) if j == 0 else 2)
                if j == 0:
                    rec.emit('Varied', '%s loader %d' % (sig, j), distinct=len({v for s in seen for v in s}))
                else:
                    rec.emit('Fixed', '%s loader %d again' % (sig, j), a=seen[0], b=seen[-1])
    elif kind == 'loss':
        b = make_block(r)
        t = torch.linspace(0., .5, n)
        y0 = torch.randn(2, 1, 2) * .4
        y = torch.randn(n, 2, 1, 2) * .4
        start()
        args = argparse.Namespace(validate_with_long_range=bool(z) and r.random() < .5, chunk_time=2, sim_norm='l1' if k == 1 else 'l2', sim_weight=r.choice([1., 3.]), norm_weight=r.choice([.01, .1, .5]),
                                  do_not_use_parameter_penalty_energy=bool(z) and r.random() < .5)
        with quiet():
            loss, sim, nl, pen, pred = spiral.compute_loss(args=args, batch_y0=y0, batch_t=t, batch_y=y, shooting_block=b, validation_mode=r.random() < .7)
        diff = (pred - y).detach().reshape(-1, 2)
        dq = qt(diff, Q)
        rec.emit('Loss', sig, norm=args.sim_norm, d=dq, n=[abs(v[0]) + abs(v[1]) for v in dq] if k == 1 else qt(diff.norm(dim=1), Q), sim=q(float(sim), Q), w=int(args.sim_weight), normloss=q(float(nl), Q),
                 penalty=q(float(pen), Q), nw=int(round(args.norm_weight * 100)), off=args.do_not_use_parameter_penalty_energy, loss=q(float(loss), Q))
        bad = argparse.Namespace(**dict(vars(args), sim_norm='l3'))
        with quiet():
            st = attempt(spiral.compute_loss, args=bad, batch_y0=y0, batch_t=t, batch_y=y, shooting_block=b)
        rec.emit('Refused', sig + ' unknown norm', refused=st[0] == 'raise' and isinstance(st[1], ValueError))
    elif kind == 'mask':
        ev = r.randrange(n)
        N = r.randint(1, 3)
        start()
        ae = autoencoder.ShootingAEMasked(n_filt=2, shooting_dim=3, n_skip=k, i_eval=ev, T=n)
        ae.set_shooting_block(make_block(r, 3))
        with quiet():
            ae.set_integration_time_vector(torch.linspace(0., 1., n))
        ae.eval()
        x = torch.rand(N, 1, 28, 28)
        with torch.no_grad(), quiet():
            full, none, pics = ae(x, use_mask=False)
            out, idx, mpics = ae(x, use_mask=True)
        rec.emit('Mask', sig, eval=ev, idx=[[int(v) if len(set(row)) == 1 else -1 for row, v in zip(ix.tolist(), ix[:, 0])] for ix in idx], out=qt(out, Q), full=qt(full, Q), shape=list(mpics.shape), fullshape=list(pics.shape))
        if z:
            two = autoencoder.ShootingAE(n_filt=2, shooting_dim=3, T=n)
            two.set_shooting_block(make_block(r, 3))
            with quiet():
                two.set_integration_time_vector(torch.linspace(0., 1., n))
            two.eval()
            with torch.no_grad(), quiet():
                o, p = two(torch.rand(N, 3, 28, 28))
            rec.emit('Fixed', sig + ' shapes', a=[list(o.shape), list(p.shape)], b=[[N, n, 3], [N, n, 1, 28, 28]])
    elif kind == 'map':
        start()
        ft = 'cubic' if z else 'quadratic'
        f = (lambda x: x ** 3) if z else (lambda x: x ** 2 + 3 / (1 + x ** 2))
        for uniform in (False, True):
            ds = sfm.FunctionDataset(n, uniform_sample=uniform, max_x=float(k), fcn_type=ft)
            got = [ds[i] for i in range(len(ds))]
            rec.emit('Map', '%s uniform=%s' % (sig, uniform), exact=all(g['input'].shape == g['output'].shape == (1, 1) and abs(float(f(g['input']) - g['output'])) < 1e-6 for g in got), x=[q(float(g['input']), Q) for g in got],
                     max=k * Q, uniform=uniform)
            rec.emit('Fixed', sig, a=[q(float(ds[i]['input']), Q) for i in range(n)], b=[q(float(g['input']), Q) for g in got])
        ls = sfm.get_function_data_loaders(training_samples=n, training_evaluation_samples=n, testing_samples=n, visualization_samples=n, batch_size=2, max_x=float(k), fcn_type=ft)
        for j, ld in enumerate(ls):
            bs = list(ld)
            x, o = torch.cat([v['input'] for v in bs]), torch.cat([v['output'] for v in bs])
            if j == 0:
                rec.emit('Fixed', sig + ' batches', a=[len(bs), len(set(x.reshape(-1).tolist()))], b=[n // 2, (n // 2) * 2])
            else:
                rec.emit('Map', '%s loader %d' % (sig, j), exact=o.shape == x.shape and float((f(x) - o).abs().max()) < 1e-6, x=qt(x.reshape(-1), Q), max=k * Q, uniform=j in (1, 3))
        rec.emit('Refused', sig, refused=attempt(sfm.fcn, 1., 'linear')[0] == 'raise')
    elif kind == 'rings':
        start()
        inner, outer = (0., .5) if z else (.2, .6), (1., 1.5)
        ds = du.ConcentricSphere(r.choice([2, 3]), inner, outer, n, k)
        pts = [ds[i] for i in range(len(ds))]
        N = r.randint(1, min(n, k))
        sub = du.sample(ds, N)
        lab = [int(sub[i][1]) for i in range(len(sub))]
        X, Y = du.dataset_to_numpy(torch.utils.data.DataLoader(ds, batch_size=3, shuffle=False))
        arrays = X.shape[0] == len(pts) and np.allclose(X, np.stack([p[0].numpy() for p in pts])) and np.allclose(Y[:, 0], [float(p[1]) for p in pts])
        rec.emit('Ring', sig, r=[q(float(p[0].norm()), Q) for p in pts], label=[int(p[1]) for p in pts], outr=qt(outer, Q), n=N, picked=[lab.count(0), lab.count(1)], arrays=bool(arrays), **{'in': qt(inner, Q)})


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    for i, c in enumerate(cs * (6 if THOROUGH else 1)):
        if i % ns != sh:
            continue
        r = seed_all('windows', i)
        sig = '%s #%d' % (json.dumps(c), i)
        with guard(rec, sig, 60):
            one(rec, c, r, sig)


main(run)

"""Metric sequences fed to the real plateau scheduler."""
import copy, io, itertools, pickle, contextlib
from drv import *
from neuro_shooting.custom_lr_scheduler import CustomReduceLROnPlateau as Sched
U = 1024. * 4096   # rates in units of 2^-22: exact
UNIT = 1 / 8.


def optim(lrs, r):
    ps = [torch.nn.Parameter(torch.randn(2)) for _ in lrs]
    kind = r.choice(['sgd', 'adam'])
    groups = [dict(params=[p], lr=v / U) for p, v in zip(ps, lrs)]
    return torch.optim.SGD(groups, lr=.5, momentum=.9) if kind == 'sgd' else torch.optim.Adam(groups, lr=.5)


def sched(o, c, r):
    mins = [v / U for v in c['min']]
    kw = dict(mode=c['mode'], factor=c['num'] / c['den'], patience=c['patience'], threshold=c['th'] / 4. if c['thmode'] == 'rel' else c['th'] * UNIT,
              threshold_mode=c['thmode'], cooldown=c['cooldown'], eps=c['eps'] / U, min_lr=(mins[0] if len(set(mins)) == 1 and r.random() < .5 else r.choice([list, tuple])(mins)))
    if r.random() < .5:
        kw['verbose'] = True
    return Sched(o, **kw)


def rest(o):
    return [{k: v for k, v in g.items() if k not in ('lr', 'params')} for g in o.param_groups]


def one(rec, i, c, ms, r):
    sig = '%s metrics=%s' % (','.join('%s=%s' % kv for kv in sorted(c.items())), ms)
    with guard(rec, sig), contextlib.redirect_stdout(io.StringIO()):
        o = optim(c['lr'], r)
        before = copy.deepcopy(rest(o))
        ids = [[id(p) for p in g['params']] for g in o.param_groups]
        s = sched(o, c, r)
        first = bool(s.has_convergence_been_reached())
        lr, conv = [], []
        restore = r.randrange(len(ms) + 3)
        style = r.choice(['float', 'float', 'tensor', 'numpy', 'shared'])
        shared = torch.zeros(()).double()
        for k, m in enumerate(ms):
            v = float('nan') if m == 99999 else m * UNIT
            if style == 'tensor':
                a = torch.tensor(v, dtype=r.choice([torch.float32, torch.float64]))
            elif style == 'numpy':
                a = np.float64(v)
            elif style == 'shared':   # a running loss, updated in place
                shared.fill_(v)
                a = shared
            else:
                a = v
            if r.random() < .3:
                s.step(a, epoch=r.choice([k, k + 5]))
            else:
                s.step(a)
            lr.append([q(g['lr'], U) if abs(g['lr'] * U - round(g['lr'] * U)) < 1e-9 else -1 for g in o.param_groups])
            conv.append(bool(s.has_convergence_been_reached()))
            if k == restore:
                d = s.state_dict()
                d = r.choice([lambda: d, lambda: copy.deepcopy(d), lambda: pickle.loads(pickle.dumps(d))])()
                o2 = optim(c['lr'], r) if r.random() < .5 else o
                if o2 is not o:
                    for g, h in zip(o2.param_groups, o.param_groups):
                        g['lr'] = h['lr']
                    before = copy.deepcopy(rest(o2))
                    ids = [[id(p) for p in g['params']] for g in o2.param_groups]
                    o = o2
                s = Sched(o, **r.choice([{}, dict(mode='max', factor=.3, patience=1), dict(mode='min', threshold_mode='abs', cooldown=7)]))
                s.load_state_dict(d)
        rec.emit('Run', sig + ' restore=%s %s' % (restore, style), c=c, m=list(ms), lr=lr, conv=conv, first=first, rest=rest(o) == before and ids == [[id(p) for p in g['params']] for g in o.param_groups])


def cuts(rec, i, r):
    """factors that are not exact: how often the rate was cut"""
    c = dict(mode=r.choice(['min', 'max']), thmode=r.choice(['rel', 'abs']), th=r.choice([0, 1]), patience=r.choice([0, 1, 2, 4]), cooldown=r.choice([0, 1, 3]), num=1, den=10, lr=[2 ** 28], min=[0], eps=0)
    ms = [r.choice([-8, -4, -1, 0, 1, 2, 3, 4, 5, 6, 99999]) for _ in range(25)]
    f = r.choice([.1, .3, .7])
    sig = 'cuts %s factor=%s metrics=%s' % (','.join('%s=%s' % kv for kv in sorted(c.items())), f, ms)
    with guard(rec, sig), contextlib.redirect_stdout(io.StringIO()):
        p = torch.nn.Parameter(torch.zeros(1))
        o = torch.optim.SGD([p], lr=1.)
        s = Sched(o, mode=c['mode'], factor=f, patience=c['patience'], threshold=c['th'] / 4. if c['thmode'] == 'rel' else c['th'] * UNIT, threshold_mode=c['thmode'], cooldown=c['cooldown'], eps=0)
        out = []
        for m in ms:
            s.step(float('nan') if m == 99999 else m * UNIT)
            k = math.log(o.param_groups[0]['lr']) / math.log(f)
            out.append(int(round(k)) if abs(k - round(k)) < 1e-6 else -1)
        # the model's rate shrinks by ten each time and would not be effective for ever
        n = next((j for j, v in enumerate(out) if v > 7), len(out))
        rec.emit('Cuts', sig, c=c, m=ms[:n], cuts=out[:n])


def refusals(rec):
    o = torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=1.)
    for nm, f in (('factor 1', lambda: Sched(o, factor=1.0)), ('factor 2', lambda: Sched(o, factor=2)), ('mode', lambda: Sched(o, mode='minimum')), ('threshold mode', lambda: Sched(o, threshold_mode='x')),
                  ('number of minima', lambda: Sched(o, min_lr=[0., 0.])), ('no minima', lambda: Sched(o, min_lr=())), ('no optimizer', lambda: Sched(object()))):
        st, _ = attempt(f)
        rec.emit('Reject', 'refusal ' + nm, clause='refused', raised=st == 'raise')


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = [c['c'] for c in cases()]
    n = 0
    for i, c in enumerate(cs):
        r = rng('plateau', i)
        if i % ns != sh:
            continue
        for k in range(40 if THOROUGH else 8):
            L = r.choice([3, 5, 7, 9, 12, 16])
            pool = r.choice([[-4, 3, 4], [4, 4, 3, 5], [0, 1, -1], [8, 6, 4, 3, 2], [-8, -6, -4, 99999], [5], [9, 8, 7, 6, 5, 4, 99999]])
            one(rec, i, c, [r.choice(pool) for _ in range(L)], r)
    if sh == 0:
        refusals(rec)
        for i in range(600 if THOROUGH else 150):
            cuts(rec, i, rng('cuts', i))
    # all short sequences for a few configurations
    small = [c for c in cs if c['eps'] == 0 and c['den'] == 2 and len(c['lr']) == 1]
    for i, c in enumerate(rng('plateau-short').sample(small, 24 if THOROUGH else 8)):
        if i % ns == sh:
            for ms in itertools.product([-4, 3, 4], repeat=5):
                n += 1
                one(rec, n, c, list(ms), rng('short', i, n))


main(run)

"""The real data loaders over small stand-ins for the torchvision data sets; every element is recognised by its content."""
from drv import *
from models import quiet
from PIL import Image
import torchvision.datasets as tds

SIDE = dict(MNIST=28, CIFAR10=32, CIFAR100=32)
N = {}          # split -> size
MADE = []


def picture(name, split, i):
    g = np.random.RandomState(7919 * (i + 1) + (13 if split == 'test' else 0) + len(name))
    s = SIDE[name]
    return g.randint(1, 256, size=(s, s) if name == 'MNIST' else (s, s, 3)).astype(np.uint8)


def label(name, split, i):
    return (i * 7 + (3 if split == 'test' else 0)) % (100 if name == 'CIFAR100' else 10)


def fake(name):
    class Fake(torch.utils.data.Dataset):
        classes = [str(k) for k in range(100 if name == 'CIFAR100' else 10)]

        def __init__(self, root, train=True, transform=None, target_transform=None, download=False):
            self.split, self.transform, self.target_transform, self.name = 'train' if train else 'test', transform, target_transform, name
            self.train, self.root = train, root
            MADE.append((name, str(root), bool(download)))

        def __len__(self):
            return N[self.split]

        def __getitem__(self, i):
            if not 0 <= i < len(self):
                raise IndexError(i)
            x, y = Image.fromarray(picture(name, self.split, i)), label(name, self.split, i)
            return (self.transform(x) if self.transform else x), (self.target_transform(y) if self.target_transform else y)
    Fake.__name__ = name
    return Fake


for nm in SIDE:
    F = fake(nm)
    for mod in (tds, getattr(tds, 'mnist', None), getattr(tds, 'cifar', None)):
        if mod is not None and hasattr(mod, nm):
            setattr(mod, nm, F)

import neuro_shooting.data_loaders as dl


def table(name, split):
    out = []
    for i in range(N[split]):
        p = torch.from_numpy(picture(name, split, i)).float() / 255
        out.append(p[None] if name == 'MNIST' else p.permute(2, 0, 1))
    return out


def find(x, tab):
    """(sample, dy, dx) of which x is the picture, moved by (dy, dx) with zeros moving in"""
    for i, p in enumerate(tab):
        if p.shape == x.shape and torch.allclose(p, x, atol=1e-6):
            return i, 0, 0
    for i, p in enumerate(tab):
        s = p.shape[-1]
        if x.ndim != 3 or x.shape[0] != p.shape[0]:
            continue
        big = torch.zeros(p.shape[0], s + 16, s + 16)
        big[:, 8:8 + s, 8:8 + s] = p
        h, w = x.shape[-2:]
        for dy in range(-8, 9):
            for dx in range(-8, 9):
                if abs(float(big[0, 8 + dy + h // 2, 8 + dx + w // 2] - x[0, h // 2, w // 2])) < 1e-6:
                    win = big[:, 8 + dy:8 + dy + h, 8 + dx:8 + dx + w]
                    if win.shape == x.shape and torch.allclose(win, x, atol=1e-6):
                        return i, dy, dx
    return -1, 0, 0


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    rng('loader-pick').shuffle(cs)
    longest = [c for c in cs if len(c['ops']) > 4]
    cs = longest + [c for c in cs if len(c['ops']) <= 4][:4000 if THOROUGH else 500]
    for i, c in enumerate(cs):
        if i % ns != sh:
            continue
        r = rng('loader', i)
        seed_all('loader', i)
        name, aug = c['name'], c['aug']
        N['train'], N['test'] = r.randint(10, 26), r.randint(5, 16)
        b = r.choice([1, 2, 3, 4, 5, N['train'] // 2, N['train'], N['train'] + 1, r.choice([100, 256, 600, 1000, 5000])])
        bt = r.choice([1, 2, 3, 5, 7, N['test'], N['test'] + 1, N['train'], r.choice([100, 256, 1000, 10000])])
        dflt = aug == 0 and r.random() < .3
        sig = '%s aug=%d n=%d,%d b=%d,%d %s' % (name, aug, N['train'], N['test'], b, bt, '-'.join(c['ops']))
        with guard(rec, sig):
            del MADE[:]
            with quiet():
                if dflt:
                    res = dl.get_data_loaders(name, batch_size=b, test_batch_size=bt)
                elif r.random() < .5:
                    res = dl.get_data_loaders(name, bool(aug), b, bt)
                else:
                    res = dl.get_data_loaders(dataset=name, data_aug=bool(aug), batch_size=b, test_batch_size=bt, num_workers=0)
            train, test, ev, classes = res
            rec.emit('Start', sig, ntrain=N['train'], ntest=N['test'], b=b, btest=bt, aug=aug, side=SIDE[name])
            own = all(os.path.abspath(p) == os.path.abspath('.data/' + name) for _, p, _ in MADE)
            rec.emit('Made', sig, name=name, classes=int(classes), own=own and all(n == name for n, _, _ in MADE), fetch=len(MADE) > 0 and all(d for _, _, d in MADE),
                     len=[len(train), len(test), len(ev)])
            L = dict(t=('train', train, 'train'), e=('eval', ev, 'train'), v=('test', test, 'test'))
            tabs = dict(train=table(name, 'train'), test=table(name, 'test'))
            its, moves = [], set()

            def go(k):
                it, split, _ = its[k]
                if it is None:
                    return False
                try:
                    x, y = next(it)
                except StopIteration:
                    rec.emit('End', '%s iterator %d' % (sig, k), it=k + 1)
                    its[k] = (None, split, None)
                    return False
                got = [find(v, tabs[split]) for v in x]
                if any(g[0] < 0 for g in got):      # of the other split?
                    other = 'test' if split == 'train' else 'train'
                    alt = [find(v, tabs[other]) for v in x]
                    if all(g[0] >= 0 for g in alt):
                        split, got = other, alt
                moves.update(g[1:] for g in got)
                rec.emit('Batch', '%s iterator %d' % (sig, k), it=k + 1, split=split, ids=[g[0] for g in got], dy=[g[1] for g in got], dx=[g[2] for g in got],
                         labels=len(y) == len(got) and all(g[0] >= 0 and int(v) == label(name, split, g[0]) for v, g in zip(y, got)),
                         size=int(x.shape[-1]) if x.shape[-1] == x.shape[-2] else -1, float=x.dtype == torch.float32 and float(x.min()) >= 0 and float(x.max()) <= 1)
                return True
            for op in c['ops']:
                if op[0] == 'o':
                    loader, obj, split = L[op[1]]
                    its.append((iter(obj), split, loader))
                    rec.emit('Open', sig, loader=loader)
                elif op == 'x':
                    for k in range(len(its)):
                        while go(k):
                            pass
                else:
                    live = [k for k in range(len(its)) if its[k][0] is not None]
                    if live:
                        go(live[0] if op == 'a' else live[-1])
            if aug and c['ops'].count('ot') == 2 and c['ops'][-1] == 'x' and (N['train'] // b) * b >= 10:
                rec.emit('Moves', sig, seen=min(len({m[0] for m in moves}), len({m[1] for m in moves})))
    if sh == 0:
        for nm in ['mnist', 'SVHN', '', 'FashionMNIST', 'CIFAR', 'CIFAR1', 'KMNIST', None, 'MNIST ', 'EMNIST', 'FakeData', 'VisionDataset', 'ImageFolder', 'CIFAR 10', 10]:
            rec.emit('Start', 'unknown %r' % (nm,), ntrain=1, ntest=1, b=1, btest=1, aug=0, side=1)
            with quiet():
                st = attempt(dl.get_data_loaders, nm)
            rec.emit('Unknown', 'unknown %r' % (nm,), refused=st[0] == 'raise' and isinstance(st[1], ValueError))


main(run)

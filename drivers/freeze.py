"""Histories of freezing, unfreezing and counting on real modules and blocks."""
from drv import *
from models import *
import neuro_shooting.utils as utils
import neuro_shooting.res_net as res_net


UNIT = 10 ** 4


class Toy(torch.nn.Module):
    def __init__(self, shapes, nested):
        super().__init__()
        tgt = self
        self.names = []
        wn = random.choice([['w%d' % k for k in range(14)], ['q1', 'q1_b', 'q', 'q_1', 'p_q1', 'q11', 'bias', 'q1_b_c', 'w', 'q111', 'Q1', 'q10', 'b', 'bias_'],
                            ['l1', 'l10', 'l100', 'l11', 'l', 'l1_', 'L1', 'l1weight', 'l1__weight', 'l1_weight', 'l01', 'xl1', 'l_1', 'l12']])
        for k, s in enumerate(shapes):
            if nested and k % 2:
                if not hasattr(self, 'sub'):
                    self.sub = torch.nn.Module()
                self.sub.register_parameter(wn[k], torch.nn.Parameter(torch.randn(s)))
                self.names.append('sub.' + wn[k])
            else:
                self.register_parameter(wn[k], torch.nn.Parameter(torch.randn(s)))
                self.names.append(wn[k])

    def forward(self):
        return sum((p ** 2).sum() for p in super().parameters())


def kinds(r, how, n):
    """module, its parameter names (more than n allowed), loss function"""
    if how == 'toy':
        shapes = [r.choice([[], [1], [3], [2, 3], [0], [2, 1, 4], [1, 1, 1, 2]]) for _ in range(n + r.choice([0, 1, 2, 2, 10]))]
        m = Toy(shapes, r.random() < .5)
        return m, (m if all(0 not in s for s in shapes) else None)
    if how == 'huge':      # a single entry seen as many: the sizes count, not the memory
        m = torch.nn.Module()
        for k in range(n + 1):
            m.register_parameter('w%d' % k, torch.nn.Parameter(torch.randn(1).expand(*r.choice([(UNIT, 3), (70000, 70000), (2, 5 * UNIT, 7), (UNIT, 50000)]))))
        return m, None
    if how == 'tied':
        m = Toy([[2, 2], [3]] * 2, True)
        m.register_parameter('again', next(iter(m._parameters.values())))
        return m, m
    if how == 'seq':
        m = torch.nn.Sequential(torch.nn.Linear(2, 3), torch.nn.BatchNorm1d(3), torch.nn.Linear(3, 1, bias=False))
        return m, lambda: (m(torch.randn(5, 2)) ** 3).sum()
    mode = r.choice(['plain', 'pf', 'pft'])
    name = r.choice(VEC + CONV)
    with quiet():
        mod = make(name, 'tanh', 2, 1, 2, 2)
        b = block('b', mod, step=.5, **dict(plain={}, pf=dict(use_particle_free_rnn_mode=True), pft=dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2))[mode])
        x = torch.randn(*shape(name, 'q1', 3, 1, 2, 2))
        b(x)

    def loss():
        o = b(x)
        return (o[0] * torch.randn(o[0].shape)).sum() + sum((v * torch.randn(v.shape)).sum() for k in (1, 2, 3) for blk in o[k].values() for v in blk.values())
    if r.random() < .3 and how == 'block':
        outer = torch.nn.Module()
        outer.inner = b
        return outer, (loss if mode != 'pft' else None)
    return b, (loss if mode != 'pft' else None)


def one(rec, i, ops, how, r):
    seed_all('freeze', i)
    n = 3 if not THOROUGH else 4
    m, loss = kinds(r, how, n)
    np_ = [(a, p) for a, p in m.named_parameters()]
    sig = '%s %d parameters, %s' % (how, len(np_), ' '.join('%s%s' % (o['op'][0], o['names']) for o in ops))
    # the case's parameters 1..n are mapped to random ones
    perm = r.sample(range(len(np_)), min(n, len(np_)))
    names = [a for a, p in np_]
    objs = {a: p for a, p in np_}
    start = [k + 1 for k in range(len(np_)) if r.random() < .8]
    for k, (a, p) in enumerate(np_):
        p.requires_grad = (k + 1) in start
    vals = {a: p.detach().clone() if how != 'huge' else float(p.detach()[(0,) * p.dim()]) for a, p in np_}
    un = UNIT if how == 'huge' else 1
    cnt = lambda v: int(v) // un if int(v) >= 0 and int(v) % un == 0 else -1
    rec.emit('Start', sig, size=[cnt(p.numel()) for a, p in np_], on=start)

    def observe(s2):
        with quiet():
            c = utils.compute_number_of_parameters(m, **(r.choice([{}, dict(print_parameters=True), dict(print_parameters=False)]) if un == 1 else {}))
        now = dict(m.named_parameters())
        hasgrad, grads = False, []
        on = [k + 1 for k, a in enumerate(names) if a in now and now[a].requires_grad]
        if loss is not None and on and r.random() < .5:
            for p in now.values():
                p.grad = None
            with quiet():
                v = loss()
            if v.requires_grad:
                v.backward()
                hasgrad = True
                grads = [k + 1 for k, a in enumerate(names) if now[a].grad is not None]
        rec.emit('Observe', s2, on=on, same=all(torch.equal(now[a].detach(), vals[a]) for a in names) if un == 1 else all(float(now[a].detach()[(0,) * now[a].dim()]) == vals[a] for a in names), objects=list(now) == names and all(now[a] is objs[a] for a in names),
                 fixed=cnt(c['fixed']), optimised=cnt(c['optimized']), overall=cnt(c['overall']), hasgrad=hasgrad, grads=grads)
    with guard(rec, sig):
        observe(sig + ' at 0')
        for j, o in enumerate(ops):
            idx = [perm[k - 1] for k in o['names'] if k - 1 < len(perm)]
            r.shuffle(idx)
            if idx and r.random() < .2:
                idx.append(idx[0])
            arg = r.choice([list, tuple])([names[k] for k in idx])
            with quiet():
                (utils.freeze_parameters if o['op'] == 'freeze' else utils.unfreeze_parameters)(m, arg)
            rec.emit('Op', '%s at %d' % (sig, j + 1), op=o['op'], names=[k + 1 for k in idx])
            if r.random() < .7 or j == len(ops) - 1:
                observe('%s at %d' % (sig, j + 1))
        for f, nm in ((utils.freeze_parameters, 'freeze'), (utils.unfreeze_parameters, 'unfreeze')):
            bad = r.choice(['no_such', names[0] + 'x', '', names[-1].upper() + '_'])
            with quiet():
                st, _ = attempt(lambda: f(m, [bad]))
            rec.emit('Reject', sig + ' %s unknown name' % nm, clause='unknown-name-refused', raised=st == 'raise')
        observe(sig + ' after the refusals')


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = [c['ops'] for c in cases()]
    r = rng('freeze-pick')
    small = [c for c in cs if len(c) < 3]
    big = [c for c in cs if len(c) == 3]
    todo = [(c, 'toy') for c in cs] if not THOROUGH else [(c, 'toy') for c in cs]
    todo += [(c, 'huge') for c in r.sample(small, min(len(small), 40))]
    todo += [(c, r.choice(['tied', 'seq', 'block'])) for c in r.sample(small, min(len(small), 250 if not THOROUGH else 900))]
    for i, (ops, how) in enumerate(todo):
        if i % ns == sh:
            one(rec, i, ops, how, rng('freeze', i))


main(run)

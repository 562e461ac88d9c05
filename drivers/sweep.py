"""Real sweeps of tables of every small layout, with all sorts of values, several in a row, results disturbed in between."""
import copy
from collections import OrderedDict
from drv import *
from models import quiet
import neuro_shooting.command_line_execution_tools as ce

KEYS = ['a', 'seed', 'nr_of_particles', 'shooting_model', 'z', 'fcn', 'A', 'x1', 'x10', 'x2', 3]


def value(r):
    return r.choice([lambda: r.randint(-5, 50), lambda: r.choice([0, 1, True, False, None, '', 'cubic', 'updown universal', 0., -0.5, 1e-3]), lambda: [r.randint(0, 9) for _ in range(r.randint(0, 3))],
                     lambda: {'k': [r.randint(0, 9)]}, lambda: (r.randint(0, 3), [1, r.randint(0, 9)]), lambda: {r.randint(0, 5)}, lambda: np.array([r.random()])])()


def code(v):
    return '%s:%r' % (type(v).__name__, v)


def mutate(v):
    """change a value in place where that is possible"""
    if isinstance(v, list):
        v.append(99)
    elif isinstance(v, dict):
        v['new'] = 1
        for x in list(v.values()):
            mutate(x)
    elif isinstance(v, set):
        v.add(99)
    elif isinstance(v, tuple):
        for x in v:
            mutate(x)
    elif isinstance(v, np.ndarray):
        v += 7


def snap(x):
    return [(code(k), code(v)) for k, v in x.items()]


def behaviour(rec, i, lenss, r):
    sig = 'tables %s' % (lenss,)
    rec.emit('Start', sig)
    old = []
    for j, lens in enumerate(lenss):
        s2 = '%s number %d case %d' % (sig, j, i)
        keys = r.sample(KEYS, len(lens))
        kind = r.choice([OrderedDict, dict])
        simple = r.random() < .4
        cont = r.choice([list, tuple])
        table = kind((k, cont(r.choice([n * 10 + m for m in range(9)]) if simple else value(r) for m in range(n))) for n, (k, n) in enumerate(zip(keys, lens)))
        shared = r.random() < .2 and len(lens) and all(lens)
        if shared:
            # the same mutable object twice in the table
            obj = [1, [2]]
            for k in keys:
                table[k] = cont([obj] + list(table[k])[1:])
        codes, vals = {}, []
        for k in keys:
            vals.append([codes.setdefault(code(v), len(codes) + 1) for v in table[k]])
        before, beforeold = snap(table), [[snap(c) for c in o] for o in old]
        with guard(rec, s2):
            with quiet():
                res = ce.recursively_sweep_parameters(table) if r.random() < .5 else ce.recursively_sweep_parameters(pars_to_sweep=table)
            rec.emit('Sweep', s2, vals=vals, islist=isinstance(res, list), out=[[codes.get(code(c[k]), 0) if k in c else -1 for k in keys] for c in res],
                     keys=[[keys.index(k) + 1 if k in keys else 0 for k in c] for c in res], tablesame=snap(table) == before and type(table) is kind,
                     oldsame=beforeold == [[snap(c) for c in o] for o in old])
            # disturb one combination, then the table
            for who in ([r.randrange(len(res)) + 1] if len(res) else []) + ([0] if r.random() < .5 else []):
                b, bt = [snap(c) for c in res], snap(table)
                tgt = res[who - 1] if who else table
                for v in list(tgt.values()):
                    mutate(v)
                if who and r.random() < .5:
                    tgt['extra'] = 1
                elif who and len(tgt):
                    tgt.pop(next(iter(tgt)))
                elif not who and r.random() < .5:
                    table.clear()
                a = [snap(c) for c in res]
                rec.emit('Disturb', s2 + ' disturb %d' % who, who=who, changed=[n + 1 for n in range(len(res)) if a[n] != b[n]], tablechanged=snap(table) != bt,
                         oldchanged=beforeold != [[snap(c) for c in o] for o in old])
            old.append(res)


def run(rec):
    cs = [c['lens'] for c in cases()]
    r = rng('sweep')
    for i, c in enumerate(cs):
        behaviour(rec, i, [c], rng('sweep', i))
    for i in range(150 if not THOROUGH else 900):
        behaviour(rec, 10000 + i, [r.choice(cs) for _ in range(r.randint(2, 4))], rng('sweeps', i))
    for i in range(10 if not THOROUGH else 60):
        behaviour(rec, 20000 + i, [[r.choice([1, 2, 3, 7]) for _ in range(r.randint(2, 4))]], rng('sweepl', i))


main(run)

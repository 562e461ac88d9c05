"""Sweeps of experiments for real: every command goes to a stand-in for the interpreter, which records its arguments,
leaves a result or not, and may kill the sweeping process."""
import argparse, copy, shutil, stat, tempfile, time
from collections import OrderedDict
from drv import *
from models import quiet
import neuro_shooting.experiment_utils as eu

FAKE = r'''#!/bin/sh
# stand-in for the interpreter: $VERIF_X holds plan and records
n=$(ls "$VERIF_X/rec" | wc -l)
n=$((n + 1))
out=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--output_directory" ]; then out="$a"; fi
  prev="$a"
done
{
  printf '%s\n' "$0" "${CUDA_VISIBLE_DEVICES-unset}"
  if [ -d "$out" ]; then echo yes; else echo no; fi
  for a in "$@"; do printf '%s\n' "$a"; done
} > "$VERIF_X/rec/$(printf %04d $n)"
echo "printed $n"
echo "complained $n" >&2
plan=$(sed -n "${n}p" "$VERIF_X/plan")
case "$plan" in
  *ok*) : > "$out/$(sed -n "${n}p" "$VERIF_X/names")" ;;
esac
case "$plan" in
  *kill*) kill -9 "$VERIF_SWEEPER" ;;
esac
case "$plan" in
  *fail*) exit 3 ;;
esac
exit 0
'''


def kind(v):
    return 'on' if v is True else 'off' if v is False else 'bare' if v is None else 'val'


def desc(d):
    return [dict(key=str(k), text=str(v), kind=kind(v)) for k, v in d.items()]


class World:
    def __init__(self, root, r):
        self.root, self.r = root, r
        self.home = os.path.join(root, 'home')
        os.mkdir(self.home)
        self.py = os.path.join(root, r.choice(['fakepy', 'python', 'python3.9']))
        with open(self.py, 'w') as fh:
            fh.write(FAKE)
        os.chmod(self.py, 0o755)
        # a python found on the PATH that is not the one asked for
        os.mkdir(os.path.join(root, 'bin'))
        other = os.path.join(root, 'bin', 'python')
        with open(other, 'w') as fh:
            fh.write(FAKE)
        os.chmod(other, 0o755)
        self.prefix = r.choice(['', 'p_', 'spiral_particles_', 'a[1]_'])
        self.outbase = r.choice(['sfm_results', 'res', os.path.join(root, 'abs')]) if not self.prefix else r.choice(['sfm_results', 'res'])
        self.model = r.choice(['updown', 'simple', 'universal', '2nd_order'])
        self.fcn = r.choice(['cubic', 'quadratic', None])
        self.script = r.choice(['spiral.py', 'simple_functional_mapping_example.py', 'x/y.py'])
        self.gpu = r.choice([0, 1, 3, None])
        # keys and values
        pool = ['nr_of_particles', 'inflation_factor', 'lr', 'niters', 'viz', 'save_figures', 'shooting_model', 'fcn', 'optional_weight', 'x']
        self.keys = r.sample(pool, 4)
        self.t = OrderedDict()
        for k in r.sample(pool, r.randint(0, 4)):
            self.t[k] = self.tval(k)
        if r.random() < .3:
            self.t['seed'] = 77
        if r.random() < .2:
            self.t['output_directory'] = 'elsewhere'
        if r.random() < .5:
            self.t = dict(self.t)
        self.vals = {k: self.values(k) for k in self.keys}
        self.extra = [(k, self.vals[k][:r.choice([1, 1, 2])]) for k in self.keys[1:1 + r.choice([0, 0, 1, 1, 2])]]
        self.pos = r.choice([0, -1])

    def tval(self, k):
        r = self.r
        if k == 'shooting_model':
            return r.choice(['periodic', 'updown_universal'])
        if k == 'fcn':
            return r.choice(['cubic', 'quintic'])
        if k in ('viz', 'save_figures', 'x'):
            return None
        return r.choice([1500, -2, 0.5, 1e-5, 'word', 0])

    def values(self, k):
        r = self.r
        if k == 'shooting_model':
            return ['updown', 'universal', 'simple']
        if k == 'fcn':
            return ['cubic', 'quadratic', 'septic']
        return r.choice([[True, False, 7], [False, True, None], [15, 25, 50], [0, -1, 0.1], ['a', 'b', 'c'], [1, 10, 100], [1e-3, 1e-4, 0.25], [False, 0, 1]])

    def table(self, idx):
        items = [(k, list(v)) for k, v in self.extra]
        main_ = (self.keys[0], [self.vals[self.keys[0]][i - 1] for i in idx])
        items = [main_] + items if self.pos == 0 else items + [main_]
        return self.r.choice([OrderedDict, dict])(items)


def fork_sweep(w, x, args, table, forced, template):
    """the sweep in a process of its own; 'finished', 'killed' or an error"""
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.chdir(w.home)
            os.environ['VERIF_X'] = x
            os.environ['VERIF_SWEEPER'] = str(os.getpid())
            os.environ.pop('CUDA_VISIBLE_DEVICES', None)
            os.environ['PATH'] = os.path.join(w.root, 'bin') + ':' + os.environ['PATH']
            fd = os.open(os.path.join(x, 'stdout'), os.O_WRONLY | os.O_CREAT, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            b = repr((vars(args), list(table.items()), list(template.items())))
            try:
                k = dict(python_script=w.script, output_dir_prefix=w.prefix)
                if forced or w.r.random() < .5:
                    k['do_not_recompute'] = not forced
                eu.sweep_parameters(args, run_args_to_sweep=table, run_args_template=template, **k)
                same = b == repr((vars(args), list(table.items()), list(template.items())))
                code = 0 if same else 1
            except BaseException as ex:
                with open(os.path.join(x, 'error'), 'w') as fh:
                    fh.write(ascii_('%s: %s' % (type(ex).__name__, ex)))
                code = 2
        finally:
            os._exit(code)
    t = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t > 120:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            return 'hangs', True
        time.sleep(.002)
    if os.WIFSIGNALED(st):
        return 'killed', True
    c = os.WEXITSTATUS(st)
    if c == 2:
        return 'error ' + open(os.path.join(x, 'error')).read(), True
    return 'finished', c == 0


def behaviour(rec, i, hist, r):
    root = tempfile.mkdtemp(prefix='vx')
    try:
        w = World(root, r)
        sig = 'case %d' % i
        rec.emit('Start', sig)
        base = w.prefix + w.outbase
        known, marks = [], {}
        for j, h in enumerate(hist):
            s2 = '%s sweep %d: seeds %d+%d values %s%s%s' % (sig, j, h['start'], h['n'], h['vals'], ' forced' if h['forced'] else '', ' killed at %d' % h['kill'] if h['kill'] else '')
            x = os.path.join(root, 'x%d' % j)
            os.makedirs(os.path.join(x, 'rec'))
            N = 40
            plan, names = [], []
            for k in range(N):
                p = r.choice(['ok', 'ok', 'ok', 'fail', 'none', 'ok fail'])
                if h['kill'] and k + 1 == h['kill']:
                    p += ' kill'
                plan.append(p)
                names.append(r.choice(['result.pt', 'run_%d.pt' % k, 'my model.pt']))
            open(os.path.join(x, 'plan'), 'w').write('\n'.join(plan) + '\n')
            open(os.path.join(x, 'names'), 'w').write('\n'.join(names) + '\n')
            start = h['start'] * (9 if r.random() < .3 else 1) + (0 if j == 0 and r.random() < .6 else r.choice([0, 100, 100, 1000]))
            args = argparse.Namespace(starting_seed_id=start, nr_of_seeds=h['n'], output_base_directory=w.outbase, shooting_model=w.model, path_to_python=w.py, gpu=w.gpu)
            if w.fcn is not None:
                args.fcn = w.fcn
            table = w.table(h['vals'])
            template = copy.deepcopy(w.t)
            rec.emit('Sweep', s2, start=start, n=h['n'], base=base, forced=h['forced'], fcn=w.fcn or '', model=w.model, script=w.script, gpu='unset' if w.gpu is None else str(w.gpu),
                     table=[dict(key=str(k), vals=[dict(text=str(v), kind=kind(v)) for v in vs]) for k, vs in table.items()], template=desc(template))
            with guard(rec, s2):
                how, inputs = fork_sweep(w, x, args, table, h['forced'], template)
                runs = sorted(os.listdir(os.path.join(x, 'rec')))
                dirs = []
                for k, f in enumerate(runs):
                    ln = open(os.path.join(x, 'rec', f)).read().split('\n')[:-1]
                    opts, a = [], ln[4:]
                    while a:
                        o = a.pop(0)
                        v = '<bare>'
                        if a and not a[0].startswith('--'):
                            v = a.pop(0)
                        opts.append([o[2:] if o.startswith('--') else '?' + o, v])
                    d = dict((o[0], o[1]) for o in opts).get('output_directory', '?')
                    dirs.append(d)
                    if d not in known:
                        known.append(d)
                    rec.emit('Run', '%s run %d' % (s2, k + 1), dir=d, opts=opts, script=ln[3] if len(ln) > 3 else '?', interpreter=ln[0] == w.py, gpu=ln[1], direxists=ln[2] == 'yes', ok='ok' in plan[k])
                if how.startswith('error') or how == 'hangs':
                    rec.emit('Crash', s2, what=how, tb='')
                    continue
                rec.emit('End', s2, how=how, inputs=inputs)
                # the log of the last run of each directory (written by another process: wait for it)
                for d in set(dirs):
                    n = max(k for k in range(len(dirs)) if dirs[k] == d) + 1
                    if how == 'killed' and n == len(dirs):
                        continue
                    lf, kept = os.path.join(w.home, d, 'runlog.log'), False
                    for _ in range(2000):
                        if os.path.exists(lf):
                            txt = open(lf).read()
                            kept = 'printed %d\n' % n in txt and 'complained %d\n' % n in txt
                        if kept:
                            break
                        time.sleep(.005)
                    rec.emit('Log', '%s log of run %d' % (s2, n), kept=kept)
                if marks:
                    rec.emit('Kept', s2 + ' files of others', same=all(os.path.exists(f) and open(f).read() == t for f, t in marks.items()))
            # what the user does in between
            for d in r.sample(known, min(len(known), r.choice([0, 0, 1, 2]))):
                full = os.path.join(w.home, d)
                if not os.path.isdir(full):
                    continue
                what = r.choice(['remove', 'place', 'other', 'rmdir'])
                pts = [f for f in os.listdir(full) if f.endswith('.pt')]
                marks = {f: t for f, t in marks.items() if not f.startswith(full + os.sep) or what in ('place', 'other')}
                if what == 'place':
                    f = os.path.join(full, 'mine.pt')
                    open(f, 'w').write('mine')
                    marks[f] = 'mine'
                    rec.emit('Result', sig + ' placed', dir=d)
                elif what == 'other':
                    for f in r.sample(['notes.txt', 'x.pt.tmp', 'model.pth', 'pt', 'result_pt'], 2):
                        open(os.path.join(full, f), 'w').write('n')
                        marks[os.path.join(full, f)] = 'n'
                    os.makedirs(os.path.join(full, 'sub'), exist_ok=True)
                    open(os.path.join(full, 'sub', 'old.pt'), 'w').write('n')
                elif what == 'remove':
                    for f in pts:
                        os.remove(os.path.join(full, f))
                    rec.emit('NoResult', sig + ' removed', dir=d)
                else:
                    for _ in range(50):
                        try:
                            shutil.rmtree(full)
                            break
                        except OSError:
                            time.sleep(.01)
                    rec.emit('NoResult', sig + ' directory removed', dir=d)
    finally:
        for _ in range(20):
            shutil.rmtree(root, ignore_errors=True)
            if not os.path.exists(root):
                break
            time.sleep(.05)


def run(rec):
    sh, ns = int(os.environ['VERIF_SHARD']), int(os.environ['VERIF_SHARDS'])
    cs = cases()
    r = rng('experiment')
    single = [c for c in cs if len(c) == 1]
    double = [c for c in cs if len(c) == 2]
    todo = single + r.sample(double, 500 if not THOROUGH else 4000)
    # longer histories
    for _ in range(120 if not THOROUGH else 1500):
        todo.append([r.choice(single)[0] for _ in range(r.randint(3, 5))])
    for i, h in enumerate(todo):
        if i % ns == sh:
            behaviour(rec, i, h, rng('experiment', i))


main(run)

"""Text made for LaTeX, configurations and command lines by the real code."""
import shutil, tempfile
from collections import OrderedDict
from drv import *
from models import quiet
import neuro_shooting.command_line_execution_tools as ce
import neuro_shooting.figure_utils as fu


def cp(s):
    return [ord(c) for c in s]


ODD = 'ab_$%&#{}~^\\<>;= \t.,-+0\'"`|()[]*?!@/:\u00e9\u03b1\u4e2d\n'


def word(r, n, chars=ODD):
    return ''.join(r.choice(chars) for _ in range(n))


def latex(rec, s):
    sig = 'latex %r' % s
    with guard(rec, sig):
        rec.emit('Latex', sig, s=cp(s), got=cp(fu.escape_latex_special_characters(s)))


def confs(rec, i, r):
    sig = 'configuration %d' % i
    start = r.choice([None, '', 'a=1', 'x=y\\;z=2', word(r, 3)])
    rec.emit('Start', sig, conf=[-1] if start is None else cp(start))
    cs = start
    for j in range(r.randint(1, 5)):
        item = None if r.random() < .2 else r.choice(['a=1;b=2', ';', 'k=v', word(r, r.randint(1, 6), 'ab;=\\ '), word(r, r.randint(1, 8)), ';;x;', 'a\\;b'])
        with guard(rec, '%s item %d' % (sig, j)):
            cs = ce.add_to_config_string(cs, item)
            rec.emit('Add', '%s item %d %r' % (sig, j, item), item=[-1] if item is None else cp(item), got=[-1] if cs is None else cp(cs))


def val(r):
    return r.choice([None, 1, -3, 0.5, 1e-5, True, 'word', '', word(r, 4), [1, 2], (1,), 0])


def dicts(rec, i, r):
    n = r.randint(0, 5)
    d = r.choice([OrderedDict, dict])((r.choice(['', 'k']) + word(r, r.randint(1, 4), 'abcxyz_12') if r.random() < .8 else j, val(r)) for j in range(n))
    b = list(d.items())
    sig = 'dictionary %r' % (dict(d),)
    kvs = [dict(k=cp(str(k)), v=cp(str(v)), bare=v is None) for k, v in d.items()]
    with guard(rec, sig):
        rec.emit('KV', sig, kvs=kvs, got=cp(ce.create_kv_string(d)), same=list(d.items()) == b)
    f = getattr(ce, '_make_arg_list', None)
    if f is not None:
        with guard(rec, sig):
            rec.emit('Args', sig, kvs=kvs, got=[cp(x) for x in f(d)], same=list(d.items()) == b)


FAKE = '''#!/bin/sh
for a in "$@"; do printf '%s\\0' "$a"; done > "$VERIF_X/args"
cat "$VERIF_X/out" 2>/dev/null
'''


def commands(rec, root, i, r):
    exe = os.path.join(root, 'tool')
    args = [word(r, r.randint(1, 6), ODD.replace('\n', '')) for _ in range(r.randint(0, 5))]
    sig = 'command with %r' % (args,)
    with guard(rec, sig):
        st = ce.get_string_argument_from_list(list(args))
        rec.emit('OneString', sig, args=[cp(a) for a in args], got=cp(st))
        fd = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            if os.path.exists(os.path.join(root, 'args')):
                os.remove(os.path.join(root, 'args'))
            with quiet():
                ce.execute_command(exe, list(args), **r.choice([{}, dict(verbose=False), dict(verbose=True)]))
        finally:
            os.dup2(fd, 1)
            os.close(fd)
            os.close(null)
        got = open(os.path.join(root, 'args'), 'rb').read().decode('utf8').split('\0')[:-1] if os.path.exists(os.path.join(root, 'args')) else ['?not run']
        rec.emit('Exec', sig, args=[cp(a) for a in args], got=[cp(a) for a in got])


def outputs(rec, root, i, r):
    out = ''.join(r.choice(['', '', 'x', 'text here', '# comment', ' # no comment', '#', 'a#b', '\u00e9t\u00e9']) + '\n' for _ in range(r.randint(0, 5))) + r.choice(['', '', 'tail', '#tail'])
    open(os.path.join(root, 'out'), 'w', encoding='utf8').write(out)
    sig = 'output %r' % out
    buf = __import__('io').StringIO()
    with guard(rec, sig):
        with __import__('contextlib').redirect_stdout(buf):
            ce.call_python_script('script.py --a 1')
        rec.emit('Output', sig, out=cp(out), got=[cp(x) for x in buf.getvalue().split('\n')[:-1]])


def lognames(rec, i, r):
    d, stage, name = r.choice(['out', 'a/b', '/tmp/x']), r.choice([0, 1, 7, 12, 100]), r.choice([None, 'proc', 'a_1', '2'])
    sig = 'log name %s %s %s' % (d, stage, name)
    with guard(rec, sig):
        got = ce.get_stage_log_filename(d, stage, name) if name is not None else ce.get_stage_log_filename(d, stage)
        rec.emit('LogName', sig, dir=cp(d), stem=cp('log_stage_'), stage=cp(str(stage)), name=[-1] if name is None else cp(name), got=cp(got))


def run(rec):
    root = tempfile.mkdtemp(prefix='vt')
    try:
        for n in ('tool', 'python'):
            with open(os.path.join(root, n), 'w') as fh:
                fh.write(FAKE)
            os.chmod(os.path.join(root, n), 0o755)
        os.environ['VERIF_X'] = root
        os.environ['PATH'] = root + ':' + os.environ['PATH']
        os.environ['PYTHONUTF8'] = '1'
        r = rng('text')
        rec.emit('Start', 'texts', conf=[-1])
        for c in cases():
            latex(rec, ''.join(map(chr, c['s'])))
        for i in range(400 if not THOROUGH else 4000):
            latex(rec, word(r, r.randint(1, 25)))
        for s in ('', '\\', 'run_01_cubic', '50% of $x_1$', '\\textbackslash{}', '\\&', '{}', 'a' * 300):
            latex(rec, s)
        for i in range(150 if not THOROUGH else 1500):
            dicts(rec, i, rng('dicts', i))
        for i in range(60 if not THOROUGH else 400):
            commands(rec, root, i, rng('commands', i))
            outputs(rec, root, i, rng('outputs', i))
            lognames(rec, i, rng('lognames', i))
        for i in range(150 if not THOROUGH else 1500):
            confs(rec, i, rng('confs', i))
    finally:
        shutil.rmtree(root, ignore_errors=True)


main(run)

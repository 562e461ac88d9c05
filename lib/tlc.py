"""Running TLC: model-checking runs (design level, case generation) and trace validation runs."""
import os, re, shutil, subprocess, threading, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class MachineryError(Exception):
    pass


def _classpath():
    d = os.path.dirname(JAR)
    jars = [JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.jar') and f != os.path.basename(JAR))
    return ':'.join(jars)


def run_tlc(module, cfg, scratch, env=None, workers=4, timeout=800, extra=(), heap='3g'):
    """Run TLC on spec/<module>.tla with configuration text or file `cfg`; returns dict(ok, out, states, distinct, rc)."""
    work = os.path.join(scratch, 'tlc_%s_%d_%d' % (module, threading.get_ident() % 100000, int(time.time() * 1e6)))
    os.makedirs(work)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), work)
    if '\n' in cfg:
        with open(os.path.join(work, 'run.cfg'), 'w') as fh:
            fh.write(cfg)
    else:
        shutil.copy(os.path.join(SPEC, cfg), os.path.join(work, 'run.cfg'))
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-cp', _classpath(), 'tlc2.TLC', '-noGenerateSpecTE',
           '-deadlock', '-workers', str(workers), '-metadir', os.path.join(work, 'states'), '-config', 'run.cfg']
    cmd += list(extra) + [module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired as ex:
        raise MachineryError('TLC timed out on %s after %ss' % (module, timeout))
    out = p.stdout
    res = dict(rc=p.returncode, out=out, wall=time.time() - t0, states=0, distinct=0, module=module)
    m = None
    for m in re.finditer(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out):
        pass
    if m:
        res['states'] = int(m.group(1).replace(',', ''))
        res['distinct'] = int(m.group(2).replace(',', ''))
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    res['depth'] = int(m.group(1)) if m else 0
    res['ok'] = p.returncode == 0 and 'No error has been found' in out
    res['invariant_violated'] = bool(re.search(r'is violated|are violated', out))
    shutil.rmtree(work, ignore_errors=True)
    return res

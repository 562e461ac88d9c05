"""python3 tools/plant.py FILE [id ...]: plants the bugs described in FILE (a Python file with BUG(...) calls) in scratch copies
of /repo, confirms them (build, stable tests, demonstration) and runs the checks of their property; kept under seeded/."""
import json, os, shutil, subprocess, sys, textwrap, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/pl'
BUGS = []
LOCK = threading.Lock()


def BUG(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=also))


def sh(cmd, env=None, cwd=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout)[-500:]


def prep(b):
    r = os.path.join(W, b['id'], 'repo')
    shutil.rmtree(os.path.dirname(r), ignore_errors=True)
    os.makedirs(os.path.dirname(r))
    sh('cp -a /repo %s && git -C %s checkout -q -- .' % (r, r))
    for f, old, new in b['edits']:
        p = os.path.join(r, 'neuro_shooting', f)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    rc, diff = sh('git -C %s diff' % r)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(textwrap.dedent(b['demo']).lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0: behaves as it should; run with the repository as the current directory
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg MPLCONFIGDIR="$S" PATH=/opt/venv/bin:$PATH
cd "$S" && python "$D/demo.py" > "$S/out" 2>&1
rc=$?
tail -3 "$S/out"
exit $rc
''')
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return r, d


def one(b):
    out = [b['id']]
    r, d = prep(b)
    w = os.path.join(W, b['id'], 'work')
    os.makedirs(w, exist_ok=True)
    env = dict(PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=w, OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', LANG='C.UTF-8', CUDA_VISIBLE_DEVICES='', PATH='/opt/venv/bin:' + os.environ['PATH'])
    t = open('/opt/vp/run_tests.py').read().replace('"/repo/tests"', repr(os.path.join(r, 'tests'))).replace('"/opt/vp/work"', repr(w))
    open(os.path.join(w, 'rt.py'), 'w').write(t)
    rc, res = sh('/opt/venv/bin/python rt.py 2>/dev/null', env, w)
    passed = {l[5:] for l in res.splitlines() if l.startswith('PASS ')}
    miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
    out.append('tests ok' if not miss else 'TESTS FAIL %s' % sorted(miss)[:3])
    rc0, o0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    rc1, o1 = sh('bash %s/demo.sh' % d, cwd=r)
    out.append('demo ok' if rc0 == 0 and rc1 != 0 else 'DEMO BAD clean=%s patched=%s\n%s\n%s' % (rc0, rc1, o0[-600:], o1[-600:]))
    for p in (b['prop'],) + tuple(b['also']):
        rc, o = sh('python3 check.py ' + p, dict(VERIF_PLANTED=r, VERIF_EVID=os.path.join(W, b['id']), VERIF_SEED='1'), V)
        rej = [l for l in o.splitlines() if 'rejected: ' in l]
        out.append('%s %s %s' % (p, {0: 'MISSED', 1: 'caught'}.get(rc, 'ERROR rc=%s' % rc), rej[0][:150] if rej else o[-700:] if rc not in (0,) else ''))
    shutil.rmtree(r, ignore_errors=True)
    with LOCK:      # what was seen, for DESIGN.md
        f = os.path.join(V, 'tools', 'planted.json')
        log = json.load(open(f)) if os.path.exists(f) else {}
        if 'tests ok' in out and 'demo ok' in out:
            log[b['id']] = [b['prop'], b['breaks'], 'caught' if ' caught ' in out[3] else 'missed', out[3].split('rejected: ')[-1].split(' sig=')[0] if ' caught ' in out[3] else '', sorted(set(log.get(b['id'], [0] * 5)[4] or []) | ({'missed at first'} if ' MISSED' in out[3] else set()))]
        json.dump(log, open(f, 'w'), indent=1, sort_keys=True)
    return ' | '.join(out)


exec(open(sys.argv[1]).read())
sel = [b for b in BUGS if not sys.argv[2:] or b['id'] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as pool:
    for o in pool.map(one, sel):
        print(o, flush=True)

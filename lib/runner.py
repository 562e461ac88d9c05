"""Runs the check of one property: TLC on the design, drivers on the real code, TLC on the recorded traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tlc import run_tlc, MachineryError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_PLANTED', '/repo')  # development only: a scratch copy with a planted bug
EVID = os.environ.get('VERIF_EVID', VERIF)


def driver_env(scratch):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'VERIF_SEED', 'VERIF_TIER', 'VERIF_DEBUG', 'LANG', 'JAVA_HOME')}
    e.update(PYTHONPATH='%s:%s' % (REPO, os.path.join(VERIF, 'lib')), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             MPLCONFIGDIR=os.path.join(scratch, 'mpl'), CUDA_VISIBLE_DEVICES='', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8', VERIF_REPO=REPO)
    return e


TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
%s
"""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.states = self.transitions = self.traces = 0
        self.samples, self.rejects, self.notes, self.stages = [], [], [], []
        self.exhaustive = True
        self.replays = os.path.join(EVID, 'evidence', 'replays')
        old = os.path.join(self.replays, pid + '.json')
        if os.path.exists(old):
            os.remove(old)

    def log(self, msg):
        print('[%s] %s' % (self.pid, msg), flush=True)

    # -- design level -------------------------------------------------------
    def model(self, module, cfg, cases=None, env=None, workers=4, timeout=700, extra=()):
        e = dict(env or {})
        path = None
        if cases:
            path = os.path.join(self.scratch, cases)
            if os.path.exists(path):
                os.remove(path)
            e['CASES'] = path
        e['TIER'] = self.tier
        e['SEED'] = str(self.seed)
        r = run_tlc(module, cfg, self.scratch, env=e, workers=workers, timeout=timeout, extra=extra)
        if not r['ok']:
            raise MachineryError('TLC on %s (%s) failed:\n%s' % (module, cfg.splitlines()[0], r['out'][-6000:]))
        self.states += r['distinct']
        self.transitions += r['states']
        self.stages.append({'stage': 'model', 'module': module, 'distinct_states': r['distinct'], 'states_generated': r['states'], 'depth': r['depth'], 'wall_s': round(r['wall'], 2)})
        self.log('model %s: %d distinct states, %d generated, %.1fs' % (module, r['distinct'], r['states'], r['wall']))
        if cases and not os.path.exists(path):
            # cases printed as JSON lines marked CASE
            with open(path, 'w') as fh:
                for m in re.finditer(r'^"?CASE (.*?)"?$', r['out'], re.M):
                    fh.write(m.group(1).replace('\\"', '"') + '\n')
        return path

    # -- conformance ---------------------------------------------------------
    def drive(self, driver, cases=None, args=(), timeout=800, shards=1, env=None):
        """Runs drivers/<driver>.py (in `shards` processes) in the scratch directory; returns the trace files."""
        procs, traces = [], []
        t0 = time.time()
        for s in range(shards):
            wd = os.path.join(self.scratch, 'wd_%s_%d_%d' % (driver, s, len(self.stages)))
            os.makedirs(wd, exist_ok=True)
            trace = os.path.join(wd, 'trace.ndjson')
            e = driver_env(self.scratch)
            e.update(VERIF_TRACE=trace, VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
            e.update(env or {})
            if cases:
                e['VERIF_CASES'] = cases
            logf = open(os.path.join(wd, 'log'), 'w')
            p = subprocess.Popen([PY, '-B', os.path.join(VERIF, 'drivers', driver + '.py')] + list(args), cwd=wd, env=e, stdout=logf, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((p, wd, logf))
            traces.append(trace)
        n = 0
        try:
            for p, wd, logf in procs:
                try:
                    rc = p.wait(timeout=max(1, timeout - (time.time() - t0)))
                except subprocess.TimeoutExpired:
                    raise MachineryError('driver %s timed out' % driver)
                logf.close()
                txt = open(os.path.join(wd, 'log'), errors='replace').read()
                m = re.findall(r'^EVENTS (\d+)$', txt, re.M)
                if rc != 0 or not m:
                    raise MachineryError('driver %s failed (rc %s):\n%s' % (driver, rc, txt[-4000:]))
                n += int(m[-1])
        finally:
            for p, wd, logf in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, 9)
                    except ProcessLookupError:
                        pass
        self.log('driver %s: %d events, %.1fs' % (driver, n, time.time() - t0))
        self.stages.append({'stage': 'driver', 'driver': driver, 'events': n, 'wall_s': round(time.time() - t0, 2)})
        return traces

    def validate(self, module, traces, cfg='', env=None, timeout=800, chunk=2000):
        """TLC validates the recorded events against <module>; rejected events are collected with the failing clause."""
        lines = []
        for t in traces:
            with open(t) as fh:
                lines += [l for l in fh if l.strip()]
        if not lines:
            raise MachineryError('empty trace for ' + module)
        # a 'Start' event begins a new behaviour: chunks only split there (or anywhere if the trace has none)
        starts = [i for i, l in enumerate(lines) if l.startswith('{"ev":"Start"')]
        chunks, cur = [], []
        for i, l in enumerate(lines):
            if len(cur) >= chunk and (not starts or l.startswith('{"ev":"Start"')):
                chunks.append(cur)
                cur = []
            cur.append(l)
        chunks.append(cur)
        with ThreadPoolExecutor(4) as pool:
            results = list(pool.map(lambda a: self._validate_chunk(module, a[0], a[1], cfg, env, timeout, bool(starts)), enumerate(chunks)))
        total = sum(len(ch) for ch in chunks)
        for rejects, states, distinct in results:
            self.rejects += rejects
            self.transitions += states
            self.states += distinct
        nb = len(starts) if starts else total
        self.traces += nb
        self.samples += [json.loads(lines[i]) for i in sorted({0, len(lines) // 2, len(lines) - 1})]
        self.stages.append({'stage': 'trace', 'module': module, 'events': total, 'behaviours': nb})
        self.log('trace %s: %d events in %d behaviours validated, %d rejected' % (module, total, nb, len(self.rejects)))

    def _validate_chunk(self, module, ci, ch, cfg, env, timeout, stateful):
        rejects, states, distinct, part = [], 0, 0, 0
        while ch:
            tf = os.path.join(self.scratch, 'validate_%s_%d_%d.ndjson' % (module, ci, part))
            with open(tf, 'w') as fh:
                fh.writelines(ch)
            e = dict(env or {})
            e['TRACE'] = tf
            e['PROPERTY'] = self.pid
            r = run_tlc(module, TRACE_CFG % cfg, self.scratch, env=e, workers=1, timeout=timeout)
            states += r['states']
            distinct += r['distinct']
            for m in re.finditer(r'REJECT (\d+) (.*?)"?$', r['out'], re.M):
                rejects.append((m.group(2).strip(), ch[int(m.group(1)) - 1].strip()))
            m = re.search(r'TRACE-CONSUMED (\d+)', r['out'])
            if r['ok'] and m and int(m.group(1)) == len(ch):
                break
            # the recorded event has a form for which the specification has no meaning (wrong rank, missing entries, ...):
            # it is no behaviour of the specification
            bad = self.locate(r['out'])
            if not bad or bad > len(ch) or not re.search(r'evaluating|Attempted|Error: The', r['out']):
                raise MachineryError('trace validation with %s did not finish (event ~%s of %d):\n%s' % (module, bad, len(ch), r['out'][-5000:]))
            if os.environ.get('VERIF_DEBUG'):
                self.log('unexplained event %s:\n%s' % (ch[bad - 1][:2000], r['out'][-2500:]))
            rejects.append(('not-a-behaviour', ch[bad - 1].strip()))
            rest = ch[bad:]
            if stateful:
                while rest and not rest[0].startswith('{"ev":"Start"'):
                    rest = rest[1:]
            ch = rest
            part += 1
            if part >= 5:
                break
        return rejects, states, distinct

    @staticmethod
    def locate(out):
        m = re.findall(r'^(?:/\\ )?l = (\d+)$', out, re.M)
        return int(m[-1]) if m else None

    # -- verdict --------------------------------------------------------------
    def finish(self, t0, level='model_checking'):
        kf_path = os.path.join(VERIF, 'known_findings.json')
        known = json.load(open(kf_path))['findings'] if os.path.exists(kf_path) else []
        known = [k for k in known if k['property'] == self.pid and k['status'] == 'known']
        viol, seen = [], {}
        for clause, line in self.rejects:
            ev = json.loads(line)
            hit = None
            for k in known:
                if re.fullmatch(k['sig'], ev.get('sig', '')) and re.fullmatch(k['clause'], clause):
                    hit = k
            if hit:
                seen[hit['id']] = hit
            else:
                viol.append((clause, ev))
        for k in seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        rp = None
        if viol:
            os.makedirs(self.replays, exist_ok=True)
            rp = os.path.join(self.replays, '%s.json' % self.pid)
            with open(rp, 'w') as fh:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'how': 'VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s' % (self.seed, self.tier, self.pid),
                           'rejected_events': [{'clause': c, 'event': e} for c, e in viol[:int(os.environ.get('VERIF_MAXREPLAY', '20'))]], 'total_rejected': len(viol)}, fh, indent=1)
            for c, e in viol[:5]:
                self.log('rejected: clause=%s sig=%s %s' % (c, e.get('sig'), e.get('what', '')))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                           'samples': [trim(s) for s in self.samples[:6]], 'stages': self.stages},
              'assumptions': self.notes, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(EVID, 'evidence'), exist_ok=True)
        with open(os.path.join(EVID, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        self.log('held on everything explored (%.1fs)' % (time.time() - t0))
        return 0

    def cleanup(self):
        if os.environ.get('VERIF_KEEP'):
            self.log('kept ' + self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)


def trim(x, n=400):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'

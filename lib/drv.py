"""Helpers for the drivers: they run the real code from /repo and record one JSON event per observation."""
import os, sys, json, math, random, signal, traceback, warnings
warnings.filterwarnings('ignore')
import numpy as np
import torch

REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
BIG = 10 ** 9
NAN = 2 * 10 ** 9


class CaseTimeout(Exception):
    pass


class Stop(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout('code under test did not return')


def in_repo(tb):
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
    return False


class Recorder:
    """Writes events as ndjson. Every event has: ev (action name), sig (stable description of the case)."""

    def __init__(self):
        self.path = os.environ['VERIF_TRACE']
        self.fh = open(self.path, 'w')
        self.n = 0

    def emit(self, ev, sig, **fields):
        d = {'ev': ev, 'sig': str(sig)}
        d.update(fields)
        self.fh.write(json.dumps(clean(d), separators=(',', ':')) + '\n')
        self.n += 1

    def crash(self, sig, ex):
        """The code under test failed where it has to answer: an event every trace specification rejects."""
        self.emit('Crash', sig, what=ascii_(type(ex).__name__ + ': ' + str(ex))[:300], tb=ascii_(''.join(traceback.format_exception(ex))[-1500:]))

    def close(self):
        self.fh.close()


def ascii_(s):
    return s.encode('ascii', 'replace').decode().replace('"', "'")


class guard:
    """with guard(rec, sig): run code under test; an unexpected exception becomes a Crash event."""

    def __init__(self, rec, sig, seconds=150):
        self.rec, self.sig, self.seconds, self.failed = rec, sig, seconds, False

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.seconds)
        return self

    def __exit__(self, t, v, tb):
        signal.alarm(0)
        if t is None:
            return False
        if issubclass(t, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        if issubclass(t, Stop):
            return False
        if issubclass(t, CaseTimeout):      # once is enough: the next one would hang as well
            self.rec.crash(self.sig, v)
            raise Stop
        if in_repo(tb):
            self.failed = True
            self.rec.crash(self.sig, v)
            return True
        # exception raised in the driver itself while it handled what the code returned (wrong type, missing key, ...)
        self.failed = True
        self.rec.crash(self.sig + ' [result unusable]', v)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exception(t, v, tb)
        return True


def attempt(fn, *a, **k):
    """('ok', result) or ('raise', exception)"""
    try:
        return 'ok', fn(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError, CaseTimeout, Stop):
        raise
    except BaseException as ex:
        return 'raise', ex


def q(v, scale):
    """float -> integer in units of 1/scale, safe for TLC's 32 bit integers"""
    v = float(v)
    if math.isnan(v):
        return NAN
    r = v * scale
    if abs(r) > BIG:
        return BIG if r > 0 else -BIG
    return int(round(r))


def qt(t, scale):
    """tensor -> nested lists of quantised integers"""
    if isinstance(t, torch.Tensor):
        t = t.detach().to(torch.float64).cpu().numpy()
    t = np.asarray(t, dtype=np.float64)
    if t.ndim == 0:
        return q(t, scale)
    return [qt(x, scale) for x in t]


def clean(x):
    if isinstance(x, bool) or isinstance(x, str) or x is None:
        return x if x is not None else 'NONE'
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2 ** 31 - 1 else (BIG if x > 0 else -BIG)
    if isinstance(x, float):
        raise TypeError('floats have to be quantised before they are logged')
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, (np.bool_,)):
        return bool(x)
    raise TypeError('cannot log %r' % type(x))


def cases():
    p = os.environ.get('VERIF_CASES')
    out = []
    if p and os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def rng(*salt):
    r = random.Random(repr((SEED,) + salt))
    return r


def seed_all(*salt):
    r = rng(*salt)
    s = r.randrange(2 ** 31)
    torch.manual_seed(s)
    np.random.seed(s % (2 ** 32))
    random.seed(s)
    return r


def main(fn):
    torch.set_num_threads(1)
    rec = Recorder()
    try:
        fn(rec)
    except Stop:
        pass
    except Exception as ex:
        # outside every guarded section: the code under test's failure, unless none of its frames is involved
        if not in_repo(ex.__traceback__):
            raise
        rec.crash('driver aborted', ex)
    rec.close()
    print('EVENTS %d' % rec.n)

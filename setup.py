#!/usr/bin/env python3
"""setup_cmd: nothing has to be built; checks that the tools the checks use are there and that every specification parses."""
import glob, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
from tlc import _classpath
from concurrent.futures import ThreadPoolExecutor

d = tempfile.mkdtemp(prefix='verif_setup_')
try:
    for f in glob.glob(os.path.join(V, 'spec', '*.tla')):
        shutil.copy(f, d)

    def parse(f):
        p = subprocess.run(['java', '-cp', _classpath(), 'tla2sany.SANY', os.path.basename(f)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return f, p.returncode, p.stdout

    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for f, rc, out in ex.map(parse, sorted(glob.glob(os.path.join(d, '*.tla')))):
            if rc != 0 or 'Fatal errors' in out or '*** Errors' in out:
                print(out[-3000:])
                bad += 1
    p = subprocess.run(['/opt/venv/bin/python', '-c', 'import torch, torchdiffeq, sortedcontainers, numpy'])
    sys.exit(1 if bad or p.returncode else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)

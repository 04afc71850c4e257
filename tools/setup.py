#!/usr/bin/env python3
"""Setup: parse every specification and make sure lop imports (nothing is downloaded or built)."""
import glob, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
for f in sorted(glob.glob(os.path.join(ROOT, 'specs', '*.tla'))):
    r = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', os.path.basename(f)], cwd=os.path.join(ROOT, 'specs'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode or b'Semantic errors' in r.stdout or b'Parse Error' in r.stdout:
        bad = 1; print(f); print(r.stdout.decode()[-2000:])
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import lop'], env=dict(os.environ, PYTHONPATH='/repo/src', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
sys.exit(bad or r.returncode)

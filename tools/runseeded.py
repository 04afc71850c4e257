#!/usr/bin/env python3
"""Runs the check of each planted change against a scratch copy carrying it (a maintenance tool; no
check uses it).  usage: runseeded.py [-j N] [--all-checks] [--tier T] [id ...]"""
import json, os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J = 4
if '-j' in args: k = args.index('-j'); J = int(args[k + 1]); del args[k:k + 2]
tier = 'quick'
if '--tier' in args: k = args.index('--tier'); tier = args[k + 1]; del args[k:k + 2]
ids = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))

def one(i):
    d = os.path.join(ROOT, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    base = tempfile.mkdtemp(prefix='seed-'); repo = os.path.join(base, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_TIER=tier, VERIF_SEED='1')
    r = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ROOT)
    o = r.stdout.decode()
    shutil.rmtree(base, ignore_errors=True)
    lines = [l for l in o.splitlines() if l.startswith('  ')][:3]
    return i, prop, r.returncode, lines if r.returncode == 1 else o.splitlines()[-2:]
with cf.ThreadPoolExecutor(J) as ex:
    for i, p, rc, l in ex.map(one, ids):
        print('%-28s %s %s %s' % (i, p, {0: 'MISSED', 1: 'caught'}.get(rc, 'NO ANSWER'), l), flush=True)

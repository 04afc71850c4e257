#!/usr/bin/env python3
"""A check without its model checking and with its generated behaviours kept between runs, for trying
out many changes (a maintenance tool; no check uses it).  VERIF_REPO says which tree."""
import sys, os, importlib, hashlib, json, re
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import core
CACHE = os.environ.get('FAST_CACHE', '/tmp/fastcache')
os.makedirs(CACHE, exist_ok=True)
real = core.Run.generate

def sources(module):
    out, todo, seen = '', [module], set()
    while todo:
        m = todo.pop()
        p = os.path.join(core.SPECS, m + '.tla')
        if m in seen or not os.path.exists(p): continue
        seen.add(m)
        s = open(p).read()
        out += s
        for l in re.findall(r'^EXTENDS (.*)$', s, re.M): todo += [x.strip() for x in l.split(',')]
    return out

def generate(self, module, *a, **k):
    key = hashlib.sha1(json.dumps([module, a, k, self.seed, sources(module)], sort_keys=True, default=str).encode()).hexdigest()
    p = os.path.join(CACHE, key + '.json')
    if os.path.exists(p): return json.load(open(p))
    v = real(self, module, *a, **k)
    json.dump(v, open(p + '.%d' % os.getpid(), 'w')); os.replace(p + '.%d' % os.getpid(), p)
    return v
core.Run.generate = generate
core.Run.model_check = lambda self, *a, **k: dict(out='', coverage={})
pid = sys.argv[1]
run = core.Run(pid)
try: rc = importlib.import_module('chk_' + pid.lower()).check(run, None)
except core.MachineryError as e:
    sys.stderr.write('%s could not complete: %s\n' % (pid, e)); run.cleanup(); rc = 2
sys.exit(rc)

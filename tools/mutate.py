#!/usr/bin/env python3
"""Small mechanical changes to lop that its tests do not notice, and the checks run against each (a
maintenance tool; no check uses it).
   mutate.py make N SEED OUT      N random changes -> OUT (one JSON line each)
   mutate.py tests IN OUT [-j N]  those that pass the stable tests
   mutate.py run IN OUT [-j N]    which checks notice them                                             """
import ast, json, os, random, subprocess, sys, tempfile, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
BASE = '/tmp/mut/base'       # the tree the changes were made for
SRC = BASE + '/src/lop'
CHECKS = {
    'models/Model.py': 'C18 C20 C04', 'models/GP.py': 'C04 C05 C18 C23 C10 C01', 'models/PreferenceModel.py': 'C01 C02 C03 C04 C14 C17 C05 C20 C06 C10 C23',
    'models/PreferenceGP.py': 'C18 C23 C04 C05 C06 C17 C14 C10', 'models/PreferenceLinear.py': 'C23 C06 C05 C04 C17 C18 C02',
    'probits/': 'C17 C22 C14 C05 C06 C02 C23', 'kernels/': 'C19 C22 C24 C14 C10 C18',
    'active_learning/': 'C07 C08 C09 C25 C26 C10 C20', 'utilities/probability': 'C26 C25', 'utilities/mcmc': 'C12', 'utilities/sample': 'C12', 'utilities/pareto': 'C13',
    'utilities/preference_pairs': 'C15', 'utilities/training': 'C11', 'utilities/Fake': 'C21', 'utilities/human': 'C16', 'utilities/Human': 'C16 C20',
    'utilities/synthetic': 'C16 C15 C20', 'utilities/gamma': 'C22'}
SKIP = ('AbsBayesInfo', 'ProbabilityLearner', '__init__', '.pyc')
SKIPFN = ('plot', 'visualize', 'likli_f_hyper', 'hyperparameter', 'hyperparamter', 'optimize_hyper')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.Mult, ast.FloorDiv: ast.Div}
CALL = {'max': 'min', 'min': 'max', 'argmax': 'argmin', 'argmin': 'argmax', 'all': 'any', 'any': 'all', 'sum': 'mean', 'floor': 'ceil', 'ceil': 'floor', 'amin': 'amax', 'amax': 'amin', 'maximum': 'minimum', 'minimum': 'maximum', 'zeros': 'ones', 'ones': 'zeros', 'append': 'insert_'}
DROP = {'copy', 'array', 'list', 'sorted', 'abs', 'sqrt', 'exp', 'log', 'transpose', 'float', 'int', 'unique', 'squeeze', 'round', 'deepcopy', 'clip'}

def variants(n):
    import copy
    def c(**k):
        m = copy.deepcopy(n)
        for a, v in k.items(): setattr(m, a, v)
        return m
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        yield c(ops=[CMP[type(n.ops[0])]()])
        if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE): yield c(ops=[{ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(n.ops[0])]()])
    elif isinstance(n, ast.BinOp):
        if type(n.op) in BIN: yield c(op=BIN[type(n.op)]())
        if isinstance(n.op, (ast.Add, ast.Sub)): yield n.left
        if isinstance(n.op, (ast.Sub, ast.Div)): yield c(left=n.right, right=n.left)
    elif isinstance(n, ast.Constant):
        if isinstance(n.value, bool): yield c(value=not n.value)
        elif isinstance(n.value, int): yield c(value=n.value + 1); yield c(value=n.value - 1)
        elif isinstance(n.value, float): yield c(value=n.value * 2)
    elif isinstance(n, ast.BoolOp): yield c(op=ast.Or() if isinstance(n.op, ast.And) else ast.And())
    elif isinstance(n, ast.UnaryOp): yield n.operand
    elif isinstance(n, ast.Slice):
        if n.lower is not None: yield c(lower=None)
        if n.upper is not None: yield c(upper=None)
    elif isinstance(n, ast.Call):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        if nm in CALL and not nm == 'append':
            m = copy.deepcopy(n)
            if isinstance(f, ast.Attribute): m.func.attr = CALL[nm]
            else: m.func.id = CALL[nm]
            yield m
        if nm in DROP:
            if n.args: yield n.args[0]
            elif isinstance(f, ast.Attribute): yield f.value
        if nm == 'append' and len(n.args) == 2: yield c(args=[n.args[1], n.args[0]])
        if nm == 'append' and len(n.args) == 2: yield n.args[0]
        if len(n.args) >= 2 and nm not in ('append', 'isinstance', 'range'): yield c(args=[n.args[1], n.args[0]] + n.args[2:])
    elif isinstance(n, ast.If):
        yield ('test', n.test, 'True'); yield ('test', n.test, 'False')
    elif isinstance(n, (ast.Assign, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): yield 'pass'
    elif isinstance(n, ast.AugAssign):
        yield 'pass'
        t = ast.unparse(n.target)
        yield '%s = %s' % (t, ast.unparse(n.value))

def sites():
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f); rel = os.path.relpath(p, SRC)
            if not f.endswith('.py') or any(s in rel for s in SKIP): continue
            src = open(p).read(); tree = ast.parse(src)
            lines = src.splitlines(keepends=True)
            off = [0]
            for l in lines: off.append(off[-1] + len(l.encode()))
            b = src.encode()
            def pos(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
            def walk(n, fn):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    if any(s in n.name for s in SKIPFN): return
                    fn = fn + '.' + n.name
                if isinstance(n, (ast.Import, ast.ImportFrom)): return
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print': return
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print': return
                if isinstance(n, ast.Raise): return
                if fn and hasattr(n, 'lineno'):
                    for v in variants(n):
                        if isinstance(v, tuple): a, e = pos(v[1]); new = v[2]
                        else:
                            a, e = pos(n); new = v if isinstance(v, str) else ast.unparse(v)
                            if isinstance(v, ast.expr) and not isinstance(v, (ast.Call, ast.Name, ast.Constant, ast.Attribute, ast.Slice)): new = '(' + new + ')'
                        if b[a:e].decode() == new: continue
                        yield dict(file=rel, fn=fn, line=n.lineno, a=a, e=e, old=b[a:e].decode(), new=new)
                for ch in ast.iter_child_nodes(n): yield from walk(ch, fn)
            yield from walk(tree, '')

def apply(m, repo):
    p = os.path.join(repo, 'src/lop', m['file']); b = open(p, 'rb').read()
    assert b[m['a']:m['e']].decode() == m['old']
    s = b[:m['a']] + m['new'].encode() + b[m['e']:]
    try: compile(s, p, 'exec')
    except SyntaxError: return False
    open(p, 'wb').write(s); return True

def tree():
    base = tempfile.mkdtemp(prefix='mut-', dir='/tmp/mut'); repo = os.path.join(base, 'repo')
    subprocess.run(['git', 'clone', '-q', BASE, repo], check=True)
    return base, repo

def t_one(m):
    import plant
    base, repo = tree()
    try:
        if not apply(m, repo): return m, None
        x = base + '/j.xml'; o = base + '/o.json'
        try:
            subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-p', 'randomly', '--randomly-seed=0',
                            '--randomly-dont-reorganize', '--ignore=tests/active_learning/test_bayes_info_gain.py', '--maxfail=2', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'],
                           cwd=repo, env=dict(plant.ENV, PYTHONPATH=repo + '/src'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        except subprocess.TimeoutExpired: return m, ['timeout']
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', o, 'junit:' + x], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try: j = json.load(open(o))
        except Exception: return m, ['no result']
        return m, sorted(plant.STABLE - set(j['passed']))[:2]
    finally: shutil.rmtree(base, ignore_errors=True)

def r_one(m):
    base, repo = tree()
    try:
        apply(m, repo)
        ch = next(v for k, v in CHECKS.items() if m['file'].startswith(k)).split()
        res = {}
        for c in ch:
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'tools', 'fastcheck.py'), c], env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode()
            if r.returncode:
                res[c] = (r.returncode, [l.strip() for l in o.splitlines() if l.startswith('  ')][:2] if r.returncode == 1 else o[-400:])
                if r.returncode == 1: break
        return m, res
    finally: shutil.rmtree(base, ignore_errors=True)

def main():
    a = sys.argv[1:]; J = 4
    if '-j' in a: k = a.index('-j'); J = int(a[k + 1]); del a[k:k + 2]
    if a[0] == 'make':
        shutil.rmtree('/tmp/mut/base', ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', BASE], check=True)
        s = list(sites()); random.Random(int(a[2])).shuffle(s)
        with open(a[3], 'w') as f:
            for m in s[:int(a[1])]: f.write(json.dumps(m) + '\n')
        print(len(s), 'sites'); return
    ms = [json.loads(l) for l in open(a[1])]
    with open(a[2], 'w') as f, cf.ThreadPoolExecutor(J) as ex:
        for m, r in ex.map(t_one if a[0] == 'tests' else r_one, ms):
            if a[0] == 'tests':
                if r == []: f.write(json.dumps(m) + '\n')
            else: f.write(json.dumps(dict(m, res=r)) + '\n')
            f.flush()
main()

"""Drives the preference models (and the plain GP) through a history of public operations."""
import copy
import numpy as np
import lop
from drv import call, num, vec, asint, BIG

NAN = 2000000000
COORD = 2.0          # a coordinate k of the specification is the real number k / 2 (or k / COORD, as the behaviour says)


def half(x):
    v = float(x) * COORD
    return int(v) if v == int(v) and abs(v) < 1e6 else 777777


def kernel():
    return lop.RBF_kern(1.0, 0.8, sigma_noise=0.01)


def mean_fn(X):
    X = np.asarray(X, dtype=float)
    return 0.25 * (X if X.ndim == 1 else np.sum(X, axis=1)) + 1.0


LEARNERS = {
    'best': lambda: lop.BestLearner(), 'worst': lambda: lop.WorstLearner(),
    'ucb': lambda: lop.UCBLearner(1.0), 'random': lambda: lop.RandomLearner(),
    'gvucb': lambda: lop.GV_UCBLearner(),
    'mi': lambda: lop.MutualInfoLearner(), 'prob': lambda: lop.ProbabilityLearner(),
    'acq': lambda: lop.AcquisitionSelection(M=15), 'absacq': lambda: lop.AbsAcquisition(M=15),
    'mixcmp': lambda: lop.MixedComparision(lop.BestLearner(), lop.UCBLearner(1.0), 0.5) ,
}


def make(beh):
    m, par = beh['model'], bool(beh['pareto'])
    if m == 'pgp': g = lop.PreferenceGP(kernel(), pareto_pairs=par, active_learner=learner(beh))
    elif m == 'plin': g = lop.PreferenceLinear(pareto_pairs=par, active_learner=learner(beh))
    elif m == 'gp': g = lop.GP(kernel(), mean_func=mean_fn if beh.get('meanf') else None, active_learner=learner(beh))
    if m == 'pgp': g.delta_f = 1e-5
    if m == 'plin': g.delta_f = 1e-5
    return g


def learner(beh):
    if not beh.get('learner'): return None
    import learners
    return learners.make(beh['learner'])


def points(X, dim, cont, model):
    A = np.array(X, dtype=float).reshape(len(X), dim) / COORD
    if dim == 1 and model != 'plin': A = A[:, 0]
    if cont == 1 and np.all(A == np.floor(A)): A = A.astype(int)
    elif cont == 2:
        big = np.zeros((2 * len(A),) + A.shape[1:]); big[::2] = A; A = big[::2]
    elif cont == 3: A = np.asfortranarray(A)
    elif cont == 4: A = A.astype(np.float32)
    return A


def labels(kind, L, cont):
    if kind == 'pref':
        if cont == 2: return np.array(L) if L else np.empty((0, 3))
        if cont == 5: return tuple(tuple(t) for t in L)
        if cont == 3: return [list(t) for t in L]
        return [tuple(t) for t in L]
    if kind == 'ord':
        L = [v if v > -9000 else (10000 + v) / 1000.0 for v in L]
        return list(L) if cont in (0, 3) else np.array(L) if cont != 4 else np.array(L, dtype=np.int32)
    if kind == 'val': return np.array(L, dtype=float) / 1000.0
    A = np.array([np.nan if v == NAN else v for v in L], dtype=float) / 1e6
    if cont == 2:
        big = np.zeros(2 * len(A)); big[::2] = A; A = big[::2]
    return A


KIND = {'pref': 'relative_discrete', 'ord': 'ordinal', 'abs': 'abs'}


def noise_of(L, cont, model):
    if model != 'gp' or cont not in (1, 3, 5): return None
    if cont == 1: return 0.1
    z = [0.05 * (1 + ((i * 3 + cont) % 4)) for i in range(1, len(L) + 1)]
    return z if cont == 3 else np.array(z)


def do_add(m, model, kind, X, L, explicit=False, noise=None):
    if model == 'gp': return m.add(X, L) if noise is None else m.add(X, L, training_sigma=noise)
    if explicit and kind in ('ord', 'abs') and m.X_train is None and len(L):
        # labels given with the points they belong to
        L = np.stack([np.array(L), np.arange(len(L))], axis=1) if kind == 'ord' else (L, list(range(len(L))))
    return m.add(X, L, type=KIND.get(kind, kind))


def observe(m, model):
    o = dict(pts=[], prefs=[], ords=[], abss=[], vals=[], noi=[], hyp=[], priorpts=[])
    if m.X_train is not None:
        o['pts'] = [[half(c) for c in np.atleast_1d(x)] for x in m.X_train]
    if model == 'gp':
        if m.y_train is not None:
            o['vals'] = vec(m.y_train + m.mean_func(m.X_train), 1000)
            o['noi'] = vec(m.training_sigma, 1e6)
        o['hyp'] = vec(m.cov_func.get_param(), 1e6)
        return o
    y, ix = m.y_train, m.probit_idxs
    if y[ix['relative_discrete']] is not None:
        o['prefs'] = [[asint(v) for v in r] for r in np.asarray(y[ix['relative_discrete']])]
    if y[ix['ordinal']] is not None:
        v, i = y[ix['ordinal']]
        o['ords'] = [[num(a, 1) if float(a) == int(a) else 777777, asint(b)] for a, b in zip(v, i)]
        if len(v) != len(i): o['ords'].append([-1, -1])
    if y[ix['abs']] is not None:
        v, i = y[ix['abs']]
        o['abss'] = [[num(a, 1e6), asint(b)] for a, b in zip(v, i)]
        if len(v) != len(i): o['abss'].append([-1, -1])
    kept = None if m.X_train is None else m.X_train.copy()
    pp = m.get_prior_pts()
    if pp is not None: o['priorpts'] = [[half(c) for c in np.atleast_1d(x)] for x in pp]
    if kept is not None: m.X_train[...] = kept          # (looking must not change what is looked at)
    for p in m.probits: o['hyp'] += vec(p.get_hyper(), 1e6)
    if model == 'pgp': o['hyp'] += vec(m.cov_func.get_param(), 1e6)
    return o


def query(dim, model):
    base = [[0, 0, 0], [1, 2, 0], [2, 1, 3], [3, 3, 1], [5, 0, 2], [4, 6, 6], [1, 1, 1]]
    A = np.array(base, dtype=float)[:, :dim] / COORD + 0.1
    return A[:, 0] if dim == 1 and model != 'plin' else A


def snap(x):
    if isinstance(x, np.ndarray): return ('nd', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)): return (type(x).__name__,) + tuple(snap(v) for v in x)
    if isinstance(x, (set, frozenset)): return ('set', tuple(sorted(x)))
    return x


def predict_vec(m, Q, large=False):
    mu, sig = (m.predict_large if large else m.predict)(Q)
    v = vec(mu, 1e5)
    if sig is not None: v += vec(sig, 1e5)
    return v


def run(beh, rec):
    global COORD
    COORD = float(beh.get('per', 2))
    model, dim = beh['model'], beh['dim']
    m = make(beh)
    rec.ev('start', pareto=int(bool(beh['pareto'])), model=model)
    passed, accepted, refusals = [], [], 0
    Q = query(dim, model)
    for a in beh['acts']:
        op, kind, X, L, cont = a['op'], a['kind'], a['X'], a['L'], a['cont']
        # every fit starts from the same random state, so that two fits of the same data agree
        np.random.seed(11)
        base = dict(op=op, kind=kind, X=X, L=L, cont=cont, must=0, may=0)
        if op == 'add':
            A, B = points(X, dim, cont, model), labels(kind, L, cont)
            Z = noise_of(L, cont, model)
            before = snap(A), snap(B), snap(Z)
            ret, _ = call(do_add, m, model, kind, A, B, cont == 1, Z)
            same = int((snap(A), snap(B), snap(Z)) == before)
            passed += [(A, B), (Z, None)]
            if valid(kind, L): accepted.append(('add', kind, X, L, cont))
            rec.ev('op', ret=ret, args=same, obs=observe(m, model), **base)
        elif op == 'reset':
            ret, _ = call(m.reset); accepted = []
            rec.ev('op', ret=ret, args=1, obs=observe(m, model), **base)
        elif op == 'prune':
            ret, _ = call(m.remove_without_reference); accepted.append(('prune',))
            rec.ev('op', ret=ret, args=1, obs=observe(m, model), **base)
        elif op == 'prior':
            A = points(X, dim, cont, model); before = snap(A)
            ret, _ = call(m.add_prior, method='exact', pts=A)
            passed.append((A, None)); accepted.append(('prior', X, cont))
            rec.ev('op', ret=ret, args=int(snap(A) == before), obs=observe(m, model), **base)
        elif op == 'mutate':
            for A, B in passed:
                for Z in (A, B):
                    if isinstance(Z, np.ndarray) and Z.size: Z[...] = Z + 7
                    elif isinstance(Z, list):
                        for k in range(len(Z)): Z[k] = (1, 0, 0) if isinstance(Z[k], (tuple, list)) else 9
            rec.ev('op', ret='ok', args=1, obs=observe(m, model), **base)
        elif op in ('predict', 'plarge'):
            if beh.get('pred'): predict_event(beh, m, model, dim, Q, accepted, rec, base, op)
            else:
                if model == 'plin' and m.X_train is None: continue
                q = Q.copy(); ret, _ = call(predict_vec, m, q)
                rec.ev('op', ret=ret, args=int(np.array_equal(q, Q)), obs=observe(m, model), **dict(base, may=1))
        elif op == 'getprior':
            if m.X_train is None: continue
            ret, _ = call(m.get_prior_pts)
            rec.ev('op', ret=ret, args=1, obs=observe(m, model), **base)
        elif op == 'gethyper':
            ret, _ = call(m.get_hyper)
            rec.ev('op', ret=ret, args=1, obs=observe(m, model), **dict(base, may=int(model == 'gp')))
        elif op == 'best':
            q = Q.copy(); ret, _ = call(m.select_best, q)
            rec.ev('op', ret=ret, args=int(np.array_equal(q, Q)), obs=observe(m, model), **base)
        elif op == 'select':
            if model == 'plin' and m.X_train is None: continue
            select_event(beh, m, model, a, Q, rec, base)


def valid(kind, L):
    if kind == 'ord': return all(v >= 1 for v in L)
    if kind == 'abs': return all(0 <= v <= 1000000 for v in L)
    return kind in ('pref', 'val')


def fresh(beh, accepted, dim, model, seed):
    st = np.random.get_state()
    np.random.seed(seed)
    try:
        g = make(dict(beh, learner=None))
        for a in accepted:
            if a[0] == 'add': do_add(g, model, a[1], points(a[2], dim, a[4], model), labels(a[1], a[3], a[4]), noise=noise_of(a[3], a[4], model))
            elif a[0] == 'prune': g.remove_without_reference()
            elif a[0] == 'prior': g.add_prior(method='exact', pts=points(a[1], dim, a[2], model))
        return predict_vec(g, query(dim, model))
    finally:
        np.random.set_state(st)


def predict_event(beh, m, model, dim, Q, accepted, rec, base, op):
    empty = not any(a[0] in ('add', 'prior') for a in accepted)
    if model == 'plin' and empty: return
    q = Q.copy()
    ret, p = call(predict_vec, m, q, op == 'plarge')
    args = int(np.array_equal(q, Q))
    obs = observe(m, model)
    f1 = f2 = want = []
    hasq = 0
    if beh['pred'] == 2:
        f1, f2, base = [0], [1, 1], dict(base, may=int(model == 'plin'))
    elif empty:
        hasq = 1
        k = kernel().cov(Q, Q) if op != 'plarge' else kernel().cov(Q, Q)
        mean = mean_fn(Q) if (model == 'gp' and beh.get('meanf')) else np.zeros(len(Q))
        want = vec(mean, 1e5) + vec(np.diagonal(k), 1e5)
    else:
        r1, f1 = call(fresh, beh, accepted, dim, model, 11)
        r2, f2 = call(fresh, beh, accepted, dim, model, 29)
        if r1 == 'raise' or r2 == 'raise':
            f1, f2 = [0], [1, 1]
    if ret == 'raise': p = []
    if ret == 'raise' and base['may']:
        rec.ev('op', ret=ret, args=args, obs=obs, **base); return
    tol = 5 if model == 'gp' else 1000
    rec.ev('pred', ret=ret, args=args, obs=obs, p=p, f1=f1, f2=f2, q=want, hasq=hasq, rnd=0, rtol=beh.get('rtol', 20),
           tol=tol, stol=tol // 3, **base)


def select_event(beh, m, model, a, Q, rec, base):
    C = np.concatenate([Q, Q[:3] + 0.3])
    prev = list(dict.fromkeys(a['prev']))
    prev = set(prev) if a['pcont'] == 'set' else prev
    pref = [None, 'pareto', [1, 3, 5], {0, 2, 4, 6}, 4, np.array([1, 2, 8]), 0][a['pref']]
    q, pr, pf = C.copy(), copy.deepcopy(prev), copy.deepcopy(pref)
    b = snap(q), snap(pr), snap(pf)
    ret, r = call(m.select, q, a['num'], pr, pf, bool(a['ns']))
    rec.ev('op', ret=ret, args=int((snap(q), snap(pr), snap(pf)) == b), obs=observe(m, model), **dict(base, may=1))

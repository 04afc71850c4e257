"""Predictions of fitted models: each point alone and in batches, and the posterior they come from."""
import numpy as np
import lop
from drv import call, num, vec, asint
from drv_estimates import kern, KIND

M = 1e6
NOISE = {'R': 0.01, 'R2': 0.05, 'RL': 0.02, 'RP': 0.02}


def mean_fn(X):
    X = np.asarray(X, dtype=float)
    return 0.25 * (X if X.ndim == 1 else np.sum(X, axis=1)) + 1.0


def coords(X, dim, mod):
    A = np.array(X, dtype=float).reshape(len(X), dim) / 2.0
    return A[:, 0] if dim == 1 and mod != 'plin' else A


def build(beh):
    np.random.seed(7)
    mod, dim = beh['model'], beh['dim']
    if mod == 'simple': return lop.SimplelestModel()
    if mod == 'pgp': m = lop.PreferenceGP(kern(beh['kern'], dim), use_hyper_optimization=beh.get('search', 0) > 0, hyperparam_only_probit=beh.get('search', 0) < 2); m.delta_f = [1e-7, 0.05, 0.5][beh.get('coarse', 0)]
    elif mod == 'plin': m = lop.PreferenceLinear(); m.delta_f = 1e-6
    else: m = lop.GP(kern(beh['kern'], dim), mean_func=mean_fn if beh['meanf'] else None)
    for a in beh['adds']:
        X = coords(a['X'], dim, mod)
        n = len(X)
        if mod == 'gp':
            y = np.array(a['L'], dtype=float) / 1000.0
            if a['noise'] == 0: m.add(X, y)
            elif a['noise'] == 1: m.add(X, y, training_sigma=0.1)
            else: m.add(X, y, training_sigma=[0.02 * (k + 1) for k in range(n)])
        elif a['kind'] == 'pref': m.add(X, [tuple(t) for t in a['L']])
        elif a['kind'] == 'ord': m.add(X, np.array(a['L']), type='ordinal')
        else: m.add(X, np.array(a['L'], dtype=float) / M, type='abs')
    return m


def run(beh, rec):
    if beh['calls']: batches(beh, rec)
    else:
        m = build(beh)
        f = {'pgp': laplace, 'gp': gp, 'plin': linear}[beh['model']]
        ret, e = call(f, beh, m)
        rec.ev({'pgp': 'laplace', 'gp': 'gp', 'plin': 'linear'}[beh['model']], ret='LinAlgError' if (ret, str(e)) == ('raise', 'LinAlgError') else ret,
               search=beh.get('search', 0), **(e if ret == 'ok' else {}))


def batches(beh, rec):
    mod, dim = beh['model'], beh['dim']
    m = build(beh)
    Q = coords(beh['Q'], dim, mod)

    def alone():
        out = [m.predict(Q[i:i + 1]) for i in range(len(Q))]
        return vec([o[0][0] for o in out], M), [] if out[0][1] is None else vec([o[1][0] for o in out], M)
    ret, ref = call(alone)
    calls = []
    for c in beh['calls']:
        q = Q[[i - 1 for i in c['idx']]]
        if beh['reuse'] and len(q) > 1:                    # the same array held other points when it was asked about before
            keep, q = q, np.roll(q, 1, axis=0)
            call(m.select_best if c['how'] == 'best' else m if c['how'] == 'call' else m.predict if c['how'] == 'predict' else m.predict_large, q)
            q[:] = keep
        o = dict(how=c['how'], idx=c['idx'], mu=[], var=[], best=-1)
        if c['how'] == 'best':
            o['ret'], b = call(m.select_best, q)
            if o['ret'] == 'ok': o['best'] = asint(b)
        elif c['how'] == 'call':
            o['ret'], r = call(m, q)
            if o['ret'] == 'ok': o['mu'] = vec(r, M)
        else:
            o['ret'], r = call(m.predict if c['how'] == 'predict' else m.predict_large, q)
            if o['ret'] == 'ok': o['mu'], o['var'] = vec(r[0], M), [] if r[1] is None else vec(r[1], M)
        calls.append(o)
    rec.ev('calls', ret=ret, refmu=ref[0] if ret == 'ok' else [], refvar=ref[1] if ret == 'ok' else [], calls=calls)


def cov(k, A, B): return np.array([[float(k(a, b)) for b in B] for a in A])


def mat(A): return [vec(r, M) for r in A]


def laplace(beh, m):
    Q = coords(beh['Q'], beh['dim'], 'pgp')
    noise = NOISE[beh['kern']]
    m.predict_large(Q[:1])
    mu, var = m.predict(Q)
    X, k, n = m.X_train, m.cov_func, len(m.X_train)
    K = cov(k, X, X) + noise * np.eye(n)
    ks, pp = cov(k, Q, X), cov(k, Q, Q) + noise * np.eye(len(Q))
    d = [p.derivatives(y, m.F) for p, y in zip(m.probits, m.y_train) if y is not None]
    W = sum(x[0] for x in d)
    q = []
    for i in range(len(Q)):
        z = np.linalg.solve(np.eye(n) + W @ K, W @ ks[i])
        q.append(dict(mu=num(mu[i], M), var=num(var[i], M), k=vec(ks[i], M), z=vec(z, M)))
    return dict(n=n, coarse=beh['coarse'], alpha=vec(np.linalg.solve(K, m.F), M), K=mat(K), F=vec(m.F, M), grads=[vec(x[1], M) for x in d], Ws=[mat(x[0]) for x in d], q=q, c=mat(m.cov), pp=mat(pp))


def gp(beh, m):
    Q = coords(beh['Q'], beh['dim'], 'gp')
    noise = NOISE[beh['kern']]
    mu, var = m.predict(Q)
    X, k, n = m.X_train, m.cov_func, len(m.X_train)
    sig, y = [], []
    for a in beh['adds']:
        l = len(a['X'])
        sig += [0.0005] * l if a['noise'] == 0 else [0.1] * l if a['noise'] == 1 else [0.02 * (i + 1) for i in range(l)]
        y += [v / 1000.0 for v in a['L']]
    K = cov(k, X, X) + noise * np.eye(n) + np.diag(sig)
    f = mean_fn if beh['meanf'] else (lambda x: np.zeros(len(x)))
    ks, pp = cov(k, Q, X), cov(k, Q, Q) + noise * np.eye(len(Q))
    y = np.array(y) - f(X)
    q = [dict(mu=num(mu[i], M), var=num(var[i], M), m=num(f(Q)[i], M), k=vec(ks[i], M), z=vec(np.linalg.solve(K, ks[i]), M)) for i in range(len(Q))]
    return dict(K=mat(K), alpha=vec(np.linalg.solve(K, y), M), y=vec(y, M), q=q, c=mat(m.cov), pp=mat(pp))


def linear(beh, m):
    Q = coords(beh['Q'], beh['dim'], 'plin')
    mu, _ = m.predict(Q)
    F = m.X_train @ m.w
    g = sum(p.derivatives(y, F)[1] for p, y in zip(m.probits, m.y_train) if y is not None)
    return dict(slopes=vec(m.X_train.T @ g, M))

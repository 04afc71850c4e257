"""How likely each candidate is the best, with scripted means and covariances, samples, and fitted models."""
import math, sys
import numpy as np
import lop
from lop.utilities.probability_utility import calc_cdf
from drv import call, num, vec
from drv_inform import fitted, Scripted, U


def run(beh, rec):
    for c in beh['cases']:
        {'cdf': cdf, 'best': best, 'fit': fit, 'linear': lin}[c['kind']](c, rec)


def cdf(c, rec):
    mu, C = np.array(c['mu']) / 4.0, np.array(c['C'], dtype=float)
    m2, C2 = mu.copy(), C.copy()
    ret, p = call(calc_cdf, mu, C, c['method'])
    rec.ev('cdf', ret=ret, method=c['method'], mu=c['mu'], C=c['C'], p=num(p, U) if ret == 'ok' else 0,
           args=int(np.array_equal(mu, m2) and np.array_equal(C, C2)))


class Summed:
    """Passes calls on and adds up what comes back."""
    def __init__(self, f): self.f, self.n, self.s = f, 0, 0.0
    def __call__(self, *a, **k):
        r = self.f(*a, **k)
        self.n += 1; self.s += r
        return r


def chances(mu, C, method):
    L = lop.BestLearner()
    m = fitted(L)
    m.cov = C.copy()
    X = np.arange(2.0 * len(mu)).reshape(-1, 2)
    keep = [mu.copy(), X.copy(), C.copy()]
    p = L.p_B_pref_gp(X, mu, cdf_method=method)
    same = all(np.array_equal(a, b) for a, b in zip(keep, (mu, X, m.cov)))
    return np.asarray(p), same


def best(c, rec):
    mu, C, t = np.array(c['mu']) / 4.0, np.array(c['C'], dtype=float), np.array(c['turn']) - 1
    n = len(mu)
    mod = sys.modules[lop.BestLearner.__mro__[1].__module__]
    up = mu.copy(); up[c['up'] - 1] += c['by'] / 4.0
    far_mu, far_C = np.r_[mu, np.min(mu) - 60.0], np.eye(n + 1)
    far_C[:n, :n] = C

    def work():
        one = Summed(mod.calc_cdf) if hasattr(mod, 'calc_cdf') else None
        if one: mod.calc_cdf = one
        try: p, same = chances(mu, C, c['method'])
        finally:
            if one: mod.calc_cdf = one.f
        raw = one.s if one and one.n == n else 0
        rest = [chances(*a, c['method'])[0] for a in ((mu[t], C[np.ix_(t, t)]), (mu + c['shift'] / 4.0, C), (mu * 2, C * 4), (up, C), (far_mu, far_C))]
        return p, same, raw, rest
    ret, r = call(work)
    if ret != 'ok': rec.ev('best', ret=ret); return
    p, same, raw, rest = r
    rec.ev('best', ret=ret, method=c['method'], mu=c['mu'], C=c['C'], turn=c['turn'], up=c['up'], p=vec(p, U), args=int(same), raw=num(raw, U),
           **{k: vec(v, U) for k, v in zip(('moved', 'shifted', 'scaled', 'raised', 'joined'), rest)})


def fit(c, rec):
    rnd = np.random.RandomState(c['seed'])
    L = lop.BestLearner()
    m = fitted(L)
    X, t = rnd.random_sample((c['n'], 2)), np.array(c['turn']) - 1

    def work(P):
        mu, var = m.predict(P)
        z = mu[:, None] - mu[None, :]
        s = np.sqrt(np.maximum(np.diagonal(m.cov)[:, None] + np.diagonal(m.cov)[None, :] - 2 * m.cov, 1e-12))
        return L.p_B_pref_gp(P, mu, cdf_method=c['method']), [[0.5 * math.erfc(-v / math.sqrt(2)) for v in r] for r in z / s]
    ret, a = call(work, X)
    ret2, b = call(work, X[t])
    ok = ret == ret2 == 'ok'
    rec.ev('fit', ret='ok' if ok else 'raise', method=c['method'], turn=c['turn'], p=vec(a[0], U) if ok else [], moved=vec(b[0], U) if ok else [],
           beats=[vec(r, U) for r in a[1]] if ok else [])


def lin(c, rec):
    W, X = np.array(c['W'], dtype=float) / 2.0, np.array(c['X'], dtype=float)
    L = lop.BestLearner()
    d = X.shape[1]
    m = lop.PreferenceLinear(active_learner=L)
    m.add(np.array([[0.1, 0.5, 0.3], [0.7, 0.2, 0.2], [0.4, 0.9, 0.6]])[:, :d], [(-1, 0, 1), (1, 0, 2), (-1, 2, 1)])
    mod = sys.modules[lop.BestLearner.__mro__[1].__module__]
    if not hasattr(mod, 'metropolis_hastings'): return
    asked = []

    class Noted(Scripted):
        def __call__(self, f, *a, **k):
            asked.append((f, k.get('dim', a[1] if len(a) > 1 else -1)))
            return super().__call__()
    script = Noted(W)
    keep, mod.metropolis_hastings = mod.metropolis_hastings, script
    try: ret, p = call(L.p_B_pref_linear, X, X @ np.ones(d))
    finally: mod.metropolis_hastings = keep
    if not script.used and ret == 'ok': return
    t = [0, 0]
    if ret == 'ok':
        w0, w1 = [np.array(f, dtype=float) / 4.0 for f in c['F']]
        f = asked[0][0]
        pairs = m.y_train[m.probit_idxs['relative_discrete']]
        own = lambda w: sum(math.log(0.5 * math.erfc(z / math.sqrt(2) * y)) for y, i, j in pairs for z in [((m.X_train[int(i)] - m.X_train[int(j)]) @ w) / (math.sqrt(2) * m.probits[0].sigma)])
        t = [num(float(f(w1)) - float(f(w0)), 1e3), num(own(w1) - own(w0), 1e3)]
    rec.ev('linear', ret=ret, W=c['W'], X=c['X'], p=vec(p, U) if ret == 'ok' else [], dim=int(asked[0][1]) if asked else -1, t=t)

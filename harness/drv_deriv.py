"""Derivatives of likelihoods, models and kernels next to the functions they are derivatives of."""
import numpy as np
import lop
from drv import call, num, vec
from drv_kernel import build, PRM

H = 1e-3


def slope(rec, of, f, x, g):
    """f: function of a vector, g: the derivative reported at x, one row per entry of x."""
    def work():
        x0 = np.array(x, dtype=float)
        # of a long vector only a few entries
        at = range(len(x0)) if len(x0) <= 12 else (0, 1, len(x0) // 2, len(x0) - 2, len(x0) - 1)
        f0 = np.asarray(f(x0), dtype=float)
        up, down = [], []
        for i in at:
            for out, s in ((up, H), (down, -H)):
                y = x0.copy(); y[i] += s
                out += vec(np.asarray(f(y), dtype=float) - f0, 1e9)
        return dict(g=vec(np.asarray(g(), dtype=float)[list(at)], 1e6), up=up, down=down)
    ret, e = call(work)
    rec.ev('slope', of=of, ret=ret, **(e if ret == 'ok' else {}))


def curv(rec, kind, of, f):
    ret, r = call(f)
    rec.ev('curv', kind=kind, of=of, ret=ret, **(dict(W=[vec(w, 1e6) for w in r[0]], g=vec(r[1], 1e6)) if ret == 'ok' else {}))


def hyper(p, f):
    """f as a function of the hyperparameters of p."""
    h = p.get_hyper().copy()

    def g(t):
        p.set_hyper(t)
        try: return f()
        finally: p.set_hyper(h)
    return h, g


def usual(p, y, F):
    """No rating so far from its value that the library says it uses the limit of the derivative instead."""
    from scipy.stats import norm
    b, f = np.hstack(([-np.inf], np.asarray(p.b, dtype=float)[1:-1], [np.inf])), np.asarray(F, dtype=float)[y[1]]
    return bool(np.all(norm.cdf((b[y[0]] - f) / p.sigma) - norm.cdf((b[y[0] - 1] - f) / p.sigma) > 1e-8))


def run(beh, rec):
    n = beh['n']
    F = np.array(beh['F']) / 20.0
    s = [v / 4.0 for v in beh['sig']]
    ys = [np.array(beh['pairs']), (np.array(beh['ord']), np.array(beh['oidx'])),
          (np.array(beh['abs']) / 1000.0, np.array(beh['aidx']))]
    lv = beh['lv']
    ys[1] = (np.minimum(ys[1][0], lv), ys[1][1])

    def probits():
        A = lop.AbsBoundProbit(s[2], float(beh['v'])); A.optimize_v_only = bool(beh['b'] == 4)
        return [lop.PreferenceProbit(s[0]), lop.OrdinalProbit(s[1], beh['b'] / 4.0, lv), A]
    ps = probits()
    for kind, p, y in zip(('pref', 'ord', 'abs'), ps, ys):
        if kind == 'ord' and not usual(p, y, F): continue
        slope(rec, 'log likelihood ' + kind, lambda f: p.log_likelihood(y, f), F, lambda: p.derivatives(y, F)[1])
        slope(rec, 'first derivative ' + kind, lambda f: p.derivatives(y, f)[1], F, lambda: -p.derivatives(y, F)[0])
        curv(rec, kind, 'second derivative ' + kind, lambda: p.derivatives(y, F)[:2])
        if kind == 'ord': continue                # (not given by the ratings)
        slope(rec, 'second derivative ' + kind, lambda f: p.derivatives(y, f)[0], F, lambda: p.calc_W_dF(y, F))
        h, g = hyper(p, lambda: p.log_likelihood(y, F))
        slope(rec, 'log likelihood by hyperparameter ' + kind, g, h, lambda: p.grad_hyper(y, F))
        h, g = hyper(p, lambda: p.derivatives(y, F)[0])
        slope(rec, 'second derivative by hyperparameter ' + kind, g, h, lambda: p.calc_W_dHyper(y, F))
        h, g = hyper(p, lambda: p.param_likli())
        slope(rec, 'prior ' + kind, g, h, lambda: p.grad_param_likli())
    # values far apart, on either side of the comparison
    p, y, W = ps[0], ys[0], F * 20
    slope(rec, 'log likelihood far pref', lambda f: p.log_likelihood(y, f), W, lambda: p.derivatives(y, W)[1])
    slope(rec, 'first derivative far pref', lambda f: p.derivatives(y, f)[1], W, lambda: -p.derivatives(y, W)[0])
    slope(rec, 'second derivative far pref', lambda f: p.derivatives(y, f)[0], W, lambda: p.calc_W_dF(y, W))
    # ratings far from the value
    for k, v in enumerate(beh['F'][:8]):
        v = int(v) * (1, 1, 10, 100)[(k + lv) % 4]
        O, one = lop.OrdinalProbit(s[1], beh['b'] / 4.0, lv), np.array([0])
        ret, r = call(lambda: [O.derivatives((np.array([j]), one), np.array([float(v)])) for j in range(1, lv + 1)])
        ok = ret == 'ok'
        rec.ev('far', of='far ratings', ret=ret, f=v, b=beh['b'], lv=lv, s=beh['sig'][1],
               g=[num(d[1][0] * s[1], 1e3) for d in r] if ok else [], w=[num(d[0][0, 0] * s[1] ** 2, 1e3) for d in r] if ok else [])
    # the models' own sums
    has = beh['has']
    X = np.array(beh['X']) / 2.0
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.7))
    m.probits = ps
    y = [v if k and (i != 1 or usual(ps[1], v, F)) else None for i, (v, k) in enumerate(zip(ys, has))]
    m.y_train, m.X_train = y, X
    slope(rec, 'model log likelihood', lambda f: m.log_likelyhood_training(f, y), F, lambda: m.derivatives(y, F)[1])
    slope(rec, 'model first derivative', lambda f: m.derivatives(y, f)[1], F, lambda: -m.derivatives(y, F)[0])
    slope(rec, 'model log likelihood in derivatives', lambda f: m.derivatives(y, f)[2], F, lambda: m.derivatives(y, F)[1])
    lin = lop.PreferenceLinear()
    w = np.array(beh['w']) / 20.0
    y = [v if k and (i != 1 or usual(ps[1], v, X @ w)) else None for i, (v, k) in enumerate(zip(ys, has))]
    lin.probits, lin.y_train, lin.X_train = ps, y, X
    slope(rec, 'linear log likelihood', lambda t: lin.loss_func(t), w, lambda: lin.derivatives(X, y, w)[1])
    slope(rec, 'linear first derivative', lambda t: lin.derivatives(X, y, t)[1], w, lambda: -lin.derivatives(X, y, w)[0])
    # kernels
    X = X[:5]
    kinds = [t for t in beh['tree'] if t in PRM]
    k, _ = build(beh['tree'], [q[:PRM[t]] for q, t in zip(beh['q'], kinds)], None, 0.01)
    th = k.get_param().copy()

    def at(f):
        def g(t):
            k.set_param(np.array(t))
            try: return f()
            finally: k.set_param(th)
        return g
    u, v = X[0], X[-1]
    slope(rec, 'kernel', at(lambda: k(u, v)), th, lambda: k.gradient(u, v))
    Y = X[1:] + 0.25
    slope(rec, 'kernel matrix', at(lambda: k.cov(X, Y)), th, lambda: np.array(k.cov_gradient(X, Y)))
    slope(rec, 'kernel of single numbers', at(lambda: k(u[:1], v[:1])), th, lambda: k.gradient(u[:1], v[:1])) if 'Z' not in kinds else None
    slope(rec, 'kernel prior', at(lambda: k.param_likli()), th, lambda: k.grad_param_likli())

"""Likelihoods of comparisons, ratings and scores."""
import numpy as np
import lop
from drv import call, num, vec
from drv_prefdata import snap
ONE, LOG = 1e8, 1e5


def run(beh, rec):
    for c in beh['cases']: one(c, rec)


def logof(p, log):
    """The log of a probability, which may be too small to be given with enough digits."""
    return np.log(p) if p > 1e-6 else float(log())


def tab(rows): return [vec(r, ONE) for r in rows]


def one(c, rec):
    u = c['unit'] / 10.0
    F = np.array(c['F'], dtype=float) * u
    n, b = len(F), snap(F)
    sigma = c['sigma'] / 10.0
    # comparisons
    P = lop.PreferenceProbit(sigma)
    if c['vec']: P = lop.PreferenceProbit(1.0); P.set_hyper([sigma])

    def table(sign): return [[P.likelihood(np.array([[sign, i, j]]), F)[0] for j in range(n)] for i in range(n)]
    ret, f = call(table, -1)
    ret2, s = call(table, 1)
    ret3, t = call(P.likelihood_all_pairs, F)
    ok = 'ok' if (ret, ret2, ret3) == ('ok', 'ok', 'ok') else 'raise'
    rec.ev('pref', ret=ok, F=c['F'], first=tab(f) if ok == 'ok' else [], second=tab(s) if ok == 'ok' else [],
           table=tab(t) if ok == 'ok' else [], args=int(snap(F) == b))
    # log likelihoods of the same comparisons, which tell apart what is too unlikely for the table
    ret, ll = call(lambda: [[float(P.log_likelihood(np.array([[-1, i, j]]), F)) for j in range(n)] for i in range(n)])
    rec.ev('logs', ret=ret, F=c['F'], ll=[vec(r, 1e3) for r in ll] if ret == 'ok' else [], args=int(snap(F) == b))
    # ratings
    L = c['n']
    bb = c['b'] / 10.0
    breaks = np.cumsum(np.r_[-0.3, 0.2 + 0.1 * np.arange(L - 2)]) if c['vec'] else bb
    O = lop.OrdinalProbit(sigma, breaks, L)

    def ratings(): return [[float(O.likelihood((np.array([r]), np.array([i])), F)) for r in range(1, L + 1)] for i in range(n)]
    ret, rat = call(ratings)
    rl, at, upto = [], [], []
    if ret == 'ok': ret, rl = call(lambda: [[float(O.log_likelihood((np.array([r]), np.array([i])), F)) for r in range(1, L + 1)] for i in range(n)])
    if ret == 'ok' and not c['vec'] and L > 2:
        at = [bb * j / (L - 2) for j in range(L - 1)]
        ret, upto = call(lambda: [sum(float(O.likelihood((np.array([r]), np.array([0])), np.array([f]))) for r in range(1, j + 2)) for j, f in enumerate(at)])
    low = call(O.likelihood, (np.array([0]), np.array([0])), F)[0]
    rec.ev('ord', ret=ret, F=c['F'], rat=tab(rat) if ret == 'ok' else [],
           rl=[vec(r, 1e3) for r in rl] if ret == 'ok' else [], b=c['b'], lv=L, at=vec(at, 1e4), upto=vec(upto, ONE) if ret == 'ok' else [], low=int(low == 'raise'), args=int(snap(F) == b))
    # scores
    A = lop.AbsBoundProbit(sigma=max(sigma, 0.5), v=c['v'] / 10.0)

    def scores(): return [[float(A.log_likelihood((np.array([k / 10.0]), np.array([i])), F)) for k in range(1, 10)] for i in range(n)]
    ret, sc = call(scores)
    ml = np.clip(np.abs(F) / (max(sigma, 0.5)), 0, None)
    if ret == 'ok' and np.max(ml) < 6:
        rec.ev('abs', ret=ret, F=c['F'], sc=[vec(r, LOG) for r in sc], args=int(snap(F) == b))
    # sums over lists of labels
    yp = np.array([list(p) for p in c['pairs']], dtype=int).reshape(-1, 3)
    keep = [p for p in yp if p[1] != p[2]]
    yp = np.array(keep, dtype=int).reshape(-1, 3)
    yo = (np.array([o[0] for o in c['ords']], dtype=int), np.array([o[1] for o in c['ords']], dtype=int))
    ya = (np.array([a[0] / 10.0 for a in c['abss']]), np.array([a[1] for a in c['abss']], dtype=int))
    if c['big'] == 0 and len(yo[0]):
        yo = (np.tile(yo[0], 120), np.tile(yo[1], 120))
    if c['big'] == 1 and len(yp): yp = np.tile(yp, (60, 1))
    small = np.max(np.abs(F)) / sigma < 8
    if not small: return
    parts = dict(
        pref=[np.log(P.likelihood(yp[k:k + 1], F)[0]) for k in range(len(yp))],
        ord=[logof(float(O.likelihood((yo[0][k:k + 1], yo[1][k:k + 1]), F)), lambda: O.log_likelihood((yo[0][k:k + 1], yo[1][k:k + 1]), F)) for k in range(len(yo[0]))],
        abs=[float(A.log_likelihood((ya[0][k:k + 1], ya[1][k:k + 1]), F)) for k in range(len(ya[0]))])
    if not all(np.all(np.isfinite(v)) and np.sum(np.abs(v)) < 5000 for v in parts.values()): return
    for name, pr, y in (('pref', P, yp), ('ord', O, yo), ('abs', A, ya)):
        if not len(parts[name]): continue
        ret, t = call(pr.log_likelihood, y, F)
        d = t
        uniq = name == 'pref' or len(set(y[1])) == len(y[1])
        if uniq:
            r2, dd = call(pr.derivatives, y, F)
            d = dd[2] if r2 == 'ok' else np.nan
        rec.ev('sum', ret=ret, total=num(t, LOG) if ret == 'ok' else 0, parts=vec(parts[name], LOG), deriv=num(d, LOG) if ret == 'ok' else 0)
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
    m.probits[m.probit_idxs['relative_discrete']] = P
    m.probits[m.probit_idxs['ordinal']] = O
    m.probits[m.probit_idxs['abs']] = A
    Y = [yp if len(yp) else None, yo if len(yo[0]) else None, ya if len(ya[0]) else None]
    order = [None] * 3
    for k, kind in enumerate(('relative_discrete', 'ordinal', 'abs')): order[m.probit_idxs[kind]] = Y[k]
    allp = [v for k, nm in enumerate(('pref', 'ord', 'abs')) for v in parts[nm] if Y[k] is not None]
    ret, t = call(m.log_likelyhood_training, F, order)
    rec.ev('sum', ret=ret, total=num(t, LOG) if ret == 'ok' else 0, parts=vec(allp, LOG), deriv=num(t, LOG) if ret == 'ok' else 0)
    if all(len(set(y[1])) == len(y[1]) for y in (yo, ya)):
        # the total that comes with the derivatives of a model
        ret, d = call(m.derivatives, order, F)
        rec.ev('sum', ret=ret, total=num(t, LOG), parts=vec(allp, LOG), deriv=num(d[2], LOG) if ret == 'ok' else 0)
        m2 = lop.PreferenceLinear()
        m2.probits = m.probits
        X2 = np.column_stack([F, np.ones(n)])
        m2.X_train, m2.y_train = X2, order
        ret, d = call(lambda: (m2.derivatives(X2, order, np.array([1.0, 0.0]))[2], m2.loss_func(np.array([1.0, 0.0]))))
        rec.ev('sum', ret=ret, total=num(d[1], LOG) if ret == 'ok' else 0, parts=vec(allp, LOG), deriv=num(d[0], LOG) if ret == 'ok' else 0)
    m.X_train, m.y_train = np.arange(n, dtype=float), order
    ret, t = call(m.log_likelyhood_training, F)
    rec.ev('sum', ret=ret, total=num(t, LOG) if ret == 'ok' else 0, parts=vec(allp, LOG), deriv=num(t, LOG) if ret == 'ok' else 0)

"""What the information-driven learners choose, with scripted samples."""
import math, sys
import numpy as np
import scipy.stats as st
import lop
from drv import call, num, vec, asint
from drv_select import StubGP

U = 1e4


def softmax(x):
    x = np.asarray(x, dtype=float)
    e = np.exp(x - np.max(x, axis=-1, keepdims=True))
    return e / np.sum(e, axis=-1, keepdims=True)


def rows(A, scale=U): return [vec(r, scale) for r in A]


def run(beh, rec):
    for c in beh['cases']:
        {'mi': mi, 'gv': gv, 'acq': acq, 'align': align, 'rep': rep, 'abs': rate, 'bayes': bayes}[c['kind']](c, rec)


def spy(L, name, out):
    inner = getattr(L, name)
    def f(candidate_pts, mu, data, indicies, prev_selection, *a, **k):
        off, prev = sorted(asint(i) for i in indicies), sorted(asint(i) for i in prev_selection)
        got = inner(candidate_pts, mu, data, indicies, prev_selection, *a, **k)
        out.append((off, prev, [asint(i) for i in got] if isinstance(got, (tuple, list, np.ndarray)) and np.size(got) > 1 else [asint(got)], L.sel_metric))
        return got
    setattr(L, name, f)


def choose(L, m, c, cand, *names, other=None):
    """The selection asked for, sometimes after another one among candidates that are judged differently."""
    out = []
    if c.get('earlier') and other:
        back = other()
        call(m.select, cand, 2)
        back()
    for n in names: spy(L, n, out)
    ret, r = call(m.select, cand, c['k'], list(c['prev']), list(c['pref']))
    left = set(range(c['n'])) - set(c['prev'])
    return ('ok' if ret == 'ok' or len(left) < c['k'] else 'raise'), out


class Scripted:
    """Stands in for a sampler and says whether it was asked."""
    def __init__(self, W): self.W, self.used = W, False
    def __call__(self, *a, **k):
        self.used = True
        return self.W.copy()


def linear(L, n):
    m = lop.PreferenceLinear(active_learner=L)
    X = np.eye(n) * 0.5 + 0.1 * np.arange(n)
    np.random.seed(3)
    m.add(X, [(-1, 0, 1), (1, 0, 2), (-1, 1, 2), (1, 1, 0)])
    return m


def mi(c, rec):
    n, M = c['n'], c['M']
    W = np.array(c['W'][:M], dtype=float)[:, :n] * c['scale'] / 40.0
    L = lop.MutualInfoLearner(); L.M = M
    for q in c['gains']:
        ret, g = call(L.calc_info_gain, list(q), W)
        rec.ev('gain', ret=ret, rows=rows(softmax(L.peakiness * W[:, q])), got=num(g, U) if ret == 'ok' else 0, size=len(q))
    script = Scripted(W)
    if c['linear']:
        mod = sys.modules[type(L).__module__]
        if not hasattr(mod, 'metropolis_hastings'): return
        keep, mod.metropolis_hastings = mod.metropolis_hastings, script
        m, cand = linear(L, n), np.eye(n)
    else:
        keep, np.random.multivariate_normal = np.random.multivariate_normal, script
        m, cand = StubGP(L), np.arange(2 * n, dtype=float).reshape(n, 2)
        m.script([0] * n, [1] * n)
    def other():
        script.W = -np.roll(W, 1, axis=1)
        def back(): script.W = W
        return back
    try: ret, out = choose(L, m, c, cand, 'select_greedy', other=other)
    finally:
        if c['linear']: mod.metropolis_hastings = keep
        else: np.random.multivariate_normal = keep
    if ret != 'ok': rec.ev('mi', ret=ret)
    if not script.used: return
    for off, prev, got, score in out:
        rec.ev('mi', ret='ok', offered=off, got=got[0], score=num(score, U), rows=[rows(softmax(L.peakiness * W[:, prev + [i]])) for i in off])


def gv(c, rec):
    n = c['n']
    L = lop.GV_UCBLearner(c['al'] / 2.0)
    if c['linear']:
        m, cand = linear(L, n), np.array(c['A'], dtype=float)[:, :1] * np.ones((1, n)) + np.eye(n)[:, ::-1] * (c['al'] % 3)
        np.random.seed(c['al'])
        ret, out = choose(L, m, dict(c, k=min(4, n)), cand, 'select_greedy')
        if ret != 'ok': rec.ev('finite', ret=ret)
        for off, prev, got, score in out: rec.ev('finite', ret='ok', offered=off, got=got[0], score=num(score, 1))
        return
    A = np.array(c['A'])
    C = A @ A.T

    class Joint(StubGP):
        def predict(self, X):
            r = super().predict(X); self.cov = C[:len(X), :len(X)].astype(float); return r[0], np.diagonal(self.cov).copy()
    m = Joint(L); m.script(c['mu'], np.zeros(n))
    def other():
        m.script(c['mu'][::-1], np.zeros(n))
        return lambda: m.script(c['mu'], np.zeros(n))
    ret, out = choose(L, m, c, np.arange(2 * n, dtype=float).reshape(n, 2), 'select_greedy', other=other)
    if ret != 'ok': rec.ev('gv', ret=ret)
    for off, prev, got, score in out:
        if len(prev) > 2: continue
        rec.ev('gv', ret='ok', mu=c['mu'], C=[[int(v) for v in r] for r in C], al=c['al'], prev=prev, offered=off, got=got[0], score=num(score, 100))


def fitted(L):
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.8), active_learner=L)
    X = np.array([[0.1, 0.2], [0.9, 0.4], [0.5, 0.8], [0.3, 0.3], [0.7, 0.9], [0.2, 0.6]])
    m.add(X, [(-1, 0, 1), (1, 0, 2), (-1, 4, 3), (1, 5, 1)])
    return m


def beats(W, s):
    Z = (W[:, :, None] - W[:, None, :]) / (math.sqrt(2) * s)
    return [rows(0.5 * st_erfc(-z / math.sqrt(2))) for z in Z]


def st_erfc(z): return np.vectorize(math.erfc)(z)


def aligner(fn, **kw): return lop.AcquisitionSelection(alignment_f=fn, rep_Q_data={'num_pts': 6, 'num_Q': 6}, **kw)


def acq(c, rec):
    n, M = c['n'], c['M']
    W = np.array(c['W'][:M], dtype=float) * c['scale'] / 10.0
    R = np.array(c['rep'][:M], dtype=float) / 10.0
    L = aligner(c['f'], M=M)
    m = fitted(L)
    m.probits[0].set_sigma(c['sigma'] / 10.0)
    f = call(L.alignment, R, np.array([[0, 1]]))
    if f[0] != 'ok': rec.ev('acq', ret='raise'); return
    def other():
        L.set_samples(R[::-1].copy(), -np.roll(W, 1, axis=1))
        return lambda: L.set_samples(R, W)
    L.set_samples(R, W)
    ret, out = choose(L, m, c, np.arange(2 * n, dtype=float).reshape(n, 2) / 10, 'select_greedy', 'select_pair', other=other)
    if ret != 'ok': rec.ev('acq', ret=ret)
    pm = beats(W, c['sigma'] / 10.0)
    for off, prev, got, score in out:
        if len(got) == 1 and not prev: continue            # a single candidate tells nothing alone
        rec.ev('acq', ret='ok', exact=int(c['scale'] > 1), pm=pm, f=rows(f[1]), prev=prev, offered=off, got=got, score=num(score, U))


def align(c, rec):
    M, fn = c['M'], c['f']
    A, B = (np.array(c[k], dtype=float) * (100.0 if c['big'] else 0.1) for k in ('rep', 'other'))
    L = aligner(fn, M=M)
    m = fitted(L)
    m.probits[0].set_sigma(1.0)
    Q = np.array(c['Q'])
    kept = A.copy()
    ret, g = call(L.alignment, A, Q)
    h = back = []
    if ret == 'ok' and fn in ('epic', 'spearman'):
        ret, h = call(L.alignment_between, A, B)
        if ret == 'ok': ret, back = call(L.alignment_between, B, A)
    sc = 1e3 if fn == 'loglikelihood' else U
    rec.ev('align', ret=ret if np.array_equal(A, kept) else 'raise', fn=fn, big=c['big'], rep=c['rep'], other=c['other'], soft=rows(softmax(A)),
           pm=beats(A, 1.0) if fn == 'loglikelihood' else [], Q=c['Q'],
           **{k: rows(v, sc) if ret == 'ok' else [] for k, v in (('g', g), ('h', h), ('back', back))})


def rep(c, rec):
    L = lop.AcquisitionSelection(rep_Q_data={'num_pts': c['pts'], 'num_Q': c['num']})
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.8), active_learner=L)
    P = np.random.RandomState(c['num'] + c['train']).random_sample((c['train'] + c['n'], 2))
    if c['dim'] == 1: P = P[:, 0]
    c = dict(c, file=c['file'] if c['file'] >= max(2, c['k']) else 0)     # (there must be a query of this size in each group)
    if c['file']:
        P = np.random.RandomState(c['file']).random_sample((10 * c['file'], 2))
        np.save('representative.npy', P)
        L.rep_Q_method, L.rep_Q_data = 'stable', dict(filename='representative.npy')
    T, C = P[:c['train']], P[c['train']:]
    if c['train']: m.add(T, [(-1, 0, 1)])
    L.num_alts = c['k']
    ret, r = call(L.get_representative_Q, C)
    none = int(ret == 'ok' and r[0] is None)
    X, Q = [], []
    if ret == 'ok' and not none:
        X = [next((i for i, p in enumerate(P) if np.array_equal(p, x)), -1) for x in r[0]]
        Q = [[asint(i) for i in q] for q in r[1]]
    rec.ev('rep', ret=ret, none=none, X=X, Q=Q, **{k: c[k] for k in ('train', 'n', 'pts', 'num', 'k', 'file')})


def rate(c, rec):
    n, M = c['n'], c['M']
    W, R = np.array(c['W'][:M], dtype=float) / 10.0, np.array(c['rep'][:M], dtype=float) / 10.0
    L = lop.AbsAcquisition(M=M, alignment_f=c['f'], rep_Q_data={'num_pts': 6, 'num_Q': 6})
    m = fitted(L)
    L.num_alts = 1
    f = L.alignment(R, np.array([[0, 1]]))
    L.set_samples(R, W)
    C = np.arange(2 * n, dtype=float).reshape(n, 2) / 10
    ret, got = call(L.select_greedy, C, np.zeros(n), np.zeros(n), set(c['off']), set())
    x, w = np.polynomial.legendre.leggauss(60)
    x, w = 0.0001 + 0.9998 * (x + 1) / 2, 0.9998 * w / 2
    p = m.probits[m.probit_idxs['abs']]
    a = st.norm.cdf(W / (math.sqrt(2) * p.sigma)) * p.v
    dens = [[vec(st.beta.pdf(q, a[:, i], p.v - a[:, i]), 100) for q in x] for i in c['off']]
    rec.ev('abs', ret=ret, f=rows(f), dens=dens, weight=vec(w, U), offered=c['off'], got=asint(got), score=num(L.sel_metric, U) if ret == 'ok' else 0)


def bayes(c, rec):
    n = c['n']
    mu = np.array(c['mu']) * c['scale'] / 10.0
    pb = np.array(c['pb'], dtype=float) + (sum(c['pb']) == 0)
    pb = pb / np.sum(pb)
    L = lop.BayesInfoGain(p_q_B_method=c['m'])
    m = fitted(L)
    m.probits[0].set_sigma(1.0)
    used, now = [], [mu, pb]
    def best(*a, **k):
        used.append(1)
        return now[1].copy()
    L.p_B_pref_gp = best
    m.predict = lambda X: (now[0].copy(), np.ones(n))
    def other():
        now[:] = [-np.roll(mu, 1), pb[::-1]]
        def back(): now[:] = [mu, pb]
        return back
    ret, out = choose(L, m, c, np.arange(2 * n, dtype=float).reshape(n, 2) / 10, 'select_greedy', 'select_pair', other=other)
    if ret != 'ok': rec.ev('bayes', ret=ret)
    if not used: return
    for off, prev, got, score in out:
        if len(got) == 1 and not prev: continue            # a single candidate tells nothing alone
        rec.ev('bayes', ret='ok', m=c['m'], pm=beats(mu[None], 1.0), pb=vec(pb, U), prev=prev, offered=off, got=got, score=num(score, U / math.log(2)))

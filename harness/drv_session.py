"""Active learning sessions: select a query, ask a user, add the answer."""
import random
import numpy as np
import lop
import learners
from drv import call, asint, vec, num
from drv_prefdata import half


def run(beh, rec):
    np.random.seed(beh['seed']); random.seed(beh['seed'])
    dim, mod = beh['dim'], beh['model']
    w = np.array(beh['w'], dtype=float)
    f = lambda P, data=None: np.asarray(P, dtype=float).reshape(-1) * w[0] if dim == 1 else np.asarray(P, dtype=float) @ w
    L = learners.make(beh['learner'])
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.9, sigma_noise=0.01), active_learner=L) if mod == 'pgp' else lop.PreferenceLinear(active_learner=L)
    user = dict(perfect=lop.PerfectUser, human=lop.HumanChoiceUser, human2=lop.HumanChoiceUser2)[beh['user']](f)
    rec.ev('start', mixed=beh['mixed'], perfect=int(beh['user'] == 'perfect'))

    def pts(C):
        A = np.array(C, dtype=float).reshape(len(C), dim) / 2.0
        return A[:, 0] if dim == 1 else A

    def held():
        o = dict(pts=[], prefs=[], rats=[])
        if m.X_train is not None: o['pts'] = [[half(c) for c in np.atleast_1d(x)] for x in m.X_train]
        y, ix = m.y_train, m.probit_idxs
        if y[ix['relative_discrete']] is not None: o['prefs'] = [[asint(v) for v in r] for r in np.asarray(y[ix['relative_discrete']])]
        if y[ix['abs']] is not None: o['rats'] = [[num(a, 1e6), asint(b)] for a, b in zip(*y[ix['abs']])]
        return o

    def add(items, X, labels=(), ratings=(), kind='pref', refuse=0):
        A = X.copy()
        if kind == 'abs': ret, _ = call(m.add, A, np.array(ratings, dtype=float), type='abs')
        else: ret, _ = call(m.add, A, list(labels))
        rec.ev('add', kind=kind, items=items, labels=[[int(v) for v in t] for t in labels], ratings=vec(ratings, 1e6), refuse=refuse, ret=ret, held=held())

    def start():
        # a first comparison, so that there is something to fit
        C = beh['poolc'][:2]
        if np.array_equal(f(pts(C)[:1]), f(pts(C)[1:])): C = [C[0], [C[0][0] + 1] + C[0][1:]]
        X = pts(C)
        add(C, X, [tuple(int(v) for v in t) for t in lop.generate_fake_pairs(X, f, 0)])
    if beh['first']: start()
    asked = []
    for a in beh['acts']:
        op = a['op']
        C = beh['poolc'] if beh['pool'] else a['cands']
        X = pts(C)
        if op == 'reset':
            ret, _ = call(m.reset); rec.ev('reset', ret=ret, held=held())
            if beh['first']: start()
            continue
        if op == 'predict':
            ret, _ = call(m.predict, X); rec.ev('predict', ret=ret, held=held()); continue
        if op == 'show':
            add(C[:1], X[:1]); continue
        n = 1 if op == 'rate' and beh['learner'] not in ('acq', 'acqsp', 'mi', 'gvucb') and not beh['mixed'] else a['n']
        n = min(n, len(C))
        if beh['learner'] == 'eqcheck': n = 2        # pairs only
        prev = list(asked) if beh['pool'] else []
        if len(C) - len(prev) < n + 1: prev, asked = [], []
        ret, sel = call(m.select, X, n, prev)
        if ret == 'ok' and beh['learner'] == 'align': sel = sel[0]       # this one also returns its scores
        sel = [asint(v) for v in np.asarray(sel).reshape(-1)] if ret == 'ok' else []
        rec.ev('ask', n=n, ncand=len(C), prev=prev, sel=sel, ret=ret, held=held())
        if ret != 'ok' or not sel or not all(0 <= k < len(C) for k in sel): return
        asked += sel
        items, Q = [C[k] for k in sel], X[sel]
        val = [int(sum(c * v for c, v in zip(beh['w'], x))) for x in items]
        if len(sel) == 1:
            ret, r = call(user.rate, Q.copy())
            r = np.asarray(r, dtype=float).reshape(-1) if ret == 'ok' else []
            rec.ev('answer', kind='abs', m=1, val=val, labels=[], ratings=vec(r, 1e6), ret=ret)
            if ret != 'ok': return
            if op == 'bad' and a['bad'] != 0 and a['bad'] != 1: add(items, Q, ratings=[a['bad'] * 1.0], kind='abs', refuse=1)
            add(items, Q, ratings=r, kind='abs')
        else:
            kind = 'rank' if op == 'rank' else 'choose'
            ret, p = call(user.choose_pairs, Q.copy()) if kind == 'choose' else call(lop.generate_ranking_pairs, Q.copy(), f)
            p = [tuple(int(v) for v in t) for t in p] if ret == 'ok' else []
            rec.ev('answer', kind=kind, m=len(sel), val=val, labels=[list(t) for t in p], ratings=[], ret=ret)
            if ret != 'ok': return
            if op == 'bad': add(items[:1], Q[:1], ratings=[1.5 if a['bad'] > 0 else -0.2], kind='abs', refuse=1)
            add(items, Q, p)

"""Folds and label restriction."""
import numpy as np
from drv import call, num, asint
from lop.utilities.training_utility import k_fold_x_y, get_y_with_idx
from drv_prefdata import snap


def labels(c, has):
    y = [None, None, None]
    if has[0]: y[0] = np.array([list(t) for t in c['pairs']], dtype=int).reshape(-1, 3)
    if has[1]: y[1] = (np.array([t[0] for t in c['ords']], dtype=int), np.array([t[1] for t in c['ords']], dtype=int))
    if has[2]: y[2] = (np.array([t[0] / 10.0 for t in c['abss']]), np.array([t[1] for t in c['abss']], dtype=int))
    return y


def run(beh, rec):
    for c in beh['cases']:
        one(c, rec)


def one(c, rec):
    n, has = c['n'], c['has']
    if has[0] and not c['pairs']: has = [0] + has[1:]
    X = np.arange(n * max(1, c['dim']), dtype=float)
    if c['dim']: X = X.reshape(n, c['dim'])
    y = labels(c, has)
    b = snap(X), [snap(v) for v in y]
    for rep in range(2):
        ret, f = call(k_fold_x_y, X, y, c['k'])
        folds = [] if f is None or ret != 'ok' else [[asint(i) for i in s] for s in f]
        rec.ev('fold', n=n, k=c['k'], ret=ret, none=int(f is None), folds=folds,
               args=int((snap(X), [snap(v) for v in y]) == b))
    lists = [c['idx']] + folds
    for k, idx in enumerate(lists):
        g = np.array(idx, dtype=int) if c['ic'] == 'array' else tuple(idx) if c['ic'] == 'tuple' else list(idx)
        ret, r = call(get_y_with_idx, y, g)
        rp, ro, ra = [], [], []
        if ret == 'ok':
            if r[0] is not None: rp = [[asint(v) for v in t] for t in np.asarray(r[0])]
            if r[1] is not None: ro = [[num(a, 1), asint(i)] for a, i in zip(*r[1])] + ([] if len(r[1][0]) == len(r[1][1]) else [[-9, -9]])
            if r[2] is not None: ra = [[num(a, 10), asint(i)] for a, i in zip(*r[2])] + ([] if len(r[2][0]) == len(r[2][1]) else [[-9, -9]])
        rec.ev('restrict', idx=list(idx), pairs=c['pairs'] if has[0] else [], ords=c['ords'] if has[1] else [],
               abss=c['abss'] if has[2] else [], ret=ret, rp=rp, ro=ro, ra=ra,
               args=int((snap(X), [snap(v) for v in y]) == b and list(g) == list(idx)))

import numpy as np
from drv import call, asint
from drv_prefdata import snap
from lop.utilities.pareto import get_pareto


def array(c):
    n, d, f = len(c['pts']), c['dim'], c['form']
    A = np.array(c['pts'], dtype=float).reshape(n, d)
    if f == 0: return A
    if f == 1: return A.astype(int)
    if f == 2: return A * 1e-9          # the order, not the size, matters
    if f == 3: return np.asfortranarray(A * 1e12)
    if f == 4:
        B = np.zeros((2 * n, d)); B[::2] = A + 0.5; return B[::2]
    if f == 6: return (A - A.min()).astype(np.uint8) if A.size else A.astype(np.uint8)
    if f == 7:
        B = A.copy()
        if A.size and A.max() > A.min(): B[A == A.max()] = np.inf; B[A == A.min()] = -np.inf
        return B
    if f == 8: return A.astype(np.int64) * 2 ** 60
    return -1e6 + A.astype(np.float32).astype(float) / 3


def run(beh, rec):
    for c in beh['cases']:
        A = array(c); b = snap(A)
        ret, r = call(get_pareto, A)
        ret2, m = call(get_pareto, A, True) if ret == 'ok' else ('raise', None)
        ok = ret == 'ok' and ret2 == 'ok'
        rec.ev('front', pts=c['pts'], ret='ok' if ok else 'raise', args=int(snap(A) == b),
               idx=[asint(i) for i in r] if ok else [],
               mask=[int(bool(v)) for v in m] if ok and np.asarray(m).dtype == bool else [])

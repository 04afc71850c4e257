"""Kernel expressions: values, matrices and gradients."""
import numpy as np
import lop
from drv import call, num, vec
from drv_prefdata import snap

M6 = 1e6
PRM = {'R': 2, 'L': 3, 'P': 3, 'Z': 2, 'O': 2}
LIMIT = 1e9


def mat(A):
    A = np.asarray(A, dtype=float)
    return [vec(r, M6) for r in A] if A.ndim == 2 else [[0]]


class Own(lop.KernelFunc):
    """A kernel somebody wrote, that says its value and gradient at two points and leaves the rest to the base."""
    def __init__(self, a, b): self.set_param([a, b])
    def set_param(self, theta): self.a, self.b = theta[0], theta[1]
    def get_param(self): return np.array([self.a, self.b])
    def __call__(self, u, v): return self.b ** 2 + self.a ** 2 * np.sum(u * v)
    def gradient(self, u, v): return np.array([2 * self.a * np.sum(u * v), 2 * self.b])
    def param_likli(self): return -self.a ** 2 - 2 * self.b
    def grad_param_likli(self): return np.array([-2 * self.a, -2.0])
    def __len__(self): return 2


def leaf(k, q, zp, noise):
    p = [v / 4.0 for v in q]
    if k == 'O': return Own(*p)
    if k == 'R': return lop.RBF_kern(*p, sigma_noise=noise)
    if k == 'Z': return lop.RBF_kern_zeroed(*p, zero_pt=zp, sigma_noise=noise)
    return (lop.LinearKern if k == 'L' else lop.PeriodicKern)(*p)


def build(tree, qs, zp, noise):
    leaves, it, pit = [], iter(tree), iter(qs)

    def go():
        t = next(it)
        if t in '+*':
            a = go(); b = go()
            return a + b if t == '+' else a * b
        k = leaf(t, next(pit)[:PRM[t]], zp, noise)
        leaves.append(k)
        return k
    return go(), leaves


def points(P, dim, cont):
    A = np.array(P, dtype=float) / 2.0
    if cont == 1 and np.all(A == np.floor(A)): A = A.astype(int)
    if cont == 2: A = np.asfortranarray(A)
    if cont == 3:
        big = np.zeros((2 * len(A), dim)); big[::2] = A; A = big[::2]
    return A[:, 0] if dim == 1 else A


def run(beh, rec):
    tree, dim = beh['tree'], beh['dim']
    kinds = [t for t in tree if t in PRM]
    if len(kinds) > 8: return
    noise = beh['noise'] * 0.01
    zp = np.array(beh['zp'], dtype=float) / 2.0 if beh['zgiven'] else None
    kern = None
    for n, a in enumerate(beh['acts']):
        qs = [q[:PRM[k]] for q, k in zip(a['q'], kinds)]
        if kern is None: kern, leaves = build(tree, qs, zp, noise)
        else: kern.set_param(np.array([v / 4.0 for q in qs for v in q]))
        P, Q = a['X'], a['Y']
        if a['zero']: P = [beh['zp']]
        if a['same'] in (1, 2): Q = P
        if a['same'] == 3: Q = P[::-1]
        if a['same'] == 4: Q = P[:1]
        if a['same'] == 5: Q = [P[0]] * len(P)
        X = points(P, dim, a['cont']); Y = X if a['same'] == 1 else points(Q, dim, (a['cont'] + a['same']) % 4)
        keep = X.copy()                                          # the same array held other points when it was asked about before
        X += 1
        call(lambda: (kern.cov(X, Y), kern(X[0], Y[0]), kern.cov_gradient(X, Y)))
        X[...] = keep
        b = snap(X), snap(Y)
        def work():
            lv, prm = leaves, [len(k) for k in leaves]
            e = dict(call=mat([[kern(x, y) for y in Y] for x in X]), back=mat([[kern(y, x) for x in X] for y in Y]),
                     cov=mat(kern.cov(X, Y)), covb=mat(kern.cov(Y, X)),
                     leafcall=[mat([[k(x, y) for y in Y] for x in X]) for k in lv], leafcov=[mat(k.cov(X, Y)) for k in lv], n=len(kern))
            i, j = n % len(X), (n + 1) % len(Y)
            pairs = sorted({(0, 0), (i, j)})
            cg, lcg = kern.cov_gradient(X, Y), [k.cov_gradient(X, Y) for k in lv]
            at = lambda G, i, j: vec([g[i, j] for g in G], M6)
            e.update(gij=[[i + 1, j + 1] for i, j in pairs], grad=[vec(kern.gradient(X[i], Y[j]), M6) for i, j in pairs],
                     lgrad=[[vec(k.gradient(X[i], Y[j]), M6) for k in lv] for i, j in pairs],
                     cgrad=[at(cg, i, j) for i, j in pairs], lcgrad=[[at(g, i, j) for g in lcg] for i, j in pairs],
                     lik=num(kern.param_likli(), M6), llik=[num(k.param_likli(), M6) for k in lv],
                     glik=vec(kern.grad_param_likli(), M6), lglik=[vec(k.grad_param_likli(), M6) for k in lv])
            e['stable'] = int(mat(kern.cov(X, Y)) == e['cov'])
            return e
        ret, e = call(work)
        rec.ev('kern', tree=tree, q=qs, z=beh['zp'], X=P, Y=Q, same=int(P == Q), noise=[int(round(noise * M6)) if k in 'RZ' else 0 for k in kinds],
               ret=ret, args=int((snap(X), snap(Y)) == b), **(e if ret == 'ok' else {}))

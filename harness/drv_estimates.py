"""Fits a model to each description of the evidence and asks for the estimates."""
import numpy as np
import lop
from drv import call, vec

KIND = {'pref': 'relative_discrete', 'ord': 'ordinal', 'abs': 'abs'}


def kern(k, dim):
    if k == 'RL': return lop.RBF_kern(1.0, 0.8, sigma_noise=0.02) + lop.LinearKern(0.3, 0.2, 0.1)
    if k == 'RP': return lop.RBF_kern(0.8, 1.0, sigma_noise=0.02) + lop.PeriodicKern(0.5, 1.5, 2.0)
    if k == 'R2': return lop.RBF_kern(1.6, 0.6, sigma_noise=0.05)
    return lop.RBF_kern(1.0, 0.8, sigma_noise=0.01)


def mean_fn(X):
    X = np.asarray(X, dtype=float)
    return 0.25 * (X if X.ndim == 1 else np.sum(X, axis=1)) + 1.0


def fit(beh, desc, at, seed, Q):
    np.random.seed(seed)
    mod = beh['model']
    if mod == 'pgp': m = lop.PreferenceGP(kern(beh['kern'], beh['dim'])); m.delta_f = 1e-7
    elif mod == 'plin': m = lop.PreferenceLinear(); m.delta_f = 1e-7
    else: m = lop.GP(kern(beh['kern'], beh['dim']), mean_func=mean_fn if beh.get('meanf') else None)
    for a in desc:
        X = at[[p - 1 for p in a['X']]]
        if mod == 'gp':
            y, s = np.array([t[0] for t in a['L']], dtype=float) / 1000.0, [t[1] / 1000.0 for t in a['L']]
            # 0 stands for the default
            if all(v == 0 for v in s): m.add(X, y)
            else:
                s = [v if v else 0.0005 for v in s]
                m.add(X, y, training_sigma=s[0] if len(set(s)) == 1 else s if seed % 2 else np.array(s))
        elif a['kind'] == 'pref': m.add(X, [tuple(t) for t in a['L']])
        elif a['kind'] == 'ord': m.add(X, np.array(a['L']), type='ordinal')
        else: m.add(X, np.array(a['L'], dtype=float) / 1e6, type='abs')
    mu, var = m.predict(Q)
    return vec(mu, 1e6), ([] if var is None else vec(var, 1e6))


def linear(beh, rec):
    at = np.array(beh['at'], dtype=float) * beh['unit'] / 2.0 / beh['div']
    d = beh['descs'][0][0]
    if not d['L']: return

    def work():
        np.random.seed(5)
        m = lop.PreferenceLinear()
        m.add(at, [tuple(t) for t in d['L']])
        f = m(at)
        # only the order matters
        return vec(f / max(1e-300, np.max(np.abs(f))), 1e9)
    ret, est = call(work)
    rec.ev('linear', ret=ret, est=est if ret == 'ok' else [], **{k: beh[k] for k in ('at', 'w', 'descs')})


def run(beh, rec):
    dim = beh['dim']
    if beh['far'] == 2: return linear(beh, rec)
    at = np.array(beh['at'], dtype=float).reshape(-1, dim) / 2.0
    if beh['far']:
        first = [beh['loc'].index(i + 1) for i in range(beh['items'])]
        Q = at[first]
    else:
        extra = np.array([[0.3, -0.2, 0.6], [1.1, 0.9, -0.4], [9.0, 9.0, 9.0]])[:, :dim]
        Q = np.append(at, extra, axis=0)
    if dim == 1: at, Q = at[:, 0], Q[:, 0]
    # asking for exactly the training points in one batch is another matter (C18)
    if beh['far']: Q = np.append(Q, Q[:1], axis=0)
    ret, est, var = [], [], []
    for k, d in enumerate(beh['descs']):
        r, v = call(fit, beh, d, at, 5 + k, Q)
        ret.append(r); est.append(v[0] if r == 'ok' else []); var.append(v[1] if r == 'ok' else [])
    base = dict(model=beh['model'], descs=beh['descs'], at=beh['at'])
    if beh['far']:
        rec.ev('order', ret=ret[0], loc=beh['loc'], items=beh['items'], est=est[0][:beh['items']], **base)
    else:
        rec.ev('fits', ret=ret, mirror=beh['mirror'], est=est, var=var, **base)

"""Synthetic reward functions."""
import numpy as np
import lop
from drv import call, vec, num
from drv_prefdata import snap

KINDS = {'linear': lop.FakeLinear, 'squared': lop.FakeSquared, 'logistic': lop.FakeLogistic, 'max': lop.FakeWeightedMax,
         'min': lop.FakeWeightedMin, 'sqminmax': lop.FakeSquaredMinMax, 'sinexp': lop.FakeSinExp,
         'mixture': lop.FakeMixtureGaussian, 'mix': lambda d: lop.FakeMinLog(d, 0.25)}


def run(beh, rec):
    c = beh['c']; d = c['dim']; kind = c['kind']
    if kind == 'static':
        d, f = 1, lop.FakeStaticSin()
    else: f = KINDS[kind](d)
    if kind == 'static' and c['dim'] > 1: return
    W = lambda: vec(f.w, 1e6) if kind in ('linear', 'max', 'min') else []
    rec.ev('new', kind=kind, w=W())
    for a in beh['acts']:
        if a['op'] == 'randomize':
            ret, _ = call(f.randomize)
            rec.ev('randomize', ret=ret, w=W()); continue
        P = np.array(a['pts'], dtype=float)
        n = len(P)
        if kind == 'logistic' or kind == 'sinexp' or kind == 'mixture': unit = 4.0
        else: unit = 1.0
        if d == 1: X = P[:, 0] / unit
        else: X = P / unit
        if a['op'] == 'one': X = X[0]
        if a['op'] == 'queries': X = X.reshape(n // a['m'], a['m'], d)
        if d == 1 and a['op'] == 'one': X = [float(X), np.array([X]), [float(X)]][a['pts'][0][0] % (3 if kind != 'static' else 2)]
        if isinstance(X, np.ndarray) and X.shape:                # the same array held other points when it was asked about before
            keep = X.copy(); X += 1.0
            call(f if a['op'] != 'one' else f.calc, X)
            X[...] = keep
        b = snap(X)
        ret, v = call(f if a['op'] != 'one' else f.calc, X)
        want = (n // a['m'], a['m']) if a['op'] == 'queries' else (n,) if a['op'] == 'batch' else ()
        got = tuple(np.shape(v)) if ret == 'ok' else None
        e = dict(pts=a['pts'], ret=ret, args=int(snap(X) == b), w=W(), vals=vec(v, 1e6) if ret == 'ok' else [],
                 shape=int(got == want or (a['op'] == 'one' and got == (1,))), a=[], b=[], alpha=0)
        if kind == 'mix' and ret == 'ok':
            # the parts in thousandths of the value unit, so that TLC can add them
            e.update(a=vec(f.min.calc(X), 1e5), b=vec(f.logistic.calc(X), 1e5), alpha=int(round(f.alpha * 1000)),
                     vals=vec(v, 1e5))
        rec.ev('eval', **e)

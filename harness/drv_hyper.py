"""Hyperparameters: reads, writes, draws, and where each entry goes."""
import numpy as np
import lop
from drv import call, num, vec
from drv_prefdata import snap

PRM = {'R': 2, 'L': 3, 'P': 3, 'Z': 2}
M6 = 1e6


def leaf(k, p=None):
    p = p if p is not None else [1.0, 0.5, 0.75][:PRM[k]]
    return {'R': lop.RBF_kern, 'L': lop.LinearKern, 'P': lop.PeriodicKern, 'Z': lop.RBF_kern_zeroed}[k](*p)


def build(tree, params=None):
    """-> (kernel, leaves); params: values per leaf, in order."""
    leaves, it = [], iter(tree)
    ps = iter(params) if params is not None else None

    def go():
        t = next(it)
        if t in '+*':
            a = go(); b = go()
            return a + b if t == '+' else a * b
        k = leaf(t, next(ps) if ps is not None else None)
        leaves.append(k)
        return k
    return go(), leaves


def probit_vals(ps):
    p, o, a = ps
    return [vec([p.sigma], M6), vec(o.get_hyper(), M6), vec([a.sigma, a.v], M6)]


def probe(ps, kern):
    F = np.array([0.2, -0.1, 0.45])
    p, o, a = ps
    out = [p.likelihood(np.array([[-1, 0, 1]]), F)[0], p.likelihood(np.array([[1, 2, 1]]), F)[0]]
    out += [float(o.likelihood((np.array([r]), np.array([i])), F)) for r in (1, 2) for i in (0, 2)]
    out += [float(a.log_likelihood((np.array([0.3]), np.array([i])), F)) for i in (0, 1)]
    out = [min(max(v, -900), 900) for v in out]
    if kern is not None:
        X = np.array([[0.1, 0.4], [0.6, 0.2], [0.3, 0.9]])
        out += [min(max(v, -900), 900) for v in kern.cov(X, X[::-1] + 0.05).ravel()]
        out += [min(max(float(kern(X[0], X[2])), -900), 900)]
    return vec(out, M6)


def run(beh, rec):
    model = beh['model']
    kern, leaves = build(beh['tree'])
    if model == 'plin':
        m, leaves = lop.PreferenceLinear(), []
        kern = None
    else:
        m = lop.PreferenceGP(kern, hyperparam_only_probit=bool(beh['only']))
    m.delta_f = 1e-3
    P, O, A = [m.probits[m.probit_idxs[k]] for k in ('relative_discrete', 'ordinal', 'abs')]
    P.optimize_parameters = beh['n1'] == 1
    A.optimize_parameters = beh['n3'] > 0
    A.optimize_v_only = beh['n3'] == 1
    kinds = [t for t in beh['tree'] if t in PRM] if model != 'plin' else []
    state, done = dict(lv=5), dict(opt=0)
    breaks = beh.get('breaks')
    if breaks: O.set_b(np.array(breaks))

    def vals(): return probit_vals((P, O, A)) + [vec(k.get_param(), M6) for k in leaves]
    rec.ev('start', cfg=dict(n1=beh['n1'], n3=beh['n3'], only=beh['only']), vals=vals())

    def has(): return [i + 1 for i, k in enumerate(('relative_discrete', 'ordinal', 'abs')) if m.y_train[m.probit_idxs[k]] is not None]

    def fresh():
        o = O.get_hyper()
        ps = lop.PreferenceProbit(P.sigma), lop.OrdinalProbit(o[0], np.array(breaks) if breaks else o[1], state['lv']), lop.AbsBoundProbit(A.sigma, A.v)
        return ps, (build(beh['tree'], [k.get_param() for k in leaves])[0] if kern is not None else None)
    got = []

    def event(op, ret, x=(), kept=1):
        r2, again = call(m.get_hyper)
        r3, pr = call(probe, (P, O, A), kern)
        r4, wa = call(lambda: probe(*fresh()))
        if r2 != 'ok' and ret == 'ok': ret = 'raise'
        rec.ev('hy', op=op, ret=ret, kept=kept, x=list(x), data=has(), vals=vals(), again=vec(again, M6) if r2 == 'ok' else [],
               probe=pr if r3 == 'ok' else [0], want=wa if r4 == 'ok' else [0, 0], len=len(kern) if kern is not None else 0)
        if r2 == 'ok': got.append(again)

    X = np.array([[0.1, 0.4], [0.6, 0.2], [0.3, 0.9]])
    for a in beh['acts']:
        op = a['op']
        np.random.seed(a['i'] + 5)
        if model == 'plin' and op in ('kset', 'kget', 'kdraw', 'draw'): continue
        if op in ('set', 'kset'):
            n = len(m.get_hyper()) if op == 'set' else len(kern.get_param())
            x = np.array(a['x'][:n]) / M6
            if a['how'] == 3 and kern is not None and not (op == 'set' and beh['only']):
                # the offset of a linear kernel may be negative
                off = n
                for k in reversed(kinds):
                    off -= PRM[k]
                    if k == 'L': x[off + 2] = -x[off + 2]
            if a['how'] == 4:
                # hardly different from the values it has
                cur = m.get_hyper() if op == 'set' else kern.get_param()
                x = np.array([(round(v * M6) + a['x'][k] // 50000 % 7) / M6 for k, v in enumerate(cur)])
            if a['how'] == 5 and kern is not None and not (op == 'set' and beh['only']):
                # a linear kernel without a constant part
                off = n
                for k in reversed(kinds):
                    off -= PRM[k]
                    if k == 'L': x[off + 1] = 0.0
            put = [int(round(v * M6)) for v in x]
            if a['how'] == 1 and op == 'kset': x = list(x)
            if a['how'] == 2: big = np.zeros(2 * n); big[::2] = x; x = big[::2]
            ret, _ = call(m.set_hyper if op == 'set' else kern.set_param, x)
            event(op, ret, put)
            if isinstance(x, np.ndarray): got.append(x)
        elif op in ('get', 'kget'):
            ret, x = call(m.get_hyper if op == 'get' else kern.get_param)
            event(op, ret, vec(x, M6) if ret == 'ok' else [])
            if ret == 'ok': got.append(x)
        elif op == 'setget':
            ret, _ = call(lambda: m.set_hyper(m.get_hyper()))
            event(op, ret)
        elif op == 'draw':
            ret, _ = call(m.randomize_hyper)
            event(op, ret)
        elif op == 'kdraw':
            ret, x = call(kern.randomize_hyper)
            event(op, ret, vec(x, M6) if ret == 'ok' else [])
        elif op == 'poke':
            for g in got:
                if isinstance(g, np.ndarray) and g.flags.writeable: g[...] = 7.5
            event('keep', 'ok')
        elif op in ('pref', 'ord', 'abs'):
            ret, _ = {'pref': lambda: call(m.add, X, [(-1, 0, 1), (1, 1, 2)]),
                      'ord': lambda: call(m.add, X, np.array([1, 3, 2]), type='ordinal'),
                      'abs': lambda: call(m.add, X, np.array([0.2, 0.5, 0.9]), type='abs')}[op]()
            event('keep', ret)
        elif op == 'reset':
            ret, _ = call(m.reset); event('keep', ret)
        elif op == 'levels':
            state['lv'] = a['lv']
            ret, _ = call(m.set_num_ordinals, a['lv'])
            event('keep', ret)
        elif op == 'predict':
            if model == 'plin': continue
            call(m.predict, X + 0.05)
            event('keep', 'ok')
        elif op == 'optimize':
            # (no gradients exist for ratings)
            if model == 'plin' or O is None or m.y_train[m.probit_idxs['ordinal']] is not None or done['opt'] >= 1: continue
            done['opt'] += 1
            b = snap(m.X_train), snap(m.y_train)
            ret, _ = call(m.optimize, True)
            event('optimize', 'ok', kept=int((snap(m.X_train), snap(m.y_train)) == b))

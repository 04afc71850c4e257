"""Unique query sets and the Metropolis-Hastings chain, with scripted proposals and likelihoods."""
import math
import numpy as np
from drv import call, asint
from drv_prefdata import snap
from lop.utilities.mcmc_sampling import metropolis_hastings
from lop.utilities.sample_utility import sample_unique_sets, sample_nonunique_sets


def level(v, imp=-9):
    return -math.inf if v == imp else 2000.0 * v


def ident(x):
    v = float(np.asarray(x).reshape(-1)[0])
    return int(round(v - 10)) if v >= 10.5 else 0


def run(beh, rec):
    cnt = {}
    for c in beh['cases']:
        {'chain': chain, 'walk': walk, 'sets': sets, 'balance': balance}[c['kind']](c, rec, cnt)
    if cnt:
        top = max(cnt)
        rec.ev('chance', n=[cnt.get(d, [0, 0])[0] for d in range(1, top + 1)], a=[cnt.get(d, [0, 0])[1] for d in range(1, top + 1)])


def lowest(size=None, *more):
    """The lowest draw of a uniform number in [0, 1)."""
    if size is None: return 0.0
    return np.zeros((size,) + tuple(more) if isinstance(size, (int, np.integer)) else size)


def walk(c, rec, cnt):
    asked, props, dim = [], list(c['props']), c['dim']

    def ll(x):
        v = c['lls'][ident(x)]
        return -math.inf if v == -9 else 0.25 * v - 3.0

    def prop(x, *a, **k):
        i = len(asked)
        asked.append(ident(x))
        return np.full(dim, 10.0 + props[min(i, len(props) - 1)])
    old = np.random.random, np.random.rand
    if c['low']:
        np.random.random, np.random.rand = lowest, lambda *s: lowest(s if s else None)
    try: ret, out = call(metropolis_hastings, ll, c['num'], dim=dim, num_to_burn=c['burn'], prop_distribution=prop)
    finally: np.random.random, np.random.rand = old
    ok = ret == 'ok'
    shape = [int(v) for v in np.shape(out)] if ok else []
    out = [ident(x) for x in out] if ok else []
    rec.ev('walk', lls=c['lls'], props=c['props'], burn=c['burn'], num=c['num'], dim=dim, asked=asked, ret=ret, low=c['low'],
           out=out, shape=shape)
    if c['low']: return
    for i in range(len(asked) - 1):
        a, b = c['lls'][asked[i]], c['lls'][props[i]]
        if b != -9 and a != -9 and b < a:
            n = cnt.setdefault(a - b, [0, 0])
            n[0] += 1
            n[1] += asked[i + 1] != asked[i]


def chain(c, rec, cnt):
    asked, props, dim = [], list(c['props']), c['dim']

    def ll(x): return level(c['lls'][ident(x)])

    def prop(x, *a, **k):
        i = len(asked)
        asked.append(ident(x))
        return np.full(dim, 10.0 + props[min(i, len(props) - 1)])
    ret, out = call(metropolis_hastings, ll, c['num'], dim=dim, num_to_burn=c['burn'], prop_distribution=prop)
    ok = ret == 'ok'
    rec.ev('chain', lls=c['lls'], props=c['props'], burn=c['burn'], num=c['num'], dim=dim, asked=asked, ret=ret,
           out=[ident(x) for x in out] if ok else [], shape=[int(v) for v in np.shape(out)] if ok else [])


def balance(c, rec, cnt):
    """Two states: the heavy one proposes the light one, and the light one the heavy one."""
    wl, wh, off, log = c['wl'], c['wh'], c['off'], []

    def ll(x): return (math.log(wl) if ident(x) == 1 else math.log(wh)) + off

    def prop(x, *a, **k):
        here = ident(x)
        log.append(here)
        return np.full(1, 11.0) if here != 1 else np.full(1, 12.0)
    out = metropolis_hastings(ll, c['steps'], num_to_burn=1, prop_distribution=prop)
    n = sum(1 for i in range(1, len(log) - 1) if log[i] == 2)
    a = sum(1 for i in range(1, len(log) - 1) if log[i] == 2 and log[i + 1] == 1)
    rec.ev('balance', wl=wl, wh=wh, n=n, a=a)


def sets(c, rec, cnt):
    items = list(range(c['n'])) if c['form'] == 'int' else list(c['items'])
    s = c['n'] if c['form'] == 'int' else np.array(items) if c['form'] == 'array' else list(items)
    b = snap(s)
    for fn, uniq in ((sample_unique_sets, 1), (sample_nonunique_sets, 0)):
        if uniq == 0 and c['form'] == 'int': continue
        ret, r = call(fn, s, c['num'], c['size'])
        out = [[int(v) if float(v) == int(v) else -1 for v in row] for row in r] if ret == 'ok' else []
        rec.ev('sets', items=items, size=c['size'], num=c['num'], uniq=uniq, ret=ret, sets=out, args=int(snap(s) == b))

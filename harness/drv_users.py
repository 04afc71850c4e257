"""Synthetic users and the noisy choice model."""
import itertools
import math
import numpy as np
import lop
from drv import call, asint, vec, num
SCALE = [1.0, 1e-9, 1e6, 0.25, 1e300, 0.5]
ONE = 1e8


def run(beh, rec):
    for c in beh['cases']:
        {'freq': freq, 'tune': tune}.get(c.get('kind'), one)(c, rec)


def mk(kind, f, **kw):
    if kind == 'perfect': return lop.PerfectUser(f)
    return (lop.HumanChoiceUser if kind == 'human' else lop.HumanChoiceUser2)(f, **kw)


def first(P): return np.asarray(P)[..., 0]


def one(c, rec):
    sc, beta = SCALE[c['scale']], c['beta'] / 100.0
    B = np.array(c['rows'], dtype=float) * sc
    keep = B.copy()
    ret, pb = call(lop.p_human_choice, B, beta)
    ok2 = ret == 'ok'
    for i, y in enumerate(c['rows']):
        row = B[i].copy()
        ret, p = call(lop.p_human_choice, row, beta)
        rec.ev('probs', y=y, ret='ok' if ret == 'ok' and ok2 else 'raise', p=vec(p, ONE) if ret == 'ok' else [],
               batch=vec(pb[i], ONE) if ok2 and len(pb) > i else [], zero=int(beta == 0),
               args=int(np.array_equal(B, keep) and np.array_equal(row, keep[i])))
        if i == 0 and c['scale'] != 4:
            for s in (None, 7):
                ret, k = call(lop.sample_human_choice, row, beta, s)
                for v in ([k] if s is None else list(np.atleast_1d(k))) if ret == 'ok' else [None]:
                    rec.ev('choose', y=y, c=asint(v), best=0, ret=ret, args=int(np.array_equal(row, keep[i])))
    kind = c['user']
    lim = 1e300 if c['scale'] == 4 else 1.0
    u = mk(kind, lambda P: first(P), **({} if kind == 'perfect' else dict(beta=beta if beta < 150 else 150.0, sigma=c['scale'] * 0.7)))
    for y in c['rows'][:3]:
        Q = np.stack([np.array(y, dtype=float) * (sc if c['scale'] != 4 else 1e290), np.ones(len(y)), np.zeros(len(y))], axis=1)
        q = Q.copy()
        ret, k = call(u.choose, q)
        rec.ev('choose', y=y, c=asint(k), best=int(kind == 'perfect'), ret=ret, args=int(np.array_equal(q, Q)))
        ret, pr = call(u.choose_pairs, q)
        rec.ev('given', ret=ret, y=y, best=int(kind == 'perfect'), args=int(np.array_equal(q, Q)),
               pairs=[[asint(v) for v in t] for t in pr] if ret == 'ok' else [])
        # ratings one by one
        span = max(1.0, float(np.max(np.abs(Q[:, 0]))))
        sharp = kind == 'perfect' and c['scale'] == 3 and span <= 3 or (kind != 'perfect' and c['scale'] == 0 and span <= 3)
        rs, bad = [], 'ok'
        for r in Q:
            rr = r.copy()
            ret, v = call(u.rate, rr)
            if ret != 'ok' or np.size(v) != 1: bad = 'raise'; continue
            rs.append(num(np.asarray(v).reshape(-1)[0], ONE))
            if not np.array_equal(rr, r): bad = 'raise'
        mono = (2 if sharp else 1) if kind == 'perfect' or c['scale'] == 0 else 0
        rec.ev('rates', y=y if len(rs) == len(y) else [], r=rs if len(rs) == len(y) else [], ret=bad, mono=mono, args=int(np.array_equal(q, Q)))


def freq(c, rec):
    y, beta, n = np.array(c['y'], dtype=float), c['beta'] / 100.0, c['n']
    u = mk(c['user'], first, beta=beta)
    Q = np.stack([y, np.ones(len(y))], axis=1)
    cnt = np.zeros(len(y), dtype=int)
    for _ in range(n): cnt[u.choose(Q)] += 1
    p = lop.p_human_choice(y * u.k + u.b, p=beta)
    for i in range(len(y)):
        rec.ev('freq', ret='ok', a=int(cnt[i]), n=n, p=int(round(100 * p[i])))


def norm_cdf(x): return 0.5 * (1 + np.vectorize(math.erf)(np.asarray(x) / math.sqrt(2)))


def tune(c, rec):
    rng = np.random.RandomState(c['seed'])
    f = lop.FakeLinear(2)
    lo, hi = c['lo'] / 1000.0, c['hi'] / 1000.0
    if c.get('old'): return tune_old(c, rec, f, rng)
    rewards = [[rng.random_sample((c['m'] + 3 * j, 2)) * 4 - 1 for j in range(c['problems'])] for _ in range(c['envs'])]
    keep = [[r.copy() for r in e] for e in rewards]
    u = lop.HumanChoiceUser2(f, bot_range=lo, top_range=hi)
    ret, _ = call(u.learn_beta, rewards, c['p'] / 1000.0, 2, c['ps'] / 1000.0)
    if ret != 'ok':
        rec.ev('tuned', ret=ret, got=0, want=0, tol=0, args=1); return
    args = int(all(np.array_equal(a, b) for e, k in zip(rewards, keep) for a, b in zip(e, k)))
    P, S, allr = [], [], np.concatenate([r for e in rewards for r in e])
    for r in (r for e in rewards for r in e):
        y = f(r) * u.k + u.b
        P += [np.max(lop.p_human_choice(np.array([a, b]), p=u.beta)) for a, b in itertools.combinations(y, 2)]
        S += [norm_cdf(abs(a - b) / (math.sqrt(2) * u.sigma)) for a, b in itertools.combinations(y, 2)]
    # the tuning samples as many items from each problem as the smallest has
    tol = 8 if c['problems'] == 1 and c['envs'] == 1 else 60
    rec.ev('tuned', ret='ok', got=num(np.mean(P), 1000), want=c['p'], tol=tol, args=args)
    rec.ev('tuned', ret='ok', got=num(np.mean(S), 1000), want=c['ps'], tol=tol, args=args)
    u.sigma = 0.0
    v = f(allr)
    rec.ev('tuned', ret='ok', got=num(u.rate(allr[np.argmax(v)]), 1000), want=c['hi'], tol=1, args=args)
    rec.ev('tuned', ret='ok', got=num(u.rate(allr[np.argmin(v)]), 1000), want=c['lo'], tol=1, args=args)


def tune_old(c, rec, f, rng):
    """The older tuning matches sampled frequencies, to within a seventh; it may say that it cannot."""
    R = rng.random_sample(((60, 60, 6)[c['seed'] % 3], 2)) * 4 - 1
    u = lop.HumanChoiceUser(f)
    ret, _ = call(u.learn_beta, R, c['p'] / 1000.0, 2, c['ps'] / 1000.0)
    if ret != 'ok' or len(R) < 60: return          # (from few queries it only has to come to an end)
    y = f(R) * u.k + u.b
    P = [np.max(lop.p_human_choice(np.array([a, b]), p=u.beta)) for a, b in itertools.combinations(y, 2)]
    S = [norm_cdf(abs(a - b) / (math.sqrt(2) * u.sigma)) for a, b in itertools.combinations(y, 2)]
    rec.ev('tuned', ret='ok', got=num(np.mean(P), 1000), want=c['p'], tol=240, args=1)
    rec.ev('tuned', ret='ok', got=num(np.mean(S), 1000), want=c['ps'], tol=240, args=1)

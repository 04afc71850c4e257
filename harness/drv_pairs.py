"""Comparison generators."""
import numpy as np
import lop
from drv import call, asint
from drv_prefdata import snap
from lop.utilities.preference_pairs import (get_dk, preference, gen_pairs_from_idx, ranked_pairs_from_fake,
                                            generate_fake_pairs, generate_ranking_pairs)
SCALE = [1.0, 1e-12, 1e9, 0.37, 1.0]


def rows(ps): return [[asint(v) for v in p] for p in ps]


def run(beh, rec):
    for c in beh['cases']: one(c, rec)


def one(c, rec):
    n, y, ref = len(c['y']), c['y'], c['ref']
    vals = np.array(y, dtype=float) * SCALE[c['scale']] + (1e6 if c['scale'] == 4 else 0)
    if c['scale'] == 0 and c['cont'] == 1: vals = vals.astype(int)
    X = np.arange(n, dtype=float) if c['cont'] == 2 else np.arange(n, dtype=float).reshape(n, 1) * np.ones((1, 2))
    f = lambda P, data=None: vals.copy()
    b = snap(X)
    items = [v + c['off'] for v in c['sub']]
    pick = ref + c['off']
    it = np.array(items, dtype=int) if c['cont'] == 1 else tuple(items) if c['cont'] == 2 else list(items)
    who = np.int64(ref) if c['cont'] == 1 else ref
    s = snap(it)
    ret, r = call(gen_pairs_from_idx, np.int64(pick) if c['cont'] == 1 else pick, it)
    rec.ev('choice', c=pick, items=items, ret=ret, pairs=rows(r) if ret == 'ok' else [], args=int(snap(it) == s))
    ret, r = call(generate_fake_pairs, X, f, who)
    rec.ev('reference', c=ref, y=y, ret=ret, pairs=rows(r) if ret == 'ok' else [], args=int(snap(X) == b))
    for fn in (ranked_pairs_from_fake, generate_ranking_pairs):
        ret, r = call(fn, X, f)
        rec.ev('ranking', y=y, ret=ret, pairs=rows(r) if ret == 'ok' and r is not None else [[0]], args=int(snap(X) == b))
    for j in (0, n - 1):
        u, v = vals[ref], vals[j]
        if c['cont'] == 2: u, v = float(u), float(v)
        ret, d = call(get_dk, u, v)
        rec.ev('dk', u=y[ref], v=y[j], ret=ret, d=asint(d))
        ret, p = call(preference, who, j)
        rec.ev('pref', u=ref, v=j, ret=ret, pair=[asint(t) for t in p] if ret == 'ok' else [])
    ret, _ = call(get_dk, vals, float(vals[0]))
    rec.ev('scalar', ret=ret)
    ret, _ = call(get_dk, float(vals[0]), list(y))
    rec.ev('scalar', ret=ret)
    # users that report comparisons
    for U in (lop.PerfectUser, lop.HumanChoiceUser, lop.HumanChoiceUser2):
        u = U(lambda P: np.asarray(P)[..., 0] / (1.0 + max(abs(t) for t in y)))
        Q = np.stack([np.array(y, dtype=float), np.ones(n)], axis=1)
        picked = []
        inner = u.choose
        def spy(q):
            r = inner(q); picked.append(asint(r)); return r
        u.choose = spy
        q = Q.copy()
        ret, r = call(u.choose_pairs, q)
        if not picked and ret == 'ok':
            picked.append((asint(r[0][1]) if r[0][0] == -1 else asint(r[0][2])) if len(r) else 0)
        rec.ev('choice', c=picked[-1] if picked else -1, items=list(range(n)), ret=ret, pairs=rows(r) if ret == 'ok' else [],
               args=int(np.array_equal(q, Q)))

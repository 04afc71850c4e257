"""Runs selection calls on the real learners with a scripted model (or a real one)."""
import numpy as np
import lop
from drv import call, num, vec, asint
import learners


class StubGP(lop.GP):
    """A GP whose predictions are scripted: candidate i has mean mu[i] and variance sd[i]**2."""
    def __init__(self, learner):
        super().__init__(lop.RBF_kern(1.0, 1.0), active_learner=learner)
    def script(self, mu, sd):
        self.mu, self.var = np.array(mu, dtype=float), np.array(sd, dtype=float) ** 2
    def predict(self, X):
        self.cov = np.diag(self.var[:len(X)])
        return self.mu[:len(X)].copy(), self.var[:len(X)].copy()


def real_model(learner, dim=2):
    g = lop.PreferenceGP(lop.RBF_kern(1.0, 0.8), active_learner=learner)
    X = np.array([[0.1, 0.2], [0.9, 0.4], [0.5, 0.8], [0.3, 0.3], [0.7, 0.9]])
    g.add(X, [(-1, 0, 1), (1, 0, 2), (-1, 4, 3)])
    g.add(X[:2] + 0.05, np.array([0.2, 0.7]), type='abs')
    return g


def linear_model(learner, scale):
    g = lop.PreferenceLinear(active_learner=learner)
    X = np.array([[0.1, 0.2], [0.9, 0.4], [0.5, 0.8], [0.3, 0.3], [0.7, 0.9]]) * scale
    g.add(X, [(-1, 0, 1), (1, 0, 2), (-1, 4, 3)])
    return g


def container(kind, items):
    return {'list': list, 'set': set, 'tuple': tuple}[kind](items)


def prefer(c):
    pk = c['pk']
    return {'none': lambda: None, 'dpareto': lambda: None, 'zero': lambda: 0, 'count': lambda: len(c['ps']), 'over': lambda: c['n'] + 1 + c['n'] % 3,
            'list': lambda: list(c['ps']), 'set': lambda: set(c['ps']), 'pareto': lambda: 'pareto'}[pk]()


def run(beh, rec):
    for c in beh['cases']:
        one(c, rec)


def one(c, rec):
    kind, n = c['kind'], c['n']
    opts = dict(default_to_pareto=c['pk'] == 'dpareto', always_select_best=bool(c['ab']))
    alpha = c['al'] / 2.0
    L = learners.plain(kind, alpha, opts)
    greedy = kind in ('best', 'worst', 'ucb')
    pts = np.array(c['pts'], dtype=float).reshape(n, 2)
    scale = c.get('lin', 0)
    if scale:
        m, mu = linear_model(L, scale), None
    elif greedy or kind in ('random', 'gvucb'):
        m = StubGP(L); m.script(c['mu'], c['sd'])
        mu = [1000 * v for v in c['mu']]
    else:
        m = real_model(L)
        mu = None
    crit = {'best': mu, 'worst': [-v for v in mu] if mu else None,
            'ucb': [1000 * a + 500 * c['al'] * s for a, s in zip(c['mu'], c['sd'])]}.get(kind, mu or [0] * n)
    events = []
    if greedy or kind == 'random':
        inner = L.select_greedy
        def spy(candidate_pts, mu_, data, indicies, prev_selection):
            offered = [asint(i) for i in indicies]
            got = inner(candidate_pts, mu_, data, indicies, prev_selection)
            sc = num(L.sel_metric, 1000) * (-1 if kind == 'worst' else 1) if L.sel_metric is not None else 77
            e = dict(offered=offered, got=asint(got), score=sc)
            if kind == 'random': e['score'] = 0; e['crit'] = [0] * n
            else: e['crit'] = crit
            events.append(e)
            return got
        L.select_greedy = spy
    cand = pts / 4.0 * (scale or 1)
    prev, pref = container(c['pc'], c['prev'] * (1 + c.get('rep', 0))), prefer(c)
    cand2, prev2, pref2 = cand.copy(), container(c['pc'], c['prev'] * (1 + c.get('rep', 0))), prefer(c)
    if c.get('re') and not scale and (greedy or kind in ('random', 'gvucb')):
        cand2[:] = cand[::-1] * -1.0 + 1.5
        call(m.select, cand2, 1, [], pref if pref in ('pareto', None) else None, False)
        cand2[:] = cand
        events.clear()
    if c.get('direct'):
        ret, r = call(L.select, cand2, c['k'], prev2, pref2, bool(c['rns']), bool(c['direct'] - 1))
    else:
        ret, r = call(m.select, cand2, c['k'], prev2, pref2, bool(c['rns']))
    same = int(np.array_equal(cand, cand2) and prev == prev2 and (pref == pref2) and
               (mu is None or np.array_equal(m.mu, c['mu'])))
    if mu is None:
        mu = m.predict(cand)[0]
        mu = vec(mu / (max(np.max(np.abs(mu)), 1.0) if n else 1.0), 1e6)
    sel, skip = [], []
    if ret == 'ok':
        if c['rns']: sel, skip = [asint(i) for i in r[0]], [asint(i) for i in r[1]]
        else: sel = [asint(i) for i in r]
    k = min(c['k'], 1) if kind == 'absacq' else c['k']
    for e in events: rec.ev('greedy', **e)
    rec.ev('select', n=n, prev=c['prev'], pk=c['pk'], ps=c['ps'], pts=c['pts'], k=k, ab=c['ab'], rns=c['rns'], mu=mu,
           crit=crit, mode='crit' if greedy else 'any', ret=ret, sel=sel, skip=skip, args=same, kind=kind)

"""Mixed strategies over scripted sub-learners: every decision is scripted, every sub-call recorded."""
import numpy as np
import lop
from drv import call, asint, num


class Script:
    pass


def tag(X):
    """Identity of a candidate set (carried in the first coordinate of the first row)."""
    return int(np.asarray(X).reshape(len(X), -1)[0, 0])


class Sub(lop.AcquisitionSelection):
    """A learner whose answers and scores are scripted; the score belongs to the candidates it was
    computed for: the samples it was given if any, else the candidates of the call."""
    def __init__(self, who, sc):
        super().__init__()
        self.who, self.sc = who, sc
        self.sel_metric = np.float64(12345.0)
        self.n = 0
    def _score(self, X):
        of = tag(X)
        if self.samples_set: of = int(self.all_rep[0, 0])
        self.of = of
        table = self.sc.pair_scores if self.who == 'pair' else self.sc.abs_scores
        self.sel_metric = np.float64(table.get(of, 777))
        self.sc.scored[self.who] = of
    def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
        self.n += 1
        self._score(candidate_pts)
        n = len(candidate_pts)
        off = {'pair': 0, 'abs': 3, 'comp': 5}[self.who]
        got = [(self.n + off + j) % n for j in range(num_alts)] if not (self.who == 'pair' and num_alts == 2) else list(self.sc.pair2)
        if self.who == 'abs': got = [(self.n * 2 + off) % n]
        opts = int(prev_selection == self.sc.prev and prefer_pts == self.sc.prefer and return_not_selected == self.sc.rns)
        self.sc.subs.append(dict(who=self.who, num=int(num_alts), cand=tag(candidate_pts), ret=got, opts=opts))
        return list(got)
    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        self._score(candidate_pts)
        return list(indicies)[0]
    def select_pair(self, candidate_pts, mu, data, indicies, prev_selection, debug=True):
        self._score(candidate_pts)
        return tuple(list(indicies)[:2])
    def get_representative_Q(self, candidate_pts=None):
        return candidate_pts[:2], np.array([[0, 1]])
    def get_samples_from_model(self, candidate_pts, x_rep, indicies=None):
        if self.samples_set: return self.all_rep, self.all_Q
        M, n = 40, len(candidate_pts)
        rep = np.full((M, 2), float(tag(candidate_pts)))
        base = np.linspace(-1, 1, M)[:, None] + np.zeros((M, n))
        if not self.sc.similar: base = base + 50.0 * np.arange(n)[None, :]
        return rep, base


def build(c, P, A, C):
    k, p = c['kind'], c['p'] / 1e6
    if k == 'rate': return lop.RateChooseLearner(P, A)
    if k == 'mixcmp': return lop.MixedComparision(P, A, C, alpha=c['al'] / 1000.0)
    if k == 'eqcheck': return lop.MixedComparisionEqualChecking(P, A, C)
    if k == 'fixed': return lop.MixedComparisionSetFixed(P, A)
    if k == 'alt': return lop.MixedAlternating(P, A)
    if k == 'align': return lop.AlignmentDecision(P, A, c['lim'])
    if k == 'mixed': return lop.MixedStrategy(P, A, p)
    if k == 'peak': return lop.MixedStrategyPeak(P, A, p)
    if k == 'peak2': return lop.MixedStrategyPeak2(P, A, p)
    if k == 'peak3': return lop.MixedStrategyPeak3(P, A, 0.2 * c['step'])
    if k == 'rev': return lop.MixedStrategyRevPeak(P, A, p)
    if k == 'decision': return lop.MixedDecision(P, A, C, 0.2 * c['step'])
    if k == 'decision2': return lop.MixedDecision2(P, A, C, p)
    raise KeyError(k)


def model(learner):
    return lop.GP(lop.RBF_kern(1.0, 1.0), active_learner=learner)


def run(beh, rec):
    c = beh['c']
    sc = Script()
    sc.pair_scores, sc.abs_scores, sc.similar = {}, {}, True
    P, A, C = Sub('pair', sc), Sub('abs', sc), Sub('comp', sc)
    L = build(c, P, A, C)
    m = model(L)
    rec.ev('new', c=c)
    real_random = np.random.random
    cid = 0
    for a in beh['acts']:
        if a['op'] == 'attach':
            ret, _ = call(model, L)
            if ret == 'ok': m = _
            rec.ev('attach', ret=ret)
            continue
        cid += 1
        # candidates: unique tag in the first coordinate of the first row; 'same' gives the pair a shared coordinate
        n = 6
        X = np.arange(n * 2, dtype=float).reshape(n, 2) + 0.25
        X[0, 0] = cid
        sc.pair2 = [1, 4] if cid % 2 else [4, 2]
        if a['same']: X[4, 1] = X[1, 1] = X[2, 1]
        sc.pair_scores[cid], sc.abs_scores[cid] = a['sp'], a['sa']
        sc.similar = bool(a['similar'])
        sc.subs, sc.scored = [], {}
        o = a['o']
        sc.prev = [3] if o & 1 else []
        sc.prefer = {1, 2} if o & 2 else None
        sc.rns = False
        u = a['u'] / 1e6
        def fake(size=None):
            return u if size is None else np.full(size, u)
        if c['kind'] == 'align':
            L.determine_query_type = lambda X_, a=a: (a['sp'] > a['sa'], a['sa'], a['sp'])
        np.random.random = fake
        try:
            ret, r = call(m.select, X, a['k'], sc.prev, sc.prefer, sc.rns)
        finally:
            np.random.random = real_random
        sel, rs = [], []
        if ret == 'ok':
            if c['kind'] == 'align':
                rs = [num(v, 1) for v in r[1:] if v is not None]
                r = r[0]
            sel = [asint(v) for v in r]
        scored = [v for w, v in sorted(sc.scored.items()) if w in ('pair', 'comp') or (w == 'abs' and c['kind'] == 'rate')]
        rec.ev('call', u=a['u'], sp=a['sp'], sa=a['sa'], same=a['same'], similar=a['similar'], k=a['k'], ret=ret, sel=sel,
               subs=[s for s in sc.subs if s['who'] in ('pair', 'abs')], cand=cid, scored=scored, rs=rs)

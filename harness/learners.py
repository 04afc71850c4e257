"""Learner factories shared by the drivers."""
import lop

def plain(kind, alpha=1.0, opts={}):
    if kind == 'best': return lop.BestLearner(**opts)
    if kind == 'worst': return lop.WorstLearner(**opts)
    if kind == 'ucb': return lop.UCBLearner(alpha, **opts)
    if kind == 'random': return lop.RandomLearner(**opts)
    if kind == 'gvucb': return lop.GV_UCBLearner(alpha, **opts)
    if kind == 'mi':
        L = lop.MutualInfoLearner(**opts); L.M = 20
        return L
    if kind == 'bayes': return lop.BayesInfoGain(p_q_B_method=('probit', '99', '999')[int(2 * alpha) % 3], **opts)
    rq = {'num_pts': 6, 'num_Q': 6}
    if kind == 'acq': return lop.AcquisitionSelection(M=10, rep_Q_data=rq, **opts)
    if kind == 'acqsp': return lop.AcquisitionSelection(M=10, rep_Q_data=rq, alignment_f='spearman', **opts)
    if kind == 'absacq': return lop.AbsAcquisition(M=8, rep_Q_data=rq, **opts)
    raise KeyError(kind)

class Capped(lop.AcquisitionSelection):
    """The alignment decision asks for thousands of samples; a few are enough here."""
    @property
    def M(self): return self._m
    @M.setter
    def M(self, v): self._m = min(v, 40)


class Failing(Capped):
    """Sampling the fit to part of the data fails, on the first or the second part in turn."""
    calls = 0
    def get_samples_from_model(self, *a, **k):
        self.calls += 1
        # calls 1 2 | 1 2 3 | 1 2 | ...
        c = self.calls % 5
        if c in (2, 0): raise RuntimeError('sampling failed')
        return super().get_samples_from_model(*a, **k)


def make(kind):
    # 'best+a': always include the best point; 'best+p': prefer the pareto front by default
    if '+' in kind:
        kind, o = kind.split('+')
        return plain(kind, 1.0, dict(always_select_best='a' in o, default_to_pareto='p' in o))
    if kind == 'rate': return lop.RateChooseLearner(plain('acq'), plain('absacq'))
    if kind == 'mixcmp': return lop.MixedComparision(plain('acq'), plain('best'), plain('absacq'))
    if kind == 'fixed': return lop.MixedComparisionSetFixed(plain('best'), plain('ucb'))
    if kind == 'alt': return lop.MixedAlternating(plain('best'), plain('ucb'))
    if kind == 'eqcheck': return lop.MixedComparisionEqualChecking(plain('acq'), plain('best'), plain('absacq'))
    if kind == 'align': return lop.AlignmentDecision(Capped(M=10, rep_Q_data={'num_pts': 6, 'num_Q': 6}, alignment_f='spearman'), plain('best'), 0)
    if kind == 'alignfault':
        return lop.AlignmentDecision(Failing(M=10, rep_Q_data={'num_pts': 6, 'num_Q': 6}, alignment_f='spearman'), plain('best'), 0)
    if kind == 'mixed': return lop.MixedStrategy(plain('best'), plain('worst'), 0.5)
    if kind == 'decision': return lop.MixedDecision(plain('acq'), plain('best'), plain('absacq'), 0.4)
    if kind == 'decision2': return lop.MixedDecision2(plain('acq'), plain('best'), plain('absacq'), 0.4)
    return plain(kind)

"""Checks over the preference data machine: C01, C02, C03, C04, C10."""
DESIGN = dict(invariants=['MeaningKept', 'InRange', 'PriorOk', 'FreshPrediction', 'OrderKept', 'ScoresClamped'])


def design(run, pareto):
    run.model_check('PrefDataDesign', 'every history of additions, resets, prunings, prior additions and predictions on a small alphabet',
                    consts=dict(PointSet='<- Points3', Ratings='{1, 3}', Scores='{0, 500000}', MaxOps=run.pick(3, 4),
                                MaxPts=run.pick(4, 4), Pareto='TRUE' if pareto else 'FALSE'),
                    never_ok=() if pareto else ('DoPrior',), timeout=800, heap='8g', **DESIGN)


def histories(run, weights, n, dim=2, maxlen=10, maxbatch=3, maxpts=9, pareto=False, coords='{0, 1, 2, 3, 4, 5, 6}', tag='', redo='{"pref"}'):
    return run.generate('PrefDataGen', out_name='g%s%s%d%d' % (weights, tag, dim, pareto), simulate=n, depth=maxlen + 1,
                        consts=dict(Coords=coords, Dim=dim, MaxBatch=maxbatch, MaxLen=maxlen, MaxPts=maxpts,
                                    Pareto='TRUE' if pareto else 'FALSE', Weights='<- ' + weights, Redo=redo))


def judge(run, behs, only, sample=2, **kw):
    ev = run.drive('prefdata', behs, **kw)
    run.samples += [dict(behaviour=behs[0], events=[{k: v for k, v in e.items() if k != 'obs'} for e in ev if e['tid'] == 0][:4])]
    run.report(run.validate('PrefDataTrace', ev), behs, only=only)
    return ev


def replay(run, payload, only):
    judge(run, [payload['behaviour']], only)
    return run.finish()

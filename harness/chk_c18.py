def judge(run, behs, only):
    ev = run.drive('predict', behs, wall=run.pick(400, 700), beh_timeout=120)
    for e in ev: run.count('events ' + e['ev'])
    run.count('batched calls', sum(len(e.get('calls', [])) for e in ev))
    run.samples += [{k: e[k] for k in ('refmu', 'refvar', 'F', 'q') if k in e} for e in ev][:3]
    run.report(run.validate('PredictTrace', ev), behs, only=only)


def design(run):
    run.model_check('PredictDesign', 'predicting in parts: every number of points to the bound, part size and order',
                    consts={'MaxN': run.pick(33, 62), 'Sizes': '{1, 2, 15}', 'Vals': 5}, invariants=['InOrder', 'Done', 'BestSoFar', 'BestAtEnd'], properties=['Ends'])


def check(run, rp):
    only = ['C18', 'crash']
    if rp:
        judge(run, [rp['behaviour']], only); return run.finish()
    design(run)
    behs = run.generate('PredictGen', consts=dict(Kind='"batch"', Num=run.pick(400, 4000)))
    behs += run.generate('PredictGen', out_name='whole', consts=dict(Kind='"whole"', Num=run.pick(10, 40)))
    judge(run, behs, only)
    return run.finish()

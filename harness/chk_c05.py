def judge(run, behs, only):
    ev = run.drive('estimates', behs, wall=run.pick(300, 700))
    run.samples += [{k: e[k] for k in ('descs', 'est') if k in e} for e in ev][:3]
    run.count('models fitted', sum(len(e.get('descs', [])) for e in ev))
    run.report(run.validate('EstimatesTrace', ev), behs, only=only)


def design(run):
    run.model_check('EstimatesDesign', 'every description of a few comparisons and ratings of three items, rewritten; most likely integer assignments',
                    consts={'N': 3, 'MaxLabels': run.pick(2, 3), 'Rewrites': 2}, invariants=['SameMeaning', 'Negated', 'Law', 'Strict'])


def check(run, rp):
    only = ['C05', 'crash', 'generator']
    if rp:
        judge(run, [rp['behaviour']], only); return run.finish()
    design(run)
    judge(run, run.generate('EstimatesGen', consts=dict(Kind='"same"', Num=run.pick(250, 3000))), only)
    return run.finish()

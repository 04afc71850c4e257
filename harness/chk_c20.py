ONLY = ['C20', 'crash']


def judge(run, behs):
    ev = run.drive('session', behs, wall=run.pick(300, 750), beh_timeout=120)
    for e in ev: run.count('events ' + e['ev'])
    run.samples += [e for e in ev if e['ev'] in ('ask', 'answer', 'add')][:4]
    run.report(run.validate('SessionTrace', ev), behs, only=ONLY)


def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('SessionDesign', 'every session of a few rounds over a small pool, with refused answers, shown points and resets',
                    consts={'Pool': '{1, 2, 3}', 'MaxRounds': run.pick(3, 4), 'MaxQuery': run.pick(3, 3)}, invariants=['NothingLost', 'Formed', 'CountsAdd', 'Right', 'OwnRound'], properties=['Grows'])
    behs = run.generate('SessionGen', consts=dict(Num=run.pick(120, 1200), MinActs=2, MaxActs=6))
    behs += run.generate('SessionGen', out_name='long', consts=dict(Num=run.pick(12, 60), MinActs=12, MaxActs=24))
    judge(run, behs)
    return run.finish()

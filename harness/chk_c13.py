ONLY = ['C13', 'crash']

def judge(run, behs):
    ev = run.drive('pareto', behs, wall=run.pick(300, 700))
    run.samples += ev[:3]
    run.count('fronts', len(ev))
    run.report(run.validate('ParetoTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('ParetoDesign', 'the incremental algorithm on every sequence of up to %d points of a 3 by 3 grid' % run.pick(4, 5),
                    consts={'Points': '<- Pts2', 'MaxN': run.pick(4, 5)}, invariants=['Correct', 'Covered'], properties=['Finishes'], timeout=800, heap='8g')
    cs = run.generate('ParetoGen', out_name='all', consts=dict(Mode='"all"', MinN=0, MaxN=run.pick(4, 4), Num=0))
    cs += run.generate('ParetoGen', out_name='draw', consts=dict(Mode='"draw"', MinN=1, MaxN=9, Num=run.pick(2000, 20000)))
    cs += run.generate('ParetoGen', out_name='big', consts=dict(Mode='"draw"', MinN=1, MaxN=40, Num=run.pick(150, 1500)))
    cs += run.generate('ParetoGen', out_name='huge', consts=dict(Mode='"draw"', MinN=66, MaxN=run.pick(140, 280), Num=run.pick(40, 240)))
    judge(run, [dict(cases=cs[i:i + 100]) for i in range(0, len(cs), 100)])
    return run.finish()

ONLY = ['C15', 'crash']

def judge(run, behs):
    ev = run.drive('pairs', behs, wall=run.pick(300, 700))
    run.samples += [e for e in ev if e['ev'] in ('ranking', 'choice')][:4]
    for k in ('choice', 'reference', 'ranking', 'dk'): run.count(k, sum(e['ev'] == k for e in ev))
    run.report(run.validate('PairsTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('PairsDesign', 'every value assignment, reference and order of emission up to %d items' % run.pick(3, 4),
                    consts=dict(MaxN=run.pick(3, 4), Values=run.pick('{0, 1, 2}', '{0, 1}')), invariants=['Sound', 'Complete', 'NoUpset'], properties=['Ends'], timeout=800, heap='8g')
    cs = run.generate('PairsGen', out_name='all', consts=dict(Mode='"all"', MinN=1, MaxN=run.pick(4, 5), Num=0))
    cs += run.generate('PairsGen', out_name='draw', consts=dict(Mode='"draw"', MinN=1, MaxN=9, Num=run.pick(400, 6000)))
    cs += run.generate('PairsGen', out_name='huge', consts=dict(Mode='"draw"', MinN=36, MaxN=run.pick(60, 90), Num=run.pick(12, 80)))
    judge(run, [dict(cases=cs[i:i + 25]) for i in range(0, len(cs), 25)])
    return run.finish()

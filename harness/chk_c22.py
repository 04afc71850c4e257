ONLY = ['C22', 'crash']

def judge(run, behs):
    ev = run.drive('deriv', behs, wall=run.pick(300, 700))
    run.samples += [e for e in ev if e['ev'] == 'slope'][:3]
    for e in ev: run.count('slopes of ' + e.get('of', 'crash'))
    run.report(run.validate('DerivTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('DerivDesign', 'walks along every small quadratic', consts={'Coef': '<- Coefs', 'Steps': run.pick(6, 20)},
                    invariants=['CentralIsDerivative', 'Accepts', 'Refuses', 'Sums'])
    behs = run.generate('DerivGen', consts=dict(MinN=2, MaxN=4, Num=run.pick(250, 2500)))
    behs += run.generate('DerivGen', out_name='large', consts=dict(MinN=34, MaxN=run.pick(70, 90), Num=run.pick(10, 60)))
    judge(run, behs)
    return run.finish()

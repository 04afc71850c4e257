ONLY = ['C21', 'crash']
KINDS = ['linear', 'max', 'min', 'mix', 'squared', 'logistic', 'sqminmax', 'sinexp', 'mixture', 'static']

def judge(run, behs):
    ev = run.drive('fakefn', behs, wall=run.pick(300, 700))
    run.samples += [e for e in ev if e['ev'] == 'eval'][:3]
    run.count('evaluations', sum(e['ev'] == 'eval' for e in ev))
    run.report(run.validate('FakeFnTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('FakeFnDesign', 'every sequence of evaluations of pairs of points and randomizations', consts={'Points': '<- Pts', 'Weights': '<- Wts', 'MaxOps': run.pick(3, 4)},
                    invariants=['MemIsFunction', 'MemIsForm', 'SeenOk', 'Ordered'])
    behs = []
    for k in KINDS:
        behs += run.generate('FakeFnGen', out_name='fn' + k, simulate=run.pick(30, 400), depth=14, consts=dict(MaxLen=12, Kind='"%s"' % k))
    judge(run, behs)
    return run.finish()

ONLY = ['C19', 'crash']

def judge(run, behs, only=ONLY):
    ev = run.drive('kernel', behs, wall=run.pick(300, 700))
    run.samples += [{k: e[k] for k in ('tree', 'q', 'X', 'Y', 'cov') if k in e} for e in ev if e['ev'] == 'kern'][5:8]
    run.count('kernel evaluations', len(ev))
    run.report(run.validate('KernelsTrace', ev), behs, only=only)

def check(run, rp, only=ONLY):
    if rp:
        judge(run, [rp['behaviour']], only); return run.finish()
    run.model_check('KernelsDesign', 'every sum and product expression over small integer leaves; closed forms of the leaves on a grid',
                    consts={'MaxLeaves': run.pick(4, 5), 'Vals': run.pick('{0, 1, 2, 3}', '{0, 1, 2, 3}')}, invariants=['Parsed', 'OneEach', 'Slope', 'SumOrProduct'])
    behs = run.generate('KernelsGen', consts=dict(Depth=2, Big=0, Num=run.pick(250, 2500)))
    behs += run.generate('KernelsGen', out_name='deep', consts=dict(Depth=3, Big=0, Num=run.pick(60, 700)))
    behs += run.generate('KernelsGen', out_name='long', consts=dict(Depth=1, Big=1, Num=run.pick(24, 200)))
    judge(run, behs, only)
    return run.finish()

ONLY = ['C12', 'crash']

def judge(run, behs):
    ev = run.drive('sampler', behs, wall=run.pick(300, 700))
    run.samples += [e for e in ev if e['ev'] == 'chain'][:2] + [e for e in ev if e['ev'] == 'sets'][:2]
    for k in ('chain', 'walk', 'chance', 'sets', 'balance'): run.count(k, sum(e['ev'] == k for e in ev))
    run.report(run.validate('SamplerTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('SamplerDesign', 'every proposal and draw of the chain over four weighted states; the rejection sampler of sets',
                    consts={'States': '{1, 2, 3, 4}', 'Weight': '<- W', 'Grid': 4, 'Burn': 1, 'Num': run.pick(2, 3)},
                    invariants=['Counted', 'Follows', 'SetsOk', 'Balanced'])
    cs = run.generate('SamplerGen', out_name='chain', consts=dict(Mode='"chain"', Num=run.pick(2500, 20000)))
    cs += run.generate('SamplerGen', out_name='walk', consts=dict(Mode='"walk"', Num=run.pick(1000, 8000)))
    cs += run.generate('SamplerGen', out_name='sets', consts=dict(Mode='"sets"', Num=run.pick(1500, 8000)))
    cs = cs + run.generate('SamplerGen', out_name='longchain', consts=dict(Mode='"longchain"', Num=run.pick(6, 40)))
    cs = cs + run.generate('SamplerGen', out_name='long', consts=dict(Mode='"long"', Num=run.pick(8, 60)))
    bal = [dict(kind='balance', wl=a, wh=b, off=o, steps=run.pick(1500, 6000)) for a, b in ((1, 2), (1, 4), (3, 4), (2, 3), (1, 10), (7, 8))
           for o in (0, -50, 80)]
    judge(run, [dict(cases=cs[i:i + 40]) for i in range(0, len(cs), 40)] + [dict(cases=[b]) for b in bal])
    return run.finish()

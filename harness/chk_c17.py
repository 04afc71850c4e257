ONLY = ['C17', 'crash']

def judge(run, behs):
    ev = run.drive('likelihood', behs, wall=run.pick(300, 700))
    run.samples += [e for e in ev if e['ev'] in ('pref', 'ord') and len(e['F']) <= 2][:4]
    for k in ('pref', 'ord', 'abs', 'sum'): run.count(k, sum(e['ev'] == k for e in ev))
    run.report(run.validate('LikelihoodTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('LikelihoodDesign', 'a counted noise model: every value of three items and every list of up to 2 labels',
                    consts={'Values': run.pick('<- Values3', '<- Values4'), 'Noise': '<- NoiseV', 'Cuts': '<- CutsV', 'MaxLabels': run.pick(2, 3)},
                    invariants=['PrefLaws', 'Weak', 'RateLaws', 'SumLaw'], timeout=800, heap='8g')
    cs = run.generate('LikelihoodGen', consts=dict(MaxN=5, Num=run.pick(700, 6000)))
    cs += run.generate('LikelihoodGen', out_name='big', consts=dict(MaxN=9, Num=run.pick(60, 600)))
    judge(run, [dict(cases=cs[i:i + 15]) for i in range(0, len(cs), 15)])
    return run.finish()

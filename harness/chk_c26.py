import random
ONLY = ['C26', 'crash']


def judge(run, behs):
    ev = run.drive('best', behs, wall=run.pick(300, 700), beh_timeout=120)
    for e in ev: run.count(e['ev'] + (' ' + e['method'] if 'method' in e else '') + ('' if e.get('ret') == 'ok' else ' (raised)'))
    run.samples += [e for e in ev if e['ev'] in ('cdf', 'best')][:3]
    run.report(run.validate('BestTrace', ev), behs, only=ONLY)


def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('BestDesign', 'the chance of being the best over every few equally likely worlds of three candidates, before and after a change',
                    consts=dict(Worlds=run.pick(2, 3), Values=2, Steps=1), invariants=['Total', 'Laws', 'Bounded', 'Two'], timeout=800)
    run.model_check('BestTables', 'normal probabilities for every small mean and covariance', consts=dict(Steps=20),
                    invariants=['Rises', 'Orthants', 'Bounds', 'Even'], timeout=800)
    behs = []
    for kind, q, t, size in (('cdf', 900, 9000, 30), ('best', 600, 5000, 15), ('fit', 80, 600, 10), ('linear', 300, 3000, 30)):
        cs = run.generate('BestGen', out_name=kind, consts=dict(Kind='"%s"' % kind, Num=run.pick(q, t)))
        behs += [dict(cases=cs[i:i + size]) for i in range(0, len(cs), size)]
    random.Random(run.seed).shuffle(behs)
    judge(run, behs)
    return run.finish()

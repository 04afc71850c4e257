import random
ONLY = ['C25', 'crash']


def judge(run, behs):
    ev = run.drive('inform', behs, wall=run.pick(400, 750), beh_timeout=120)
    for e in ev: run.count(e['ev'] + ('' if e.get('ret') == 'ok' else ' (raised)'))
    run.samples += [e for e in ev if e['ev'] in ('gv', 'gain')][:3]
    run.report(run.validate('InformTrace', ev, chunks=run.pick(5, 16)), behs, only=ONLY)


def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    inv = ['TruthStays', 'TellsExactly', 'Bounded', 'OnceEach', 'Laws', 'Indifferent', 'Best']
    run.model_check('InformDesign', 'finding out which order of the items somebody has in mind, by every sequence of best queries',
                    consts=dict(Items=run.pick(3, 4), MaxPick=3, Weird='FALSE'), invariants=inv, properties=['Finds'], timeout=800)
    run.model_check('InformDesign', 'every small table of answer probabilities', consts=dict(Items=2, MaxPick=2, Weird='TRUE'), invariants=inv, timeout=800)
    behs = []
    for kind, q, t, size in (('mi', 350, 3000, 10), ('gv', 350, 3000, 10), ('acq', 200, 1800, 10), ('align', 300, 3000, 20), ('rep', 150, 1500, 20), ('bayes', 400, 3000, 20), ('abs', 24, 160, 3)):
        cs = run.generate('InformGen', out_name=kind, consts=dict(Kind='"%s"' % kind, Num=run.pick(q, t)))
        behs += [dict(cases=cs[i:i + size]) for i in range(0, len(cs), size)]
    random.Random(run.seed).shuffle(behs)
    judge(run, behs)
    return run.finish()

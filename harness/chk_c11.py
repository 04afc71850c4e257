ONLY = ['C11', 'crash']

def judge(run, behs):
    ev = run.drive('folds', behs, wall=run.pick(300, 700))
    run.samples += [e for e in ev if e['ev'] == 'fold'][:2] + [e for e in ev if e['ev'] == 'restrict'][:2]
    run.count('fold_calls', sum(e['ev'] == 'fold' for e in ev))
    run.count('restrictions', sum(e['ev'] == 'restrict' for e in ev))
    run.report(run.validate('CVFoldsTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    n = run.pick(4, 5)
    run.model_check('CVFoldsDesign', 'the fold algorithm under every random choice on every comparison graph of up to %d points, every number of folds' % n,
                    consts=dict(MaxN=n, MaxK=4), invariants=['SizeOk', 'PartOk', 'Disjoint'], properties=['Finishes'], timeout=800, heap='8g')
    cs = run.generate('CVFoldsGen', consts=dict(MinN=1, MaxN=12, Num=run.pick(1200, 8000)), timeout=600)
    cs += run.generate('CVFoldsGen', out_name='big', consts=dict(MinN=1, MaxN=40, Num=run.pick(60, 500)), timeout=600)
    cs += run.generate('CVFoldsGen', out_name='huge', consts=dict(MinN=52, MaxN=run.pick(110, 160), Num=run.pick(8, 60)), timeout=600)
    judge(run, [dict(cases=cs[i:i + 20]) for i in range(0, len(cs), 20)])
    return run.finish()

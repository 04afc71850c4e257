"""Checks over the selection machine: C07, C08."""
INV = ['FailsExactly', 'Complete', 'Sound', 'BestFirst', 'Skipped', 'NeverStuck', 'Monotone']


def design(run):
    run.model_check('SelectDesign', 'every selection call over up to %d candidates (all subsets, options, mean patterns)' % 3,
                    consts=dict(MaxN=3, Means=run.pick('{0, 1}', '{0, 1, 2}')), invariants=INV, timeout=800, heap='6g')


def cases(run, maxn, draw, dn=14):
    a = run.generate('SelectGen', out_name='all', consts=dict(MinN=1, MaxN=maxn, Mode='"all"', Count=0), timeout=800)
    d = run.generate('SelectGen', out_name='draw', consts=dict(MinN=4, MaxN=dn, Mode='"draw"', Count=draw), timeout=800)
    d += run.generate('SelectGen', out_name='huge', consts=dict(MinN=40, MaxN=run.pick(70, 120), Mode='"draw"', Count=run.pick(30, 200)), timeout=800)
    return a, d


def batch(cs, size=25):
    return [dict(cases=cs[i:i + size]) for i in range(0, len(cs), size)]


def judge(run, behs, only, **kw):
    ev = run.drive('select', behs, **kw)
    run.samples += [e for e in ev if e['ev'] == 'select'][:3]
    run.count('selection_calls', sum(e['ev'] == 'select' for e in ev))
    run.count('greedy_choices', sum(e['ev'] == 'greedy' for e in ev))
    run.report(run.validate('SelectTrace', ev), behs, only=only)


def replay(run, rp, only):
    judge(run, [rp['behaviour']], only)
    return run.finish()

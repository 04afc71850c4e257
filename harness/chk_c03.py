from prefdata import *
ONLY = ['C03', 'C01:prefs', 'crash']

def check(run, rp):
    if rp: return replay(run, rp, ONLY)
    design(run, True)
    n = run.pick(150, 1500)
    behs = []
    for dim, par in ((2, True), (1, True), (3, True), (2, False)):
        for coords in ('{0, 1, 2}', '{0, 1, 2, 3, 4, 5, 6, 7}'):
            behs += [dict(b, model='pgp') for b in histories(run, 'W3', n, dim=dim, maxlen=8, pareto=par, coords=coords, tag=str(len(coords)))]
    # points that differ by very little
    behs += [dict(b, model='pgp', per=2 ** 30) for b in histories(run, 'W3', run.pick(40, 300), dim=2, maxlen=8, pareto=True, coords='{0, 1, 2}', tag='near')]
    behs += [dict(b, model='plin') for b in histories(run, 'W3', n, dim=2, maxlen=8, pareto=True, coords='{0, 1, 2, 3}', tag='lin')]
    behs += [dict(b, model='pgp') for b in histories(run, 'W3', run.pick(10, 60), maxlen=20, maxbatch=8, maxpts=60, pareto=True, tag='long')]
    behs += [dict(b, model='pgp') for b in histories(run, 'W3b', run.pick(12, 80), maxlen=6, maxpts=200, pareto=True, tag='flat')]
    judge(run, behs, ONLY, wall=run.pick(250, 700))
    return run.finish()

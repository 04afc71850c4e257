from prefdata import *
ONLY = ['C02', 'crash']

def check(run, rp):
    if rp: return replay(run, rp, ONLY)
    design(run, False)
    n = run.pick(150, 1500)
    behs = []
    for dim, model, par in ((2, 'pgp', False), (1, 'pgp', False), (2, 'pgp', True), (2, 'plin', False)):
        behs += [dict(b, model=model, pred=1) for b in histories(run, 'W2', n, dim=dim, maxlen=8, maxpts=7, pareto=par)]
    for model, par in (('pgp', False), ('plin', False), ('pgp', True)):
        behs += [dict(b, model=model) for b in histories(run, 'W2b', run.pick(12, 80), dim=2, maxlen=5, maxpts=9, pareto=par, tag='bulk')]
    judge(run, behs, ONLY + ['C04'], wall=run.pick(250, 700))
    return run.finish()

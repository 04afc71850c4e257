from prefdata import *
ONLY = ['C01', 'crash']

def check(run, rp):
    if rp: return replay(run, rp, ONLY)
    design(run, False)
    n = run.pick(150, 1500)
    behs = []
    for dim, model in ((2, 'pgp'), (1, 'pgp'), (3, 'pgp'), (2, 'plin')):
        behs += [dict(b, model=model) for b in histories(run, 'W1', n, dim=dim, maxlen=12)]
    behs += [dict(b, model='gp') for b in histories(run, 'W5', n, dim=2, maxlen=10)]
    behs += [dict(b, model='pgp') for b in histories(run, 'W1', run.pick(10, 60), maxlen=40, maxbatch=8, maxpts=150, tag='long')]
    for dim, model in ((2, 'pgp'), (1, 'plin')):
        behs += [dict(b, model=model) for b in histories(run, 'W1b', run.pick(8, 60), dim=dim, maxlen=5, maxbatch=4, maxpts=9, tag='bulk')]
    judge(run, behs, ONLY, wall=run.pick(250, 700))
    return run.finish()

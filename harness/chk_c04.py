from prefdata import *
ONLY = ['C04', 'crash']

def check(run, rp):
    if rp: return replay(run, rp, ONLY)
    design(run, False)
    n = run.pick(120, 1200)
    behs = []
    for w, dim, model, par in (('W4', 2, 'pgp', False), ('W4', 1, 'pgp', False), ('W4', 2, 'pgp', True), ('W4p', 2, 'plin', False)):
        behs += [dict(b, model=model, pred=1) for b in histories(run, w, n, dim=dim, maxlen=10, maxpts=8, pareto=par)]
    behs += [dict(b, model='gp', pred=1, meanf=i % 2) for i, b in enumerate(histories(run, 'W5', n, dim=2, maxlen=10))]
    for w, dim, model, par, redo in (('W4r', 2, 'pgp', False, '{"pref", "ord", "abs"}'), ('W4r', 1, 'pgp', True, '{"pref", "ord", "abs"}'), ('W4pr', 2, 'plin', False, '{"pref"}'), ('W5r', 2, 'gp', False, '{"val"}')):
        behs += [dict(b, model=model, pred=1, meanf=i % 2) for i, b in enumerate(histories(run, w, run.pick(40, 300), dim=dim, maxlen=12, pareto=par, redo=redo, tag='redo'))]
    for w, dim, model, par in (('W4b', 2, 'pgp', False), ('W4pb', 2, 'plin', False), ('W5b', 2, 'gp', False)):
        behs += [dict(b, model=model, pred=1) for b in histories(run, w, run.pick(12, 80), dim=dim, maxlen=7, maxpts=80, pareto=par, tag='med')]
    judge(run, behs, ONLY, wall=run.pick(300, 700))
    return run.finish()

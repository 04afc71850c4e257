import random
from selectchk import *
ONLY = ['C08', 'crash']

def check(run, rp):
    if rp: return replay(run, rp, ONLY)
    design(run)
    a, d = cases(run, 4, run.pick(2500, 15000))
    cs = []
    rnd = random.Random(run.seed)
    for i, c in enumerate(a + d):
        cs.append(dict(c, kind=rnd.choice(('best', 'worst', 'ucb')), direct=rnd.randrange(3)))
    judge(run, batch(cs), ONLY, wall=run.pick(400, 800))
    return run.finish()

import random
from selectchk import *
ONLY = ['C07', 'crash']

def check(run, rp):
    if rp: return replay(run, rp, ONLY)
    design(run)
    a, d = cases(run, 4, run.pick(1500, 12000))
    cs = list(a)
    for i, c in enumerate(d):
        cs.append(dict(c, direct=i % 3))
    behs = batch(cs)
    # learners whose criterion is drawn at random or choose pairs
    rnd = random.Random(run.seed)
    two = [c for c in a if c['n'] >= 2] + [c for c in d if c['n'] <= 8]
    # (mostly calls that can be answered, most of them for two or three points)
    fits = lambda c: c['k'] <= c['n'] - len(set(c['prev']))
    two.sort(key=lambda c: (rnd.random() > (0.75 if fits(c) and c['k'] in (2, 3) else 0.25 if fits(c) else 0.1), rnd.random()))
    two = two[:len(two) // 3]
    heavy = [dict(c, kind=('acq', 'acqsp', 'mi', 'gvucb', 'bayes')[i % 5], direct=rnd.randrange(3), lin=(0, 0, 0, 0, 1, 10, 100, 1000)[(i // 5) % 8])
             for i, c in enumerate(rnd.sample(two, run.pick(800, 4500)))]
    run.note('linear_model_calls', sum(1 for c in heavy if c['lin']))
    behs += batch(heavy, 10)
    rating = [dict(c, kind='absacq', direct=rnd.randrange(3)) for c in rnd.sample(two, run.pick(60, 300))]
    behs += batch(rating, 2)
    run.note('rating_learner_calls', len(rating))
    judge(run, behs, ONLY, wall=run.pick(400, 800), beh_timeout=60)
    return run.finish()

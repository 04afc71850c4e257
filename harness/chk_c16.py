import random
ONLY = ['C16', 'crash']

def judge(run, behs):
    ev = run.drive('users', behs, wall=run.pick(300, 700))
    run.samples += [e for e in ev if e['ev'] in ('probs', 'rates')][:4]
    for k in ('probs', 'choose', 'given', 'rates', 'freq', 'tuned'): run.count(k, sum(e['ev'] == k for e in ev))
    run.report(run.validate('UsersTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('UsersDesign', 'every query of up to 3 items and every answer, perfect and noisy',
                    consts=dict(MaxN=3, Values='{0, 1, 2}', MaxQ=run.pick(2, 2)), invariants=['AnswersFit', 'Said', 'Law'], timeout=800, heap='8g')
    cs = run.generate('UsersGen', out_name='all', consts=dict(Mode='"all"', MaxN=run.pick(4, 5), Num=0))
    cs += run.generate('UsersGen', out_name='draw', consts=dict(Mode='"draw"', MaxN=8, Num=run.pick(600, 6000)))
    cs += run.generate('UsersGen', out_name='long', consts=dict(Mode='"draw"', MaxN=60, Num=run.pick(30, 300)))
    rnd = random.Random(run.seed)
    fr = [dict(kind='freq', y=[rnd.choice((-1, 0, 0.25, 0.5, 1)) for _ in range(rnd.choice((2, 3, 5)))], beta=rnd.choice((0, 10, 30, 60, 100)),
               n=400, user=u) for u in ('human', 'human2') for _ in range(run.pick(12, 60))]
    tn = [dict(kind='tune', seed=i, m=rnd.choice((8, 15, 30)), problems=1 + i % 3, envs=1 + (i // 3) % 2, p=rnd.choice((600, 700, 800, 900, 950)),
               ps=rnd.choice((700, 800, 900)), **dict(zip(('lo', 'hi'), rnd.choice(((100, 900), (100, 700), (200, 950), (50, 600), (300, 700))))), old=int(i % 4 == 3))
          for i in range(run.pick(24, 120))]
    judge(run, [dict(cases=cs[i:i + 25]) for i in range(0, len(cs), 25)] + [dict(cases=[t]) for t in fr + tn])
    return run.finish()

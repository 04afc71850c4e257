import chk_c05


def check(run, rp):
    only = ['C06', 'crash', 'generator']
    if rp:
        chk_c05.judge(run, [rp['behaviour']], only); return run.finish()
    chk_c05.design(run)
    behs = run.generate('EstimatesGen', consts=dict(Kind='"order"', Num=run.pick(500, 6000)))
    for b in behs:
        run.count('ordered pairs of items', b['better']); run.count('equal pairs of items', b['alike'])
    behs += run.generate('EstimatesGen', out_name='linear', consts=dict(Kind='"linear"', Num=run.pick(400, 5000)))
    chk_c05.judge(run, behs, only)
    return run.finish()

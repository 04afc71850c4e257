import chk_c18


def check(run, rp):
    only = ['C23', 'crash', 'witness']
    if rp:
        chk_c18.judge(run, [rp['behaviour']], only); return run.finish()
    chk_c18.design(run)
    chk_c18.judge(run, run.generate('PredictGen', consts=dict(Kind='"laplace"', Num=run.pick(300, 4000))), only)
    return run.finish()

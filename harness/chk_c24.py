import chk_c19
def check(run, rp): return chk_c19.check(run, rp, ['C24', 'crash'])

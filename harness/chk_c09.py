ONLY = ['C09', 'crash']
KINDS = ['rate', 'mixcmp', 'eqcheck', 'fixed', 'alt', 'align', 'mixed', 'peak', 'peak2', 'peak3', 'rev', 'decision', 'decision2']
FAR = ['fixed', 'alt', 'align', 'mixed', 'peak', 'peak2', 'peak3', 'rev', 'decision', 'decision2']  # long histories
INV = ['TypeOk', 'FixedStart', 'Alternates', 'ModeSticky', 'ModeMeaning', 'ProbOk', 'Declines']

def judge(run, behs):
    ev = run.drive('mixed', behs, wall=run.pick(300, 700))
    run.samples += [e for e in ev if e['ev'] == 'call'][:3]
    run.count('calls', sum(e['ev'] == 'call' for e in ev))
    run.report(run.validate('MixedTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('MixedDesign', 'every sequence of up to 18 calls and 1 re-attachment, every class of draw and scores, every strategy',
                    consts=dict(MaxCalls=18, MaxAttach=1), invariants=INV)
    behs = []
    for k in KINDS:
        behs += run.generate('MixedGen', out_name='mix' + k, simulate=run.pick(60, 800), depth=24, consts=dict(MaxLen=22, Far=0, Kind='"%s"' % k))
    for k in FAR:
        behs += run.generate('MixedGen', out_name='far' + k, simulate=run.pick(16, 150), depth=58, consts=dict(MaxLen=56, Far=1, Kind='"%s"' % k))
    judge(run, behs)
    return run.finish()

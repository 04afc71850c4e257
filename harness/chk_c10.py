from prefdata import *
ONLY = ['C10', 'crash']
PLAIN = ('best', 'worst', 'ucb', 'random', 'gvucb', 'mi', 'acq', 'acqsp', 'fixed', 'alt', 'align', 'alignfault', 'mixed',
         'best+a', 'ucb+ap', 'random+a', 'mi+a', 'acq+a')
SLOW = ('absacq', 'eqcheck', 'mixcmp', 'decision', 'decision2', 'rate')

def check(run, rp):
    if rp: return replay(run, rp, ONLY)
    run.model_check('AskDesign', 'every interleaving of additions, predictions and selections that fit part of the data and may fail at any step',
                    consts=dict(MaxData=2, MaxOps=run.pick(6, 9)), invariants=['Kept', 'Current'], properties=['Whole', 'Ends'], timeout=800)
    n = run.pick(20, 240)
    behs = []

    def spread(hs, learners, **kw):
        for i, b in enumerate(hs):
            ln = learners[i % len(learners)]
            behs.append(dict(b, learner=ln, pred=2, rtol=1000 if ln.startswith('align') else 20, **kw))
    spread(histories(run, 'W10', n * len(PLAIN), maxlen=9, maxpts=7)[:n * len(PLAIN)], PLAIN, model='pgp')
    spread(histories(run, 'W10', n * 4, maxlen=9, maxpts=7, pareto=True)[:n * 4], PLAIN, model='pgp')
    spread(histories(run, 'W10r', n * 4, maxlen=9, maxpts=9, pareto=True)[:n * 4], ('best', 'ucb', 'random', 'best+a'), model='pgp')
    spread(histories(run, 'W10', n, maxlen=9, maxpts=6, tag='slow')[:n + n // 2], SLOW, model='pgp')
    spread(histories(run, 'W10p', n * 4, maxlen=8, maxpts=7)[:n * 4], ('best', 'ucb', 'random', 'mi', 'mixed', 'alt', 'best+a', 'random+ap'), model='plin')
    spread(histories(run, 'W10g', n * 4, maxlen=8)[:n * 4], ('best', 'ucb', 'random', 'gvucb', 'mi', 'mixed', 'alt', 'ucb+a', 'gvucb+ap'), model='gp')
    ev = judge(run, behs, ONLY, wall=run.pick(400, 700))
    for e in ev:
        if e.get('op') == 'select': run.count('select ' + behs[e['tid']]['learner'] + ('' if e['ret'] == 'ok' else ' (raised)'))
        elif e.get('op') in ('predict', 'plarge', 'best', 'gethyper'): run.count(e['op'] + ('' if e['ret'] == 'ok' else ' (raised)'))
    return run.finish()

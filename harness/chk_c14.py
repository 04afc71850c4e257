ONLY = ['C14', 'crash']

def judge(run, behs):
    ev = run.drive('hyper', behs, wall=run.pick(300, 700))
    run.samples += [dict(tree=behs[0]['tree'], events=[e for e in ev if e['tid'] == 0][:3])]
    for e in ev: run.count(e.get('op', e['ev']))
    run.report(run.validate('HyperTrace', ev), behs, only=ONLY)

def check(run, rp):
    if rp:
        judge(run, [rp['behaviour']]); return run.finish()
    run.model_check('HyperDesign', 'every history of additions, resets, reads, writes and draws over two kernel expressions and every flag',
                    consts=dict(MaxOps=run.pick(3, 4), Vals='{1, 2}'), invariants=['RoundTrip', 'WriteBack', 'Distinct', 'Ordered'],
                    properties=['OnlyTheirs', 'DrawsOk'], timeout=800, heap='8g')
    behs = run.generate('HyperGen', consts=dict(Len_=12, Depth=2, Num=run.pick(350, 3000)))
    behs += run.generate('HyperGen', out_name='deep', consts=dict(Len_=16, Depth=4, Num=run.pick(60, 500)))
    # given breakpoints cannot be told from their last one, which is all a vector holds
    behs.append(dict(key='ordinal breakpoints', tree=['R'], n1=1, n3=1, only=1, model='pgp', breaks=[0.0, 0.1, 0.9, 1.0],
                     acts=[dict(op=o, i=i, x=[], how=0, lv=5) for i, o in enumerate(('ord', 'get', 'setget'))]))
    judge(run, behs)
    return run.finish()

"""Runs behaviours on the real lop code (under /opt/venv/bin/python).

usage: driver.py NAME IN OUT START BEH_TIMEOUT SEED
IN holds one behaviour per line; OUT gets one event per line and a __done__ line per behaviour.
Exit 3: the driver itself failed (not the code under test)."""
import sys, os, json, signal, traceback, importlib

class BehTimeout(BaseException):
    pass

def main():
    name, inp, out, start, tmo, seed = sys.argv[1:7]
    start, tmo, seed = int(start), int(tmo), int(seed)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    import pdb
    def _no_pdb(*a, **k): raise RuntimeError('pdb.set_trace reached')
    pdb.set_trace = _no_pdb
    import numpy as np, random
    np.seterr(all='ignore')
    import drv
    mod = importlib.import_module('drv_' + name)
    # in processor time, so that a busy machine does not look like a hang; the code under test may
    # swallow the exception (a bare except), so the flag decides
    fired = []
    def onalarm(sig, frm): fired.append(1); raise BehTimeout()
    signal.signal(signal.SIGPROF, onalarm)
    nto = 0
    with open(out, 'w') as fo:
        for ln, line in enumerate(open(inp)):
            if ln < start: continue
            beh = json.loads(line)
            rec = drv.Recorder(beh['id'])
            np.random.seed((seed * 1000003 + beh['id'] * 7919 + 17) % (2**32 - 1))
            random.seed(seed * 31 + beh['id'])
            fired.clear()
            signal.setitimer(signal.ITIMER_PROF, tmo, 5)
            try:
                mod.run(beh, rec)
                signal.setitimer(signal.ITIMER_PROF, 0)
                if fired: raise BehTimeout()
            except BehTimeout:
                signal.setitimer(signal.ITIMER_PROF, 0)
                rec.events.clear()
                rec.events.append(dict(tid=beh['id'], i=len(rec.events), ev='crash', why='timeout'))
                nto += 1
            except Exception as e:
                # Calls into lop are guarded where an error is a defined outcome; elsewhere the
                # unchanged code never raises, so an error ends the behaviour and TLC judges it.
                signal.setitimer(signal.ITIMER_PROF, 0)
                traceback.print_exc()
                rec.events.append(dict(tid=beh['id'], i=len(rec.events), ev='crash', why=type(e).__name__))
            for e in rec.events: fo.write(json.dumps(e) + '\n')
            fo.write(json.dumps(dict(ev='__done__', tid=beh['id'])) + '\n')
            fo.flush()
            if nto >= 3: os._exit(4)

main()

"""Helpers for drivers: event recording, guarded calls, integer scaling."""
import math
import numpy as np

BIG = 2000000000
SAT = 1000000000

class DriverFault(Exception):
    pass

class Recorder:
    def __init__(self, tid):
        self.tid = tid
        self.events = []
    def ev(self, ev, **kw):
        e = dict(tid=self.tid, i=len(self.events), ev=ev)
        e.update(kw)
        self.events.append(e)
        return e

def call(fn, *a, **k):
    """('ok', value) or ('raise', exception class name)."""
    from __main__ import BehTimeout
    try:
        return 'ok', fn(*a, **k)
    except BehTimeout:
        raise
    except Exception as e:
        return 'raise', type(e).__name__

def num(x, scale):
    """A number scaled to an int TLC can hold; saturated; NaN is the reserved value BIG."""
    try:
        x = float(x)
    except Exception:
        return BIG + 1
    if math.isnan(x): return BIG
    v = x * scale
    if v > SAT: return SAT
    if v < -SAT: return -SAT
    return int(round(v))

def vec(x, scale):
    a = np.asarray(x, dtype=float)
    return [num(v, scale) for v in a.reshape(-1)]

def shape(x):
    return [int(d) for d in np.shape(x)]

def asint(x):
    """An index as a plain int; -99 if it is not an integer scalar."""
    try:
        if isinstance(x, (bool, np.bool_)): return -99
        if isinstance(x, (int, np.integer)): return int(x)
        if isinstance(x, np.ndarray) and x.shape == () and np.issubdtype(x.dtype, np.integer): return int(x)
        return -99
    except Exception:
        return -99

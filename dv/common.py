"""What both execution modes share."""
import json, math


class Outcome:
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *types):
        return (not self.ok) and isinstance(self.exc, types)

    def __repr__(self):
        return f"Outcome(ok={self.ok}, value={self.value!r}, exc={self.exc!r})"


class Harness:
    """a proof harness: runs symbolically (for every input) and concretely"""

    def __init__(self, name, fn, functions=(), bound=None, sym=True, conc=True, runs=60, weight=1, opts=None, cseconds=None):
        self.name, self.fn, self.functions, self.bound = name, fn, list(functions), bound
        self.sym, self.conc, self.runs, self.weight, self.opts = sym, conc, runs, weight, opts or {}
        self.cseconds = cseconds


def harness(**kw):
    """decorator used by the spec modules"""
    def d(fn):
        h = Harness(kw.pop("name", fn.__name__), fn, **kw)
        fn.__globals__.setdefault("HARNESSES", []).append(h)
        return fn
    return d


def enc(v):
    """json-able rendering of an input"""
    import numpy as np
    if isinstance(v, np.ndarray):
        return {"array": [enc(x) for x in v.ravel().tolist()], "shape": list(v.shape), "dtype": str(v.dtype)}
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isnan(v):
            return {"f": "nan"}
        if math.isinf(v):
            return {"f": "inf" if v > 0 else "-inf"}
        return {"f": repr(v)}
    return {"repr": repr(v)}


def dec(j):
    import numpy as np
    if isinstance(j, dict):
        if "array" in j:
            return np.array([dec(x) for x in j["array"]], dtype=j["dtype"]).reshape(j["shape"])
        if "f" in j:
            return float(j["f"])
    return j

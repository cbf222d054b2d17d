#!/usr/bin/env python3
"""Cross-check of the numpy model: every program of shimcases.py is run with
the real numpy on concrete data, and by the verifier on symbolic data of
symbolic shape about which it is told these values; every element, shape,
type and exception of the real run has to be provable of the symbolic one.

A program the model refuses (Unsupported) is listed: this is a limit, not an
error.  Exit 1 on any difference."""
import sys, os, time, random, inspect, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"
if os.environ.get("DV_CHILD") != "1" and os.path.exists(VENV):
    env = dict(os.environ, DV_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", DV_REPO=os.path.join(HERE, "tools"))
    env.pop("PYTHONPATH", None)
    os.execve(VENV, [VENV, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np  # noqa: E402
import shimcases  # noqa: E402
import check as _check  # noqa: E402  (the process pool)
from dv import symvc, loader, core, vals, solve  # noqa: E402
from dv.common import Harness  # noqa: E402
from dv.arr import SymArray  # noqa: E402

VAL = [0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 1.25, -0.75, 2.0]


def draw(rng, name, dims):
    """a concrete input by the name of the parameter"""
    n, m = dims["n"], dims["m"]
    f = lambda: rng.choice(VAL)
    g = lambda: rng.choice(VAL + [float("nan"), float("nan")])
    if name in ("a", "b"):
        return np.array([[g() for _ in range(m)] for _ in range(n)])
    if name == "f":
        return np.array([[f() for _ in range(m)] for _ in range(n)])
    if name in ("p", "q"):
        return np.array([[rng.random() < .5 for _ in range(m)] for _ in range(n)])
    if name in ("v", "w"):
        return np.array([f() for _ in range(n)])
    if name == "c":
        return np.array([g() for _ in range(m)])
    if name == "r":
        return np.array([[f()] for _ in range(n)])
    if name in ("i", "j"):
        return np.array([rng.randrange(-5, 6) for _ in range(n)])
    if name == "t":
        return np.array([[[g() for _ in range(2)] for _ in range(m)] for _ in range(n)])
    if name in ("s", "t1"):
        return f()
    if name in ("n", "m"):
        return dims[name]
    raise KeyError(name)







def holds(vc, name, cond):
    """cond has to hold in the model; when this can not be proved, the model
    must at least not exclude it"""
    z = vals.bz(cond)
    st, be, _ = solve.prove(vc.ctx, z, 10, quick=True)
    if st == "proved":
        vc.run.obligation(name, "discharged", be)
        return
    st, be, _ = solve.prove(vc.ctx, core.bnot(z), 10, quick=True)
    if st == "proved":
        vc.fail(name)
    vc.run.obligation("(possible) " + name, "discharged", "weaker")


def symbolic(vc, name, v, dims):
    """an unknown of this type, told to have the value v"""
    if isinstance(v, np.ndarray):
        k = {"f": "f", "b": "b", "i": "i"}[v.dtype.kind]
        shp = []
        for d, n in enumerate(v.shape):
            key = f"dim_{n}_{d}"
            if key not in dims:
                if dims["symbolic"]:
                    x = vc.int(key)
                    vc.assume(x == n)
                else:
                    x = n
                dims[key] = x
            shp.append(dims[key])
        a = vc.array(name, tuple(shp), kind=k, nan=(k == "f"))
        for idx in np.ndindex(*v.shape):
            e, w = a.at(tuple(idx)), v[idx]
            if k == "f":
                F = vals.to_f(e)
                vc.assume_z(core.band(F.nan if np.isnan(w) else core.band(core.bnot(F.nan), F.v == vals.rv(float(w)))))
            elif k == "i":
                vc.assume_z(core.ieq(vals.to_int(e), int(w)))
            else:
                b = vals.bz(e)
                vc.assume_z(b if w else core.bnot(b))
        return a
    if isinstance(v, int):
        x = vc.int(name)
        vc.assume(x == v)
        return x
    x = vc.real(name)
    vc.assume_z(vals.to_f(x).v == vals.rv(v))
    return x


def compare(vc, got, want, at):
    if isinstance(want, (tuple, list)):
        n = len(got) if isinstance(got, (tuple, list)) else None
        if n != len(want):
            vc.fail(f"{at}: {n} results instead of {len(want)}")
        for i, (g, w) in enumerate(zip(got, want)):
            compare(vc, g, w, f"{at}.{i}")
        return
    if isinstance(want, np.ndarray):
        if not isinstance(got, SymArray):
            vc.fail(f"{at}: {type(got).__name__} instead of an array")
        if np.dtype(got.dtype).kind != want.dtype.kind:
            vc.fail(f"{at}: elements {got.dtype} instead of {want.dtype}")
        if len(got.shp) != want.ndim:
            vc.fail(f"{at}: {len(got.shp)} dimensions instead of {want.ndim}")
        for d, (g, w) in enumerate(zip(got.shp, want.shape)):
            holds(vc, f"{at}: length of axis {d}", vals.mkbool(core.ieq(g, w)))
        for idx in np.ndindex(*want.shape):
            one(vc, got.at(tuple(idx)), want[idx], f"{at}{list(idx)}")
        return
    one(vc, got, want, at)


def one(vc, e, w, at):
    if isinstance(e, SymArray) and len(e.shp) == 0:
        e = e.at(())
    if isinstance(w, str):
        if str(e) != w:
            vc.fail(f"{at}: {e} instead of {w}")
        return
    k = vals.kind_of(e)
    if isinstance(w, (bool, np.bool_)):
        if k != "b":
            vc.fail(f"{at}: a value of kind {k} instead of a boolean")
        b = vals.bz(e)
        holds(vc, f"{at} is {w}", vals.mkbool(b if w else core.bnot(b)))
    elif isinstance(w, (int, np.integer)):
        if k != "i":
            vc.fail(f"{at}: a value of kind {k} instead of an integer")
        holds(vc, f"{at} is {w}", vals.mkbool(core.ieq(vals.to_int(e), int(w))))
    else:
        if k != "f":
            vc.fail(f"{at}: a value of kind {k} instead of a float")
        F = vals.to_f(e)
        w = float(w)
        if np.isnan(w):
            c = F.nan
        elif np.isinf(w):
            c = F.pinf if w > 0 else F.ninf
        else:
            d = F.v - vals.rv(w)
            eps = vals.rv(1e-9)
            c = core.band(core.bnot(F.nan), core.bnot(F.pinf), core.bnot(F.ninf), d <= eps, -d <= eps)
        holds(vc, f"{at} is {w}", vals.mkbool(c))


def case(name, seed, mode):
    fn = getattr(shimcases, name)
    rng = random.Random(f"{name}-{seed}")
    dims = {"n": rng.choice([2, 3]), "m": rng.choice([2, 3])}
    if name in ("deleted_some", "taken", "position_1d", "inserted"):
        dims["n"] = 3
    if name == "reshaped" or name.startswith("division"):
        rng.random()
    pars = list(inspect.signature(fn).parameters)
    if pars == ["s", "t"]:
        pars = ["s", "t1"]
    inp = {}
    for p in pars:
        inp[p] = draw(rng, p, dims)
    if name == "division":
        inp["b"] = np.where(inp["b"] == 0, 4.0, inp["b"])
    if name == "division_scalar":
        inp["s"] = inp["s"] or 4.0
        inp["a"] = np.where(inp["a"] == 0, 4.0, inp["a"])
    with np.errstate(all="ignore"):
        import copy as cp
        try:
            want = ("value", fn(*cp.deepcopy(list(inp.values()))))
        except Exception as e:
            want = ("raises", type(e))

    def h(vc):
        mod = loader.load("shimcases")
        dims = {"symbolic": mode}
        args = [symbolic(vc, k, v, dims) for k, v in inp.items()]
        r = vc.call(getattr(mod, name), *args)
        if want[0] == "raises":
            if r.ok:
                vc.fail(f"no {want[1].__name__}")
            if not issubclass(want[1], type(r.exc)) and not isinstance(r.exc, want[1]):
                vc.fail(f"{type(r.exc).__name__} instead of {want[1].__name__}: {r.exc}")
            holds(vc, "raises", True)
            return
        if not r.ok:
            vc.fail(f"raises {type(r.exc).__name__}: {r.exc}")
        compare(vc, r.value, want[1], "result")
    run = symvc.SymRun(Harness(name, h), time.time() + 60, {})
    run.explore(300)
    r = run.result()
    return {"unsupported": r["unsupported"], "fails": [(f["name"], f["status"]) for f in r["fails"]], "errors": r["errors"], "budget": r["budget"],
            "obligations": sum(o["total"] for o in r["obs"].values()), "weaker": sum(o["total"] for k, o in r["obs"].items() if k.startswith("(possible)")), "inputs": {k: repr(v) for k, v in inp.items()}}


def main():
    names = [n for n, f in inspect.getmembers(shimcases, inspect.isfunction) if not n.startswith("_")]
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    if only:
        names = only
    seeds = 2 if "--deep" not in sys.argv else 12
    jobs = [((n, f"{'symbolic' if m else 'given'} shape {s}"), case, (n, s, m), 90) for n in names for s in range(seeds) for m in (True, False)]
    res = _check.Pool(8).run(jobs)
    bad, limits, total, undec, weak = [], {}, 0, [], {}
    for (n, s), (st, r) in sorted(res.items()):
        if st != "ok":
            bad.append((n, s, r))
            continue
        total += r["obligations"]
        if r["weaker"]:
            weak.setdefault(n, 0)
            weak[n] += r["weaker"]
        for u in r["unsupported"]:
            limits.setdefault((n, s[:8]), u)
        for f, status in r["fails"]:
            (bad if status != "unknown" else undec).append((n, s, f, status, r["inputs"]))
        for e in r["errors"]:
            bad.append((n, s, e))
        if r["budget"]:
            undec.append((n, s, r["budget"]))
        if not r["obligations"] and not r["unsupported"]:
            bad.append((n, s, "no obligation"))
    for b in bad:
        print("DIFFERENT", *b)
    for b in undec:
        print("undecided", *b)
    for (n, s), u in limits.items():
        print(f"not modelled ({s.strip()} shape): {n}: {u}")
    for n, k in weak.items():
        print(f"weaker than numpy: {n}: {k} facts possible but not implied")
    print(f"numpy model: {len(names)} programs, {total} obligations, {len(bad)} differences, {len(undec)} undecided, {len(limits)} not modelled, {sum(weak.values())} weaker")
    sys.stdout.flush()
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    main()

"""C07: merging rings."""
from dv.common import harness
from specs.ringlib import system, data_is, ordered_arrays

LEVEL = "other"
EXPLANATION = "contracts discharged path by path for arbitrary ring parameters; the number of rings is bounded per harness, so the harnesses are exhaustive only up to the stated bound"
FUN = ["RingSystem.RingSystem.merge_rings"]


def merged(vc, I, O, T, tol):
    """every maximal run of adjoining rings of equal transmission as one ring"""
    A, B, C = [I[0]], [O[0]], [T[0]]
    for i, o, t in zip(I[1:], O[1:], T[1:]):
        if vc.branch(vc.and_(abs(i - B[-1]) < tol, t == C[-1])):
            B[-1] = o
        else:
            A.append(i)
            B.append(o)
            C.append(t)
    return A, B, C


def tie_free(vc, I, O, tol):
    """concrete mode: no gap within rounding of the tolerance"""
    if not vc.symbolic:
        for i, o in zip(I[1:], O):
            vc.assume(abs(abs(i - o) - tol) > 1e-12)


@harness(functions=FUN, bound="up to four rings", runs=500, weight=5)
def merge(vc):
    s, m = system(vc, vc.seq("n", 1, 4))
    default = vc.choice("tolerance", ["given", "default"])
    tol = 1e-6 if default == "default" else vc.real("tol", 0)
    vc.assume(tol > 0)
    tie_free(vc, m["I"], m["O"], tol)
    out = vc.call(s.merge_rings) if default == "default" else vc.call(s.merge_rings, tol)
    vc.check("merging succeeds", out.ok)
    A, B, C = merged(vc, m["I"], m["O"], m["T"], tol)
    data_is(vc, s, A, B, C, m, "merged")
    out = vc.call(s.merge_rings) if default == "default" else vc.call(s.merge_rings, tol)
    vc.check("merging again succeeds", out.ok)
    data_is(vc, s, A, B, C, m, "merged again")


@harness(functions=FUN + ["RingSystem.RingSystem.split_rings"], bound="up to two rings, two or three divisions", runs=300, weight=5)
def undoes_split(vc):
    n = vc.seq("n", 1, 2)
    s, m = system(vc, n)
    tol = 1e-6
    for k in range(n - 1):
        vc.assume(vc.or_(vc.not_(m["T"][k] == m["T"][k + 1]), abs(m["I"][k + 1] - m["O"][k]) > 2e-6))
    s.split_rings(vc.seq("d", 2, 3))
    out = vc.call(s.merge_rings, tol)
    vc.check("merging succeeds", out.ok)
    data_is(vc, s, m["I"], m["O"], m["T"], m, "split and merged")


@harness(functions=FUN, sym=False, runs=300, bound="concrete: up to ten rings")
def merge_many(vc):
    n = vc.seq("n", 1, 10)
    I, O, T = ordered_arrays(vc, n)
    T = [t if vc.choice(f"same{k}", [True, False, True]) else T[0] for k, t in enumerate(T)]
    s, m = system(vc, n, arrays=(I, O, T))
    tol = vc.choice("tol", [1e-6, 1e-4, 1e-9, 0.5])
    tie_free(vc, I, O, tol)
    s.merge_rings(tol)
    A, B, C = merged(vc, I, O, T, tol)
    data_is(vc, s, A, B, C, m, "merged")

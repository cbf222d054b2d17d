"""Discharging one obligation: z3 (several strategies), then cvc5."""
import time, subprocess, os, tempfile, shutil
import z3
from . import core, poly
from .core import zb, bnot

CVC5 = shutil.which("cvc5") or "/usr/local/bin/cvc5"


def symbols(t, memo={}):
    """ids of uninterpreted symbols in a term"""
    seen, st, out = set(), [t], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
    return out


def cone(facts, goal):
    """facts connected to the goal through shared symbols"""
    syms = symbols(goal)
    fs = [(f, symbols(f)) for f in facts]
    chosen = [False] * len(fs)
    changed = True
    while changed:
        changed = False
        for i, (f, s) in enumerate(fs):
            if not chosen[i] and (s & syms or not s):
                chosen[i] = True
                if s - syms:
                    syms |= s
                    changed = True
    return [f for (f, s), c in zip(fs, chosen) if c]


def ackermann(fs):
    """replace applications of uninterpreted functions (with congruence) and
    to_real(int) terms by fresh reals; unsat of the result implies unsat"""
    table = {}
    apps = {}
    memo = {}
    cnt = [0]

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        r = t
        if z3.is_app(t) and t.num_args():
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED or d.kind() == z3.Z3_OP_TO_REAL and not z3.is_int_value(t.arg(0)):
                cnt[0] += 1
                r = z3.Const(f"ack!{cnt[0]}", t.sort())
                apps.setdefault(d.name() if d.kind() == z3.Z3_OP_UNINTERPRETED else "to_real", []).append((t, r))
            else:
                ch = [go(c) for c in t.children()]
                if any(a.get_id() != b.get_id() for a, b in zip(ch, t.children())):
                    r = t.decl()(*ch) if d.kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*ch) if d.kind() == z3.Z3_OP_AND else z3.Or(*ch))
        memo[k] = (r, t)
        return r
    return [go(f) for f in fs]


def has_int(fs):
    seen, st = set(), list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int(x):
            return True
        st.extend(x.children())
    return False


def drop_int(fs):
    """facts without integer terms (dropping facts is sound for unsat)"""
    return [f for f in fs if not has_int([f])]


def run_cvc5(fs, ms):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        r = subprocess.run([CVC5, f"--tlimit={int(ms)}", name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else ""
        return out
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(name)


def run_z3(fs, ms):
    """the z3 program, on the text of the obligation (another order of terms)"""
    s = z3.Solver()
    s.add(*fs)
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(s.to_smt2())
        name = f.name
    try:
        r = subprocess.run(["z3-new", f"-T:{max(1, int(ms / 1000))}", name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else ""
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(name)


def prove(ctx, goal, left, quick=False):
    """-> (status, back end, model): proved / sat / unknown"""
    if goal is True:
        return "proved", "syntactic", None
    neg = zb(bnot(goal))
    # first without the quantified facts, which most obligations do not need
    s = ctx.solver
    s.push()
    s.add(neg)
    s.set("timeout", 400)
    try:
        if s.check() == z3.unsat:
            return "proved", "z3", None
    finally:
        s.pop()
        s.set("timeout", 1500)
    ctx.instantiate()
    if ctx.defs:
        s.push()
        s.add(neg)
        s.set("timeout", 4000)
        try:
            if s.check() == z3.unsat:
                return "proved", "z3", None
        finally:
            s.pop()
            s.set("timeout", 1500)
        # unfold the products
        return unfolded(ctx, neg, left, quick)
    if poly.identity(ctx, goal):
        return "proved", "polynomial normal form", None
    s = ctx.solver
    cap = max(0.5, min(left, 60))
    s.push()
    s.add(neg)
    s.set("timeout", 2500)
    try:
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", None
        model = s.model() if r == z3.sat else None
        if r == z3.sat:
            m2 = small_model(ctx, s)
            return "sat", "z3", m2 or model
    finally:
        s.pop()
        s.set("timeout", 1500)
    if quick:
        return "unknown", "z3", None
    facts = cone([zb(f) for f in ctx.pc], neg)
    allf = facts + [neg]
    if os.environ.get("DV_DUMP"):
        t = z3.Solver()
        t.add(allf)
        open(os.environ["DV_DUMP"], "a").write(t.to_smt2() + "\n;;;;;;;;\n")
    # z3 on the sliced problem, fresh solver
    r, m = z3_fresh(allf, 4000)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat" and len(facts) == len(ctx.pc):
        return "sat", "z3", m
    pur = ackermann(allf)
    for tac, ms in (("nlsat", 6000), ("nra", 4000)):
        r = z3_nl([f for f in pur if not has_int([f])], tac, ms)
        if r == "unsat":
            return "proved", "z3-" + tac, None
    r = run_cvc5(allf, min(cap * 1000, 10000))
    if r == "unsat":
        return "proved", "cvc5", None
    r = z3_nl([f for f in pur if not has_int([f])], "nlsat", 25000 if left > 40 else 5000)
    if r == "unsat":
        return "proved", "z3-nlsat", None
    r, m = z3_fresh([zb(f) for f in ctx.pc] + [neg], 10000 if left > 60 else 3000)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat":
        return "sat", "z3", m
    return "unknown", "all", None


LAWS = {}


def prove_law(hyps, concl, name):
    """a statement about real variables, on its own"""
    if name in LAWS:
        return LAWS[name]
    fs = hyps + [z3.Not(concl)]
    LAWS[name] = ("unknown", "all")
    for kind, ms in (("z3", 1000), ("nlsat", 3000), ("z3", 5000), ("nlsat", 20000), ("nra", 10000)):
        r = z3_fresh(fs, ms)[0] if kind == "z3" else z3_nl(fs, kind, ms)
        if r == "unsat":
            LAWS[name] = ("proved", "z3" if kind == "z3" else "z3-" + kind)
            break
        if r == "sat":
            break
    else:
        if run_cvc5(fs, 20000) == "unsat":
            LAWS[name] = ("proved", "cvc5")
    return LAWS[name]


def unfolded(ctx, neg, left, quick):
    """the obligation with the definitions of the products"""
    facts = cone([zb(f) for f in ctx.pc], neg)
    names = set()
    for f in facts + [neg]:
        names |= terms(f)
    defs = [d for p, d in ctx.defs if p.get_id() in names]
    allf = facts + defs + [neg]
    if os.environ.get("DV_DUMP"):
        t = z3.Solver()
        t.add(facts + [neg])
        open(os.environ["DV_DUMP"] + str(os.getpid()), "a").write(t.to_smt2() + "\n;;;;;;;;\n")
    if defs:
        r, m = z3_fresh(facts + [neg], 1500)
        if r == "unsat" or not quick and run_z3(facts + [neg], min(left, 12) * 1000) == "unsat":
            return "proved", "z3", None
    r, m = z3_fresh(allf, 5000)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat" and len(facts) == len(ctx.pc) and len(defs) == len(ctx.defs):
        return "sat", "z3", m
    if quick:
        return "unknown", "z3", None
    for ms in (5000, 20000 if left > 40 else 4000):
        r = z3_nl([f for f in ackermann(allf) if not has_int([f])], "nlsat", ms)
        if r == "unsat":
            return "proved", "z3-nlsat", None
        if ms == 5000 and run_cvc5(allf, min(left, 10) * 1000) == "unsat":
            return "proved", "cvc5", None
    r, m = z3_fresh([zb(f) for f in ctx.pc] + [d for _, d in ctx.defs] + [neg], 10000 if left > 60 else 3000)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat":
        return "sat", "z3", m
    return "unknown", "all", None


def terms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            st.extend(x.children())
    return seen


def z3_fresh(fs, ms):
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.add(*fs)
    r = s.check()
    return str(r), (s.model() if r == z3.sat else None)


def z3_nl(fs, tac, ms):
    try:
        if tac == "nlsat":
            t = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "purify-arith", "simplify", "tseitin-cnf", "nlsat")
        else:
            t = z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra")
        s = z3.TryFor(t, int(ms)).solver()
        s.add(*fs)
        return str(s.check())
    except z3.Z3Exception:
        return "unknown"


def small_model(ctx, s):
    """prefer a counter-model with small arrays"""
    dims = []
    for n, k, p in ctx.inputs:
        if k == "array":
            dims += [d for d in p[0] if not isinstance(d, int)]
        if k == "int":
            dims.append(p)
    if not dims:
        return None
    for b in (4, 12):
        s.push()
        s.add(*[z3.And(d <= b, d >= -b) for d in dims])
        try:
            if s.check() == z3.sat:
                return s.model()
        finally:
            s.pop()
    return None

"""Path exploration context of the deductive verifier.

A run of a harness executes the repository's own functions on symbolic
values.  Every branch on a symbolic condition is a decision; the runner
re-executes the harness for every feasible decision sequence, so the
obligations generated cover every path.
"""
import z3, time, itertools

class Engine(BaseException):
    """Not catchable by the `except Exception` of the code under test."""

class Abort(Engine):
    """This path is infeasible or finished."""

class Unsupported(Engine):
    """The code uses something the verifier has no semantics for."""

class Branching(Engine):
    """a decision where none is allowed"""

class Budget(Engine):
    pass

B = None            # current Ctx


def ctx():
    return B


def is_z3(x):
    return isinstance(x, z3.AstRef)


# --- mixed python / z3 booleans -------------------------------------------
def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bnot(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def bite(c, a, b):
    """ite over booleans."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    return z3.If(c, a, b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class QFact:
    """forall idx in range(shape): body(idx).  Instantiated at recorded
    index tuples when an obligation is discharged."""
    __slots__ = ("shape", "body", "arity", "done", "name", "pairs")

    def __init__(self, shape, body, name="", pairs=False):
        self.pairs = pairs      # instantiated at all pairs of recorded indices
        self.shape = shape
        self.body = body
        self.arity = len(shape)
        self.done = set()
        self.name = name


class Ctx:
    def __init__(self, prefix=(), opts=None, deadline=None):
        self.opts = dict(opts or {})
        self.prefix = list(prefix)
        self.trace = []          # (choice, alternatives)
        self.defs = []           # (term, definition): unfolded in proofs only
        self.pc = []             # path condition and facts, z3 booleans
        self.counters = {}
        self.qfacts = []
        self.tuples = {}         # arity -> list of index tuples
        self.tupkeys = set()
        self.cache = {}          # definitional caches (sqrt, trig, ...)
        self.inputs = []         # (name, kind, payload)
        self.obligations = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.solver_time = 0.0
        self.feas = 0
        self.deadline = deadline
        self.reached = set()
        self.tokens = {}
        self.token_of = {}
        self.fs = None
        self.abstract = False    # an over-approximation was used on this path
        self.notes = set()
        self.in_check = False
        self.speculative = 0
        self.bounded = set()
        self.in_inst = False
        self.linear = False      # no decision is allowed
        self.run = None          # the run that forks at decisions

    # -- naming ------------------------------------------------------------
    def name(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return f"{base}!{n}"

    def fresh_real(self, base="r"):
        return z3.Real(self.name(base))

    def fresh_int(self, base="i"):
        return z3.Int(self.name(base))

    def fresh_bool(self, base="b"):
        return z3.Bool(self.name(base))

    # -- facts -------------------------------------------------------------
    def fact(self, f):
        """A definitional fact about fresh symbols (sound everywhere)."""
        if f is True or (is_z3(f) and z3.is_true(f)):
            return
        f = zb(f)
        self.pc.append(f)
        self.solver.add(f)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Abort("assume false")
        self.fact(f)

    def qfact(self, shape, body, name="", pairs=False):
        self.qfacts.append(QFact(shape, body, name, pairs))

    def record(self, idx):
        """Remember an index tuple for quantifier instantiation."""
        key = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)
        k2 = (len(idx), key)
        if k2 in self.tupkeys:
            return
        self.tupkeys.add(k2)
        self.tuples.setdefault(len(idx), []).append(tuple(idx))

    def instantiate(self, rounds=3):
        if self.in_inst:
            return
        self.in_inst = True
        try:
            self._instantiate(rounds)
        finally:
            self.in_inst = False

    def _instantiate(self, rounds):
        for _ in range(rounds):
            changed = False
            for q in list(self.qfacts):
                for t in ([a + b for a in self.tuples.get(1, []) for b in self.tuples.get(1, [])] if q.pairs else list(self.tuples.get(q.arity, []))):
                    key = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in t)
                    if key in q.done:
                        continue
                    q.done.add(key)
                    changed = True
                    guard = []
                    for i, n in zip(t, q.shape):
                        guard.append(ile(0, i))
                        guard.append(ilt(i, n))
                    g = band(*guard)
                    if g is False:
                        continue
                    self.fact(bor(bnot(g), q.body(t)))
            if not changed:
                break

    # -- decisions ---------------------------------------------------------
    def check_sat(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of the harness exhausted")
        t = time.time()
        self.feas += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond) if not z3.is_const(cond) else cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        pos = len(self.trace)
        if self.in_inst:
            if self.check_sat(z3.Not(cond)) == z3.unsat:
                return True
            if self.check_sat(cond) == z3.unsat:
                return False
            raise Unsupported("decision inside a quantified fact")
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.trace.append((c, None))
            f = cond if c == 0 else z3.Not(cond)
            self.pc.append(f)
            self.solver.add(f)
            return c == 0
        if len(self.trace) > 4000:
            raise Unsupported("path too long")
        rt = self.check_sat(cond)
        rf = self.check_sat(z3.Not(cond))
        if rt != z3.unsat and rf != z3.unsat and self.qfacts:
            n = len(self.pc)
            self.instantiate(2)
            if len(self.pc) != n:
                rt = self.check_sat(cond)
                rf = self.check_sat(z3.Not(cond)) if rt != z3.unsat else rf
        alts = []
        if rt != z3.unsat:
            alts.append(0)
        if rf != z3.unsat:
            alts.append(1)
        if not alts:
            raise Abort("infeasible")
        c = self.decide(alts)
        f = cond if c == 0 else z3.Not(cond)
        self.pc.append(f)
        self.solver.add(f)
        return c == 0

    def choice(self, n):
        """Nondeterministic choice among n alternatives (all explored)."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.trace.append((c, None))
            return c
        return self.decide(list(range(n)))

    def decide(self, alts):
        """takes one of the alternatives; the others are explored as well, by
        forked processes (or by running the harness again)"""
        if self.linear and len(alts) > 1:
            raise Branching()
        if len(alts) > 1 and self.run is not None:
            for a in alts[1:]:
                if self.run.fork():
                    self.trace.append((a, None))
                    return a
            self.trace.append((alts[0], None))
            return alts[0]
        self.trace.append((alts[0], list(alts)))
        return alts[0]

    # -- string tokens for renderings of symbolic values --------------------
    def token(self, part, shape="{}"):
        key = part
        if key in self.token_of:
            return self.token_of[key]
        n = len(self.tokens)
        s = "\ue000" + shape.format(n) + "\ue001"
        self.tokens[s] = part
        self.token_of[key] = s
        return s


def same_term(a, b):
    """the same constant or term"""
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    return not is_z3(a) and not is_z3(b) and type(a) is type(b) and a == b


def same_elem(a, b):
    """the same array element (an extended real or a single term)"""
    if type(a).__name__ == "F":
        return all(same_term(getattr(a, n), getattr(b, n)) for n in ("v", "nan", "pinf", "ninf"))
    return same_term(a, b)


# --- integer terms ----------------------------------------------------------
def iz(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def ile(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return iz(a) <= iz(b)


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return iz(a) < iz(b)


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return True
    return iz(a) == iz(b)


def isimp(x):
    if isinstance(x, int):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    s = z3.simplify(x)
    if z3.is_int_value(s):
        return s.as_long()
    return s


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return isimp(iz(a) + iz(b))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return isimp(iz(a) - iz(b))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(a, int) and a == 1:
        return b
    if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
        return 0
    return isimp(iz(a) * iz(b))


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return isimp(z3.If(c, iz(a), iz(b)))


def must(cond):
    """Is cond implied by the path condition?  (no decision recorded)"""
    if isinstance(cond, bool):
        return cond
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    if B.in_inst:
        return B.check_sat(z3.Not(cond)) == z3.unsat
    pos = len(B.trace)
    if pos < len(B.prefix):
        c = B.prefix[pos]
        B.trace.append((c, None))
        return c == 1
    c = 1 if B.check_sat(z3.Not(cond)) == z3.unsat else 0
    B.trace.append((c, [c]))
    return c == 1


def branch(cond):
    return B.branch(cond) if not isinstance(cond, bool) else cond

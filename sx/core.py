"""Symbolic values and the path explorer.

The functions of /repo are *executed* by CPython on the values defined here.
Every operator builds an SMT term; every truth test on a symbolic condition
(`SymBool.__bool__`) is a branch point at which the explorer asks the solver
which sides are feasible and later explores all of them (depth first, by
re-execution).  Integers are bit-vectors whose width grows with the value
range, so that the arithmetic is exactly that of Python's unbounded ints:
no operation can wrap.
"""

import os as _os
import sys as _sys
import time as _time
from fractions import Fraction

import z3

# --------------------------------------------------------------------------
# Control-flow exceptions.  BaseException, so that `except Exception` in the
# code under test does not swallow them.


class SxControl(BaseException):
    def __init__(self, *args):
        BaseException.__init__(self, *args)
        # remembered even if the code under test swallows the exception
        if Engine.cur is not None and not isinstance(self, SymHash):
            if Engine.cur.control is None:
                Engine.cur.control = self


class PathAbort(SxControl):
    """This path is infeasible or was cut by an assumption."""


class Inconclusive(SxControl):
    """The engine could not decide something (timeout, too many values)."""


class SymHash(SxControl):
    """hash() of a symbolic value while probing a dictionary."""


class StopExploration(SxControl):
    pass


# --------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0          # assertions discharged by the solver / folded
        self.solver_checks = 0   # assertions that needed a solver verdict
        self.branches = 0


def site():
    """Where in the program a decision is taken (to detect divergence)."""
    f = _sys._getframe(2)
    while f is not None and f.f_globals.get("__name__", "").startswith("sx."):
        f = f.f_back
    return (id(f.f_code), f.f_lineno) if f is not None else None


class Engine:
    """State of one path of one job."""

    cur = None

    def __init__(self, explorer, prefix, model):
        self.x = explorer
        self.prefix = prefix
        self.pos = 0
        self.log = []
        self.solver = explorer.new_solver()
        self.model = model
        self.known = {}
        self.inputs = {}          # name -> (kind, term or list of terms, meta)
        self.env = {}
        self.markers = {}
        self.reached = set()
        self.notes = []
        self.probing = False
        self.nconc = 0
        self.keep = []
        self.floors = {}
        self.fresh = {}
        self.dead = False
        self.control = None
        self.conc_hook = None

    # -- solver -----------------------------------------------------------

    def check(self, *extra):
        t = _time.perf_counter()
        self.second = None
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self.retry(extra)
        dt = _time.perf_counter() - t
        self.x.stats.queries += 1
        self.x.stats.solver_s += dt
        return r == z3.sat

    def retry(self, extra):
        """A second opinion from a fresh solver, without incremental state."""
        fresh = z3.SimpleSolver()
        fresh.set("timeout", 60000)
        fresh.set("arith.solver", 2)
        fresh.add(self.solver.assertions())
        fresh.add(*extra)
        r = fresh.check()
        if r == z3.unknown:
            raise Inconclusive("solver: " + fresh.reason_unknown())
        if r == z3.sat:
            self.second = fresh.model()
        return r

    def last_model(self):
        return self.second if self.second is not None else self.solver.model()

    def add(self, cond):
        self.solver.add(cond)
        self.known[cond.get_id()] = True
        self.keep.append(cond)

    def get_model(self):
        if self.model is None:
            if not self.check():
                raise PathAbort("infeasible")
            self.model = self.last_model()
        return self.model

    def eval_bool(self, cond):
        v = self.get_model().eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        # quantifier-free terms with model completion are always decided
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise Inconclusive("model does not decide " + str(cond)[:200])

    # -- branching ---------------------------------------------------------

    def branch(self, cond):
        """Decide a symbolic condition, forking if both sides are feasible."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.dead:
            raise PathAbort("after the end of the path")
        fp = site()
        if self.pos < len(self.prefix):
            kind, value, was = self.prefix[self.pos]
            if kind != "b" or was != fp:
                raise Inconclusive("nondeterministic re-execution" + self.where(kind))
            self.pos += 1
            self.log.append((kind, value, fp))
            self._assert(cond, value)
            return value

        k = self.known.get(cond.get_id())
        if k is not None:
            # every decision is logged, also the ones already implied:
            # whether an equal term is found here may vary between runs
            self.log.append(("b", k, fp))
            self.pos += 1
            return k

        self.x.stats.branches += 1
        self.x.check_budget()
        neg = z3.Not(cond)
        if self.model is None:
            # cheapest: ask for a model of the path condition first
            self.get_model()
        value = self.eval_bool(cond)
        other = neg if value else cond
        self.solver.push()
        self.solver.add(other)
        feasible = self.check()
        if feasible:
            m = self.last_model()
            self.x.pending.append((self.log + [("b", not value, fp)], m))
        self.solver.pop()
        # record even forced decisions: the log must replay deterministically
        self.log.append(("b", value, fp))
        self.pos += 1
        if feasible:
            self._assert(cond, value)
        else:
            self.known[cond.get_id()] = value
            self.keep.append(cond)
        return value

    def where(self, kind):
        if not _os.environ.get("SX_DEBUG"):
            return ""
        import traceback
        return " %s at %d: %s" % (kind, self.pos, "".join(
            traceback.format_stack(limit=9)[:-2]))

    def _assert(self, cond, value):
        self.solver.add(cond if value else z3.Not(cond))
        self.known[cond.get_id()] = value
        self.keep.append(cond)

    def assume(self, cond):
        """Restrict the path; abort if impossible."""
        if isinstance(cond, SymBool):
            cond = cond.e
        if cond is True:
            return
        if cond is False:
            raise PathAbort("assumption")
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort("assumption")
        self.solver.add(cond)
        self.known[cond.get_id()] = True
        self.keep.append(cond)
        if self.model is not None:
            if not self.eval_bool(cond):
                self.model = None
        if self.pos >= len(self.prefix):
            self.get_model()

    def choose(self, n, tag="c"):
        """A nondeterministic concrete choice of 0..n-1, all explored."""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            kind, value, was = self.prefix[self.pos]
            if kind != "c" or was != n:
                raise Inconclusive("nondeterministic re-execution" + self.where(kind))
            self.pos += 1
            self.log.append((kind, value, n))
            return value
        self.x.check_budget()
        if self.model is None:
            self.get_model()
        for v in range(n - 1, 0, -1):
            self.x.pending.append((self.log + [("c", v, n)], self.model))
        self.log.append(("c", 0, n))
        self.pos += 1
        return 0

    def concretize(self, s):
        """Return a Python int for a SymInt, exploring every feasible value."""
        if self.dead:
            raise PathAbort("after the end of the path")
        self.nconc += 1
        if self.nconc > 20000:
            raise Inconclusive("concretisation budget")
        if self.conc_hook is not None:
            self.conc_hook(s)
        tries = 0
        if s.lo == s.hi:
            return s.lo
        t = z3.simplify(s.e)
        if z3.is_bv_value(t):
            return t.as_signed_long()
        while True:
            if self.pos < len(self.prefix):
                # the value tried on this branch was recorded
                kind, value, fp = self.prefix[self.pos]
                if kind != "v":
                    raise Inconclusive("nondeterministic re-execution" + self.where(kind))
                v, taken = value
                c = z3.simplify(s.e == z3.BitVecVal(v, s.e.size()))
                if site() != fp:
                    raise Inconclusive("nondeterministic re-execution" + self.where(kind))
                self.pos += 1
                self.log.append((kind, value, fp))
                self._assert(c, taken)
                if taken:
                    return v
                continue
            tries += 1
            self.x.check_budget()
            if tries > self.x.max_values:
                raise Inconclusive("too many values to enumerate")
            m = self.get_model()
            v = m.eval(s.e, model_completion=True).as_signed_long()
            c = z3.simplify(s.e == z3.BitVecVal(v, s.e.size()))
            if z3.is_true(c):
                return v
            self.solver.push()
            self.solver.add(z3.Not(c))
            feasible = self.check()
            if feasible:
                m2 = self.last_model()
                self.x.pending.append(
                    (self.log + [("v", (v, False), site())], m2))
            self.solver.pop()
            self.log.append(("v", (v, True), site()))
            self.pos += 1
            if feasible:
                self._assert(c, True)
            else:
                self.known[c.get_id()] = True
                self.keep.append(c)
            self.x.stats.branches += 1
            return v

    # -- values from a model ------------------------------------------------

    def assignment(self, model):
        out = {}
        for name, (kind, term) in self.inputs.items():
            if kind == "int":
                v = model.eval(term, model_completion=True)
                out[name] = v.as_signed_long()
            elif kind == "bool":
                out[name] = z3.is_true(model.eval(term, model_completion=True))
            elif kind == "bytes":
                out[name] = [
                    model.eval(t, model_completion=True).as_long() for t in term
                ]
            elif kind == "byteval":
                out[name] = model.eval(term, model_completion=True).as_long()
            elif kind in ("real", "zint"):
                v = model.eval(term, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                if z3.is_int_value(v):
                    out[name] = [v.as_long(), 1]
                else:
                    out[name] = [v.numerator_as_long(), v.denominator_as_long()]
            elif kind == "choice":
                out[name] = term
        return out


def cur():
    return Engine.cur


class Explorer:
    def __init__(self, timeout_ms=20000, max_paths=200000, deadline=None,
                 max_values=300):
        self.stats = Stats()
        self.pending = []
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_values = max_values
        self.violations = []
        self.samples = []
        self.reached = set()
        self.inconclusive = []

    def new_solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        return s

    def check_budget(self):
        if self.deadline is not None and _time.monotonic() > self.deadline:
            raise StopExploration("time budget")

    def run(self, fn):
        """Explore every path of fn(engine)."""
        self.pending = [([], None)]
        self.stop = False
        while self.pending and not self.stop:
            if self.stats.paths >= self.max_paths:
                self.inconclusive.append("path budget")
                break
            prefix, model = self.pending.pop()
            eng = Engine(self, prefix, model)
            Engine.cur = eng
            try:
                try:
                    self.check_budget()
                    fn(eng)
                finally:
                    if eng.control is not None:
                        raise eng.control
                self.stats.paths += 1
                self.finish(eng)
            except PathAbort:
                self.stats.aborted += 1
                self.reached |= eng.reached
            except Inconclusive as err:
                self.inconclusive.append(str(err))
                if len(self.inconclusive) > 20:
                    break
            except StopExploration as err:
                self.inconclusive.append(str(err))
                break
            finally:
                eng.dead = True
                self.after_path(eng)
                Engine.cur = None
        return self

    def after_path(self, eng):
        pass

    def finish(self, eng):
        self.reached |= eng.reached


# --------------------------------------------------------------------------
# Helpers on ranges and widths


INF = float("inf")


def bits_for(lo, hi):
    """Width of a signed bit-vector that holds every value of lo..hi."""
    n = 1
    if hi >= 0:
        n = max(n, hi.bit_length() + 1)
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


def resize(e, w):
    s = e.size()
    if s == w:
        return e
    if s < w:
        return z3.SignExt(w - s, e)
    return z3.Extract(w - 1, 0, e)


def mk(e, lo, hi):
    """A Python int if the range is a single value, else a SymInt."""
    if lo == hi:
        return lo
    w = bits_for(lo, hi)
    return SymInt(resize(e, w), lo, hi)


def is_sym(x):
    return type(x) in (SymInt, SymBool, SymBytes, SymReal, SymByteArray)


def as_symint(x):
    """SymInt, int, bool, SymBool -> SymInt (possibly constant) or None."""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x.toint()
    if isinstance(x, int):
        x = int.__index__(x)
        w = bits_for(x, x)
        return SymInt(z3.BitVecVal(x, w), x, x)
    return None


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return cur().branch(self.e)

    def toint(self):
        one, zero = z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)
        return SymInt(z3.If(self.e, one, zero), 0, 1)

    def __eq__(self, other):
        if type(other) is SymBool:
            return mkbool(self.e == other.e)
        if isinstance(other, bool):
            return self if other else mkbool(z3.Not(self.e))
        if type(other) is SymInt or isinstance(other, int):
            return self.toint() == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return sx_not(r)

    def __hash__(self):
        if cur().probing:
            raise SymHash()
        return hash(bool(self))

    def __and__(self, other):
        if isinstance(other, bool):
            return mkbool(z3.And(self.e, tobool(other)))
        return self.toint() & other

    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, bool):
            return mkbool(z3.Or(self.e, tobool(other)))
        return self.toint() | other

    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, bool):
            return mkbool(z3.Xor(self.e, tobool(other)))
        return self.toint() ^ other

    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "True" if self else "False"

    def __format__(self, spec):
        return repr(self)

    def _i(self):
        return self.toint()


def _bool_arith(name):
    def f(self, *args):
        return getattr(self.toint(), name)(*args)
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lshift__ "
           "__rlshift__ __rshift__ __rrshift__ __lt__ __le__ __gt__ __ge__ "
           "__neg__ __invert__ bit_length to_bytes").split():
    setattr(SymBool, _n, _bool_arith(_n))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def tobool(x):
    """Python/symbolic truth value -> z3 Bool (no fork)."""
    if type(x) is SymBool:
        return x.e
    if type(x) is SymInt:
        return x.e != 0
    if x is NotImplemented:
        return z3.BoolVal(False)
    return z3.BoolVal(bool(x))


def sx_not(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    return not x


def sx_and(*xs):
    return mkbool(z3.And(*[tobool(x) for x in xs])) if xs else True


def sx_or(*xs):
    return mkbool(z3.Or(*[tobool(x) for x in xs])) if xs else False


class SymInt:
    """An integer in lo..hi, held exactly in a signed bit-vector."""

    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    __class__ = property(lambda self: int)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- arithmetic ---------------------------------------------------------

    def _bin(self, other, op, rng, swap=False):
        if type(other) is SymReal:
            return NotImplemented
        o = as_symint(other)
        if o is None:
            if isinstance(other, (float, Fraction)):
                r = toreal(self)
                return r._op(other, op, swap)
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        lo, hi = rng(a, b)
        w = bits_for(lo, hi)
        return mk(op(resize(a.e, w), resize(b.e, w)), lo, hi)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y,
                         lambda a, b: (a.lo + b.lo, a.hi + b.hi))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y,
                         lambda a, b: (a.lo - b.hi, a.hi - b.lo))

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y,
                         lambda a, b: (a.lo - b.hi, a.hi - b.lo), True)

    def __mul__(self, o):
        if isinstance(o, (bytes, list, str, tuple)) and not is_sym(o):
            return self.__index__() * o
        if type(o) is SymBytes:
            return o * self

        def rng(a, b):
            ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(ps), max(ps)
        return self._bin(o, lambda x, y: x * y, rng)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        w = bits_for(-max(-self.lo, self.hi), max(-self.lo, self.hi))
        e = resize(self.e, w)
        return mk(z3.If(e < 0, -e, e), 0, max(-self.lo, self.hi))

    def __invert__(self):
        return -1 - self

    # bit operations: exact on two's complement at a common width
    def _bits(self, other, op, rng):
        o = as_symint(other)
        if o is None:
            return NotImplemented
        w = max(self.e.size(), o.e.size())
        lo, hi = rng(self, o, w)
        e = op(resize(self.e, w), resize(o.e, w))
        if bits_for(lo, hi) < w:
            e = z3.Extract(bits_for(lo, hi) - 1, 0, e)
        return mk(e, lo, hi)

    def __and__(self, o):
        def rng(a, b, w):
            if a.lo >= 0 and b.lo >= 0:
                return 0, min(a.hi, b.hi)
            if a.lo >= 0:
                return 0, a.hi
            if b.lo >= 0:
                return 0, b.hi
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bits(o, lambda x, y: x & y, rng)

    __rand__ = __and__

    def _orrng(a, b, w):
        if a.lo >= 0 and b.lo >= 0:
            return 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def __or__(self, o, rng=_orrng):
        def r(a, b, w):
            lo, hi = rng(a, b, w)
            if a.lo >= 0 and b.lo >= 0:
                lo = max(a.lo, b.lo)
            return lo, hi
        return self._bits(o, lambda x, y: x | y, r)

    __ror__ = __or__

    def __xor__(self, o, rng=_orrng):
        return self._bits(o, lambda x, y: x ^ y, rng)

    __rxor__ = __xor__

    def __lshift__(self, o):
        if is_sym(o):
            o = cur().concretize(as_symint(o))
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        if o > 4096:
            raise Inconclusive("shift too large")
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << cur().concretize(self)

    def __rshift__(self, o):
        if is_sym(o):
            o = cur().concretize(as_symint(o))
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo >> o, self.hi >> o
        w = self.e.size()
        if o >= w:
            if lo == hi:
                return lo
            o = w - 1
        return mk(z3.Extract(w - 1, o, self.e), lo, hi)

    def __rrshift__(self, o):
        return o >> cur().concretize(self)

    @staticmethod
    def _divmod(a, b):
        """Floor division of SymInts a, b."""
        z = mkbool(b.e == 0)
        if type(z) is SymBool:
            z = bool(z)
        if z:
            raise ZeroDivisionError("integer division or modulo by zero")
        m = max(abs(a.lo), abs(a.hi), abs(b.lo), abs(b.hi)) + 1
        w = bits_for(-m, m)
        x, y = resize(a.e, w), resize(b.e, w)
        if a.lo >= 0 and b.lo >= 0:
            q, r = z3.UDiv(x, y), z3.URem(x, y)
            blo = max(b.lo, 1)
            qlo, qhi = a.lo // b.hi if b.hi else 0, a.hi // blo
            rlo, rhi = 0, min(a.hi, b.hi - 1)
            if b.lo == b.hi and a.hi < b.lo:
                rlo, rhi = a.lo, a.hi
        else:
            q0, r0 = x / y, z3.SRem(x, y)
            fix = z3.And(r0 != 0, (r0 < 0) != (y < 0))
            one = z3.BitVecVal(1, w)
            q = z3.If(fix, q0 - one, q0)
            r = z3.If(fix, r0 + y, r0)
            qlo, qhi = -m, m
            bm = max(abs(b.lo), abs(b.hi))
            rlo = -bm if b.lo < 0 else 0
            rhi = bm if b.hi > 0 else 0
        return mk(q, qlo, qhi), mk(r, rlo, rhi)

    def __divmod__(self, o):
        b = as_symint(o)
        if b is None:
            return NotImplemented
        return SymInt._divmod(self, b)

    def __rdivmod__(self, o):
        a = as_symint(o)
        if a is None:
            return NotImplemented
        return SymInt._divmod(a, self)

    def __floordiv__(self, o):
        if type(o) is SymReal or isinstance(o, (float, Fraction)):
            return toreal(self) // o
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[1]

    def __truediv__(self, o):
        return toreal(self) / o

    def __rtruediv__(self, o):
        return toreal(o) / toreal(self)

    def __pow__(self, o, mod=None):
        if is_sym(o):
            o = cur().concretize(as_symint(o))
        if mod is not None or not isinstance(o, int) or o < 0:
            return NotImplemented
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** cur().concretize(self)

    # -- comparison -----------------------------------------------------------

    def _cmp(self, other, op, fold):
        if type(other) is SymReal:
            return NotImplemented
        o = as_symint(other)
        if o is None:
            if isinstance(other, (float, Fraction)):
                return toreal(self)._cmp(other, op)
            return NotImplemented
        f = fold(self, o)
        if f is not None:
            return f
        w = max(self.e.size(), o.e.size())
        return mkbool(op(resize(self.e, w), resize(o.e, w)))

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y, lambda a, b:
                         True if a.hi < b.lo else
                         False if a.lo >= b.hi else None)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y, lambda a, b:
                         True if a.hi <= b.lo else
                         False if a.lo > b.hi else None)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y, lambda a, b:
                         True if a.lo > b.hi else
                         False if a.hi <= b.lo else None)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y, lambda a, b:
                         True if a.lo >= b.hi else
                         False if a.hi < b.lo else None)

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y, lambda a, b:
                         False if a.hi < b.lo or a.lo > b.hi else None)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sx_not(r)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return cur().branch(self.e != 0)

    # -- conversions ----------------------------------------------------------

    def __hash__(self):
        if cur().probing:
            raise SymHash()
        return hash(cur().concretize(self))

    def __index__(self):
        return cur().concretize(self)

    def __int__(self):
        return cur().concretize(self)

    def __float__(self):
        return float(cur().concretize(self))

    def __trunc__(self):
        return self

    __ceil__ = __floor__ = __trunc__

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        return marker(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        n = a.hi.bit_length()
        m = a.lo.bit_length()
        w = bits_for(0, max(n, 1))
        aw = a.e.size()
        e = z3.BitVecVal(n, w)
        for k in range(n - 1, m - 1, -1):
            # fits in k bits
            lim = z3.BitVecVal(1 << k, aw + 1)
            e = z3.If(z3.ULT(z3.ZeroExt(1, a.e), lim), z3.BitVecVal(k, w), e)
        return mk(e, m, n)

    def bit_count(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_count()
        t = 0
        for i in range(a.e.size()):
            t = t + SymInt(z3.ZeroExt(1, z3.Extract(i, i, a.e)), 0, 1)
        return t

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if is_sym(length):
            length = cur().concretize(as_symint(length))
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if signed:
            lo = -(1 << (8 * length - 1)) if length else 0
            hi = (1 << (8 * length - 1)) - 1 if length else 0
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
            if self.lo < 0 and (self < 0):
                raise OverflowError("can't convert negative int to unsigned")
        if (self.lo < lo and (self < lo)) or (self.hi > hi and (self > hi)):
            raise OverflowError("int too big to convert")
        if length == 0:
            return b""
        e = resize(self.e, max(8 * length, self.e.size()))
        out = []
        for i in range(length):
            b = z3.simplify(z3.Extract(8 * i + 7, 8 * i, e))
            out.append(byte_elem(b))
        if byteorder == "big":
            out.reverse()
        return SymBytes.make(out)


def byte_elem(b):
    """8-bit term -> int or SymInt 0..255."""
    if z3.is_bv_value(b):
        return b.as_long()
    return SymInt(z3.ZeroExt(1, b), 0, 255)


def elem_term(x):
    """Element of a SymBytes -> 8-bit term."""
    if type(x) is SymInt:
        e = x.e
        if e.size() < 8:
            e = z3.SignExt(8 - e.size(), e)
        return z3.Extract(7, 0, e)
    return z3.BitVecVal(x, 8)


def marker(s):
    """A decimal rendering of a symbolic int: a private-use marker in a str."""
    eng = cur()
    if eng is None:
        return "<sym>"
    i = len(eng.markers)
    eng.markers[i] = s
    return "\ue000%d\ue001" % i


def unmarker(text):
    t = text.strip()
    if t.startswith("\ue000") and t.endswith("\ue001") and t.count("\ue000") == 1:
        return cur().markers[int(t[1:-1])]
    return None


# --------------------------------------------------------------------------
# Reals (clock values) and mathematical integers


def toz3real(x):
    if type(x) is SymReal:
        return z3.ToReal(x.e) if x.e.is_int() else x.e
    if type(x) is SymInt:
        return z3.ToReal(z3.BV2Int(x.e, is_signed=True))
    if type(x) is SymBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(int.__index__(x))
    if isinstance(x, (float, Fraction)):
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator)
    return None


def toreal(x):
    if type(x) is SymReal:
        return x
    return SymReal(toz3real(x))


def _both_int(a, b):
    return a.is_int() and b.is_int()


def floor_of(e):
    """The integer below e, as a fresh variable with its defining bounds.

    Far easier for the solver than nested to_int terms.
    """
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return e.numerator_as_long() // e.denominator_as_long()
    eng = cur()
    k = eng.floors.get(e.get_id())
    if k is None:
        k = z3.Int("floor!%d" % len(eng.floors))
        eng.floors[e.get_id()] = k
        eng.keep.append(e)
        r = z3.ToReal(k)
        eng.assume(z3.And(r <= e, e < r + 1))
    return SymReal(k)


class SymReal:
    """A mathematical integer or real (z3 Int or Real sort)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int if self.e.is_int() else float)

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return SymReal(e)

    def const(self):
        """The Fraction this denotes, or None."""
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return Fraction(e.as_long())
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        return None

    def _term(self, x):
        if type(x) is SymReal:
            return x.e
        if type(x) is SymInt:
            return z3.BV2Int(x.e, is_signed=True)
        if isinstance(x, (bool, int)):
            return z3.IntVal(int.__index__(x))
        return toz3real(x)

    def _op(self, other, op, swap=False):
        if type(other) is float and other in (INF, -INF):
            return op(other, 0.0) if swap else op(0.0, other)
        t = self._term(other)
        if t is None:
            return NotImplemented
        a, b = (t, self.e) if swap else (self.e, t)
        if not _both_int(a, b):
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        return SymReal.mk(op(a, b))

    def __add__(self, o):
        return self._op(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._op(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        return self._op(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(self, o):
        d = SymReal(z3.simplify(toz3real(o)))
        if bool(mkbool(d.e == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal.mk(toz3real(self) / d.e)

    def __rtruediv__(self, o):
        if bool(mkbool(self.e == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal.mk(toz3real(o) / toz3real(self))

    def __floordiv__(self, o):
        q = self / o
        return q.__floor__() if type(q) is SymReal else q // 1

    def __mod__(self, o):
        return self - (self // o) * o

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self):
        return SymReal.mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal.mk(z3.If(self.e < 0, -self.e, self.e))

    def _cmp(self, other, op):
        if type(other) is float and other in (INF, -INF):
            return op(0.0, other)
        t = self._term(other)
        if t is None:
            return NotImplemented
        a, b = self.e, t
        if not _both_int(a, b):
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        return mkbool(op(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __hash__(self):
        if cur().probing:
            raise SymHash()
        raise Inconclusive("hash of a symbolic real")

    def __floor__(self):
        if self.e.is_int():
            return self
        return floor_of(self.e)

    def __ceil__(self):
        if self.e.is_int():
            return self
        return -floor_of(-self.e)

    def __trunc__(self):
        if self.e.is_int():
            return self
        if cur().branch(self.e >= 0):
            return floor_of(self.e)
        return -floor_of(-self.e)

    def __round__(self, n=None):
        if n:
            raise Inconclusive("round to digits")
        return (self + Fraction(1, 2)).__floor__()

    def is_integer(self):
        if self.e.is_int():
            return True
        return mkbool(z3.IsInt(self.e))

    def __float__(self):
        c = self.const()
        if c is None:
            raise Inconclusive("concrete value of a symbolic real")
        return float(c)

    def __int__(self):
        c = self.const()
        if c is None:
            raise Inconclusive("concrete value of a symbolic real")
        return int(c)

    def __index__(self):
        if not self.e.is_int():
            raise TypeError(
                "'float' object cannot be interpreted as an integer")
        return self.__int__()

    def bit_length(self):
        raise Inconclusive("bit_length of a mathematical integer")

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        return marker(self)


# --------------------------------------------------------------------------
# Byte strings


def check_byte(x):
    if type(x) is SymBool:
        x = x.toint()
    if type(x) is SymInt:
        if x.lo < 0 or x.hi > 255:
            if x < 0 or x > 255:
                raise ValueError("bytes must be in range(0, 256)")
            # on this path the value is a byte: renormalise
            return byte_elem(z3.simplify(elem_term(x)))
        return x
    if not isinstance(x, int):
        raise TypeError(
            f"'{type(x).__name__}' object cannot be interpreted as an integer")
    if x < 0 or x > 255:
        raise ValueError("bytes must be in range(0, 256)")
    return int.__index__(x)


class SymBytes:
    """An immutable byte string of concrete length with symbolic elements."""

    __slots__ = ("v", "__weakref__")

    def __init__(self, v):
        self.v = v

    __class__ = property(lambda self: bytes)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @staticmethod
    def make(v):
        v = list(v)
        for x in v:
            if type(x) is SymInt:
                return SymBytes(v)
        return bytes(v)

    @staticmethod
    def elems(x):
        """Elements of any bytes-like value, or None."""
        if type(x) in (SymBytes, SymByteArray):
            return x.v
        if isinstance(x, (bytes, bytearray, memoryview)):
            return list(x)
        return None

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[
                cur().concretize(as_symint(p)) if is_sym(p) else p
                for p in (k.start, k.stop, k.step)
            ])
            return self.make(self.v[k])
        if is_sym(k):
            k = cur().concretize(as_symint(k))
        return self.v[k]

    def __contains__(self, x):
        if isinstance(x, int):
            for e in self.v:
                if e == x:
                    return True
            return False
        return self.find(x) >= 0

    def __add__(self, o):
        e = self.elems(o)
        if e is None:
            return NotImplemented
        return self.make(self.v + e)

    def __radd__(self, o):
        e = self.elems(o)
        if e is None:
            return NotImplemented
        return self.make(e + self.v)

    def __mul__(self, n):
        if is_sym(n):
            n = cur().concretize(as_symint(n))
        return self.make(self.v * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        e = self.elems(o)
        if e is None:
            return NotImplemented
        return seq_eq(self.v, e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def _lt(self, e, strict):
        for a, b in zip(self.v, e):
            if a == b:
                continue
            return bool(a < b)
        return len(self.v) < len(e) if strict else len(self.v) <= len(e)

    def __lt__(self, o):
        e = self.elems(o)
        return NotImplemented if e is None else self._lt(e, True)

    def __le__(self, o):
        e = self.elems(o)
        return NotImplemented if e is None else self._lt(e, False)

    def __gt__(self, o):
        e = self.elems(o)
        return NotImplemented if e is None else not self._lt(e, False)

    def __ge__(self, o):
        e = self.elems(o)
        return NotImplemented if e is None else not self._lt(e, True)

    def __hash__(self):
        if cur().probing:
            raise SymHash()
        return hash(self.concrete())

    def concrete(self):
        return bytes([
            cur().concretize(x) if type(x) is SymInt else x for x in self.v
        ])

    def __bytes__(self):
        return self.concrete()

    def __buffer__(self, flags):
        return memoryview(self.concrete())

    def __bool__(self):
        return bool(self.v)

    def __repr__(self):
        # a bytes literal: another marker
        eng = cur()
        i = len(eng.markers)
        eng.markers[i] = self
        return "\ue004%d\ue005" % i

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- methods --------------------------------------------------------------

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.v)
            e = self.elems(p)
            if e is None:
                raise TypeError("sequence item %d: expected a bytes-like "
                                "object, %s found" % (i, type(p).__name__))
            out.extend(e)
        return self.make(out)

    def startswith(self, p, start=None, end=None):
        s = self[start:end]
        if isinstance(p, tuple):
            for q in p:
                if _pre(s, q):
                    return True
            return False
        return _pre(s, p)

    def endswith(self, p, start=None, end=None):
        s = SymBytes.elems(self[start:end])
        e = SymBytes.elems(p)
        return len(s) >= len(e) and seq_eq(s[len(s) - len(e):], e)

    def find(self, p, start=None, end=None):
        e = [p] if isinstance(p, int) else SymBytes.elems(p)
        n = len(self.v)
        i, stop, _ = slice(start, end).indices(n)
        while i + len(e) <= stop:
            if seq_eq(self.v[i:i + len(e)], e):
                return i
            i += 1
        return -1

    def index(self, p, *a):
        i = self.find(p, *a)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def count(self, p):
        e = [p] if isinstance(p, int) else SymBytes.elems(p)
        if len(e) != 1:
            return self.concrete().count(bytes(e))
        n = 0
        for x in self.v:
            if x == e[0]:
                n += 1
        return n

    def _strip(self, chars, left, right):
        chars = b" \t\n\r\v\f" if chars is None else chars
        v = list(self.v)
        while left and v and _in(v[0], chars):
            v.pop(0)
        while right and v and _in(v[-1], chars):
            v.pop()
        return self.make(v)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def ljust(self, n, fill=b" "):
        return self.make(self.v + list(fill) * max(0, n - len(self.v)))

    def rjust(self, n, fill=b" "):
        return self.make(list(fill) * max(0, n - len(self.v)) + self.v)

    def zfill(self, n):
        return self.rjust(n, b"0")

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def tobytes(self):
        return self

    def decode(self, encoding="utf-8", errors="strict"):
        eng = cur()
        i = len(eng.markers)
        eng.markers[i] = self
        return "\ue002%d\ue003" % i

    def hex(self, *a):
        return self.decode()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(bytes, name):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


def _pre(s, p):
    s, e = SymBytes.elems(s), SymBytes.elems(p)
    return len(s) >= len(e) and seq_eq(s[:len(e)], e)


def _in(x, chars):
    for c in chars:
        if x == c:
            return True
    return False


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    terms = []
    for x, y in zip(a, b):
        if x is y:
            continue
        r = (x == y)
        if r is False:
            return False
        if r is True:
            continue
        terms.append(tobool(r))
    if not terms:
        return True
    return mkbool(z3.And(*terms))


class SymByteArray:
    """bytearray with possibly symbolic elements."""

    def __init__(self, src=(), *rest):
        if rest or isinstance(src, str):
            src = bytes(src, *rest)
        if isinstance(src, int):
            if is_sym(src):
                src = cur().concretize(as_symint(src))
            src = bytes(src)
        e = SymBytes.elems(src)
        self.v = list(e) if e is not None else [check_byte(x) for x in src]

    __class__ = property(lambda self: bytearray)
    __hash__ = None

    def append(self, x):
        self.v.append(check_byte(x))

    def extend(self, src):
        e = SymBytes.elems(src)
        self.v.extend(e if e is not None else [check_byte(x) for x in src])

    def insert(self, i, x):
        self.v.insert(i, check_byte(x))

    def pop(self, i=-1):
        return self.v.pop(i)

    def reverse(self):
        self.v.reverse()

    def clear(self):
        self.v.clear()

    def copy(self):
        return SymByteArray(SymBytes(self.v))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        return SymBytes.make(SymBytes.elems(o) + self.v)

    def __mul__(self, n):
        return SymByteArray(SymBytes(self.v * n))

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __bool__(self):
        return bool(self.v)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[
                cur().concretize(as_symint(p)) if is_sym(p) else p
                for p in (k.start, k.stop, k.step)
            ])
            return SymByteArray(SymBytes(self.v[k]))
        if is_sym(k):
            k = cur().concretize(as_symint(k))
        return self.v[k]

    def __setitem__(self, k, x):
        if isinstance(k, slice):
            e = SymBytes.elems(x)
            self.v[k] = e if e is not None else [check_byte(y) for y in x]
        else:
            self.v[k] = check_byte(x)

    def __delitem__(self, k):
        del self.v[k]

    def __eq__(self, o):
        e = SymBytes.elems(o)
        return NotImplemented if e is None else seq_eq(self.v, e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __contains__(self, x):
        return x in SymBytes(self.v)

    def __repr__(self):
        return "bytearray(<%d>)" % len(self.v)

    def __buffer__(self, flags):
        return memoryview(SymBytes(self.v).concrete())

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytearray, name):
            raise AttributeError(name)
        return getattr(SymBytes(self.v), name)

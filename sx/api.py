"""Symbolic mode of the harness interface."""

import gc
import re
import socket as _socket
import sys

import z3

from . import core, env, loader, shim
from .base import CxBase, plain
from .core import (SymInt, SymBool, SymBytes, SymByteArray, SymReal, Explorer,
                   PathAbort, Inconclusive, is_sym, as_symint, mk, mkbool,
                   tobool, bits_for, byte_elem, seq_eq, toreal)
from fractions import Fraction


class SymCx(CxBase):
    symbolic = True

    def __init__(self, eng, recorder):
        self.eng = eng
        self.rec = recorder
        self.reached = eng.reached
        self.notes = []
        self.norc = 0

    # -- inputs -------------------------------------------------------------

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        w = bits_for(lo, hi)
        t = z3.BitVec(name, w)
        if name in self.eng.inputs:
            raise Inconclusive("input declared twice: " + name)
        self.eng.inputs[name] = ("int", t)
        full = lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1
        if not full:
            self.eng.assume(z3.And(t >= lo, t <= hi))
        return SymInt(t, lo, hi)

    def zint(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if name in self.eng.inputs:
            raise Inconclusive("input declared twice: " + name)
        self.eng.inputs[name] = ("zint", t)
        if lo is not None:
            self.eng.assume(t >= lo)
        if hi is not None:
            self.eng.assume(t <= hi)
        return SymReal(t)

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        if name in self.eng.inputs:
            raise Inconclusive("input declared twice: " + name)
        self.eng.inputs[name] = ("real", t)
        if lo is not None:
            self.eng.assume(t >= core.toz3real(lo))
        if hi is not None:
            self.eng.assume(t <= core.toz3real(hi))
        return SymReal(t)

    def bytes(self, name, n):
        if name in self.eng.inputs:
            raise Inconclusive("input declared twice: " + name)
        ts = [z3.BitVec("%s[%d]" % (name, i), 8) for i in range(n)]
        self.eng.inputs[name] = ("bytes", ts)
        return SymBytes.make([byte_elem(t) for t in ts])

    def bool(self, name):
        t = z3.Bool(name)
        if name in self.eng.inputs:
            raise Inconclusive("input declared twice: " + name)
        self.eng.inputs[name] = ("bool", t)
        return SymBool(t)

    def choice(self, name, n):
        k = n if isinstance(n, int) else len(n)
        v = self.eng.choose(k)
        self.eng.inputs[name] = ("choice", v)
        return v if isinstance(n, int) else n[v]

    def evaluate(self, text, names):
        """The value of an expression that was printed."""
        ns = dict(names)

        def name(m):
            n = "_sx%s_" % m.group(1)
            ns[n] = self.eng.markers[int(m.group(1))]
            return " " + n + " "
        return eval(re.sub("[\ue000\ue004](\\d+)[\ue001\ue005]", name, text), ns)

    # -- assertions -----------------------------------------------------------

    def assume(self, cond):
        if type(cond) is SymInt:
            cond = cond != 0
        if type(cond) is not SymBool:
            cond = bool(cond)
        self.eng.assume(cond)

    def check(self, cond, label, **info):
        eng = self.eng
        st = eng.x.stats
        st.checks += 1
        self.rec.labels[label] = self.rec.labels.get(label, 0) + 1
        if type(cond) is SymInt:
            cond = cond != 0
        if type(cond) is not SymBool:
            if cond:
                return
            self.rec.violation(eng, eng.get_model(), label, info)
            raise PathAbort("check failed")
        c = z3.simplify(cond.e)
        if z3.is_true(c):
            return
        if eng.known.get(c.get_id()) is True:
            return
        st.solver_checks += 1
        eng.solver.push()
        eng.solver.add(z3.Not(c))
        try:
            bad = eng.check()
            m = eng.last_model() if bad else None
        finally:
            eng.solver.pop()
        if bad:
            self.rec.violation(eng, m, label, info)
            eng.assume(c)
        else:
            eng.known[c.get_id()] = True
            eng.keep.append(c)

    def note(self, *values):
        self.notes.append(values)

    # -- logic without forking ---------------------------------------------------

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all(*[self.eq(x, y) for x, y in zip(a, b)])
        r = (a == b)
        return r

    def all(self, *cs):
        return core.sx_and(*cs)

    def any(self, *cs):
        return core.sx_or(*cs)

    def not_(self, c):
        if type(c) is SymInt:
            c = c != 0
        return core.sx_not(c)

    def ite(self, c, a, b):
        if type(c) is SymInt:
            c = c != 0
        return shim.ite(c, a, b)

    def isbytes(self, x):
        return isinstance(x, (bytes, bytearray, memoryview))

    def concat(self, parts):
        out = []
        for p in parts:
            out.extend(SymBytes.elems(p))
        return SymBytes.make(out)

    def blist(self, v):
        return SymBytes.make([core.check_byte(x) for x in v])

    # -- ideal functions ------------------------------------------------------------

    def _fresh(self, n):
        return self.bytes("orc%d" % self.norc, n)

    def oracle(self, table, tag, args, n):
        self.norc += 1
        key = tuple(SymBytes.elems(x) if self.isbytes(x) else x for x in args)
        for t, a, out in [e for e in table if len(e) == 3]:
            if t == tag and len(out) == n and _same(a, key):
                return out
        out = self._fresh(n)
        for t, a, o in [e for e in table if len(e) == 3]:
            if t != tag or len(o) != n:
                continue
            same = _equal(a, key)
            if same is False:
                continue
            c = core.sx_or(core.sx_not(same), seq_eq(
                SymBytes.elems(o), SymBytes.elems(out)))
            self.eng.assume(c)
        table.append((tag, key, out))
        return out

    def blockop(self, table, tag, enc, args, piece):
        self.norc += 1
        key = tuple(SymBytes.elems(x) for x in args)
        pe = SymBytes.elems(piece)
        entries = [e for e in table if len(e) == 4]
        for t, a, pt, ct in entries:
            if t == tag and _same(a, key):
                if enc and _same((SymBytes.elems(pt),), (pe,)):
                    return ct
                if not enc and _same((SymBytes.elems(ct),), (pe,)):
                    return pt
        out = self._fresh(len(pe))
        oe = SymBytes.elems(out)
        npt, nct = (pe, oe) if enc else (oe, pe)
        for t, a, pt, ct in entries:
            if t != tag or len(pt) != len(pe):
                continue
            same = _equal(a, key)
            if same is False:
                continue
            ept = seq_eq(SymBytes.elems(pt), npt)
            ect = seq_eq(SymBytes.elems(ct), nct)
            self.eng.assume(core.sx_or(
                core.sx_not(same),
                mkbool(tobool(ept) == tobool(ect))))
        table.append((tag, key, piece, out) if enc
                     else (tag, key, out, piece))
        return out


def _same(a, b):
    """Identical without asking the solver."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if p is q:
                    continue
                if type(p) is SymInt and type(q) is SymInt:
                    if p.e.eq(q.e):
                        continue
                    return False
                if type(p) is int and type(q) is int and p == q:
                    continue
                return False
        elif x is not y:
            if is_sym(x) or is_sym(y) or x != y:
                return False
    return True


def _equal(a, b):
    """Symbolic equality of two argument tuples."""
    if len(a) != len(b):
        return False
    terms = []
    for x, y in zip(a, b):
        if isinstance(x, list):
            r = seq_eq(x, y)
        else:
            r = (x == y)
        if r is False:
            return False
        terms.append(r)
    return core.sx_and(*terms)


# --------------------------------------------------------------------------------


def rendered(v, model):
    """The value v takes in the model, as plain() renders it."""
    t = type(v)
    if t is SymInt:
        return model.eval(v.e, model_completion=True).as_signed_long()
    if t is SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if t is SymBytes or t is SymByteArray:
        return {"b": bytes(
            rendered(x, model) if type(x) is SymInt else x
            for x in v.v).hex()}
    if t is SymReal:
        e = model.eval(v.e, model_completion=True)
        if z3.is_int_value(e):
            return e.as_long()
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if f.denominator == 1:
            return int(f)
        return {"r": [f.numerator, f.denominator]}
    if isinstance(v, str) and any(
            c in v for c in "\ue000\ue002\ue004"):
        def num(m):
            x = core.cur().markers[int(m.group(1))]
            if type(x) is SymInt:
                return str(rendered(x, model))
            return str(v)
        v = re.sub("\ue000(\\d+)\ue001", num, v)

        def byt(m):
            x = core.cur().markers[int(m.group(1))]
            return bytes.fromhex(rendered(x, model)["b"]).decode("latin-1")
        v = re.sub("\ue002(\\d+)\ue003", byt, v)

        def lit(m):
            x = core.cur().markers[int(m.group(1))]
            return repr(bytes.fromhex(rendered(x, model)["b"]))
        return re.sub("\ue004(\\d+)\ue005", lit, v)
    if isinstance(v, (list, tuple)):
        return [rendered(x, model) for x in v]
    if isinstance(v, dict):
        return [[rendered(k, model), rendered(x, model)]
                for k, x in v.items()]
    return plain(v)


class Recorder:
    """Violations, samples and coverage of one job."""

    def __init__(self, explorer, max_violations=3, max_samples=6):
        self.x = explorer
        self.violations = []
        self.count = {}
        self.samples = []
        self.seen = 0
        self.max_violations = max_violations
        self.max_samples = max_samples
        self.labels = {}

    def violation(self, eng, model, label, info):
        n = self.count.get(label, 0)
        self.count[label] = n + 1
        if n >= self.max_violations:
            if n >= 40:
                self.x.stop = True
            return
        self.violations.append({
            "label": label,
            "info": {k: rendered(v, model) for k, v in info.items()},
            "assignment": eng.assignment(model),
        })

    def finished(self, eng, cx):
        """Keep a sample of finished paths for concrete validation."""
        self.seen += 1
        k = self.seen
        if len(self.samples) < self.max_samples or (k & (k - 1)) == 0:
            m = eng.get_model()
            self.samples.append({
                "assignment": eng.assignment(m),
                "notes": [[rendered(v, m) for v in n] for n in cx.notes],
            })


class Static:
    """Symbolic-aware versions of C functions the code calls."""

    @staticmethod
    def inet_ntoa(b):
        e = SymBytes.elems(b)
        if e is None:
            raise TypeError("a bytes-like object is required, not '%s'"
                            % type(b).__name__)
        if not any(type(x) is SymInt for x in e):
            return _socket.inet_ntoa(bytes(e))
        if len(e) != 4:
            raise OSError("packed IP wrong length")
        return ".".join(str(x) for x in e)

    @staticmethod
    def inet_aton(s):
        if not isinstance(s, str):
            return _socket.inet_aton(s)
        if "\ue000" not in s:
            return _socket.inet_aton(s)
        parts = s.split(".")
        if len(parts) != 4:
            raise Inconclusive("short dotted form of a symbolic address")
        out = []
        for p in parts:
            v = shim.int_ctor(p)
            if v < 0 or v > 255:
                raise OSError("illegal IP address string passed to inet_aton")
            out.append(core.check_byte(v))
        return SymBytes.make(out)

    @staticmethod
    def inet_pton(f, s):
        return _socket.inet_pton(f, s)

    @staticmethod
    def inet_ntop(f, b):
        if type(b) is SymBytes and f == _socket.AF_INET:
            return Static.inet_ntoa(b)
        return _socket.inet_ntop(f, b)

    @staticmethod
    def struct_module(module, real):
        codes = {"b": (1, True), "B": (1, False), "h": (2, True),
                 "H": (2, False), "i": (4, True), "I": (4, False),
                 "l": (4, True), "L": (4, False), "q": (8, True),
                 "Q": (8, False)}

        def fields(fmt):
            order = "big" if fmt[:1] in (">", "!") else "little"
            if fmt[:1] not in (">", "!", "<", "="):
                raise Inconclusive("struct with native alignment")
            out = []
            for n, c in re.findall(r"(\d*)([a-zA-Z?])", fmt[1:]):
                if c == "s":
                    out.append(("s", int(n or 1)))
                elif c == "x":
                    out.extend([("x", 1)] * int(n or 1))
                else:
                    out.extend([(c, codes[c])] * int(n or 1))
            return order, out

        def pack(fmt, *args):
            if not any(is_sym(a) for a in args):
                return real.pack(fmt, *args)
            order, fs = fields(fmt)
            args = list(args)
            out = []
            for c, d in fs:
                if c == "x":
                    out.append(0)
                elif c == "s":
                    e = SymBytes.elems(args.pop(0))[:d]
                    out.extend(e + [0] * (d - len(e)))
                else:
                    try:
                        b = as_symint(args.pop(0)).to_bytes(
                            d[0], order, signed=d[1])
                    except OverflowError as err:
                        raise real.error(str(err)) from err
                    out.extend(SymBytes.elems(b))
            return SymBytes.make(out)

        def unpack(fmt, data):
            if type(data) not in (SymBytes, SymByteArray):
                return real.unpack(fmt, data)
            order, fs = fields(fmt)
            e = SymBytes.elems(data)
            if len(e) != real.calcsize(fmt):
                raise real.error("unpack requires a buffer of %d bytes"
                                 % real.calcsize(fmt))
            res = []
            for c, d in fs:
                n = d if c == "s" else 1 if c == "x" else d[0]
                p, e = e[:n], e[n:]
                if c == "s":
                    res.append(SymBytes.make(p))
                elif c != "x":
                    res.append(shim.from_bytes(SymBytes.make(p), order,
                                               signed=d[1]))
            return tuple(res)

        return module("struct", real, pack=pack, unpack=unpack)

    @staticmethod
    def functools_module(module, real):
        def nocache(maxsize=None, typed=False):
            if callable(maxsize):
                return maxsize
            return lambda fn: fn
        return module("functools", real, lru_cache=nocache,
                      cache=lambda fn: fn)

    @staticmethod
    def collections_module(module, real):
        return module("collections", real, defaultdict=shim.SymDefaultDict,
                      OrderedDict=shim.SymDict)


def setup(openssl=False, points=False):
    """Install the import hook; snmp and props are loaded through it."""
    import os
    shim.install_enum()
    mods = env.build_modules(Static, openssl)
    f = loader.Finder(True, mods, shim.BUILTINS, shim.HELPERS,
                      points=env.point if points else None,
                      points_all=points == "all")
    sys.meta_path.insert(0, f)
    sys.meta_path.insert(0, PropsFinder(f))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    return f


class PropsFinder(loader.Finder):
    """Harness modules run under the same transformation."""

    def __init__(self, f):
        import os
        self.f = f
        self.here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.symbolic = True
        self.points = None
        self.points_all = False
        self.env = f.env
        self.builtins = f.builtins
        self.helpers = f.helpers
        self.hide = set()
        self.files = {}
        self.modules = []

    def find_spec(self, name, path=None, target=None):
        import importlib.util
        import os
        if name != "props" and not name.startswith("props."):
            return None
        base = os.path.join(self.here, *name.split("."))
        for file, pkg in ((os.path.join(base, "__init__.py"), True),
                          (base + ".py", False)):
            if os.path.isfile(file):
                return importlib.util.spec_from_file_location(
                    name, file, loader=self,
                    submodule_search_locations=[base] if pkg else None)
        return None


class JobExplorer(Explorer):
    def __init__(self, guard, **kw):
        Explorer.__init__(self, **kw)
        self.guard = guard

    def after_path(self, eng):
        env.set_world(None)
        gc.collect()


def explore(fn, params, guard, timeout_ms=20000, max_paths=100000,
            deadline=None, max_values=300, max_samples=6):
    """Explore one harness; returns (explorer, recorder)."""
    x = JobExplorer(guard, timeout_ms=timeout_ms, max_paths=max_paths,
                    deadline=deadline, max_values=max_values)
    rec = Recorder(x, max_samples=max_samples)
    x.rec = rec

    def unraisable(u):
        e = core.Engine.cur
        if e is not None and not e.dead and u.exc_value is not None \
                and not isinstance(u.exc_value, core.SxControl):
            e.unraisable.append(u.exc_value)

    sys.unraisablehook = unraisable

    def one(eng):
        eng.unraisable = []
        guard.restore()
        cx = SymCx(eng, rec)
        w = env.World(cx)
        cx.w = w
        env.set_world(w)
        try:
            fn(cx, **params)
        except env.Deadlock:
            rec.violation(eng, eng.get_model(), "deadlock", {})
            raise PathAbort("deadlock")
        except Exception as err:
            if eng.control is not None:
                raise eng.control
            import traceback
            rec.violation(eng, eng.get_model(),
                          "exception:" + type(err).__name__,
                          {"trace": traceback.format_exc()[-1500:]})
            raise PathAbort("exception")
        if eng.control is not None:
            raise eng.control
        rec.finished(eng, cx)

    gc.collect()
    gc.freeze()
    gc.disable()
    try:
        x.run(one)
    finally:
        gc.enable()
        gc.unfreeze()
    return x, rec

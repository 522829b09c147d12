"""Concrete mode: the unmodified code is run on one assignment of the inputs."""

import os
import sys
from fractions import Fraction

from .base import CxBase, Stop, plain


class Exact(Fraction):
    """Computes exactly, with floating-point numbers, too: the clock of the
    symbolic run is a real number."""


def _exact(name):
    base = getattr(Fraction, name)

    def method(self, other):
        if isinstance(other, float):
            other = Fraction(other)
        v = base(self, other)
        return Exact(v) if isinstance(v, Fraction) else v
    return method


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv",
           "rtruediv", "floordiv", "rfloordiv", "mod", "rmod"):
    setattr(Exact, "__%s__" % _n, _exact("__%s__" % _n))
for _n in ("lt", "le", "gt", "ge", "eq"):
    setattr(Exact, "__%s__" % _n, _exact("__%s__" % _n))
Exact.__hash__ = Fraction.__hash__
for _n in ("neg", "pos", "abs"):
    setattr(Exact, "__%s__" % _n, (lambda f: lambda self: Exact(f(self)))(
        getattr(Fraction, "__%s__" % _n)))


class ConcCx(CxBase):
    def __init__(self, assignment):
        self.a = assignment
        self.reached = set()
        self.notes = []
        self.violations = []
        self.norc = 0
        self.defaulted = []

    def _get(self, name, default):
        if name in self.a:
            return self.a[name]
        self.defaulted.append(name)
        return default

    def int(self, name, lo, hi):
        v = self._get(name, max(lo, min(hi, 0)))
        return max(lo, min(hi, v))

    def zint(self, name, lo=None, hi=None):
        v = self._get(name, [lo if lo is not None else 0, 1])
        return int(Fraction(*v))

    def real(self, name, lo=None, hi=None):
        v = Exact(*self._get(name, [lo if lo is not None else 0, 1]))
        return int(v) if v.denominator == 1 else v

    def bytes(self, name, n):
        v = bytes(self._get(name, [0] * n))
        return (v + bytes(n))[:n]

    def bool(self, name):
        return bool(self._get(name, False))

    def evaluate(self, text, names):
        return eval(text, dict(names))

    def choice(self, name, n):
        if isinstance(n, int):
            return self._get(name, 0)
        i = self._get(name, 0)
        return n[i] if i < len(n) else n[0]

    def assume(self, cond):
        if not cond:
            raise Stop("assumption")

    def check(self, cond, label, **info):
        if not cond:
            self.violations.append(
                {"label": label, "info": {k: plain(v) for k, v in info.items()}})
            raise Stop("check failed")

    def note(self, *values):
        self.notes.append([plain(v) for v in values])

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(
                self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def any(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def isbytes(self, x):
        return isinstance(x, (bytes, bytearray, memoryview))

    def concat(self, parts):
        return b"".join(bytes(p) for p in parts)

    def blist(self, v):
        return bytes(v)

    # ideal functions

    def oracle(self, table, tag, args, n):
        self.norc += 1
        args = tuple(bytes(x) if self.isbytes(x) else x for x in args)
        for t, a, out in table:
            if t == tag and a == args and len(out) == n:
                return out
        out = self.bytes("orc%d" % self.norc, n)
        table.append((tag, args, out))
        return out

    def blockop(self, table, tag, enc, args, piece):
        self.norc += 1
        args = tuple(bytes(x) for x in args)
        piece = bytes(piece)
        for t, a, pt, ct in table_blocks(table):
            if t == tag and a == args:
                if enc and pt == piece:
                    return ct
                if not enc and ct == piece:
                    return pt
        out = self.bytes("orc%d" % self.norc, len(piece))
        table.append((tag, args, piece, out) if enc
                     else (tag, args, out, piece))
        return out


def table_blocks(table):
    return [e for e in table if len(e) == 4]


class Static:
    @staticmethod
    def inet_aton(s):
        import socket
        return socket.inet_aton(s)

    @staticmethod
    def inet_ntoa(b):
        import socket
        return socket.inet_ntoa(b)

    @staticmethod
    def inet_pton(f, s):
        import socket
        return socket.inet_pton(f, s)

    @staticmethod
    def inet_ntop(f, b):
        import socket
        return socket.inet_ntop(f, b)

    @staticmethod
    def struct_module(module, real):
        return real

    @staticmethod
    def functools_module(module, real):
        return real

    @staticmethod
    def collections_module(module, real):
        return real


def run_one(fn, params, assignment):
    """Run one harness concretely."""
    from . import env
    import gc
    gc.disable()
    cx = ConcCx(assignment)
    w = env.World(cx)
    env.set_world(w)
    cx.w = w
    exc = None
    try:
        fn(cx, **params)
    except Stop as err:
        exc = "stop:" + str(err)
    except env.Deadlock:
        cx.violations.append({"label": "deadlock", "info": {}})
    except Exception as err:
        import traceback
        cx.violations.append({
            "label": "exception:" + type(err).__name__,
            "info": {"trace": traceback.format_exc()[-1500:]}})
    notes, viol = cx.notes, cx.violations
    gc.collect()
    return {"violations": viol, "notes": notes, "stop": exc,
            "reached": sorted(cx.reached), "defaulted": cx.defaulted[:5]}


def setup(openssl, points=False):
    from . import env, loader
    import builtins
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    mods = env.build_modules(Static, openssl)
    f = loader.Finder(False, mods, vars(builtins), {},
                      points=env.point if points else None,
                      points_all=points == "all")
    sys.meta_path.insert(0, f)
    if here not in sys.path:
        sys.path.insert(0, here)
    return f


def serve():
    """Requests on stdin, one JSON object per line; replies on stdout."""
    import importlib
    import json
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.unraisablehook = lambda *a: None
    loaded = {}
    for line in sys.stdin:
        req = json.loads(line)
        if not loaded:
            loaded["f"] = setup(req.get("openssl", False),
                                req.get("points", False))
        try:
            m = importlib.import_module("props." + req["module"])
            fn = m.HARNESSES[req["harness"]].fn
            res = run_one(fn, req["params"], req["assignment"])
        except BaseException as err:
            import traceback
            res = {"error": traceback.format_exc()[-2000:]}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()

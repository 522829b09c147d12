"""Builtins and helpers seen by the symbolically executed modules."""

import builtins
import collections
import enum
import re
from fractions import Fraction

import z3

from . import core
from .core import (SymInt, SymBool, SymBytes, SymByteArray, SymReal, SymHash,
                   Inconclusive, is_sym, as_symint, mk, mkbool, tobool,
                   bits_for, byte_elem, elem_term, check_byte, toreal,
                   unmarker, sx_not, resize)


# --------------------------------------------------------------------------
# Dictionaries and sets whose keys may be symbolic


class _Key:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


module_level = []      # containers created while modules were being loaded


def probe(key):
    """True if the key can be hashed without fixing a symbolic value."""
    t = type(key)
    if t is str or t is int or t is bytes:
        return True
    eng = core.Engine.cur
    if eng is None:
        return True
    old = eng.probing
    eng.probing = True
    try:
        hash(key)
        return True
    except SymHash:
        return False
    finally:
        eng.probing = old


class SymDict(dict):
    """dict that falls back to a linear scan with == for symbolic keys."""

    _sym = 0

    def __init__(self, *args, **kw):
        dict.__init__(self)
        if core.Engine.cur is None:
            module_level.append(self)
        self.update(*args, **kw)

    def _find(self, key):
        """The stored key equal to `key`, or None."""
        if probe(key):
            if dict.__contains__(self, key):
                return _Found(key)
            if not self._sym:
                return None
            for k in dict.__iter__(self):
                if type(k) is _Key and k.k == key:
                    return _Found(k)
            return None
        for k in list(dict.__iter__(self)):
            kk = k.k if type(k) is _Key else k
            if kk is key or kk == key:
                return _Found(k)
        return None

    def __getitem__(self, key):
        f = self._find(key)
        if f is None:
            return self.__missing__(key)
        return dict.__getitem__(self, f.k)

    def __missing__(self, key):
        raise KeyError(key)

    def __setitem__(self, key, value):
        f = self._find(key)
        if f is not None:
            dict.__setitem__(self, f.k, value)
        elif probe(key):
            dict.__setitem__(self, key, value)
        else:
            self._sym += 1
            dict.__setitem__(self, _Key(key), value)

    def __delitem__(self, key):
        f = self._find(key)
        if f is None:
            raise KeyError(key)
        if type(f.k) is _Key:
            self._sym -= 1
        dict.__delitem__(self, f.k)

    def __contains__(self, key):
        return self._find(key) is not None

    def get(self, key, default=None):
        f = self._find(key)
        return default if f is None else dict.__getitem__(self, f.k)

    def setdefault(self, key, default=None):
        f = self._find(key)
        if f is None:
            self[key] = default
            return default
        return dict.__getitem__(self, f.k)

    def pop(self, key, *default):
        f = self._find(key)
        if f is None:
            if default:
                return default[0]
            raise KeyError(key)
        if type(f.k) is _Key:
            self._sym -= 1
        return dict.pop(self, f.k)

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is _Key:
            self._sym -= 1
            k = k.k
        return k, v

    def clear(self):
        dict.clear(self)
        self._sym = 0

    def update(self, *args, **kw):
        for a in args:
            if hasattr(a, "keys"):
                for k in a.keys():
                    self[k] = a[k]
            else:
                for k, v in a:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __iter__(self):
        if not self._sym:
            return dict.__iter__(self)
        return self._iter()

    def _iter(self):
        for k in dict.__iter__(self):
            yield k.k if type(k) is _Key else k

    def __reversed__(self):
        return reversed(list(self))

    def keys(self):
        if not self._sym:
            return dict.keys(self)
        return list(self)

    def items(self):
        if not self._sym:
            return dict.items(self)
        return [(k.k if type(k) is _Key else k, v)
                for k, v in dict.items(self)]

    def copy(self):
        return SymDict(self)

    def __or__(self, other):
        r = SymDict(self)
        r.update(other)
        return r

    def __ior__(self, other):
        self.update(other)
        return self

    def __eq__(self, other):
        if not isinstance(other, dict) or len(self) != len(other):
            return False
        for k in self:
            if k not in other or not (self[k] == other[k]):
                return False
        return True

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"


class _Found:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SymDict.__init__(self, *a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class SymSet:
    def __init__(self, src=()):
        self.d = SymDict()
        for x in src:
            self.d[x] = True

    __class__ = property(lambda self: set)
    __hash__ = None

    def add(self, x):
        self.d[x] = True

    def remove(self, x):
        del self.d[x]

    def discard(self, x):
        self.d.pop(x, None)

    def pop(self):
        if not self.d:
            raise KeyError("pop from an empty set")
        return self.d.popitem()[0]

    def clear(self):
        self.d.clear()

    def copy(self):
        return SymSet(self)

    def update(self, *others):
        for o in others:
            for x in o:
                self.d[x] = True

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __or__(self, o):
        r = SymSet(self)
        r.update(o)
        return r

    __ror__ = union = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        return SymSet(x for x in self if x in o)

    intersection = __and__

    def __sub__(self, o):
        return SymSet(x for x in self if x not in o)

    difference = __sub__

    def __rsub__(self, o):
        return SymSet(x for x in o if x not in self)

    def __le__(self, o):
        return all(x in o for x in self)

    issubset = __le__

    def __eq__(self, o):
        try:
            return len(self) == len(o) and all(x in o for x in self)
        except TypeError:
            return NotImplemented

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}"


class SymFrozenSet(SymSet):
    __class__ = property(lambda self: frozenset)

    def __hash__(self):
        return hash(frozenset(self))


# --------------------------------------------------------------------------
# Type objects


class TypeShim:
    """Stands for a builtin type; calls go to a symbolic-aware constructor."""

    def __init__(self, real, ctor):
        self.__dict__["_real"] = real
        self.__dict__["_ctor"] = ctor

    __class__ = property(lambda self: type)

    def __call__(self, *a, **kw):
        return self._ctor(*a, **kw)

    def __instancecheck__(self, x):
        return isinstance(x, self._real)

    def __subclasscheck__(self, c):
        if type(c) is TypeShim:
            c = c._real
        return issubclass(c, self._real)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __getitem__(self, k):
        return self._real[k]

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __or__(self, o):
        return self._real | (o._real if type(o) is TypeShim else o)

    def __ror__(self, o):
        return o | self._real

    def __eq__(self, o):
        if type(o) is TypeShim:
            o = o._real
        return o is self._real

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)


def int_ctor(x=0, *base, **kw):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.toint()
    if t is SymReal:
        return x.__trunc__()
    if isinstance(x, str):
        m = unmarker(x)
        if m is not None:
            return m
        neg = x.strip()
        if neg.startswith("-"):
            m = unmarker(neg[1:])
            if m is not None:
                return -m
        if "\ue000" in x:
            # a number glued to other digits: fix the symbolic part
            x = re.sub("\ue000(\\d+)\ue001", lambda m: str(
                int.__index__(core.cur().markers[int(m.group(1))].__index__())
            ), x)
        return int(x, *base, **kw)
    if t is SymBytes or t is SymByteArray:
        return int(x.concrete() if t is SymBytes else bytes(x), *base, **kw)
    if not base and not kw and not isinstance(x, (int, float)):
        f = getattr(t, "__int__", None) or getattr(t, "__index__", None) \
            or getattr(t, "__trunc__", None)
        if f is not None:
            return f(x)
    return int(x, *base, **kw)


def from_bytes(data, byteorder="big", *, signed=False):
    e = SymBytes.elems(data)
    if e is None:
        e = [check_byte(x) for x in data]
    if byteorder == "little":
        e = e[::-1]
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    if not any(type(x) is SymInt for x in e):
        return int.from_bytes(bytes(e), "big", signed=signed)
    # drop leading concrete zeros when unsigned
    n = len(e)
    parts = [elem_term(x) for x in e]
    t = z3.Concat(*parts) if n > 1 else parts[0]
    if signed:
        return mk(t, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    lo = hi = 0
    for x in e:
        a, b = (x.lo, x.hi) if type(x) is SymInt else (x, x)
        lo, hi = lo << 8 | a, hi << 8 | b
    return mk(z3.ZeroExt(1, t), lo, hi)


def bytes_ctor(src=b"", *a, **kw):
    if a or kw or isinstance(src, str):
        return bytes(src, *a, **kw)
    t = type(src)
    if t is SymBytes:
        return src
    if t is SymByteArray:
        return SymBytes.make(src.v)
    if t is SymInt or t is SymBool:
        return bytes(core.cur().concretize(as_symint(src)))
    if isinstance(src, int):
        return bytes(src)
    if isinstance(src, (bytes, bytearray, memoryview)):
        return bytes(src)
    f = getattr(t, "__bytes__", None)
    if f is not None:
        return f(src)
    return SymBytes.make([check_byte(x) for x in src])


def bool_ctor(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return mkbool(x.e != 0)
    return bool(x)


def float_ctor(x=0.0):
    if type(x) in (SymInt, SymBool, SymReal):
        return toreal(x)
    if isinstance(x, str) and unmarker(x) is not None:
        return toreal(unmarker(x))
    return float(x)


def sx_len(x):
    t = type(x)
    if t is SymBytes or t is SymByteArray:
        return len(x.v)
    f = getattr(t, "__len__", None)
    if f is None:
        raise TypeError(f"object of type '{t.__name__}' has no len()")
    n = f(x)
    if type(n) is SymBool:
        n = n.toint()
    if type(n) is SymInt:
        if n < 0:
            raise ValueError("__len__() should return >= 0")
        return n
    return len(x)


class SymRange:
    def __init__(self, *a):
        a = [as_symint(x) if is_sym(x) else x for x in a]
        self.start, self.stop, self.step = (
            (0, a[0], 1) if len(a) == 1 else
            (a[0], a[1], a[2] if len(a) > 2 else 1))
        if is_sym(self.step):
            self.step = core.cur().concretize(self.step)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    __class__ = property(lambda self: range)

    def __iter__(self):
        i = self.start
        n = 0
        while True:
            if self.step > 0:
                if not (i < self.stop):
                    return
            elif not (i > self.stop):
                return
            yield i
            i = i + self.step
            n += 1
            if n > 70000:
                raise Inconclusive("symbolic range too long")

    def __len__(self):
        n = 0
        for _ in self:
            n += 1
        return n

    def __contains__(self, x):
        if not (self.start <= x and x < self.stop):
            return False
        return self.step == 1 or (x - self.start) % self.step == 0

    def __getitem__(self, k):
        return list(self)[k]

    def __reversed__(self):
        return reversed(list(self))


def range_ctor(*a):
    for x in a:
        if is_sym(x):
            return SymRange(*a)
    return range(*a)


def _extreme(args, kw, less):
    if kw or len(args) == 1 or not any(is_sym(a) for a in args):
        return None
    best = args[0]
    for x in args[1:]:
        c = (x < best) if less else (x > best)
        if type(c) is not SymBool or type(x) is SymReal \
                or type(best) is SymReal:
            best = x if c else best     # arithmetic: forking is cheaper
        else:
            best = ite(c, x, best)
    return (best,)


def ite(c, a, b):
    """if-then-else without forking, for numbers."""
    if type(c) is not SymBool:
        return a if c else b
    if type(a) is SymReal or type(b) is SymReal or isinstance(a, float) \
            or isinstance(b, float):
        if (isinstance(a, float) and type(a) is float and a in (float("inf"),)) \
                or (type(b) is float and b in (float("inf"),)):
            return a if c else b
        x, y = toreal(a).e, toreal(b).e
        if x.is_int() != y.is_int():
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
        return SymReal.mk(z3.If(c.e, x, y))
    x, y = as_symint(a), as_symint(b)
    if x is None or y is None:
        return a if c else b
    w = max(x.e.size(), y.e.size())
    return mk(z3.If(c.e, resize(x.e, w), resize(y.e, w)),
              min(x.lo, y.lo), max(x.hi, y.hi))


def sx_min(*args, **kw):
    r = _extreme(args, kw, True)
    return r[0] if r else min(*args, **kw)


def sx_max(*args, **kw):
    r = _extreme(args, kw, False)
    return r[0] if r else max(*args, **kw)


def sx_memoryview(x):
    if type(x) in (SymBytes, SymByteArray):
        return SymBytes(list(x.v))
    return memoryview(x)


class IntShim(TypeShim):
    @property
    def from_bytes(self):
        return from_bytes


SHIMS = {}


def _shim(real, ctor, cls=TypeShim):
    s = cls(real, ctor)
    SHIMS[real] = s
    return s


sx_int = _shim(int, int_ctor, IntShim)
sx_bytes = _shim(bytes, bytes_ctor)
sx_bytearray = _shim(bytearray, SymByteArray)
sx_bool = _shim(bool, bool_ctor)
sx_float = _shim(float, float_ctor)
sx_range = _shim(range, range_ctor)
sx_dict = _shim(dict, SymDict)
sx_set = _shim(set, SymSet)
sx_frozenset = _shim(frozenset, SymFrozenSet)


# --------------------------------------------------------------------------
# Helpers inserted by the source transformation


def h_items(d):
    return [(k, d[k]) for k in d.keys()]


def h_type(x):
    t = type(x)
    if t is SymInt:
        t = int
    elif t is SymBool:
        t = bool
    elif t is SymBytes:
        t = bytes
    elif t is SymByteArray:
        t = bytearray
    elif t is SymReal:
        t = x.__class__
    elif t is SymDict:
        t = dict
    elif t is TypeShim:
        t = type
    try:
        return SHIMS.get(t, t)
    except TypeError:
        return t


def _has_sym(a):
    if type(a) in (SymBytes, SymByteArray, SymInt, SymBool):
        return True
    if isinstance(a, (list, tuple)):
        return any(_has_sym(x) for x in a)
    return False


def h_meth(obj, name, *args, **kw):
    t = type(obj)
    if t is bytes or t is bytearray:
        if name == "join" and len(args) == 1:
            args = (list(args[0]),)
        if any(_has_sym(a) for a in args):
            return getattr(SymBytes(list(obj)), name)(*args, **kw)
    elif t is TypeShim and name == "join":
        return obj._real.join(*args)
    return getattr(obj, name)(*args, **kw)


def h_is(a, b):
    if type(b) is SymBool:
        a, b = b, a
    if type(a) is SymBool:
        if isinstance(b, bool):
            return a == b
        return False
    return a is b


def h_in(x, c):
    t = type(c)
    if t is bytes and (type(x) is SymInt or type(x) is SymBytes):
        return SymBytes(list(c)).__contains__(x)
    return x in c


def h_strmod(fmt, args):
    if not isinstance(args, tuple):
        args = (args,)
    if any(is_sym(a) for a in args):
        fmt = re.sub(r"%[0-9.]*[diuxXosr]", "%s", fmt)
        args = tuple(str(a) if is_sym(a) else a for a in args)
    return fmt % args


def h_boolret(fn):
    def __bool__(self):
        r = fn(self)
        return bool(r) if type(r) is SymBool else r
    return __bool__


HELPERS = {
    "__sx_boolret__": h_boolret,
    "__sx_dict__": SymDict,
    "__sx_set__": SymSet,
    "__sx_items__": h_items,
    "__sx_type__": h_type,
    "__sx_meth__": h_meth,
    "__sx_is__": h_is,
    "__sx_in__": h_in,
    "__sx_not__": sx_not,
    "__sx_strmod__": h_strmod,
}

BUILTINS = dict(vars(builtins))
BUILTINS.update({
    "int": sx_int,
    "bytes": sx_bytes,
    "bytearray": sx_bytearray,
    "bool": sx_bool,
    "float": sx_float,
    "range": sx_range,
    "dict": sx_dict,
    "set": sx_set,
    "frozenset": sx_frozenset,
    "len": sx_len,
    "min": sx_min,
    "max": sx_max,
    "memoryview": sx_memoryview,
})


_enum_call = enum.EnumType.__call__


def enum_call(cls, value, *args, **kw):
    if type(value) in (SymInt, SymBool) and not args and not kw:
        for m in cls:
            if m.value == value:
                return m
        raise ValueError(f"{value!r} is not a valid {cls.__qualname__}")
    return _enum_call(cls, value, *args, **kw)


def install_enum():
    enum.EnumType.__call__ = enum_call


# --------------------------------------------------------------------------
# Module and class state is put back before every path


class StateGuard:
    def __init__(self, modules):
        self.mods = [(m, dict(m.__dict__)) for m in modules]
        self.classes = []
        seen = set()

        def add(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            self.classes.append((c, dict(vars(c))))
            for v in vars(c).values():
                if isinstance(v, type) and type(v) is not TypeShim:
                    if getattr(v, "__module__", "").startswith("snmp"):
                        add(v)
        for m, d in self.mods:
            for v in d.values():
                if isinstance(v, type) and type(v) is not TypeShim and \
                        getattr(v, "__module__", "").startswith("snmp"):
                    add(v)
        self.dicts = [(d, list(dict.items(d)), d._sym) for d in module_level]

    def restore(self):
        for m, d in self.mods:
            cur = m.__dict__
            if len(cur) != len(d) or any(
                    cur.get(k, m) is not v for k, v in d.items()):
                for k in [k for k in cur if k not in d]:
                    del cur[k]
                cur.update(d)
        for c, d in self.classes:
            cur = vars(c)
            for k, v in d.items():
                if cur.get(k, c) is not v:
                    try:
                        setattr(c, k, v)
                    except (AttributeError, TypeError):
                        pass
            if len(cur) != len(d):
                for k in [k for k in cur if k not in d]:
                    try:
                        delattr(c, k)
                    except (AttributeError, TypeError):
                        pass
        for d, items, sym in self.dicts:
            dict.clear(d)
            dict.update(d, items)
            d._sym = sym

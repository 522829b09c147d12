"""Byte windows, number generators, security levels, weak references."""

from snmp.security.levels import SecurityLevel, noAuthNoPriv, authNoPriv, \
    authPriv
from snmp.utils import ComparableWeakRef, NumberGenerator, subbytes

from sx.harness import Harness, collect


def bound(cx, name, n, none):
    """An index argument: None, or any integer around 0..n."""
    if none and cx.bool(name + ".none"):
        return None
    return cx.int(name, -n - 1, n + 1)


def fixed(x):
    """Fix a symbolic index (every value is explored)."""
    return None if x is None else range(-99, 99)[x + 99]


def window(cx, n, nest=False):
    """(subbytes, equivalent bytes, underlying bytes, start, stop)."""
    data = cx.bytes("data", n)
    if nest:
        s, t = cx.choice("st", ((1, None), (1, n - 1), (None, -1), (-2, n)))
    else:
        s, t = bound(cx, "s", n, True), bound(cx, "t", n, True)
        s, t = fixed(s), fixed(t)
    w = subbytes(data, s, t)
    ref = data[s:t]
    a, b, _ = slice(s, t).indices(n)
    if nest:
        m = len(ref)
        s2, t2 = bound(cx, "s2", m, True), bound(cx, "t2", m, True)
        s2, t2 = fixed(s2), fixed(t2)
        w = subbytes(w, s2, t2)
        c, d, _ = slice(s2, t2).indices(len(ref))
        ref = ref[s2:t2]
        a, b = a + c, a + max(c, d)
    return w, ref, data, a, max(a, b)


def view(cx, n, nest):
    w, ref, data, a, b = window(cx, n, nest)
    cx.note(ref)
    cx.check(len(w) == len(ref), "length")
    cx.check(bool(w) == (len(ref) > 0), "truth value")
    cx.check(cx.eq(list(w), list(ref)), "iteration")
    cx.check(w[:] == ref, "copy")
    cx.check(cx.all(w == ref, w == subbytes(ref)), "equality")
    cx.check(w.data is data or w.data == data, "underlying data")
    cx.check(w.start == a and w.stop == b, "position", start=w.start,
             stop=w.stop)
    if len(ref):
        cx.reach("non-empty")
        other = cx.bytes("other", len(ref))
        cx.check((w == other) if other == ref else cx.not_(w == other),
                 "equality with other bytes")
    cx.check(cx.not_(w == ref + b"\x00"), "equality with longer bytes")


def access(cx, n, nest):
    w, ref, data, a, b = window(cx, n, nest)
    i = fixed(bound(cx, "i", len(ref), False))
    x, err = cx.observe(w.__getitem__, i)
    if -len(ref) <= i < len(ref):
        cx.reach("inside")
        cx.check(err is None and x == ref[i], "index", i=i)
        cx.note(x)
    else:
        cx.reach("outside")
        cx.check(isinstance(err, IndexError), "index outside the window",
                 i=i, got=x)
    p, q = w.split(i)
    cx.check(cx.all(p[:] == ref[:i], q[:] == ref[i:], len(p) == len(ref[:i]),
                    len(q) == len(ref[i:])), "split", i=i)


def first(cx, n, nest):
    w, ref, data, a, b = window(cx, n, nest)
    x, err = cx.observe(w.dereference)
    if len(ref):
        cx.check(err is None and x == ref[0], "first byte")
    else:
        cx.check(isinstance(err, IndexError), "first byte of nothing")
    cx.check(w.advance()[:] == ref[1:], "advance")
    cx.reach("done")
    r = cx.bytes("r", cx.choice("rn", (0, 2)))
    cx.check(w.replace(r) == data[:a] + r + data[b:], "replace")


def slices(cx, n, step):
    # a window of n octets inside a buffer of n + 2
    data = cx.bytes("data", n + 2)
    ref = data[1:n + 1]
    w = subbytes(data, 1, n + 1)
    i, j = bound(cx, "i", n, True), bound(cx, "j", n, True)
    i, j = fixed(i), fixed(j)
    got = w[i:j:step]
    cx.note(got)
    cx.check(got == ref[i:j:step], "slice", i=i, j=j, step=step)
    cx.reach("done")


def generator_full(cx, n, sgn):
    """The whole period."""
    g = NumberGenerator(n, sgn)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sgn \
        else (0, (1 << n) - 1)
    seen = [next(g) for _ in range(1 << n)]
    cx.note(seen[0])
    for x in seen:
        cx.check(cx.all(lo <= x, x <= hi), "out of range")
    for x in seen[:-1]:
        cx.check(x != 0, "zero before the end")
    cx.check(seen[-1] == 0, "the last number is not zero")
    # each value once: compare every pair
    for i in range(len(seen)):
        for j in range(i):
            cx.check(seen[i] != seen[j], "repeated", i=i, j=j)
    cx.check(next(g) == seen[0], "period")
    cx.reach("done")


def generator_steps(cx, n, sgn, steps):
    """The first numbers of a long sequence, for every random start."""
    g = NumberGenerator(n, sgn)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sgn \
        else (0, (1 << n) - 1)
    seen = []
    for k in range(steps):
        x = next(g)
        cx.check(cx.all(lo <= x, x <= hi), "out of range", k=k)
        cx.check(x != 0, "zero", k=k)
        for y in seen:
            cx.check(x != y, "repeated", k=k)
        seen.append(x)
    # x_k = k * x_1 modulo 2^n, and x_1 is odd: hence full period
    cx.check(seen[0] % 2 == 1, "even step")
    for k in range(1, steps):
        cx.check((seen[k] - seen[k - 1] - seen[0]) % (1 << n) == 0,
                 "not an arithmetic progression", k=k)
    cx.note(seen)
    cx.reach("done")


def levels(cx):
    def level(name):
        a, p = cx.int(name + ".a", 0, 4), cx.int(name + ".p", 0, 4)
        lv, err = cx.observe(SecurityLevel, a, p)
        bad = cx.all(p != 0, a == 0)
        if err is not None:
            cx.reach("refused")
            cx.check(cx.all(isinstance(err, ValueError), bad),
                     "level refused")
            return None, None
        cx.check(cx.not_(bad), "privacy without authentication")
        cx.check((lv.auth if a != 0 else not lv.auth)
                 and (lv.priv if p != 0 else not lv.priv), "fields")
        return lv, cx.ite(p != 0, 2, cx.ite(a != 0, 1, 0))

    x, i = level("x")
    if x is None:
        return
    y, j = level("y")
    if y is None:
        return
    cx.reach("compared")
    for name, got, want in (("<", x < y, i < j), (">=", x >= y, i >= j),
                            (">", x > y, i > j), ("<=", x <= y, i <= j),
                            ("==", x == y, i == j), ("!=", x != y, i != j)):
        cx.note(name, bool(got))
        cx.check(want if got else cx.not_(want), "comparison " + name)
    named = [noAuthNoPriv, authNoPriv, authPriv]
    for k in range(3):
        cx.check((x == named[k]) if i == k else not (x == named[k]),
                 "named level")


class Item:
    def __init__(self, k):
        self.k = k


def weakrefs(cx, steps):
    """Objects whose keys change between comparisons, until they are gone."""
    objs = [Item(cx.int("a", -5, 5)), Item(cx.int("b", -5, 5))]
    refs = [ComparableWeakRef(o, lambda o: o.k) for o in objs]
    cx.check(refs[0]() is objs[0] and refs[1]() is objs[1], "dereference")
    last = [o.k for o in objs]
    for n in range(steps):
        i, j = (0, 1) if cx.bool("forward%d" % n) else (1, 0)
        got = refs[i] < refs[j]
        cx.check((last[i] < last[j]) if got else cx.not_(last[i] < last[j]),
                 "order", n=n)
        if n == steps - 1:
            break
        k = 1 if cx.bool("which%d" % n) else 0
        if objs[k] is None:
            continue
        if cx.bool("gone%d" % n):
            objs[k] = None
            cx.check(refs[k]() is None, "dead reference")
            cx.reach("gone")
        else:
            last[k] = objs[k].k = cx.int("new%d" % n, -5, 5)
            cx.reach("changed")
    for i, r in enumerate(refs):
        cx.check(r.value == last[i], "last value", i=i)
        cx.note(r.value)
    cx.reach("done")


HARNESSES = collect(
    Harness(view, [dict(n=0, nest=False), dict(n=3, nest=False),
                   dict(n=4, nest=True)],
            [dict(n=5, nest=False), dict(n=6, nest=True)],
            reach=("non-empty",), functions=["subbytes.*"],
            bound="buffers of up to 4 (6) arbitrary octets, every start and "
                  "stop, one level of nesting"),
    Harness(access, [dict(n=0, nest=False), dict(n=2, nest=False),
                     dict(n=3, nest=True)],
            [dict(n=3, nest=False), dict(n=4, nest=True)],
            reach=("inside", "outside"), functions=["subbytes.*"],
            bound="every index in and around the window"),
    Harness(first, [dict(n=0, nest=False), dict(n=2, nest=False),
                    dict(n=4, nest=True)], [dict(n=4, nest=False)],
            reach=("done",), functions=["subbytes.*"],
            bound="every window, replacements of 0 and 2 octets"),
    Harness(slices, [dict(n=3, step=s) for s in (None, 1, 2, -1, -2)],
            [dict(n=5, step=s) for s in (None, 1, 2, 3, -1, -2, -3)],
            reach=("done",),
            functions=["subbytes.__getitem__", "subbytes.translate"],
            bound="every slice with steps none, 1, 2, -1, -2"),
    Harness(generator_full, [dict(n=n, sgn=s) for n in (1, 2, 3, 4)
                             for s in (False, True)],
            [dict(n=n, sgn=s) for n in (5, 6) for s in (False, True)],
            reach=("done",), functions=["NumberGenerator.*"],
            bound="all of the period for sizes of 1-4 (6) bits, every random "
                  "start"),
    Harness(generator_steps, [dict(n=32, sgn=True, steps=4),
                              dict(n=31, sgn=False, steps=4)],
            [dict(n=32, sgn=True, steps=6), dict(n=31, sgn=False, steps=6)],
            reach=("done",), functions=["NumberGenerator.*"],
            bound="the first 4 (6) numbers of 31 and 32 bits, every random "
                  "start"),
    Harness(levels, [dict()], reach=("refused", "compared"),
            functions=["SecurityLevel.*"], bound="all pairs of levels"),
    Harness(weakrefs, [dict(steps=3)], [dict(steps=4)],
            reach=("done", "gone", "changed"),
            functions=["ComparableWeakRef.*"],
            bound="2 references, 3 (4) comparisons in either direction, keys "
                  "-5..5 that change, objects that disappear in between"),
)

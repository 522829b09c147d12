"""Object identifiers: encoding, algebra, table indices."""

from snmp.asn1 import OBJECT_IDENTIFIER
from snmp.ber import ParseError
from snmp.smi import *
from snmp.utils import subbytes

from sx.harness import Harness, collect
from . import wire

U32 = (1 << 32) - 1


def ids(cx, n, lo=0, hi=U32, name="id"):
    """A legal list of n sub-identifiers."""
    out = []
    for i in range(n):
        if i == 0:
            out.append(cx.int(name + "0", 0, 2))
        elif i == 1:
            out.append(cx.int(name + "1", 0, 39))
        else:
            out.append(cx.int("%s%d" % (name, i), lo, hi))
    return out


def construct(cx, n, filler=0):
    """Exactly the documented identifiers can be made."""
    v = []
    for i in range(n):
        v.append(cx.int("id%d" % i, -3, 1 << 33))
    v = v + [1] * filler
    obj, err = cx.observe(OID, *v)
    legal = [len(v) <= 128]
    for i, x in enumerate(v):
        legal.append(cx.all(x >= 0, x <= (2 if i == 0 else 39 if i == 1
                                          else U32)))
    legal = cx.all(*legal)
    if err is not None:
        cx.reach("refused")
        cx.check(type(err) is ValueError, "undocumented error",
                 got=type(err).__name__)
        cx.check(cx.not_(legal), "legal OID refused", v=v)
        return
    cx.reach("legal")
    cx.check(legal, "illegal OID accepted", v=v)
    cx.check(cx.eq(list(obj), v) and len(obj) == len(v), "content")
    cx.note(list(obj))


def roundtrip(cx, n, filler=0):
    v = ids(cx, n) + [7] * filler
    obj = OID(*v)
    data = obj.encode()
    cx.note(data)
    cx.check(data == wire.oid(v), "encoding", v=v)
    want = v + [0] * (2 - len(v))
    back = OID.decode(data)
    cx.check(cx.all(cx.eq(list(back), want), type(back) is OID),
             "does not survive", v=v)
    rest = cx.bytes("rest", 1)
    back, tail = OID.decode(data + rest, leftovers=True, copy=False)
    cx.check(cx.all(cx.eq(list(back), want), tail[:] == rest),
             "does not survive with data behind it", v=v)
    cx.reach("done")


def ref_oid(content):
    """Sub-identifiers of an encoding, or None if it is malformed."""
    if len(content) == 0:
        return None
    v = []
    x = 0
    open_ = False
    for b in content:
        if b >= 0x80:
            x = x * 128 + (b - 0x80)
            open_ = True
        else:
            v.append(x * 128 + b)
            x = 0
            open_ = False
    if open_:
        return None
    first = v[0]
    # two arcs in one; a second arc above 39 is not supported
    if first >= 120:
        return None
    return [first // 40, first % 40] + v[1:]


def arbitrary(cx, n):
    content = cx.bytes("content", n)
    data = wire.tlv(0x06, content)
    if cx.bool("view"):
        data = subbytes(data)
    obj, err = cx.observe(OID.decode, data)
    want = ref_oid(content)
    legal = want is not None and cx.all(*[x <= U32 for x in want])
    if err is not None:
        cx.reach("refused")
        cx.check(type(err) is ParseError, "undocumented error",
                 got=type(err).__name__)
        if n > 1:
            # a first octet of 120 or more is not a supported prefix; this
            # includes non-minimal encodings of smaller ones
            cx.check(cx.any(cx.not_(legal), content[0] >= 0x80),
                     "legal OID refused")
        else:
            cx.check(cx.not_(legal), "legal OID refused")
        return
    cx.reach("decoded")
    cx.check(legal, "malformed OID accepted", got=list(obj))
    cx.note(list(obj))
    cx.check(cx.eq(list(obj), want), "misread", got=list(obj))


def algebra(cx, n, m):
    """Comparison, prefixes, extension."""
    a, b = ids(cx, n, name="a"), ids(cx, m, name="b")
    x, y = OID(*a), OID(*b)
    same = n == m and cx.eq(a, b)
    cx.check(same if (x == y) else cx.not_(same), "equality", a=a, b=b)
    cx.check(cx.not_(same) if (x != y) else same, "inequality", a=a, b=b)

    # lexicographic order
    less = n < m
    for i in reversed(range(min(n, m))):
        less = cx.any(a[i] < b[i], cx.all(a[i] == b[i], less))
    got = x < y
    if got:
        cx.reach("less")
        cx.check(less, "order", a=a, b=b)
    else:
        cx.reach("not less")
        cx.check(cx.not_(less), "order", a=a, b=b)
    cx.check(cx.not_(cx.all(got, y < x)), "order is not antisymmetric")
    cx.check(cx.any(got, y < x, x == y), "order is not total")

    pre = n >= m and cx.eq(a[:m], b)
    if x.startswith(y):
        cx.reach("prefix")
        cx.check(pre, "startswith", a=a, b=b)
    else:
        cx.reach("no prefix")
        cx.check(cx.not_(pre), "startswith", a=a, b=b)
    cx.note(got, x.startswith(y))


def extend(cx, n, m):
    a = ids(cx, n)
    b = [cx.int("e%d" % i, 0, U32) for i in range(m)]
    if n == 0 and m > 0:
        cx.assume(b[0] <= 2)
    if n < 2 and m > 1 - n:
        cx.assume(b[1 - n] <= 39)
    x = OID(*a)
    y = x.extend(*b)
    cx.check(type(y) is OID and cx.eq(list(y), a + b), "extend")
    cx.check(cx.eq(list(x), a), "extend changed the original")
    cx.check(y.startswith(x), "an extension does not start with its base")
    cx.check(cx.eq(list(y[n:]), b), "slicing")
    cx.check(x.extend(*b[:1]).extend(*b[1:]) == y, "extend is associative")
    for i in range(n + m):
        cx.check(y[i] == (a + b)[i], "indexing")
    # text
    text = str(y)
    cx.note(text)
    if n + m:
        cx.reach("text")
        cx.check(OID.parse(text) == y, "text does not survive")
        cx.check(OID.parse("." + text) == y, "leading dot")
    cx.reach("done")


def hashing(cx, n, top):
    a = ids(cx, n, hi=top, name="a")
    b = ids(cx, n, hi=top, name="b")
    cx.assume(cx.eq(a, b))
    for v in a + b:
        cx.assume(v <= top)
    cx.check(hash(OID(*a)) == hash(OID(*b)), "hash of equal OIDs")
    cx.note(1)
    cx.reach("done")


def parse(cx, n):
    """Text with arbitrary numbers."""
    v = [cx.int("n%d" % i, -2, 1 << 33) for i in range(n)]
    text = ".".join([str(x) for x in v])
    obj, err = cx.observe(OID.parse, text)
    legal = cx.all(*[cx.all(x >= 0, x <= (2 if i == 0 else 39 if i == 1
                                          else U32))
                     for i, x in enumerate(v)])
    if err is None:
        cx.reach("parsed")
        cx.check(legal, "illegal text accepted", text=text)
        cx.check(cx.eq(list(obj), v), "text misread", text=text)
        cx.note(list(obj))
    else:
        cx.reach("refused")
        cx.check(cx.all(type(err) is ValueError, cx.not_(legal)),
                 "legal text refused", text=text)


def dots(cx, before, behind):
    """Arbitrary numbers, with dots around and between them."""
    v = [cx.int("n0", 0, 2), cx.int("n1", 0, 39), cx.int("n2", 0, U32)]
    gap = cx.choice("gap", 3)
    t = "." * before + str(v[0]) + "." + str(v[1]) \
        + "." * (1 + gap) + str(v[2]) + "." * behind
    obj, err = cx.observe(OID.parse, t)
    cx.note(err is None)
    if before <= 1 and gap == 0 and behind == 0:
        cx.reach("parsed")
        cx.check(err is None, "legal text refused", text=t)
        cx.check(cx.eq(list(obj), v), "text misread", text=t)
    else:
        cx.reach("refused")
        cx.check(type(err) is ValueError, "illegal text accepted", text=t)


# -- table indices ---------------------------------------------------------------

MAKE = {}


def index_object(cx, kind, name, maxlen):
    """(object, type) of one index field."""
    if kind == "int":
        return Integer32(cx.int(name, 0, (1 << 31) - 1)), Integer32
    if kind == "uns":
        return Unsigned32(cx.int(name, 0, U32)), Unsigned32
    if kind == "str":
        n = cx.choice(name + ".n", maxlen + 1)
        return OctetString(cx.bytes(name, n)), OctetString
    if kind == "ip":
        q = [cx.int("%s.%d" % (name, i), 0, 255) for i in range(4)]
        return IpAddress("%d.%d.%d.%d" % tuple(q)), IpAddress
    if kind == "oid":
        n = cx.choice(name + ".n", maxlen + 1)
        return OID(*ids(cx, n, name=name)), OID
    return Null(), Null


TYPES = {"int": Integer32, "uns": Unsigned32, "str": OctetString,
         "ip": IpAddress, "oid": OID, "null": Null}


def index_octets(obj, implied):
    """RFC 2578 section 7.7."""
    if isinstance(obj, IpAddress):
        return list(obj.data)
    if isinstance(obj, OctetString):
        return ([] if implied else [len(obj.data)]) + list(obj.data)
    if isinstance(obj, OID):
        return ([] if implied else [len(obj)]) + list(obj)
    if isinstance(obj, Null):
        return []
    return [obj.value]


def index_roundtrip(cx, kinds, maxlen, implied):
    prefix = OID(1, 3, 6, cx.int("p", 0, U32))
    objs, types = [], []
    for i, k in enumerate(kinds):
        o, t = index_object(cx, k, "f%d" % i, maxlen)
        objs.append(o)
        types.append(t)
    oid = prefix.withIndex(*objs, implied=implied)
    want = list(prefix)
    for i, o in enumerate(objs):
        want = want + index_octets(o, implied and i == len(objs) - 1)
    cx.check(cx.eq(list(oid), want), "index encoding (RFC 2578 7.7)",
             got=list(oid))
    cx.note(list(oid))
    back, err = cx.observe(oid.decodeIndex, prefix, *types, implied=implied)
    cx.check(err is None, "index does not decode", oid=list(oid))
    cx.check(len(back) == len(objs), "number of fields")
    for x, y, t in zip(back, objs, types):
        cx.check(type(x) is t and x == y, "field does not survive",
                 oid=list(oid))
    if len(kinds) == 1:
        one = oid.getIndex(prefix, types[0], implied=implied)
        cx.check(type(one) is types[0] and one == objs[0], "getIndex")
    cx.reach("done")


def index_arbitrary(cx, kinds, n, implied, np):
    """Any OID, any types: a value that encodes back, or a documented error."""
    prefix = ids(cx, np, name="p")
    oid = ids(cx, np, name="o") + [cx.int("s%d" % i, 0, U32)
                                   for i in range(n)]
    types = [TYPES[k] for k in kinds]
    x = OID(*oid)
    back, err = cx.observe(x.decodeIndex, OID(*prefix), *types,
                           implied=implied)
    pre = cx.eq(oid[:np], prefix)
    if err is not None:
        if isinstance(err, OBJECT_IDENTIFIER.BadPrefix):
            cx.reach("bad prefix")
            cx.check(cx.not_(pre), "prefix refused")
        else:
            cx.reach("refused")
            cx.check(isinstance(err, OBJECT_IDENTIFIER.IndexDecodeError),
                     "undocumented error", got=type(err).__name__)
            cx.check(pre, "wrong error for a wrong prefix")
        return
    cx.reach("decoded")
    cx.check(pre, "wrong prefix accepted")
    cx.check(len(back) == len(types), "number of fields")
    again = []
    for i, (o, t) in enumerate(zip(back, types)):
        cx.check(type(o) is t, "type of a field")
        again = again + index_octets(o, implied and i == len(types) - 1)
    cx.note(again)
    cx.check(cx.eq(oid[np:], again), "index misread", oid=oid)


ONE = [[k] for k in ("int", "uns", "str", "ip", "oid", "null")]
TWO = [["str", "int"], ["ip", "uns"], ["oid", "str"], ["int", "ip"],
       ["str", "str"], ["uns", "oid"], ["null", "int"], ["ip", "ip"]]
THREE = [["int", "ip", "str"], ["oid", "oid", "int"], ["str", "ip", "oid"]]

HARNESSES = collect(
    Harness(construct, [dict(n=n) for n in range(0, 5)]
            + [dict(n=3, filler=k) for k in (124, 125, 126)],
            reach=("refused", "legal"),
            functions=["OID.__init__", "OBJECT_IDENTIFIER.__init__"],
            bound="0-4 numbers in -3..2^33; 127-129 numbers of which three "
                  "arbitrary"),
    Harness(roundtrip, [dict(n=n) for n in range(0, 5)]
            + [dict(n=3, filler=125)], [dict(n=5)], reach=("done",),
            functions=["OBJECT_IDENTIFIER.serialize/deserialize/"
                       "serializeSubIdentifier/construct"],
            bound="every legal OID of up to 4 (thorough 5) sub-identifiers, "
                  "and of 128 with the first three arbitrary"),
    Harness(arbitrary, [dict(n=n) for n in range(0, 8)],
            [dict(n=n) for n in (8, 9)], reach=("refused", "decoded"),
            functions=["OBJECT_IDENTIFIER.deserialize"],
            bound="every content of up to 7 octets (thorough 9)"),
    Harness(algebra, [dict(n=n, m=m) for n in range(0, 5) for m in range(0, 5)
                      if abs(n - m) <= 2],
            reach=("less", "not less", "prefix", "no prefix"),
            functions=["OBJECT_IDENTIFIER.__eq__/__lt__/startswith"],
            bound="every pair of OIDs of up to 4 sub-identifiers"),
    Harness(extend, [dict(n=n, m=m) for n in (0, 1, 2, 4) for m in (0, 1, 3)],
            reach=("text", "done"),
            functions=["OBJECT_IDENTIFIER.extend/parse/__str__/"
                       "__getitem__"],
            bound="bases of 0-4, extensions of 0-3 arbitrary numbers"),
    Harness(hashing, [dict(n=3, top=3)], reach=("done",),
            functions=["OBJECT_IDENTIFIER.__hash__"],
            bound="sub-identifiers 0..3"),
    Harness(parse, [dict(n=n) for n in (1, 2, 4)],
            reach=("parsed", "refused"),
            functions=["OBJECT_IDENTIFIER.parse"],
            bound="1, 2 or 4 numbers in -2..2^33"),
    Harness(dots, [dict(before=a, behind=b) for a in range(4)
                   for b in range(3)], reach=("parsed", "refused"),
            functions=["OBJECT_IDENTIFIER.parse"],
            bound="three arbitrary numbers with 0-3 dots before, 1-3 between, "
                  "and 0-2 behind them"),
    Harness(index_roundtrip,
            [dict(kinds=k, maxlen=3, implied=i) for k in ONE + TWO
             for i in (False, True)]
            + [dict(kinds=k, maxlen=2, implied=i) for k in THREE
               for i in (False, True)],
            reach=("done",),
            functions=["withIndex", "decodeIndex", "getIndex", "asOID",
                       "fromOID"],
            bound="one to three fields of integer, unsigned, string, address,"
                  " OID, null types; strings and OIDs of up to 3 elements; "
                  "implied or not"),
    Harness(index_arbitrary,
            [dict(kinds=k, n=n, implied=i, np=3) for k in ONE
             for n in (0, 1, 3, 4, 5) for i in (False, True)]
            + [dict(kinds=k, n=n, implied=i, np=2) for k in TWO
               for n in (1, 5) for i in (False, True)],
            [dict(kinds=k, n=n, implied=i, np=2) for k in TWO + THREE
             for n in (6, 7) for i in (False, True)],
            reach=("bad prefix", "refused", "decoded"),
            functions=["decodeIndex", "decodeIndexField", "fromOID"],
            bound="every OID with up to 5 (thorough 7) numbers after the "
                  "prefix"),
)

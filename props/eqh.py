"""When two values are equal; the list of variables."""

from snmp.ber import Tag
from snmp.message import Message, ProtocolVersion
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.pdu import *
from snmp.security import SecurityModel
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import *

from sx.harness import Harness, collect
from .pduh import ALL, CLASSES, I31
from .v3h import LEVELS

U32 = (1 << 32) - 1
KINDS = {
    "Integer32": (Integer32, 0x02, "i"), "Integer": (Integer, 0x02, "i"),
    "OctetString": (OctetString, 0x04, "s"), "NULL": (Null, 0x05, "n"),
    "OID": (OID, 0x06, "o"), "IpAddress": (IpAddress, 0x40, "a"),
    "Counter32": (Counter32, 0x41, "u"), "Gauge32": (Gauge32, 0x42, "u"),
    "Unsigned32": (Unsigned32, 0x42, "u"), "Unsigned": (Unsigned, 0x42, "u"),
    "TimeTicks": (TimeTicks, 0x43, "u"), "Opaque": (Opaque, 0x44, "s"),
    "Counter64": (Counter64, 0x46, "w"),
    "NoSuchObject": (NoSuchObject, 0x80, "n"),
    "NoSuchInstance": (NoSuchInstance, 0x81, "n"),
    "EndOfMibView": (EndOfMibView, 0x82, "n"),
}
FORM = {"i": "number", "u": "number", "w": "number", "s": "string",
        "a": "string", "n": "null", "o": "oid"}


def make(cx, kind, name):
    """(object, what it denotes)"""
    cls, tag, form = KINDS[kind]
    if form == "i":
        v = cx.int(name, -I31 - 1, I31)
        obj = cls(v)
    elif form == "u":
        v = cx.int(name, 0, U32)
        obj = cls(v)
    elif form == "w":
        v = cx.int(name, 0, (1 << 64) - 1)
        obj = cls(v)
    elif form == "s":
        v = cx.bytearr(name, (0, 2, 4))
        obj = cls(v)
    elif form == "a":
        q = [cx.int(name + str(i), 0, 255) for i in range(4)]
        v = bytes(q)
        obj = cls("%d.%d.%d.%d" % tuple(q))
    elif form == "o":
        n = 2 + cx.choice(name + ".n", 3)
        v = [cx.int(name + str(i), 0, 2 if i == 0 else 39 if i == 1 else U32)
             for i in range(n)]
        obj = cls(*v)
    else:
        v = None
        obj = cls()
    return obj, (tag, FORM[form], v)


def alike(cx, a, b):
    if a[0] != b[0] or a[1] != b[1]:
        return False
    if a[1] == "null":
        return True
    return cx.eq(a[2], b[2])


def agree(cx, x, y, same, label="equality"):
    cx.check((x == y) == same, label)
    cx.check((x != y) == cx.not_(same), "in" + label)
    cx.check((y == x) == same, label + " the other way round")


def values(cx, kind, other):
    x, a = make(cx, kind, "x")
    k = other[cx.choice("kind", len(other))]
    y, b = make(cx, k, "y")
    agree(cx, x, y, alike(cx, a, b))
    for z in (None, 0, b"", "", (), a[2]):
        cx.check(cx.not_(x == z), "equal to what is no SNMP value")
    cx.reach("done")


def bind(cx, kind, name):
    obj, a = make(cx, kind, name + "v")
    v = [1, 3] + [cx.int("%s%d" % (name, i), 0, U32) for i in range(
        1 + cx.choice(name + ".n", 2))]
    return VarBind(OID(*v), obj), (v, a)


def same_bind(cx, a, b):
    return cx.all(cx.eq(a[0], b[0]), alike(cx, a[1], b[1]))


def same_binds(cx, a, b):
    if len(a) != len(b):
        return False
    return cx.all(True, *[same_bind(cx, x, y) for x, y in zip(a, b)])


def varbinds(cx, one, two):
    """Variables and lists of variables."""
    p = [bind(cx, k, "a%d." % i) for i, k in enumerate(one)]
    q = [bind(cx, k, "b%d." % i) for i, k in enumerate(two)]
    x, y = VarBindList(*[o for o, d in p]), VarBindList(*[o for o, d in q])
    agree(cx, x, y, same_binds(cx, [d for o, d in p], [d for o, d in q]))
    if p and q:
        agree(cx, p[0][0], q[0][0], same_bind(cx, p[0][1], q[0][1]),
              "equality of variables")
    cx.reach("done")


def make_pdu(cx, name, kinds, tag):
    rid = cx.int(tag + "rid", -I31 - 1, I31)
    p = [bind(cx, k, "%s%d." % (tag, i)) for i, k in enumerate(kinds)]
    objs = [o for o, d in p]
    cls = CLASSES[name][0]
    if name == "GetBulkRequestPDU":
        a, b = cx.int(tag + "x", 0, I31), cx.int(tag + "y", 0, I31)
        pdu = cls(*objs, requestID=rid, nonRepeaters=a, maxRepetitions=b)
    else:
        a, b = cx.int(tag + "x", 0, 2), cx.int(tag + "y", 0, len(objs))
        pdu = cls(*objs, requestID=rid, errorStatus=ErrorStatus(a),
                  errorIndex=b)
    return pdu, (name, rid, a, b, [d for o, d in p])


def same_pdu(cx, a, b):
    if a[0] != b[0]:
        return False
    return cx.all(a[1] == b[1], a[2] == b[2], a[3] == b[3],
                  same_binds(cx, a[4], b[4]))


def pdus(cx, name, others, one, two):
    x, a = make_pdu(cx, name, one, "a")
    y, b = make_pdu(cx, others[cx.choice("other", len(others))], two, "b")
    agree(cx, x, y, same_pdu(cx, a, b))
    cx.reach("done")


def communities(cx, name, n):
    x, a = make_pdu(cx, name, [], "a")
    y, b = make_pdu(cx, name, [], "b")
    v, w = cx.choice("v", 2), cx.choice("w", 2)
    c, d = cx.bytearr("c", (0, n)), cx.bytearr("d", (0, n))
    agree(cx, Message(ProtocolVersion(v), c, x),
          Message(ProtocolVersion(w), d, y),
          cx.all(v == w, cx.eq(c, d), same_pdu(cx, a, b)))
    cx.reach("done")


def head(cx, tag):
    k = cx.choice(tag + "level", 3)
    rep = bool(cx.bool(tag + "rep"))
    mid, size = cx.int(tag + "id", 0, I31), cx.int(tag + "size", 484, I31)
    return HeaderData(mid, size, MessageFlags(LEVELS[k], rep),
                      SecurityModel.USM), (mid, size, k, rep)


def same_head(cx, a, b):
    return cx.all(a[2] == b[2], a[3] == b[3], a[0] == b[0], a[1] == b[1])


def messages(cx, part):
    """SNMPv3: headers, scoped PDUs, messages, security parameters."""
    if part == "header":
        (x, a), (y, b) = head(cx, "a"), head(cx, "b")
        agree(cx, x, y, same_head(cx, a, b))
        agree(cx, x.flags, y.flags, a[2:] == b[2:], "equality of flags")
    elif part == "scoped":
        (x, a), (y, b) = (make_pdu(cx, "ResponsePDU", [], t) for t in "ab")
        e, f = cx.bytearr("e", (0, 2)), cx.bytearr("f", (0, 2))
        c, d = cx.bytearr("c", (0, 2)), cx.bytearr("d", (0, 2))
        agree(cx, ScopedPDU(x, e, c), ScopedPDU(y, f, d),
              cx.all(cx.eq(e, f), cx.eq(c, d), same_pdu(cx, a, b)))
    elif part == "parameters":
        f, g = ([cx.bytearr(t + "e", (0, 2)), cx.int(t + "b", 0, I31),
                 cx.int(t + "t", 0, I31), cx.bytearr(t + "u", (0, 1)),
                 cx.bytes(t + "a", 2), cx.bytes(t + "p", 1)] for t in "ab")
        agree(cx, UsmSecurityParameters(*f), UsmSecurityParameters(*g),
              cx.all(*[cx.eq(x, y) for x, y in zip(f, g)]))
    else:
        m = []
        for t in "ab":
            h, a = head(cx, t)
            s = cx.bytes(t + "params", 2)
            if a[2] == 2:
                p = cx.bytes(t + "data", 2)
                m.append((SNMPv3Message(
                    h, encryptedPDU=OctetString(p),
                    securityParameters=OctetString(s)), a, s, p))
            else:
                p, q = make_pdu(cx, "ResponsePDU", [], t)
                m.append((SNMPv3Message(
                    h, ScopedPDU(p, b"e"),
                    securityParameters=OctetString(s)), a, s, q))
        (x, a, s, p), (y, b, t, q) = m
        if (a[2] == 2) != (b[2] == 2):
            same = False
        else:
            same = cx.all(same_head(cx, a, b), cx.eq(s, t), cx.eq(p, q)
                          if a[2] == 2 else same_pdu(cx, p, q))
        agree(cx, x, y, same)
    cx.reach("done")


def tags(cx, top):
    a, b = ((cx.int(t + "n", 0, top), bool(cx.bool(t + "c")),
             cx.choice(t + "cls", 4)) for t in "ab")
    x, y = (Tag(n, c, Tag.Class(k)) for n, c, k in (a, b))
    same = cx.all(a[0] == b[0], a[1] == b[1], a[2] == b[2])
    agree(cx, x, y, same)
    if top > 9:
        cx.reach("done")
        return
    cx.check(cx.implies(same, hash(x) == hash(y)), "hash")
    found = {x: 1}.get(y)
    cx.check((found is not None) == same, "look-up")
    cx.reach("done")


def listing(cx, forms):
    """A list made of variables, identifiers and texts."""
    args, want = [], []
    for i, f in enumerate(forms):
        n = cx.int("n%d" % i, 0, U32)
        v = [1, 3, n]
        if f == "variable":
            x = cx.int("v%d" % i, 0, U32)
            args.append(VarBind(OID(*v), Counter32(x)))
            want.append((v, (0x41, "number", x)))
        else:
            args.append(OID(*v) if f == "oid" else
                        ("." if f == "dot" else "") + "1.3.%d" % n)
            want.append((v, (0x05, "null", None)))
    how = cx.choice("how", 3)
    if how == 0:
        l = VarBindList(*args)
    elif how == 1:
        l = GetRequestPDU(*args).variableBindings
    else:
        l = GetBulkRequestPDU(
            variableBindings=VarBindList(*args)).variableBindings
    ok = len(l) == len(want) and bool(l) == bool(want)
    cx.check(ok, "length")

    def denotes(vb, w):
        kind = {0x41: Counter32, 0x05: Null}[w[1][0]]
        return cx.all(type(vb) is VarBind, type(vb.value) is kind,
                      cx.eq(list(vb.name), w[0]),
                      True if w[1][2] is None else
                      vb.value.value == w[1][2])
    got = list(l)
    cx.check(len(got) == len(want), "iteration")
    for vb, w in zip(got, want):
        cx.check(denotes(vb, w), "order")
    i = cx.int("i", -len(want) - 2, len(want) + 2)
    vb, err = cx.observe(l.__getitem__, i)
    inside = cx.all(i >= -len(want), i < len(want))
    if inside:
        cx.check(err is None, "index refused")
        k = -len(want)
        while k < i:
            k += 1
        cx.check(denotes(vb, want[k]), "index")
        cx.reach("indexed")
    else:
        cx.check(isinstance(err, IndexError), "index beyond the list")
    a = cx.choice("a", 2 * len(want) + 2) - len(want) - 1
    b = cx.choice("b", 2 * len(want) + 2) - len(want) - 1
    part = l[a:b]
    cx.check(type(part) is tuple and len(part) == len(want[a:b]), "slice")
    for vb, w in zip(part, want[a:b]):
        cx.check(denotes(vb, w), "contents of a slice")
    cx.reach("done")


HARNESSES = collect(
    Harness(values, [dict(kind=k, other=[o for o in KINDS if
                                         (FORM[KINDS[o][2]] == f)])
                     for k in KINDS for f in
                     ("number", "string", "null", "oid")],
            reach=("done",),
            functions=["INTEGER.__eq__", "OCTET_STRING.__eq__",
                       "NULL.__eq__", "OBJECT_IDENTIFIER.__eq__"],
            bound="every two of 16 types, whole ranges, strings of 0, 2, 4 "
                  "octets, identifiers of 2-4 sub-identifiers"),
    Harness(varbinds, [dict(one=a, two=b) for a, b in (
        ([], []), (["Counter32"], []), (["Counter32"], ["Counter32"]),
        (["Gauge32"], ["Unsigned32"]), (["Integer32"], ["Counter32"]),
        (["NULL", "Opaque"], ["NULL", "Opaque"]),
        (["Opaque"], ["OctetString"]),
        (["NULL", "OID"], ["NULL"]))],
            reach=("done",), functions=["Constructed.__eq__"],
            bound="lists of up to 2 variables"),
    Harness(pdus, [dict(name=n, others=[n], one=a, two=b)
                   for n in ALL for a, b in (
                       ([], []), (["Counter32"], ["Counter32"]))]
            + [dict(name=n, others=ALL, one=[], two=[]) for n in ALL]
            + [dict(name="ResponsePDU", others=["ResponsePDU"],
                    one=["NULL"], two=["NULL", "NULL"])],
            reach=("done",), functions=["Constructed.__eq__"],
            bound="every two PDU types, all fields, up to 2 variables"),
    Harness(communities, [dict(name=n, n=3) for n in
                          ("GetRequestPDU", "GetBulkRequestPDU")],
            reach=("done",), functions=["Constructed.__eq__"],
            bound="communities of 0 and 3 octets"),
    Harness(messages, [dict(part=p) for p in
                       ("header", "scoped", "parameters", "message")],
            reach=("done",), functions=["Constructed.__eq__"],
            bound="all fields, strings of up to 2 octets"),
    Harness(tags, [dict(top=t) for t in (2, 1 << 20)], reach=("done",), functions=["Tag.__eq__",
                                                    "Tag.__hash__"],
            bound="tag numbers up to 2^20 (2 in dictionaries), every class and form"),
    Harness(listing, [dict(forms=f) for f in (
        [], ["oid"], ["text", "variable"], ["dot", "oid", "variable"])],
            reach=("done",), functions=["VarBindList.*"],
            bound="up to 3 arguments of four forms, every index and slice"),
)

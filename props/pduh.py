"""Variable bindings, PDUs and messages."""

from snmp.exception import IncomingMessageError
from snmp.message import Message, ProtocolVersion
from snmp.pdu import *
from snmp.smi import *
from snmp.utils import subbytes

from sx.harness import Harness, collect
from . import wire
from .oidh import ids

CLASSES = {
    "GetRequestPDU": (GetRequestPDU, 0xa0),
    "GetNextRequestPDU": (GetNextRequestPDU, 0xa1),
    "ResponsePDU": (ResponsePDU, 0xa2),
    "SetRequestPDU": (SetRequestPDU, 0xa3),
    "GetBulkRequestPDU": (GetBulkRequestPDU, 0xa5),
    "InformRequestPDU": (InformRequestPDU, 0xa6),
    "SNMPv2TrapPDU": (SNMPv2TrapPDU, 0xa7),
    "ReportPDU": (ReportPDU, 0xa8),
}
TYPES = {c.TAG: c for c, t in CLASSES.values()}
I31 = (1 << 31) - 1
ALL = list(CLASSES)


def make_value(cx, kind, name):
    """(object, wire form)"""
    if kind == "Integer32":
        v = cx.int(name, -I31 - 1, I31)
        return Integer32(v), wire.integer(v, 0x02)
    if kind == "OctetString":
        b = cx.bytearr(name, (0, 2))
        return OctetString(b), wire.octets(b)
    if kind == "NULL":
        return Null(), wire.null()
    if kind == "OID":
        v = ids(cx, 3, hi=300, name=name)
        return OID(*v), wire.oid(v)
    if kind == "IpAddress":
        q = [cx.int(name + str(i), 0, 255) for i in range(4)]
        return IpAddress("%d.%d.%d.%d" % tuple(q)), wire.octets(bytes(q), 0x40)
    if kind == "Counter32":
        v = cx.int(name, 0, (1 << 32) - 1)
        return Counter32(v), wire.integer(v, 0x41)
    if kind == "Gauge32":
        v = cx.int(name, 0, (1 << 32) - 1)
        return Gauge32(v), wire.integer(v, 0x42)
    if kind == "TimeTicks":
        v = cx.int(name, 0, (1 << 32) - 1)
        return TimeTicks(v), wire.integer(v, 0x43)
    if kind == "Opaque":
        b = cx.bytearr(name, (1, 3))
        return Opaque(b), wire.octets(b, 0x44)
    if kind == "Counter64":
        v = cx.int(name, 0, (1 << 64) - 1)
        return Counter64(v), wire.integer(v, 0x46)
    k = ("NoSuchObject", "NoSuchInstance", "EndOfMibView").index(kind)
    return (NoSuchObject, NoSuchInstance, EndOfMibView)[k](), \
        bytes([0x80 + k, 0])


KINDS = ["Integer32", "OctetString", "NULL", "OID", "IpAddress", "Counter32",
         "Gauge32", "TimeTicks", "Opaque", "Counter64", "NoSuchObject",
         "NoSuchInstance", "EndOfMibView"]


def varbind(cx, kind):
    v = ids(cx, 3)
    obj, w = make_value(cx, kind, "v")
    vb = VarBind(OID(*v), obj)
    data = vb.encode()
    cx.note(data)
    cx.check(data == wire.seq(wire.oid(v), w), "encoding")
    back = VarBind.decode(data)
    cx.check(cx.all(back == vb, cx.eq(list(back.name), v),
                    type(back.value) is type(obj), back.value == obj),
             "does not survive")
    cx.check(VarBind(OID(*v)).value == Null(), "default value")
    cx.reach("done")


def binds(cx, kinds, fill=()):
    """`fill`: further variables with strings of these lengths."""
    objs, w = [], b""
    for i, n in enumerate(fill):
        objs.append(VarBind(OID(1, 3, i), OctetString(bytes(n))))
        w = w + wire.seq(wire.oid([1, 3, i]), wire.octets(bytes(n)))
    for i, k in enumerate(kinds):
        v = ids(cx, 3, hi=255, name="o%d." % i)
        obj, x = make_value(cx, k, "v%d" % i)
        objs.append(VarBind(OID(*v), obj))
        w = w + wire.seq(wire.oid(v), x)
    return objs, wire.tlv(0x30, w)


def pdu(cx, name, kinds, fill=()):
    cls, tag = CLASSES[name]
    if kinds:
        rid = cx.int("rid", 1 << 24, I31)
    else:
        rid = cx.int("rid", -I31 - 1, I31)
    objs, w = binds(cx, kinds, fill)
    if name == "GetBulkRequestPDU":
        a = cx.int("nonrep", 0, 127 if kinds else I31)
        b = cx.int("maxrep", 0, I31)
        p = cls(*objs, requestID=rid, nonRepeaters=a, maxRepetitions=b)
    else:
        a = cx.int("status", 0, 2 if kinds else 18)
        b = cx.int("index", 0, len(objs))
        cx.assume(cx.any(a > 0, b == 0))
        p = cls(*objs, requestID=rid, errorStatus=ErrorStatus(a),
                errorIndex=b)
    data = p.encode()
    cx.note(data)
    cx.check(data == wire.seq(wire.integer(rid), wire.integer(a),
                              wire.integer(b), w, tag=tag), "encoding")
    back = cls.decode(data)
    same_pdu(cx, back, p, name)
    for other in ALL:
        if other != name:
            v, err = cx.observe(CLASSES[other][0].decode, data)
            cx.check(isinstance(err, IncomingMessageError),
                     "decoded as another PDU")
    cx.check(len(back.variableBindings) == len(objs), "length")
    for x, y in zip(back.variableBindings, objs):
        cx.check(x == y, "variable bindings do not survive")
    cx.reach("done")


def same_pdu(cx, back, p, name):
    cx.check(type(back) is CLASSES[name][0], "PDU type")
    cx.check(back.requestID == p.requestID, "request ID")
    if name == "GetBulkRequestPDU":
        cx.check(cx.all(back.nonRepeaters == p.nonRepeaters,
                        back.maxRepetitions == p.maxRepetitions), "fields")
    else:
        cx.check(cx.all(back.errorStatus == p.errorStatus,
                        back.errorIndex == p.errorIndex), "fields")
    cx.check(back == p, "PDU does not survive")


def compare(cx, got, want):
    """A decoded PDU against the reference."""
    name, rid, x, y, bs = want
    cx.check(type(got).__name__ == name, "PDU type misread")
    cx.check(got.requestID == rid, "request ID misread")
    if name == "GetBulkRequestPDU":
        cx.check(cx.all(got.nonRepeaters == x, got.maxRepetitions == y),
                 "bulk fields misread")
    else:
        cx.check(cx.all(got.errorStatus == x, got.errorIndex == y),
                 "error fields misread")
    vs = list(got.variableBindings)
    cx.check(len(vs) == len(bs), "number of variable bindings misread")
    for v, (oid, (kind, val)) in zip(vs, bs):
        cx.check(cx.eq(list(v.name), oid), "variable name misread")
        cx.check(type(v.value).__name__ == kind, "value type misread",
                 got=type(v.value).__name__, want=kind)
        if kind in ("OctetString", "Opaque", "IpAddress"):
            cx.check(v.value.data == val, "value misread")
        elif kind == "OID":
            cx.check(cx.eq(list(v.value), val), "value misread")
        elif val is not None:
            cx.check(v.value.value == val, "value misread")


#  templates whose octets are replaced by arbitrary ones

def template(name, version=None, kinds=0):
    vb = [
        wire.seq(wire.oid([1, 3, 6, 300]), wire.integer(-5)),
        wire.seq(wire.oid([1, 3]), b"\x40\x04\x01\x02\x03\x04"),
        wire.seq(wire.oid([2, 39, 1]), wire.oid([1, 3, 9])),
        wire.seq(wire.oid([1, 3, 2]), wire.octets(b"ab")),
        wire.seq(wire.oid([1, 3, 2]), wire.integer(1 << 40, 0x46)),
    ]
    vb = [vb[:2], vb[2:4], vb[4:5], []][kinds]
    p = wire.seq(wire.integer(0x1234567), wire.integer(2), wire.integer(1),
                 wire.seq(*vb), tag=CLASSES[name][1])
    if version is None:
        return p
    return wire.seq(wire.integer(version), wire.octets(b"pub"), p)


def corrupt(cx, data, width, lo, hi, mode):
    """Replace octets at any offset of lo..hi-1; or cut; or append."""
    if mode == "cut":
        n = lo + cx.choice("cut", hi - lo)
        return data[:n]
    if mode in wire.MODES:
        at = lo + cx.choice("at", hi - lo)
        extra = cx.bytes("extra", width)
        return wire.mutate(data, mode, at, extra, width)
    if mode == "append":
        return data + cx.bytes("extra", width)
    if mode == "insert":
        at = lo + cx.choice("at", hi - lo)
        return data[:at] + cx.bytes("x", width) + data[at:]
    at = lo + cx.choice("at", hi - lo)
    return data[:at] + cx.bytes("x", width) + data[at + width:]


def spans(data, mode, step=9):
    if mode == "append":
        return [(0, 0)]
    n = len(data)
    return [(i, min(i + step, n)) for i in range(0, n, step)]


def pdu_wire(cx, name, kinds, width, lo, hi, mode):
    data = corrupt(cx, template(name, kinds=kinds), width, lo, hi, mode)
    cls = CLASSES[name][0]
    got, err = cx.observe(cls.decode,
                          subbytes(data) if cx.bool("view") else data)
    try:
        f = wire.Fields(data)
        want = wire.read_pdu(f, [name])
    except wire.Bad:
        cx.reach("refused")
        cx.check(isinstance(err, IncomingMessageError),
                 "malformed PDU accepted" if err is None
                 else "undocumented error", got=type(err).__name__, data=data)
        return
    except wire.Unspecified:
        cx.check(err is None or isinstance(err, IncomingMessageError),
                 "undocumented error", got=type(err).__name__, data=data)
        return
    cx.check(err is None, "well-formed PDU refused", data=data,
             got=type(err).__name__)
    cx.reach("decoded")
    compare(cx, got, want)
    cx.note(got.requestID)


def message_wire(cx, name, version, width, lo, hi, mode, kinds=3):
    data = corrupt(cx, template(name, version, kinds), width, lo, hi, mode)
    got, err = cx.observe(Message.decode,
                          subbytes(data) if cx.bool("view") else data,
                          types=TYPES)
    try:
        v, community, want = wire.read_message(data, ALL)
    except wire.Bad:
        cx.reach("refused")
        cx.check(isinstance(err, IncomingMessageError),
                 "malformed message accepted" if err is None
                 else "undocumented error", got=type(err).__name__, data=data)
        return
    except wire.Unspecified:
        cx.check(err is None or isinstance(err, IncomingMessageError),
                 "undocumented error", got=type(err).__name__, data=data)
        return
    cx.check(err is None, "well-formed message refused", data=data,
             got=type(err).__name__)
    cx.reach("decoded")
    cx.check(got.version == v, "version misread")
    cx.check(got.community == community, "community misread")
    compare(cx, got.pdu, want)
    cx.note(got.version, got.community)


def message(cx, name, version, n, pad=0, fill=()):
    community = cx.bytes("community", n) + bytes(pad)
    rid = cx.int("rid", -I31 - 1, I31)
    cls, tag = CLASSES[name]
    objs, w = binds(cx, ["Integer32"], fill)
    p = cls(*objs, requestID=rid)
    m = Message(ProtocolVersion(version), community, p)
    data = m.encode()
    cx.note(data)
    cx.check(data == wire.seq(
        wire.integer(version), wire.octets(community),
        wire.seq(wire.integer(rid), wire.integer(0), wire.integer(0), w,
                 tag=tag)), "encoding")
    back = Message.decode(data, types=TYPES)
    cx.check(cx.all(back.version == version, back.community == community),
             "header does not survive")
    same_pdu(cx, back.pdu, p, name)
    cx.check(back == m, "message does not survive")
    # only the listed PDU types are decoded
    v, err = cx.observe(Message.decode, data,
                        types={k: t for k, t in TYPES.items() if t != cls})
    cx.check(isinstance(err, IncomingMessageError), "PDU type not enabled")
    cx.reach("done")


def error_response(cx, nvars):
    """Which variable an error designates."""
    status = cx.int("status", 1, 18)
    index = cx.int("index", 0, nvars)
    req = GetRequestPDU(*[OID(1, 3, 6, i) for i in range(nvars)])
    e = ErrorResponse(ErrorStatus(status), index, req)
    cx.check(e.status == status, "status")
    i = 0
    while i < index:
        i += 1
    cx.note(i)
    if i == 0:
        cx.reach("whole")
        cx.check(e.cause is req, "cause of an error without index")
    else:
        cx.reach("one")
        cx.check(e.cause is req.variableBindings[i - 1], "cause")


def wire_jobs(name, version, **kw):
    out = []
    for mode, width in (("replace", 1), ("cut", 0), ("append", 1),
                        ("insert", 1)):
        t = template(name, version, kw.get("kinds", 3))
        for lo, hi in spans(t, mode):
            out.append(dict(name=name, width=width, lo=lo, hi=hi, mode=mode,
                            **kw))
    return out


def wide(jobs, width):
    return [dict(j, width=width) for j in jobs if j["mode"] == "replace"]


def shape_jobs(data, widths, **kw):
    return [dict(kw, mode=m, width=w, lo=lo, hi=hi)
            for m, w, lo, hi in wire.shapes(data, widths)]


SP = [j for n, k in (("ResponsePDU", 0), ("GetBulkRequestPDU", 1))
      for j in shape_jobs(template(n, kinds=k), (1, 2), name=n, kinds=k)]
SPT = [j for n, k in (("ResponsePDU", 1), ("SetRequestPDU", 0),
                      ("ReportPDU", 2))
       for j in shape_jobs(template(n, kinds=k), (0, 3, 4), name=n, kinds=k)]
SM = shape_jobs(template("ResponsePDU", 1, 3), (1, 2), name="ResponsePDU",
                version=1, kinds=3)
SMT = shape_jobs(template("GetRequestPDU", 0, 2), (0, 3, 4),
                 name="GetRequestPDU", version=0, kinds=2)
QP = [j for k in range(4) for j in wire_jobs("ResponsePDU", None, kinds=k)] \
    + wire_jobs("GetBulkRequestPDU", None, kinds=3)
QM = wire_jobs("ResponsePDU", 1, kinds=3, version=1) \
    if False else [dict(j, version=1)
                   for j in wire_jobs("ResponsePDU", 1, kinds=3)]

HARNESSES = collect(
    Harness(varbind, [dict(kind=k) for k in KINDS], reach=("done",),
            functions=["VarBind.*"],
            bound="three arbitrary sub-identifiers, a value of each of the "
                  "13 types"),
    Harness(pdu, [dict(name=n, kinds=k) for n in ALL
                  for k in ([], ["Counter32"])]
            + [dict(name="ResponsePDU", kinds=["IpAddress", "NULL"])]
            + [dict(name=n, kinds=["Integer32"], fill=f)
               for n in ("ResponsePDU", "GetBulkRequestPDU")
               for f in ([80], [110], [220], [60000], [0] * 140, [300] * 4)],
            reach=("done",),
            functions=["PDU.*", "BulkPDU.*", "VarBindList.*"],
            bound="all eight PDU types, arbitrary 32-bit fields, up to 2 "
                  "variable bindings, and up to 140 fixed ones or 60000 "
                  "octets more"),
    Harness(pdu_wire, QP + wide(QP[:30], 2) + SP, wide(QP, 3) + SPT,
            reach=("refused", "decoded"),
            functions=["PDU.deserialize", "BulkPDU.deserialize",
                       "VarBindList.deserialize", "VarBind.deserialize",
                       "all SMI deserialize", "ber.decode"],
            bound="five well-formed PDUs with one arbitrary octet (two; "
                  "thorough three) written over or inserted at every offset, "
                  "cut at every offset, or extended; one or two (thorough "
                  "four) stray octets between any two elements, arbitrary "
                  "contents of any element, lengths in longer forms, missing "
                  "and repeated elements, with all lengths adapted"),
    Harness(message_wire, QM + SM, wide(QM, 2) + wide(QM, 3) + SMT,
            reach=("refused", "decoded"),
            functions=["Message.deserialize", "PDU.deserialize"],
            bound="a well-formed message with one arbitrary octet (thorough "
                  "three) written over or inserted at every offset, cut, or "
                  "extended; stray, missing and repeated elements, arbitrary "
                  "contents and longer lengths with all lengths adapted"),
    Harness(message, [dict(name=n, version=v, n=k)
                      for n in ("GetRequestPDU", "ResponsePDU",
                                "SNMPv2TrapPDU", "GetBulkRequestPDU")
                      for v, k in ((0, 0), (1, 3))]
            + [dict(name="SetRequestPDU", version=1, n=130)]
            + [dict(name="ResponsePDU", version=v, n=2, pad=p, fill=f)
               for v in (0, 1) for p, f in (
                   (0, [70]), (250, []), (0, [60000]), (65000, [200]))],
            reach=("done",),
            functions=["Message.*"],
            bound="communities of 0, 3, 130 arbitrary octets; messages of up "
                  "to 65300 octets"),
    Harness(error_response, [dict(nvars=n) for n in (0, 1, 3)],
            reach=("whole", "one"), functions=["ErrorResponse.__init__"],
            bound="requests of 0, 1, 3 variables, every index"),
)

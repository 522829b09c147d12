"""What values look like when they are printed."""

from snmp.ber import Tag
from snmp.message import Message, ProtocolVersion
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.pdu import *
from snmp.security import SecurityModel
from snmp.security.levels import SecurityLevel, noAuthNoPriv, authNoPriv, \
    authPriv
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import *
from snmp.utils import subbytes

from sx.harness import Harness, collect
from .oidh import ids
from .pduh import ALL, CLASSES, I31, KINDS, binds, make_value, same_pdu
from .v3h import LEVELS, flag_octet

NAMES = dict(
    {c.__name__: c for c, t in CLASSES.values()},
    Tag=Tag, Message=Message, HeaderData=HeaderData,
    MessageFlags=MessageFlags, ScopedPDU=ScopedPDU,
    SNMPv3Message=SNMPv3Message, VarBind=VarBind, VarBindList=VarBindList,
    NoSuchObject=NoSuchObject, NoSuchInstance=NoSuchInstance,
    EndOfMibView=EndOfMibView, noAuthNoPriv=noAuthNoPriv,
    authNoPriv=authNoPriv, authPriv=authPriv, subbytes=subbytes,
    ProtocolVersion=ProtocolVersion, SecurityModel=SecurityModel,
    ErrorStatus=ErrorStatus, SecurityLevel=SecurityLevel,
    UsmSecurityParameters=UsmSecurityParameters,
    **{c.__name__: c for c in (
        Integer32, Integer, OctetString, Null, OID, IpAddress, Counter32,
        Gauge32, TimeTicks, Opaque, Counter64, Unsigned32, Unsigned)})


def value(cx, kind, wired):
    """The representation of a value, constructed or received."""
    obj, w = make_value(cx, kind, "v")
    if wired:
        obj = type(obj).decode(obj.encode())
    same(cx, obj)
    cx.reach("done")


def same(cx, obj):
    back = cx.evaluate(repr(obj), NAMES)
    cx.check(type(back) is type(obj), "type of the printed value",
             text=repr(obj))
    cx.check(back == obj, "printed value", text=repr(obj))
    return back


def tag(cx):
    t = Tag(cx.int("number", 0, 1 << 20), cx.bool("constructed"),
            Tag.Class(cx.choice("class", 4)))
    same(cx, t)
    cx.reach("done")


def window(cx, n):
    data = cx.bytes("data", n)
    a, b = cx.int("a", 0, n), cx.int("b", 0, n)
    cx.assume(a <= b)
    w = subbytes(data, a, b)
    back = cx.evaluate(repr(w), NAMES)
    cx.check(type(back) is subbytes, "type")
    cx.check(cx.all(back.start == w.start, back.stop == w.stop,
                    back.data == data, back == data[a:b]), "printed window")
    cx.reach("done")


# what formatting, quoting and splitting could trip over
SPECIAL = b"{0}{x}{}%s%d%\r\n\t: '\"\\\0\xff, )(#"


def make_pdu(cx, name, kinds, wired=True):
    """Those that are encoded, too, have IDs of one length."""
    cls, t = CLASSES[name]
    rid = cx.int("rid", 1 << 24 if wired else -I31 - 1, I31)
    objs, w = binds(cx, [k for k in kinds if k != "special"])
    if "special" in kinds:
        objs.append(VarBind(OID(1, 3, 7), OctetString(SPECIAL)))
    if name == "GetBulkRequestPDU":
        top = 127 if wired else I31
        a, b = cx.int("nonrep", 0, top), cx.int("maxrep", 0, top)
        p = cls(*objs, requestID=rid, nonRepeaters=a, maxRepetitions=b)
    else:
        a, b = cx.int("status", 0, 2 if wired or kinds else 18), \
            cx.int("index", 0, len(objs))
        cx.assume(cx.any(a > 0, b == 0))
        p = cls(*objs, requestID=rid, errorStatus=ErrorStatus(a),
                errorIndex=b)
    return p, objs


def pdu(cx, name, kinds, wired):
    p, objs = make_pdu(cx, name, kinds, wired)
    if wired:
        p = type(p).decode(p.encode())
    same_pdu(cx, same(cx, p), p, name)
    for vb in p.variableBindings:
        same(cx, vb)
    same(cx, p.variableBindings)
    lines = [x.strip() for x in str(p).splitlines()]
    if name == "GetBulkRequestPDU":
        want = [p.requestID, p.nonRepeaters, p.maxRepetitions]
    else:
        want = [p.requestID, p.errorStatus, p.errorIndex]
    printed(cx, lines, type(p).__name__, want, objs)
    cx.check(len(lines) == 5 + len(objs), "lines")
    cx.reach("done")


def printed(cx, lines, title, want, objs):
    """The lines of a PDU: its type, three fields, the variables."""
    cx.check(lines[0] == title + ":", "type", text=lines[0])
    for i, v in enumerate(want):
        x = lines[1 + i].split(": ")[1]
        if isinstance(v, ErrorStatus):
            k = 0
            while k < v:
                k += 1
            cx.check(x == ErrorStatus(k).name, "error status", text=x)
        else:
            cx.check(int(x) == v, "field", text=x)
    rest = lines[5:]
    for line, vb in zip(rest, objs):
        n, v = line.split(": ", 1)
        cx.check(OID.parse(n) == vb.name, "printed name", text=line)
        if type(vb.value) is OID:
            cx.check(OID.parse(v) == vb.value, "printed identifier", text=line)
            continue
        back = cx.evaluate(v, NAMES)
        cx.check(type(back) is type(vb.value), "printed type", text=line)
        cx.check(back == vb.value, "printed value", text=line)


def community(cx, version, name, n, wired):
    p, objs = make_pdu(cx, name, ["special"])
    c = cx.bytes("community", n) if n else SPECIAL
    m = Message(ProtocolVersion(version), c, p)
    if wired:
        m = Message.decode(m.encode(), types={
            k.TAG: k for k, t in CLASSES.values()})
    back = cx.evaluate(repr(m), NAMES)
    cx.check(cx.all(back.version == m.version, back.community == c),
             "printed header")
    same_pdu(cx, back.pdu, p, name)
    lines = [x.strip() for x in str(m).splitlines()]
    cx.check(cx.evaluate(lines[1].split(": ", 1)[1], {}) == c, "community")
    printed(cx, lines[2:], name, fields(p), objs)
    cx.reach("done")


def fields(p):
    if type(p).__name__ == "GetBulkRequestPDU":
        return [p.requestID, p.nonRepeaters, p.maxRepetitions]
    return [p.requestID, p.errorStatus, p.errorIndex]


def message(cx, name, encrypted, wired):
    k, rep, octet = flag_octet(cx)
    cx.assume((k == 2) == encrypted)
    mid, size = cx.int("mid", 0, I31), cx.int("size", 484, I31)
    h = HeaderData(mid, size, MessageFlags(LEVELS[k], rep), SecurityModel.USM)
    params = OctetString(cx.bytes("params", 2))
    scoped = None
    if encrypted:
        payload = OctetString(cx.bytes("payload", 3))
        m = SNMPv3Message(h, encryptedPDU=payload, securityParameters=params)
    else:
        p, objs = make_pdu(cx, name, [])
        e, c = cx.bytes("engine", 2), SPECIAL
        scoped = ScopedPDU(p, e, c)
        m = SNMPv3Message(h, scoped, securityParameters=params)
    if wired:
        m = SNMPv3Message.decode(m.encode())
    back = cx.evaluate(repr(m), NAMES)
    cx.check(type(back) is SNMPv3Message, "type")
    g = back.header
    cx.check(cx.all(g.id == mid, g.maxSize == size,
                    g.flags.securityLevel == LEVELS[k],
                    bool(g.flags.reportableFlag) == rep,
                    g.securityModel == SecurityModel.USM), "printed header")
    cx.check(back.securityParameters == params, "security parameters")
    lines = [x.strip() for x in str(m).splitlines()]
    cx.check(cx.all(
        lines[0] == "SNMPv3Message:",
        int(lines[2].split(": ")[1]) == mid,
        int(lines[3].split(": ")[1]) == size,
        lines[5].split(": ")[1] == ("noAuthNoPriv", "authNoPriv",
                                    "authPriv")[k],
        lines[6].split(": ")[1] == str(rep),
        lines[7].split(": ")[1] == "USM"), "text of the header")
    cx.check(cx.evaluate(lines[8].split(": ", 1)[1], NAMES) == params,
             "text of the security parameters")
    if encrypted:
        cx.check(back.encryptedPDU == payload, "encrypted data")
        cx.check(cx.evaluate(lines[9].split(": ", 1)[1], NAMES) == payload,
                 "text of the encrypted data")
        cx.reach("encrypted")
        return
    s = back.scopedPDU
    cx.check(cx.all(s.contextEngineID == e, s.contextName == c),
             "printed context")
    same_pdu(cx, s.pdu, p, name)
    cx.check(cx.all(cx.evaluate(lines[10].split(": ", 1)[1], {}) == e,
                    cx.evaluate(lines[11].split(": ", 1)[1], {}) == c),
             "text of the context")
    printed(cx, lines[12:], name, fields(p), objs)
    cx.reach("plain")


def parameters(cx, sizes, wired):
    """Security parameters, made here or received."""
    e, u, sig, salt = [cx.bytes(x, n) for x, n in zip(
        ("engine", "user", "signature", "salt"), sizes)]
    b, t = cx.int("boots", 0, I31), cx.int("time", 0, I31)
    p = UsmSecurityParameters(e, b, t, u, sig, salt)
    if wired:
        p = UsmSecurityParameters.decode(p.encode())
    back = same(cx, p)
    cx.check(cx.all(back.engineID == e, back.engineBoots == b,
                    back.engineTime == t, back.userName == u,
                    back.signature == sig, back.salt == salt),
             "printed parameters")
    lines = [x.strip() for x in str(p).splitlines()]
    cx.check(lines[0] == "UsmSecurityParameters:", "type")
    cx.check(len(lines) == 7, "lines")
    for line, v in zip(lines[1:], (e, b, t, u, sig, salt)):
        cx.check(cx.evaluate(line.split(": ", 1)[1], NAMES) == v,
                 "text of the parameters", text=line)
    cx.reach("done")


def level(cx):
    auth, priv = cx.bool("auth"), cx.bool("priv")
    got, err = cx.observe(SecurityLevel, auth, priv)
    if cx.all(priv, cx.not_(auth)):
        cx.check(isinstance(err, ValueError), "privacy alone")
        cx.reach("refused")
        return
    cx.check(err is None, "level refused")
    same(cx, got)
    cx.check(str(got) == ("auth" if auth else "noAuth")
             + ("Priv" if priv else "NoPriv"), "text of the level",
             text=str(got))
    cx.reach("done")


def error(cx, nvars):
    """An error names its status and the variable at fault."""
    status = cx.int("status", 1, 18)
    index = cx.int("index", 0, nvars + 2)
    names = [ids(cx, 3, name="o%d." % i) for i in range(nvars)]
    e = ErrorResponse(ErrorStatus(status), index,
                      GetRequestPDU(*[OID(*x) for x in names]))
    text = str(e)
    k = i = 0
    while k < status:
        k += 1
    while i < index:
        i += 1
    cx.check(text.split(": ")[0] == ErrorStatus(k).name, "status", text=text)
    if 0 < i <= nvars:
        cx.reach("variable")
        cx.check(cx.eq(list(OID.parse(text.split(": ")[1])), names[i - 1]),
                 "variable at fault", text=text)
    else:
        cx.reach("none")
        cx.check(text == ErrorStatus(k).name, "variable named", text=text)


HARNESSES = collect(
    Harness(value, [dict(kind=k, wired=w) for k in KINDS for w in (0, 1)],
            reach=("done",), functions=["smi.*.__repr__", "asn1.*.__repr__"],
            bound="values of the 13 types, strings of up to 3 octets, object "
                  "identifiers of up to 5 sub-identifiers"),
    Harness(tag, [{}], reach=("done",), functions=["Tag.__repr__"],
            bound="tag numbers up to 2^20"),
    Harness(window, [dict(n=n) for n in (0, 1, 4)],
            [dict(n=n) for n in (6, 9)], reach=("done",),
            functions=["subbytes.__repr__"],
            bound="every window of 0, 1, 4 (thorough 9) octets"),
    Harness(pdu, [dict(name=n, kinds=k, wired=0) for n in ALL
                  for k in ([], ["Counter32"])]
            + [dict(name=n, kinds=k, wired=1)
               for n in ("ResponsePDU", "GetBulkRequestPDU")
               for k in (["Integer32"], ["OctetString", "IpAddress"],
                         ["OID"], ["special"],
                         ["NULL", "EndOfMibView", "Opaque"])],
            [dict(name=n, kinds=[k], wired=1) for n in ALL for k in KINDS],
            reach=("done",),
            functions=["PDU.__repr__", "PDU.toString", "BulkPDU.__repr__",
                       "BulkPDU.toString", "VarBindList.toString",
                       "VarBind.__str__", "OID.__str__"],
            bound="all PDU types and fields, up to 3 variables"),
    Harness(community, [dict(version=v, name=n, n=k, wired=w)
                        for v in (0, 1) for w in (0, 1)
                        for n, k in (("ResponsePDU", 3),
                                     ("GetRequestPDU", 0),
                                     ("GetBulkRequestPDU", 2))],
            reach=("done",), functions=["Message.__repr__",
                                        "Message.toString"],
            bound="communities of up to 3 octets"),
    Harness(message, [dict(name="ResponsePDU", encrypted=True, wired=w)
                       for w in (0, 1)]
            + [dict(name=n, encrypted=False, wired=w)
               for w in (0, 1) for n in
               ("ResponsePDU", "GetRequestPDU", "GetBulkRequestPDU")],
            reach=("encrypted", "plain"),
            functions=["SNMPv3Message.__repr__", "SNMPv3Message.toString",
                       "HeaderData.toString", "MessageFlags.toString",
                       "ScopedPDU.toString"],
            bound="all header fields and levels"),
    Harness(parameters, [dict(sizes=z, wired=w) for w in (0, 1)
                         for z in ((0, 0, 0, 0), (3, 2, 12, 8),
                                   (5, 1, 0, 0))],
            reach=("done",), functions=["UsmSecurityParameters.__repr__",
                                        "UsmSecurityParameters.toString"],
            bound="identifiers of up to 5 octets, all numbers"),
    Harness(level, [{}], reach=("done", "refused"),
            functions=["SecurityLevel.__repr__", "SecurityLevel.__str__"],
            bound="all levels"),
    Harness(error, [dict(nvars=n) for n in (0, 1, 2)],
            reach=("variable", "none"), functions=["ErrorResponse.__init__"],
            bound="requests of up to 2 variables, indices up to 2 beyond"),
)

"""SNMPv3 messages: header, scoped PDU, security parameters."""

from snmp.exception import IncomingMessageError
from snmp.message import ProtocolVersion
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.message.v3 import pduTypes
from snmp.pdu import *
from snmp.security import SecurityLevel, SecurityModel
from snmp.security.levels import noAuthNoPriv, authNoPriv, authPriv
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import *
from snmp.utils import subbytes

from sx.harness import Harness, collect
from . import wire
from .pduh import ALL, CLASSES, I31, binds, compare, corrupt, same_pdu, spans, \
    shape_jobs

LEVELS = [noAuthNoPriv, authNoPriv, authPriv]


def flag_octet(cx):
    """(level, reportable, octet)"""
    k = cx.choice("level", 3)
    rep = cx.bool("reportable")
    return k, bool(rep), (0, 1, 3)[k] | (4 if rep else 0)


def flags(cx, n):
    """Decoding every content of the message flags."""
    data = cx.bytes("data", n)
    got, err = cx.observe(MessageFlags.decode, wire.octets(data))
    cx.note(err is None)
    if n == 0:
        cx.check(isinstance(err, IncomingMessageError), "no flags")
        return
    b = data[0]
    auth, priv, rep = (b & 1) != 0, (b & 2) != 0, (b & 4) != 0
    if priv and not auth:
        cx.reach("refused")
        cx.check(isinstance(err, IncomingMessageError),
                 "privacy without authentication", b=b)
        return
    cx.check(err is None, "valid flags refused", b=b)
    cx.check(bool(got.authFlag) == bool(auth), "authentication flag", b=b)
    cx.check(bool(got.privFlag) == bool(priv), "privacy flag", b=b)
    cx.check(bool(got.reportableFlag) == bool(rep), "reportable flag", b=b)
    cx.check(got.securityLevel == LEVELS[2 if priv else 1 if auth else 0],
             "security level", b=b)
    cx.check(got.encode()[-1] == b & 7, "does not survive", b=b)
    cx.reach("decoded")


def set_flags(cx):
    """The flags follow the security level they are given."""
    k, rep, octet = flag_octet(cx)
    f = MessageFlags(LEVELS[k], rep)
    cx.check(f.encode() == wire.octets(bytes([octet])), "encoding")
    a, p = cx.bool("a"), cx.bool("p")
    _, err = cx.observe(setattr, f, "authFlag", a)
    if err is not None:
        cx.check(isinstance(err, ValueError) and k == 2 and not a,
                 "authentication flag refused")
        cx.check(f.securityLevel == authPriv, "changed although refused")
        return
    cx.check(not (k == 2 and not a), "privacy without authentication")
    _, err = cx.observe(setattr, f, "privFlag", p)
    if err is not None:
        cx.check(isinstance(err, ValueError) and not a, "privacy flag refused")
        return
    cx.check(cx.not_(cx.all(p, cx.not_(a))), "privacy without authentication")
    cx.check(f.encode()[-1] == ((1 if a else 0) | (2 if p else 0)
                                | (4 if rep else 0)), "flag octet")
    cx.reach("done")


def header(cx):
    mid = cx.int("mid", 0, I31)
    size = cx.int("size", 484, I31)
    k, rep, octet = flag_octet(cx)
    h = HeaderData(mid, size, MessageFlags(LEVELS[k], rep), SecurityModel.USM)
    data = h.encode()
    cx.note(data)
    cx.check(data == wire.header3(mid, size, octet), "encoding")
    back = HeaderData.decode(data)
    cx.check(cx.all(back.id == mid, back.maxSize == size,
                    back.flags.securityLevel == LEVELS[k],
                    back.securityModel == 3), "header does not survive")
    cx.check(bool(back.flags.reportableFlag) == rep, "reportable flag")
    cx.reach("done")


def header_range(cx, field):
    """Every value of each integer of the header."""
    v = dict(mid=7, size=1472, model=3)
    x = v[field] = cx.int("v", -I31 - 1, I31)
    got, err = cx.observe(HeaderData.decode, wire.header3(
        v["mid"], v["size"], 4, v["model"]))
    good = {"mid": x >= 0, "size": x >= 484, "model": x == 3}[field]
    if err is None:
        cx.reach("decoded")
        cx.check(good, "illegal value accepted", v=x)
        cx.check(cx.all(got.id == v["mid"], got.maxSize == v["size"],
                        got.securityModel == v["model"]), "misread")
    else:
        cx.reach("refused")
        cx.check(cx.all(isinstance(err, IncomingMessageError),
                        cx.not_(good)), "legal value refused", v=x,
                 got=type(err).__name__)


def scoped(cx, name, ne, nc, fill=()):
    engine, context = cx.bytes("engine", ne), cx.bytes("context", nc)
    cls, tag = CLASSES[name]
    rid = cx.int("rid", -I31 - 1, I31)
    objs, w = binds(cx, [], fill)
    p = cls(*objs, requestID=rid)
    s = ScopedPDU(p, engine, context)
    data = s.encode()
    cx.note(data)
    cx.check(data == wire.seq(
        wire.octets(engine), wire.octets(context),
        wire.seq(wire.integer(rid), wire.integer(0), wire.integer(0), w,
                 tag=tag)), "encoding")
    back = ScopedPDU.decode(data, types=pduTypes)
    cx.check(cx.all(back.contextEngineID == engine,
                    back.contextName == context), "context")
    same_pdu(cx, back.pdu, p, name)
    # the plaintext of a decrypted message may carry padding
    m = SNMPv3Message(HeaderData(1, 484, MessageFlags(authPriv),
                                 SecurityModel.USM))
    m.plaintext = data + cx.bytes("pad", cx.choice("npad", (0, 1, 8)))
    cx.check(cx.all(m.scopedPDU.contextEngineID == engine,
                    m.scopedPDU.contextName == context), "decrypted context")
    same_pdu(cx, m.scopedPDU.pdu, p, name)
    cx.check(m.plaintext == data, "plaintext")
    cx.reach("done")


def message(cx, name, ns, fill=()):
    mid, size = cx.int("mid", 0, I31), 1472
    k, rep, octet = flag_octet(cx)
    sec = cx.bytes("sec", ns)
    h = HeaderData(mid, size, MessageFlags(LEVELS[k], rep), SecurityModel.USM)
    cls, tag = CLASSES[name]
    rid = cx.int("rid", 1 << 24, I31)
    engine = cx.bytes("engine", 5)
    objs, b = binds(cx, [], fill)
    p = cls(*objs, requestID=rid)
    blob = cx.bytes("blob", 6) + bytes(sum(fill))
    w = wire.seq(wire.octets(engine), wire.octets(b"c"), wire.seq(
        wire.integer(rid), wire.integer(0), wire.integer(0), b,
        tag=tag))
    if k == 2:
        payload = wire.octets(blob)
        m = SNMPv3Message(h, encryptedPDU=OctetString(blob),
                          scopedPDU=ScopedPDU(p, engine, b"c"),
                          securityParameters=OctetString(sec))
    else:
        payload = w
        m = SNMPv3Message(h, scopedPDU=ScopedPDU(p, engine, b"c"),
                          securityParameters=OctetString(sec))
    data = m.encode()
    cx.note(data)
    cx.check(data == wire.seq(
        wire.integer(3), wire.header3(mid, size, octet), wire.octets(sec),
        payload), "encoding")
    back = SNMPv3Message.decode(data)
    cx.check(cx.all(back.header.id == mid, back.header.maxSize == size,
                    back.header.flags.securityLevel == LEVELS[k],
                    back.header.securityModel == 3), "header")
    cx.check(bool(back.header.flags.reportableFlag) == rep, "reportable flag")
    cx.check(back.securityParameters.data == sec, "security parameters")
    if k == 2:
        cx.reach("encrypted")
        cx.check(back.encryptedPDU.data == blob, "encrypted PDU")
        cx.check(back.scopedPDU is None, "a PDU nobody decrypted")
    else:
        cx.reach("plain")
        cx.check(back.encryptedPDU is None, "an encrypted PDU")
        cx.check(cx.all(back.scopedPDU.contextEngineID == engine,
                        back.scopedPDU.contextName == b"c"), "context")
        same_pdu(cx, back.scopedPDU.pdu, p, name)
    ptr = SNMPv3Message.findSecurityParameters(data)
    cx.check(cx.all(ptr[:] == sec, ptr.data == data), "security parameters "
             "found")
    at = len(data) - len(payload) - len(sec)
    cx.check(ptr.start == at and ptr.stop == at + len(sec),
             "position of the security parameters")


def template3(encrypted):
    h = wire.header3(0x1234567, 1472, 3 if encrypted else 5)
    if encrypted:
        body = wire.octets(b"ciphertext")
    else:
        body = wire.seq(wire.octets(b"\x80eng"), wire.octets(b"ctx"), wire.seq(
            wire.integer(7), wire.integer(2), wire.integer(1),
            wire.seq(wire.seq(wire.oid([1, 3]), wire.integer(-5))), tag=0xa8))
    return wire.seq(wire.integer(3), h, wire.octets(b"sec"), body)


def message_wire(cx, encrypted, width, lo, hi, mode):
    data = corrupt(cx, template3(encrypted), width, lo, hi, mode)
    got, err = cx.observe(SNMPv3Message.decode,
                          subbytes(data) if cx.bool("view") else data)
    try:
        mid, size, fl, sec, payload = wire.read_message3(data, ALL)
    except wire.Bad:
        cx.reach("refused")
        cx.check(isinstance(err, IncomingMessageError),
                 "malformed message accepted" if err is None
                 else "undocumented error", got=type(err).__name__, data=data)
        return
    except wire.Unspecified:
        cx.check(err is None or isinstance(err, IncomingMessageError),
                 "undocumented error", got=type(err).__name__, data=data)
        return
    cx.check(err is None, "well-formed message refused", data=data,
             got=type(err).__name__)
    cx.reach("decoded")
    h = got.header
    cx.note(h.id)
    cx.check(cx.all(h.id == mid, h.maxSize == size, h.securityModel == 3),
             "header misread")
    auth, priv, rep = (fl & 1) != 0, (fl & 2) != 0, (fl & 4) != 0
    cx.check(bool(h.flags.authFlag) == bool(auth)
             and bool(h.flags.privFlag) == bool(priv)
             and bool(h.flags.reportableFlag) == bool(rep), "flags misread")
    cx.check(got.securityParameters.data == sec,
             "security parameters misread")
    ptr = SNMPv3Message.findSecurityParameters(data)
    cx.check(ptr[:] == sec, "security parameters not found")
    orig = got.securityParameters.original
    cx.check(orig.start == ptr.start and orig.stop == ptr.stop,
             "position of the security parameters")
    if priv:
        cx.check(got.scopedPDU is None and got.encryptedPDU.data == payload,
                 "encrypted PDU misread")
    else:
        cx.check(got.encryptedPDU is None, "encrypted PDU from nowhere")
        s = got.scopedPDU
        cx.check(cx.all(s.contextEngineID == payload[0],
                        s.contextName == payload[1]), "context misread")
        compare(cx, s.pdu, payload[2])


def usm_values(cx, ne, nu, nsig, nsalt):
    boots = cx.int("boots", 0, I31)
    time = cx.int("time", 0, I31)
    engine, user = cx.bytes("engine", ne), cx.bytes("user", nu)
    sig, salt = cx.bytes("sig", nsig), cx.bytes("salt", nsalt)
    p = UsmSecurityParameters(engine, boots, time, user, sig, salt)
    data = p.encode()
    cx.note(data)
    cx.check(data == wire.usm(engine, boots, time, user, sig, salt),
             "encoding")
    # somewhere inside a message
    n = cx.choice("offset", (0, 3))
    whole = bytes(n) + data + b"\xff\xff"
    for w, k in ((subbytes(whole, n, n + len(data)), n), (data, 0)):
        q = UsmSecurityParameters.decode(w)
        cx.check(cx.all(q.engineID == engine, q.engineBoots == boots,
                        q.engineTime == time, q.userName == user,
                        q.signature == sig, q.salt == salt),
                 "does not survive")
    q = UsmSecurityParameters.decode(subbytes(whole, n, n + len(data)))
    at = n + len(data) - 2 - nsalt - nsig
    cx.check(q.wholeMsg == whole and q.signatureIndex == at,
             "position of the signature")
    s = UsmSecurityParameters.findSignature(
        subbytes(whole, n, n + len(data)))
    cx.check(s.start == at and s.stop == at + nsig and s.data == whole,
             "signature not found")
    cx.reach("done")


def usm_range(cx, field):
    """Every value of boots and time; negative ones are refused."""
    v = dict(boots=1, time=2)
    x = v[field] = cx.int("v", -I31 - 1, I31)
    got, err = cx.observe(UsmSecurityParameters.decode, wire.usm(
        b"e", v["boots"], v["time"], b"u", b"s", b""))
    if err is None:
        cx.reach("decoded")
        cx.check(x >= 0, "negative value accepted", v=x)
        cx.check(cx.all(got.engineBoots == v["boots"],
                        got.engineTime == v["time"]), "misread")
    else:
        cx.reach("refused")
        cx.check(cx.all(isinstance(err, IncomingMessageError), x < 0),
                 "legal value refused", v=x, got=type(err).__name__)


USM = wire.usm(b"\x80eng", 0x12345, 0x40, b"user", b"0123456789ab", b"saltsalt")


def usm_wire(cx, width, lo, hi, mode):
    data = corrupt(cx, USM, width, lo, hi, mode)
    whole = b"<<" + data + b">>"
    view = subbytes(whole, 2, 2 + len(data))
    got, err = cx.observe(UsmSecurityParameters.decode, view)
    try:
        engine, boots, time, user, (a, b), salt = wire.read_usm(data)
    except wire.Bad:
        cx.reach("refused")
        cx.check(isinstance(err, IncomingMessageError),
                 "malformed parameters accepted" if err is None
                 else "undocumented error", got=type(err).__name__, data=data)
        return
    except wire.Unspecified:
        cx.check(err is None or isinstance(err, IncomingMessageError),
                 "undocumented error", got=type(err).__name__, data=data)
        return
    cx.check(err is None, "well-formed parameters refused", data=data,
             got=type(err).__name__)
    cx.reach("decoded")
    cx.note(got.engineBoots)
    cx.check(cx.all(got.engineID == engine, got.engineBoots == boots,
                    got.engineTime == time, got.userName == user,
                    got.signature == data[a:b], got.salt == salt), "misread")
    cx.check(got.signatureIndex == a + 2 and got.wholeMsg == whole,
             "position of the signature")
    s = UsmSecurityParameters.findSignature(view)
    cx.check(s.start == a + 2 and s.stop == b + 2, "signature not found")


def wire_jobs(template, **kw):
    out = []
    for mode, width in (("replace", 1), ("cut", 0), ("append", 1),
                        ("insert", 1)):
        for lo, hi in spans(template, mode):
            out.append(dict(width=width, lo=lo, hi=hi, mode=mode, **kw))
    return out


def wide(jobs, width):
    return [dict(j, width=width) for j in jobs if j["mode"] == "replace"]


Q3 = [j for e in (False, True) for j in wire_jobs(template3(e), encrypted=e)]
QU = wire_jobs(USM)
S3 = [j for e in (False, True)
      for j in shape_jobs(template3(e), (1, 2), encrypted=e)]
S3T = [j for e in (False, True)
       for j in shape_jobs(template3(e), (0, 3, 4), encrypted=e)]
SU = shape_jobs(USM, (1, 2))
SUT = shape_jobs(USM, (0, 3, 4, 5))

HARNESSES = collect(
    Harness(flags, [dict(n=n) for n in (0, 1, 2)], reach=("refused", "decoded"),
            functions=["MessageFlags.*", "SecurityLevel.__init__"],
            bound="every content of 0-2 octets"),
    Harness(set_flags, [dict()], reach=("done",),
            functions=["MessageFlags.*"], bound="all levels and changes"),
    Harness(header, [dict()], reach=("done",), functions=["HeaderData.*"],
            bound="every message ID, size, level"),
    Harness(header_range, [dict(field=f) for f in ("mid", "size", "model")],
            reach=("decoded", "refused"),
            functions=["HeaderData.deserialize"], bound="every 32-bit value"),
    Harness(scoped, [dict(name=n, ne=ne, nc=nc) for n, ne, nc in (
        ("ResponsePDU", 0, 0), ("GetRequestPDU", 5, 3),
        ("ReportPDU", 12, 130), ("SNMPv2TrapPDU", 32, 1))]
            + [dict(name="ResponsePDU", ne=5, nc=1, fill=f)
               for f in ([110], [240], [65000])],
            reach=("done",), functions=["ScopedPDU.*",
                                        "SNMPv3Message.plaintext"],
            bound="engine IDs of 0-32 and contexts of 0-130 arbitrary octets, "
                  "0, 1, 8 octets of padding"),
    Harness(message, [dict(name=n, ns=ns) for n, ns in (
        ("ResponsePDU", 0), ("GetRequestPDU", 3), ("ReportPDU", 130))]
            + [dict(name="ResponsePDU", ns=60, fill=f)
               for f in ([20], [110], [65000])],
            reach=("plain", "encrypted"),
            functions=["SNMPv3Message.*", "HeaderData.*", "ScopedPDU.*"],
            bound="every level and message ID, security parameters of 0, 3, "
                  "130 octets, messages of up to 65200"),
    Harness(message_wire, Q3 + S3, wide(Q3, 2) + wide(Q3, 3) + S3T,
            reach=("refused", "decoded"),
            functions=["SNMPv3Message.deserialize", "HeaderData.deserialize",
                       "MessageFlags.construct", "ScopedPDU.deserialize",
                       "SNMPv3Message.findSecurityParameters"],
            bound="a plain and an encrypted message with one arbitrary octet "
                  "(thorough two, three) written over or inserted at every "
                  "offset, cut, or extended; stray, missing and repeated "
                  "elements, arbitrary contents and longer lengths with all "
                  "lengths adapted"),
    Harness(usm_values, [dict(ne=ne, nu=nu, nsig=s, nsalt=t) for ne, nu, s, t
                         in ((0, 0, 0, 0), (5, 4, 12, 8), (32, 32, 48, 8))],
            reach=("done",), functions=["UsmSecurityParameters.*"],
            bound="every boots and time value, engine IDs and names of up to "
                  "32 octets"),
    Harness(usm_range, [dict(field=f) for f in ("boots", "time")],
            reach=("decoded", "refused"),
            functions=["UsmSecurityParameters.deserialize"],
            bound="every 32-bit value"),
    Harness(usm_wire, QU + SU, wide(QU, 2) + wide(QU, 3) + SUT,
            reach=("refused", "decoded"),
            functions=["UsmSecurityParameters.deserialize", "findSignature"],
            bound="well-formed parameters with one arbitrary octet (thorough "
                  "two, three) written over or inserted at every offset, cut, "
                  "or extended; stray, missing and repeated elements, arbitrary "
                  "contents and longer lengths with all lengths adapted"),
)

"""Matching of responses to requests by the message processors."""

import gc
from contextlib import contextmanager

from snmp.exception import IncomingMessageError, SNMPException, SNMPLibraryBug
from snmp.message import ProtocolVersion, RequestHandle
from snmp.message.v1 import SNMPv1MessageProcessor
from snmp.message.v2c import SNMPv2cMessageProcessor
from snmp.message.v3 import SNMPv3Message, SNMPv3MessageProcessor
from snmp.pdu import *
from snmp.security import SecurityModel, SecurityModule
from snmp.smi import *
from snmp.utils import NumberGenerator

from sx.harness import Harness, collect
from . import wire
from .pduh import CLASSES, I31
from .v3h import LEVELS

PROC = {0: SNMPv1MessageProcessor, 1: SNMPv2cMessageProcessor}
REFUSED = (IncomingMessageError, SNMPLibraryBug)


class Handle(RequestHandle):
    def __init__(self, name):
        self.name = name
        self.calls = []

    def addCallback(self, func, idNum):
        self.calls.append((func, idNum))

    def finish(self):
        for f, i in self.calls:
            f(i)


def pdu_wire(rid, tag=0xa2, status=0, index=0):
    return wire.seq(wire.integer(rid), wire.integer(status),
                    wire.integer(index), wire.seq(), tag=tag)


def rid_input(cx, near):
    """A request ID: one of the given ones, or any 4-octet number."""
    k = cx.choice("rid.kind", len(near) + 1)
    if k < len(near):
        return near[k]
    return cx.int("rid", 1 << 24, I31)


def others(mp, version, n):
    """Many more requests that are outstanding at the same time."""
    handles = [Handle("other%d" % i) for i in range(n)]
    for i, h in enumerate(handles):
        send(mp, version, h, i & 3)
    return handles


def community(cx, version, case, tag=0xa2, crowd=0):
    mp = numbered(PROC[version]) if crowd else PROC[version]()
    ca, cb = cx.bytes("ca", 2), cx.bytes("cb", 1 + cx.choice("cbn", 2))
    ha, hb = Handle("a"), Handle("b")
    pa, pb = GetRequestPDU("1.3.6.1"), SetRequestPDU()
    da = mp.prepareOutgoingMessage(pa, ha, ca)
    db = mp.prepareOutgoingMessage(pb, hb, cb)
    cx.check(pa.requestID != pb.requestID, "request IDs are not unique")
    for p, h in ((pa, ha), (pb, hb)):
        cx.check(cx.all(p.requestID != 0, -I31 - 1 <= p.requestID,
                        p.requestID <= I31), "request ID out of range")
        cx.check(len(h.calls) == 1 and h.calls[0][1] == p.requestID,
                 "handle does not know its request ID")
    cx.check(db == wire.seq(
        wire.integer(version), wire.octets(cb), pdu_wire(pb.requestID, 0xa3)),
        "outgoing message")
    # a retransmission is the same message
    cx.check(mp.prepareOutgoingMessage(pa, ha, ca) == da, "retransmission")
    cx.check(len(ha.calls) == 1, "retransmission is a new request")
    more = others(mp, version, crowd)
    live = True
    ida, idb = pa.requestID, pb.requestID
    if case == "finished":
        ha.finish()
        live = False
    elif case == "dropped":
        del ha
        gc.collect()
        live = False
    rid = (cx.choice("rid", (ida, idb)) if crowd
           else rid_input(cx, (ida, idb)))
    comm = cx.bytes("comm", cx.choice("commn", (1, 2)))
    data = wire.seq(wire.integer(version), wire.octets(comm),
                    pdu_wire(rid, tag))
    got, err = cx.observe(mp.prepareDataElements, data)
    to_a = cx.all(rid == ida, comm == ca)
    to_b = cx.all(rid == idb, comm == cb)
    if err is None:
        cx.check(tag == 0xa2, "a request is taken for a response")
        msg, h = got
        cx.note(h.name)
        if h.name == "a":
            cx.reach("delivered")
            cx.check(live, "delivered to a finished request")
            cx.check(to_a, "delivered to the wrong request")
        else:
            cx.reach("delivered")
            cx.check(to_b, "delivered to the wrong request")
        cx.check(cx.all(msg.pdu.requestID == rid, msg.community == comm,
                        msg.version == version), "message altered")
    else:
        cx.reach("refused")
        cx.check(isinstance(err, REFUSED), "undocumented error",
                 got=type(err).__name__)
        if tag == 0xa2:
            if live:
                cx.check(cx.not_(to_a), "response lost")
            cx.check(cx.not_(to_b), "response lost")
    # whatever arrived, the other request still gets its response
    got, err = cx.observe(mp.prepareDataElements, wire.seq(
        wire.integer(version), wire.octets(cb), pdu_wire(idb)))
    cx.check(err is None and got[1] is hb, "a message disturbs a request")
    hb.finish()
    got, err = cx.observe(mp.prepareDataElements, wire.seq(
        wire.integer(version), wire.octets(cb), pdu_wire(idb)))
    cx.check(isinstance(err, REFUSED), "delivered after the end")


def small(cls, bits, signed):
    class Small(cls):
        @staticmethod
        def newGenerator():
            return NumberGenerator(bits, signed=signed)
    return Small


def send(mp, version, handle, to=0):
    """The ID of a new request."""
    p = GetRequestPDU()
    if version == 3:
        mp.prepareOutgoingMessage(p, handle, (b"e", b"f")[to & 1],
                                  (b"u", b"v")[to >> 1])
    else:
        mp.prepareOutgoingMessage(p, handle, (b"c", b"d", b"", b"cc")[to])
    return handle.calls[-1][1]


class Numbers:
    """A number generator that can be made to repeat a number."""

    def __init__(self):
        self.last = 1 << 30
        self.again = None

    def __iter__(self):
        return self

    def __next__(self):
        if self.again is not None:
            return self.again
        self.last += 1
        return self.last


def numbered(cls, *args):
    """A message processor with IDs of our own."""
    numbers = Numbers()

    class Numbered(cls):
        @staticmethod
        def newGenerator():
            return numbers
    mp = Numbered(*args)
    mp.numbers = numbers
    return mp


def free(cx, mp, version, ids):
    """IDs that are not used any more are available again."""
    for i in ids:
        mp.numbers.again = i
        h = Handle("again")
        got, err = cx.observe(send, mp, version, h)
        cx.check(err is None and got == i, "an ID stays taken for ever",
                 got=type(err).__name__)
        h.finish()
    mp.numbers.again = None


@contextmanager
def taken(cx, mp, version, i):
    """Somebody else's ID stays taken, whatever happens meanwhile."""
    if i is None:
        yield
        return
    mp.numbers.again = i
    h = Handle("another")
    got, err = cx.observe(send, mp, version, h)
    cx.check(err is None and got == i, "an ID stays taken for ever",
             got=type(err).__name__)
    yield
    mp.numbers.again = i
    x = Handle("third")
    got, err = cx.observe(send, mp, version, x)
    mp.numbers.again = None
    cx.check(err is not None or got != i, "an ID in use is given away")
    x.finish()
    h.finish()


def id_sequence(cx, version, bits, steps, to):
    """Allocating and releasing IDs around the end of the number sequence.

    `to` has the destination of each request."""
    base = SNMPv3MessageProcessor if version == 3 else PROC[version]
    signed = version != 3
    mp = small(base, bits, signed)(*([1472] if version == 3 else []))
    if version == 3:
        mp.addSecurityModuleIfNeeded(Security(), default=True)
    live = []
    for k in range(steps):
        if live and cx.bool("release%d" % k):
            h, i = live.pop(0)
            h.finish()
        h = Handle(str(k))
        i, err = cx.observe(send, mp, version, h, to[k % len(to)])
        if err is not None:
            cx.reach("exhausted")
            cx.check(isinstance(err, SNMPException), "undocumented error")
            cx.check(len(live) > 0, "no ID although none is in use")
            continue
        cx.check(i != 0, "zero ID")
        if not signed:
            cx.check(i > 0, "negative message ID")
        for g, j in live:
            cx.check(i != j, "ID already in use", k=k)
        live.append((h, i))
        cx.reach("done")
    cx.note([i for h, i in live])


class Security(SecurityModule):
    """An ideal security module: it hands over what the test says."""
    MODEL = SecurityModel.USM

    def __init__(self):
        self.incoming = None
        self.outgoing = []

    def processIncoming(self, message, timestamp=None):
        engine, name, plaintext = self.incoming
        message.securityEngineID = engine
        message.securityName = name
        if message.header.flags.privFlag:
            message.plaintext = plaintext

    def prepareOutgoing(self, message, engineID, securityName):
        self.outgoing.append((message, engineID, securityName))
        return b"sent %d" % len(self.outgoing)


def v3_outgoing(cx, name):
    sm = Security()
    mp = SNMPv3MessageProcessor(cx.int("size", 484, 65507))
    engine, user, context = (cx.bytes(n, k) for n, k in (
        ("engine", 3), ("user", 2), ("context", 2)))
    k = cx.choice("level", 3)
    h = Handle("a")
    cls = CLASSES[name][0]
    p = cls(requestID=5)
    mp.addSecurityModuleIfNeeded(sm, default=True)
    out = mp.prepareOutgoingMessage(p, h, engine, user,
                                    securityLevel=LEVELS[k],
                                    contextName=context)
    cx.check(out == b"sent 1" and len(sm.outgoing) == 1,
             "not what the security module returned")
    m, e, u = sm.outgoing[0]
    cx.check(cx.all(e == engine, u == user), "security parameters")
    f = m.header.flags
    cx.check(f.securityLevel == LEVELS[k], "security level")
    confirmed = name in ("GetRequestPDU", "GetNextRequestPDU",
                         "GetBulkRequestPDU", "SetRequestPDU",
                         "InformRequestPDU")
    cx.check(bool(f.reportableFlag) == confirmed, "reportable flag")
    cx.check(cx.all(m.header.maxSize == mp.msgMaxSize,
                    m.header.securityModel == 3), "header")
    cx.check(cx.all(0 <= m.header.id, m.header.id <= I31), "message ID")
    if confirmed:
        cx.check(m.header.id != 0, "zero message ID")
        cx.check(h.calls[0][1] == m.header.id, "handle is told another ID")
        # every transmission has an ID of its own
        mp.prepareOutgoingMessage(p, h, engine, user, securityLevel=LEVELS[k])
        cx.check(sm.outgoing[1][0].header.id != m.header.id,
                 "message ID used twice")
    cx.check(m.scopedPDU.pdu is p or m.scopedPDU.pdu == p, "PDU")
    cx.check(cx.all(m.scopedPDU.contextEngineID == engine,
                    m.scopedPDU.contextName == context), "context")
    _, err = cx.observe(mp.prepareOutgoingMessage, p, h, engine, user,
                        securityModel=2)
    cx.check(isinstance(err, ValueError), "security model not enabled")
    cx.reach("done")


def v3_matching(cx, case, tag, req, priv=False, crowd=0):
    """req: security level of the request."""
    sm = Security()
    mp = (numbered(SNMPv3MessageProcessor, 1472) if crowd
          else SNMPv3MessageProcessor(1472))
    mp.addSecurityModuleIfNeeded(sm, default=True)
    sends = []
    for who in ("a", "b"):
        engine = cx.bytes("engine." + who, 1)
        user = cx.bytes("user." + who, 1)
        ctx = cx.bytes("ctx." + who, 1)
        h = Handle(who)
        mp.prepareOutgoingMessage(
            GetRequestPDU(requestID=9), h, engine, user,
            securityLevel=LEVELS[req if who == "a" else 2 - req],
            contextName=ctx)
        sends.append([h, h.calls[0][1], engine, user, ctx,
                      req if who == "a" else 2 - req, True])
    cx.check(sends[0][1] != sends[1][1], "message IDs are not unique")
    more = others(mp, 3, crowd)
    if case == "finished":
        sends[0][0].finish()
        sends[0][6] = False
    elif case == "dropped":
        h = sends[0][0] = None
        gc.collect()
        sends[0][6] = False
    k = 2 if priv else cx.choice("level", 2)
    j = cx.choice("mid.kind", 2 if crowd else 3)
    mid = cx.int("mid", 1 << 24, I31) if j == 2 else sends[j][1]
    sec_engine, name = cx.bytes("se", 1), cx.bytes("sn", 1)
    ce, cn = cx.bytes("ce", 1), cx.bytes("cn", 1)
    scoped = wire.seq(wire.octets(ce), wire.octets(cn), pdu_wire(9, tag))
    data = wire.seq(
        wire.integer(3), wire.header3(mid, 1472, (0, 1, 3)[k]),
        wire.octets(b""), wire.octets(b"x") if priv else scoped)
    sm.incoming = sec_engine, name, scoped
    got, err = cx.observe(mp.prepareDataElements, data)
    report = tag == 0xa8
    fits = []
    for h, i, engine, user, ctx, level, live in sends:
        c = [mid == i, name == user, cn == ctx]
        if not report:
            c += [k >= level, sec_engine == engine, ce == engine]
        fits.append(cx.all(live, *c))
    if err is None:
        cx.check(tag in (0xa2, 0xa8), "a request is taken for a response")
        msg, h = got
        cx.reach("delivered")
        cx.note(h.name)
        n = "ab".index(h.name)
        cx.check(fits[n], "response accepted for a request it does not match",
                 who=h.name)
        cx.check(cx.all(msg.header.id == mid, msg.securityName == name,
                        msg.securityEngineID == sec_engine,
                        msg.header.flags.securityLevel == LEVELS[k],
                        msg.scopedPDU.contextEngineID == ce,
                        msg.scopedPDU.contextName == cn), "message altered")
    else:
        cx.reach("refused")
        cx.check(isinstance(err, REFUSED), "undocumented error",
                 got=type(err).__name__)
        if tag in (0xa2, 0xa8):
            for f in fits:
                cx.check(cx.not_(f), "response lost")
    # the other request still gets its response
    h, i, engine, user, ctx, level, live = sends[1]
    sm.incoming = engine, user, wire.seq(wire.octets(engine), wire.octets(ctx),
                                         pdu_wire(9))
    got, err = cx.observe(mp.prepareDataElements, wire.seq(
        wire.integer(3), wire.header3(i, 1472, (0, 1, 3)[level]),
        wire.octets(b""), wire.octets(b"x") if level == 2
        else sm.incoming[2]))
    cx.check(err is None and got[1] is h, "a message disturbs a request")
    h.finish()
    got, err = cx.observe(mp.prepareDataElements, wire.seq(
        wire.integer(3), wire.header3(i, 1472, (0, 1, 3)[level]),
        wire.octets(b""), wire.octets(b"x") if level == 2
        else sm.incoming[2]))
    cx.check(isinstance(err, REFUSED), "delivered after the end")


CASES = ("live", "finished", "dropped")

HARNESSES = collect(
    Harness(community, [dict(version=v, case=c) for v in (0, 1)
                        for c in CASES]
            + [dict(version=v, case="live", tag=t) for v, t in (
                (0, 0xa0), (0, 0xa3), (1, 0xa0), (1, 0xa3), (1, 0xa7),
                (1, 0xa8), (1, 0xa6))]
            + [dict(version=v, case="live", crowd=300) for v in (0, 1)],
            reach=("delivered", "refused"),
            functions=["SNMPv1MessageProcessor.*", "SNMPv2cMessageProcessor.*",
                       "Message.*", "NumberGenerator.*"],
            bound="two requests with arbitrary communities of 1-2 octets; one "
                  "message with any request ID and community; up to 300 "
                  "other requests outstanding"),
    Harness(id_sequence, [dict(version=v, bits=b, steps=4, to=t)
                          for v in (0, 1, 3)
                          for b, t in ((2, (0,)), (2, (0, 1, 2, 3)),
                                       (3, (0, 1)))],
            [dict(version=v, bits=3, steps=6, to=t) for v in (0, 1, 3)
             for t in ((0,), (0, 1, 3, 2))],
            reach=("exhausted", "done"),
            functions=["cache", "uncache", "NumberGenerator.*"],
            bound="4 (6) requests with 2- and 3-bit IDs, any of them released "
                  "in between, every random start"),
    Harness(v3_outgoing, [dict(name=n) for n in CLASSES
                          if n not in ("ResponsePDU", "ReportPDU")],
            reach=("done",),
            functions=["SNMPv3MessageProcessor.prepareOutgoingMessage"],
            bound="every level, size, engine ID of 3 and names of 2 octets"),
    Harness(v3_matching, [dict(case=c, tag=t, req=r) for c in CASES
                          for t in (0xa2, 0xa8) for r in (0, 2)]
            + [dict(case="live", tag=0xa2, req=1, priv=True),
               dict(case="live", tag=0xa8, req=2, priv=True),
               dict(case="live", tag=0xa0, req=0),
               dict(case="live", tag=0xa6, req=0),
               dict(case="live", tag=0xa7, req=1),
               dict(case="live", tag=0xa2, req=1, crowd=300)],
            reach=("delivered", "refused"),
            functions=["SNMPv3MessageProcessor.*", "SNMPv3Message.*"],
            bound="two requests with arbitrary engine IDs, names and contexts "
                  "of one octet; one message with arbitrary identifiers; up to "
                  "300 other requests outstanding"),
)

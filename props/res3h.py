"""The SNMPv3 manager: what is asked for, and what comes back."""

import gc

from snmp.dispatcher import Dispatcher
from snmp.manager import Timeout
from snmp.manager.v3 import SNMPv3UsmManager, UnhandledReport
from snmp.message.v3 import SNMPv3MessageProcessor
from snmp.pdu import *
from snmp.security import SecurityModel
from snmp.smi import *
from snmp.transport import TransportChannel

from sx.harness import Harness, collect
from . import wire
from .mgr3h import FLAGS, NAMES, STATS, Usm
from .mgrh import LOCAL, METHODS, PEER, Mux, Wire, check_result, invoke
from .mph import numbered
from .pduh import I31
from .v3h import LEVELS


class Net:
    """A real manager, dispatcher and message processor, and an ideal
    security model."""

    def __init__(self, cx, level, engine=None, autowait=True, user=b"u"):
        self.cx = cx
        cx.w.randint = lambda a, b: b // 2 + 1
        self.usm = Usm(cx)
        self.usm.watch = self.outgoing
        self.wire = Wire(cx)
        self.mp = numbered(SNMPv3MessageProcessor, 1472)
        self.mp.addSecurityModuleIfNeeded(self.usm, default=True)
        self.dispatcher = Dispatcher(Mux())
        self.dispatcher.addMessageProcessor(self.mp)
        self.m = SNMPv3UsmManager(
            self.dispatcher, self.usm,
            TransportChannel(self.wire, PEER, LOCAL), "space", user,
            LEVELS[level], engineID=engine, autowait=autowait)
        self.msgs = []          # (message ID, level, engine, user, PDU)

    def outgoing(self, message, engine, user):
        pdu = message.scopedPDU.pdu
        self.msgs.append((
            message.header.id,
            LEVELS.index(message.header.flags.securityLevel), engine, user,
            pdu))
        # as it is on its way now, not as it may become
        self.encoded = pdu.encode()
        return b"message %d" % len(self.msgs)

    def hear(self, mid, level, engine, user, pdu):
        scoped = wire.seq(wire.octets(engine), wire.octets(b""), pdu)
        self.usm.incoming = engine, user, scoped
        _, err = self.cx.observe(self.dispatcher.hear, self.wire, PEER,
                                 wire.seq(
            wire.integer(3), wire.header3(mid, 1472, FLAGS[level]),
            wire.octets(b""), wire.octets(b"x") if level == 2 else scoped))
        self.cx.check(err is None, "the receiving thread dies",
                      got=type(err).__name__)

    def report(self, mid, level, engine, user, kind, rid=0):
        self.hear(mid, level, engine, user, wire.seq(
            wire.integer(rid), wire.integer(0), wire.integer(0),
            wire.seq(wire.seq(wire.oid(STATS + [kind, 0]),
                              wire.integer(7, 0x41))), tag=0xa8))


def result(cx, method, nreq, nresp, mode, level, known=True, form="text"):
    """One request, any response."""
    w = cx.w
    w.clock = cx.real("start", 0, 1 << 33)
    auto = mode == "auto"
    own = cx.choice("own", 2)       # level and user of the call
    net = Net(cx, (level + 1) % 3 if own else level,
              b"E" if known else None, auto, b"v" if own else b"u")
    oids = [[1, 3, 6, k] for k in range(nreq)]
    status = cx.int("status", 0, 18)
    index = cx.int("index", 0, 9) if nresp < 10 else cx.choice(
        "at", (0, 1, 100, 127, 128, 129, nresp))
    cx.assume(cx.all(index <= nresp, cx.any(status != 0, index == 0)))
    binds = [([1, 3, 6, 1, k], cx.int("v%d" % k, -128, 127)
              if k == nresp - 1 else k) for k in range(nresp)]
    enc = b""
    for oid, v in binds:
        enc = enc + wire.seq(wire.oid(oid), wire.integer(v))
    kw = {}
    if own:
        kw.update(securityLevel=LEVELS[level], user=b"u")
    if mode in ("handle", "early"):
        kw["wait"] = False
    elif mode == "explicit":
        kw["wait"] = True
    bulk = {}
    if method == "getBulk":
        if cx.choice("bulk", 2):
            bulk = dict(nonRepeaters=cx.int("nonrep", 0, 100),
                        maxRepetitions=cx.int("maxrep", 0, 100))

    def answer():
        if not known:
            cx.check(len(net.msgs) == 1, "no discovery")
            mid, lv, engine, user, pdu = net.msgs[0]
            cx.check((lv, engine, user) == (0, b"", b""),
                     "not a discovery message")
            net.report(mid, 0, b"E", b"", 4)
        n = 1 if known else 2
        cx.check(len(net.msgs) == n, "number of messages sent")
        mid, lv, engine, user, pdu = net.msgs[-1]
        cx.check((lv, engine, user) == (level, b"E", b"u"),
                 "level, engine or user")
        cx.check(type(pdu).__name__ == METHODS[method], "kind of request")
        rid = pdu.requestID
        x, y = (bulk.get("nonRepeaters", 0), bulk.get("maxRepetitions", 0)) \
            if method == "getBulk" else (0, 0)
        vbs = b""
        for k, o in enumerate(oids):
            vbs = vbs + wire.seq(wire.oid(o), wire.integer(k)
                                 if method == "set" else wire.null())
        tag = {"get": 0xa0, "getNext": 0xa1, "set": 0xa3,
               "getBulk": 0xa5}[method]
        cx.check(net.encoded == wire.seq(
            wire.integer(rid), wire.integer(x), wire.integer(y),
            wire.seq(vbs), tag=tag), "not what was asked for")
        for _ in range(2):              # a duplicate changes nothing
            net.hear(mid, level, b"E", b"u", wire.seq(
                wire.integer(rid), wire.integer(status),
                wire.integer(index), wire.seq(enc), tag=0xa2))
        cx.check(len(net.msgs) == n, "a response makes something be sent")

    def on_wait(event, timeout):
        cx.check(not event.is_set(), "blocked although answered")
        w.clock = w.clock + cx.real("delay%d" % len(waits), 0, 1)
        waits.append(1)
        answer()
    waits = []
    w.on_wait = on_wait
    got, err = cx.observe(invoke, net.m, method, oids, form=form, bulk=bulk,
                          **kw)
    if mode in ("handle", "early"):
        cx.check(err is None and not isinstance(got, VarBindList),
                 "no handle", got=type(err).__name__)
        cx.check(not waits, "blocked")
        handle = got
        if mode == "early":
            w.clock = w.clock + cx.real("arrival", 0, 9)
            answer()
            w.clock = w.clock + cx.real("late", 0, 100)
        got, err = cx.observe(handle.wait)
    else:
        cx.check(len(waits) == 1, "did not wait", got=type(err).__name__)
    cx.reach(check_result(cx, err, got, status, index, oids, binds))
    cx.note(type(err).__name__)


HARNESSES = collect(
    Harness(result,
            [dict(method=m, nreq=1, nresp=1, mode=mode, level=k % 3,
                  known=mode == "auto", form=("text", "object")[k % 2])
             for k, m in enumerate(METHODS) for mode in ("auto", "handle")]
            + [dict(method="get", nreq=a, nresp=b, mode=mode, level=l)
               for l, (a, b) in enumerate(((0, 0), (2, 3), (3, 2)))
               for mode in ("explicit", "early")]
            + [dict(method="get", nreq=200, nresp=200, mode="auto", level=1)],
            [dict(method=m, nreq=a, nresp=b, mode=mode, level=l, known=k,
                  form=f) for m in METHODS for a, b in ((1, 2), (3, 1))
             for mode in ("auto", "handle", "explicit", "early")
             for l in (0, 1, 2) for k in (False, True)
             for f in ("text", "object")],
            reach=("result", "error"),
            functions=["SNMPv3UsmManager.*", "Request.*", "RequestMessage.*",
                       "SNMPv3MessageProcessor.*", "Dispatcher.*", "PDU.*"],
            bound="requests of every kind and level for 0-3 variables; "
                  "responses with every status, index and up to 3 variables"),
)

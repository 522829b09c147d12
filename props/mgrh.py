"""Managers of SNMPv1 and SNMPv2c: results, schedules, deadlines."""

import gc

from snmp.dispatcher import Dispatcher
from snmp.manager import Timeout
from snmp.manager.v1 import SNMPv1Manager
from snmp.manager.v2c import SNMPv2cManager
from snmp.message import Message
from snmp.pdu import *
from snmp.smi import *
from snmp.transport import (Transport, TransportChannel, TransportDomain,
                            TransportMultiplexor)

from sx.env import Deadlock
from sx.harness import Harness, collect
from . import wire
from .mph import PROC, free, numbered, taken
from .pduh import I31

PEER = ("192.0.2.1", 161)
LOCAL = ("192.0.2.2", 0)


class Mux(TransportMultiplexor):
    def register(self, sock):
        pass

    def listen(self, listener):
        pass

    def stop(self):
        pass

    def close(self):
        pass


class Wire(Transport):
    """Records what is sent, and when."""

    DOMAIN = TransportDomain.UDP_IPv4

    def __init__(self, cx):
        self.cx = cx
        self.sent = []
        self.watch = None

    def send(self, address, data):
        self.cx.check(address == PEER, "sent to another address")
        self.sent.append((self.cx.w.clock, data))
        if self.watch is not None:
            self.watch(data)

    def close(self):
        pass


class Net:
    """A real dispatcher and manager on an imaginary network."""

    def __init__(self, cx, version, community=b"c", autowait=True):
        self.cx, self.version = cx, version
        cx.w.randint = lambda a, b: b // 2 + 1
        self.wire = Wire(cx)
        self.dispatcher = Dispatcher(Mux())
        self.mp = numbered(PROC[version])
        self.dispatcher.addMessageProcessor(self.mp)
        self.channel = TransportChannel(self.wire, PEER, LOCAL)
        if version == 0:
            self.m = SNMPv1Manager(self.dispatcher, self.channel, community,
                                   autowait)
        else:
            self.m = SNMPv2cManager(self.dispatcher, self.channel, community,
                                    autowait)

    def hear(self, data):
        _, err = self.cx.observe(self.dispatcher.hear, self.wire, PEER, data)
        self.cx.check(err is None, "the receiving thread dies",
                      got=type(err).__name__)

    def response(self, rid, binds=b"", community=b"c", status=0, index=0,
                 tag=0xa2, version=None):
        return wire.seq(
            wire.integer(self.version if version is None else version),
            wire.octets(community),
            wire.seq(wire.integer(rid), wire.integer(status),
                     wire.integer(index), wire.seq(binds), tag=tag))


METHODS = {"get": "GetRequestPDU", "getNext": "GetNextRequestPDU",
           "set": "SetRequestPDU", "getBulk": "GetBulkRequestPDU"}
ALL = list(METHODS.values())


def sent(cx, data):
    """(community, PDU) of an outgoing message, read by the reference."""
    try:
        version, community, pdu = wire.read_message(data, ALL)
    except (wire.Bad, wire.Unspecified):
        cx.check(False, "malformed message sent", data=data)
    return version, community, pdu


def check_result(cx, err, got, status, index, request, binds):
    """What the caller of a finished request gets."""
    if err is None:
        cx.check(status == 0, "an error is taken for a result")
        cx.check(isinstance(got, VarBindList), "not a list of variables")
        cx.check(len(got) == len(binds), "number of variables")
        for vb, (oid, v) in zip(got, binds):
            cx.check(vb.name == OID(*oid), "name of a variable")
            cx.check(cx.all(type(vb.value) is Integer32,
                            vb.value.value == v), "value of a variable")
        return "result"
    cx.check(isinstance(err, ErrorResponse), "undocumented error",
             got=type(err).__name__)
    cx.check(status != 0, "a result is taken for an error")
    cx.check(err.status == status, "error status")
    i = 0
    while i < index:
        i += 1
    if i == 0:
        cx.check(isinstance(err.cause, (PDU, BulkPDU)), "cause")
        cx.check(len(err.cause.variableBindings) == len(request), "cause")
    elif i <= len(request):
        cx.check(isinstance(err.cause, VarBind), "cause")
        cx.check(err.cause.name == OID(*request[i - 1]), "cause")
    else:
        cx.check(err.cause == i, "cause")
    return "error"


def invoke(m, method, oids, form="text", bulk=None, **kw):
    """Calls the method of the manager, with texts or with objects."""
    if form == "text":
        oids = [".".join(map(str, o)) for o in oids]
    else:
        oids = [OID(*o) for o in oids]
    if method == "set":
        vbs = [(o, Integer32(k)) for k, o in enumerate(oids)]
        if form == "object":
            vbs = [VarBind(*vb) for vb in vbs]
        return m.set(*vbs, **kw)
    if method == "getBulk":
        return m.getBulk(*oids, **bulk, **kw)
    return getattr(m, method)(*oids, **kw)


NOISE = (None, "community", "request", "version", "kind", "cut")


def result(cx, version, method, nreq, nresp, mode, noise, form="text"):
    """One request, any response, after anything that is no response."""
    auto = mode == "auto"
    default = cx.bytes("default", 1)
    net = Net(cx, version, default, autowait=auto)
    w = cx.w
    w.clock = cx.real("start", 0, 1 << 33)
    oids = [[1, 3, 6, k] for k in range(nreq)]
    community = cx.bytes("community", 1) if cx.choice("own", 2) else None
    if noise == "cut":
        status, index = 5 * cx.choice("status", 2), 0
    else:
        status = cx.int("status", 0, 18)
        index = cx.int("index", 0, 9) if nresp < 10 else cx.choice(
            "at", (0, 1, 100, 127, 128, 129, nresp))
        cx.assume(cx.all(index <= nresp, cx.any(status != 0, index == 0)))
    binds = [([1, 3, 6, 1, k], cx.int("v%d" % k, -128, 127)
              if k == nresp - 1 else k) for k in range(nresp)]
    enc = b""
    for oid, v in binds:
        enc = enc + wire.seq(wire.oid(oid), wire.integer(v))
    kw = {} if community is None else {"community": community}
    if mode in ("handle", "early"):
        kw["wait"] = False
    elif mode == "explicit":
        kw["wait"] = True
    used = default if community is None else community
    bulk = {}
    if method == "getBulk" and cx.choice("bulk", 2):
        bulk = dict(nonRepeaters=cx.int("nonrep", 0, 100),
                    maxRepetitions=cx.int("maxrep", 0, 100))

    def answer():
        cx.check(len(net.wire.sent) == 1, "number of messages sent")
        v, c, pdu = sent(cx, net.wire.sent[0][1])
        name, rid, x, y, vbs = pdu
        cx.check(v == version, "version sent")
        cx.check(c == used, "community sent")
        cx.check(name == METHODS[method], "kind of request")
        cx.check(cx.all(x == bulk.get("nonRepeaters", 0),
                        y == bulk.get("maxRepetitions", 0)),
                 "parameters of the request")
        cx.check([o for o, _ in vbs] == oids, "variables requested")
        for k, (_, val) in enumerate(vbs):
            cx.check(val == (("Integer32", k) if method == "set"
                             else ("NULL", None)), "values sent")
        # messages that do not answer the request
        if noise == "community":
            other = cx.bytes("othercommunity", 1)
            cx.assume(other != used)
            net.hear(net.response(rid, community=other, status=5))
        elif noise == "request":
            other = cx.int("otherid", 1 << 24, I31)
            cx.assume(other != rid)
            net.hear(net.response(other, community=used, status=5))
        elif noise == "version":
            net.hear(net.response(rid, community=used, status=5,
                                  version=1 - version))
            net.hear(net.response(rid, community=used, status=5, version=3))
        elif noise == "kind":
            for tag in (0xa0, 0xa1, 0xa3, 0xa6, 0xa7, 0xa8):
                net.hear(net.response(rid, community=used, status=5, tag=tag))
        elif noise == "cut":
            whole = net.response(rid, community=used, status=5)
            net.hear(whole[:cx.choice("cut", len(whole))])
        net.hear(net.response(rid, enc, used, status, index))
        # a duplicate changes nothing
        net.hear(net.response(rid, enc, used, status, index))

    def on_wait(event, timeout):
        cx.check(not event.is_set(), "blocked although answered")
        w.clock = w.clock + cx.real("delay%d" % len(waits), 0, 1)
        waits.append(1)
        answer()
    waits = []
    w.on_wait = on_wait
    got, err = cx.observe(invoke, net.m, method, oids, form=form, bulk=bulk,
                          **kw)
    if mode in ("handle", "early"):
        cx.check(err is None and not isinstance(got, VarBindList),
                 "no handle", got=type(err).__name__)
        cx.check(not waits, "blocked")
        handle = got
        if mode == "early":
            # the response arrives in time, the caller looks later
            w.clock = w.clock + cx.real("arrival", 0, 9)
            answer()
            w.clock = w.clock + cx.real("late", 0, 100)
        got, err = cx.observe(handle.wait)
    else:
        cx.check(len(waits) == 1, "did not wait")
    cx.reach(check_result(cx, err, got, status, index, oids, binds))
    cx.note(type(err).__name__)


# -- schedules --------------------------------------------------------------------


def times(timeout, period):
    """Arguments that are not needed for the documented defaults."""
    return {k: v for k, v, d in (("timeout", timeout, 10),
                                 ("refreshPeriod", period, 1)) if v != d}


class Req:
    def __init__(self, k, timeout, period):
        self.k, self.timeout, self.period = k, timeout, period
        self.rid = None
        self.sends = 0
        self.answered = self.closed = False
        self.intime = False


class Schedule:
    """The reference: when requests are due, and when they expire."""

    def __init__(self, cx, net, specs, rounds):
        self.cx, self.net = cx, net
        self.reqs = [Req(k, t, p) for k, (t, p) in enumerate(specs)]
        self.rounds = rounds
        self.round = 0
        self.spins = self.nat = 0
        self.target = None
        net.wire.watch = self.on_send

    def start(self, k, **kw):
        cx, r = self.cx, self.reqs[k]
        self.current = r
        r.created = cx.w.clock
        r.exp = r.created + r.timeout
        r.handle, err = cx.observe(
            self.net.m.get, "1.3.6.1.%d" % k, wait=False,
            **times(r.timeout, r.period))
        cx.check(err is None, "request refused", got=type(err).__name__)
        cx.check(r.sends == 1, "not sent at once")
        self.current = None

    def identify(self, data):
        return sent(self.cx, data)[2][1]

    def on_send(self, data):
        cx, now = self.cx, self.cx.w.clock
        rid = self.identify(data)
        if self.current is not None and self.current.rid is None:
            r = self.current
            cx.check(all([rid != q.rid for q in self.reqs]),
                     "request ID used twice")
            r.rid = rid
            r.due = now + r.period
            r.sends = 1
            return
        rs = [r for r in self.reqs if r.rid == rid]
        cx.check(len(rs) == 1, "unknown request sent")
        r = rs[0]
        cx.check(not r.answered, "sent again after it was answered")
        cx.check(not r.closed, "sent again after the end")
        cx.check(now < r.exp, "sent again after it expired", now=now,
                 exp=r.exp)
        cx.check(now >= r.due, "sent again too early", now=now, due=r.due)
        r.sends += 1
        cx.reach("again")
        r.due = r.due + ((now - r.due) // r.period + 1) * r.period

    def live(self):
        return [r for r in self.reqs if r.sends and not r.answered
                and not r.closed]

    def respond(self, r):
        r.intime = bool(self.cx.w.clock < r.exp)
        r.answered = True
        self.net.hear(self.net.response(r.rid, wire.seq(
            wire.oid([1, 3, 6, 1, r.k]), wire.integer(r.k + 1))))

    def on_wait(self, event, timeout):
        cx, w = self.cx, self.cx.w
        cx.check(timeout is not None, "waits forever")
        now, me = w.clock, self.target
        cx.check(not me.answered, "blocked although answered")
        cx.check(now + timeout <= me.exp, "waits beyond the deadline",
                 timeout=timeout)
        for r in self.live():
            cx.check(cx.any(now >= r.exp, r.due >= r.exp, r.due > now),
                     "retransmission is overdue", r=r.k)
            cx.check(cx.any(now >= r.exp, r.due >= r.exp,
                            now + timeout <= r.due),
                     "waits beyond the next retransmission", r=r.k)
        if timeout <= 0:
            self.spins += 1
            cx.check(self.spins < 4, "busy waiting")
        else:
            self.spins = 0
        self.round += 1
        if self.round > self.rounds:
            # whatever happens: it ends
            x = cx.real("end%d" % self.round, 0, 100)
            late = w.clock + timeout + x
            cx.assume(late >= me.exp)
            w.clock = late
            return
        end = now + timeout
        while True:
            live = self.live()
            k = cx.choice("event%d.%d" % (self.round, self.nat),
                          len(live) + 1)
            if k == len(live):
                w.clock = end + cx.real("over%d" % self.round, 0, 100)
                return
            self.nat = self.nat + 1
            at = now + cx.real("at%d" % self.nat, 0, 1000)
            cx.assume(cx.all(at >= w.clock, at <= end))
            w.clock = at
            self.respond(live[k])
            if live[k] is me:
                return

    def finish(self, k):
        cx, w, r = self.cx, self.cx.w, self.reqs[k]
        self.target = r
        w.on_wait = self.on_wait
        got, err = cx.observe(r.handle.wait)
        self.target = None
        r.closed = True
        if err is None:
            cx.reach("response")
            cx.check(r.answered, "a response out of nothing")
            cx.check(len(got) == 1 and got[0].value == Integer32(k + 1),
                     "response of another request")
        else:
            cx.reach("timeout")
            cx.check(isinstance(err, Timeout), "undocumented error",
                     got=type(err).__name__)
            cx.check(not r.intime, "response lost")
            cx.check(w.clock >= r.exp, "timeout too early")
        # an ID may be taken by others before the caller drops the handle
        with taken(cx, self.net.mp, self.net.version, r.rid):
            r.handle = None
            gc.collect()
        # whatever comes now is ignored
        n = len(self.net.wire.sent)
        self.net.hear(self.net.response(r.rid))
        cx.check(len(self.net.wire.sent) == n, "sent again after the end")
        free(cx, self.net.mp, self.net.version, [r.rid])


def gap(cx, name, most=1000):
    cx.w.clock = cx.w.clock + cx.real(name, 0, most)


def many(cx, version, n):
    """Many outstanding requests: all of them are sent again, each in time."""
    net = Net(cx, version)
    s = Schedule(cx, net, [(4, (1, 2, 3)[k % 3]) for k in range(n)], 0)
    w = cx.w
    w.clock = cx.real("start", 0, 1 << 33)
    for k in range(n):
        w.clock = w.clock + 1 / 64
        s.start(k)
    rounds = [0]

    def waiting(event, timeout):
        now, me = w.clock, s.target
        cx.check(cx.all(0 < timeout, now + timeout <= me.exp),
                 "does not wait properly")
        live = s.live()
        cx.check(cx.all(*[cx.any(now >= r.exp, r.due >= r.exp, r.due > now)
                          for r in live]), "retransmission is overdue")
        cx.check(cx.all(*[cx.any(now >= r.exp, r.due >= r.exp,
                                 now + timeout <= r.due) for r in live]),
                 "waits beyond the next retransmission")
        rounds[0] += 1
        if rounds[0] == n + n // 2:
            s.respond(s.reqs[cx.choice("who", (0, n // 2, n - 1))])
            if me.answered:
                return
        w.clock = now + timeout
    s.on_wait = waiting
    s.finish(n - 1)
    for k in (0, n // 2):
        s.finish(k)
    cx.check(all([r.sends >= 2 for r in s.reqs[:n // 4]]), "never sent again")
    s.reqs = None
    gc.collect()


def schedule(cx, version, specs, order, rounds, drop=None):
    """Requests with their own periods and timeouts on one manager."""
    net = Net(cx, version)
    s = Schedule(cx, net, specs, rounds)
    cx.w.clock = cx.real("start", 0, 1 << 33)
    for k in range(len(specs)):
        if k:
            gap(cx, "gap%d" % k)
        s.start(k)
    if drop is not None:
        s.reqs[drop].closed = True
        s.reqs[drop].handle = None
        gc.collect()
        free(cx, net.mp, net.version, [s.reqs[drop].rid])
    for n, k in enumerate(order):
        if n:
            gap(cx, "pause%d" % n)
            if cx.bool("early%d" % n) and not s.reqs[k].answered:
                s.respond(s.reqs[k])
        s.finish(k)


def drift(cx, version, timeout, period, reads):
    """The clock advances while the code runs: it still ends, and in time."""
    net = Net(cx, version)
    w = cx.w
    w.clock = cx.real("start", 0, 1 << 33)
    start = w.clock
    count = [0]

    def on_time():
        count[0] += 1
        if count[0] <= reads:
            w.clock = w.clock + cx.real("drift%d" % count[0], 0, 100)
        elif count[0] > reads:
            w.clock = start + 1000 + count[0]
        cx.check(count[0] < reads + 20, "does not end")

    def on_wait(event, t):
        cx.check(t is not None, "waits forever")
        if t > 0:
            w.clock = w.clock + t
    w.on_time, w.on_wait = on_time, on_wait
    got, err = cx.observe(net.m.get, "1.3", timeout=timeout,
                          refreshPeriod=period)
    w.on_time = None
    cx.check(isinstance(err, Timeout), "undocumented error",
             got=type(err).__name__)
    cx.check(w.clock >= start + timeout, "timeout too early")
    cx.reach("done")


def race(cx, version, timeout, period, points):
    """The response arrives at any moment while the caller is busy."""
    net = Net(cx, version)
    w = cx.w
    w.clock = cx.real("start", 0, 1 << 33)
    exp = w.clock + timeout
    handle = net.m.get("1.3", wait=False, timeout=timeout,
                       refreshPeriod=period)
    w.clock = w.clock + cx.real("pause", 0, 2)
    rid = sent(cx, net.wire.sent[0][1])[2][1]
    when = cx.choice("point", points)
    n = [0]
    state = {"done": False, "sent": None}

    def deliver():
        state["done"] = True
        w.on_lock = w.on_time = None
        state["intime"] = w.clock
        net.hear(net.response(rid, wire.seq(wire.oid([1, 3]),
                                            wire.integer(7))))
        state["sent"] = len(net.wire.sent)

    def point(*a):
        if not state["done"]:
            if n[0] == when:
                try:
                    deliver()
                except Deadlock:
                    # the receiving thread has to wait: see the other points
                    cx.assume(False)
            n[0] += 1

    def on_wait(event, t):
        cx.check(t is not None, "waits forever")
        cx.check(not state["done"], "blocked although answered")
        w.clock = w.clock + t
        point()
    w.on_lock = w.on_time = point
    w.on_wait = on_wait
    got, err = cx.observe(handle.wait)
    w.on_lock = w.on_time = None
    cx.note(type(err).__name__, len(net.wire.sent))
    if state["done"]:
        if state["intime"] < exp:
            cx.reach("during")
            cx.check(err is None, "response lost", got=type(err).__name__)
        if err is not None:
            cx.check(isinstance(err, Timeout), "undocumented error")
            return
        cx.check(got[0].value == Integer32(7), "response")
        cx.check(len(net.wire.sent) <= state["sent"] + 1,
                 "sent again after it was answered")
    else:
        cx.reach("never")
        cx.check(isinstance(err, Timeout), "undocumented error")


TIMES = [(10, 1), (3, 2), (1, 5), (10, 3)]

HARNESSES = collect(
    Harness(result,
            [dict(version=v, method=m, nreq=1, nresp=1, mode=mode, noise=None)
             for v in (0, 1) for m in METHODS if v or m != "getBulk"
             for mode in ("auto", "handle")]
            + [dict(version=v, method="get", nreq=a, nresp=b, mode=mode,
                    noise=None, form="object")
               for v in (0, 1) for a, b in ((0, 0), (2, 3), (3, 2), (2, 0))
               for mode in ("explicit", "early")]
            + [dict(version=v, method=m, nreq=2, nresp=1, mode="handle",
                    noise=None, form="object") for v, m in (
                        (0, "set"), (0, "getNext"), (1, "set"),
                        (1, "getBulk"))]
            + [dict(version=v, method="get", nreq=1, nresp=1, mode="auto",
                    noise=n) for v in (0, 1) for n in NOISE[1:]]
            + [dict(version=v, method=m, nreq=200, nresp=200, mode="auto",
                    noise=None) for v, m in ((0, "get"), (1, "set"))],
            [dict(version=v, method=m, nreq=a, nresp=b, mode=mode, noise=n)
             for v in (0, 1) for m in METHODS if v or m != "getBulk"
             for a, b in ((1, 2), (2, 2), (3, 1))
             for mode in ("auto", "handle", "explicit", "early")
             for n in (None, "community", "cut")],
            reach=("result", "error"),
            functions=["SNMPv1Manager.*", "SNMPv2cManager.*", "Request.*",
                       "Dispatcher.*", "SNMPv1MessageProcessor.*",
                       "SNMPv2cMessageProcessor.*", "Message.*", "PDU.*"],
            bound="requests for 0-3 variables; responses with every status, "
                  "index and up to 3 variables; communities of one arbitrary "
                  "octet"),
    Harness(schedule,
            [dict(version=v, specs=[t], order=[0], rounds=3)
             for v in (0, 1) for t in TIMES]
            + [dict(version=v, specs=[a, b], order=o, rounds=2)
               for v in (0, 1) for a, b in ((TIMES[0], TIMES[1]),
                                            (TIMES[1], TIMES[3]))
               for o in ([0, 1], [1, 0])]
            + [dict(version=v, specs=[TIMES[0], TIMES[1]], order=[1], rounds=2,
                    drop=0) for v in (0, 1)],
            [dict(version=v, specs=[a, b], order=o, rounds=3)
             for v in (0, 1) for a in TIMES for b in TIMES
             for o in ([0, 1], [1, 0])],
            reach=("again", "response", "timeout"),
            functions=["SNMPv1Manager.*", "SNMPv2cManager.*", "Request.*",
                       "ComparableWeakRef.*"],
            bound="one or two requests with the timeouts and periods 10/1, "
                  "3/2, 1/5, 10/3; 2-3 waits with responses and wake-ups "
                  "at arbitrary instants"),
    Harness(many, [dict(version=v, n=40) for v in (0, 1)],
            [dict(version=v, n=130) for v in (0, 1)],
            reach=("response", "again", "timeout"),
            functions=["SNMPv1Manager.*", "SNMPv2cManager.*", "Request.*"],
            bound="40 (130) outstanding requests with the periods 1, 2, 3; any "
                  "of three is answered"),
    Harness(drift, [dict(version=v, timeout=t, period=p, reads=5)
                    for v in (0, 1) for t, p in ((3, 2), (1, 5))],
            [dict(version=v, timeout=t, period=p, reads=7)
             for v in (0, 1) for t, p in TIMES], reach=("done",),
            functions=["Request.wait", "Request.refresh"],
            bound="the first 5 (7) readings of the clock advance arbitrarily"),
    Harness(race, [dict(version=v, timeout=3, period=1, points=16)
                   for v in (0, 1)],
            [dict(version=v, timeout=t, period=p, points=40)
             for v in (0, 1) for t, p in TIMES],
            reach=("during", "never"),
            functions=["Request.wait", "Request.push", "Request.refresh"],
            bound="a response at each of the first 16 (40) clock readings and "
                  "lock acquisitions of the waiting thread"),
)

"""The SNMPv3 manager: discovery, synchronization, results, deadlines."""

import gc

from snmp.dispatcher import Dispatcher
from snmp.exception import SNMPException
from snmp.manager import Timeout
from snmp.manager.v3 import SNMPv3UsmManager, UnhandledReport
from snmp.message.v3 import SNMPv3MessageProcessor
from snmp.pdu import *
from snmp.security import SecurityModel, SecurityModule
from snmp.smi import *
from snmp.transport import TransportChannel

from sx.env import Deadlock
from sx.harness import Harness, collect
from . import wire
from .mgrh import LOCAL, PEER, Mux, Wire, gap, times
from .mph import free, numbered, taken
from .pduh import I31
from .v3h import LEVELS

USER = b"u"
FLAGS = (0, 1, 3)
STATS = [1, 3, 6, 1, 6, 3, 15, 1, 1]
NAMES = {1: "UnsupportedSecurityLevelReport", 3: "UnknownUserNameReport",
         5: "WrongDigestReport", 6: "DecryptionErrorReport",
         9: "UnrecognizedReport"}


class Msg:
    """One message that was sent."""

    def __init__(self, mid, req, real, engine, user, level):
        self.mid, self.req, self.real = mid, req, real
        self.engine, self.user, self.level = engine, user, level
        self.gen = 0
        self.resync = False


class Usm(SecurityModule):
    """Ideal security: whoever claims to be authentic, is.

    Claims of engines are counted."""

    MODEL = SecurityModel.USM

    def __init__(self, cx):
        self.cx = cx
        self.claims = {}
        self.foreign = ()
        self.watch = None
        self.incoming = None

    def registerRemoteEngine(self, engineID, namespace=""):
        self.cx.check(namespace == "space", "namespace")
        if engineID in self.foreign:
            return False
        self.claims[engineID] = self.claims.get(engineID, 0) + 1
        return True

    def unregisterRemoteEngine(self, engineID, namespace=""):
        self.cx.check(namespace == "space", "namespace")
        self.cx.check(self.claims.get(engineID, 0) > 0,
                      "an engine is released that was not claimed")
        self.claims[engineID] -= 1

    def claimed(self):
        return {e: n for e, n in self.claims.items() if n}

    def processIncoming(self, message, timestamp=None):
        engine, name, plaintext = self.incoming
        message.securityEngineID = engine
        message.securityName = name
        if message.header.flags.privFlag:
            message.plaintext = plaintext

    def prepareOutgoing(self, message, engineID, securityName):
        if message.header.flags.authFlag:
            self.cx.check(self.claims.get(engineID, 0) > 0,
                          "sent to an engine that is not claimed")
        return self.watch(message, engineID, securityName)


class Req:
    def __init__(self, k, level, timeout, period):
        self.k, self.level = k, level
        self.timeout, self.period = timeout, period
        self.rid = None
        self.sends = 0
        self.engine = None
        self.gen = 0
        self.final = None           # what must come out
        self.intime = False
        self.value = None
        self.reports = []           # what may come out at the deadline
        self.hints = []             # the same, about discovery
        self.vague = []             # what may come out early
        self.closed = False
        self.handle = None

    def pending(self, now):
        return not self.closed and self.final is None and now < self.exp


class Sim:
    """The reference."""

    def __init__(self, cx, specs, engine=None, rounds=2, limit=3,
                 spread=100):
        self.cx = cx
        self.spread = spread
        cx.w.randint = lambda a, b: b // 2 + 1
        self.usm = Usm(cx)
        self.usm.watch = self.outgoing
        self.wire = Wire(cx)
        self.wire.watch = self.on_wire
        self.mp = numbered(SNMPv3MessageProcessor, 1472)
        self.mp.addSecurityModuleIfNeeded(self.usm, default=True)
        self.dispatcher = Dispatcher(Mux())
        self.dispatcher.addMessageProcessor(self.mp)
        self.given = engine
        self.m = SNMPv3UsmManager(
            self.dispatcher, self.usm, TransportChannel(self.wire, PEER,
                                                        LOCAL),
            "space", USER, LEVELS[2], engineID=engine, autowait=False)
        self.reqs = [Req(k, *s) for k, s in enumerate(specs)]
        self.msgs = []
        self.engines = [] if engine is None else [engine]
        self.rounds, self.round, self.limit = rounds, 0, limit
        self.spins = self.n = self.answers = 0
        self.phase = self.current = self.target = None
        self.hearing = None
        self.prepared = None
        self.racy = False
        self.trusted = None         # the engine of the last authentic response

    # -- what goes out ------------------------------------------------------------

    def outgoing(self, message, engine, user):
        cx, now = self.cx, self.cx.w.clock
        flags = message.header.flags
        level = LEVELS.index(flags.securityLevel)
        pdu = message.scopedPDU.pdu
        cx.check(flags.reportableFlag, "not reportable")
        cx.check(message.scopedPDU.contextEngineID == engine
                 and message.scopedPDU.contextName == b"", "context")
        mid = message.header.id
        cx.check(all([m.mid != mid for m in self.msgs]),
                 "message ID used twice")
        real = len(engine) > 0
        if real:
            r = self.of_request(pdu.requestID)
            cx.check(isinstance(pdu, GetRequestPDU) and [
                list(vb.name) for vb in pdu.variableBindings] == [
                    [1, 3, 6, 1, r.k]], "another request")
            cx.check(user == USER, "user", got=user)
            cx.check(level == r.level, "security level", got=level)
            cx.check(engine in self.engines, "unknown engine",
                     got=engine)
        else:
            cx.check(user == b"" and level == 0
                     and isinstance(pdu, GetRequestPDU)
                     and len(pdu.variableBindings) == 0,
                     "not a discovery message")
            r = self.of_discovery()
            cx.check(self.given is None and r.engine is None,
                     "discovery of a known engine")
        m = Msg(mid, r, real, engine, user, level)
        m.gen = r.gen
        self.msgs.append(m)
        if r.sends == 0:
            known = self.trusted or self.given
            cx.check(known is None or engine == known,
                     "first sent to another engine than the authentic one",
                     got=engine)
            r.due = now + r.period
            if real:
                r.engine = engine
        elif self.phase == "hear":
            cx.check(self.hearing is r, "a report makes another request be "
                     "sent again")
            self.hearing = None
            m.resync = True
            r.due = now + r.period
            r.engine = engine
        else:
            cx.check(engine == (r.engine or b""), "another engine")
            cx.check(now >= r.due, "sent again too early", now=now,
                     due=r.due)
            r.due = r.due + ((now - r.due) // r.period + 1) * r.period
            cx.reach("again")
        cx.check(not r.closed, "sent after the end")
        if r.final is not None:
            cx.check(self.racy, "sent again after it was answered")
            self.racy = False
        cx.check(now < r.exp, "sent after it expired")
        r.sends += 1
        self.prepared = b"message %d" % len(self.msgs)
        return self.prepared

    def on_wire(self, data):
        self.cx.check(data == self.prepared, "not what was prepared")
        self.prepared = None

    def of_request(self, rid):
        cx = self.cx
        if self.current is not None and self.current.rid is None:
            cx.check(all([rid != q.rid for q in self.reqs]),
                     "request ID used twice")
            self.current.rid = rid
            return self.current
        rs = [r for r in self.reqs if r.rid == rid]
        if not rs:
            # first time: a request that was waiting for its engine
            rs = [r for r in self.reqs if r.handle is not None
                  and r.rid is None and not r.closed
                  and r.handle.pdu.requestID == rid]
            for r in rs:
                r.rid = rid
        cx.check(len(rs) == 1, "unknown request sent")
        return rs[0]

    def of_discovery(self):
        if self.current is not None and self.current.sends == 0:
            return self.current
        now = self.cx.w.clock
        rs = [r for r in self.reqs if r.handle is not None and r.sends
              and r.engine is None and r.pending(now) and r.due <= now]
        rs += [r for r in self.reqs if r.handle is not None and not r.sends
               and r.pending(now)]
        self.cx.check(len(rs) > 0, "discovery for nothing")
        return rs[0]

    # -- what comes in ---------------------------------------------------------------

    def hear(self, m, level, engine, user, pdu):
        scoped = wire.seq(wire.octets(engine), wire.octets(b""), pdu)
        self.usm.incoming = engine, user, scoped
        data = wire.seq(
            wire.integer(3), wire.header3(m.mid, 1472, FLAGS[level]),
            wire.octets(b""), wire.octets(b"x") if level == 2 else scoped)
        self.phase, old = "hear", self.phase
        _, err = self.cx.observe(self.dispatcher.hear, self.wire, PEER, data)
        self.phase = old
        self.cx.check(err is None, "the receiving thread dies",
                      got=type(err).__name__)

    def response(self, m, level, engine, user=None):
        cx, r, now = self.cx, m.req, self.cx.w.clock
        user = m.user if user is None else user
        good = (m.real and level >= r.level and user == USER
                and engine == m.engine)
        self.answers += 1
        if good and r.final is None and not r.closed:
            r.final = ("response", None)
            r.value = self.answers
            r.intime = bool(now < r.exp)
        if good and level and not r.closed:
            self.trusted = engine
        n = len(self.msgs)
        self.hear(m, level, engine, user, wire.seq(
            wire.integer(r.rid or 0), wire.integer(0), wire.integer(0),
            wire.seq(wire.seq(wire.oid([1, 3, 6, 1, r.k]),
                              wire.integer(self.answers))), tag=0xa2))
        cx.check(len(self.msgs) == n, "a response makes something be sent")

    def report(self, m, kind, level, engine):
        cx, r, now = self.cx, m.req, self.cx.w.clock
        pending = r.pending(now)
        unsent = [q for q in self.reqs if not q.sends and q.handle is not None
                  and q.pending(now)]
        must = may = False
        if kind == 4:
            must = pending and engine != r.engine
            if engine not in self.engines and not r.closed:
                self.engines.append(engine)
        elif kind == 2:
            if not r.closed and engine not in self.engines:
                self.engines.append(engine)
            if m.resync:
                may = pending
            else:
                must = pending and m.gen == r.gen
        elif pending and level:
            if level >= r.level:
                r.final = ("report", kind)
                r.intime = bool(now < r.exp)
            else:
                r.vague.append(kind)
        elif not r.closed:
            (r.reports if m.real else r.hints).append(kind)
            if r.level == 0:
                r.vague.append(kind)
        first = kind == 4 and self.given is None and must and not [
            x for x in self.msgs if x.real]
        first = first or kind == 2 and must and engine == self.given
        n = len(self.msgs)
        self.hearing = r if must or may else None
        if kind == 2 and (must or may):
            before = r.gen
        self.hear(m, level, engine, m.user, wire.seq(
            wire.integer(r.rid or 0), wire.integer(0), wire.integer(0),
            wire.seq(wire.seq(wire.oid(STATS + [kind, 0]),
                              wire.integer(7, 0x41))), tag=0xa8))
        new = self.msgs[n:]
        mine = [x for x in new if x.req is r and r not in unsent]
        if kind == 2 and mine:
            r.gen = before + 1
        if must:
            cx.check(len(mine) == 1 and mine[0].real
                     and mine[0].engine == engine,
                     "not sent again after a report", kind=kind)
            cx.reach("resync")
        if first:
            for q in unsent:
                cx.check(q.sends == 1 and q.engine == engine,
                         "still not sent although the engine is known")
                cx.reach("flushed")
        for x in new:
            cx.check(x.real and x.engine == engine, "sent to another engine")
        self.hearing = None

    EVENTS = {
        # what an agent does
        "answer": lambda s, m: s.response(m, m.req.level, m.engine),
        "unknown": lambda s, m: s.report(m, 4, 0, b"E"),
        "late": lambda s, m: s.report(m, 2, 1 if m.real else 0,
                                      m.engine or b"E"),
        "refuse": lambda s, m: s.report(m, 5, m.req.level, m.engine or b"E"),
        # what anybody can do
        "plain": lambda s, m: s.response(m, 0, m.engine or b"E"),
        "weak": lambda s, m: s.response(m, 1, m.engine or b"E"),
        "stranger": lambda s, m: s.response(m, 0, b"Z"),
        "other": lambda s, m: s.response(m, 2, m.engine or b"E", b"v"),
        "astray": lambda s, m: s.report(m, 4, 0, b"Z"),
        "fakelate": lambda s, m: s.report(m, 2, 0, m.engine or b"E"),
        "error1": lambda s, m: s.report(m, 1, 0, m.engine or b"E"),
        "error3": lambda s, m: s.report(m, 3, 0, m.engine or b"E"),
        "error6": lambda s, m: s.report(m, 6, 0, m.engine or b"E"),
        "error9": lambda s, m: s.report(m, 9, 0, m.engine or b"E"),
        "refuse1": lambda s, m: s.report(m, 9, 1, m.engine or b"E"),
    }

    def event(self, events):
        """One message, in reply to one of those that were sent."""
        cx = self.cx
        self.n += 1
        e = cx.choice("event%d" % self.n, list(events))
        ms = self.msgs
        if len(ms) > self.limit:
            ms = ms[:1] + ms[1 - self.limit:]
        m = cx.choice("to%d.%d" % (self.n, len(ms)), list(range(len(ms))))
        cx.note(e, m)
        self.EVENTS[e](self, ms[m])

    # -- calls -----------------------------------------------------------------------

    def start(self, k):
        cx, r = self.cx, self.reqs[k]
        self.current = r
        r.exp = cx.w.clock + r.timeout
        self.phase = "start"
        r.handle, err = cx.observe(
            self.m.get, "1.3.6.1.%d" % k, securityLevel=LEVELS[r.level],
            wait=False, **times(r.timeout, r.period))
        self.phase = None
        cx.check(err is None, "request refused", got=type(err).__name__)
        if not any(q.sends for q in self.reqs[:k]):
            cx.check(r.sends == 1, "not sent at once")
        self.current = None

    def live(self):
        return [r for r in self.reqs if r.sends and r.handle is not None
                and r.final is None and not r.closed]

    def on_wait(self, event, timeout):
        cx, w, me = self.cx, self.cx.w, self.target
        cx.check(timeout is not None, "waits forever")
        now = w.clock
        cx.check(me.final is None, "blocked although answered")
        cx.check(now + timeout <= me.exp, "waits beyond the deadline")
        live = self.live()
        for r in live:
            cx.check(cx.any(now >= r.exp, r.due >= r.exp, r.due > now),
                     "retransmission is overdue", r=r.k)
            cx.check(cx.any(now >= r.exp, r.due >= r.exp,
                            now + timeout <= r.due),
                     "waits beyond the next retransmission", r=r.k)
        if not me.sends:
            cx.check(cx.any(now >= me.exp, *[now < r.exp for r in live]),
                     "request is never sent")
            cx.reach("queued")
        if timeout <= 0:
            self.spins += 1
            cx.check(self.spins < 4, "busy waiting")
        else:
            self.spins = 0
        self.round += 1
        if self.round > self.rounds:
            late = w.clock + timeout + cx.real("end%d" % self.round, 0, 100)
            cx.assume(late >= me.exp)
            w.clock = late
            return
        end = now + timeout
        while self.n < self.rounds and cx.choice(
                "more%d.%d" % (self.round, self.n), 2):
            at = now + cx.real("at%d" % self.n, 0, 1000)
            cx.assume(cx.all(at >= w.clock, at <= end))
            w.clock = at
            self.event(self.events)
            if me.final or event.is_set():
                return
        w.clock = end + cx.real("over%d" % self.round, 0,
                                self.spread)

    def finish(self, k):
        cx, w, r = self.cx, self.cx.w, self.reqs[k]
        self.target = r
        w.on_wait = self.on_wait
        self.phase = "wait"
        got, err = cx.observe(r.handle.wait)
        self.phase = None
        self.target = None
        now = w.clock
        cx.note(type(err).__name__)
        if err is None:
            cx.reach("response")
            cx.check(r.final is not None and r.final[0] == "response",
                     "accepted what does not answer the request")
            cx.check(len(got) == 1 and got[0].value == Integer32(r.value)
                     and list(got[0].name) == [1, 3, 6, 1, k],
                     "another response than the first")
        elif isinstance(err, UnhandledReport):
            cx.reach("report")
            kind = [n for n in NAMES if err.name == OID(*STATS, n, 0)]
            cx.check(len(kind) == 1, "report out of nothing")
            kind = kind[0]
            cx.check(type(err).__name__ == NAMES[kind], "kind of report",
                     got=type(err).__name__)
            if r.final is not None and r.intime:
                cx.check(r.final == ("report", kind), "response lost")
            elif r.final is not None and r.final == ("report", kind):
                pass
            elif kind in r.vague:
                pass
            else:
                cx.check(kind in r.reports + r.hints, "report out of nothing")
                cx.check(now >= r.exp, "an unauthenticated report ends the "
                         "request")
        else:
            cx.reach("timeout")
            cx.check(isinstance(err, Timeout), "undocumented error",
                     got=type(err).__name__)
            cx.check(not r.intime, "response lost")
            cx.check(not r.reports or r.final is not None,
                     "reported error lost")
            cx.check(now >= r.exp, "timeout too early")
        r.closed = True
        mids = [m for m in self.msgs if m.req is r]
        n = len(self.msgs)
        for m in mids[-2:]:
            _, err = self.probe(m)
            cx.check(err is not None, "message of a finished request is "
                     "still outstanding")
        cx.check(len(self.msgs) == n, "sent after the end")
        # an ID may be taken by others before the caller drops the handle
        watch, self.usm.watch = self.usm.watch, lambda *a: b"free"
        with taken(cx, self.mp, 3, mids[-1].mid if mids else None):
            r.handle = None
            gc.collect()
        self.usm.watch = watch

    def probe(self, m):
        scoped = wire.seq(wire.octets(m.engine), wire.octets(b""), wire.seq(
            wire.integer(0), wire.integer(0), wire.integer(0), wire.seq(),
            tag=0xa2))
        self.usm.incoming = m.engine, m.user, scoped
        return self.cx.observe(self.mp.prepareDataElements, wire.seq(
            wire.integer(3), wire.header3(m.mid, 1472, FLAGS[m.level]),
            wire.octets(b""), wire.octets(b"x") if m.level == 2 else scoped))

    def end(self):
        """Everything is given back."""
        cx = self.cx
        for r in self.reqs:
            r.closed = True
            r.handle = None
        gc.collect()
        left = self.usm.claimed()
        cx.check(sum(left.values()) <= 1, "engines claimed for finished "
                 "requests", left=str(left))
        self.usm.watch = lambda message, engineID, user: b"free"
        free(cx, self.mp, 3, [m.mid for m in self.msgs])
        self.m = None
        gc.collect()
        cx.check(not self.usm.claimed(), "engine claimed for ever",
                 left=str(self.usm.claimed()))


def conversation(cx, specs, order, events, engine=None, rounds=2, drop=None,
                 limit=3, before=0, spread=100):
    """Requests of one manager and any sequence of messages."""
    s = Sim(cx, specs, engine.encode() if engine else None, rounds, limit,
            spread)
    s.events = events
    cx.w.clock = cx.real("start", 0, 1 << 33)
    for k in range(len(specs)):
        if k:
            gap(cx, "gap%d" % k, spread)
            if before and cx.bool("before%d" % k):
                s.event(events)
        s.start(k)
    if drop is not None:
        s.reqs[drop].closed = True
        s.reqs[drop].handle = None
        gc.collect()
    for n, k in enumerate(order):
        if n:
            gap(cx, "pause%d" % n, spread)
        s.finish(k)
    s.end()


AGENT = ["answer", "unknown", "late", "refuse"]
ATTACK = ["answer", "plain", "weak", "stranger", "other"]
REPORTS = ["answer", "error1", "error3", "error6", "error9", "refuse1"]
SYNC = ["answer", "unknown", "astray", "late", "fakelate"]

def attacks(cx, **kw):
    """Only adequately secured messages settle a request."""
    conversation(cx, **kw)


def discovery(cx, **kw):
    """Finding the engine and its time."""
    conversation(cx, **kw)


def deadlines(cx, **kw):
    """Retransmissions and timeouts."""
    conversation(cx, **kw)


def release(cx, **kw):
    """Messages and engines are given back."""
    conversation(cx, **kw)


def trusted(cx, specs, first, events, engine=None):
    """What an authentic response settled stays settled."""
    s = Sim(cx, specs, engine.encode() if engine else None, 1)
    cx.w.clock = cx.real("start", 0, 1 << 33)

    def last(k):
        return [m for m in s.msgs if m.req is s.reqs[k]][-1]

    def hear(event, m):
        s.n += 1
        gap(cx, "hear%d" % s.n, 1)
        s.EVENTS[event](s, m)
    s.start(0)
    for e in first:
        hear(e, last(0))
    s.start(1)
    if last(1).engine != b"E":
        hear("unknown", last(1))
    hear("answer", last(1))
    cx.check(s.trusted == b"E" or not s.reqs[1].level, "an authentic "
             "response is ignored")
    for n in range(2):
        e = cx.choice("next%d" % n, list(events))
        ms = s.msgs[-4:]
        hear(e, ms[cx.choice("which%d.%d" % (n, len(ms)),
                             list(range(len(ms))))])
    s.start(2)
    s.finish(1)
    s.end()
    cx.reach("done")


def patience(cx, spec, sends, engine=None, event="answer"):
    """A request that was sent many times; one of its messages is answered."""
    s = Sim(cx, [spec], engine.encode() if engine else None)
    w, r = cx.w, s.reqs[0]
    w.clock = cx.real("start", 0, 1 << 33)
    s.start(0)
    if engine is None:
        s.EVENTS["unknown"](s, s.msgs[0])
    steps = []

    def waiting(e, timeout):
        steps.append(timeout)
        cx.check(timeout is not None and 0 < timeout, "busy waiting")
        if len(steps) <= sends:
            w.clock = w.clock + timeout
        elif len(steps) == sends + 1:
            real = [m for m in s.msgs if m.real]
            cx.check(len(real) >= sends, "not sent again")
            at = w.clock + cx.real("at", 0, 1)
            cx.assume(at < r.exp)
            w.clock = at
            s.EVENTS[event](s, real[cx.choice("to", list(range(len(real))))])
            cx.check(r.final is not None and e.is_set(), "response lost")
        else:
            w.clock = w.clock + timeout
    s.on_wait = waiting
    s.finish(0)
    s.end()


def many(cx, level, n, engine=None, queued=False):
    """Many outstanding requests: all of them are sent again, each in time."""
    s = Sim(cx, [[level, 4, (1, 2, 3)[k % 3]] for k in range(n)],
            engine.encode() if engine else None)
    w = cx.w
    w.clock = cx.real("start", 0, 1 << 33)
    for k in range(n):
        w.clock = w.clock + 1 / 64
        s.start(k)
        if not k and not queued:
            s.EVENTS["late" if engine else "unknown"](s, s.msgs[0])
            s.response(s.msgs[-1], level, b"E")
    rounds = [0]

    def waiting(event, timeout):
        now, me = w.clock, s.target
        cx.check(cx.all(0 < timeout, now + timeout <= me.exp),
                 "does not wait properly")
        live = s.live()
        cx.check(cx.all(*[cx.any(now >= r.exp, r.due >= r.exp, r.due > now)
                          for r in live]), "retransmission is overdue")
        cx.check(cx.all(*[cx.any(now >= r.exp, r.due >= r.exp,
                                 now + timeout <= r.due) for r in live]),
                 "waits beyond the next retransmission")
        rounds[0] += 1
        if queued and rounds[0] == 2:
            s.EVENTS["unknown"](s, s.msgs[0])
            return
        if rounds[0] == n + n // 2:
            r = s.reqs[cx.choice("who", (1, n // 2, n - 1))]
            s.response(next(m for m in s.msgs if m.req is r), level, b"E")
            if me.final:
                return
        w.clock = now + timeout
    s.on_wait = waiting
    s.finish(n - 1)
    for k in (0, n // 2):
        s.finish(k)
    cx.check(all([r.sends >= 2 for r in s.reqs[:n // 4]]), "never sent again")
    s.end()


def foreign(cx, spec, events, engine=None):
    """A report of an engine that belongs to another namespace."""
    s = Sim(cx, [spec], engine.encode() if engine else None)
    s.events = events
    s.usm.foreign = (b"Z",)
    cx.w.clock = cx.real("start", 0, 1 << 33)
    s.start(0)
    m, r = s.msgs[0], s.reqs[0]
    for i in range(1 + cx.choice("twice", 2)):
        s.hear(m, 0, b"Z", m.user, wire.seq(
            wire.integer(r.rid or 0), wire.integer(0), wire.integer(0),
            wire.seq(wire.seq(wire.oid(STATS + [4, 0]),
                              wire.integer(7, 0x41))), tag=0xa8))
    cx.check(len(s.msgs) == 1, "sent to the engine of others")
    if cx.bool("dropped"):
        r.closed = True
        r.handle = None
        gc.collect()
    else:
        s.finish(0)
    m = None
    s.end()
    cx.reach("done")


def race(cx, spec, events, points, engine=None, first=None):
    """One message arrives at any moment while the caller is busy."""
    s = Sim(cx, [spec], engine.encode() if engine else None, rounds=0)
    w = cx.w
    s.racy = True
    w.clock = cx.real("start", 0, 1 << 33)
    s.start(0)
    r = s.reqs[0]
    if first:
        s.EVENTS[first](s, s.msgs[0])
    gap(cx, "pause", 2 * r.period)
    when = cx.choice("point", points)
    n = [0]

    def point(*a):
        if n[0] == when:
            w.on_lock = w.on_time = None
            try:
                s.event(events)
            except Deadlock:
                # the receiving thread has to wait: see the other points
                cx.assume(False)
            cx.reach("during")
        n[0] += 1
    on_wait = s.on_wait

    def waiting(event, timeout):
        s.rounds = s.round + 1
        on_wait(event, timeout)
        if w.on_lock is not None:
            point()
    s.on_wait = waiting
    s.events = ()
    w.on_lock = w.on_time = point
    s.n = 1000
    s.finish(0)
    w.on_lock = w.on_time = None
    s.end()


def interrupt(cx, spec, events, engine=None):
    """The caller is interrupted while it waits."""
    s = Sim(cx, [spec], engine.encode() if engine else None)
    w, r = cx.w, s.reqs[0]
    s.events = events
    w.clock = cx.real("start", 0, 1 << 33)
    s.start(0)
    when = 1 + cx.choice("interrupt", s.rounds)

    def waiting(event, timeout):
        s.on_wait(event, timeout)
        if s.round == when:
            raise KeyboardInterrupt
    w.on_wait, s.target, s.phase = waiting, r, "wait"
    err = None
    try:
        _, err = cx.observe(r.handle.wait)
    except KeyboardInterrupt as e:
        err = e
    if s.round >= when:
        cx.reach("interrupted")
        if r.reports or r.hints:
            cx.check(isinstance(err, UnhandledReport), "an interrupted wait "
                     "does not tell what was reported",
                     got=type(err).__name__)
            cx.reach("told")
        elif r.final is None and not r.vague:
            cx.check(isinstance(err, KeyboardInterrupt), "an interruption is "
                     "lost", got=type(err).__name__)
    s.target = s.phase = w.on_wait = None
    r.closed = True
    mids = list(s.msgs)
    for m in mids[-2:]:
        _, e = s.probe(m)
        cx.check(e is not None, "message of a finished request is still "
                 "outstanding")
    cx.check(len(s.msgs) == len(mids), "sent after the end")
    r.handle = err = None
    s.end()


def drift(cx, spec, reads, engine=None, first=None):
    """The clock advances while the code runs: it still ends, and in time."""
    s = Sim(cx, [spec], engine.encode() if engine else None)
    w = cx.w
    w.clock = start = cx.real("start", 0, 1 << 33)
    s.start(0)
    if first:
        s.EVENTS[first](s, s.msgs[0])
    # from here on the reference does not know when the code looks
    s.usm.watch = lambda message, engineID, user: b"again"
    s.wire.watch = None
    count = [0]

    def on_time():
        count[0] += 1
        cx.check(count[0] < reads + 20, "does not end")
        if count[0] <= reads:
            w.clock = w.clock + cx.real("drift%d" % count[0], 0, 100)
        else:
            w.clock = start + 1000 + count[0]

    def on_wait(event, t):
        cx.check(t is not None, "waits forever")
        if t > 0:
            w.clock = w.clock + t
    w.on_time, w.on_wait = on_time, on_wait
    got, err = cx.observe(s.reqs[0].handle.wait)
    w.on_time = None
    cx.check(isinstance(err, Timeout), "undocumented error",
             got=type(err).__name__)
    cx.check(w.clock >= s.reqs[0].exp, "timeout too early")
    cx.reach("done")


A, B, C, D = [12, 4], [10, 3], [4, 20], [30, 11]
SHORT = [3, 2]
LV = (0, 1, 2)
F = ["SNMPv3UsmManager.*", "Request.*", "RequestMessage.*", "State.*",
     "SNMPv3MessageProcessor.*", "Dispatcher.*"]


def jobs(levels, events, engines=(None, "E"), times=(A,), order=None, **kw):
    return [dict(specs=[[x] + t for x, t in zip(
        l if isinstance(l, (list, tuple)) else [l], times * 2)],
        order=order or [0], events=ev, engine=e, **kw)
        for l in levels for ev in events for e in engines]


AU, AUL = ["answer", "unknown"], ["answer", "unknown", "late"]
MORE = ["refuse", "error3", "plain"]
two = dict(times=[A, B], spread=4)
ONE = "one request of each level; "
HARNESSES = collect(
    Harness(attacks, jobs(LV, [ATTACK, REPORTS])
            + jobs(LV, [["unknown", "answer", "plain", "other"]],
                   engines=[None]),
            jobs(LV, [ATTACK, REPORTS], rounds=3, spread=4, limit=2),
            reach=("response", "timeout", "report"), functions=F,
            bound=ONE + "2 (3) messages, each in reply to any of the messages "
                  "sent, of 11 kinds, at arbitrary instants"),
    Harness(discovery,
            jobs(LV, [AGENT, SYNC])
            + jobs([(1, 1)], [AU], order=[1, 0], rounds=1, **two)
            + jobs([(0, 2), (2, 0)], [AU], order=[0, 1], rounds=1, **two)
            + jobs([(1, 2)], [AUL], order=[1, 0], rounds=1, before=1, **two)
            + jobs([(1, 1), (0, 2)], [["answer", "astray"]], engines=["E"],
                   order=[1, 0], rounds=1, **two)
            + jobs([(1, 0, 2)], [["unknown"]], engines=[None], order=[2, 0],
                   rounds=1, drop=1, times=[A, B], spread=2)
            + jobs([(0, 2, 1)], [["unknown"]], engines=[None], order=[2, 0],
                   rounds=1, times=[A, SHORT, B], spread=2),
            jobs([(1, 1), (0, 2), (2, 0), (1, 2)], [AU], order=[0, 1], **two)
            + jobs([(2, 1), (2, 0)], [AU], order=[1, 0], **two),
            reach=("response", "timeout", "resync", "queued", "flushed"),
            functions=F,
            bound="one or two requests of every level, with and without a "
                  "given engine ID; 2 messages of 6 kinds, each in reply to "
                  "any of the messages sent, at arbitrary instants"),
    Harness(trusted,
            [dict(specs=[[l] + A, [k] + A, [m] + A], first=f, engine=e,
                  events=["answer", "plain", "stranger", "astray", "late"])
             for l, k, m, f, e in (
                 (0, 1, 0, ["astray"], None), (0, 2, 1, ["astray"], None),
                 (0, 1, 2, ["astray", "answer"], None),
                 (1, 1, 0, ["unknown", "astray"], None),
                 (0, 1, 1, ["late"], "E"),
                 (0, 2, 0, ["late", "astray"], "E"),
                 (1, 1, 0, ["unknown", "answer"], "D"),
                 (0, 0, 1, ["astray", "answer"], "E"))],
            reach=("done", "response"), functions=F,
            bound="three requests of all levels, forged and authentic "
                  "reports and responses before and after an authentic one"),
    Harness(deadlines,
            jobs([0, 2], [["answer", "error3"]], times=[B])
            + jobs([1], [AU], times=[C])
            + jobs([1], [["answer"]], times=[[10, 1]], engines=["E"])
            + jobs([2], [AUL], engines=["E"], times=[A], rounds=3, limit=2)
            + jobs([(0, 0)], [["answer"]], engines=["E"], order=[0, 1], **two)
            + jobs([(2, 0)], [["answer"]], engines=["E"], order=[1, 0], **two)
            + jobs([(1, 1)], [["answer"]], order=[1, 0], times=[C, B],
                   spread=4)
            + jobs([(1, 1)], [["answer"]], order=[1, 0], times=[D, C],
                   spread=4)
            + jobs([(1, 0)], [["late"]], engines=["E"], order=[0, 1],
                   rounds=1, times=[A, B], spread=4)
            + jobs([(1, 1), (0, 2)], [["unknown"]], engines=[None],
                   order=[0], rounds=1, times=[A, B], spread=4)
            + jobs([(1, 1, 1)], [["answer"]], order=[2], rounds=2,
                   times=[SHORT, SHORT, B], spread=4)
            + jobs([(0, 1, 2)], [["answer"]], order=[2], rounds=1, drop=1,
                   times=[SHORT, A, B], spread=4),
            jobs([(a, b) for a in LV for b in LV], [AU], engines=["E"],
                 order=[0, 1], times=[A, B], spread=4)
            + jobs([(0, 0)], [AU], order=[1, 0], times=[C, A], spread=4),
            reach=("response", "timeout", "again"), functions=F,
            bound="one or two requests with the timeouts and periods 12/4, "
                  "10/3, 10/1, 4/20; 2 (3) wake-ups and messages at arbitrary "
                  "instants"),
    Harness(release,
            jobs([1], [AUL + MORE])
            + jobs([(1, 1)], [AGENT], order=[1], drop=0, rounds=1, **two)
            + jobs([(1, 0)], [SYNC], order=[1], drop=0, rounds=1, before=1,
                   **two),
            jobs([(1, 1), (0, 2)], [AGENT], order=[1], drop=0, **two)
            + jobs([0, 2], [AUL + MORE]),
            reach=("response", "timeout"), functions=F,
            bound="one or two requests that are answered, expire, or are "
                  "dropped; 2 messages of 6 kinds"),
    Harness(foreign, [dict(spec=[l] + A, events=AUL, engine=e)
                      for l in LV for e in (None, "E")],
            reach=("done", "response", "timeout"), functions=F,
            bound="one request; a report of an engine that belongs to another "
                  "namespace, then 2 messages"),
    Harness(patience, [dict(spec=[l, 40, 1], sends=24, engine=e)
                       for l, e in ((0, None), (1, "E"), (2, None))]
            + [dict(spec=[1, 40, 1], sends=12, engine="E", event="refuse")],
            [dict(spec=[1, 400, 1], sends=130, engine="E")],
            reach=("response", "again"), functions=F,
            bound="one request that is sent 25 (130) times; any of its "
                  "messages is answered"),
    Harness(many, [dict(level=l, n=40, engine=e)
                   for l, e in ((0, "E"), (1, None), (2, "E"))]
            + [dict(level=1, n=40, queued=True)],
            [dict(level=1, n=130)],
            reach=("response", "again", "timeout"), functions=F,
            bound="40 (130) outstanding requests with the periods 1, 2, 3; any "
                  "of three is answered"),
    Harness(interrupt, [dict(spec=[l] + A, events=ev, engine=e)
                        for l, ev in ((0, AU), (1, AUL), (2, REPORTS))
                        for e in (None, "E")],
            reach=("interrupted", "told"), functions=F,
            bound="one request; interrupted at either of 2 wake-ups"),
    Harness(race, [dict(spec=[l] + A, events=ev, points=12, engine="E")
                   for l, ev in ((0, AU), (2, AUL))]
            + [dict(spec=[1] + A, events=AU, points=20, first=f)
               for f in (None, "unknown")],
            [dict(spec=[l] + t, events=SYNC + ["refuse"], points=40, engine=e,
                  first=f) for l in LV for t in (A, C)
             for e, f in (("E", None), (None, None), (None, "unknown"))],
            reach=("during", "response", "timeout"), functions=F,
            bound="a message at each of the first 12-20 (40) clock readings "
                  "and lock acquisitions of the waiting thread"),
    Harness(drift, [dict(spec=[l] + t, reads=5, engine=e, first=f)
                    for l, t, e, f in ((0, A, "E", None), (2, C, None, None),
                                       (1, A, None, "unknown"))],
            [dict(spec=[l] + t, reads=7, engine=e, first=f) for l in LV
             for t in (A, B, C) for e, f in (("E", None), (None, None),
                                             (None, "unknown"))],
            reach=("done",), functions=F,
            bound="the first 5 (7) readings of the clock advance arbitrarily"),
)

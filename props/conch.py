"""Threads: managers side by side, and the thread that receives."""

import gc

from snmp.dispatcher import Dispatcher
from snmp.manager import Timeout
from snmp.manager.v1 import SNMPv1Manager
from snmp.manager.v2c import SNMPv2cManager
from snmp.manager.v3 import SNMPv3UsmManager
from snmp.message import Message
import snmp.message.v2c as v2c
from snmp.message.v1 import SNMPv1MessageProcessor
from snmp.message.v2c import SNMPv2cMessageProcessor
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, \
    SNMPv3Message, SNMPv3MessageProcessor
from snmp.pdu import *
from snmp.security import SecurityModel
from snmp.security.usm import UserBasedSecurityModule
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.security.usm.priv.openssl.aes import AesCfb128 as OpensslAes
from snmp.security.usm.priv.openssl.des import DesCbc as OpensslDes
from snmp.security.usm.priv.pycryptodome.aes import AesCfb128 as CryptoAes
from snmp.security.usm.priv.pycryptodome.des import DesCbc as CryptoDes
from snmp.smi import *
from snmp.transport import TransportChannel

from sx.harness import Harness, collect
from sx.sched import Sched
from . import wire
from .authh import PROTOCOLS
from .mgr3h import STATS, Usm
from .mgrh import LOCAL, PEER, Mux, Wire
from .mph import PROC, REFUSED, Handle, Security, free, numbered, pdu_wire, \
    send, small
from .pduh import I31
from .usmh import Auth, compose, key, scoped_wire, signed_message
from .v3h import LEVELS

CIPHERS = {("openssl", False): OpensslAes, ("openssl", True): OpensslDes,
           ("crypto", False): CryptoAes, ("crypto", True): CryptoDes}


def parallel(cx, *fns, preempt=1, first=None, **kw):
    """Run the functions as threads; results, or what was raised."""
    s = Sched(cx, preempt, **kw)
    tasks = [s.add(f) for f in fns]
    s.run(tasks[first] if first is not None else None)
    if s.preempted:
        cx.reach("preempted")
    return tasks


# -- privacy ---------------------------------------------------------------------


def salts(cx, lib, des, counts, preempt=1):
    """Threads that share a user encrypt at the same time."""
    cls = CIPHERS[lib, des]
    p = cls(cx.bytes("key", 16))
    boots, time = cx.int("boots", 0, I31), cx.int("time", 0, I31)

    def work(n):
        return [p.encrypt(b"x", boots, time)[1] for k in range(n)]
    ts = parallel(cx, *[lambda n=n: work(n) for n in counts], preempt=preempt)
    used = []
    for t in ts:
        cx.check(t.error is None, "encryption fails",
                 got=type(t.error).__name__)
        for s in t.result:
            for x in used:
                cx.check(s != x, "two threads use the same salt")
            used.append(s)


def shared(cx, lib, des, ops, preempt=1):
    """Threads that share a user encrypt and decrypt: nothing is mixed up."""
    cls = CIPHERS[lib, des]
    k = cx.bytes("key", 16)
    p = cls(k)
    n = 8 if des else 5
    boots, time = cx.int("boots", 0, I31), cx.int("time", 0, I31)
    data = [cx.bytes("data%d" % i, n) for i in range(2)]
    made = [cls(k).encrypt(d, boots, time) for d in data]

    def work(i):
        if ops[i] == "e":
            return p.encrypt(data[i], boots, time)
        return p.decrypt(made[i][0], boots, time, made[i][1]), None
    ts = parallel(cx, lambda: work(0), lambda: work(1), preempt=preempt)
    for i, t in enumerate(ts):
        cx.check(t.error is None, "refused", got=type(t.error).__name__)
        text, salt = t.result
        if salt is not None:
            text = cls(k).decrypt(text, boots, time, salt)
        cx.check(text[:n] == data[i], "threads mix up messages")


def signing(cx, name, preempt=1):
    """Threads that share a user sign at the same time."""
    cls, alg, size, cut = PROTOCOLS[name]
    k = cx.bytes("key", size)
    a = cls(k)
    data = [cx.bytes("data%d" % i, 4) for i in range(2)]
    ts = parallel(cx, lambda: a.sign(data[0]), lambda: a.sign(data[1]),
                  preempt=preempt)
    for i, t in enumerate(ts):
        cx.check(t.error is None, "refused", got=type(t.error).__name__)
        want = cx.w.oracle("hmac-" + alg, (k, data[i]), size)[:cut]
        cx.check(t.result == want, "threads mix up codes")


# -- encodings -------------------------------------------------------------------


class Codec:
    """What a thread does with its own objects."""

    def __init__(self, cx, k):
        self.cx = cx
        self.n = cx.int("n%d" % k, -128, 127)
        self.s = cx.bytes("s%d" % k, 2)
        self.ids = [1, 3, 6, 1, 10 + k]
        b = wire.seq(wire.seq(wire.oid(self.ids), wire.integer(self.n)))
        p = wire.seq(wire.integer(7 + k), wire.integer(0), wire.integer(0), b,
                     tag=0xa2)
        self.data = {
            "m": wire.seq(wire.integer(1), wire.octets(self.s), p),
            "v": wire.seq(
                wire.integer(3), wire.header3(70 + k, 1472, 0),
                wire.octets(b""), wire.seq(wire.octets(self.s),
                                           wire.octets(b""), p)),
            "u": wire.usm(self.s, 5, 6, b"user", b"1234", b"salt"),
        }

    def encode(self):
        return GetRequestPDU(*["1.3.6.%d" % self.ids[-1]]).encode()

    def values(self):
        vb = VarBind(OID(*self.ids), OctetString(self.s))
        return vb.encode(), Integer32(self.n).encode()

    def index(self):
        o = OID(1, 3).withIndex(Unsigned32(self.ids[-1]), OctetString(self.s))
        a, b = o.decodeIndex(OID(1, 3), Unsigned32, OctetString)
        return str(OID(*self.ids)), a.value, b.data, o < OID(*self.ids)

    def message(self):
        return Message.decode(self.data["m"], types=v2c.pduTypes).encode()

    def message3(self):
        m = SNMPv3Message.decode(self.data["v"])
        return m.header.id, m.scopedPDU.encode(), m.encode()

    def usm(self):
        u = UsmSecurityParameters.decode(self.data["u"])
        return (u.engineID, u.engineBoots, u.engineTime, u.userName,
                u.signature[:], u.salt, u.encode())


def codec(cx, a, b, preempt=1, part=None):
    """Threads encode and decode, each its own data."""
    c = [Codec(cx, k) for k in range(2)]
    want = [getattr(c[0], a)(), getattr(c[1], b)()]
    ts = parallel(cx, getattr(c[0], a), getattr(c[1], b), preempt=preempt,
                  part=part)
    for t, w in zip(ts, want):
        cx.check(t.error is None, "fails", got=type(t.error).__name__)
        cx.check(same(cx, t.result, w), "threads disturb each other",
                 got=t.result, want=w)


# -- identifiers -------------------------------------------------------------------


def ids(cx, version, bits, skip, steps, hold, preempt=1):
    """Each thread sends, receives its answer and finishes, repeatedly.

    `hold`: the second one does not finish."""
    base = SNMPv3MessageProcessor if version == 3 else PROC[version]
    mp = small(base, bits, version != 3)(*([1472] if version == 3 else []))
    if version == 3:
        sm = Security()
        mp.addSecurityModuleIfNeeded(sm, default=True)
        scoped = wire.seq(wire.octets(b"e"), wire.octets(b""), pdu_wire(9))
        sm.incoming = b"e", b"u", scoped
    for k in range(skip):
        h = Handle("skipped")
        send(mp, version, h)
        h.finish()
    live = {}

    def answer(i):
        if version == 3:
            return wire.seq(wire.integer(3), wire.header3(i, 1472, 0),
                            wire.octets(b""), scoped)
        return wire.seq(wire.integer(version), wire.octets(b"c"), pdu_wire(i))

    def work(name):
        for k in range(steps):
            h = Handle("%s%d" % (name, k))
            i = send(mp, version, h)
            cx.check(i != 0, "a request has the ID zero")
            for other in live.values():
                cx.check(i != other, "two requests have the same ID")
            live[name] = i
            got = mp.prepareDataElements(answer(i))
            cx.check(got[1] is h, "a response reaches another request")
            if hold and name == "b":
                return
            h.finish()
            del live[name]
            try:
                got = mp.prepareDataElements(answer(i))
            except REFUSED:
                pass
            else:
                cx.check(got[1] is not h, "a request does not end")
    for t in parallel(cx, lambda: work("a"), lambda: work("b"),
                      preempt=preempt):
        cx.check(t.error is None, "a request fails",
                 got=type(t.error).__name__, text=str(t.error))


# -- users, engines and times --------------------------------------------------------


class Security3:
    """A security module with two users and one engine, and what can be done
    with it."""

    def __init__(self, cx, now, times):
        self.cx, self.now = cx, now
        self.times = times
        self.messages = {}
        self.m = m = UserBasedSecurityModule()
        m.addUser("n")
        m.addUser("a", Auth, b"as")
        m.addUser("x", Auth, b"xs", namespace="x")
        m.registerRemoteEngine(b"E1")

    # one letter for each operation

    def op_r(self, k):          # another claim of the same engine
        return self.m.registerRemoteEngine(b"E1", "")

    def op_u(self, k):          # the claim it began with
        return self.m.unregisterRemoteEngine(b"E1", "")

    def op_e(self, k):          # an engine that two want
        return self.m.registerRemoteEngine(b"E2", "")

    def op_f(self, k):
        return self.m.registerRemoteEngine(b"E2", "x")

    def op_z(self, k):
        return self.m.unregisterRemoteEngine(b"E2", "")

    def op_a(self, k):          # a new user
        return self.m.addUser("b", Auth, b"%d" % k, default=True)

    def op_b(self, k):
        return self.m.addUser("c", Auth, b"cs", namespace="y")

    def op_d(self, k):
        return self.m.getDefaultUser("")

    def op_l(self, k):
        return self.m.getDefaultSecurityLevel("b")

    def op_o(self, k, engine=b"E1", user=b"a"):     # a message is sent
        flags = MessageFlags(LEVELS[1], True)
        msg = SNMPv3Message(
            HeaderData(77, 1472, flags, SecurityModel.USM),
            ScopedPDU(GetRequestPDU(requestID=9), engine))
        return self.m.prepareOutgoing(msg, engine, user, self.now)

    def op_p(self, k):
        return self.op_o(k, b"E1", b"b")

    def op_q(self, k):
        return self.op_o(k, b"E2")

    RECEIVED = {"h": (b"E1", False), "v": (b"E1", True), "k": (b"E2", True)}

    def expect(self, op, k):
        """Prepare what will be received."""
        if op not in self.RECEIVED:
            return
        engine, auth = self.RECEIVED[op]
        cx = self.cx
        b, t = self.times[k]
        payload = scoped_wire()
        if auth:
            data = signed_message(cx, 1, engine, b, t, b"a",
                                  key(cx, b"as", engine), payload)
        else:
            data, _ = compose(0, engine, b, t, b"n", b"", b"", payload)
        self.messages[k] = SNMPv3Message.decode(data)

    def received(self, k):
        return self.m.processIncoming(self.messages[k], self.now)

    op_h = received             # a message without authentication
    op_v = received             # one with
    op_k = received             # one from another engine

    def do(self, op, k):
        try:
            return "ok", getattr(self, "op_" + op)(k)
        except Exception as err:
            name = type(err).__name__
            self.cx.check(name in self.ERRORS, "undocumented error", got=name)
            return "error", name

    ERRORS = ("InvalidEngineID", "InvalidUserName", "UserNameCollision",
              "UnknownEngineID", "NotInTimeWindow")

    def state(self):
        """Everything that can be seen from the outside afterwards."""
        out = [self.do(op, 5) for op in "dopq"]
        for e in (b"E1", b"E2"):
            # how many claims there are
            n = 0
            while n < 4 and not self.m.registerRemoteEngine(e, "z"):
                r = self.do_release(e)
                if r is not None:
                    out.append(r)
                    break
                n += 1
            out.append((e, n))
        return out

    def do_release(self, e):
        ns = "x" if self.m.registerRemoteEngine(e, "x") else ""
        try:
            if ns:
                self.m.unregisterRemoteEngine(e, ns)
            self.m.unregisterRemoteEngine(e, ns)
        except Exception as err:
            return type(err).__name__


def same(cx, a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return cx.all(*[same(cx, x, y) for x, y in zip(a, b)])
    if cx.isbytes(a) and cx.isbytes(b):
        return a == b
    if a is None or b is None or type(a) is not type(b):
        return a is b
    return a == b


def merges(m, n):
    """The orders of m things of one thread and n of another."""
    if not m or not n:
        return [[0] * m + [1] * n]
    return [[0] + x for x in merges(m - 1, n)] + [
        [1] + x for x in merges(m, n - 1)]


def usm(cx, a, b, preempt=1, boots=False, before=""):
    """Two threads use the security module: each operation takes place at one
    moment.

    `before`: what has happened already, with an engine that has restarted
    since."""
    now = cx.int("now", 0, 1 << 20)
    times = [(cx.int("b%d" % k, 1 << 24, I31) if boots else 1 << 24,
              cx.int("t%d" % k, 1 << 24, I31)) for k in range(2)]
    if before:
        times.append(((1 << 24) - 1, cx.int("t2", 1 << 24, I31)))

    def fresh():
        s = Security3(cx, now, times)
        for op in before:
            s.expect(op, 2)
            s.do(op, 2)
        for k, ops in ((0, a), (1, b)):
            for op in ops:
                s.expect(op, k)
        return s
    outcomes = []
    for order in merges(len(a), len(b)):
        s = fresh()
        r = [[], []]
        for k in order:
            r[k].append(s.do((a, b)[k][len(r[k])], k))
        outcomes.append(r + s.state())
    s = fresh()

    def work(ops, k):
        return [s.do(op, k) for op in ops]
    ts = parallel(cx, lambda: work(a, 0), lambda: work(b, 1), preempt=preempt)
    got = [t.result for t in ts] + s.state()
    cx.check(cx.any(*[same(cx, got, o) for o in outcomes]),
             "two threads disturb each other", got=got, serial=outcomes)


# -- managers ------------------------------------------------------------------------


class Office:
    """Managers that share a dispatcher, an agent, and the thread that
    receives what the agent says."""

    def __init__(self, cx, kinds, engines=(None, None)):
        self.cx = cx
        cx.w.randint = lambda a, b: b // 2 + 1
        cx.w.clock = 1 << 20
        self.wire = Wire(cx)
        self.wire.watch = self.on_wire
        self.dispatcher = Dispatcher(Mux())
        self.queue = []             # what the agent has received
        self.heard = 0
        self.messages = {}
        self.usm = Usm(cx)
        self.usm.watch = self.outgoing
        self.agents = [b"E", b"F"]
        self.mps = []
        if 0 in kinds:
            self.mps.append(numbered(SNMPv1MessageProcessor))
        if 1 in kinds:
            self.mps.append(numbered(SNMPv2cMessageProcessor))
        if 3 in kinds:
            mp = numbered(SNMPv3MessageProcessor, 1472)
            mp.addSecurityModuleIfNeeded(self.usm, default=True)
            self.mps.append(mp)
        for mp in self.mps:
            self.dispatcher.addMessageProcessor(mp)
        self.ms = [self.manager(k, v, engines[k])
                   for k, v in enumerate(kinds)]

    def manager(self, k, version, engine):
        channel = TransportChannel(self.wire, PEER, LOCAL)
        if version == 3:
            return SNMPv3UsmManager(
                self.dispatcher, self.usm, channel, "space", b"%d" % k,
                LEVELS[1 if k == 0 else 0], engineID=engine)
        cls = (SNMPv1Manager, SNMPv2cManager)[version]
        return cls(self.dispatcher, channel, b"%d" % k)

    # what the agent receives

    def outgoing(self, message, engine, user):
        data = b"message %d" % len(self.messages)
        self.messages[data] = (message, engine, user)
        return data

    def on_wire(self, data):
        self.queue.append(data)

    # what it answers

    def number(self, name):
        """The value of a variable."""
        return name[-1] + 1

    def binds(self, names):
        return wire.seq(*[wire.seq(wire.oid(n), wire.integer(self.number(n)))
                          for n in names])

    def reply(self, data, event):
        if data not in self.messages:
            v, c, pdu = wire.read_message(data, ["GetRequestPDU"])
            return None, wire.seq(wire.integer(v), wire.octets(c), wire.seq(
                wire.integer(pdu[1]), wire.integer(0), wire.integer(0),
                self.binds([n for n, x in pdu[4]]), tag=0xa2))
        message, engine, user = self.messages[data]
        level = LEVELS.index(message.header.flags.securityLevel)
        pdu = message.scopedPDU.pdu
        if event is None:
            event = "answer" if engine in self.agents else "E"
        if event == "answer":
            p = wire.seq(
                wire.integer(pdu.requestID), wire.integer(0), wire.integer(0),
                self.binds([list(vb.name) for vb in pdu.variableBindings]),
                tag=0xa2)
        else:
            # a report from an agent of that name
            n = 2 if event.islower() else 4
            engine = event.upper().encode()
            p = wire.seq(wire.integer(pdu.requestID), wire.integer(0),
                         wire.integer(0), wire.seq(wire.seq(
                             wire.oid(STATS + [n, 0]), wire.integer(7, 0x41))),
                         tag=0xa8)
        scoped = wire.seq(wire.octets(engine), wire.octets(b""), p)
        return (engine, user, scoped), wire.seq(
            wire.integer(3),
            wire.header3(message.header.id, 1472, (0, 1, 3)[level]),
            wire.octets(b""), scoped)

    def listen(self, script=None, arrive=None):
        """The receiving thread."""
        s = self.cx.w.sched
        while script is None or self.heard < len(script):
            s.block(lambda: len(self.queue) > self.heard)
            event = script[self.heard] if script else None
            if arrive is not None:
                arrive(self.heard)
            data = self.queue[-1 if script else self.heard]
            self.heard += 1
            if event == "lost":
                continue
            self.usm.incoming, data = self.reply(data, event)
            self.dispatcher.hear(self.wire, PEER, data)

    def ask(self, k, n=1, **kw):
        """A request of a manager, from its thread."""
        got = []
        for j in range(n):
            got.append(self.ms[k].get("1.3.6.%d.%d" % (k, j), **kw))
        return got

    def check(self, t, k, n=1):
        cx = self.cx
        cx.check(t.error is None, "a request fails",
                 got=type(t.error).__name__, text=str(t.error))
        for j, vbs in enumerate(t.result):
            cx.check(len(vbs) == 1 and vbs[0].name == OID(1, 3, 6, k, j)
                     and vbs[0].value.value == j + 1,
                     "a request gets the answer to another one")

    def end(self):
        """Everything is given back."""
        for data in self.queue:
            self.usm.incoming, data = self.reply(data, None)
            for mp in self.mps:
                if mp.VERSION != data[4]:
                    continue
                try:
                    mp.prepareDataElements(data)
                except REFUSED:
                    pass
                else:
                    self.cx.check(False, "a message is remembered")
        self.usm.watch = lambda *args: b""
        for mp in self.mps:
            first = (1 << 30) + 1
            free(self.cx, mp, int(mp.VERSION),
                 range(first, mp.numbers.last + 1))
        self.ms = None
        gc.collect()
        self.cx.check(not self.usm.claimed(), "an engine stays claimed",
                      got=self.usm.claimed())


def managers(cx, kinds, first, n=1, engines=(None, None), preempt=1, part=None,
             free=True):
    """Each manager in its thread, and one thread that receives."""
    o = Office(cx, kinds, engines)
    s = Sched(cx, preempt, part=part, free=free)
    ts = [s.add(lambda k=k: o.ask(k, n)) for k in range(len(kinds))]
    listener = s.add(o.listen, daemon=True)
    s.run((ts + [listener])[first])
    if s.preempted:
        cx.reach("preempted")
    for k, t in enumerate(ts):
        o.check(t, k, n)
    cx.check(listener.error is None, "the receiving thread dies",
             got=type(listener.error).__name__)
    ts = s = listener = t = None
    o.end()


def ending(cx, version, script, at, level=0, engine=None, receiver=False,
           keep=True, preempt=1, lapse=0):
    """The last of the agent's messages arrives when the request expires.

    `receiver`: it is heard before the caller wakes up."""
    o = Office(cx, (version,), (engine and engine.encode(),))
    cx.w.clock = start = 1 << 20
    timeout, period = 3, 2
    s = Sched(cx, preempt, lapse=lapse)
    held = []
    sent = []

    def caller():
        kw = dict(securityLevel=LEVELS[level]) if version == 3 else {}
        h = o.ms[0].get("1.3.6.0.0", wait=False, timeout=timeout,
                        refreshPeriod=period, **kw)
        if keep:
            held.append(h)
        try:
            return h.wait()
        except Timeout:
            cx.check(cx.w.clock >= start + timeout, "timeout too early")
            return None
        finally:
            sent.append(len(o.queue))

    def agent():
        def arrive(n):
            if n == len(script) - 1:
                s.sleep(start + at)
        o.listen(script, arrive)
    order = [agent, caller] if receiver else [caller, agent]
    tasks = {f: s.add(f, daemon=f is agent) for f in order}
    t, l = tasks[caller], tasks[agent]
    s.run(t)
    if s.preempted:
        cx.reach("preempted")
    cx.check(t.error is None, "undocumented error",
             got=type(t.error).__name__, text=str(t.error))
    cx.check(l.error is None, "the receiving thread dies",
             got=type(l.error).__name__)
    if t.result is not None:
        cx.reach("answered")
        cx.check(t.result[0].value.value == 1, "another value")
    else:
        cx.reach("timeout")
    cx.check(sent == [len(o.queue)], "a finished request sends")
    cx.check(sum(o.usm.claimed().values()) <= 1,
             "a finished request claims an engine", got=o.usm.claimed())
    held.clear()
    t = l = tasks = s = None
    o.end()


CODEC = ("encode", "values", "index", "message", "message3", "usm")
PAIRS = [((v,), f) for v in (0, 1, 3) for f in (0, 1)]
TRIOS = [((v, w), f) for v, w in ((0, 0), (1, 1), (0, 1), (3, 3), (1, 3))
         for f in (0, 1)]
QUICK = [((0, 1), 0), ((1, 1), 1), ((3, 3), 1), ((1, 3), 0)]

# security level, the agent's messages, engine ID the manager is told
TALKS = [(0, ["answer"], "E"), (1, ["e", "answer"], "E"),
         (1, ["E", "answer"], None), (0, ["E", "F"], None),
         (1, ["E"], None), (1, ["e", "e"], "E"), (0, ["F"], "E")]

USM = [("r", "r"), ("r", "u"), ("u", "e"), ("e", "f"), ("e", "ez"),
       ("ez", "e"), ("ez", "ez"), ("f", "e"), ("r", "a"), ("e", "a"),
       ("a", "a"), ("a", "b"), ("b", "b"), ("a", "d"), ("a", "l"), ("o", "p"),
       ("a", "o"), ("u", "o"), ("u", "v"), ("r", "v"), ("e", "q"), ("h", "v"),
       ("v", "h"), ("h", "h"), ("v", "v"), ("o", "v"), ("o", "h"), ("e", "k"),
       ("ez", "k"), ("k", "a"), ("ek", "e"), ("k", "ez")]


def talks(which, **kw):
    return [dict(version=3, level=l, script=sc, engine=e, **kw)
            for l, sc, e in which]


HARNESSES = collect(
    Harness(salts, [dict(lib=l, des=d, counts=[1, 1]) for l, d in CIPHERS],
            [dict(lib=l, des=d, counts=c, preempt=2) for l, d in CIPHERS
             for c in ([1, 1, 1], [2, 2])],
            reach=("preempted",),
            functions=["AesCfb128.encrypt", "DesCbc.encrypt"],
            bound="2 (3) threads with 1 (2) messages each, preempted at any 1 "
                  "(2) places"),
    Harness(shared, [dict(lib=l, des=d, ops=o) for l, d in CIPHERS
                     for o in ("ee", "ed", "dd")],
            [dict(lib=l, des=d, ops=o, preempt=2) for l, d in CIPHERS
             for o in ("ee", "ed", "dd")],
            reach=("preempted",),
            functions=["AesCfb128.*", "DesCbc.*", "Envelope.*"],
            bound="2 threads with one message each of 5 or 8 octets"),
    Harness(signing, [dict(name=n) for n in ("HmacMd5", "HmacSha512")],
            [dict(name=n, preempt=2) for n in PROTOCOLS],
            reach=("preempted",), functions=["HmacAuthProtocol.sign"],
            bound="2 threads with one message of 4 octets each"),
    Harness(codec, [dict(a=x, b=y) for x, y in (
                ("encode", "values"), ("values", "encode"),
                ("index", "index"))],
            [dict(a=x, b=y) for x in CODEC[:3] for y in CODEC]
            + [dict(a=x, b=x, part=[k, 6]) for x in CODEC[5:]
               for k in range(6)],
            reach=("preempted",),
            functions=["ber.*", "asn1.*", "smi.*", "pdu.*", "Message.*",
                       "SNMPv3Message.*", "UsmSecurityParameters.*"],
            bound="2 threads with one operation each on data of their own, "
                  "preempted at any statement"),
    Harness(managers, [dict(kinds=k, first=f) for k, f in PAIRS]
            + [dict(kinds=k, first=f, free=False) for k, f in QUICK],
            [dict(kinds=k, first=f, free=False) for k, f in TRIOS]
            + [dict(kinds=k, first=f, n=2) for k, f in PAIRS],
            reach=("preempted",),
            functions=["SNMPv1Manager.*", "SNMPv2cManager.*",
                       "SNMPv3UsmManager.*", "Request.*", "Dispatcher.*"],
            bound="1 or 2 managers in threads of their own, with one request "
                  "(2) each, and the receiving thread; preempted at any place"),
    Harness(ending, [dict(version=v, script=["answer"], at=3, receiver=True)
                     for v in (0, 1)]
            + [dict(version=v, script=["answer"], at=2, lapse=1,
                    receiver=True) for v in (0, 1)]
            + talks(TALKS, at=3, receiver=True)
            + talks(TALKS[:4], at=2, lapse=1, receiver=True),
            [dict(version=v, script=["answer"], receiver=r, **x)
             for v in (0, 1) for r in (False, True)
             for x in (dict(at=3), dict(at=2, lapse=3))]
            + talks(TALKS, at=3, receiver=False)
            + talks(TALKS, at=2, lapse=3, receiver=True),
            reach=("preempted", "answered", "timeout"),
            functions=["SNMPv1Manager.*", "SNMPv2cManager.*",
                       "SNMPv3UsmManager.*", "Request.*", "Dispatcher.*"],
            bound="one request and the receiving thread, which gets the last "
                  "of 1-2 messages at the deadline; preempted at any place, "
                  "for any number of seconds up to 1 (3)"),
    Harness(ids, [dict(version=v, bits=b, skip=s, steps=1, hold=s != 0)
                  for v in (0, 1, 3) for b, s in ((3, 0), (2, 2))],
            [dict(version=v, bits=3, skip=s, steps=1, hold=h)
             for v in (0, 1, 3) for s in range(4, 8) for h in (False, True)]
            + [dict(version=v, bits=2, skip=s, steps=2, hold=False)
             for v in (0, 1, 3) for s in (0, 1)],
            reach=("preempted",),
            functions=["SNMPv1MessageProcessor.*", "SNMPv2cMessageProcessor.*",
                       "SNMPv3MessageProcessor.*"],
            bound="2 threads with 1 (2) requests each, preempted at any "
                  "place; 2-bit and 3-bit IDs"),
    Harness(usm, [dict(a=x, b=y) for x, y in USM]
            + [dict(a=x, b=y, before="v")
               for x, y in (("o", "v"), ("v", "o"), ("h", "v"))],
            [dict(a=x, b=y, preempt=2) for x, y in USM]
            + [dict(a=x, b=y, before="v", boots=True)
               for x in "hov" for y in "hov"]
            + [dict(a=x, b=y, boots=True) for x in "hv" for y in "hv"],
            reach=("preempted",), functions=["UserBasedSecurityModule.*",
                                             "UserRegistry.*", "TimeKeeper.*"],
            bound="every two operations, preempted at any 1 (2) places; "
                  "arbitrary times"),
)

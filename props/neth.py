"""UDP addresses, the threads that receive, and the dispatcher."""

from snmp.dispatcher import Dispatcher
from snmp.exception import IncomingMessageError
from snmp.message import ProtocolVersion
from snmp.pdu import GetRequestPDU
from snmp.transport import (AddressUsage, Transport, TransportChannel,
                            TransportDomain, TransportListener)
from snmp.transport.generic.udp import GenericUdpMultiplexor
from snmp.transport.posix.udp import PosixUdpMultiplexor
from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket, UdpMultiplexor

from sx.harness import Harness, collect
from . import wire

SOCKETS = {4: UdpIPv4Socket, 6: UdpIPv6Socket}
DOMAINS = {4: TransportDomain.UDP_IPv4, 6: TransportDomain.UDP_IPv6}
DEFAULT = {4: "0.0.0.0", 6: "::"}
VALID = {4: ["192.0.2.1", "127.0.0.1", "0.0.0.0"],
         6: ["::1", "2001:db8::1", "::"]}
BAD = ["localhost", "256.0.0.1", "1.2.3", "1.2.3.4 ", "::1::", "[::1]", "x"]
USAGES = [None, AddressUsage.LISTENER, AddressUsage.TRAP_LISTENER,
          AddressUsage.SENDER]
PORTS = [0, 161, 162, 0]


def normalize(cx, family, kind):
    """Addresses get defaults, and are refused if they make no sense."""
    u = cx.choice("usage", 4)
    usage = USAGES[u]
    listens = u in (1, 2)
    hosts = VALID[family] + VALID[10 - family] + BAD + ["", None, b"::1", 7]
    host = hosts[cx.choice("host", len(hosts))]
    if kind == "pair":
        port = cx.int("port", -(1 << 20), 1 << 20)
        arg = (host, port)
    else:
        port = PORTS[u]
        arg = host
    got, err = cx.observe(SOCKETS[family].normalizeAddress, arg, usage)
    cx.note(type(err).__name__)
    want = host
    if kind != "pair" and host is None:
        want = DEFAULT[family]
    elif host == "" and not listens:
        want = DEFAULT[family]
    good = want in VALID[family]
    fits = cx.all(port >= (1 if listens else 0), port <= 0xffff)
    if not isinstance(want, str):
        cx.check(isinstance(err, TypeError), "an address that is no string",
                 got=type(err).__name__)
        return
    if err is None:
        cx.reach("accepted")
        cx.check(good, "invalid address accepted", got=want)
        cx.check(fits, "invalid port accepted", port=port)
        cx.check(isinstance(got, tuple) and len(got) == 2, "no pair")
        cx.check(got[0] == want, "address", got=got[0])
        cx.check(got[1] == port, "port", got=got[1])
    else:
        cx.reach("refused")
        cx.check(isinstance(err, ValueError), "undocumented error",
                 got=type(err).__name__)
        cx.check(cx.any(not good, cx.not_(fits)), "valid address refused")


# -- the thread that receives ---------------------------------------------------------


class Ear(TransportListener):
    def __init__(self, cx):
        self.cx = cx
        self.heard = []

    def hear(self, transport, address, data):
        self.heard.append((transport, address, data))


class Traffic:
    """What reaches the sockets, and when they are reported to be readable."""

    def __init__(self, cx, mux, size, most):
        self.cx, self.mux, self.size = cx, mux, size
        self.most = most
        self.n = self.polls = self.total = 0
        self.socks = []
        self.sent = []
        self.stopped = 0
        self.free = True
        self.tricks = 2             # calls that may be spurious
        self.strangers = 0          # datagrams that others may send
        self.foreign = []
        self.ear = Ear(cx)
        cx.w.poller = self.poll

    def pipe(self):
        """Descriptors that the multiplexor uses for itself and that are
        readable now."""
        w = self.cx.w
        out = [90] if w.os_pipe else []
        mine = [s.socket for s in self.socks]
        return out + [s.fd for s in w.sockets if s not in mine and any(
            [not any([x is f for f in self.foreign]) for x in s.queue])]

    def stranger(self, fds):
        """Somebody sends to a socket that the multiplexor uses for itself."""
        cx, w = self.cx, self.cx.w
        mine = [s.socket for s in self.socks]
        own = [s for s in w.sockets if s not in mine]
        for s in own:
            if s.fd in fds and len(self.foreign) < self.strangers and cx.bool(
                    "stranger%d.%d" % (self.total, s.fd)):
                n = len(self.foreign)
                host = (s.bound[0], "127.0.0.9")[cx.choice("fhost%d" % n, 2)]
                port = cx.int("fport%d" % n, 1, 0xffff)
                for x in own:
                    cx.assume(cx.not_(cx.all(x.bound[0] == host,
                                             x.bound[1] == port)))
                f = (cx.bytes("fdata%d" % n, cx.choice("fsize%d" % n, 3)),
                     (host, port) + s.bound[2:])
                self.foreign.append(f)
                s.queue.append(f)
                cx.reach("stranger")

    def datagram(self):
        cx = self.cx
        self.n += 1
        k = cx.choice("to%d" % self.n, len(self.socks))
        m = cx.choice("size%d" % self.n, [0, 1, self.size, self.size + 1])
        data = cx.bytes("data%d" % self.n, m)
        addr = ("192.0.2.%d" % self.n, 1000 + self.n)
        self.socks[k].socket.queue.append((data, addr))
        self.sent.append((k, addr, data[:self.size]))

    def stop(self):
        self.stopped += 1
        _, err = self.cx.observe(self.mux.stop)
        self.cx.check(err is None, "stop fails", got=type(err).__name__)

    def poll(self, fds, timeout):
        cx = self.cx
        self.polls += 1
        self.total += 1
        cx.check(self.polls < 12, "listening does not end")
        for s in self.socks:
            cx.check(s.fileno in fds, "not listening to a socket")
        while self.n < self.most and cx.bool(
                "arrives%d.%d" % (self.total, self.n)):
            self.datagram()
        if self.free and not self.stopped and (self.n >= self.most
                                 or cx.bool("stop%d" % self.total)):
            self.stop()
        ready = []
        self.stranger(fds)
        for s in self.cx.w.sockets:
            if s.queue and any([s.queue[0] is f for f in self.foreign]) \
                    and s.fd in fds:
                ready.append(s.fd)
        own = [x for x in self.pipe() if x not in ready]
        for fd in own:
            cx.check(fd in fds, "cannot be stopped")
        for fd in fds:
            mine = [s for s in self.socks if s.fileno == fd]
            if mine and mine[0].socket.queue:
                # reported now or later
                if cx.bool("ready%d.%d" % (self.total, fd)):
                    ready.append(fd)
            elif fd in own:
                if self.polls > self.tricks or cx.bool("heed%d" % self.total):
                    ready.append(fd)
                    cx.reach("stopping")
            elif fd != 90 and fd not in ready \
                    and self.polls <= self.tricks and cx.bool("spurious%d.%d"
                                             % (self.total, fd)):
                ready.append(fd)
                cx.reach("spurious")
        if not ready:
            # something must be ready, or the call would not return
            left = [s.fileno for s in self.socks if s.socket.queue] + own
            cx.check(self.free or left, "waits for a thread that was not "
                     "told to stop")
            cx.assume(bool(left))
            ready.append(left[0])
        return ready

    def check(self, complete):
        """Everything heard so far, in order for each socket, once."""
        cx = self.cx
        for k, s in enumerate(self.socks):
            want = [(a, d) for i, a, d in self.sent if i == k]
            got = [(a, d) for t, a, d in self.ear.heard if t is s]
            left = len(s.socket.queue)
            cx.check(len(got) + left == len(want), "datagrams lost or "
                     "invented", got=len(got), left=left, want=len(want))
            for g, x in zip(got, want):
                cx.check(g[0] == x[0], "address of a datagram")
                cx.check(g[1] == x[1], "contents of a datagram")
            if complete:
                cx.check(not left, "datagrams left over")
        cx.check(all([any([t is s for s in self.socks])
                      for t, _, _ in self.ear.heard]), "another transport")


MUX = {"posix": PosixUdpMultiplexor, "generic": GenericUdpMultiplexor}


def listen(cx, kind, nsock, most, restart=False, strangers=0):
    """Whatever arrives is passed on, until told to stop."""
    size = 2
    mux, err = cx.observe(MUX[kind], size)
    cx.check(err is None, "no multiplexor")
    t = Traffic(cx, mux, size, most)
    t.strangers = strangers

    def add(k):
        s, err = cx.observe(SOCKETS[(4, 6)[k % 2]], "", 0)
        cx.check(err is None, "no socket", got=type(err).__name__)
        cx.check(not s.socket.blocking, "a socket that blocks")
        _, err = cx.observe(mux.register, s)
        cx.check(err is None, "cannot register", got=type(err).__name__)
        t.socks.append(s)
    for k in range(nsock):
        add(k)
    for turn in range(2 if restart else 1):
        if restart:
            t.tricks = 1
        if turn:
            add(nsock)
            t.stopped = t.polls = 0
            t.most += 1
        if cx.bool("before%d" % turn):
            # told to stop before it even starts
            t.stop()
        _, err = cx.observe(mux.listen, t.ear)
        cx.check(err is None, "the receiving thread dies",
                 got=type(err).__name__)
        cx.check(t.stopped == 1, "listening ends by itself")
        cx.check(not t.pipe(), "stopping has an effect later")
        t.check(False)
    cx.reach("done")
    _, err = cx.observe(mux.close)
    cx.check(err is None, "cannot close", got=type(err).__name__)
    cx.check(all([s.closed for s in cx.w.sockets]), "sockets left open")
    cx.check(cx.w.os_pipe is None or sorted(cx.w.os_closed) == [90, 91],
             "pipe left open")


class Sink:
    """A message processor and the handle it finds, one for each version."""

    def __init__(self, version, log, fail=None):
        self.VERSION, self.log, self.fail = version, log, fail

    def prepareDataElements(self, data):
        self.log.append((self.VERSION, data))
        if self.fail == "message":
            raise IncomingMessageError("no")
        if self.fail == "bug":
            raise KeyError("no")
        if self.fail == "assertion":
            raise AssertionError
        return data, self

    def prepareOutgoingMessage(self, pdu, handle, *args, **kw):
        if self.fail is not None:
            raise ValueError(self.fail)
        self.log.append((self.VERSION, pdu, handle, args, kw))
        return b"message"

    def push(self, message):
        self.log.append("push")
        if self.fail == "push":
            raise ValueError("no")
        if self.fail == "late":
            raise IncomingMessageError("no")


FAILS = [None, "message", "bug", "assertion", "push", "late"]
VERSIONS = [ProtocolVersion.SNMPv1, ProtocolVersion.SNMPv2c,
            ProtocolVersion.SNMPv3]


def hear(cx, form, n):
    """Messages reach the processor of their version, and nothing gets out."""
    d = Dispatcher(None)
    log = []
    enabled = []
    for k, v in enumerate(VERSIONS):
        if cx.bool("enabled%d" % k):
            enabled.append(v)
            d.addMessageProcessor(Sink(v, log, FAILS[
                cx.choice("fail%d" % k, len(FAILS))
                if k == 1 and form == "version" else 0]))
    version = None
    if form == "version":
        version = cx.int("version", -200, 1 << 33)
        data = wire.seq(wire.integer(version), cx.bytes("rest", n))
    else:
        data = cx.bytes("data", n)
    _, err = cx.observe(d.hear, None, ("192.0.2.1", 161), data)
    cx.check(err is None, "the receiving thread dies", got=type(err).__name__)
    calls = [e for e in log if e != "push"]
    cx.check(len(calls) <= 1, "given to several processors")
    if calls:
        cx.reach("passed on")
        cx.check(calls[0][1] == data, "another message")
    if form == "version":
        hit = [v for v in enabled if version == v.value]
        cx.check(len(hit) == len(calls), "not passed on, or without need",
                 version=version)
        if hit:
            cx.check(calls[0][0] is hit[0], "another version")
        else:
            cx.reach("dropped")
    cx.check(not d.lock.held, "lock is kept")


class Out(Transport):
    DOMAIN = TransportDomain.UDP_IPv4

    def __init__(self):
        self.sent = []

    def send(self, address, data):
        self.sent.append((address, data))


def send(cx):
    """Messages are made by the processor of their version, or not at all."""
    d = Dispatcher(None)
    log = []
    enabled = []
    fail = ("refused", None)[cx.choice("works", 2)]
    for k, v in enumerate(VERSIONS):
        if cx.bool("enabled%d" % k):
            enabled.append(v)
            d.addMessageProcessor(Sink(v, log, fail))
    version = VERSIONS[cx.choice("version", 3)]
    out = Out()
    here = ("192.0.2.9", 7)
    pdu, handle = GetRequestPDU("1.3.6"), object()
    _, err = cx.observe(d.sendPdu, TransportChannel(out, here, here), version,
                        pdu, handle, b"c", x=1)
    if version in enabled and fail is None:
        cx.reach("sent")
        cx.check(err is None, "not sent", got=type(err).__name__)
        cx.check(log == [(version, pdu, handle, (b"c",), {"x": 1})],
                 "made by another processor, or from something else")
        cx.check(out.sent == [(here, b"message")], "sent")
    else:
        cx.reach("refused")
        cx.check(isinstance(err, ValueError), "undocumented error",
                 got=type(err).__name__)
        cx.check(not out.sent, "sent although refused")
    cx.check(not d.lock.held, "lock is kept")


def threads(cx, kind, nsock, most, tricks=2):
    """There is one thread, and it listens to every transport there is."""
    w = cx.w
    mux = MUX[kind](64)
    d = Dispatcher(mux)
    t = Traffic(cx, mux, 64, most)
    t.free = False
    t.tricks = tricks
    log = []
    d.addMessageProcessor(Sink(VERSIONS[1], log))

    def datagram():
        t.n += 1
        k = cx.choice("to%d" % t.n, len(t.socks))
        data = wire.seq(wire.integer(1), cx.bytes("data%d" % t.n, 1))
        t.socks[k].socket.queue.append((data, ("192.0.2.7", 7)))
        t.sent.append(data)
    t.datagram = datagram

    def alive():
        return [x for x in w.threads if x.state == "started"]

    def on_join(thread):
        t.polls = 0
        _, err = cx.observe(thread.run)
        cx.check(err is None, "the receiving thread dies",
                 got=type(err).__name__)
        cx.check(not t.pipe(), "stopping has an effect later")
    w.on_join = on_join

    def whole(complete=False):
        heard = [e[1] for e in log if e != "push"]
        left = [x[0] for s in t.socks for x in s.socket.queue]
        cx.check(len(heard) + len(left) == len(t.sent), "datagrams lost or "
                 "repeated")
        for x in t.sent:
            cx.check(cx.any(*[x == y for y in heard + left]), "datagram "
                     "altered")
    for k in range(nsock):
        s = SOCKETS[(4, 6)[k % 2]]("", 0)
        _, err = cx.observe(d.connectTransport, s)
        cx.check(err is None, "cannot connect", got=type(err).__name__)
        t.socks.append(s)
        cx.check(len(alive()) == 1, "number of threads")
        whole()
    _, err = cx.observe(d.shutdown)
    cx.check(err is None, "cannot shut down", got=type(err).__name__)
    whole()
    cx.check(not alive(), "a thread is left over")
    cx.check(all([s.closed for s in w.sockets]), "sockets left open")
    cx.check(w.os_pipe is None or sorted(w.os_closed) == [90, 91],
             "pipe left open")
    cx.reach("done")


FM = ["PosixUdpMultiplexor.*", "GenericUdpMultiplexor.*", "UdpSocket.*"]
HARNESSES = collect(
    Harness(normalize, [dict(family=f, kind=k) for f in (4, 6)
                        for k in ("pair", "host")],
            reach=("accepted", "refused"), functions=["UdpSocket.normalize*"],
            bound="every port from -2^20 to 2^20, 17 hosts of every kind, "
                  "every usage"),
    Harness(listen, [dict(kind=k, nsock=n, most=m) for k in MUX
                     for n, m in ((1, 2), (2, 1))]
            + [dict(kind=k, nsock=1, most=m, restart=True)
               for k, m in (("posix", 0), ("generic", 0))]
            + [dict(kind="generic", nsock=1, most=1, strangers=1)],
            [dict(kind=k, nsock=n, most=m) for k in MUX
             for n, m in ((1, 3), (2, 2), (3, 1))],
            reach=("stopping", "spurious", "done", "stranger"), functions=FM,
            bound="up to 2 (3) sockets and 2 (3) datagrams of arbitrary "
                  "octets, reported in any order, with spurious wake-ups; a datagram "
                  "of anybody to the multiplexor's own socket"),
    Harness(threads, [dict(kind=k, nsock=n, most=m) for k in MUX
                      for n, m in ((1, 1), (2, 1))] + [dict(
                          kind="posix", nsock=3, most=1, tricks=1)],
            [dict(kind=k, nsock=2, most=2) for k in MUX],
            reach=("done", "spurious"), functions=FM + ["Dispatcher.*"],
            bound="up to 3 transports that are connected one after the other "
                  "and up to 1 (2) datagrams at any moment"),
    Harness(hear, [dict(form="version", n=n) for n in (0, 2)]
            + [dict(form="any", n=n) for n in (0, 1, 3, 6)],
            [dict(form="any", n=9), dict(form="version", n=5)],
            reach=("passed on", "dropped"), functions=["Dispatcher.hear"],
            bound="every version number below 2^33; 6 (9) arbitrary octets; "
                  "every way in which a message processor can fail"),
    Harness(send, [dict()], reach=("sent", "refused"),
            functions=["Dispatcher.sendPdu"],
            bound="every subset of versions enabled"),
)

"""The engine: managers as they are configured, and whole conversations."""

import gc

from snmp.engine import Engine, NoDefaultUser
from snmp.exception import SNMPException
from snmp.manager import Timeout
from snmp.message import ProtocolVersion
from snmp.pdu import *
from snmp.security import SecurityModel
from snmp.smi import *
from snmp.transport import TransportDomain

from sx.harness import Harness, collect
from . import wire
from .neth import DEFAULT, DOMAINS, VERSIONS
from .pduh import I31
from .usmh import Auth, Priv, key, mac, raw_int, world_log
from .v3h import LEVELS

HOST = {4: "192.0.2.1", 6: "2001:db8::1"}
LOCALS = {4: "127.0.0.1", 6: "::1"}


def calm(cx):
    cx.w.randint = lambda a, b: b // 2 + 1
    cx.w.clock = 1 << 20


class Wires:
    """What the engine's sockets sent."""

    def __init__(self, cx, engine):
        self.cx, self.engine = cx, engine
        self.seen = {}

    def new(self):
        """Messages since the last call: (socket, address, data)."""
        out = []
        for s in self.cx.w.sockets:
            n = self.seen.get(s.fd, 0)
            out += [(s, a, d) for d, a in s.sent[n:]]
            self.seen[s.fd] = len(s.sent)
        return out

    def hear(self, sock, peer, data):
        d = self.engine.dispatcher
        for t in d.multiplexor.sockets.values():
            if t.socket is sock:
                _, err = self.cx.observe(d.hear, t, peer, data)
                self.cx.check(err is None, "the receiving thread dies",
                              got=type(err).__name__)
                return
        self.cx.check(False, "sent from a socket nobody listens to")


def answer(version, community, rid, value):
    return wire.seq(
        wire.integer(version), wire.octets(community),
        wire.seq(wire.integer(rid), wire.integer(0), wire.integer(0),
                 wire.seq(wire.seq(wire.oid([1, 3, 6, 1, 0]),
                                   wire.integer(value))), tag=0xa2))


def ask(cx, eng, m, blocks, version, community, bound, peer, n=0):
    """One request of a manager, answered when it is waited for."""
    net = Wires(cx, eng)
    net.new()
    value = cx.int("value%d" % n, -128, 127)
    waits = []

    def on_wait(event, timeout):
        waits.append(1)
        sent = net.new()
        cx.check(len(sent) == 1, "number of messages sent")
        sock, address, data = sent[0]
        cx.check(sock.bound[:2] == bound or
                 bound[1] == 0 and sock.bound[0] == bound[0], "local address",
                 got=sock.bound)
        cx.check(address[0] == peer[0], "peer", got=address[0])
        cx.check(address[1] == peer[1], "port of the peer", got=address[1])
        v, c, pdu = wire.read_message(data, ["GetRequestPDU"])
        cx.check(v == version, "version sent", got=v)
        cx.check(c == community, "community sent")
        net.hear(sock, address, answer(v, c, pdu[1], value))
    cx.w.on_wait = on_wait
    got, err = cx.observe(m.get, "1.3.6.1.0")
    if not blocks:
        cx.check(not waits, "blocked")
        cx.check(err is None, "no handle", got=type(err).__name__)
        got, err = cx.observe(got.wait)
    cx.check(len(waits) == 1, "did not wait")
    cx.check(err is None, "no result", got=type(err).__name__)
    cx.check(isinstance(got, VarBindList) and len(got) == 1, "no result")
    cx.check(got[0].value.value == value, "value")


def check_closed(cx):
    w = cx.w
    cx.check(all([t.state == "joined" for t in w.threads]),
             "a thread is left over")
    cx.check(all([s.closed for s in w.sockets]), "sockets left open")
    cx.check(w.os_pipe is None or sorted(w.os_closed) == [90, 91],
             "pipe left open")


def versions(cx, default):
    """Version, community and autowait come from the call or the engine."""
    calm(cx)
    kw, mk = {}, {}
    if default is not None:
        kw["defaultVersion"] = VERSIONS[default]
    own = cx.bytes("own", 1)
    if cx.choice("owncommunity", 2):
        kw["defaultCommunity"] = own
    else:
        own = b""
    auto = True
    a = cx.choice("auto", 3)
    if a:
        auto = kw["autowait"] = a == 1
    eng, err = cx.observe(lambda: Engine(**kw))
    cx.check(err is None, "no engine", got=type(err).__name__)
    v = cx.choice("version", 8)
    # by enumeration, by number, not at all, unknown
    version = [ProtocolVersion.SNMPv1, ProtocolVersion.SNMPv2c, 0, 1, None, 2,
               -1, 4][v]
    used = VERSIONS[2 if default is None else default] if version is None \
        else version
    if version is not None or cx.choice("explicit", 2):
        mk["version"] = version
    if cx.choice("community", 2):
        own = mk["community"] = cx.bytes("mine", 1)
    a = cx.choice("autowait", 3)
    if a:
        auto = mk["autowait"] = a == 1
    if used == 3:
        mk.pop("community", None)
        _, err = cx.observe(lambda: eng.Manager(HOST[4], **mk))
        cx.check(isinstance(err, (NoDefaultUser, ValueError)),
                 "manager without a user", got=type(err).__name__)
        cx.reach("no user")
        return
    m, err = cx.observe(lambda: eng.Manager(HOST[4], **mk))
    if used not in (0, 1):
        cx.check(isinstance(err, ValueError), "unknown version",
                 got=type(err).__name__)
        cx.reach("refused")
        return
    cx.check(err is None, "no manager", got=type(err).__name__)
    ask(cx, eng, m, auto, int(used), own, ("0.0.0.0", 0), (HOST[4], 161))
    cx.reach("asked")
    _, err = cx.observe(eng.shutdown)
    cx.check(err is None, "cannot shut down", got=type(err).__name__)
    check_closed(cx)


def addresses(cx, default):
    """Managers talk to the given address from the given one."""
    calm(cx)
    kw = {} if default is None else {"defaultDomain": DOMAINS[default]}
    eng = Engine(ProtocolVersion.SNMPv2c, **kw)
    given = cx.choice("domain", 4)
    if given == 3:
        _, err = cx.observe(lambda: eng.Manager(HOST[4], domain="udp"))
        cx.check(isinstance(err, ValueError), "unknown domain",
                 got=type(err).__name__)
        return
    family = 4 if default is None else default
    mk = {}
    if given:
        family = (4, 6)[given - 1]
        mk["domain"] = DOMAINS[family]
    peer = HOST[(4, 6)[cx.choice("family", 2)]]
    port = 161
    arg = peer
    if cx.choice("port", 2):
        port = cx.int("peerport", -10, 70000)
        arg = (peer, port)
    local, lport = DEFAULT[family], 0
    k = cx.choice("local", 5)
    if k == 1:
        mk["localAddress"] = ""
    elif k == 2:
        mk["localAddress"] = local = LOCALS[family]
    elif k == 3:
        local, lport = LOCALS[family], 1234
        mk["localAddress"] = local, lport
    elif k == 4:
        lport = 1234
        mk["localAddress"] = "", lport
    m, err = cx.observe(lambda: eng.Manager(arg, **mk))
    ok = cx.all(peer == HOST[family], port >= 1, port <= 0xffff)
    if err is not None:
        cx.reach("refused")
        cx.check(isinstance(err, ValueError), "undocumented error",
                 got=type(err).__name__)
        cx.check(cx.not_(ok), "valid address refused")
        cx.check(not cx.w.sockets, "socket for a manager that is refused")
        return
    cx.check(ok, "invalid address accepted")
    cx.check(len(cx.w.sockets) == 1, "number of sockets")
    want = 2 if family == 4 else 10
    cx.check(int(cx.w.sockets[0].family) == want, "address family")
    cx.reach("accepted")
    ask(cx, eng, m, True, 1, b"", (local, lport), (peer, port))


def shared(cx, vs, swap, same, early=False):
    """Several managers at once: everyone gets the answers it asked for."""
    calm(cx)
    if same != "any":
        del cx.w.randint    # any identifiers, equal ones included
    eng = Engine()
    net = Wires(cx, eng)
    ms, handles = [], []

    def request(m):
        h, err = cx.observe(m.get, "1.3.6.1.0")
        cx.check(err is None, "request refused", got=type(err).__name__)
        handles.append(h)
    here = [("127.0.0.1", 0)] * 2
    if same == "any":
        here = [(("127.0.0.1", "127.0.0.2")[cx.choice("host%d" % k, 2)],
                 cx.int("port%d" % k, 0, 0xffff)) for k in range(2)]
        same = here[0][0] == here[1][0] and here[0][1] == here[1][1]
        cx.reach("one socket" if same else "two sockets")
    for k, v in enumerate(vs):
        m, err = cx.observe(lambda: eng.Manager(
            "192.0.2.%d" % (k + 1), VERSIONS[v], community=b"c",
            autowait=False, localAddress=here[k]))
        cx.check(err is None, "no manager", got=type(err).__name__)
        ms.append(m)
        if early:
            # this one asks before the next one exists
            request(m)
    cx.check(len(cx.w.sockets) == (1 if same else 2), "one socket for each "
             "local address", got=len(cx.w.sockets))
    cx.check(len([t for t in cx.w.threads if t.state == "started"]) == 1,
             "number of threads")
    if not early:
        for m in ms:
            request(m)
    sent = net.new()
    cx.check(len(sent) == 2, "number of messages")
    values = [cx.int("value%d" % k, -128, 127) for k in range(2)]
    sent.sort(key=lambda x: x[1])
    for k in ((1, 0) if swap else (0, 1)):
        sock, address, data = sent[k]
        v, c, pdu = wire.read_message(data, ["GetRequestPDU"])
        cx.check(v == vs[k], "version")
        net.hear(sock, address, answer(v, c, pdu[1], values[k]))
    cx.w.on_wait = None
    for k, h in enumerate(handles):
        got, err = cx.observe(h.wait)
        cx.check(err is None, "answer lost", got=type(err).__name__)
        cx.check(got[0].value.value == values[k], "answer of another manager")
    cx.reach("done")


def closing(cx, nman, fails):
    """Leaving the context gives everything back."""
    calm(cx)
    w = cx.w
    eng = Engine(ProtocolVersion.SNMPv2c)
    joined = []

    def on_join(thread):
        cx.check(bool(w.os_pipe), "waits for a thread that was not told to "
                 "stop")
        _, err = cx.observe(thread.run)
        cx.check(err is None, "the receiving thread dies")
        cx.check(not w.os_pipe, "stopping has an effect later")
    w.on_join = on_join
    w.poller = lambda fds, timeout: [90] if 90 in fds else cx.check(
        False, "cannot be stopped")
    try:
        with eng as e:
            cx.check(e is eng, "context")
            for k in range(nman):
                m, err = cx.observe(lambda: e.Manager(
                    "192.0.2.1", localAddress="127.0.0.%d" % (k + 1)))
                cx.check(err is None, "no manager")
            if fails:
                raise KeyError("x")
    except KeyError:
        cx.check(fails, "error out of nothing")
    else:
        cx.check(not fails, "error is swallowed")
    check_closed(cx)
    cx.check(w.os_pipe is not None, "the receiving thread has no pipe")
    cx.reach("done")


USERS = {"n": 0, "a": 1, "p": 2}


def add_users(eng, names, ns="", **kw):
    for n in names:
        x = {}
        if USERS[n] > 0:
            x.update(authProtocol=Auth, authSecret=n.encode() + b"s")
        if USERS[n] > 1:
            x.update(privProtocol=Priv, privSecret=n.encode() + b"p")
        x.update(kw.get(n, {}))
        eng.usm.addUser(n, namespace=ns, **x)


def read3(data):
    """(message ID, flags, engine, boots, time, user, signature bounds, salt,
    payload)"""
    mid, size, flags, sec, payload = wire.read_message3(
        data, ["GetRequestPDU"])
    return (mid, flags) + wire.read_usm(sec) + (payload,)


NAMES = ["mid", "flags", "engine", "boots", "time", "user", "sig", "salt",
         "payload"]


def message3(mid, flags, engine, boots, time, user, sig, salt, payload):
    params = wire.seq(wire.octets(engine), raw_int(boots), raw_int(time),
                      wire.octets(user), wire.octets(sig), wire.octets(salt))
    return wire.seq(wire.integer(3), wire.header3(mid, 1472, flags),
                    wire.octets(params), payload)


def signed(parts, k):
    """The fields of a message, with its authentication code."""
    parts = list(parts)
    if parts[1] & 1:
        parts[6] = bytes(4)
        parts[6] = mac(k, message3(*parts))
    return parts


def scoped(engine, rid, oid, value, tag=0xa2, vtag=2):
    return wire.seq(wire.octets(engine), wire.octets(b""), wire.seq(
        wire.integer(rid), wire.integer(0), wire.integer(0),
        wire.seq(wire.seq(wire.oid(oid), wire.integer(value, vtag))),
        tag=tag))


STATS = [1, 3, 6, 1, 6, 3, 15, 1, 1]


def v3defaults(cx, users, default):
    """User, level, namespace and engine come from the call or the engine."""
    calm(cx)
    log = world_log()
    log.ciphertext, log.salt = b"cipher", b"12345678"
    eng = Engine()
    space = ("", "x")[cx.choice("namespace", 2)]
    kw = {}
    if default and users:
        kw[users[-1]] = {"default": True, "defaultSecurityLevel":
                         LEVELS[0]}
    add_users(eng, users, space, **kw)
    mk = {}
    if space or cx.choice("spelt", 2):
        mk["namespace"] = space
    user = None if not users else users[-1] if default else users[0]
    level = None if not users else 0 if default else USERS[user]
    k = cx.choice("user", len(users) + 2)
    if k:
        user = mk["defaultUserName"] = (users + "z")[k - 1]
        level = None
        if user in users:
            level = 0 if default and user == users[-1] else USERS[user]
    k = cx.choice("level", 4)
    if k:
        level = k - 1
        mk["defaultSecurityLevel"] = LEVELS[level]
    if cx.choice("model", 2):
        mk["securityModel"] = (SecurityModel.USM, 3)[cx.choice("number", 2)]
    engine = None
    if cx.choice("engine", 2):
        engine = mk["engineID"] = b"E1"
    m, err = cx.observe(lambda: eng.Manager("192.0.2.1", autowait=False,
                                            **mk))
    if user is None:
        cx.check(isinstance(err, (NoDefaultUser, ValueError)),
                 "manager without a user", got=type(err).__name__)
        cx.reach("no user")
        return
    if level is None or user not in users:
        # an unknown user is noticed now, or when it is used
        cx.reach("unknown user")
        cx.check(err is None or isinstance(err, ValueError),
                 "undocumented error", got=type(err).__name__)
        return
    cx.check(err is None, "no manager", got=type(err).__name__)
    net = Wires(cx, eng)
    h, err = cx.observe(m.get, "1.3.6.1.0")
    able = USERS[user] >= level
    if engine is None:
        cx.check(err is None, "request refused", got=type(err).__name__)
        sent = net.new()
        cx.check(len(sent) == 1, "number of messages")
        sock, address, data = sent[0]
        mid, flags, eid, boots, time, name = read3(data)[:6]
        cx.check(eid == b"" and flags & 3 == 0, "no discovery")
        if not able:
            return
        net.hear(sock, address, message3(
            mid, 0, b"E1", 7, 8, b"", b"", b"", scoped(
                b"E1", 0, STATS + [4, 0], 1, 0xa8, 0x41)))
    elif not able:
        cx.reach("unable")
        cx.check(err is not None, "security level lowered")
        cx.check(isinstance(err, ValueError), "undocumented error")
        cx.check(not net.new(), "sent although refused")
        return
    else:
        cx.check(err is None, "request refused", got=type(err).__name__)
    sent = net.new()
    cx.check(len(sent) == 1, "number of messages")
    sock, address, data = sent[0]
    mid, flags, eid, boots, time, name = read3(data)[:6]
    cx.check(eid == b"E1", "engine", got=eid)
    cx.check(name == user.encode(), "user", got=name)
    cx.check(flags & 3 == (0, 1, 3)[level], "security level", got=flags)
    cx.reach("sent")
    # the engine belongs to this namespace now
    cx.check(not eng.usm.registerRemoteEngine(b"E1", "other"),
             "engine of another namespace")


class Agent:
    """An SNMPv3 agent as RFC 3412 and 3414 define it."""

    def __init__(self, cx, eng, boots, t0, drift=0):
        self.cx, self.net = cx, Wires(cx, eng)
        self.boots, self.t0, self.start = boots, t0, cx.w.clock
        self.drift = drift
        self.n = 0
        self.seen = []              # salts and boots that were used
        self.last = self.request = None
        self.values = []

    def time(self):
        return self.t0 + (self.cx.w.clock - self.start)

    def reply(self, data):
        """What it answers: (message, what kind)."""
        cx = self.cx
        self.n += 1
        cx.check(self.n < 8, "the conversation does not end")
        try:
            mid, flags, eid, boots, time, user, sig, salt, payload = \
                read3(data)
        except (wire.Bad, wire.Unspecified):
            cx.check(False, "malformed message sent", data=data)
        cx.check(flags & 4 != 0, "not reportable")
        flags = flags & 3
        now = self.time()
        if eid != b"E1":
            cx.check(flags == 0, "secured for an unknown engine")
            cx.check(len(eid) == 0, "invented engine ID")
            return self.make(None, mid, 0, b"E1", self.boots, now, user, b"",
                             b"", scoped(b"E1", 0, STATS + [4, 0], self.n,
                                         0xa8, 0x41)), "unknown"
        cx.check(user == self.user.encode(), "user", got=user)
        cx.check(flags == (0, 1, 3)[self.level], "security level", got=flags)
        k = None
        if flags & 1:
            k = key(cx, user + b"s", b"E1")
            a, b = sig
            sec = wire.read_message3(data, ["GetRequestPDU"])[3]
            base = self.position(data, sec)
            zeroed = data[:base + a] + bytes(4) + data[base + b:]
            cx.check(b - a == 4 and mac(k, zeroed) == sec[a:b],
                     "authentication code")
            fresh = cx.all(boots == self.boots, time - now <= 150,
                           now - time <= 150)
            if not fresh:
                return self.make(k, mid, 1, b"E1", self.boots, now, user, b"",
                                 b"", scoped(b"E1", 0, STATS + [2, 0], self.n,
                                             0xa8, 0x41)), "late"
        if flags & 2:
            call = [e for e in world_log() if e[0] == "encrypt"][-1]
            _, pk, plain, b, t = call
            cx.check(pk == key(cx, user + b"p", b"E1"), "privacy key")
            cx.check(cx.all(b == boots, t == time), "privacy time")
            cx.check(payload == world_log().ciphertext, "not encrypted")
            f = wire.Fields(plain).sequence()
            e, c = f.octets(), f.octets()
            payload = e, c, wire.read_pdu(f, ["GetRequestPDU"])
        e, c, pdu = payload
        cx.check(e == b"E1" and c == b"", "context")
        value = cx.int("value%d" % self.n, -128, 127)
        self.values.append(value)
        res = scoped(b"E1", pdu[1], [1, 3, 6, 1, 0], value)
        if flags & 2:
            world_log().data = res
            res = wire.octets(b"cipher text")
        return self.make(k, mid, flags, b"E1", self.boots, now, user, b"",
                         b"87654321" if flags & 2 else b"", res), "answer"

    def make(self, k, *parts):
        self.key, self.parts = k, signed(parts, k)
        return message3(*self.parts)

    def position(self, data, sec):
        """Where the security parameters are in the message."""
        f = wire.Fields(data).sequence()
        f.int()
        f.sequence()
        return f.expect(0, False, 4)[0]


def whole(cx, level, attack=None, given=False, reboot=None, second=None,
          busy=False):
    """A conversation with an agent: it works, whatever an attacker does."""
    calm(cx)
    w = cx.w
    log = world_log()
    log.ciphertext, log.salt = b"cipher", b"12345678"
    eng = Engine()
    add_users(eng, "nap")
    user = "nap"[level]
    kw = {"engineID": b"E1"} if given else {}
    m, err = cx.observe(lambda: eng.Manager(
        "192.0.2.1", defaultUserName=user, **kw))
    cx.check(err is None, "no manager", got=type(err).__name__)
    low = 0 if second is None else 1 << 24      # four octets
    agent = Agent(cx, eng, cx.int("boots", low, I31 - 2),
                  cx.int("time", low, 1 << 30))
    agent.user, agent.level = user, level
    kinds, others = [], []

    def more():
        """Other managers come and go meanwhile."""
        for k, kws in enumerate((dict(defaultUserName="p"),
                                 dict(engineID=b"E2"), dict(version=0),
                                 dict(version=1))):
            if "version" in kws:
                kws = dict(version=VERSIONS[kws["version"]])
            x, err = cx.observe(lambda: eng.Manager(
                "192.0.2.%d" % (k + 2), **kws))
            cx.check(err is None, "no other manager",
                     got=type(err).__name__)
            others.append(x)
        x = None
        if cx.choice("gone", 2):
            del others[:]
            gc.collect()
        cx.reach("busy")

    def disturb(sock, address, data):
        """Somebody sends altered or old messages."""
        if attack == "replay":
            if agent.last is not None:
                cx.reach("replayed")
                agent.net.hear(sock, address, agent.last)
            return
        mid, flags, e, b, t, u, sig, salt, payload = parts = list(
            agent.parts)
        k = NAMES.index(attack)
        if attack == "flags":
            parts[k] = cx.int("flags", 0, 255)
            cx.assume(parts[k] & 3 != flags)
        elif attack == "mid":
            parts[k] = cx.int("mid", 0, I31)
            cx.assume(parts[k] != mid)
        elif attack in ("boots", "time"):
            parts[k] = cx.int("altered", 0, I31)
            cx.assume(parts[k] != (b, t)[k - 3])
        else:
            parts[k] = cx.bytes(attack, len(parts[k]))
            cx.assume(parts[k] != agent.parts[k])
        forged = message3(*parts)
        if parts[6]:
            zero = list(parts)
            zero[6] = bytes(4)
            # nobody else can make authentication codes
            cx.assume(mac(agent.key, message3(*zero)) != parts[6])
        cx.reach("forged")
        agent.net.hear(sock, address, forged)

    def on_wait(event, timeout):
        cx.check(timeout is not None and timeout > 0, "busy waiting")
        sent = agent.net.new()
        cx.check(len(sent) == 1, "number of messages", got=len(sent))
        sock, address, data = sent[0]
        if busy and agent.n == 0:
            more()
        w.clock = w.clock + (
            cx.int("delay%d" % agent.n, 0, 1)
            if attack is None and second is None else 0)
        while True:
            res, kind = agent.reply(data)
            kinds.append(kind)
            if kind == "answer" and attack is not None:
                disturb(sock, address, res)
                if event.is_set():
                    cx.check(False, "an altered or old message is taken "
                             "for the answer")
                    return
                cx.check(not agent.net.new(), "an altered or old message "
                         "makes something be sent")
            agent.net.hear(sock, address, res)
            agent.last = res
            sent = agent.net.new()
            if not sent:
                break
            sock, address, data = sent[0]
        cx.check(event.is_set(), "answer is ignored", kinds=str(kinds))
    w.on_wait = on_wait

    def request():
        del kinds[:]
        got, err = cx.observe(m.get, "1.3.6.1.0")
        cx.check(err is None, "no result", got=type(err).__name__,
                 kinds=str(kinds))
        cx.check(len(got) == 1, "result")
        cx.check(got[0].value.value == agent.values[-1] if level or
                 attack is None else True, "value", got=got[0].value)
        return list(kinds)
    first = request()
    cx.reach("answered")
    if given:
        cx.check("unknown" not in first, "discovery of a known engine")
    cx.check(first[-1] == "answer" and len(first) <= 3, "detours",
             kinds=str(first))
    if second is None:
        return
    # later
    w.clock = w.clock + cx.int("later", 0, second)
    # clocks need not run at the same speed
    agent.t0 = agent.t0 + cx.int("skew", -150, 150)
    if reboot:
        agent.boots = agent.boots + 1
        agent.t0, agent.start = cx.int("newtime", low, 1 << 30), w.clock
    again = request()
    cx.check(again == (["late", "answer"] if reboot and level
                       else ["answer"]), "detours", kinds=str(again))
    cx.reach("again")


F = ["Engine.*"]
FW = F + ["SNMPv3UsmManager.*", "SNMPv3MessageProcessor.*",
          "UserBasedSecurityModule.*", "Dispatcher.*", "TimeKeeper.*",
          "UserRegistry.*", "UsmSecurityParameters.*", "SNMPv3Message.*"]
HARNESSES = collect(
    Harness(versions, [dict(default=d) for d in (None, 0, 1)],
            reach=("asked", "refused"), functions=F,
            bound="every combination of defaults and arguments, arbitrary "
                  "communities of one octet"),
    Harness(addresses, [dict(default=d) for d in (None, 4, 6)],
            reach=("accepted", "refused"), functions=F,
            bound="both domains, every port, local addresses of 5 kinds"),
    Harness(shared, [dict(vs=[a, b], swap=s, same=True)
                     for a, b in ((0, 1), (1, 1), (0, 0)) for s in (0, 1)]
            + [dict(vs=[a, b], swap=0, same=True, early=True)
               for a, b in ((0, 1), (1, 1), (0, 0))]
            + [dict(vs=[1, 1], swap=1, same="any"),
               dict(vs=[0, 0], swap=0, same="any", early=True)],
            [dict(vs=[a, b], swap=s, same="any")
             for a, b in ((0, 1), (0, 0)) for s in (0, 1)],
            reach=("done", "one socket", "two sockets"), functions=F + ["Dispatcher.*",
                                            "SNMPv*MessageProcessor.*"],
            bound="two managers with arbitrary identifiers, bound to one "
                  "of 2 hosts and any port each, answered in either order"),
    Harness(closing, [dict(nman=n, fails=f) for n in (0, 1, 2)
                      for f in (False, True)], reach=("done",),
            functions=F + ["Dispatcher.*", "PosixUdpMultiplexor.*"],
            bound="up to two transports"),
    Harness(v3defaults, [dict(users=u, default=d) for u, d in (
        ("", False), ("n", False), ("pn", False), ("np", True),
        ("ap", False))],
            reach=("no user", "unknown user", "unable", "sent"), functions=FW,
            bound="every combination of defaults and arguments"),
    Harness(whole, [dict(level=l, given=g) for l in (0, 1, 2)
                    for g in (False, True)]
            + [dict(level=l, second=1 << 20) for l in (0, 1, 2)]
            + [dict(level=l, second=1000, reboot=True) for l in (0, 1, 2)]
            + [dict(level=1, attack=a) for a in NAMES[:7]]
            + [dict(level=2, attack=a) for a in ("flags", "sig", "salt")]
            + [dict(level=1, attack="replay", second=10)]
            + [dict(level=l, given=g, busy=True)
               for l, g in ((0, False), (1, True), (2, False))],
            [dict(level=2, attack=a) for a in NAMES if a not in (
                "flags", "sig", "salt", "payload")]
            + [dict(level=2, second=1 << 33), dict(
                level=1, second=1 << 33, given=True)]
            + [dict(level=l, attack="replay", second=10) for l in (0, 2)],
            reach=("answered", "again", "forged", "replayed", "busy"),
            functions=FW,
            bound="an agent with arbitrary boots, time and values, that may "
                  "restart; any one field of its answer altered; arbitrary "
                  "delays"),
)

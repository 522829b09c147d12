"""The user-based security model."""

from snmp.exception import IncomingMessageError
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.pdu import *
from snmp.security import SecurityModel
from snmp.security.levels import *
from snmp.security.usm import AuthProtocol, PrivProtocol, \
    UserBasedSecurityModule
from snmp.security.usm.timekeeper import TimeKeeper
from snmp.smi import *

from sx.harness import Harness, collect
from . import wire
from .pduh import CLASSES, I31
from .v3h import LEVELS

MAX = I31


# -- time -------------------------------------------------------------------------


class Notion:
    """What RFC 3414 lets a manager believe about one engine's time."""

    def __init__(self):
        self.known = self.auth = False
        self.boots = self.base = 0

    def set(self, b, t, now):
        self.known = True
        self.boots, self.base = b, now - t

    def time(self, cx, now):
        t = int(now - self.base)
        return t if t <= MAX else MAX

    def hint(self, cx, b, t, now):
        if not self.auth:
            self.set(b, t, now)

    def verify(self, cx, b, t, now):
        if not self.auth:
            self.set(b, t, now)
            self.auth = True
        else:
            if b > self.boots or b == self.boots and t > self.time(cx, now):
                self.boots, self.base = b, now - t
        return cx.all(b == self.boots, self.boots < MAX,
                      self.time(cx, now) - t <= 150)

    def get(self, cx, now):
        if not self.known:
            return 0, 0
        return self.boots, self.time(cx, now)


def clock(cx, name, now):
    later = cx.real(name, 0, 1 << 33)
    cx.assume(later >= now)
    return later


def crowd(tk, now, n=300):
    """Messages of many other engines."""
    for i in range(n):
        e = b"crowd%d" % i
        tk.hint(e, i, 1, now)
        if i % 3:
            tk.updateAndVerify(e, i, 2, now)


def timekeeper(cx, ops):
    """Any history of hints and authentic messages against the reference."""
    tk = TimeKeeper()
    ref = {b"a": Notion(), b"b": Notion()}
    now = cx.real("start", 0, 1 << 33)
    for k, op in enumerate(ops):
        now = clock(cx, "now%d" % k, now)
        if op == "c":
            crowd(tk, now)
            continue
        engine = b"b" if op.isupper() else b"a"
        n = ref[engine]
        before = tk.getEngineTime(engine, now)
        want = n.get(cx, now)
        cx.check(cx.eq(before, want), "notion of time", k=k)
        b, t = cx.zint("b%d" % k, 0, MAX), cx.zint("t%d" % k, 0, MAX)
        if op in "hH":
            was = n.auth
            tk.hint(engine, b, t, now)
            n.hint(cx, b, t, now)
            if was:
                cx.check(cx.eq(tk.getEngineTime(engine, now), before),
                         "an unauthenticated message sets the clock", k=k)
        else:
            was = n.auth
            got = tk.updateAndVerify(engine, b, t, now)
            want = n.verify(cx, b, t, now)
            cx.check(want if got else cx.not_(want), "timeliness", k=k,
                     b=b, t=t)
            cx.reach("timely" if got else "late")
            cx.note(bool(got))
            if was:
                b2, t2 = tk.getEngineTime(engine, now)
                cx.check(cx.any(b2 > before[0], cx.all(
                    b2 == before[0], t2 >= before[1])), "time runs backwards",
                    k=k)
    now = clock(cx, "end", now)
    for engine, n in ref.items():
        cx.check(cx.eq(tk.getEngineTime(engine, now), n.get(cx, now)),
                 "notion of time at the end")


def replay(cx, ops, others=0):
    """A message that was once authentic and timely is refused later on."""
    tk = TimeKeeper()
    t0 = cx.real("start", 0, 1 << 33)
    b, t = cx.zint("b", 0, MAX), cx.zint("t", 0, MAX - 1000)
    for k, op in enumerate(ops):
        t0 = clock(cx, "now%d" % k, t0)
        x, y = cx.zint("b%d" % k, 0, MAX), cx.zint("t%d" % k, 0, MAX)
        if op == "h":
            tk.hint(b"a", x, y, t0)
        else:
            tk.updateAndVerify(b"a", x, y, t0)
    t0 = clock(cx, "first", t0)
    if not tk.updateAndVerify(b"a", b, t, t0):
        cx.reach("refused")
        return
    cx.reach("accepted")
    cx.check(b < MAX, "boots at their maximum")
    t1 = clock(cx, "again", t0)
    crowd(tk, t1, others)
    if cx.bool("hint"):
        tk.hint(b"a", cx.zint("hb", 0, MAX), cx.zint("ht", 0, MAX), t1)
    if cx.bool("newer"):
        tk.updateAndVerify(b"a", cx.zint("nb", 0, MAX), cx.zint("nt", 0, MAX),
                           t1)
    t1 = clock(cx, "again2", t1)
    got = tk.updateAndVerify(b"a", b, t, t1)
    cx.note(bool(got))
    if got:
        cx.check(t1 - t0 < 151, "replayed message accepted")


# -- messages ---------------------------------------------------------------------------


class Auth(AuthProtocol):
    """Ideal authentication: a function of key and data, four octets long."""
    N = 4

    def __init__(self, key):
        self.key = key

    @classmethod
    def computeKey(cls, secret):
        from sx import env
        return env.world().oracle("key", (secret,), 4)

    @classmethod
    def localizeKey(cls, key, engineID):
        from sx import env
        return env.world().oracle("localize", (key, engineID), 4)

    @property
    def msgAuthenticationParameters(self):
        return bytes(self.N)

    def sign(self, data):
        return mac(self.key, data)


def mac(key, data):
    from sx import env
    return env.world().oracle("mac", (key, data), 4)


class Priv(PrivProtocol):
    """Ideal privacy: records its arguments and returns prepared results."""
    log = None

    def __init__(self, key):
        self.key = key

    def decrypt(self, data, engineBoots, engineTime, salt):
        log = world_log()
        log.append(("decrypt", self.key, data, engineBoots, engineTime, salt))
        return log.plaintext()

    def encrypt(self, data, engineBoots, engineTime):
        log = world_log()
        log.append(("encrypt", self.key, data, engineBoots, engineTime))
        return log.ciphertext, log.salt


class Log(list):
    data = b""
    fail = False

    def plaintext(self):
        if self.fail:
            raise ValueError("cannot decrypt")
        return self.data


def world_log():
    from sx import env
    w = env.world()
    if not hasattr(w, "log"):
        w.log = Log()
    return w.log


def key(cx, secret, engine):
    k = cx.w.oracle("key", (secret,), 4)
    return cx.w.oracle("localize", (k, engine), 4)


USERS = {b"n": 0, b"a": 1, b"p": 2}


def module(engine=b"E1"):
    """Users n, a, p of the three levels, at engine E1."""
    usm = UserBasedSecurityModule()
    usm.addUser("n")
    usm.addUser("a", Auth, b"as")
    usm.addUser("p", Auth, b"ps", Priv, b"pp")
    usm.registerRemoteEngine(engine)
    return usm


def scoped_wire(rid=9, tag=0xa2, engine=b"E1", pad=0):
    return wire.seq(wire.octets(engine), wire.octets(bytes(pad)), wire.seq(
        wire.integer(rid), wire.integer(0), wire.integer(0), wire.seq(),
        tag=tag))


def long_seq(*parts):
    """A sequence with its length in the (legal) long form."""
    content = b"".join(parts)
    return b"\x30\x82" + len(content).to_bytes(2, "big") + content


def raw_int(v):
    """Four-octet form, whatever the value."""
    return b"\x02\x04" + v.to_bytes(4, "big", signed=True)


def compose(flags, engine, boots, time, user, sig, salt, payload, seq=wire.seq):
    """(message, position of the signature)"""
    params = seq(wire.octets(engine), raw_int(boots), raw_int(time),
                 wire.octets(user), wire.octets(sig), wire.octets(salt))
    sec = wire.octets(params)
    head = wire.header3(77, 1472, flags)
    data = seq(wire.integer(3), head, sec, payload)
    at = len(data) - len(payload) - len(wire.octets(salt)) - len(sig)
    return data, at


def signed_message(cx, flags, engine, boots, time, user, k, payload,
                   salt=b"12345678", seq=wire.seq):
    data, at = compose(flags, engine, boots, time, user, bytes(4), salt,
                       payload, seq)
    s = mac(k, data)
    return data[:at] + s + data[at + 4:]


def incoming(cx, level, user, nsig=4, seq=False, sync=False, tamper=None,
             salts=(8,), eng="E1", pad=0):
    """One message with arbitrary engine, times, signature, payload."""
    user, eng = user.encode(), eng.encode()
    seq = long_seq if seq else wire.seq
    usm = module(eng)
    log = world_log()
    now = cx.w.clock = cx.int("now", 0, 1 << 20)
    known = False
    if sync:
        # an authentic message came first
        known = True
        b0, s0 = cx.int("b0", 0, I31), cx.int("s0", 0, I31)
        m = SNMPv3Message.decode(signed_message(
            cx, 1, eng, b0, s0, b"a", key(cx, b"as", eng), scoped_wire()))
        _, err = cx.observe(usm.processIncoming, m)
        cx.check((err is None) if b0 < MAX else err is not None,
                 "first authentic message")
        later = cx.int("elapsed", 0, 1000)
        now = cx.w.clock = now + later
    engine = eng[:-1] + cx.bytes("engine", 1)
    boots, time = cx.int("boots", 0, I31), cx.int("time", 0, I31)
    sig = cx.bytes("sig", nsig)
    salt = cx.bytes("salt", salts[cx.choice("nsalt", len(salts))])
    plain = scoped_wire(pad=pad)
    log.data = plain
    log.fail = cx.bool("fail") if level == 2 else False
    blob = cx.bytes("blob", 3) + bytes(pad)
    payload = wire.octets(blob) if level == 2 else plain
    data, at = compose((0, 1, 3)[level], engine, boots, time, user, sig, salt,
                       payload, seq)
    if tamper is not None:
        # outside the fields: any octet of the payload
        i = len(data) - 1 - cx.choice("at", tamper)
        data = data[:i] + cx.bytes("x", 1) + data[i + 1:]
    message, err = cx.observe(SNMPv3Message.decode, data)
    if err is not None:
        cx.check(isinstance(err, IncomingMessageError), "undocumented error")
        return
    before = usm.timekeeper.getEngineTime(engine, now)
    _, err = cx.observe(usm.processIncoming, message)
    if level == 0:
        # not authenticated: only a hint
        cx.check(err is None, "plain message refused")
        cx.check(cx.all(message.securityName == user,
                        message.securityEngineID == engine), "identity")
        if known:
            cx.check(cx.any(engine != eng, cx.eq(
                usm.timekeeper.getEngineTime(engine, now), before)),
                "an unauthenticated message sets the clock")
        cx.reach("accepted")
        return
    # the reference
    k = None
    if user in USERS and USERS[user] >= level:
        k = key(cx, {b"a": b"as", b"p": b"ps"}[user], eng)
    if k is None or nsig != 4:
        authentic = False
    else:
        zeroed = data[:at] + bytes(4) + data[at + 4:]
        authentic = cx.all(engine == eng, mac(k, zeroed) == sig)
    if known:
        est = s0 + later
        est = cx.ite(est <= MAX, est, MAX)
        newer = cx.any(boots > b0, cx.all(boots == b0, time > est))
        timely = cx.all(boots < MAX, cx.any(newer, cx.all(
            boots == b0, est - time <= 150)))
    else:
        timely = boots < MAX
    good = cx.all(authentic, timely)
    cx.note(err is None)
    if err is None:
        cx.reach("accepted")
        cx.check(authentic, "message accepted although its authentication "
                 "code is wrong", user=user, engine=engine, sig=sig)
        cx.check(timely, "message accepted outside of the time window")
        cx.check(cx.all(message.securityName == user,
                        message.securityEngineID == engine), "identity")
        if level == 2:
            cx.check(not log.fail, "accepted without decryption")
            calls = [e for e in log if e[0] == "decrypt"]
            cx.check(len(calls) == 1, "not decrypted")
            _, pk, d, b, t, s = calls[0]
            cx.check(cx.all(pk == key(cx, b"pp", eng),
                            d == blob if tamper is None else True,
                            b == boots, t == time, s == salt),
                     "decrypted with other parameters")
            cx.check(message.scopedPDU.contextEngineID == b"E1",
                     "not the decrypted PDU")
    else:
        cx.reach("refused")
        cx.check(isinstance(err, IncomingMessageError), "undocumented error",
                 got=type(err).__name__)
        if level == 2:
            cx.check(cx.any(cx.not_(good), log.fail), "valid message refused",
                     got=type(err).__name__)
            cx.check(cx.any(authentic, not [e for e in log
                                            if e[0] == "decrypt"]),
                     "decrypted before it was authenticated")
            if not good:
                cx.check(message.scopedPDU is None, "payload of a refused "
                         "message")
        else:
            cx.check(cx.not_(good), "valid message refused",
                     got=type(err).__name__)
    after = usm.timekeeper.getEngineTime(engine, now)
    cx.check(cx.any(authentic, cx.eq(after, before)),
             "a refused message sets the clock")


def outgoing(cx, level, user, sync=True, name="GetRequestPDU", eng="E1",
             pad=0):
    """Messages are sent as the level demands, or not at all."""
    user, eng = user.encode(), eng.encode()
    usm = module(eng)
    context = b"ctx" + bytes(pad)
    log = world_log()
    now = cx.w.clock = cx.int("now", 0, 1 << 20)
    b0 = s0 = 0
    if sync:
        b0, s0 = cx.int("b0", 0, I31), cx.int("s0", 0, I31)
        m = SNMPv3Message.decode(signed_message(
            cx, 1, eng, b0, s0, b"a", key(cx, b"as", eng), scoped_wire()))
        cx.observe(usm.processIncoming, m)
        d = cx.int("elapsed", 0, 1000)
        s0 = cx.ite(s0 + d <= MAX, s0 + d, MAX)
        cx.w.clock = now + d
    log.ciphertext, log.salt = cx.bytes("cipher", 5) + bytes(pad), cx.bytes("salt", 8)
    engine = eng[:-1] + cx.bytes("engine", 1)
    rid = cx.int("rid", 1 << 24, I31)
    mid = cx.int("mid", 1 << 24, I31)
    pdu = CLASSES[name][0](requestID=rid)
    m = SNMPv3Message(
        HeaderData(mid, 1472, MessageFlags(LEVELS[level], True),
                   SecurityModel.USM),
        ScopedPDU(pdu, engine, context))
    data, err = cx.observe(usm.prepareOutgoing, m, engine, user)
    able = level == 0 or (user in USERS and USERS[user] >= level)
    here = True if level == 0 else engine == eng
    if err is not None:
        cx.reach("refused")
        cx.check(isinstance(err, ValueError), "undocumented error",
                 got=type(err).__name__)
        cx.check(cx.not_(here) if able else True, "cannot send",
                 got=type(err).__name__)
        return
    cx.reach("sent")
    cx.note(data)
    cx.check(able, "security level lowered or invented")
    cx.check(here, "sent to an engine that is not known")
    plain = wire.seq(wire.octets(engine), wire.octets(context), wire.seq(
        wire.integer(rid), wire.integer(0), wire.integer(0), wire.seq(),
        tag=CLASSES[name][1]))
    if level == 0:
        b0 = s0 = 0
    salt = log.salt if level == 2 else b""
    payload = wire.octets(log.ciphertext) if level == 2 else plain
    params = wire.usm(engine, b0, s0, user, bytes(4) if level else b"", salt)
    want = wire.seq(wire.integer(3), wire.header3(mid, 1472, (4, 5, 7)[level]),
                    wire.octets(params), payload)
    if level:
        at = len(want) - len(payload) - len(wire.octets(salt)) - 4
        k = key(cx, {b"a": b"as", b"p": b"ps"}[user], eng)
        want = want[:at] + mac(k, want) + want[at + 4:]
    cx.check(data == want, "message", data=data, want=want)
    calls = [e for e in log if e[0] == "encrypt"]
    if level == 2:
        cx.check(len(calls) == 1, "not encrypted")
        _, pk, d, b, t = calls[0]
        cx.check(cx.all(pk == key(cx, b"pp", eng), d == plain, b == b0,
                        t == s0), "encrypted with other parameters")
    else:
        cx.check(not calls, "encrypted")


LONG = "E" + "\0" * 30 + "1"
TK = ["vvv", "hvh", "hhv", "vhv", "vVv", "hVh", "vHV", "vcv"]

HARNESSES = collect(
    Harness(timekeeper, [dict(ops=o) for o in TK],
            [dict(ops=o) for o in ("vvvv", "vhvhv", "hhvvh", "vVvV",
                                   "vvhvv")],
            reach=("timely", "late"), functions=["TimeKeeper.*",
                                                 "EngineTime.*"],
            bound="histories of 3 (5) hints and authentic messages from two "
                  "engines with arbitrary boots, times and instants"),
    Harness(replay, [dict(ops=o) for o in ("", "v", "h", "vh")]
            + [dict(ops=o, others=300) for o in ("", "h")],
            [dict(ops=o) for o in ("vv", "hv", "vhv")],
            reach=("accepted", "refused"), functions=["TimeKeeper.*"],
            bound="a replayed message at any time, with up to 2 (3) arbitrary "
                  "events before and two in between, and messages of 300 "
                  "other engines"),
    Harness(incoming, [dict(level=0, user="n"), dict(level=0, user="a",
                                                      sync=True),
                       dict(level=1, user="a"),
                       dict(level=1, user="a", seq=True),
                       dict(level=1, user="a", sync=True),
                       dict(level=1, user="p"),
                       dict(level=1, user="n"),
                       dict(level=1, user="x"),
                       dict(level=1, user="a", nsig=3),
                       dict(level=1, user="a", nsig=0),
                       dict(level=1, user="a", nsig=5),
                       dict(level=2, user="p"),
                       dict(level=2, user="p", seq=True, salts=(0, 8)),
                       dict(level=2, user="p", sync=True),
                       dict(level=2, user="a"), dict(level=2, user="n"),
                       dict(level=1, user="a", tamper=12),
                       dict(level=2, user="p", tamper=4)]
            + [dict(level=l, user=u, eng=LONG, pad=n)
               for l, u in ((1, "a"), (2, "p")) for n in (0, 100, 65000)],
            reach=("accepted", "refused"),
            functions=["UserBasedSecurityModule.processIncoming",
                       "UsmSecurityParameters.*", "UserRegistry.*",
                       "TimeKeeper.*", "SNMPv3Message.*", "subbytes.*"],
            bound="one message with an arbitrary engine ID octet, times, "
                  "signature, salt and payload octet, before or after "
                  "synchronization; engine IDs of 2 and 32 octets, messages "
                  "of up to 65200"),
    Harness(outgoing, [dict(level=l, user=u) for l in (0, 1, 2)
                       for u in ("n", "a", "p")]
            + [dict(level=1, user="x"), dict(level=0, user=""),
               dict(level=2, user="p", sync=False)]
            + [dict(level=l, user=u, eng=LONG, pad=n)
               for l, u in ((0, "n"), (1, "a"), (2, "p"))
               for n in (0, 100, 65000)],
            reach=("sent", "refused"),
            functions=["UserBasedSecurityModule.prepareOutgoing",
                       "UsmSecurityParameters.*", "TimeKeeper.*"],
            bound="every engine time, an arbitrary engine ID octet, every "
                  "request and message ID of 4 octets; engine IDs of 2 and 32 "
                  "octets, messages of up to 65200"),
)

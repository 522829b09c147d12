"""Damaged datagrams on their way to an engine."""

from snmp.engine import Engine
from snmp.message import ProtocolVersion
from snmp.pdu import *
from snmp.smi import *

from sx.harness import Harness, collect
from . import wire
from .engh import Agent, Wires, add_users, answer, calm, message3, scoped
from .neth import VERSIONS
from .pduh import ALL, corrupt, shape_jobs, spans
from .usmh import world_log


def denotes(cx, got, err, pdu):
    """The outcome of a request against the response that settles it."""
    name, rid, status, index, binds = pdu
    if name != "ResponsePDU":
        cx.check(err is not None, "settled by another PDU")
        return
    if status != 0:
        cx.check(isinstance(err, ErrorResponse), "error is no error",
                 got=type(err).__name__)
        cx.check(err.status == status, "error status")
        return
    cx.check(err is None, "response is an error", got=type(err).__name__)
    cx.check(len(got) == len(binds), "number of variables")
    for v, (oid, (kind, val)) in zip(got, binds):
        cx.check(cx.eq(list(v.name), oid), "variable name")
        cx.check(type(v.value).__name__ == kind, "value type")
        if kind in ("OctetString", "Opaque", "IpAddress"):
            cx.check(v.value.data == val, "value")
        elif kind == "OID":
            cx.check(cx.eq(list(v.value), val), "value")
        elif val is not None:
            cx.check(v.value.value == val, "value")


def genuine(cx, got, err, value):
    cx.check(err is None, "the genuine response is lost",
             got=type(err).__name__)
    cx.check(isinstance(got, VarBindList) and len(got) == 1, "no result")
    cx.check(cx.all(got[0].name == OID(1, 3, 6, 1, 0),
                    type(got[0].value) is Integer,
                    got[0].value.value == value), "result")


def community(cx, version, width, lo, hi, mode):
    """A response that is damaged, and the response itself."""
    calm(cx)
    eng = Engine(VERSIONS[version])
    net = Wires(cx, eng)
    m, err = cx.observe(lambda: eng.Manager("192.0.2.1", community=b"pub",
                                            autowait=False))
    cx.check(err is None, "no manager", got=type(err).__name__)
    h, err = cx.observe(m.get, "1.3.6.1.0")
    cx.check(err is None, "no request", got=type(err).__name__)
    sent = net.new()
    cx.check(len(sent) == 1, "number of messages")
    sock, peer, data = sent[0]
    v, c, pdu = wire.read_message(data, ["GetRequestPDU"])
    value = cx.int("value", -128, 127)
    res = answer(v, c, pdu[1], value)
    bad = corrupt(cx, res, width, lo, hi, mode)
    net.hear(sock, peer, bad)
    waits = []

    def on_wait(event, timeout):
        waits.append(1)
        cx.check(len(waits) == 1, "does not end")
        net.hear(sock, peer, res)
    cx.w.on_wait = on_wait
    got, err = cx.observe(h.wait)
    cx.check(not net.new(), "something is sent")
    try:
        w, d, q = wire.read_message(bad, ["ResponsePDU"])
        same = cx.all(w == v, cx.eq(d, c), q[1] == pdu[1])
    except wire.Bad:
        same = False
    except wire.Unspecified:
        cx.reach("unspecified")
        return
    if same:
        cx.reach("taken")
        cx.check(not waits, "a well-formed response is ignored", data=bad)
        denotes(cx, got, err, q)
    else:
        cx.reach("refused")
        cx.check(len(waits) == 1, "a damaged response is taken", data=bad)
        genuine(cx, got, err, value)
    # the next request works, too
    h, err = cx.observe(m.get, "1.3.6.1.0")
    cx.check(err is None, "no further request", got=type(err).__name__)
    sock, peer, data = net.new()[0]
    v, c, pdu = wire.read_message(data, ["GetRequestPDU"])
    net.hear(sock, peer, answer(v, c, pdu[1], 5))
    cx.w.on_wait = None
    got, err = cx.observe(h.wait)
    genuine(cx, got, err, 5)


def secured(cx, level, width, lo, hi, mode):
    """The same for SNMPv3."""
    calm(cx)
    w = cx.w
    log = world_log()
    log.ciphertext, log.salt = b"cipher", b"12345678"
    eng = Engine()
    add_users(eng, "nap")
    m, err = cx.observe(lambda: eng.Manager(
        "192.0.2.1", defaultUserName="nap"[level], engineID=b"E1",
        autowait=False))
    cx.check(err is None, "no manager", got=type(err).__name__)
    agent = Agent(cx, eng, 3, 77)
    agent.user, agent.level = "nap"[level], level
    net = agent.net
    h, err = cx.observe(m.get, "1.3.6.1.0")
    cx.check(err is None, "no request", got=type(err).__name__)
    state = {}
    oracle = w.oracle

    def listen(tag, args, n):
        out = oracle(tag, args, n)
        if tag == "mac" and "bad" in state:
            # nobody else can make authentication codes
            bad, text = state["bad"], state["text"]
            if len(args[1]) == len(text):
                ok = args[1] == text
            else:
                ok = False
            cx.assume(cx.any(ok, cx.all(*[
                out != bad[i:i + n] for i in range(len(bad) - n + 1)])))
        return out
    w.oracle = listen

    def on_wait(event, timeout):
        cx.check("done" not in state, "the genuine response is lost")
        sent = net.new()
        cx.check(len(sent) == 1, "number of messages", got=len(sent))
        sock, address, data = sent[0]
        while True:
            res, kind = agent.reply(data)
            if kind == "answer":
                zero = list(agent.parts)
                zero[6] = bytes(len(zero[6]))
                bad = corrupt(cx, res, width, lo, hi, mode)
                if mode != "append":
                    cx.assume(bad != res if len(bad) == len(res) else True)
                state.update(bad=bad, text=message3(*zero), done=True)
                net.hear(sock, address, bad)
                del state["bad"]
                cx.check(not net.new(), "a damaged message makes something "
                         "be sent", data=bad)
                state["datum"] = bad
                if event.is_set():
                    state["taken"] = True
                    return
            net.hear(sock, address, res)
            sent = net.new()
            if not sent:
                return
            sock, address, data = sent[0]
    w.on_wait = on_wait
    got, err = cx.observe(h.wait)
    if "taken" not in state:
        cx.reach("refused")
        genuine(cx, got, err, agent.values[-1])
    else:
        cx.check(level == 0, "a damaged message is taken for the response",
                 data=state["datum"])
        cx.reach("taken")
        taken(cx, agent, got, err, state["datum"])


def taken(cx, agent, got, err, data):
    """What may settle a request without security."""
    mid, flags, e, b, t, user = agent.parts[:6]
    try:
        i, size, f, sec, (ce, cn, pdu) = wire.read_message3(
            data, ["ResponsePDU", "ReportPDU"])
        x = wire.read_usm(sec)
    except wire.Bad:
        cx.fail("a damaged message is taken for the response", data=data)
        return
    except wire.Unspecified:
        return
    cx.check(cx.all(i == mid, f & 3 == 0), "another message is taken",
             data=data)
    if pdu[0] == "ResponsePDU":
        cx.check(cx.all(cx.eq(x[0], e), cx.eq(x[3], user), cx.eq(ce, b"E1"),
                        cx.eq(cn, b"")), "another message is taken",
                 data=data)
        denotes(cx, got, err, pdu)
    else:
        cx.check(err is not None, "a report is a result")


TEMPLATE = answer(1, b"pub", (1 << 30) + 1, 0)


def sized(template):
    return [dict(width=w, lo=lo, hi=hi, mode=mode)
            for mode, w in (("replace", 1), ("cut", 0), ("append", 1),
                            ("insert", 1))
            for lo, hi in spans(template, mode)]


def template3(level):
    f = (0, 1, 3)[level]
    res = scoped(b"E1", (1 << 30) + 1, [1, 3, 6, 1, 0], 1)
    if level == 2:
        res = wire.octets(b"cipher text")
    return message3((1 << 30) + 1, f, b"E1", 3, 77, "nap"[level].encode(),
                    bytes(4) if level else b"", bytes(8) if level == 2
                    else b"", res)


W = ("taken", "refused")
HARNESSES = collect(
    Harness(community, [dict(j, version=v) for v in (0, 1)
                        for j in sized(TEMPLATE)]
            + shape_jobs(TEMPLATE, (1,), version=1),
            [dict(j, version=1, width=2) for j in sized(TEMPLATE)
             if j["mode"] in ("replace", "insert")]
            + shape_jobs(TEMPLATE, (2, 3), version=0),
            reach=W, functions=["Engine.*", "SNMPv1Manager.*",
                                "SNMPv2cManager.*", "Dispatcher.*",
                                "SNMPv*MessageProcessor.*", "Message.*"],
            bound="a response with one (thorough two) arbitrary octets "
                  "written over or inserted anywhere, cut or extended, or "
                  "with elements changed and lengths adapted"),
    Harness(secured, [dict(j, level=l) for l in (0, 1)
                      for j in sized(template3(l))],
            [dict(j, level=2) for j in sized(template3(2))]
            + [j for l in (0, 1)
               for j in shape_jobs(template3(l), (1,), level=l)],
            reach=W, functions=["Engine.*", "SNMPv3UsmManager.*",
                                "Dispatcher.*", "SNMPv3MessageProcessor.*",
                                "UserBasedSecurityModule.*",
                                "SNMPv3Message.*"],
            bound="an SNMPv3 response with one arbitrary octet written over "
                  "or inserted anywhere, cut or extended; authentic messages "
                  "are those the agent made"),
)

"""Users, namespaces and remote engines."""

from snmp.security.levels import *
from snmp.security.usm import (AuthProtocol, InvalidEngineID, InvalidUserName,
                               PrivProtocol, UserBasedSecurityModule)
from snmp.security.usm.credentials import Credentials
from snmp.security.usm.users import UserNameCollision, UserRegistry

from sx.harness import Harness, collect
from .usmh import Auth, Priv, key
from .v3h import LEVELS


class Auth2(Auth):
    pass


class Priv2(Priv):
    pass


def make(cx, k, protos):
    """Arguments that describe a user, and what they mean.

    (keyword arguments, level, comparable description)
    """
    level = cx.choice("level%d" % k, 3)
    a, p = Auth, Priv
    if protos and level:
        a = (Auth, Auth2)[cx.choice("auth%d" % k, 2)]
        if level == 2:
            p = (Priv, Priv2)[cx.choice("priv%d" % k, 2)]
    kw = {}
    auth = priv = None
    if level:
        kw["authProtocol"] = a
    if level == 2:
        kw["privProtocol"] = p
    how = cx.choice("secrets%d" % k, 3) if level else 0
    s = [cx.bytes("s%d.%d" % (k, i), 1) for i in range(2)]
    if how == 0:        # one secret for everything
        kw["secret"] = s[0]
        auth = priv = s[0]
    elif how == 1:      # one each
        kw["authSecret"], kw["privSecret"] = s
        auth, priv = s
    else:               # one specific, one general
        kw["authSecret"], kw["secret"] = s
        auth, priv = s
    return kw, level, (a if level else None, auth if level else None,
                       p if level == 2 else None,
                       priv if level == 2 else None)


def credentials(cx, ne):
    """Keys come from the right secrets."""
    kw, level, (a, auth, p, priv) = make(cx, 0, True)
    c, err = cx.observe(lambda: Credentials(**kw))
    cx.check(err is None, "refused", got=type(err).__name__)
    cx.check(c.maxSecurityLevel == LEVELS[level], "maximum level")
    engine = cx.bytes("engine", ne)
    check_localized(cx, c.localize(engine), engine, (a, auth, p, priv))
    cx.reach("done")


def check_localized(cx, loc, engine, want):
    a, auth, p, priv = want
    if a is None:
        cx.check(loc.auth is None and loc.priv is None, "no protocols")
        return
    cx.check(type(loc.auth) is a, "authentication protocol")
    cx.check(loc.auth.key == key(cx, auth, engine), "authentication key")
    if p is None:
        cx.check(loc.priv is None, "no privacy protocol")
        return
    cx.check(type(loc.priv) is p, "privacy protocol")
    cx.check(loc.priv.key == key(cx, priv, engine), "privacy key")


def equality(cx):
    """Credentials are equal exactly if their protocols and keys are."""
    kw, _, m = make(cx, 0, True)
    kw2, _, n = make(cx, 1, True)
    c, d = Credentials(**kw), Credentials(**kw2)

    def k(secret):
        return None if secret is None else cx.w.oracle("key", (secret,), 4)
    same = cx.all(m[0] is n[0], m[2] is n[2])
    for i in (1, 3):
        if m[i] is None or n[i] is None:
            same = cx.all(same, m[i] is n[i])
        else:
            same = cx.all(same, k(m[i]) == k(n[i]))
    got = c == d
    cx.check(cx.eq(bool(got), bool(same)), "equality")
    cx.note(bool(got))
    cx.reach("equal" if got else "different")
    cx.check(not c == 5, "equal to a number")


class Model:
    """What the documentation promises."""

    def __init__(self):
        self.spaces = {}        # namespace -> [default, {name: config}]
        self.engines = {}       # engine -> [namespace, count]

    def add(self, cx, name, desc, level, default, wanted, ns):
        """Whether the user can be added."""
        if wanted is not None and wanted > level:
            return False
        if ns not in self.spaces:
            self.spaces[ns] = [None, {}]
        space = self.spaces[ns]
        config = desc + (level if wanted is None else wanted,)
        if name in space[1]:
            if not same_config(cx, space[1][name], config):
                return False
            if default and space[0] != name:
                return False
        space[1][name] = config
        if default or space[0] is None:
            space[0] = name
        return True


def same_config(cx, a, b):
    for x, y in zip(a, b):
        if x is None or y is None:
            if x is not y:
                return False
        elif isinstance(x, bytes):
            if cx.w.oracle("key", (x,), 4) != cx.w.oracle("key", (y,), 4):
                return False
        elif x is not y and x != y:
            return False
    return True


SPACES = ("", "x")


def registry(cx, ops, levels=False, spaces=True):
    """Any sequence of user and engine operations against the reference.

    u: add a user, e: assign an engine, r: release an engine
    """
    reg = UserRegistry()
    model = Model()
    vague = set()       # only refused users: whether it exists is unspecified

    def space(k):
        return SPACES[cx.choice("ns%s" % k, 2)] if spaces else ""
    for k, op in enumerate(ops):
        ns = space(k)
        if op == "u":
            name = cx.bytes("name%d" % k, 1)
            if levels:
                level = cx.choice("level%d" % k, 3)
                wanted = (None, 0, 1, 2)[cx.choice("wanted%d" % k, 4)]
            else:
                level, wanted = 1, None
            default = cx.choice("default%d" % k, 2) == 1
            secret = cx.bytes("secret%d" % k, 1)
            desc = (Auth if level else None, secret if level else None,
                    Priv if level == 2 else None,
                    secret if level == 2 else None)
            can = model.add(cx, name, desc, level, default, wanted, ns)
            _, err = cx.observe(
                reg.addUser, name, desc[0], None, desc[2], None, secret,
                default, None if wanted is None else LEVELS[wanted], ns)
            if can:
                cx.check(err is None, "user refused", got=type(err).__name__)
            else:
                cx.reach("collision")
                vague.add(ns)
                cx.check(err is not None, "conflicting user accepted")
                cx.check(isinstance(err, ValueError), "undocumented error",
                         got=type(err).__name__)
        else:
            engine = b"E" + cx.bytes("engine%d" % k, 1)
            if op == "e":
                got, err = cx.observe(reg.assign, engine, ns)
                cx.check(err is None, "undocumented error",
                         got=type(err).__name__)
                if engine not in model.engines:
                    model.engines[engine] = [ns, 0]
                ok = model.engines[engine][0] == ns
                if ok:
                    model.engines[engine][1] += 1
                cx.check(got == ok, "assignment")
            else:
                # only those who were assigned an engine release it
                if engine not in model.engines \
                        or model.engines[engine][0] != ns:
                    cx.reach("skipped")
                    return
                model.engines[engine][1] -= 1
                got, err = cx.observe(reg.release, engine, ns)
                cx.check(err is None, "undocumented error",
                         got=type(err).__name__)
                if not model.engines[engine][1]:
                    del model.engines[engine]
    # the outcome, for names and engines that occurred and any other
    who = cx.bytes("who", 1)
    where = b"E" + cx.bytes("where", 1)
    ns = space("q")
    if ns in model.spaces:
        default, users = model.spaces[ns]
        cx.check(cx.eq(reg.getDefaultUser(ns), default), "default user")
        got, err = cx.observe(reg.getDefaultSecurityLevel, who, ns)
        if who in users:
            cx.check(err is None and got == LEVELS[users[who][4]],
                     "default level")
        else:
            cx.check(isinstance(err, InvalidUserName), "level of an unknown "
                     "user")
    elif ns not in vague:
        for f, args in ((reg.getDefaultUser, (ns,)),
                        (reg.getDefaultSecurityLevel, (who, ns))):
            _, err = cx.observe(f, *args)
            cx.check(isinstance(err, ValueError), "unknown namespace")
    got, err = cx.observe(reg.getCredentials, where, who)
    if where not in model.engines:
        cx.reach("unknown engine")
        cx.check(isinstance(err, InvalidEngineID), "unknown engine")
        return
    ns = model.engines[where][0]
    users = model.spaces.get(ns, [None, {}])[1]
    if who not in users:
        cx.reach("unknown user")
        cx.check(isinstance(err, InvalidUserName), "unknown user")
        return
    cx.reach("found")
    cx.check(err is None, "user not found", got=type(err).__name__)
    check_localized(cx, got, where, users[who][:4])


def usm(cx, n):
    """The same through the security module."""
    m = UserBasedSecurityModule()
    model = Model()
    names = ("a", "b")
    for k in range(n):
        name = names[cx.choice("name%d" % k, 2)]
        kw, level, desc = make(cx, k, False)
        default = cx.choice("default%d" % k, 2) == 1
        ns = SPACES[cx.choice("ns%d" % k, 2)] if k else ""
        wanted = (None, 0, 2)[cx.choice("wanted%d" % k, 3)] if k == 0 else None
        can = model.add(cx, name.encode(), desc, level, default, wanted, ns)
        if wanted is not None:
            kw["defaultSecurityLevel"] = LEVELS[wanted]
        _, err = cx.observe(lambda: m.addUser(name, default=default,
                                              namespace=ns, **kw))
        cx.check((err is None) == can, "user accepted or refused",
                 got=type(err).__name__)
        if not can:
            cx.reach("refused")
            cx.check(isinstance(err, ValueError), "undocumented error")
            return
    for ns, (default, users) in model.spaces.items():
        cx.check(m.getDefaultUser(ns) == default.decode(), "default user")
        for u, c in users.items():
            cx.check(m.getDefaultSecurityLevel(u.decode(), ns)
                     == LEVELS[c[4]], "default level")
    cx.check(m.registerRemoteEngine(b"E1", ""), "assignment")
    cx.check(not m.registerRemoteEngine(b"E1", "x"), "assigned twice")
    cx.check(m.registerRemoteEngine(b"E1", ""), "assignment")
    m.unregisterRemoteEngine(b"E1", "")
    cx.check(not m.registerRemoteEngine(b"E1", "x"), "released too early")
    m.unregisterRemoteEngine(b"E1", "")
    cx.check(m.registerRemoteEngine(b"E1", "x"), "not released")
    cx.reach("done")


def moved(cx, back):
    """An engine is taken over by a namespace with a user of that name."""
    reg = UserRegistry()
    engine = b"E" + cx.bytes("engine", 1)
    want = []
    for k, ns in enumerate(SPACES):
        kw, level, desc = make(cx, k, not back)
        want.append(desc)
        _, err = cx.observe(lambda: reg.addUser(b"u", namespace=ns, **kw))
        cx.check(err is None, "user refused", got=type(err).__name__)
        cx.check(cx.eq(reg.getDefaultSecurityLevel(b"u", ns), LEVELS[level]),
                 "default level")
    for ns in (0, 1, 0)[:2 + back]:
        got, err = cx.observe(reg.assign, engine, SPACES[ns])
        cx.check(err is None and got is True, "assignment")
        got, err = cx.observe(reg.getCredentials, engine, b"u")
        cx.check(err is None, "user not found", got=type(err).__name__)
        check_localized(cx, got, engine, want[ns])
        reg.release(engine, SPACES[ns])
        _, err = cx.observe(reg.getCredentials, engine, b"u")
        cx.check(isinstance(err, InvalidEngineID), "engine is still known")
    cx.reach("done")


F = ["UserRegistry.*", "NamespaceConfig.*", "RemoteEngine.*", "UserConfig.*",
     "Credentials.*"]
HARNESSES = collect(
    Harness(credentials, [dict(ne=5)], reach=("done",),
            functions=["Credentials.*", "LocalizedCredentials.*"],
            bound="every level, two protocols of each kind, secrets of one "
                  "arbitrary octet given in every way"),
    Harness(equality, [dict()], reach=("equal", "different"),
            functions=["Credentials.__eq__"],
            bound="every pair of the same"),
    Harness(registry, [dict(ops=o) for o in ("ue", "eu", "uue", "eeu", "uer",
                                             "eer")]
            + [dict(ops="uu", levels=True, spaces=False),
               dict(ops="ueu", levels=False, spaces=False),
               dict(ops="eeru", spaces=False), dict(ops="uere", spaces=False)],
            [dict(ops=o) for o in ("ueu", "ueer", "euer")]
            + [dict(ops="uuue", spaces=False), dict(ops="uerue", spaces=False),
               dict(ops="eerre", spaces=False)],
            reach=("collision", "found", "unknown user", "unknown engine"),
            functions=F,
            bound="sequences of 2-4 (5) operations on users, engines and two "
                  "namespaces, with arbitrary names, engine IDs and secrets"),
    Harness(moved, [dict(back=0), dict(back=1)], reach=("done",), functions=F,
            bound="two users of one name with all levels, two protocols of "
                  "each kind and secrets given in every way; an engine that "
                  "moves between their namespaces"),
    Harness(usm, [dict(n=1), dict(n=2)], reach=("refused", "done"),
            functions=["UserBasedSecurityModule.addUser"] + F,
            bound="one or two users of every kind"),
)

"""Authentication protocols: keys and codes."""

from snmp.security.usm.auth import *

from sx.harness import Harness, collect

# name -> class, digest, octets of the digest, octets of the code
# (RFC 3414 and RFC 7860)
PROTOCOLS = {
    "HmacMd5": (HmacMd5, "md5", 16, 12),
    "HmacSha": (HmacSha, "sha1", 20, 12),
    "HmacSha224": (HmacSha224, "sha224", 28, 16),
    "HmacSha256": (HmacSha256, "sha256", 32, 24),
    "HmacSha384": (HmacSha384, "sha384", 48, 32),
    "HmacSha512": (HmacSha512, "sha512", 64, 48),
}


def digest(cx, alg, size, *parts):
    return cx.w.oracle("hash-" + alg, (cx.concat(parts),), size)


def password(cx, name, n, pad=0):
    """A password becomes the digest of one megabyte of it."""
    cls, alg, size, _ = PROTOCOLS[name]
    secret = cx.concat([cx.bytes("secret", n), bytes(pad)]) if pad \
        else cx.bytes("secret", n)
    q, r = divmod(1 << 20, n + pad)
    want = digest(cx, alg, size, *([secret] * q + [secret[:r]]))
    got, err = cx.observe(cls.computeKey, secret)
    cx.check(err is None, "password refused", got=type(err).__name__)
    cx.check(got == want, "key")
    cx.reach("done")


def localized(cx, name, ne):
    """Keys are different for every engine, as the RFC defines."""
    cls, alg, size, _ = PROTOCOLS[name]
    key = cx.bytes("key", size)
    engine = cx.bytes("engine", ne)
    got = cls.localizeKey(key, engine)
    cx.check(got == digest(cx, alg, size, key, engine, key), "localized key")
    cx.reach("done")


def both_steps(cx, name):
    cls, alg, size, _ = PROTOCOLS[name]
    engine = cx.bytes("engine", 5)
    secret = bytes(64)
    key = digest(cx, alg, size, bytes(1 << 20))
    cx.check(cls.localize(secret, engine)
             == digest(cx, alg, size, key, engine, key), "localized key")
    cx.reach("done")


def code(cx, name, n):
    """The code is the HMAC of the data, cut to its length."""
    cls, alg, size, cut = PROTOCOLS[name]
    key = cx.bytes("key", size)
    a = cls(key)
    data = cx.bytes("data", n)
    full = cx.w.oracle("hmac-" + alg, (key, data), size)
    cx.check(a.msgAuthenticationParameters == bytes(cut), "placeholder")
    for k in range(2):      # repeatable
        got, err = cx.observe(a.sign, data)
        cx.check(err is None and len(got) == cut, "length of the code")
        cx.check(got == full[:cut], "code", k=k)
    other = cx.bytes("other", n)
    want = cx.w.oracle("hmac-" + alg, (key, other), size)[:cut]
    cx.check(a.sign(other) == want, "code depends on an earlier message")
    cx.note(got)
    cx.reach("done")


def message(cx, name, n):
    """A long message: the solver chooses its first and last octets."""
    if n <= 16:
        return cx.bytes(name, n)
    return cx.concat([cx.bytes(name + "a", 8), bytes(n - 16),
                      cx.bytes(name + "b", 8)])


def codes(cx, name, sizes):
    """One object signs messages of several lengths."""
    cls, alg, size, cut = PROTOCOLS[name]
    key = cx.bytes("key", size)
    a = cls(key)
    for k, n in enumerate(sizes):
        data = message(cx, "data%d" % k, n)
        got, err = cx.observe(a.sign, data)
        cx.check(err is None, "refused", k=k, got=type(err).__name__)
        full = cx.w.oracle("hmac-" + alg, (key, data), size)
        cx.check(len(got) == cut and got == full[:cut], "code", k=k, n=n)
    cx.note(got)
    cx.reach("done")


def mixed(cx, names, n=8, ne=5):
    """Several users, protocols and engines, one after the other."""
    pad = (1 << 17) - n
    secrets = [cx.concat([cx.bytes("secret%d" % k, n), bytes(pad)])
               for k in range(2)]
    engines = [cx.bytes("engine%d" % k, ne) for k in range(2)]
    data = cx.bytes("data", 6)
    q, r = divmod(1 << 20, n + pad)
    objects = []
    for s in secrets:
        for name in names:
            cls, alg, size, cut = PROTOCOLS[name]
            want = digest(cx, alg, size, *([s] * q + [s[:r]]))
            got, err = cx.observe(cls.computeKey, s)
            cx.check(err is None and len(got) == size and got == want, "key",
                     name=name, got=type(err).__name__)
            for e in engines:
                local, err = cx.observe(cls.localizeKey, got, e)
                full = digest(cx, alg, size, got, e, got)
                cx.check(err is None and len(local) == size
                         and local == full, "localized key", name=name,
                         got=type(err).__name__)
                objects.append((cls(local), alg, size, cut, local))
    for o, alg, size, cut, key in objects:
        got = o.sign(data)
        full = cx.w.oracle("hmac-" + alg, (key, data), size)
        cx.check(len(got) == cut and got == full[:cut], "code")
    cx.reach("done")


SIZES = ((1024, 10, 1024), (1472, 484, 1472, 63), (64, 65, 127, 128, 129),
         (65507, 100), (255, 256, 257, 0), (511, 512, 513),
         (1023, 1024, 1025), (2047, 2048, 4096), (100, 110, 120, 90, 484))

NAMES = sorted(PROTOCOLS)
HARNESSES = collect(
    Harness(password, [dict(name=n, n=k) for n, k in zip(
        NAMES, (8, 11, 10, 64, 13, 333))]
            + [dict(name=NAMES[i], n=9, pad=p) for i, p in enumerate(
                (1000, 65530, (1 << 19) - 9, (1 << 20) - 9, 1 << 20))],
            [dict(name=n, n=k) for n in NAMES for k in (3, 8, 12, 64, 333)]
            + [dict(name="HmacMd5", n=k) for k in (1, 2, 5, 4096)],
            reach=("done",), functions=["HmacAuthProtocol.computeKey"],
            bound="passwords of 3 to 333 arbitrary octets, and of up to 2^20 "
                  "+ 9 octets of which the first 9 are arbitrary"),
    Harness(localized, [dict(name=n, ne=e) for n in NAMES for e in (0, 5, 32)],
            reach=("done",), functions=["HmacAuthProtocol.localizeKey"],
            bound="every key, engine IDs of 0, 5, 32 arbitrary octets"),
    Harness(both_steps, [dict(name=n) for n in NAMES], reach=("done",),
            functions=["AuthProtocol.localize"],
            bound="one password, every engine ID of 5 octets"),
    Harness(mixed, [dict(names=[a, b]) for a, b in zip(
        NAMES, NAMES[1:] + NAMES[:1])], reach=("done",),
            functions=["HmacAuthProtocol.*"],
            bound="keys and codes of two passwords, of which 8 octets are "
                  "arbitrary, under two protocols for two engines"),
    Harness(code, [dict(name=n, n=k) for n in NAMES for k in (0, 7)],
            [dict(name=n, n=k) for n in NAMES for k in (64, 130)],
            reach=("done",),
            functions=["HmacAuthProtocol.sign",
                       "HmacAuthProtocol.msgAuthenticationParameters"],
            bound="every key, data of 0, 7 (130) arbitrary octets"),
    Harness(codes, [dict(name=n, sizes=SIZES[(i + j) % len(SIZES)])
                    for j in range(3) for i, n in enumerate(NAMES)],
            [dict(name=n, sizes=z) for n in NAMES for z in SIZES],
            reach=("done",), functions=["HmacAuthProtocol.sign"],
            bound="3 to 5 messages of 0 to 65507 octets signed by one object; "
                  "the first and last 8 octets of each are arbitrary"),
)

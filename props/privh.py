"""Privacy protocols, with both encryption libraries."""

from snmp.exception import IncomingMessageError
from snmp.security.usm.priv.openssl.aes import AesCfb128 as OpensslAes
from snmp.security.usm.priv.openssl.des import DesCbc as OpensslDes
from snmp.security.usm.priv.pycryptodome.aes import AesCfb128 as CryptoAes
from snmp.security.usm.priv.pycryptodome.des import DesCbc as CryptoDes

from sx.harness import Harness, collect
from .pduh import I31

AES = {"openssl": OpensslAes, "crypto": CryptoAes}
DES = {"openssl": OpensslDes, "crypto": CryptoDes}


def ideal(enc, name, key, iv, data):
    from sx import env
    return env.cipher_op(enc, name, {"AES": "cfb128", "DES": "cbc"}[name],
                         key, iv, data)


def construct(cls, key):
    return cls(key)


def keys(cx, lib, des, n):
    cls = (DES if des else AES)[lib]
    key = cx.bytes("key", n)
    p, err = cx.observe(construct, cls, key)
    if n < 16:
        cx.check(isinstance(err, ValueError), "short key accepted")
        cx.reach("refused")
    else:
        cx.check(err is None, "key refused", got=type(err).__name__)
        cx.reach("accepted")


def initialization(des, key, boots, time, salt):
    if des:
        return bytes([a ^ b for a, b in zip(key[8:16], salt)])
    return boots.to_bytes(4, "big") + time.to_bytes(4, "big") + salt


def encrypt(cx, lib, des, n, nkey=16, pad=0):
    """Cipher text, salt and round trip of one message."""
    cls = (DES if des else AES)[lib]
    name = "DES" if des else "AES"
    key = cx.bytes("key", nkey)
    p = cls(key)
    data = cx.bytes("data", n) + bytes(pad)
    n = n + pad
    boots, time = cx.int("boots", 0, I31), cx.int("time", 0, I31)
    (c, salt), err = cx.observe(p.encrypt, data, boots, time)
    cx.check(len(salt) == 8, "salt length")
    if des:
        cx.check(salt[:4] == boots.to_bytes(4, "big"), "DES salt")
    iv = initialization(des, key, boots, time, salt)
    k = key[:8] if des else key[:16]
    if des:
        cx.check(len(c) % 8 == 0 and n <= len(c) <= n + 8, "length")
    else:
        cx.check(len(c) == n, "length", got=len(c))
    plain = ideal(False, name, k, iv, c)
    cx.check(plain[:n] == data, "cipher text")
    # by whoever has the same key, including ourselves
    q = cls(key)
    for r in (p, q):
        got, err = cx.observe(r.decrypt, c, boots, time, salt)
        cx.check(err is None, "own message refused", got=type(err).__name__)
        cx.check(got[:n] == data, "round trip", got=got)
        if not des:
            cx.check(len(got) == n, "extra plain text")
    cx.note(salt, c)
    cx.reach("done")


def decrypt(cx, lib, des, n, nsalt=8, nkey=16):
    """Any cipher text with any salt."""
    cls = (DES if des else AES)[lib]
    name = "DES" if des else "AES"
    key = cx.bytes("key", nkey)
    p = cls(key)
    c = cx.bytes("cipher", n)
    salt = cx.bytes("salt", nsalt)
    boots, time = cx.int("boots", 0, I31), cx.int("time", 0, I31)
    got, err = cx.observe(p.decrypt, c, boots, time, salt)
    valid = nsalt == 8 and (not des or n % 8 == 0)
    if not valid:
        cx.reach("refused")
        cx.check(isinstance(err, (IncomingMessageError, ValueError)),
                 "malformed message accepted" if err is None
                 else "undocumented error", got=type(err).__name__)
        return
    cx.reach("decrypted")
    cx.check(err is None, "message refused", got=type(err).__name__)
    iv = initialization(des, key, boots, time, salt)
    plain = ideal(False, name, key[:8] if des else key[:16], iv, c)
    cx.check(got[:n] == plain, "plain text", got=got)
    if not des:
        cx.check(len(got) == n, "extra plain text")
    cx.note(got)


def salts(cx, lib, des, steps):
    """Successive messages never share an initialization vector."""
    cls = (DES if des else AES)[lib]
    key = cx.bytes("key", 16)
    random = []
    real = cx.w.urandom

    def urandom(n):
        r = real(n)
        random.append(r)
        return r
    cx.w.urandom = urandom
    p = cls(key)
    cx.check(len(random) > 0, "not started at random")
    mine = cx.concat(random)
    boots, time = cx.int("boots", 0, I31), cx.int("time", 0, I31)
    seen = []
    for k in range(steps):
        (c, salt), err = cx.observe(p.encrypt, b"x", boots, time)
        cx.check(len(salt) == 8, "salt length")
        for s in seen:
            cx.check(salt != s, "salt used twice")
        seen.append(salt)
    # a restart starts from a new random number
    random.clear()
    q = cls(key)
    cx.check(len(random) > 0, "not started at random")
    # the sequence has no shorter period that some starts fall into: different
    # salts are followed by different salts
    other = []
    for k in range(2):
        (c, salt), err = cx.observe(q.encrypt, b"x", boots, time)
        other.append(salt)
    cx.check(cx.any(cx.concat(random) == mine, seen[0] != other[0]),
             "two random numbers give the same first salt")
    for k in range(steps - 1):
        cx.check(cx.any(seen[k] == other[0], seen[k + 1] != other[1]),
                 "two salts have the same successor")
    cx.reach("done")


def series(cx, lib, des, sizes):
    """Messages of different lengths, one after the other: sent ("e") or
    received ("d"), or received with a length that is no good ("x")."""
    cls = (DES if des else AES)[lib]
    name = "DES" if des else "AES"
    key = cx.bytes("key", 16)
    p = cls(key)
    k = key[:8] if des else key[:16]
    boots, time = cx.int("boots", 0, I31), cx.int("time", 0, I31)
    for i, (op, n) in enumerate(sizes):
        data = cx.bytes("data%d" % i, 2) + bytes(n - 2)
        if op == "e":
            (c, salt), err = cx.observe(p.encrypt, data, boots, time)
            got = ideal(False, name, k,
                        initialization(des, key, boots, time, salt), c)
            cx.check(len(c) % 8 == 0 and n <= len(c) <= n + 8 if des
                     else len(c) == n, "length", got=len(c))
            cx.check(got[:n] == data, "cipher text")
            continue
        salt = cx.bytes("salt%d" % i, 8 if op == "d" else 7)
        got, err = cx.observe(p.decrypt, data, boots, time, salt)
        if op == "x":
            cx.check(isinstance(err, (IncomingMessageError, ValueError)),
                     "malformed message accepted")
            continue
        cx.check(err is None, "message refused", got=type(err).__name__)
        want = ideal(False, name, k,
                     initialization(des, key, boots, time, salt), data)
        cx.check(got[:n] == want, "plain text")
        cx.check(des or len(got) == n, "extra plain text", got=len(got))
    cx.reach("done")


LIBS = ("openssl", "crypto")
BOTH = [dict(lib=l, des=d) for l in LIBS for d in (False, True)]

SERIES = [[["e", 40], ["d", 16], ["e", 8]], [["d", 8], ["d", 1024], ["d", 16]],
          [["e", 8], ["x", 16], ["e", 24], ["d", 8]]]
MORE = [[["d", 1472], ["e", 9], ["d", 8], ["e", 1472], ["d", 1472]],
        [["x", 8], ["x", 8], ["d", 16], ["e", 15], ["e", 17]]]

HARNESSES = collect(
    Harness(keys, [dict(n=n, **b) for b in BOTH for n in (0, 8, 15, 16, 64)],
            reach=("accepted", "refused"), functions=["AesCfb128.__init__",
                                                      "DesCbc.__init__"],
            bound="keys of 0, 8, 15, 16, 64 arbitrary octets"),
    Harness(encrypt, [dict(n=n, **b) for b in BOTH
                      for n in (0, 1, 7, 8, 9, 16, 17)]
            + [dict(n=3, nkey=20, **b) for b in BOTH]
            + [dict(n=3, pad=k, **b) for b in BOTH for k in (253, 1470)],
            [dict(n=n, **b) for b in BOTH for n in range(35)],
            reach=("done",),
            functions=["AesCfb128.encrypt", "AesCfb128.packIV",
                       "AesCfb128.decrypt", "DesCbc.encrypt", "DesCbc.pad",
                       "DesCbc.computeIV", "DesCbc.decrypt",
                       "Envelope.process", "Envelope.allocateOutputBuffer"],
            bound="messages of 0-17 (34) arbitrary octets, and of 256 and 1473 "
                  "of which 3 arbitrary, every key, boots, "
                  "time and random salt"),
    Harness(series, [dict(sizes=z, **b) for b in BOTH for z in SERIES],
            [dict(sizes=z, **b) for b in BOTH for z in MORE],
            reach=("done",), functions=["AesCfb128.*", "DesCbc.*",
                                        "Envelope.*"],
            bound="series of 3 to 5 messages of 8 to 1472 octets of which 2 "
                  "arbitrary, and of malformed ones"),
    Harness(decrypt, [dict(n=n, **b) for b in BOTH for n in (0, 7, 8, 9, 16)]
            + [dict(n=8, nsalt=s, **b) for b in BOTH for s in (0, 7, 9)],
            [dict(n=n, nsalt=s, **b) for b in BOTH for n in range(34)
             for s in (7, 8)],
            reach=("refused", "decrypted"),
            functions=["AesCfb128.decrypt", "DesCbc.decrypt",
                       "Envelope.process"],
            bound="cipher texts of 0-16 (33) and salts of 0-9 arbitrary "
                  "octets"),
    Harness(salts, [dict(steps=3, **b) for b in BOTH],
            [dict(steps=6, **b) for b in BOTH], reach=("done",),
            functions=["AesCfb128.encrypt", "DesCbc.encrypt"],
            bound="3 (6) messages from every random start"),
)

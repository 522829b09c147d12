"""SMI scalar types: integers, octet strings, addresses, null."""

from snmp.ber import ParseError
from snmp.smi import *
from snmp.utils import subbytes

from sx.harness import Harness, collect
from . import wire

#        class       tag   lowest       highest
INTS = [
    (Integer32, 0x02, -(1 << 31), (1 << 31) - 1),
    (Unsigned32, 0x42, 0, (1 << 32) - 1),
    (Counter32, 0x41, 0, (1 << 32) - 1),
    (Gauge32, 0x42, 0, (1 << 32) - 1),
    (TimeTicks, 0x43, 0, (1 << 32) - 1),
    (Counter64, 0x46, 0, (1 << 64) - 1),
]

STRINGS = [(OctetString, 0x04), (Opaque, 0x44)]


def int_value(cx, t, bits):
    """Construction, encoding and decoding of every value."""
    cls, tag, lo, hi = INTS[t]
    v = cx.int("v", -(1 << bits), (1 << bits))
    obj, err = cx.observe(cls, v)
    legal = cx.all(lo <= v, v <= hi)
    if err is not None:
        cx.reach("refused")
        cx.check(type(err) is ValueError, "undocumented error",
                 got=type(err).__name__)
        cx.check(cx.not_(legal), "a legal value is refused", v=v)
        return
    cx.reach("legal")
    cx.check(legal, "an out-of-range value is accepted", v=v)
    cx.check(obj.value == v, "value", v=v)
    data = obj.encode()
    cx.note(data)
    cx.check(data == wire.integer(v, tag), "not the shortest two's "
             "complement encoding", v=v)
    back = cls.decode(data)
    cx.check(cx.all(type(back) is cls, back.value == v, back == obj),
             "value does not survive", v=v)
    rest = cx.bytes("rest", 2)
    back, tail = cls.decode(data + rest, leftovers=True, copy=False)
    cx.check(cx.all(back.value == v, tail[:] == rest),
             "value does not survive with data behind it", v=v)
    w = cx.int("w", lo, hi)
    other = cls(w)
    cx.check((obj == other) if v == w else cx.not_(obj == other),
             "equality", v=v, w=w)
    cx.check((obj != other) if v != w else cx.not_(obj != other),
             "inequality", v=v, w=w)


def int_wire(cx, t, n):
    """Decoding of arbitrary contents."""
    cls, tag, lo, hi = INTS[t]
    content = cx.bytes("content", n)
    data = wire.tlv(tag, content)
    if cx.bool("view"):
        data = subbytes(b"\x55" + data + b"\xaa", 1, 1 + len(data))
    obj, err = cx.observe(cls.decode, data)
    v = 0
    for b in content:
        v = v * 256 + b
    if n and content[0] >= 0x80:
        v = v - (1 << (8 * n))
    legal = cx.all(lo <= v, v <= hi)
    if err is not None:
        cx.reach("refused")
        cx.check(type(err) is ParseError, "undocumented error",
                 got=type(err).__name__)
        cx.check(cx.any(n == 0, cx.not_(legal)), "legal value refused", v=v)
        return
    cx.reach("decoded")
    cx.note(obj.value)
    cx.check(cx.all(legal, obj.value == v), "misread", v=v, got=obj.value)


def int_kinds(cx, bits):
    """Values of different types differ; encodings are not interchangeable."""
    a = cx.choice("a", len(INTS))
    b = cx.choice("b", len(INTS))
    v = cx.int("v", 0, (1 << bits) - 1)
    x, y = INTS[a][0](v), INTS[b][0](v)
    same = INTS[a][1] == INTS[b][1]
    cx.check((x == y) == same, "types are confused", a=a, b=b)
    z, err = cx.observe(INTS[b][0].decode, x.encode())
    cx.reach("same" if same else "different")
    cx.note(same)
    cx.check((err is None) == same, "decoded as another type", a=a, b=b)
    if err is not None:
        cx.check(type(err) is ParseError, "undocumented error")


def string_value(cx, t, lengths):
    cls, tag = STRINGS[t]
    n = cx.choice("n", lengths)
    b = cx.bytes("b", n) if n < 1000 else bytes(n)
    obj, err = cx.observe(cls, b)
    if err is not None:
        cx.reach("refused")
        cx.check(type(err) is ValueError and n > 65535 and t == 0,
                 "string refused", n=n)
        got, err = cx.observe(cls.decode, wire.tlv(tag, b))
        cx.check(type(err) is ParseError, "overlong string decoded")
        return
    cx.check(n <= 65535 or t != 0, "overlong string accepted", n=n)
    cx.check(obj.data == b, "content")
    data = obj.encode()
    if n < 1000:
        cx.note(data)
    cx.check(data == wire.octets(b, tag), "encoding", n=n)
    rest = cx.bytes("rest", 1)
    for copy in (True, False):
        got, tail = cls.decode(data + rest, leftovers=True, copy=copy)
        cx.check(cx.all(type(got) is cls, got.data == b, got == obj,
                        tail[:] == rest), "content does not survive", n=n)
    if 0 < n < 1000:
        cx.reach("compared")
        c = cx.bytes("c", n)
        cx.check((cls(c) == obj) if c == b else cx.not_(cls(c) == obj),
                 "equality")
    cx.check(cx.not_(obj == cls(b + b"\x00")) if n < 65535 else True,
             "equality with a longer string")


def ip_value(cx, top):
    q = [cx.int("q%d" % i, 0, 255 if i != cx_wide(top) else top)
         for i in range(4)]
    text = "%d.%d.%d.%d" % tuple(q)
    obj, err = cx.observe(IpAddress, text)
    legal = cx.all(*[x <= 255 for x in q])
    if err is not None:
        cx.reach("refused")
        cx.check(type(err) is ValueError, "undocumented error")
        cx.check(cx.not_(legal), "legal address refused", text=text)
        return
    cx.reach("legal")
    cx.check(legal, "address out of range accepted")
    cx.note(text)
    cx.check(obj.encode() == wire.octets(bytes(q), 0x40), "encoding",
             text=text)
    cx.check(cx.eq(list(obj.data), q), "octets", text=text)
    back = IpAddress.decode(obj.encode())
    cx.check(cx.all(back == obj, back.data == bytes(q)), "does not survive")
    parts = back.addr.split(".")
    cx.check(len(parts) == 4 and cx.eq([int(p) for p in parts], q),
             "dotted form", text=text)


def cx_wide(top):
    return 1 if top > 255 else -1


def ip_wire(cx, n):
    content = cx.bytes("content", n)
    data = wire.octets(content, 0x40)
    if cx.bool("view"):
        data = subbytes(data)
    obj, err = cx.observe(IpAddress.decode, data)
    if n != 4:
        cx.reach("refused")
        cx.check(type(err) is ParseError, "address of %d octets" % n)
        return
    cx.reach("decoded")
    cx.check(err is None, "address refused")
    cx.note(obj.data)
    parts = obj.addr.split(".")
    cx.check(len(parts) == 4 and cx.eq([int(p) for p in parts],
                                       list(content)), "address misread")
    cx.check(obj.encode() == wire.octets(content, 0x40), "does not survive")


def null_value(cx):
    cx.check(Null().encode() == b"\x05\x00", "null encoding")
    cx.check(Null.decode(b"\x05\x00") == Null(), "null does not survive")
    t = cx.int("t", 0, 255)
    got, err = cx.observe(Null.decode, bytes([t, 0]))
    if err is None:
        cx.reach("decoded")
        cx.check(t == 5, "another type decoded as null", t=t)
    else:
        cx.reach("refused")
        cx.check(cx.all(type(err) is ParseError, t != 5), "null refused")
    cx.note(err is None)


HARNESSES = collect(
    Harness(int_value, [dict(t=t, bits=66) for t in range(6)],
            [dict(t=t, bits=200) for t in range(6)],
            reach=("refused", "legal"),
            functions=["BoundedInteger.__init__/inRange/construct",
                       "INTEGER.bitCount/serialize/deserialize/__eq__",
                       "ASN1.encode/decode", "ber.*"],
            bound="every integer of -2^66..2^66 (2^200 thorough), all six "
                  "types"),
    Harness(int_wire,
            [dict(t=t, n=n) for t in (0, 1, 5)
             for n in (0, 1, 4, 5, 8, 9, 10, 13)],
            [dict(t=t, n=n) for t in range(6) for n in (2, 3, 6, 7, 10, 17)],
            reach=("refused", "decoded"),
            functions=["INTEGER.deserialize", "BoundedInteger.construct"],
            bound="arbitrary contents of 0-10, 13, 17 octets"),
    Harness(int_kinds, [dict(bits=31)], reach=("same", "different"),
            functions=["INTEGER.__eq__", "ASN1.decode"],
            bound="all pairs of types, values < 2^31"),
    Harness(string_value,
            [dict(t=t, lengths=[0, 1, 2, 3, 17, 127, 128, 256])
             for t in range(2)] + [dict(t=0, lengths=[65535, 65536])],
            [dict(t=t, lengths=list(range(4, 300, 7))) for t in range(2)],
            reach=("refused", "compared"),
            functions=["OctetString.*", "OCTET_STRING.*", "Opaque.*"],
            bound="arbitrary strings of 0-3, 17, 127, 128, 256 octets; zero "
                  "strings of 65535 and 65536"),
    Harness(ip_value, [dict(top=255), dict(top=999)],
            reach=("refused", "legal"),
            functions=["IpAddress.__init__/construct/serialize"],
            bound="four decimal numbers, one of them up to 999"),
    Harness(ip_wire, [dict(n=n) for n in (0, 3, 4, 5, 8)],
            reach=("refused", "decoded"),
            functions=["IpAddress.construct"],
            bound="arbitrary contents of 0, 3, 4, 5, 8 octets"),
    Harness(null_value, [dict()], reach=("decoded", "refused"),
            functions=["NULL.*"], bound="every tag octet"),
)

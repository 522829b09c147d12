"""BER framing."""

from snmp import ber
from snmp.ber import Tag, ParseError
from snmp.utils import subbytes

from sx.harness import Harness, collect
from . import wire

LENGTHS = list(range(0, 18)) + [126, 127, 128, 129, 255, 256, 257]


def ref_tag(cls, con, num):
    first = cls * 64 + (32 if con else 0)
    if num < 31:
        return bytes([first + num])
    out = [num & 0x7f]
    num = num >> 7
    while num:
        out.append(0x80 | (num & 0x7f))
        num = num >> 7
    return bytes([first + 31] + out[::-1])


def roundtrip(cx, lengths, bits, tail):
    cls = cx.choice("cls", 4)
    con = cx.bool("con")
    num = cx.int("num", 0, (1 << bits) - 1)
    n = cx.choice("len", lengths)
    body = cx.bytes("body", n) if n <= 260 else bytes(n)
    rest = cx.bytes("rest", cx.choice("restlen", tail + 1))
    tag = Tag(num, con, Tag.Class(cls))
    wire_ = ber.encode(tag, body)
    cx.note(wire_ if n <= 260 else wire_[:10])
    cx.check(wire_ == ref_tag(cls, con, num) + wire.length_octets(n) + body,
             "encode is not the definite-length form", n=n)

    data = wire_ + rest
    got, body2, tail2 = ber.decode(data, leftovers=True)
    cx.check(cx.all(got == tag, got.number == num, got.constructed == con,
                    got.cls == cls), "tag does not survive")
    cx.check(body2 == body, "body does not survive")
    cx.check(tail2[:] == rest, "leftover bytes do not survive")

    v, err = cx.observe(ber.decode, data)
    if len(rest) == 0:
        cx.reach("exact")
        cx.check(err is None and v[1] == body and v[0] == tag,
                 "complete decode")
    else:
        cx.reach("trailing")
        cx.check(type(err) is ParseError, "trailing bytes accepted")

    # a wrong tag is refused, the right one is not
    onum = cx.int("onum", 0, (1 << bits) - 1)
    other = Tag(onum, cx.bool("ocon"), Tag.Class(cx.choice("ocls", 2) + 1))
    same = cx.all(other.number == num, other.constructed == con,
                  other.cls == cls)
    v, err = cx.observe(ber.decode, data, other, leftovers=True, copy=False)
    if err is None:
        cx.reach("expected")
        cx.check(same, "wrong tag accepted")
        cx.check(v[0][:] == body and v[1][:] == rest, "expected decode")
        cx.check(v[0].data == data, "a view no longer refers to its message")
    else:
        cx.check(type(err) is ParseError, "undocumented error")
        cx.check(cx.not_(same), "right tag refused")


def arbitrary(cx, n, pre, post):
    """Any n octets, in a window inside a larger buffer."""
    data = cx.bytes("data", n)
    before = cx.bytes("before", pre)
    after = cx.bytes("after", post)
    window = subbytes(before + data + after, pre, pre + n)
    v, err = cx.observe(ber.decode, window, leftovers=True)
    c, cerr = cx.observe(ber.decode, data, leftovers=True)
    try:
        (cls, con, num), i, j = wire.read(data)
    except wire.Bad:
        cx.reach("rejected")
        cx.note("rejected")
        cx.check(type(err) is ParseError, "malformed input",
                 got=type(err).__name__)
        cx.check(type(cerr) is ParseError, "malformed input (copied)")
        return
    except wire.Unspecified:
        # the indefinite form (length octet 0x80) is outside SNMP
        cx.check(err is None or type(err) is ParseError, "undocumented error")
        cx.check((err is None) == (cerr is None),
                 "a window decodes differently from a copy")
        return
    cx.check(err is None and cerr is None, "well-formed input refused")
    cx.reach("accepted")
    tag, body, tail = v
    cx.note(tag.number, body, tail[:])
    cx.check(cx.all(tag.cls == cls, tag.constructed == con,
                    tag.number == num), "tag misread")
    cx.check(body == data[i:j], "body misread")
    cx.check(tail[:] == data[j:], "leftovers misread")
    cx.check(cx.all(c[0] == tag, c[1] == body, c[2][:] == tail[:]),
             "a window decodes differently from a copy")
    cx.check(0 <= pre + j == tail.start <= tail.stop == pre + n,
             "leftovers leave the window")


def long_length(cx, octets, k, tail):
    """A length field of that many octets, arbitrary ones."""
    n = cx.bytes("n", octets)
    data = b"\x04" + bytes([0x80 | octets]) + n + cx.bytes("body", k)
    check_read(cx, data, tail)


def long_tag(cx, octets):
    data = b"\x7f" + cx.bytes("tag", octets) + b"\x01"
    check_read(cx, data, 0)


def check_read(cx, data, tail):
    v, err = cx.observe(ber.decode, data, leftovers=True)
    w, err2 = cx.observe(ber.decode, data)
    try:
        (cls, con, num), i, j = wire.read(data)
    except wire.Bad:
        cx.reach("rejected")
        cx.check(type(err) is ParseError and type(err2) is ParseError,
                 "an incomplete value accepted", data=data)
        return
    except wire.Unspecified:
        return
    cx.check(err is None, "well-formed input refused", data=data)
    cx.reach("accepted")
    tag, body, rest = v
    cx.note(tag.number)
    cx.check(cx.all(tag.cls == cls, tag.constructed == con,
                    tag.number == num), "tag misread", data=data)
    cx.check(body == data[i:j], "body misread", data=data)
    cx.check(rest[:] == data[j:], "leftovers misread", data=data)
    if len(rest):
        cx.check(type(err2) is ParseError, "trailing bytes accepted")
    else:
        cx.check(err2 is None and w[1] == body, "complete decode")


HARNESSES = collect(
    Harness(
        long_length,
        [dict(octets=n, k=k, tail=0) for n in range(1, 17) for k in (0, 3)],
        [dict(octets=n, k=5, tail=0) for n in list(range(17, 40)) + [126]],
        reach=("rejected", "accepted"),
        functions=["ber.decode", "decode_length"],
        bound="length fields of 1-16 (thorough 126) arbitrary octets before "
              "0 or 3 (5) octets of contents"),
    Harness(
        long_tag, [dict(octets=n) for n in (1, 2, 4, 6)],
        [dict(octets=n) for n in (8, 12)],
        reach=("rejected", "accepted"), functions=["ber.decode", "Tag.decode"],
        bound="tags of up to 6 (thorough 12) arbitrary octets"),
    Harness(
        roundtrip,
        [dict(lengths=[0, 1, 127, 128], bits=8, tail=1),
         dict(lengths=LENGTHS, bits=4, tail=0),
         dict(lengths=[0, 1], bits=31, tail=2),
         dict(lengths=[65535, 65536], bits=7, tail=1)],
        [dict(lengths=list(range(0, 300)), bits=14, tail=1),
         dict(lengths=[0, 1, 130], bits=70, tail=3),
         dict(lengths=[16777215, 16777216], bits=5, tail=0)],
        reach=("exact", "trailing", "expected"),
        functions=["ber.encode", "ber.decode", "Tag.encode", "Tag.decode",
                   "Tag.__eq__", "encode_length", "decode_length",
                   "subbytes.*"],
        bound="all four classes, tag numbers < 2^31, contents of 0-17, "
              "126-129, 255-257 arbitrary octets (65535/65536 zero octets), "
              "0-2 arbitrary trailing octets"),
    Harness(
        arbitrary,
        [dict(n=n, pre=1, post=2) for n in range(0, 6)],
        [dict(n=n, pre=0, post=3) for n in range(6, 9)],
        reach=("rejected", "accepted"),
        functions=["ber.decode", "Tag.decode", "decode_length",
                   "subbytes.*"],
        bound="every octet string of up to 5 octets (8 thorough) in a window "
              "with arbitrary surroundings"),
)

"""An independent BER reference, written from X.690 and RFC 3416/3412.

Works on concrete and on symbolic values alike.
"""


def length_octets(n):
    if n < 0x80:
        return bytes([n])
    out = []
    while n:
        out.append(n & 0xff)
        n >>= 8
    return bytes([0x80 | len(out)] + out[::-1])


def tlv(tag, content):
    return bytes([tag]) + length_octets(len(content)) + content


def int_content(v, size):
    """v in exactly `size` octets of two's complement."""
    return v.to_bytes(size, "big", signed=True)


def min_size(v):
    """Octets of the shortest two's complement form."""
    n = 1
    while not (-(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))):
        n += 1
    return n


def integer(v, tag=0x02):
    return tlv(tag, int_content(v, min_size(v)))


def octets(b, tag=0x04):
    return tlv(tag, b)


def null(tag=0x05):
    return tlv(tag, b"")


def subid(v):
    out = [v & 0x7f]
    v = v >> 7
    while v:
        out.append(0x80 | (v & 0x7f))
        v = v >> 7
    return bytes(out[::-1])


def oid_content(ids):
    ids = list(ids) + [0] * (2 - len(ids))
    out = subid(ids[0] * 40 + ids[1])
    for i in ids[2:]:
        out = out + subid(i)
    return out


def oid(ids):
    return tlv(0x06, oid_content(ids))


def seq(*parts, tag=0x30):
    content = b""
    for p in parts:
        content = content + p
    return tlv(tag, content)


class Bad(Exception):
    """The reference decoder rejects the input."""


class Unspecified(Exception):
    """Whether this input is accepted is outside the property.

    X.690 or the RFCs forbid it, and this implementation is lenient: the
    indefinite length octet, empty integers, contents in a null, more than one
    octet of message flags, an error index without an error.
    """


def read_tag(data, i):
    """(class, constructed, number, next index)."""
    if i >= len(data):
        raise Bad
    b = data[i]
    i += 1
    num = b & 0x1f
    if num == 0x1f:
        num = 0
        while True:
            if i >= len(data):
                raise Bad
            c = data[i]
            i += 1
            num = num * 128 + (c & 0x7f)
            if c < 0x80:
                break
    return b >> 6, (b & 0x20) != 0, num, i


def read_length(data, i):
    if i >= len(data):
        raise Bad
    b = data[i]
    i += 1
    if b < 0x80:
        return b, i
    if b == 0x80:
        raise Unspecified
    n = b - 0x80
    # one by one: a count larger than what is left is rejected
    v = 0
    k = 0
    while k < n:
        if i >= len(data):
            raise Bad
        v = v * 256 + data[i]
        i += 1
        k += 1
    return v, i


def read(data, i=0):
    """(tag octet-triple, content start, content end) of the TLV at i."""
    cls, con, num, i = read_tag(data, i)
    n, i = read_length(data, i)
    if n > len(data) - i:
        raise Bad
    # fix the length: it is at most len(data) here
    k = 0
    while k < n:
        k += 1
    return (cls, con, num), i, i + k


class Fields:
    """Reads the fields of a constructed encoding one after the other."""

    def __init__(self, data, start=0, stop=None):
        self.data = data
        self.i = start
        self.stop = len(data) if stop is None else stop

    def peek(self):
        window = self.data[:self.stop]
        return read_tag(window, self.i)[:3]

    def next(self):
        window = self.data[:self.stop]
        tag, a, b = read(window, self.i)
        self.i = b
        return tag, a, b

    def expect(self, cls, con, num):
        """Bounds of the contents of the next field, of the given tag."""
        window = self.data[:self.stop]
        c, k, n, i = read_tag(window, self.i)
        if not (c == cls and k == con and n == num):
            raise Bad
        length, i = read_length(window, i)
        if length > self.stop - i:
            raise Bad
        k = 0
        while k < length:
            k += 1
        self.i = i + k
        return i, i + k

    def int(self, lo=-(1 << 31), hi=(1 << 31) - 1):
        a, b = self.expect(0, False, 2)
        return signed(self.data[a:b], lo, hi)

    def octets(self):
        a, b = self.expect(0, False, 4)
        return self.data[a:b]

    def sequence(self):
        a, b = self.expect(0, True, 16)
        return Fields(self.data, a, b)

    def end(self):
        if self.i != self.stop:
            raise Bad


def signed(content, lo, hi):
    if len(content) == 0:
        raise Unspecified
    v = 0
    for x in content:
        v = v * 256 + x
    if content[0] >= 0x80:
        v = v - (1 << (8 * len(content)))
    if v < lo or v > hi:
        raise Bad
    return v


def read_oid(content):
    """Sub-identifiers of an encoding."""
    if len(content) == 0:
        raise Bad
    if content[0] >= 0x80:
        # first two arcs in more than one octet: not supported (2.40 and
        # above), or not minimal
        raise Unspecified
    v = []
    x = 0
    open_ = False
    for b in content:
        x = x * 128 + (b & 0x7f)
        if b >= 0x80:
            open_ = True
        else:
            v.append(x)
            x = 0
            open_ = False
    if open_:
        raise Bad
    if v[0] >= 120 or len(v) > 127:
        raise Bad
    for y in v:
        if y > 0xffffffff:
            raise Bad
    return [v[0] // 40, v[0] % 40] + v[1:]


def read_value(tag, content):
    """(name of the type, value) of a variable binding."""
    cls, con, num = tag
    if con:
        raise Bad
    if cls == 0:
        if num == 2:
            return "Integer32", signed(content, -(1 << 31), (1 << 31) - 1)
        if num == 4:
            return "OctetString", content
        if num == 5:
            if len(content):
                raise Unspecified
            return "NULL", None
        if num == 6:
            return "OID", read_oid(content)
    elif cls == 1:
        if num == 0:
            if len(content) != 4:
                raise Bad
            return "IpAddress", content
        if num == 1:
            return "Counter32", signed(content, 0, (1 << 32) - 1)
        if num == 2:
            return "Gauge32", signed(content, 0, (1 << 32) - 1)
        if num == 3:
            return "TimeTicks", signed(content, 0, (1 << 32) - 1)
        if num == 4:
            return "Opaque", content
        if num == 6:
            return "Counter64", signed(content, 0, (1 << 64) - 1)
    elif cls == 2:
        for k, name in enumerate(("NoSuchObject", "NoSuchInstance",
                                  "EndOfMibView")):
            if num == k:
                if len(content):
                    raise Unspecified
                return name, None
    raise Bad


PDUS = ["GetRequestPDU", "GetNextRequestPDU", "ResponsePDU", "SetRequestPDU",
        None, "GetBulkRequestPDU", "InformRequestPDU", "SNMPv2TrapPDU",
        "ReportPDU"]


def read_pdu(f, allowed):
    """Fields of the PDU that ends the record f, as a dictionary."""
    cls, con, num = f.peek()
    name = None
    if cls == 2 and con:
        for k, n in enumerate(PDUS):
            if n in allowed and num == k:
                name = n
    if name is None:
        raise Bad
    tag, a, b = f.next()
    f.end()
    p = Fields(f.data, a, b)
    rid, x, y = p.int(), p.int(), p.int()
    lst = p.sequence()
    p.end()
    binds = []
    while lst.i != lst.stop:
        vb = lst.sequence()
        a, b = vb.expect(0, False, 6)
        # the whole variable binding must be well formed before its parts
        oid = lambda a=a, b=b: read_oid(f.data[a:b])
        tag, c, d = vb.next()
        vb.end()
        name_ = oid()
        binds.append((name_, read_value(tag, f.data[c:d])))
    if name == "GetBulkRequestPDU":
        if x < 0 or y < 0:
            raise Bad
    else:
        if x < 0 or x > 18:
            raise Bad
        if x == 0:
            if y != 0:
                raise Unspecified
        elif y < 0 or y > len(binds):
            raise Bad
    return name, rid, x, y, binds


def read_message(data, allowed, versions=(0, 1)):
    """(version, community, pdu) of an SNMPv1 or SNMPv2c message."""
    f = Fields(data)
    m = f.sequence()
    f.end()
    version = m.int()
    if not any([version == v for v in versions]):
        raise Bad
    community = m.octets()
    return version, community, read_pdu(m, allowed)


def read_message3(data, allowed):
    f = Fields(data)
    m = f.sequence()
    f.end()
    if m.int() != 3:
        raise Bad
    h = m.sequence()
    mid, size, flags, model = h.int(), h.int(), h.octets(), h.int()
    h.end()
    if len(flags) == 0:
        raise Bad
    if len(flags) > 1:
        raise Unspecified
    flags = flags[0]
    auth, priv = (flags & 1) != 0, (flags & 2) != 0
    if priv and not auth:
        raise Bad
    if mid < 0 or size < 484 or model != 3:
        raise Bad
    sec = m.octets()
    if priv:
        payload = m.octets()
        m.end()
    else:
        s = m.sequence()
        m.end()
        engine, name = s.octets(), s.octets()
        payload = engine, name, read_pdu(s, allowed)
    return mid, size, flags, sec, payload


def read_usm(data):
    """(engine ID, boots, time, user, signature bounds, salt)."""
    f = Fields(data)
    p = f.sequence()
    f.end()
    engine = p.octets()
    boots, time = p.int(), p.int()
    user = p.octets()
    a, b = p.expect(0, False, 4)
    salt = p.octets()
    p.end()
    if boots < 0 or time < 0:
        raise Bad
    return engine, boots, time, user, (a, b), salt


def usm(engine, boots, time, user, signature, salt):
    return seq(octets(engine), integer(boots), integer(time), octets(user),
               octets(signature), octets(salt))


def header3(mid, size, flags, model=3):
    return seq(integer(mid), integer(size), octets(bytes([flags])),
               integer(model))


# -- changes that keep the nesting of a message intact --------------------------

def tree(data):
    """[tag octet, contents]; contents are octets or a list of trees."""
    out = []
    i = 0
    while i < len(data):
        tag, a, b = read(data, i)
        out.append([data[i], tree(data[a:b]) if tag[1] else data[a:b]])
        i = b
    return out


def flat(nodes):
    out = []
    for n in nodes:
        out.append(n)
        if isinstance(n[1], list):
            out += flat(n[1])
    return out


def build(node):
    """Octets of a tree; nodes that are octets stand for themselves."""
    if not isinstance(node, list):
        return node
    content = node[1]
    if isinstance(content, list):
        parts = content
        content = b""
        for p in parts:
            content = content + build(p)
    n = len(content)
    if len(node) > 2:
        # a longer form of the length than needed
        return bytes([node[0], 0x80 | node[2]]) + n.to_bytes(node[2], "big") \
            + content
    return tlv(node[0], content)


def slots(data, mode):
    """How many places there are for a change of this kind."""
    nodes = flat(tree(data))
    if mode == "stray":
        return sum([len(n[1]) + 1 for n in nodes if isinstance(n[1], list)])
    if mode == "content":
        return sum([1 for n in nodes if not isinstance(n[1], list)])
    if mode == "long":
        return len(nodes)
    return len(nodes) - 1


def mutate(data, mode, at, extra, width):
    """Change the at-th place; all lengths around it are adapted."""
    top = tree(data)
    nodes = flat(top)
    if mode == "stray":
        for n in nodes:
            if isinstance(n[1], list):
                if at <= len(n[1]):
                    n[1].insert(at, extra)
                    break
                at -= len(n[1]) + 1
    elif mode == "content":
        [n for n in nodes if not isinstance(n[1], list)][at][1] = extra
    elif mode == "long":
        nodes[at].append(width)
    else:
        target = nodes[at + 1]
        for n in nodes:
            if isinstance(n[1], list):
                for i, c in enumerate(n[1]):
                    if c is target:
                        if mode == "drop":
                            del n[1][i]
                        else:
                            n[1].insert(i, [c[0], c[1]])
                        return build(top[0])
    return build(top[0])


MODES = ("stray", "content", "long", "drop", "repeat")


def shapes(data, widths, step=5):
    """(mode, width, lo, hi) of all jobs."""
    out = []
    for mode in MODES:
        n = slots(data, mode)
        for w in (widths if mode in ("stray", "content") else (2,)):
            for lo in range(0, n, step):
                out.append((mode, w, lo, min(lo + step, n)))
    return out

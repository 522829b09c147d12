"""The environment of the code under test: clock, threads, randomness, hashing,
ciphers, sockets.

Every stub is written against the `cx` interface, so that the same stub serves
the symbolic run (values are solver variables) and the concrete replay (values
come from the counterexample).  A stub only promises what its library
documents; everything else is left to the solver to choose.
"""

import types


class Deadlock(BaseException):
    """A lock was acquired twice by the only thread that could release it."""


class World:
    """Per-path environment state."""

    def __init__(self, cx):
        self.cx = cx
        self.clock = 0
        self.reads = 0
        self.on_time = None       # called at each clock read
        self.on_wait = None       # (event, timeout) -> None
        self.on_lock = None       # called before each lock acquisition
        self.on_join = None       # (thread), called by join of a started one
        self.njoin = 0
        self.sched = None         # sx.sched.Sched while several tasks run
        self.on_point = None      # called before each statement (P30)
        self.nrand = 0
        self.noracle = 0
        self.table = []
        self.sockets = []
        self.threads = []
        self.cipher_calls = []
        self.hash_calls = []
        self.urandom_calls = 0
        self.os_pipe = None
        self.os_closed = []
        self.poller = None

    # clock -------------------------------------------------------------------

    def now(self):
        self.reads += 1
        if self.on_time is not None:
            self.on_time()
        return self.clock

    # randomness ----------------------------------------------------------------

    def randint(self, a, b):
        self.nrand += 1
        return self.cx.int("rnd%d" % self.nrand, a, b)

    def urandom(self, n):
        self.urandom_calls += 1
        return self.cx.bytes("urandom%d" % self.urandom_calls, n)

    # ideal functions -------------------------------------------------------------

    def oracle(self, tag, args, n):
        """A function of (tag, args) returning n bytes.

        `args` is a tuple of byte strings and ints.  Equal arguments give
        equal results; nothing else is known about the result.
        """
        return self.cx.oracle(self.table, tag, args, n)


W = None      # the current World


def world():
    return W


def point(value=None):
    """Another thread may get its turn here."""
    if W is not None and W.on_point is not None:
        W.on_point()
    return value


def set_world(w):
    global W
    W = w


# ------------------------------------------------------------------------------


def module(name, real=None, **over):
    m = types.ModuleType(name)
    if real is not None:
        for k, v in vars(real).items():
            if k not in ("__name__", "__loader__", "__spec__"):
                setattr(m, k, v)
        if hasattr(real, "__path__"):
            m.__path__ = real.__path__
    for k, v in over.items():
        setattr(m, k, v)
    return m


class Lock:
    kind = "lock"

    def __init__(self):
        self.held = 0
        self.owner = None

    def free(self):
        return not self.held

    def acquire(self, blocking=True, timeout=-1):
        if W is not None and W.on_lock is not None:
            W.on_lock(self)
        if self.held:
            if not blocking:
                return False
            if W is not None and W.sched is not None and W.sched.mine():
                until = (None if timeout is None or timeout < 0
                         else W.clock + timeout)
                if not W.sched.block(self.free, until):
                    return False
            elif timeout is not None and timeout >= 0:
                return False
            else:
                raise Deadlock()
        self.held = 1
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = 0

    def locked(self):
        return bool(self.held)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    kind = "rlock"

    def acquire(self, blocking=True, timeout=-1):
        if W is not None and W.on_lock is not None and not self.held:
            W.on_lock(self)
        if W is not None and W.sched is not None and W.sched.mine():
            me = W.sched.current
            if self.held and self.owner is not me:
                if not blocking:
                    return False
                until = (None if timeout is None or timeout < 0
                         else W.clock + timeout)
                if not W.sched.block(self.free, until):
                    return False
            self.owner = me
        self.held += 1
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("cannot release un-acquired lock")
        self.held -= 1


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if not self._flag:
            if W.sched is not None and W.sched.mine():
                W.sched.block(self.is_set, None if timeout is None
                              else W.clock + timeout)
            elif W.on_wait is None:
                raise Deadlock()
            else:
                W.on_wait(self, timeout)
        return self._flag


class Condition:
    """Condition variable; waiting is an environment step, as for Event."""

    def __init__(self, lock=None):
        self.lock = RLock() if lock is None else lock
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.notified = False

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        self.notified = False
        held, self.lock.held = self.lock.held, 0
        try:
            if W.on_wait is None:
                raise Deadlock()
            W.on_wait(self, timeout)
        finally:
            self.lock.held = held
        return self.notified

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        if not r:
            self.wait(timeout)
            r = predicate()
        return r

    def is_set(self):
        return self.notified

    def notify(self, n=1):
        self.notified = True

    def notify_all(self):
        self.notified = True


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.name = name
        self.state = "new"
        if W is not None:
            W.threads.append(self)

    def start(self):
        if self.state != "new":
            raise RuntimeError("threads can only be started once")
        self.state = "started"

    def run(self):
        self.target(*self.args, **self.kwargs)

    def join(self, timeout=None):
        if self.state == "new":
            raise RuntimeError("cannot join thread before it is started")
        if self.state == "started" and timeout is not None:
            # it may take longer, but not for ever
            W.njoin += 1
            if W.njoin <= 2 and W.cx.choice("slow%d" % W.njoin, 2):
                return
        if self.state == "started" and W.on_join is not None:
            W.on_join(self)
        self.state = "joined"

    def is_alive(self):
        return self.state == "started"


# -- hashing ------------------------------------------------------------------------

SIZES = {"md5": (16, 64), "sha1": (20, 64), "sha224": (28, 64),
         "sha256": (32, 64), "sha384": (48, 128), "sha512": (64, 128)}


class Hash:
    def __init__(self, name, data=b""):
        self.name = name
        self.digest_size, self.block_size = SIZES[name]
        self.parts = []
        if len(data):
            self.parts.append(data)

    def update(self, data):
        if not W.cx.isbytes(data):
            raise TypeError("object supporting the buffer API required")
        self.parts.append(data)

    def copy(self):
        h = Hash(self.name)
        h.parts = list(self.parts)
        return h

    def digest(self):
        data = W.cx.concat(self.parts)
        W.hash_calls.append((self.name, data))
        return W.oracle("hash-" + self.name, (data,), self.digest_size)

    def hexdigest(self):
        return self.digest().hex()


class Hmac:
    def __init__(self, key, msg=None, digestmod=""):
        if not W.cx.isbytes(key):
            raise TypeError("key: expected bytes or bytearray")
        self.key = key
        self.alg = alg_name(digestmod)
        self.digest_size, self.block_size = SIZES[self.alg]
        self.name = "hmac-" + self.alg
        self.parts = []
        if msg is not None:
            self.parts.append(msg)

    def update(self, data):
        if not W.cx.isbytes(data):
            raise TypeError("object supporting the buffer API required")
        self.parts.append(data)

    def copy(self):
        h = Hmac(self.key, None, self.alg)
        h.parts = list(self.parts)
        return h

    def digest(self):
        return hmac_value(self.alg, self.key, W.cx.concat(self.parts))

    def hexdigest(self):
        return self.digest().hex()


def hmac_value(alg, key, data):
    return W.oracle("hmac-" + alg, (key, data), SIZES[alg][0])


def alg_name(d):
    if isinstance(d, str):
        return d.lower().replace("-", "")
    if isinstance(d, HashCtor):
        return d.alg
    n = getattr(d, "alg", None)
    if n is None:
        n = d().name
    return n


class HashCtor:
    """hashlib.md5 and friends; like a builtin, it does not bind as a method."""

    def __init__(self, alg):
        self.alg = alg
        self.__name__ = "openssl_" + alg

    def __call__(self, data=b"", *, usedforsecurity=True):
        return Hash(self.alg, data)


def hashlib_new(name, data=b"", **kw):
    return Hash(name.lower().replace("-", ""), data)


def compare_digest(a, b):
    return a == b


# -- block ciphers -----------------------------------------------------------------------


class CipherModule:
    """Crypto.Cipher.AES or DES as an ideal cipher."""

    MODE_ECB, MODE_CBC, MODE_CFB, MODE_OFB, MODE_CTR = 1, 2, 3, 5, 6

    def __init__(self, name, block, key_sizes):
        self.name = name
        self.block_size = block
        self.key_size = key_sizes if len(key_sizes) > 1 else key_sizes[0]
        self.keys = key_sizes

    def new(self, key, mode, *args, **kw):
        if len(key) not in self.keys:
            raise ValueError("Incorrect %s key length" % self.name)
        iv = kw.pop("iv", kw.pop("IV", None))
        if iv is None and args:
            iv = args[0]
        if iv is None:
            iv = W.urandom(self.block_size)
        seg = kw.pop("segment_size", 8)
        if kw:
            raise TypeError("Unknown parameters for cipher")
        if len(iv) != self.block_size:
            raise ValueError("Incorrect IV length (it must be %d bytes long)"
                             % self.block_size)
        if mode == self.MODE_CFB:
            tag = "cfb%d" % seg
            if seg % 8 or not 8 <= seg <= 8 * self.block_size:
                raise ValueError("'segment_size' must be positive and "
                                 "multiple of 8 bits")
            unit = seg // 8
        elif mode == self.MODE_CBC:
            tag, unit = "cbc", self.block_size
        else:
            raise ValueError("mode not modelled")
        return CipherCtx(self.name, tag, unit, key, iv)


class CipherCtx:
    """One-shot use of a cipher in a given mode."""

    def __init__(self, name, mode, unit, key, iv, pad_any=False):
        self.name, self.mode, self.unit = name, mode, unit
        self.key, self.iv = key, iv
        self.used = False

    def _check(self, data):
        if self.used:
            raise TypeError("stub ciphers are one-shot")
        self.used = True
        if len(data) % self.unit and self.mode == "cbc":
            raise ValueError("Data must be padded to %d byte boundary in CBC "
                             "mode" % self.unit)

    def encrypt(self, data):
        self._check(data)
        return cipher_op(True, self.name, self.mode, self.key, self.iv, data)

    def decrypt(self, data):
        self._check(data)
        return cipher_op(False, self.name, self.mode, self.key, self.iv, data)


def cipher_op(enc, name, mode, key, iv, data):
    """Ideal length-preserving cipher: decryption inverts encryption.

    Block by block: in both modes a leading run of blocks of the ciphertext
    determines the same run of the plaintext (CBC and CFB are both causal).
    """
    cx = W.cx
    tag = "%s-%s" % (name, mode)
    W.cipher_calls.append((
        "encrypt" if enc else "decrypt", name, mode, key, iv, data))
    block = 16 if name == "AES" else 8
    out = []
    prev = ()
    for i in range(0, len(data), block):
        piece = data[i:i + block]
        prefix = cx.concat([iv] + list(prev))
        out.append(cx.blockop(W.table, tag, enc, (key, prefix), piece))
        prev = prev + ((out[-1] if enc else piece),)
    return cx.concat(out)


# -- OpenSSL through cffi ------------------------------------------------------------------


class CData:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return self.v[k]

    def __setitem__(self, k, x):
        self.v[k] = x

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __bytes__(self):
        return W.cx.blist(self.v)


class Ffi:
    NULL = None

    class error(Exception):
        pass

    @staticmethod
    def new(decl, init=None):
        d = decl.replace(" ", "")
        if d == "int*":
            return CData([0 if init is None else init])
        if d == "unsignedchar[]":
            if isinstance(init, int):
                return CData([0] * init)
            return CData(list(init))
        if d.startswith("unsignedchar["):
            return CData([0] * int(d[len("unsignedchar["):-1]))
        raise TypeError("stub ffi.new: " + decl)

    @staticmethod
    def buffer(cdata, size=-1):
        v = cdata.v if size < 0 else cdata.v[:size]
        return W.cx.blist(v)

    @staticmethod
    def unpack(cdata, length):
        return W.cx.blist(cdata.v[:length])

    @staticmethod
    def from_buffer(*a):
        return a[-1]

    @staticmethod
    def memmove(dest, src, n):
        dest.v[:n] = list(src)[:n]


class OverRead(Exception):
    """C code was handed a buffer shorter than it reads."""


class EvpCtx:
    def __init__(self):
        self.freed = False
        self.cipher = None


class OpenSSLLib:
    """EVP_{En,De}crypt{Init,Update} for AES-128-CFB128 and DES-CBC.

    Update buffers as OpenSSL documents: the encryptor emits whole blocks, the
    decryptor with padding enabled holds back the last whole block.
    """

    CIPHERS = {"aes": ("AES", "cfb128", 16, 16, 1),
               "des": ("DES", "cbc", 8, 8, 8)}

    def EVP_aes_128_cfb128(self):
        return "aes"

    def EVP_des_cbc(self):
        return "des"

    def EVP_CIPHER_CTX_new(self):
        return EvpCtx()

    def EVP_CIPHER_CTX_free(self, ctx):
        ctx.freed = True

    def EVP_CIPHER_CTX_set_padding(self, ctx, pad):
        ctx.pad = bool(pad)
        return 1

    def _init(self, enc, ctx, cipher, key, iv):
        name, mode, klen, ivlen, unit = self.CIPHERS[cipher]
        if len(key) < klen or len(iv) < ivlen:
            raise OverRead("key or iv shorter than the cipher reads")
        ctx.enc = enc
        ctx.name, ctx.mode, ctx.unit = name, mode, unit
        ctx.key, ctx.iv = key[:klen], iv[:ivlen]
        ctx.pad = unit > 1
        ctx.input = []
        ctx.emitted = 0
        ctx.ready = True
        return 1

    def EVP_EncryptInit(self, ctx, cipher, key, iv):
        return self._init(True, ctx, cipher, key, iv)

    def EVP_DecryptInit(self, ctx, cipher, key, iv):
        return self._init(False, ctx, cipher, key, iv)

    def EVP_EncryptInit_ex(self, ctx, cipher, impl, key, iv):
        return self._init(True, ctx, cipher, key, iv)

    def EVP_DecryptInit_ex(self, ctx, cipher, impl, key, iv):
        return self._init(False, ctx, cipher, key, iv)

    def _update(self, enc, ctx, out, outl, data, inl):
        if inl > len(data):
            raise OverRead("input shorter than inl")
        ctx.input.extend(list(data)[:inl])
        n = len(ctx.input)
        if ctx.unit > 1:
            whole = n - n % ctx.unit
            if not enc and ctx.pad and n and n % ctx.unit == 0:
                whole -= ctx.unit
        else:
            whole = n
        if whole > ctx.emitted:
            res = cipher_op(enc, ctx.name, ctx.mode, ctx.key, ctx.iv,
                            W.cx.blist(ctx.input[:whole]))
            new = list(res)[ctx.emitted:]
        else:
            new = []
        if len(new) > len(out.v):
            raise OverRead("output buffer too small")
        out.v[:len(new)] = new
        ctx.emitted += len(new)
        outl[0] = len(new)
        return 1

    def EVP_EncryptUpdate(self, ctx, out, outl, data, inl):
        return self._update(True, ctx, out, outl, data, inl)

    def EVP_DecryptUpdate(self, ctx, out, outl, data, inl):
        return self._update(False, ctx, out, outl, data, inl)


# -- sockets ------------------------------------------------------------------------------------


class FakeSocket:
    def __init__(self, family=2, type=2, proto=0, fileno=None):
        self.family, self.type = family, type
        self.bound = None
        self.blocking = True
        self.queue = []
        self.sent = []
        self.closed = False
        self.fd = 100 + len(W.sockets)
        W.sockets.append(self)

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, t):
        self.blocking = t != 0

    def setsockopt(self, *a):
        pass

    def bind(self, address):
        host, port = address[:2]
        if port == 0:
            port = 40000 + self.fd
        self.bound = (host, port) + tuple(address[2:])

    def getsockname(self):
        return self.bound

    def fileno(self):
        return -1 if self.closed else self.fd

    def recvfrom(self, size, flags=0):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        if not self.queue:
            raise BlockingIOError(11, "Resource temporarily unavailable")
        data, addr = self.queue.pop(0)
        return data[:size], addr

    def sendto(self, data, *rest):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        address = rest[-1]
        self.sent.append((data, address))
        for s in W.sockets:
            if s.bound == address and not s.closed:
                s.queue.append((data, self.bound))
        return len(data)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def build_modules(cx_static, openssl, pycrypto=True):
    """The modules snmp code sees.  cx_static: mode-specific helpers."""
    import collections
    import functools
    import hashlib
    import hmac
    import os
    import random
    import secrets
    import select
    import socket
    import struct
    import threading
    import time

    def now():
        return W.now() if W is not None else time.time()

    mods = {}
    mods["time"] = module(
        "time", time, time=now, monotonic=now, perf_counter=now,
        sleep=lambda s: W.on_wait(None, s))
    mods["threading"] = module(
        "threading", threading, Lock=Lock, RLock=RLock, Event=Event,
        Condition=Condition, Thread=Thread)
    mods["random"] = module(
        "random", random,
        randint=lambda a, b: W.randint(a, b),
        randrange=lambda *a: (W.randint(0, a[0] - 1) if len(a) == 1
                              else W.randint(a[0], a[1] - 1)),
        getrandbits=lambda n: W.randint(0, (1 << n) - 1),
    )

    class SystemRandom:
        randint = staticmethod(mods["random"].randint)
        randrange = staticmethod(mods["random"].randrange)
        getrandbits = staticmethod(mods["random"].getrandbits)

    mods["random"].SystemRandom = SystemRandom
    mods["random"].Random = SystemRandom
    mods["secrets"] = module(
        "secrets", secrets,
        token_bytes=lambda n=32: W.urandom(n),
        randbits=lambda n: W.randint(0, (1 << n) - 1),
        randbelow=lambda n: W.randint(0, n - 1))

    class PipeEnd:
        pass

    def pipe():
        W.os_pipe = []
        W.os_closed = []
        return 90, 91

    def usable(fd, want):
        if fd != want or W.os_pipe is None or fd in W.os_closed:
            raise OSError(9, "Bad file descriptor")

    def write(fd, data):
        usable(fd, 91)
        W.os_pipe.extend(list(data))
        return len(data)

    def read(fd, n):
        usable(fd, 90)
        if not W.os_pipe:
            raise Deadlock()
        out, W.os_pipe[:n] = W.os_pipe[:n], []
        return bytes(out)

    def close(fd):
        usable(fd, fd if fd in (90, 91) else None)
        W.os_closed.append(fd)

    mods["os"] = module("os", os, urandom=lambda n: W.urandom(n), pipe=pipe,
                        read=read, write=write, close=close)

    names = {}
    for alg in SIZES:
        names[alg] = HashCtor(alg)
    mods["hashlib"] = module("hashlib", hashlib, new=hashlib_new, **names)
    mods["hmac"] = module("hmac", hmac, new=lambda key, msg=None, digestmod="":
                          Hmac(key, msg, digestmod), HMAC=Hmac,
                          digest=lambda k, m, d: hmac_value(alg_name(d), k, m),
                          compare_digest=compare_digest)

    mods["socket"] = module(
        "socket", socket, socket=FakeSocket,
        inet_aton=cx_static.inet_aton, inet_ntoa=cx_static.inet_ntoa,
        inet_pton=cx_static.inet_pton, inet_ntop=cx_static.inet_ntop)

    def number(f):
        return f if isinstance(f, int) else f.fileno()

    class Poll:
        def __init__(self):
            self.fds = {}

        def register(self, fd, mask=0):
            self.fds[number(fd)] = mask

        def unregister(self, fd):
            del self.fds[number(fd)]

        def modify(self, fd, mask):
            self.fds[number(fd)] = mask

        def poll(self, timeout=None):
            return [(fd, select.POLLIN)
                    for fd in W.poller(list(self.fds), timeout)]

    class Epoll(Poll):
        pass

    def fake_select(r, w, x, timeout=None):
        ready = W.poller([number(f) for f in r], timeout)
        return [f for f in r if number(f) in ready], [], []

    mods["select"] = module("select", select, poll=Poll, select=fake_select)
    mods["struct"] = cx_static.struct_module(module, struct)
    mods["functools"] = cx_static.functools_module(module, functools)
    mods["collections"] = cx_static.collections_module(module, collections)

    if pycrypto:
        aes = CipherModule("AES", 16, (16, 24, 32))
        des = CipherModule("DES", 8, (8,))
        maes, mdes = module("Crypto.Cipher.AES"), module("Crypto.Cipher.DES")
        for m, c in ((maes, aes), (mdes, des)):
            for k in ("MODE_ECB", "MODE_CBC", "MODE_CFB", "MODE_OFB",
                      "MODE_CTR", "block_size", "key_size", "new"):
                setattr(m, k, getattr(c, k))
        cfb = module("Crypto.Cipher._mode_cfb", CfbMode=CipherCtx)
        cbc = module("Crypto.Cipher._mode_cbc", CbcMode=CipherCtx)
        cip = module("Crypto.Cipher", AES=maes, DES=mdes, _mode_cfb=cfb,
                     _mode_cbc=cbc, __path__=[])
        crypto = module("Crypto", Cipher=cip, __path__=[])
        mods.update({"Crypto": crypto, "Crypto.Cipher": cip,
                     "Crypto.Cipher.AES": maes, "Crypto.Cipher.DES": mdes,
                     "Crypto.Cipher._mode_cfb": cfb,
                     "Crypto.Cipher._mode_cbc": cbc})
    else:
        mods["Crypto"] = None

    if openssl:
        ffi = Ffi()
        lib = OpenSSLLib()
        m = module("snmp.openssl", ffi=ffi, lib=lib)
        m.__all__ = ["ffi", "lib"]
        mods["snmp.openssl"] = m
    else:
        mods["snmp.openssl"] = None
    return mods

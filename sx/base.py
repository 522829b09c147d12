"""The harness interface shared by the symbolic and the concrete mode."""


class Stop(BaseException):
    """Ends a run (an assumption failed, or a check failed outright)."""


class CxBase:
    symbolic = False

    # subclasses: int, bytes, bool, choice, real, assume, check, note, oracle,
    # blockop, eq, all, any, not_, ite, isbytes, concat, blist

    def reach(self, label):
        self.reached.add(label)

    def implies(self, a, b):
        return self.any(self.not_(a), b)

    def fail(self, label, **info):
        self.check(False, label, **info)

    def bytearr(self, name, lens):
        """A byte string whose length is one of `lens`."""
        n = self.choice(name + ".len", list(lens))
        return self.bytes(name, n)

    def observe(self, fn, *args, **kw):
        """(value, None) or (None, exception)."""
        try:
            return fn(*args, **kw), None
        except Exception as err:
            return None, err


def plain(v):
    """A JSON-able rendering of an observed value (concrete values only)."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (bytes, bytearray, memoryview)):
        return {"b": bytes(v).hex()}
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    if isinstance(v, float):
        return {"r": [*v.as_integer_ratio()]}
    if hasattr(v, "numerator"):
        return {"r": [int(v.numerator), int(v.denominator)]}
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, BaseException):
        return type(v).__name__
    return type(v).__name__

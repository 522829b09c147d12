"""Declaration of harnesses."""


class Harness:
    """fn(cx, **params), explored for each entry of quick / thorough.

    reach: labels that some path must reach (vacuity guard).
    openssl: run with the OpenSSL stub instead of the PyCryptodome stub.
    functions: what of /repo is executed symbolically.
    bound: the values quantified over.
    """

    def __init__(self, fn, quick, thorough=None, reach=(), openssl=False,
                 functions=(), bound="", max_values=300, max_paths=200000):
        self.fn = fn
        self.quick = list(quick)
        self.thorough = list(thorough) if thorough is not None else []
        self.reach = tuple(reach)
        self.openssl = openssl
        self.functions = tuple(functions)
        self.bound = bound
        self.max_values = max_values
        self.max_paths = max_paths


def collect(*hs):
    return {h.fn.__name__: h for h in hs}

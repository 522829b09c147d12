"""Loads the snmp package from /repo, in one of two ways.

symbolic: the current source of every module is parsed, a few expression forms
    that CPython would otherwise hand to C code are redirected to helpers that
    understand symbolic values (dictionary and set displays, method calls on
    byte strings, `in`, `is True`, one-argument `type`, `str % x`), and the
    module is executed with builtins whose int/bytes/range/len/... accept
    symbolic values.  Statements and control flow are untouched.
concrete: the unmodified source is executed.

In both modes the modules named in `env_modules` (clock, threads, randomness,
hashing, ciphers, sockets) are replaced by the stubs of sx.env when snmp code
imports them.
"""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("SX_REPO", "/repo")

_real_import = builtins.__import__


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, symbolic, env_modules, builtins_dict, helpers,
                 hide=(), repo=REPO, points=None,
                 points_all=False):
        self.symbolic = symbolic
        self.points = points
        self.points_all = points_all
        self.env = env_modules
        self.builtins = dict(builtins_dict)
        self.builtins["__import__"] = self.do_import
        self.helpers = helpers
        self.hide = set(hide)
        self.repo = repo
        self.files = {}
        self.modules = []

    # -- import of environment modules by snmp code --------------------------

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in self.env:
                m = self.env[name]
                if m is None:
                    raise ImportError("hidden: " + name)
                return m
            root, _, rest = name.partition(".")
            if root in self.env and self.env[root] is not None and rest:
                m = self.env[root]
                full = self.env.get(name)
                if full is not None:
                    return full if fromlist else m
                if fromlist:
                    return _real_import(name, globals, locals, fromlist, level)
                return m
        return _real_import(name, globals, locals, fromlist, level)

    # -- finder ---------------------------------------------------------------

    def find_spec(self, name, path=None, target=None):
        if name in self.env and name.startswith("snmp."):
            m = self.env[name]
            if m is None:
                raise ImportError("hidden: " + name)
            return importlib.util.spec_from_loader(name, _Given(m))
        if name != "snmp" and not name.startswith("snmp."):
            return None
        if name in self.hide:
            raise ImportError("hidden: " + name)
        base = os.path.join(self.repo, *name.split("."))
        for file, pkg in ((os.path.join(base, "__init__.py"), True),
                          (base + ".py", False)):
            if os.path.isfile(file):
                spec = importlib.util.spec_from_file_location(
                    name, file, loader=self,
                    submodule_search_locations=[base] if pkg else None)
                return spec
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, self, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        file = getattr(module.__spec__, "origin", None)
        module.__dict__["__builtins__"] = self.builtins
        self.modules.append(module)
        if file is None:
            return
        with open(file, "rb") as f:
            src = f.read()
        self.files[module.__name__] = (file, src)
        tree = ast.parse(src, file)
        if self.points is not None and (
                self.points_all or module.__name__ not in PURE):
            tree = Points(self.points_all).visit(tree)
            ast.fix_missing_locations(tree)
            module.__dict__["__sx_point__"] = self.points
        if self.symbolic:
            tree = Transform().visit(tree)
            ast.fix_missing_locations(tree)
            module.__dict__.update(self.helpers)
        code = compile(tree, file, "exec", dont_inherit=True)
        exec(code, module.__dict__)


class _Given(importlib.abc.Loader):
    def __init__(self, module):
        self.module = module

    def create_module(self, spec):
        return self.module

    def exec_module(self, module):
        pass


METHODS = {
    "join", "startswith", "endswith", "find", "rfind", "index", "rindex",
    "count", "replace", "split", "rsplit", "partition", "rpartition",
    "strip", "lstrip", "rstrip", "ljust", "rjust", "removeprefix",
    "removesuffix", "translate", "fromhex",
}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class Transform(ast.NodeTransformer):
    def at(self, new, old):
        return ast.copy_location(new, old)

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Starred(
                    value=_call("__sx_items__", v), ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self.at(_call("__sx_dict__",
                             ast.List(elts=items, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators)
        return self.at(_call("__sx_dict__", gen), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.at(_call("__sx_set__",
                             ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self.at(_call("__sx_set__", gen), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if (isinstance(f, ast.Name) and f.id == "type"
                and len(node.args) == 1 and not node.keywords):
            return self.at(_call("__sx_type__", *node.args), node)
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            if (isinstance(f.value, ast.Call)
                    and isinstance(f.value.func, ast.Name)
                    and f.value.func.id == "super"):
                return node
            new = ast.Call(
                func=_name("__sx_meth__"),
                args=[f.value, ast.Constant(value=f.attr)] + node.args,
                keywords=node.keywords)
            return self.at(new, node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, left, right = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)):
            for side in (left, right):
                if isinstance(side, ast.Constant) and side.value in (
                        True, False) and isinstance(side.value, bool):
                    new = _call("__sx_is__", left, right)
                    break
            else:
                return node
            if isinstance(op, ast.IsNot):
                new = _call("__sx_not__", new)
            return self.at(new, node)
        if isinstance(op, (ast.In, ast.NotIn)):
            new = _call("__sx_in__", left, right)
            if isinstance(op, ast.NotIn):
                new = _call("__sx_not__", new)
            return self.at(new, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if (isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant)
                and isinstance(node.left.value, str)):
            return self.at(_call("__sx_strmod__", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        # leave format specifications alone
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if node.name == "__bool__":
            # CPython insists on a genuine bool here
            node.decorator_list.append(_name("__sx_boolret__"))
        return node

    # do not rewrite patterns or annotations
    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = [self.visit(s) for s in c.body]
        return node


# Encoding and decoding: the objects belong to one thread at a time, and
# preempting it there is left to the harnesses that ask for it.
PURE = {"snmp.asn1", "snmp.ber", "snmp.smi", "snmp.pdu", "snmp.typing",
        "snmp.exception", "snmp.security.levels", "snmp.message.version"}
PURE_CLASSES = {"subbytes"}


class Points(ast.NodeTransformer):
    """Calls __sx_point__ wherever another thread may get its turn."""

    def __init__(self, everywhere):
        self.depth = 0
        self.everywhere = everywhere

    def point(self, at):
        call = ast.Expr(value=_call("__sx_point__"))
        return ast.copy_location(call, at)

    def body(self, stmts):
        out = []
        for s in stmts:
            if self.depth and not (isinstance(s, ast.Expr) and isinstance(
                    s.value, ast.Constant)) and not isinstance(
                    s, (ast.Global, ast.Nonlocal, ast.Pass)):
                out.append(self.point(s))
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        for field, value in ast.iter_fields(node):
            if (isinstance(value, list) and value
                    and isinstance(value[0], ast.stmt)):
                setattr(node, field, self.body(value))
            elif isinstance(value, list):
                for x in value:
                    if isinstance(x, ast.AST):
                        self.visit(x)
            elif isinstance(value, (ast.stmt, ast.ExceptHandler)):
                self.visit(value)
        return node

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self.body(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        if node.name in PURE_CLASSES and not self.everywhere:
            return node
        depth, self.depth = self.depth, 0
        node.body = self.body(node.body)
        self.depth = depth
        return node

    def visit_Lambda(self, node):
        return node

    def store(self, node, targets):
        if self.depth and any(
                isinstance(x, (ast.Attribute, ast.Subscript))
                for t in targets for x in ast.walk(t)):
            node.value = ast.copy_location(
                _call("__sx_point__", node.value), node.value)
        return node

    def visit_Assign(self, node):
        return self.store(node, node.targets)

    def visit_AugAssign(self, node):
        return self.store(node, [node.target])

"""Load the real meshio package from /repo/src for symbolic execution.

Every module of the package is read from disk on each run, parsed, minimally rewritten
(only where CPython offers no operator hook: `%` on str, str predicates, dict displays,
calls of numpy scalar types) and executed with a builtins table in which int/float/
isinstance/... accept symbolic values and numpy/h5py/netCDF4/struct/re/rich are stand-ins.
"""

from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as np

from . import core, stubs, symarray, text
from .core import Sym, SymBool, SymFloat, SymInt

REPO_SRC = os.environ.get("VP_REPO_SRC", "/repo/src")


# ---------------------------------------------------------------------------
# int / float / dict stand-ins
# ---------------------------------------------------------------------------
class _Meta(type):
    def __instancecheck__(cls, x):
        if cls._real is int and isinstance(x, SymInt):
            return x.dtype is None
        if cls._real is float and isinstance(x, SymFloat):
            return x.dtype is None or x.dtype == np.float64
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __getattr__(cls, n):
        return getattr(type.__getattribute__(cls, "_real"), n)


def _pick_scalar(x):
    if isinstance(x, symarray.SymArray) and x.size == 1:
        return x._scalar(x.raw().reshape(-1)[0])
    return x


class VInt(int, metaclass=_Meta):
    _real = int
    dtype = np.dtype(int)

    def __new__(cls, x=0, *base, **k):
        if "base" in k:
            base = (k["base"],)
        x = _pick_scalar(x)
        if isinstance(x, SymInt):
            return x.as_python()
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymFloat):
            r = x.to_int()
            return r.as_python() if isinstance(r, Sym) else r
        if isinstance(x, (str, bytes, bytearray)) and symarray._has_handle_str(
            bytes(x) if isinstance(x, bytearray) else x
        ):
            return text.parse_int(x, *(int(b) for b in base))
        return int(x, *base)


class VFloat(float, metaclass=_Meta):
    _real = float
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        x = _pick_scalar(x)
        if isinstance(x, SymFloat):
            return x.as_python()
        if isinstance(x, SymBool):
            return float(bool(x))
        if isinstance(x, SymInt):
            return core.float_of_int(x.as_python(), None)
        if isinstance(x, (str, bytes)) and symarray._has_handle_str(x):
            return text.parse_float(x)
        return float(x)


def _key_sym(k):
    if isinstance(k, Sym):
        return True
    return isinstance(k, tuple) and any(_key_sym(x) for x in k)


def _key_eq(a, b):
    """bool/SymBool: dict-key equality"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return core.and_all([_key_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return False
    r = a == b
    return r


class SymDict(dict):
    """dict whose keys may be symbolic integers (or tuples of them)."""

    _nsym = 0

    def __init__(self, *a, **k):
        dict.__init__(self)
        if a:
            src = a[0]
            if isinstance(src, dict) and not isinstance(src, SymDict):
                dict.update(self, src)
            else:
                self.update(src)
        if k:
            dict.update(self, k)

    def _find(self, k):
        """the stored key equal to k (forking), or None wrapped"""
        ksym = _key_sym(k)
        if not ksym and not self._nsym:
            return (k,) if dict.__contains__(self, k) else None
        if isinstance(k, (str, bytes)) or k is None:
            return (k,) if dict.__contains__(self, k) else None
        for s in list(dict.keys(self)):
            if not ksym and not _key_sym(s):
                continue
            e = _key_eq(k, s)
            if e is True or (isinstance(e, SymBool) and bool(e)):
                return (s,)
        if not ksym and dict.__contains__(self, k):
            return (k,)
        return None

    def _select(self, k):
        """(found, value) for a symbolic scalar key when all values are integers: one
        fork on membership, then an if-then-else term instead of one path per key"""
        if not isinstance(k, SymInt):
            return None
        with core.identity_hash():
            items = list(dict.items(self))
        if not 2 <= len(items) <= 64:
            return None
        for s, v in items:
            if isinstance(s, (tuple, str, bytes, float, SymFloat)) or s is None:
                return None
            if isinstance(v, (bool, np.bool_)) or not isinstance(v, (int, np.integer, SymInt)):
                return None
        if len({getattr(v, "dtype", None) for _, v in items}) > 1:
            return None
        eqs = [(k == s, v) for s, v in items]
        for e, v in eqs:
            if e is True:
                return True, v
        eqs = [(e, v) for e, v in eqs if isinstance(e, SymBool)]
        if not eqs or not bool(core.or_all([e for e, _ in eqs])):
            return False, None
        r = eqs[-1][1]
        for e, v in reversed(eqs[:-1]):
            r = core.ite(e, v, r)
        return True, r

    def __getitem__(self, k):
        s = self._select(k)
        if s is not None and s[0]:
            return s[1]
        f = self._find(k) if s is None else None
        if f is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k if not _key_sym(k) else "symbolic key")
        with core.identity_hash():
            return dict.__getitem__(self, f[0])

    def __setitem__(self, k, v):
        f = self._find(k)
        if f is None:
            if _key_sym(k):
                self._nsym += 1
                with core.identity_hash():
                    dict.__setitem__(self, k, v)
                return
            dict.__setitem__(self, k, v)
        else:
            with core.identity_hash():
                dict.__setitem__(self, f[0], v)

    def __delitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k if not _key_sym(k) else "symbolic key")
        with core.identity_hash():
            if _key_sym(f[0]):
                self._nsym -= 1
            dict.__delitem__(self, f[0])

    def __contains__(self, k):
        s = self._select(k)
        if s is not None:
            return s[0]
        return self._find(k) is not None

    def get(self, k, d=None):
        s = self._select(k)
        if s is not None:
            return s[1] if s[0] else d
        f = self._find(k)
        if f is None:
            return d
        with core.identity_hash():
            return dict.__getitem__(self, f[0])

    def setdefault(self, k, d=None):
        f = self._find(k)
        if f is None:
            self[k] = d
            return d
        with core.identity_hash():
            return dict.__getitem__(self, f[0])

    def pop(self, k, *d):
        f = self._find(k)
        if f is None:
            if d:
                return d[0]
            raise KeyError(k if not _key_sym(k) else "symbolic key")
        with core.identity_hash():
            v = dict.__getitem__(self, f[0])
        del self[f[0]]
        return v

    def update(self, *a, **k):
        if a:
            src = a[0]
            if hasattr(src, "keys"):
                with core.identity_hash():
                    items = [(x, src[x]) for x in src.keys()]
            else:
                items = src
            for x, v in items:
                self[x] = v
        for x, v in k.items():
            self[x] = v

    def copy(self):
        return SymDict(self)

    def __eq__(self, o):
        return dict.__eq__(self, o)

    __hash__ = None

    def items(self):
        if not self._nsym:
            return dict.items(self)
        with core.identity_hash():
            return [(k, dict.__getitem__(self, k)) for k in dict.keys(self)]

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self


class _DMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dict)

    def __subclasscheck__(cls, c):
        return issubclass(c, dict)

    def __call__(cls, *a, **k):
        if cls is VDict:
            return SymDict(*a, **k)
        return type.__call__(cls, *a, **k)

    def __eq__(cls, o):
        return o in (VDictReal, SymDict) or o is cls

    def __hash__(cls):
        return hash(VDictReal)


VDictReal = dict


class VDict(SymDict, metaclass=_DMeta):
    @classmethod
    def fromkeys(cls, it, v=None):
        r = SymDict()
        for k in it:
            r[k] = v
        return r


class DefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return DefaultDict(self.default_factory, self)


def make_collections():
    import collections

    m = types.ModuleType("collections")
    m.__dict__.update({n: getattr(collections, n) for n in dir(collections) if not n.startswith("__")})
    m.OrderedDict, m.defaultdict, m.abc = VDict, DefaultDict, __import__("collections.abc").abc
    return m


stubs.MODULES["collections"] = ("lazy", make_collections)


def mkdict(pairs):
    r = SymDict()
    for p in pairs:
        if len(p) == 1:
            r.update(p[0])
        else:
            r[p[0]] = p[1]
    return r


# ---------------------------------------------------------------------------
# builtins
# ---------------------------------------------------------------------------
_INTS = (int, np.integer, np.signedinteger, np.number, np.generic)


def v_isinstance(x, t):
    if isinstance(t, tuple):
        return any(v_isinstance(x, y) for y in t)
    if isinstance(t, types.UnionType):
        return any(v_isinstance(x, y) for y in t.__args__)
    if isinstance(x, Sym):
        if t is VInt or t is int:
            return isinstance(x, SymInt) and x.dtype is None
        if t is VFloat or t is float:
            return isinstance(x, SymFloat) and (x.dtype is None or x.dtype == np.float64)
        if t is bool:
            return False if not isinstance(x, SymBool) else True
        if isinstance(t, type) and issubclass(t, np.generic):
            dt = x.dtype
            if isinstance(x, SymBool):
                return issubclass(np.bool_, t)
            return dt is not None and issubclass(dt.type, t)
        import numbers

        if t in (numbers.Number, numbers.Real):
            return True
        if t in (numbers.Integral, numbers.Rational):
            return isinstance(x, SymInt)
        return isinstance(x, t)
    if isinstance(x, symarray.SymRec):
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return True
    return isinstance(x, t)


def v_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SymInt):
        return int if x.dtype is None else x.dtype.type
    if isinstance(x, SymFloat):
        return float if x.dtype is None else x.dtype.type
    if isinstance(x, SymBool):
        return np.bool_
    if isinstance(x, symarray.SymArray):
        return np.ndarray
    if isinstance(x, SymDict):
        return dict
    return type(x)


def v_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def v_strpred(obj, name, *a):
    if isinstance(obj, str) and text.has_handle(obj):
        return text.str_predicate(obj, name)
    if isinstance(obj, bytes) and symarray._has_handle_str(obj):
        return text.str_predicate(obj.decode(), name)
    return getattr(obj, name)(*a)


def v_all(it):
    for x in it:
        if not x:
            return False
    return True


def v_format(x, spec=""):
    return format(x, spec)


def v_np_ctor(f, *a, **k):
    """call through an attribute that may be a numpy scalar type"""
    if isinstance(f, type) and issubclass(f, np.generic):
        return symarray.np_ctor(f, *a, **k)
    return f(*a, **k)


def v_write(f, *a, **k):
    """obj.write(x): a file takes the buffer of an array"""
    if len(a) == 1 and not k:
        if isinstance(a[0], (symarray.SymArray, symarray.SymRec)):
            return f(a[0].tobytes())
        if isinstance(a[0], memoryview) and isinstance(a[0].obj, symarray.SymArray):
            raise core.Unsupported("memoryview of an array")
    return f(*a, **k)


_NPTYPES = {
    n for n in dir(np) if isinstance(getattr(np, n, None), type) and issubclass(getattr(np, n), np.generic)
}
_PREDS = {"isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isspace"}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def _call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node
        )

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("vp_mod__", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.copy_location(
                ast.Assign(targets=[node.target], value=self._call("vp_mod__", [load, node.value], node)),
                node,
            )
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in _PREDS:
            return self._call("vp_pred__", [f.value, ast.Constant(f.attr), *node.args], node)
        if isinstance(f, ast.Attribute) and (f.attr in _NPTYPES or f.attr == "type"):
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id="vp_ctor__", ctx=ast.Load()), f)
            return node
        if isinstance(f, ast.Attribute) and f.attr == "write" and len(node.args) == 1:
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id="vp_write__", ctx=ast.Load()), f)
            return node
        if isinstance(f, ast.Subscript) or (isinstance(f, ast.Name) and self.depth and not hasattr(builtins, f.id)):
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id="vp_ctor__", ctx=ast.Load()), f)
            return node
        if isinstance(f, ast.Name) and f.id in _NPTYPES and f.id not in ("int", "float", "bool", "str", "bytes", "object"):
            node.args.insert(0, f)
            node.func = ast.copy_location(ast.Name(id="vp_ctor__", ctx=ast.Load()), f)
            return node
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.depth == 0:
            return node
        if all(isinstance(k, ast.Constant) for k in node.keys) and node.keys:
            # constant keys: still needs symbolic lookups
            return self._call("vp_sdict__", [node], node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return self._call("vp_dict__", [ast.List(elts=pairs, ctx=ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if self.depth == 0:
            return node
        lc = ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators
        )
        return self._call("vp_dict__", [ast.copy_location(lc, node)], node)


OPEN_HOOK = None  # set by harnesses that intercept file access


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        s = stubs.MODULES.get(name) or (stubs.MODULES.get(root) if not fromlist else None)
        if name == "numpy" or (root == "numpy" and not fromlist):
            return symarray.SYMNP
        if root == "numpy":
            sub = name[len("numpy."):]
            if sub == "linalg":
                return symarray.OVERRIDE["linalg"]
            return builtins.__import__(name, globals, locals, fromlist, level)
        if s is not None:
            return s
        if root in stubs.MODULES and fromlist:
            return stubs.submodule(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    b = dict(builtins.__dict__)
    b.update(
        int=VInt, float=VFloat, dict=VDict, isinstance=v_isinstance, type=v_type,
        __import__=_import,
        vp_mod__=text.sym_mod, vp_pred__=v_strpred, vp_ctor__=v_np_ctor, vp_write__=v_write,
        vp_dict__=mkdict, vp_sdict__=SymDict,
    )
    return b


class Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path, self.ispkg = path, ispkg

    def create_module(self, spec):
        return None

    CODE = {}  # by path: modules are loaded again where a harness asks for a fresh package

    def exec_module(self, module):
        code = self.CODE.get(self.path)
        if code is None:
            with open(self.path, encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src, self.path)
            tree = Rewriter().visit(tree)
            ast.fix_missing_locations(tree)
            code = self.CODE[self.path] = compile(tree, self.path, "exec")
        module.__dict__["__builtins__"] = make_builtins()
        module.__file__ = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "meshio" and not fullname.startswith("meshio."):
            return None
        rel = fullname.replace(".", "/")
        p = os.path.join(REPO_SRC, rel, "__init__.py")
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(p, True), submodule_search_locations=[os.path.dirname(p)])
        p = os.path.join(REPO_SRC, rel + ".py")
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, False))
        return None


def load():
    if "meshio" in sys.modules:
        return sys.modules["meshio"]
    sys.meta_path.insert(0, Finder())
    import importlib

    return importlib.import_module("meshio")

"""The two faces of a harness: symbolic (SymH) and concrete replay (ConcH).

A harness is a function harness(h, sc) that builds inputs with h.floats/h.ints/..., runs
the code under test through h.meshio and states obligations with h.same/h.check.
"""

from __future__ import annotations

import importlib
import math
import os
import shutil
import sys
import tempfile

import numpy as np


class Violation(Exception):
    """concrete mode: an obligation failed"""

    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class Skip(Exception):
    """the scenario does not apply"""


def _names(name, shape):
    if shape == ():
        yield (), name
        return
    for ix in np.ndindex(*shape):
        yield ix, name + "[" + ",".join(map(str, ix)) + "]"


class Base:
    symbolic = False

    def __init__(self):
        self.dir = None
        self.samples = []

    def _mkdir(self):
        if self.dir is None:
            root = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
            self.dir = tempfile.mkdtemp(prefix="vpmesh", dir=root)
        return self.dir

    def path(self, name):
        return os.path.join(self._mkdir(), name)

    def cleanup(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def write_text(self, name, s):
        p = self.path(name)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(s)
        return p

    def write_bytes(self, name, b):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(b)
        return p

    def read_text(self, p):
        with open(p, encoding="utf-8") as f:
            return f.read()

    def read_bytes(self, p):
        with open(p, "rb") as f:
            return f.read()

    def perm(self, name, n):
        """a symbolic permutation would be enumerated; small n only"""
        raise NotImplementedError

    # -- the package as a new process would see it
    def fresh(self):
        """import meshio anew: no state of earlier calls is left"""
        mods = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "meshio" or k.startswith("meshio.")}
        if getattr(self, "_loaded", None) is None:
            self._loaded = (mods, self.meshio)
        self.meshio = importlib.import_module("meshio")
        return self.meshio

    def restore(self):
        """back to the modules loaded first"""
        if getattr(self, "_loaded", None) is not None:
            mods, self.meshio = self._loaded
            for k in list(sys.modules):
                if k == "meshio" or k.startswith("meshio."):
                    del sys.modules[k]
            sys.modules.update(mods)
            self._loaded = None


# ---------------------------------------------------------------------------
class SymH(Base):
    symbolic = True

    def __init__(self, ctx, meshio):
        super().__init__()
        from . import symarray

        self.c = ctx
        self.meshio = meshio
        self.np = symarray.SYMNP
        self.sa = symarray
        self.obl = []  # (label, cond)

    # -- inputs
    def floats(self, name, shape, dtype="f8", finite=True):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        dt = np.dtype(dtype)
        raw = np.empty(shape, dtype=object)
        for ix, nm in _names(name, shape):
            raw[ix] = self.c.real(nm, dt.newbyteorder("="), finite)
        return self.sa.wrap(raw, dt)

    def ints(self, name, shape, lo, hi, dtype="i8"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        dt = np.dtype(dtype)
        raw = np.empty(shape, dtype=object)
        for ix, nm in _names(name, shape):
            raw[ix] = lo if lo == hi else self.c.int(nm, lo, hi, dt.newbyteorder("="))
        return self.sa.wrap(raw, dt)

    def float(self, name, finite=True):
        return self.c.real(name, None, finite)

    def int(self, name, lo, hi):
        return lo if lo == hi else self.c.int(name, lo, hi)

    def bool(self, name):
        """a symbolic choice, decided now (both outcomes are explored)"""
        return bool(self.c.bool(name))

    def choice(self, name, options):
        i = self.c.int(name, 0, len(options) - 1)
        return options[int(i)] if len(options) > 1 else options[0]

    def distinct(self, arr):
        import z3

        ts = [x.t for x in self.sa.asarray(arr).raw().ravel().tolist() if hasattr(x, "t")]
        if len(ts) > 1:
            self.c.add(z3.Distinct(*ts))

    def assume(self, cond):
        self.c.assume(cond)

    def array(self, x, dtype=None):
        return self.sa.asarray(x, dtype, copy=True)

    def const(self, x, dtype=None):
        return self.sa.lift(np.array(x, dtype=dtype))

    # -- numbers in text
    def parse_int(self, s, base=10):
        from . import text

        return text.parse_int(s, base)

    def parse_float(self, s):
        from . import text

        return text.parse_float(s)

    def plain(self, s):
        """text whose integers are decided (all outcomes are explored)"""
        from . import text

        return "".join(str(int(text.parse_int(ch))) if ord(ch) >= text.HBASE else ch for ch in s)

    def from_bytes(self, b, dtype):
        return self.sa.from_bytes_array(b, np.dtype(dtype))

    def to_bytes(self, arr, dtype):
        return self.sa.cast(self.sa.asarray(arr), np.dtype(dtype)).tobytes()

    # -- obligations
    def check(self, cond, label):
        from .core import Sym, SymBool

        if isinstance(cond, SymBool):
            self.obl.append((label, cond.t))
        elif isinstance(cond, Sym):
            self.obl.append((label, bool(cond)))
        else:
            self.obl.append((label, bool(cond)))

    def fail(self, label):
        self.obl.append((label, False))

    def _eq(self, a, e, digits):
        """equality condition of two scalars"""
        import z3

        from .core import Sym, SymBool, SymFloat, SymInt, fp_val, F64, F32, RNE

        if not isinstance(a, Sym) and not isinstance(e, Sym):
            return _close(a, e, digits)
        if isinstance(a, SymFloat) or isinstance(e, SymFloat):
            if isinstance(a, SymFloat) and a.of_int is not None and isinstance(e, (SymInt, int, np.integer)):
                return self._eq(a.of_int, e, None)
            if isinstance(e, SymFloat) and e.of_int is not None and isinstance(a, (SymInt, int, np.integer)):
                return self._eq(a, e.of_int, None)
            if isinstance(a, SymFloat) and isinstance(e, SymFloat):
                if a.of_int is not None and e.of_int is not None:
                    return self._eq(a.of_int, e.of_int, None)
                if a.t.eq(e.t):
                    return True
                if digits is not None:
                    wide = lambda f: f.as_python() if f.t.sort() == F32 else f
                    for x, y in ((a, e), (e, a)):
                        if x.approx is not None:
                            base, d = x.approx
                            base, y = wide(base), wide(y)
                            if d >= digits and base.t.eq(y.t):
                                return True
                            if d >= digits and y.approx is not None and y.approx[0].t.eq(base.t):
                                return True
                            if d < 0 and digits < 0 and -d >= -digits and base.t.eq(y.t):
                                return True
            def term(x):
                if isinstance(x, SymFloat):
                    return x.t
                if isinstance(x, (SymInt, SymBool)):
                    x = x if isinstance(x, SymInt) else x._i()
                    return x.to_float(None).t
                return fp_val(float(x), F64)
            ta, te = term(a), term(e)
            if ta.sort() != te.sort():
                ta = ta if ta.sort() == F64 else z3.fpFPToFP(RNE, ta, F64)
                te = te if te.sort() == F64 else z3.fpFPToFP(RNE, te, F64)
            return SymBool(z3.Or(z3.fpEQ(ta, te), z3.And(z3.fpIsNaN(ta), z3.fpIsNaN(te))))
        r = a == e
        return r

    def same(self, actual, expected, label, digits=None, dtype=None, kind=None):
        """arrays are equal: shape, values (exactly, or to `digits` significant digits),
        and dtype / dtype kind when given"""
        from .core import SymBool, and_all

        if actual is None:
            return self.fail(label + ": missing")
        a, e = self.sa.asarray(actual), self.sa.asarray(expected)
        if not isinstance(a, self.sa.SymArray) or not isinstance(e, self.sa.SymArray):
            return self.fail(label + f": not comparable ({type(actual).__name__})")
        if a.shape != e.shape:
            return self.fail(label + f": shape {a.shape} instead of {e.shape}")
        if dtype is not None and a.dtype.newbyteorder("=") != np.dtype(dtype).newbyteorder("="):
            return self.fail(label + f": dtype {a.dtype} instead of {np.dtype(dtype)}")
        if kind is not None and a.dtype.kind not in kind:
            return self.fail(label + f": dtype {a.dtype} instead of kind {kind}")
        conds = [self._eq(x, y, digits) for x, y in zip(_flat(a.raw()), _flat(e.raw()))]
        self.check(and_all(conds), label)

    def eqcond(self, a, e):
        from .core import and_all

        a, e = self.sa.asarray(a), self.sa.asarray(e)
        if a.shape != e.shape:
            return False
        return and_all([self._eq(x, y, None) for x, y in zip(_flat(a.raw()), _flat(e.raw()))])


def _flat(r):
    return r.reshape(-1).tolist() if r.ndim else [r.item()]


def _close(a, e, digits):
    if isinstance(a, (str, bytes)) or isinstance(e, (str, bytes)):
        return a == e
    try:
        if a == e:
            return True
        if a != a and e != e:
            return True
        if digits is None:
            return False
        a, e = float(a), float(e)
        if math.isinf(e) or math.isinf(a) or math.isnan(a) or math.isnan(e):
            return False
        if digits < 0:
            return abs(a - e) <= 10.0**digits
        return abs(a - e) <= 10.0 ** (1 - digits) * abs(e) + 1e-320
    except TypeError:
        return False


# ---------------------------------------------------------------------------
class ConcH(Base):
    """concrete replay against the unmodified package"""

    def __init__(self, values, meshio):
        super().__init__()
        self.v = values
        self.meshio = meshio
        self.np = np

    def _f(self, nm):
        v = self.v.get(nm)
        if v is None:
            return 0.5
        return float.fromhex(v) if isinstance(v, str) and v not in ("nan", "inf", "-inf") else float(v)

    def floats(self, name, shape, dtype="f8", finite=True):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=np.dtype(dtype))
        for ix, nm in _names(name, shape):
            a[ix] = self._f(nm)
        return a

    def ints(self, name, shape, lo, hi, dtype="i8"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=np.dtype(dtype))
        for ix, nm in _names(name, shape):
            a[ix] = int(self.v.get(nm, lo))
        return a

    def float(self, name, finite=True):
        return self._f(name)

    def int(self, name, lo, hi):
        return int(self.v.get(name, lo))

    def bool(self, name):
        return bool(self.v.get(name, False))

    def choice(self, name, options):
        return options[int(self.v.get(name, 0))] if len(options) > 1 else options[0]

    def distinct(self, arr):
        a = np.asarray(arr).ravel()
        if len(set(a.tolist())) != a.size:
            raise Skip("assumption")

    def assume(self, cond):
        if not cond:
            raise Skip("assumption")

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    const = array

    def parse_int(self, s, base=10):
        return int(s, base)

    def parse_float(self, s):
        return float(s)

    def from_bytes(self, b, dtype):
        return np.frombuffer(b, dtype=dtype)

    def plain(self, s):
        return s

    def to_bytes(self, arr, dtype):
        return np.asarray(arr).astype(dtype).tobytes()

    def check(self, cond, label):
        if not cond:
            raise Violation(label)

    def fail(self, label):
        raise Violation(label)

    def same(self, actual, expected, label, digits=None, dtype=None, kind=None):
        if actual is None:
            raise Violation(label, "missing")
        a, e = np.asarray(actual), np.asarray(expected)
        if a.shape != e.shape:
            raise Violation(label, f"shape {a.shape} instead of {e.shape}")
        if dtype is not None and a.dtype.newbyteorder("=") != np.dtype(dtype).newbyteorder("="):
            raise Violation(label, f"dtype {a.dtype} instead of {np.dtype(dtype)}")
        if kind is not None and a.dtype.kind not in kind:
            raise Violation(label, f"dtype {a.dtype} instead of kind {kind}")
        for ix in np.ndindex(*a.shape):
            x, y = a[ix], e[ix]
            x = x.item() if isinstance(x, np.generic) else x
            y = y.item() if isinstance(y, np.generic) else y
            if not _close(x, y, digits):
                raise Violation(label, f"at {ix}: {x!r} instead of {y!r}")

    def eqcond(self, a, e):
        a, e = np.asarray(a), np.asarray(e)
        return a.shape == e.shape and all(
            _close(x, y, None) for x, y in zip(a.ravel().tolist(), e.ravel().tolist()))

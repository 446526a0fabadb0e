"""numpy stand-in: object-storage arrays that carry symbolic elements.

Everything concrete is delegated to the real numpy (same dtype), so only operations that
really see symbolic elements are interpreted here.
"""

from __future__ import annotations

import builtins
import io
import os

import numpy as np
import z3

from . import core, text
from .core import Sym, SymBool, SymFloat, SymInt, and_all, ite, or_all

NUM = "biuf"


def norm_dtype(dt):
    if dt is None:
        return None
    return np.dtype(dt)


# ---------------------------------------------------------------------------
# scalars
# ---------------------------------------------------------------------------
def scalar_dtype(x):
    """logical dtype of a scalar in np.asarray"""
    if isinstance(x, SymInt):
        return x.dtype if x.dtype is not None else np.dtype(np.int64)
    if isinstance(x, SymFloat):
        return x.dtype if x.dtype is not None else np.dtype(np.float64)
    if isinstance(x, SymBool):
        return np.dtype(bool)
    return np.asarray(x).dtype


def cast_scalar(x, dt):
    """x (Sym) converted to numpy dtype dt, C-cast semantics."""
    if dt.kind == "O":
        return x
    if not isinstance(x, Sym):
        return np.asarray(x).astype(dt)[()]
    n = dt.newbyteorder("=")
    if dt.kind in "iu":
        if isinstance(x, SymBool):
            x = x._i()
        if isinstance(x, SymFloat):
            if x.of_int is not None:
                x = x.to_int()
            else:
                return _float_to_int(x, n)
        if not isinstance(x, Sym):
            return n.type(x)
        t, lo, hi = core.wrap_int(x.t, x.lo, x.hi, n)
        if lo == hi:
            return n.type(lo)
        return SymInt(t, lo, hi, n)
    if dt.kind == "f":
        if isinstance(x, SymBool):
            x = x._i()
        if isinstance(x, SymInt):
            f = core.float_of_int(x, n)
            return f
        if n.itemsize == 8:
            if x.sort == core.F64:
                r = x.as_python()
            else:
                r = x.as_python()  # widens exactly
            r.dtype = n
            return r
        if n.itemsize == 4:
            if x.sort == core.F32:
                r = SymFloat(x.t, n)
                r.finite, r.of_int, r.of_int_lim, r.approx = x.finite, x.of_int, x.of_int_lim, x.approx
                return r
            if x.via is not None:
                v = x.via
                r = SymFloat(v.t, n)
                r.finite, r.of_int, r.of_int_lim, r.approx = v.finite, v.of_int, v.of_int_lim, v.approx
                return r
            r = SymFloat(z3.fpFPToFP(core.RNE, x.t, core.F32), n)
            r.approx = (x, 7)
            if x.of_int is not None:
                r.of_int, r.of_int_lim = x.of_int, min(x.of_int_lim, 2**24)
            return r
        raise core.Unsupported(f"cast to {dt}")
    if dt.kind == "b":
        return x != 0 if not isinstance(x, SymBool) else x
    if dt.kind in "US":
        return str(x) if dt.kind == "U" else str(x).encode()
    if dt.kind == "c":
        raise core.Unsupported("complex")
    raise core.Unsupported(f"cast to {dt}")


_F2I = {}


def _float_to_int(x, n):
    key = (str(n), str(x.sort))
    if key not in _F2I:
        _F2I[key] = z3.Function(f"trunc_{n}_{'64' if x.sort == core.F64 else '32'}", x.sort, z3.IntSort())
    t = _F2I[key](x.t)
    ii = np.iinfo(n)
    core.CTX.add(z3.And(t >= int(ii.min), t <= int(ii.max)))
    return SymInt(t, int(ii.min), int(ii.max), n)


def lower_el(x, dt):
    """storage form of a concrete scalar: plain Python number"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, np.generic):
        return x.item()
    return x


# ---------------------------------------------------------------------------
# the array class
# ---------------------------------------------------------------------------
def _any_sym(a):
    for x in a.ravel().tolist() if a.ndim else [a.item()]:
        if isinstance(x, Sym):
            return True
    return False


class SymArray(np.ndarray):
    _ld = None

    def __array_finalize__(self, obj):
        if obj is not None and self._ld is None:
            self._ld = getattr(obj, "_ld", None)

    @property
    def dtype(self):
        return self._ld

    @dtype.setter
    def dtype(self, dt):
        raise core.Unsupported("dtype assignment")

    @property
    def itemsize(self):
        return self._ld.itemsize

    @property
    def nbytes(self):
        return self._ld.itemsize * self.size

    @property
    def real(self):
        return self

    # -- helpers
    def raw(self):
        return np.ndarray.view(self, np.ndarray)

    def is_symbolic(self):
        return _any_sym(self.raw())

    def lower(self):
        """real numpy array; only for concrete content"""
        r = self.raw()
        if self._ld.kind in "US":
            return np.array(r.tolist(), dtype=self._ld).reshape(r.shape)
        return r.astype(self._ld)

    def concretise(self, why):
        r = self.raw()
        out = np.empty(r.shape, dtype=object)
        flat = out.reshape(-1)
        for i, x in enumerate(r.reshape(-1).tolist() if r.ndim else [r.item()]):
            if isinstance(x, SymBool):
                x = bool(x)
            elif isinstance(x, SymInt):
                if x.hi - x.lo > 64:
                    core.CTX.note_concretised(why)
                x = x.concrete(why)
            elif isinstance(x, SymFloat):
                x = x.concrete(why)
            flat[i] = x
        return out.reshape(r.shape).astype(self._ld)

    # -- element access
    def _wrap_out(self, r):
        if isinstance(r, SymArray):
            return r
        if isinstance(r, np.ndarray):
            return wrap(r, self._ld)
        return self._scalar(r)

    def _scalar(self, x):
        if isinstance(x, SymInt):
            return SymInt(x.t, x.lo, x.hi, self._ld.newbyteorder("=")) if self._ld.kind in "iu" else x
        if isinstance(x, SymFloat):
            n = self._ld.newbyteorder("=")
            if x.dtype == n:
                return x
            return cast_scalar(x, n)
        if isinstance(x, Sym):
            return x
        if self._ld.kind == "O":
            return x
        if self._ld.kind in "US":
            return np.str_(x) if self._ld.kind == "U" else np.bytes_(x)
        return self._ld.newbyteorder("=").type(x)

    def __getitem__(self, key):
        key = norm_key(key)
        k = key_kind(key)
        if k == "sym":
            return sym_getitem(self, key)
        r = np.ndarray.__getitem__(self, key)
        return self._wrap_out(r)

    def __setitem__(self, key, value):
        key = norm_key(key)
        v = to_storage(value, self._ld)
        if key_kind(key) == "sym":
            sym_setitem(self, key, v)
            return
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        np.ndarray.__setitem__(self, key, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(np_any(self == x))

    def item(self, *a):
        r = self.raw().item(*a)
        if isinstance(r, Sym):
            return r.as_python()
        return r

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            return x.as_python() if isinstance(x, Sym) else x

        return conv(self.raw().tolist())

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order="C"):
        return wrap(self.raw().copy(order), self._ld)

    def __copy__(self):
        return self.copy()

    def __bool__(self):
        if self.size == 1:
            return bool(self.raw().item())
        if self.size == 0:
            return False
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
        )

    def __index__(self):
        if self.ndim == 0 and self._ld.kind in "iu":
            return self.raw().item().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        if self.size == 1:
            return int(self.raw().item())
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __float__(self):
        if self.size == 1:
            return float(self.raw().item())
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __repr__(self):
        return f"array({self.raw().tolist()!r}, dtype={self._ld})"

    def __str__(self):
        return str(self.raw().tolist())

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self._scalar(self.raw().item()), spec)
        return np.ndarray.__format__(self.raw(), spec)

    def __reduce__(self):
        raise core.Unsupported("pickle")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # -- conversion
    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        dt = norm_dtype(dt)
        if dt == self._ld and not copy:
            return self
        return cast(self, dt)

    def byteswap(self, inplace=False):
        out = from_bytes_array(self.tobytes(), self._ld.newbyteorder("S")).reshape(self.shape)
        out = wrap(out.raw(), self._ld)
        if inplace:
            self.raw()[...] = out.raw()
            return self
        return out

    def newbyteorder(self, o="S"):
        return self.view(self._ld.newbyteorder(o))

    def view(self, *a, **k):
        dt = k.get("dtype", a[0] if a else None)
        if dt is None or dt is np.ndarray or dt is SymArray:
            return np.ndarray.view(self)
        if isinstance(dt, type) and issubclass(dt, np.ndarray):
            return np.ndarray.view(self)
        dt = np.dtype(dt)
        if dt == self._ld:
            return np.ndarray.view(self)
        if dt.fields is not None:
            return struct_from_bytes(self.tobytes(), dt)
        out = from_bytes_array(self.tobytes(), dt)
        if dt.itemsize == self._ld.itemsize:
            return out.reshape(self.shape)
        return out.reshape(self.shape[:-1] + (-1,))

    def tobytes(self, order="C"):
        return to_bytes(self, order)

    tostring = tobytes

    @property
    def data(self):
        return memoryview(self.tobytes())

    def tofile(self, fid, sep="", format="%s"):
        own = False
        if isinstance(fid, (str, os.PathLike)):
            fid = open(fid, "wb")
            own = True
        try:
            if sep == "":
                _write_file(fid, self.tobytes())
            else:
                _write_file(fid, self._text(sep, format).encode())
        finally:
            if own:
                fid.close()

    def _text(self, sep, fmt):
        parts = []
        for x in self.raw().ravel().tolist():
            if not isinstance(x, Sym):
                # numpy: format % item
                v = x
                if fmt in ("%s", ""):
                    if self._ld.kind == "f" and self._ld.itemsize == 4:
                        v = np.float32(x)
                    # the numpy C code uses repr/str of the Python item
                    parts.append(str(v.item() if isinstance(v, np.generic) else v))
                else:
                    parts.append(fmt % (v,))
            else:
                y = x.as_python()
                parts.append(str(y) if fmt in ("%s", "") else text.pct_format(fmt, (y,)))
        return sep.join(parts)

    # -- reductions etc.
    def any(self, axis=None, out=None, keepdims=False, **k):
        return np_any(self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np_all(self, axis, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis, dtype, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_prod(self, axis, dtype, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np_max(self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np_min(self, axis, keepdims)

    def mean(self, axis=None, **k):
        return call("mean", np.mean, (self, axis), k)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, **k):
        return call("argmax", np.argmax, (self, axis), {})

    def argmin(self, axis=None, **k):
        return call("argmin", np.argmin, (self, axis), {})

    def argsort(self, axis=-1, kind=None, order=None):
        return call("argsort", np.argsort, (self, axis), {"kind": kind})

    def sort(self, axis=-1, kind=None, order=None):
        r = call("sort", np.sort, (self, axis), {"kind": kind})
        self.raw()[...] = r.raw()

    def cumsum(self, axis=None, dtype=None, out=None):
        return call("cumsum", np.cumsum, (self, axis, dtype), {})

    def cumprod(self, axis=None, dtype=None, out=None):
        return call("cumprod", np.cumprod, (self, axis, dtype), {})

    def nonzero(self):
        return call("nonzero", np.nonzero, (self,), {})

    def searchsorted(self, v, side="left", sorter=None):
        return call("searchsorted", np.searchsorted, (self, v, side), {})

    def round(self, decimals=0, out=None):
        return call("round", np.round, (self, decimals), {})

    def clip(self, *a, **k):
        return call("clip", np.clip, (self, *a), k)

    def dot(self, o):
        return call("dot", np.dot, (self, o), {})

    def take(self, idx, axis=None, **k):
        return call("take", np.take, (self, idx, axis), {})

    def repeat(self, r, axis=None):
        return call("repeat", np.repeat, (self, r, axis), {})

    def tobase(self):
        return self

    def fill(self, v):
        self[...] = v

    def put(self, *a, **k):
        raise core.Unsupported("put")

    def setfield(self, *a, **k):
        raise core.Unsupported("setfield")

    def conj(self):
        return self

    conjugate = conj

    def diagonal(self, *a, **k):
        return call("diagonal", np.diagonal, (self, *a), k)

    def trace(self, *a, **k):
        return call("trace", np.trace, (self, *a), k)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, Sym):
            shape = int(shape)
        if isinstance(shape, (list, tuple, np.ndarray)):
            shape = tuple(int(s) for s in shape)
        return np.ndarray.reshape(self, shape, order=order)

    def resize(self, *a, **k):
        raise core.Unsupported("resize")

    # -- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        return do_ufunc(ufunc, method, inputs, out, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return call(func.__name__, func, args, kwargs)

    def __matmul__(self, o):
        return call("matmul", np.matmul, (self, o), {})

    def __rmatmul__(self, o):
        return call("matmul", np.matmul, (o, self), {})


def _with_scalars():
    """array <op> symbolic scalar: Sym opts out of ndarray's operators, so name them"""
    ops = dict(add=np.add, sub=np.subtract, mul=np.multiply, truediv=np.true_divide, floordiv=np.floor_divide, mod=np.remainder, pow=np.power,
               lshift=np.left_shift, rshift=np.right_shift)
    ops["and"], ops["or"], ops["xor"] = np.bitwise_and, np.bitwise_or, np.bitwise_xor
    cmps = dict(eq=np.equal, ne=np.not_equal, lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal)

    def mk(name, u, refl):
        base = getattr(np.ndarray, name)

        def f(self, o):
            if isinstance(o, Sym):
                return do_ufunc(u, "__call__", (o, self) if refl else (self, o), None, {})
            return base(self, o)

        f.__name__ = name
        setattr(SymArray, name, f)

    for n, u in ops.items():
        mk(f"__{n}__", u, False)
        mk(f"__r{n}__", u, True)
    for n, u in cmps.items():
        mk(f"__{n}__", u, False)
    SymArray.__hash__ = None


_with_scalars()


def _write_file(fid, b):
    if isinstance(fid, io.TextIOBase):
        # numpy writes to the underlying descriptor
        fid.flush()
        fid.buffer.write(b) if hasattr(fid, "buffer") else fid.write(b.decode())
        if hasattr(fid, "buffer"):
            fid.buffer.flush()
    else:
        fid.write(b)


def wrap(raw, ld):
    if raw.dtype != object:
        raw = raw.astype(object)
    r = np.ndarray.view(raw, SymArray)
    r._ld = np.dtype(ld)
    return r


def lift(a):
    """real ndarray -> SymArray (numeric, bool and string dtypes)"""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, np.ma.MaskedArray):
        a = np.asarray(a)
    if a.dtype.fields is not None:
        return struct_lift(a)
    if a.dtype.kind in NUM or a.dtype.kind in "US":
        return wrap(a.astype(object), a.dtype)
    return a


def lift_any(r):
    if isinstance(r, np.ndarray):
        return lift(r)
    if isinstance(r, tuple):
        if hasattr(r, "_fields"):
            return type(r)(*[lift_any(x) for x in r])
        return tuple(lift_any(x) for x in r)
    if isinstance(r, list):
        return [lift_any(x) for x in r]
    return r


def to_storage(value, ld):
    """value being assigned into an array of dtype ld -> scalar or object ndarray"""
    if isinstance(value, SymArray):
        if value._ld == ld:
            return value.raw()
        return cast(value, ld).raw()
    if isinstance(value, Sym):
        return cast_scalar(value, ld)
    if isinstance(value, (list, tuple)) or isinstance(value, np.ndarray):
        a = asarray(value)
        if isinstance(a, SymArray):
            if a._ld == ld:
                return a.raw()
            return cast(a, ld).raw()
        return a
    if ld.kind in NUM:
        if isinstance(value, (str, bytes)):
            return (text.parse_float(value) if ld.kind == "f" else text.parse_int(value))
        v = np.zeros((), dtype=ld)
        v[()] = value
        return v.item()
    return value


def cast(a, dt):
    dt = np.dtype(dt)
    if dt.kind == "O":
        return a.raw().copy()
    raw = a.raw()
    if a._ld.kind in "US":
        if dt.kind in NUM:
            f = {"f": text.parse_float, "i": text.parse_int, "u": text.parse_int, "b": lambda s: bool(int(s))}[dt.kind]
            out = np.empty(raw.shape, dtype=object)
            fl = out.reshape(-1)
            for i, x in enumerate(raw.reshape(-1).tolist() if raw.ndim else [raw.item()]):
                v = f(x)
                fl[i] = cast_scalar(v, dt) if isinstance(v, Sym) else np.array(v).astype(dt).item()
            return wrap(out.reshape(raw.shape), dt)
        return wrap(raw.copy(), dt)
    if not a.is_symbolic():
        return lift(a.lower().astype(dt))
    out = np.empty(raw.shape, dtype=object)
    fl = out.reshape(-1)
    src = raw.reshape(-1).tolist() if raw.ndim else [raw.item()]
    # concrete elements in one go
    conc = [0 if isinstance(x, Sym) else x for x in src]
    with np.errstate(all="ignore"):
        done = np.array(conc).astype(a._ld).astype(dt).astype(object).tolist() if conc else []
    for i, x in enumerate(src):
        fl[i] = cast_scalar(x, dt) if isinstance(x, Sym) else done[i]
    return wrap(out.reshape(raw.shape), dt)


def to_bytes(a, order="C"):
    raw = a.raw()
    if order == "F":
        raw = raw.T
    src = raw.reshape(-1).tolist() if raw.ndim else [raw.item()]
    ld = a._ld
    if ld.kind in "US":
        return np.array(src, dtype=ld).tobytes()
    syms = [i for i, x in enumerate(src) if isinstance(x, Sym)]
    conc = src if not syms else [0 if isinstance(x, Sym) else x for x in src]
    b = bytearray(np.array(conc, dtype=object).astype(ld).tobytes())
    n = ld.itemsize
    for i in syms:
        b[i * n : (i + 1) * n] = text.to_bytes(src[i], ld)
    return bytes(b)


def from_bytes_array(buf, dt):
    dt = np.dtype(dt)
    if dt.kind in NUM:
        vals = text.from_bytes(buf, dt)
        return wrap(vals, dt)
    return lift(np.frombuffer(buf, dtype=dt))


# ---------------------------------------------------------------------------
# construction
# ---------------------------------------------------------------------------
def _has_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_sym(y, depth + 1) for y in x)
    if isinstance(x, (str, bytes)):
        return False
    return False


def _has_handle_str(x):
    if isinstance(x, str):
        return text.has_handle(x)
    if isinstance(x, bytes):
        try:
            return text.has_handle(x.decode())
        except UnicodeDecodeError:
            return False
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_handle_str(y) for y in x)
    return False


def _shadow(x):
    """same structure with symbolic parts replaced by dtype-right concrete ones"""
    if isinstance(x, SymArray):
        return np.zeros(x.shape, dtype=x._ld)
    if isinstance(x, SymInt):
        return 0 if x.dtype is None else x.dtype.type(0)
    if isinstance(x, SymFloat):
        return 0.0 if x.dtype is None else x.dtype.type(0)
    if isinstance(x, SymBool):
        return False
    if isinstance(x, (list, tuple)):
        r = [_shadow(y) for y in x]
        if isinstance(x, tuple):
            return type(x)(*r) if hasattr(x, "_fields") else tuple(r)
        return r
    if isinstance(x, dict):
        return {k: _shadow(v) for k, v in x.items()}
    return x


def _objectify(x):
    """same structure, arrays -> object ndarrays (for data-movement functions)"""
    if isinstance(x, SymArray):
        return x.raw()
    if isinstance(x, np.ndarray) and x.dtype.kind in NUM:
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        r = [_objectify(y) for y in x]
        if isinstance(x, tuple):
            return type(x)(*r) if hasattr(x, "_fields") else tuple(r)
        return r
    return x


def asarray(x, dtype=None, copy=False, ndmin=0, order=None):
    dt = norm_dtype(dtype)
    if getattr(type(x), "_vp_dataset", False):
        x = x[()]
    if isinstance(x, SymArray):
        if dt is None or dt == x._ld:
            r = x.copy() if copy else x
        else:
            r = cast(x, dt)
        if order == "F":
            r = wrap(np.asfortranarray(r.raw()), r._ld)
    elif isinstance(x, SymRec):
        return x
    elif isinstance(x, Sym):
        d = dt or scalar_dtype(x)
        raw = np.empty((), dtype=object)
        raw[()] = cast_scalar(x, d)
        r = wrap(raw, d)
    elif isinstance(x, np.ndarray):
        r = np.array(x, dtype=dt, copy=copy) if dt is not None else (x.copy() if copy else x)
        r = lift(r)
    elif _has_sym(x):
        x = _materialise(x)
        sh = np.asarray(_shadow(x))  # raises like numpy for ragged input
        if sh.dtype == object:
            r = np.empty(sh.shape, dtype=object)
            r[...] = _objectify(x)
            return r
        d = dt or sh.dtype
        raw = np.empty(sh.shape, dtype=object)
        if sh.size:
            flat = raw.reshape(-1)
            items = []
            _flatten(x, items, sh.ndim)
            assert len(items) == flat.size, "shape"
            for i, v in enumerate(items):
                if isinstance(v, Sym):
                    flat[i] = cast_scalar(v, d)
                elif isinstance(v, (str, bytes)) and d.kind in NUM:
                    flat[i] = to_storage(v, d)
                else:
                    flat[i] = np.asarray(v).astype(d).item()
            raw = flat.reshape(sh.shape)
        r = wrap(raw, d)
    elif _has_handle_str(x):
        a = np.array(x)
        r = wrap(a.astype(object), a.dtype)
        if dt is not None:
            r = cast(r, dt)
    else:
        if isinstance(x, (range, map, zip)) or hasattr(x, "__next__"):
            pass
        r = lift(np.array(x, dtype=dt))
    if ndmin and isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _materialise(x):
    return x


def _flatten(x, out, nd):
    if nd == 0:
        if isinstance(x, SymArray):
            out.append(x.raw().item())
        elif isinstance(x, np.ndarray):
            out.append(x.item())
        else:
            out.append(x)
        return
    if isinstance(x, SymArray):
        out.extend(x.raw().reshape(-1).tolist())
        return
    if isinstance(x, np.ndarray):
        out.extend(x.reshape(-1).tolist())
        return
    for y in x:
        _flatten(y, out, nd - 1)


# ---------------------------------------------------------------------------
# indexing with symbolic integers / masks
# ---------------------------------------------------------------------------
def norm_key(key):
    if isinstance(key, tuple):
        return tuple(_nk(k) for k in key)
    return _nk(key)


def _nk(k):
    if isinstance(k, SymRec):
        raise core.Unsupported("record index")
    if isinstance(k, SymArray):
        if k._ld.kind == "b":
            # Boolean mask: the selected set is decided per element
            raw = k.raw()
            m = np.empty(raw.shape, dtype=bool)
            fl, src = m.reshape(-1), raw.reshape(-1).tolist() if raw.ndim else [raw.item()]
            for i, x in enumerate(src):
                fl[i] = bool(x)
            return m.reshape(raw.shape)
        if not k.is_symbolic():
            if k._ld.kind == "f":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return k.lower()
        return k
    if isinstance(k, list):
        if _has_sym(k):
            return _nk(asarray(k))
        return k
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymFloat):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`) are valid indices")
    if isinstance(k, slice):
        f = lambda v: v if v is None else (int(v) if isinstance(v, Sym) else v)
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def key_kind(key):
    ks = key if isinstance(key, tuple) else (key,)
    for k in ks:
        if isinstance(k, (SymInt, SymArray)):
            return "sym"
    return "plain"


def _norm_index(x, n):
    """symbolic index -> in-range non-negative (forks on IndexError)"""
    if not isinstance(x, Sym):
        x = int(x)
        if not -n <= x < n:
            raise IndexError(f"index {x} is out of bounds for axis 0 with size {n}")
        return x + n if x < 0 else x
    if x.lo >= 0 and x.hi < n:
        return x
    ok = and_all([x >= -n, x < n])
    if not bool(ok):
        raise IndexError(f"index is out of bounds for axis 0 with size {n}")
    if x.lo >= 0:
        r = x.as_python()
        return SymInt(r.t, max(r.lo, 0), min(r.hi, n - 1), None)
    y = ite(x < 0, x.as_python() + n, x.as_python())
    if isinstance(y, SymInt):
        return SymInt(y.t, max(y.lo, 0), min(y.hi, n - 1), None)
    return y


def _gather(vals, idx):
    """vals: list; idx normalised -> If-chain"""
    if not isinstance(idx, Sym):
        return vals[idx]
    lo, hi = max(idx.lo, 0), min(idx.hi, len(vals) - 1)
    if hi - lo > 256:
        core.CTX.note_concretised("gather over a long array")
        return vals[idx.concrete("gather")]
    cand = [(k, vals[k]) for k in range(lo, hi + 1)]
    r = cand[-1][1]
    for k, v in reversed(cand[:-1]):
        r = ite(SymBool(idx.t == k), v, r)
    return r


def sym_getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    # find the single symbolic position; move its axis to front
    pos = [i for i, k in enumerate(key) if isinstance(k, (SymInt, SymArray))]
    others = [
        i for i, k in enumerate(key)
        if i not in pos and not isinstance(k, slice) and k is not None and k is not Ellipsis
    ]
    if len(pos) == 1 and not others and not builtins.any(k is None or k is Ellipsis for k in key):
        p = pos[0]
        sl = tuple(slice(None) if i == p else k for i, k in enumerate(key))
        sub = np.ndarray.__getitem__(a.raw(), sl)
        n = sub.shape[p]
        sub = np.moveaxis(sub, p, 0)
        rest = sub.shape[1:]
        flat = sub.reshape(n, -1)
        k = key[p]
        idxs = [k] if isinstance(k, SymInt) else k.raw().reshape(-1).tolist()
        ishape = () if isinstance(k, SymInt) else k.shape
        out = np.empty((len(idxs), flat.shape[1]), dtype=object)
        cols = [flat[:, j].tolist() for j in range(flat.shape[1])]
        for i, x in enumerate(idxs):
            if n == 0:
                raise IndexError("index 0 is out of bounds for axis 0 with size 0")
            y = _norm_index(x, n)
            for j in range(flat.shape[1]):
                out[i, j] = _gather(cols[j], y)
        out = out.reshape(ishape + rest)
        if ishape and p > 0:
            nd = len(ishape)
            out = np.moveaxis(out, list(range(nd)), list(range(p, p + nd)))
        elif not ishape:
            pass
        if out.ndim == 0:
            return a._scalar(out.item())
        return wrap(out, a._ld)
    # general case: enumerate the index values
    key = tuple(_conc_key(k) for k in key)
    return a[key]


def _conc_key(k):
    if isinstance(k, SymInt):
        return k.concrete("index")
    if isinstance(k, SymArray):
        return k.concretise("index array")
    return k


def sym_setitem(a, key, v):
    if not isinstance(key, tuple):
        key = (key,)
    pos = [i for i, k in enumerate(key) if isinstance(k, (SymInt, SymArray))]
    if len(pos) == 1 and pos[0] == 0 and all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
        k = key[0]
        raw = a.raw()
        n = raw.shape[0]
        ishape = () if isinstance(k, SymInt) else k.shape
        idxs = [k] if isinstance(k, SymInt) else k.raw().reshape(-1).tolist()
        rest = raw.shape[1:]
        vv = np.empty(ishape + rest, dtype=object)
        vv[...] = v
        vv = vv.reshape((len(idxs), -1))
        flat = raw.reshape(n, -1)
        shares = np.shares_memory(flat, raw) if n else True
        for i, x in enumerate(idxs):
            y = _norm_index(x, n)
            for r in range(n):
                if not isinstance(y, Sym):
                    if r != y:
                        continue
                    for j in range(flat.shape[1]):
                        flat[r, j] = vv[i, j]
                    continue
                if r < y.lo or r > y.hi:
                    continue
                for j in range(flat.shape[1]):
                    flat[r, j] = ite(SymBool(y.t == r), vv[i, j], flat[r, j])
        if not shares:
            raw[...] = flat.reshape(raw.shape)
        return
    key = tuple(_conc_key(k) for k in key)
    np.ndarray.__setitem__(a, key, v)


# ---------------------------------------------------------------------------
# ufuncs
# ---------------------------------------------------------------------------
def _b_and(a, b):
    return and_all([a, b])


def _b_or(a, b):
    return or_all([a, b])


def _not(a):
    if isinstance(a, SymBool):
        return ~a
    if isinstance(a, Sym):
        return a == 0
    return not a


def _max2(a, b):
    if isinstance(a, SymFloat) or isinstance(b, SymFloat):
        r = a >= b
        return a if bool(r) else b
    return ite(_sb(a >= b), a, b)


def _min2(a, b):
    if isinstance(a, SymFloat) or isinstance(b, SymFloat):
        r = a <= b
        return a if bool(r) else b
    return ite(_sb(a <= b), a, b)


def _sb(x):
    return x


def _isnan(a):
    if isinstance(a, SymFloat):
        return SymBool(z3.fpIsNaN(a.t))
    if isinstance(a, Sym):
        return False
    return a != a


def _isfinite(a):
    if isinstance(a, SymFloat):
        return SymBool(z3.Not(z3.Or(z3.fpIsNaN(a.t), z3.fpIsInf(a.t))))
    if isinstance(a, Sym):
        return True
    return bool(np.isfinite(a))


def _isinf(a):
    if isinstance(a, SymFloat):
        return SymBool(z3.fpIsInf(a.t))
    if isinstance(a, Sym):
        return False
    return bool(np.isinf(a))


def _sqrt(a):
    if isinstance(a, SymInt):
        a = a.to_float(np.float64)
    if isinstance(a, SymFloat):
        return a.sqrt()
    return float(np.sqrt(a))


def _sign(a):
    if isinstance(a, Sym):
        return ite(_asb(a > 0), 1, ite(_asb(a < 0), -1, 0))
    return np.sign(a).item()


def _asb(x):
    return x


def _invert(a):
    if isinstance(a, bool):
        return not a
    return ~a


def _tdiv(a, b):
    if not isinstance(b, Sym):
        b = float(b) if not isinstance(b, float) else b
        if b == 0.0 and isinstance(a, Sym):
            if isinstance(a, SymInt):
                a = a.to_float(np.float64)
            b = np.float64(b)
    if isinstance(a, SymFloat) or isinstance(b, SymFloat):
        if isinstance(a, SymFloat):
            return a._bin(b, z3.fpDiv)
        return b._bin(a, z3.fpDiv, True)
    return a / b


UF = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": _tdiv,
    "true_divide": _tdiv,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "mod": lambda a, b: a % b,
    "power": lambda a, b: a**b,
    "negative": lambda a: -a,
    "positive": lambda a: +a,
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "logical_and": _b_and,
    "logical_or": _b_or,
    "logical_not": _not,
    "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b,
    "bitwise_xor": lambda a, b: a ^ b,
    "logical_xor": lambda a, b: (a != 0) ^ (b != 0),
    "invert": _invert,
    "bitwise_not": _invert,
    "left_shift": lambda a, b: a << b,
    "right_shift": lambda a, b: a >> b,
    "maximum": _max2,
    "minimum": _min2,
    "fmax": _max2,
    "fmin": _min2,
    "isnan": _isnan,
    "isfinite": _isfinite,
    "isinf": _isinf,
    "sqrt": _sqrt,
    "square": lambda a: a * a,
    "sign": _sign,
}


def _np_scalar(x, dt):
    """concrete storage element -> numpy scalar of its dtype (so arithmetic wraps)"""
    if isinstance(x, Sym):
        if isinstance(x, SymInt) and dt.kind in "iu":
            return SymInt(x.t, x.lo, x.hi, dt.newbyteorder("="))
        if isinstance(x, SymFloat) and dt.kind == "f" and x.dtype is None:
            return cast_scalar(x, dt)
        return x
    return x


def do_ufunc(ufunc, method, inputs, out, kwargs):
    ins = [x if isinstance(x, (Sym, SymArray)) else (
        lift(x) if isinstance(x, np.ndarray) else x) for x in inputs]
    ins = [asarray(x) if isinstance(x, (list, tuple)) else x for x in ins]
    sym = builtins.any(
        isinstance(x, Sym) or (isinstance(x, SymArray) and x.is_symbolic()) for x in ins
    )
    kwargs = dict(kwargs)
    if not sym:
        low = [x.lower() if isinstance(x, SymArray) else x for x in ins]
        if method == "at":
            np.ufunc.at(ufunc, *low)
            if isinstance(inputs[0], SymArray):
                inputs[0].raw()[...] = low[0].astype(object)
            return None
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                ol = o.lower() if not o.is_symbolic() else np.zeros(o.shape, o._ld)
                getattr(ufunc, method)(*low, out=ol, **kwargs)
                o.raw()[...] = ol.astype(object)
                return o
            return getattr(ufunc, method)(*low, out=out, **kwargs)
        return lift_any(getattr(ufunc, method)(*low, **kwargs))
    name = ufunc.__name__
    fn = UF.get(name)
    if fn is None:
        low = [
            x.concretise("ufunc " + name) if isinstance(x, SymArray)
            else (x.concrete("ufunc " + name) if isinstance(x, Sym) else x)
            for x in ins
        ]
        return lift_any(getattr(ufunc, method)(*low, **kwargs))
    if method == "outer":
        a, b = asarray(ins[0]), asarray(ins[1])
        return do_ufunc(
            ufunc, "__call__",
            (a.reshape(a.shape + (1,) * b.ndim), b), out, kwargs)
    if method == "reduce":
        return _reduce(ufunc, fn, asarray(ins[0]), **kwargs)
    if method == "accumulate":
        a = asarray(ins[0])
        ax = kwargs.get("axis", 0)
        dt = np.dtype(kwargs.get("dtype") or ufunc.accumulate(np.zeros(a.shape, a._ld), axis=ax).dtype)
        a = cast(a, dt)
        r = np.moveaxis(a.raw().copy(), ax, 0)
        for i in range(1, r.shape[0]):
            r[i] = ufunc(wrap(r[i - 1], dt), wrap(r[i], dt)).raw()
        return wrap(np.moveaxis(r, 0, ax), dt)
    if method == "at":
        a, idx = ins[0], ins[1]
        val = ins[2] if len(ins) > 2 else None
        idxs = list(asarray(idx)) if not isinstance(idx, (int, SymInt)) else [idx]
        vals = asarray(val)
        for k, i in enumerate(idxs):
            v = vals[k] if vals.ndim else vals[()]
            a[i] = fn(a[i], v)
        return None
    if method != "__call__":
        raise core.Unsupported(f"ufunc method {name}.{method}")
    where = kwargs.pop("where", True)
    if where is not True:
        raise core.Unsupported("ufunc where=")
    kdt = kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    shins = [_shadow(x) for x in ins]
    if name in ("divide", "true_divide", "floor_divide", "remainder", "mod"):
        shins[1] = np.ones_like(shins[1]) if isinstance(shins[1], np.ndarray) else type(shins[1])(1)
    with np.errstate(all="ignore"):
        sh = ufunc(*shins)
    rdt = np.dtype(kdt) if kdt is not None else sh.dtype
    # operand casting: numpy converts the operands to the loop dtype first
    ops = []
    cmp = rdt.kind == "b"
    for x in ins:
        if isinstance(x, SymArray):
            if not cmp and rdt.kind in "iuf" and x._ld.newbyteorder("=") != rdt and x._ld.kind in "biuf":
                x = cast(x, rdt)
            elif cmp and x._ld.kind == "b" and name in ("equal", "not_equal", "less", "greater"):
                pass
            ops.append(x.raw())
        elif isinstance(x, Sym):
            o = np.empty((), dtype=object)
            if not cmp and rdt.kind in "iuf":
                x = cast_scalar(x, rdt)
            o[()] = x
            ops.append(o)
        else:
            o = np.empty((), dtype=object)
            o[()] = x.item() if isinstance(x, np.generic) else x
            ops.append(o)
    bc = np.broadcast_arrays(*ops)
    shape = bc[0].shape
    res = np.empty(shape, dtype=object)
    fl = res.reshape(-1)
    cols = [b.reshape(-1).tolist() if b.ndim else [b.item()] for b in bc]
    for i in range(fl.size):
        args = [c[i] for c in cols]
        if builtins.any(isinstance(x, Sym) for x in args):
            args = [_np_scalar(x, rdt) if not cmp else x for x in args]
            v = fn(*args)
        else:
            with np.errstate(all="ignore"):
                if cmp:
                    v = ufunc(*args)
                else:
                    v = ufunc(*[np.asarray(x).astype(rdt) for x in args])
            v = v.item() if isinstance(v, (np.generic, np.ndarray)) else v
        if isinstance(v, np.generic):
            v = v.item()
        if rdt.kind in "iuf" and isinstance(v, Sym):
            v = cast_scalar(v, rdt)
            if isinstance(v, np.generic):
                v = v.item()
        fl[i] = v
    res = fl.reshape(shape)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SymArray):
            raise core.Unsupported("ufunc out= into a plain array")
        if not np.can_cast(rdt, o._ld, casting="same_kind"):
            raise np.core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", rdt, o._ld, 0)
        o.raw()[...] = cast(wrap(res, rdt), o._ld).raw()
        return o
    if res.ndim == 0 and not builtins.any(isinstance(x, SymArray) and x.ndim == 0 and False for x in ins):
        return wrap(res, rdt)._scalar(res.item())
    return wrap(res, rdt)


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, tuple):
        return tuple(a % nd for a in axis)
    return (int(axis) % nd,)


def _reduce(ufunc, fn, a, axis=0, dtype=None, keepdims=False, initial=None, **kw):
    kw.pop("out", None)
    kw.pop("where", None)
    nd = a.ndim
    with np.errstate(all="ignore"):
        sh = ufunc.reduce(np.zeros(a.shape, a._ld), axis=axis, dtype=dtype, keepdims=keepdims,
                          **({} if initial is None else {"initial": initial}))
    rdt = sh.dtype
    axes = _axes(axis, nd)
    keep = [i for i in range(nd) if i not in axes]
    r = a.raw()
    if rdt.kind in "iuf" and a._ld != rdt:
        r = cast(a, rdt).raw()
    r = np.transpose(r, keep + list(axes)).reshape(tuple(r.shape[i] for i in keep) + (-1,))
    oshape = r.shape[:-1]
    flat = r.reshape((int(np.prod(oshape, dtype=int)), r.shape[-1]))
    out = np.empty(len(flat), dtype=object)
    name = ufunc.__name__
    for i, row in enumerate(flat.tolist()):
        if name == "logical_and":
            out[i] = and_all(row)
            continue
        if name == "logical_or":
            out[i] = or_all(row)
            continue
        items = list(row)
        acc = initial
        for v in items:
            v = _np_scalar(v, rdt)
            acc = v if acc is None else fn(acc, v)
        if acc is None:
            acc = ufunc.identity
        out[i] = acc.item() if isinstance(acc, np.generic) else acc
    if keepdims:
        oshape = tuple(1 if i in axes else a.shape[i] for i in range(nd))
    out = out.reshape(oshape)
    if out.ndim == 0:
        return wrap(out, rdt)._scalar(out.item())
    return wrap(out, rdt)


# ---------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------
STRUCT = {
    "concatenate", "stack", "hstack", "vstack", "dstack", "column_stack", "row_stack",
    "reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "squeeze",
    "expand_dims", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_to", "tile",
    "repeat", "flip", "fliplr", "flipud", "roll", "rot90", "split", "array_split", "hsplit",
    "vsplit", "dsplit", "append", "delete", "insert", "pad", "block", "copy", "diagonal",
    "broadcast_arrays", "ascontiguousarray", "asfortranarray", "resize", "tril", "triu", "diag",
    "trim_zeros",
}


def _contains(x, pred):
    if pred(x):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains(y, pred) for y in x)
    if isinstance(x, dict):
        return builtins.any(_contains(y, pred) for y in x.values())
    return False


def _is_symbolic(x):
    return isinstance(x, Sym) or (isinstance(x, SymArray) and x.is_symbolic())


def _lower_any(x):
    if isinstance(x, SymArray):
        return x.lower()
    if isinstance(x, SymRec):
        return x.lower()
    if isinstance(x, (list, tuple)):
        r = [_lower_any(y) for y in x]
        if isinstance(x, tuple):
            return type(x)(*r) if hasattr(x, "_fields") else tuple(r)
        return r
    if isinstance(x, dict):
        return {k: _lower_any(v) for k, v in x.items()}
    return x


def _concretise_any(x, why):
    if isinstance(x, SymArray):
        return x.concretise(why)
    if isinstance(x, Sym):
        return x.concrete(why) if not isinstance(x, SymBool) else bool(x)
    if isinstance(x, (list, tuple)):
        r = [_concretise_any(y, why) for y in x]
        if isinstance(x, tuple):
            return type(x)(*r) if hasattr(x, "_fields") else tuple(r)
        return r
    if isinstance(x, dict):
        return {k: _concretise_any(v, why) for k, v in x.items()}
    return x


def _handle_result(r):
    return lift_any(r)


def call(name, func, args, kwargs):
    kwargs = {k: v for k, v in kwargs.items() if v is not None or k in ("axis",)}
    if isinstance(func, np.ufunc):
        out = kwargs.pop("out", None)
        return do_ufunc(func, "__call__", args, out, kwargs)
    if name in ALWAYS:
        return ALWAYS[name](*args, **kwargs)
    out = kwargs.get("out")
    if isinstance(out, SymArray):
        kwargs = {k: v for k, v in kwargs.items() if k != "out"}
        r = call(name, func, args, kwargs)
        out[...] = r
        return out
    if not _contains(args, _is_symbolic) and not _contains(kwargs, _is_symbolic):
        return _handle_result(func(*_lower_any(args), **_lower_any(kwargs)))
    if name in SPECIAL:
        return SPECIAL[name](*args, **kwargs)
    if name in STRUCT:
        return structural(func, args, kwargs)
    core.CTX.note_concretised("np." + name)
    return _handle_result(func(*_concretise_any(args, "np." + name), **_concretise_any(kwargs, "np." + name)))


def _counts_lower(name, args, kwargs):
    """shape-controlling arguments must be concrete"""
    return args, kwargs


def structural(func, args, kwargs):
    # shape-controlling integer arguments
    a2, k2 = list(args), dict(kwargs)
    for i in range(1, len(a2)):
        if isinstance(a2[i], SymInt) and func.__name__ not in ("append", "insert", "pad"):
            a2[i] = a2[i].concrete("shape argument")
        elif isinstance(a2[i], SymArray) and func.__name__ in ("repeat", "split", "array_split", "reshape", "delete"):
            a2[i] = a2[i].concretise("shape argument")
        elif isinstance(a2[i], (list, tuple)) and func.__name__ in ("split", "reshape", "array_split"):
            a2[i] = type(a2[i])(int(x) for x in a2[i])
    if func.__name__ in ("insert",) and not isinstance(a2[1], (int, slice)):
        a2[1] = _concretise_any(a2[1], "insert position")
    if func.__name__ == "delete":
        a = a2[0] if isinstance(a2[0], SymArray) else asarray(a2[0])
        ax = a2[2] if len(a2) > 2 else k2.get("axis")
        if ax is None:
            a, ax = a.reshape(-1), 0
        pos = np.delete(np.arange(a.shape[ax]), _concretise_any(a2[1] if len(a2) > 1 else k2["obj"], "delete position"))
        return a[(slice(None),) * (ax % a.ndim) + (pos,)]
    args = tuple(a2)
    dt = k2.pop("dtype", None)
    k2.pop("casting", None)
    sh = func(*_shadow(args), **_shadow(k2))
    extra = {}
    real = func(*_objectify(args), **_objectify(k2))
    r = _rewrap(real, sh)
    if dt is not None:
        r = cast(r, np.dtype(dt))
    return r


def _rewrap(real, sh):
    if isinstance(sh, np.ndarray):
        if not isinstance(real, np.ndarray):
            real = np.asarray(real, dtype=object)
        if sh.dtype == object:
            return real
        out = np.empty(real.shape, dtype=object)
        fl = out.reshape(-1)
        src = real.reshape(-1).tolist() if real.ndim else [real.item()]
        k = sh.dtype.kind
        view = True
        for i, x in enumerate(src):
            if isinstance(x, Sym):
                y = cast_scalar(x, sh.dtype) if _needs_cast(x, sh.dtype) else x
            elif k == "f" and not isinstance(x, float):
                y = float(x)
            else:
                y = x
            if y is not x:
                view = False
            fl[i] = y
        if view and real.dtype == object:
            return wrap(real, sh.dtype)
        return wrap(fl.reshape(real.shape), sh.dtype)
    if isinstance(sh, tuple):
        return tuple(_rewrap(r, s) for r, s in zip(real, sh))
    if isinstance(sh, list):
        return [_rewrap(r, s) for r, s in zip(real, sh)]
    return real


def _needs_cast(x, dt):
    if isinstance(x, SymInt):
        return dt.kind == "f" or x.dtype is None or x.dtype != dt.newbyteorder("=")
    if isinstance(x, SymFloat):
        return dt.kind != "f" or x.dtype is None or x.dtype != dt.newbyteorder("=")
    if isinstance(x, SymBool):
        return dt.kind != "b"
    return False


# -- value dependent functions ----------------------------------------------
def np_any(a, axis=None, keepdims=False, **k):
    a = asarray(a)
    if not a.is_symbolic():
        return lift_any(np.any(a.lower(), axis=axis, keepdims=keepdims))
    return _reduce(np.logical_or, None, a, axis=axis, keepdims=keepdims)


def np_all(a, axis=None, keepdims=False, **k):
    a = asarray(a)
    if not a.is_symbolic():
        return lift_any(np.all(a.lower(), axis=axis, keepdims=keepdims))
    return _reduce(np.logical_and, None, a, axis=axis, keepdims=keepdims)


def np_sum(a, axis=None, dtype=None, keepdims=False, **k):
    a = asarray(a)
    if not a.is_symbolic():
        return lift_any(np.sum(a.lower(), axis=axis, dtype=dtype, keepdims=keepdims))
    return _reduce(np.add, UF["add"], a, axis=axis, dtype=dtype, keepdims=keepdims)


def np_prod(a, axis=None, dtype=None, keepdims=False, **k):
    a = asarray(a)
    if not a.is_symbolic():
        return lift_any(np.prod(a.lower(), axis=axis, dtype=dtype, keepdims=keepdims))
    return _reduce(np.multiply, UF["multiply"], a, axis=axis, dtype=dtype, keepdims=keepdims)


def np_max(a, axis=None, keepdims=False, **k):
    a = asarray(a)
    if not a.is_symbolic():
        return lift_any(np.max(a.lower(), axis=axis, keepdims=keepdims, **k))
    return _reduce(np.maximum, _max2, a, axis=axis, keepdims=keepdims, **k)


def np_min(a, axis=None, keepdims=False, **k):
    a = asarray(a)
    if not a.is_symbolic():
        return lift_any(np.min(a.lower(), axis=axis, keepdims=keepdims, **k))
    return _reduce(np.minimum, _min2, a, axis=axis, keepdims=keepdims, **k)


def np_where(cond, *rest):
    cond = asarray(cond)
    if not rest:
        return np_nonzero(cond)
    x, y = asarray(rest[0]), asarray(rest[1])
    sh = np.where(np.zeros(cond.shape, bool), _shadow(x if x.ndim else rest[0]), _shadow(y if y.ndim else rest[1]))
    x, y = cast(x, sh.dtype), cast(y, sh.dtype)
    c, a, b = np.broadcast_arrays(cond.raw(), x.raw(), y.raw())
    out = np.empty(c.shape, dtype=object)
    fl = out.reshape(-1)
    for i, (p, q, r) in enumerate(zip(c.reshape(-1).tolist(), a.reshape(-1).tolist(), b.reshape(-1).tolist())):
        if isinstance(p, Sym) and not isinstance(p, SymBool):
            p = p != 0
        fl[i] = ite(p, q, r)
    return wrap(fl.reshape(c.shape), sh.dtype)


def np_nonzero(a):
    a = asarray(a)
    raw = a.raw()
    m = np.empty(raw.shape, dtype=bool)
    fl = m.reshape(-1)
    for i, x in enumerate(raw.reshape(-1).tolist()):
        fl[i] = bool(x)
    return lift_any(np.nonzero(m))


def _less(a, b):
    return bool(a < b)


def _stable_order(vals):
    """stable merge sort of indices by forking on comparisons"""
    def ms(ix):
        if len(ix) <= 1:
            return ix
        h = len(ix) // 2
        l, r = ms(ix[:h]), ms(ix[h:])
        out = []
        i = j = 0
        while i < len(l) and j < len(r):
            if _lessv(vals[r[j]], vals[l[i]]):
                out.append(r[j])
                j += 1
            else:
                out.append(l[i])
                i += 1
        return out + l[i:] + r[j:]

    return ms(list(range(len(vals))))


def _lessv(a, b):
    if isinstance(a, (list, tuple)):
        for x, y in zip(a, b):
            if bool(x < y):
                return True
            if bool(y < x):
                return False
        return False
    return bool(a < b)


def _eqv(a, b):
    if isinstance(a, (list, tuple)):
        return builtins.all(bool(x == y) for x, y in zip(a, b))
    return bool(a == b)


def np_argsort(a, axis=-1, kind=None, **k):
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    r = np.moveaxis(a.raw(), axis, -1)
    flat = r.reshape(-1, r.shape[-1])
    out = np.empty(flat.shape, dtype=np.int64)
    for i, row in enumerate(flat.tolist()):
        out[i] = _stable_order(row)
    return lift(np.moveaxis(out.reshape(r.shape), -1, axis))


def np_sort(a, axis=-1, kind=None, **k):
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    r = np.moveaxis(a.raw(), axis, -1)
    flat = r.reshape(-1, r.shape[-1])
    out = np.empty(flat.shape, dtype=object)
    for i, row in enumerate(flat.tolist()):
        o = _stable_order(row)
        for j, p in enumerate(o):
            out[i, j] = row[p]
    return wrap(np.moveaxis(out.reshape(r.shape), -1, axis), a._ld)


def np_lexsort(keys, axis=-1):
    ks = [asarray(k).raw().tolist() for k in keys]
    vals = list(zip(*reversed(ks)))
    return lift(np.array(_stable_order(vals), dtype=np.int64))


def np_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarray(ar)
    if axis is None:
        items = a.raw().reshape(-1).tolist()
        rows = None
    else:
        r = np.moveaxis(a.raw(), axis, 0)
        rows = r.reshape(r.shape[0], -1)
        items = [tuple(x) for x in rows.tolist()]
    order = _stable_order(items)
    groups = []
    for p in order:
        if groups and _eqv(items[groups[-1][0]], items[p]):
            groups[-1].append(p)
        else:
            groups.append([p])
    if axis is None:
        u = np.empty(len(groups), dtype=object)
        for i, g in enumerate(groups):
            u[i] = items[g[0]]
        u = wrap(u, a._ld)
    else:
        u = rows[[g[0] for g in groups]].reshape((len(groups),) + r.shape[1:])
        u = wrap(np.moveaxis(u, 0, axis), a._ld)
    out = [u]
    if return_index:
        out.append(lift(np.array([min(g) for g in groups], dtype=np.int64)))
    if return_inverse:
        inv = np.empty(len(items), dtype=np.int64)
        for i, g in enumerate(groups):
            inv[g] = i
        out.append(lift(inv))
    if return_counts:
        out.append(lift(np.array([len(g) for g in groups], dtype=np.int64)))
    return out[0] if len(out) == 1 else tuple(out)


def np_isin(element, test_elements, assume_unique=False, invert=False, **k):
    a, b = asarray(element), asarray(test_elements)
    bl = b.raw().reshape(-1).tolist()
    out = np.empty(a.shape, dtype=object)
    fl = out.reshape(-1)
    for i, x in enumerate(a.raw().reshape(-1).tolist() if a.ndim else [a.raw().item()]):
        r = or_all([x == y for y in bl])
        fl[i] = (~r if isinstance(r, SymBool) else not r) if invert else r
    return wrap(fl.reshape(a.shape), bool)


def np_diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    for _ in range(int(n)):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        x, y = a[tuple(sl1)], a[tuple(sl2)]
        a = (x != y) if a._ld.kind == "b" else x - y
    return a


def np_cumsum(a, axis=None, dtype=None, **k):
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    dt = np.cumsum(np.zeros(1, a._ld), dtype=dtype).dtype
    return do_ufunc(np.add, "accumulate", (a,), None, {"axis": axis, "dtype": dt})


def np_bincount(x, weights=None, minlength=0):
    if weights is not None:
        raise core.Unsupported("bincount weights")
    a = asarray(x)
    items = a.raw().tolist()
    m = 0
    for v in items:
        m = _max2(m, v)
    m = int(m)
    n = max(m + 1, int(minlength)) if items else int(minlength)
    out = np.empty(n, dtype=object)
    for k in range(n):
        s = 0
        for v in items:
            e = v == k
            s = s + (e._i() if isinstance(e, SymBool) else int(e))
        out[k] = s
    return wrap(out, np.int64)


def np_searchsorted(a, v, side="left", sorter=None):
    a = asarray(a)
    vv = asarray(v)
    arr = a.raw().tolist()
    out = np.empty(vv.shape, dtype=object)
    fl = out.reshape(-1)
    for i, x in enumerate(vv.raw().reshape(-1).tolist() if vv.ndim else [vv.raw().item()]):
        s = 0
        for y in arr:
            e = (y < x) if side == "left" else (y <= x)
            s = s + (e._i() if isinstance(e, SymBool) else int(e))
        fl[i] = s
    out = fl.reshape(vv.shape)
    return wrap(out, np.int64) if out.ndim else wrap(out, np.int64)._scalar(out.item())


def np_digitize(x, bins, right=False):
    b = asarray(bins)
    return np_searchsorted(b, x, side="left" if right else "right")


def np_argminmax(less):
    def f(a, axis=None, **k):
        a = asarray(a)
        if axis is not None and a.ndim > 1:
            r = np.moveaxis(a.raw(), axis, -1)
            flat = r.reshape(-1, r.shape[-1])
            out = np.array([_one(row) for row in flat.tolist()], dtype=np.int64)
            return lift(out.reshape(r.shape[:-1]))
        return np.int64(_one(a.raw().reshape(-1).tolist()))

    def _one(row):
        if not row:
            raise ValueError("attempt to get argmax of an empty sequence")
        b = 0
        for i in range(1, len(row)):
            if (bool(row[i] < row[b]) if less else bool(row[i] > row[b])):
                b = i
        return b

    return f


def np_dot(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return np_sum(a * b)
    if b.ndim == 1:
        return np_sum(a * b, axis=-1)
    if a.ndim <= 2 and b.ndim == 2:
        aa = a if a.ndim == 2 else a.reshape(1, -1)
        r = np_sum(aa.reshape(aa.shape[0], aa.shape[1], 1) * b.reshape((1,) + b.shape), axis=1)
        return r if a.ndim == 2 else r.reshape(-1)
    raise core.Unsupported("dot of high rank")


def np_cross(a, b, *r, **k):
    a, b = asarray(a), asarray(b)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise core.Unsupported("cross of 2d vectors")
    x = lambda i: a[..., i]
    y = lambda i: b[..., i]
    cols = [x(1) * y(2) - x(2) * y(1), x(2) * y(0) - x(0) * y(2), x(0) * y(1) - x(1) * y(0)]
    return structural(np.stack, ([asarray(c) for c in cols],), {"axis": -1})


def np_einsum(sub, *ops, **k):
    ops = [asarray(o) for o in ops]
    ins, out = sub.replace(" ", "").split("->")
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    dt = np.einsum(sub, *[np.zeros(o.shape, o._ld) for o in ops]).dtype
    contracted = [c for c in dims if c not in out]
    import itertools

    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        acc = 0
        for ci in itertools.product(*[range(dims[c]) for c in contracted]):
            env.update(zip(contracted, ci))
            p = None
            for s, o in zip(ins, ops):
                v = _np_scalar(o.raw()[tuple(env[c] for c in s)], o._ld)
                p = v if p is None else p * v
            acc = p if (isinstance(acc, int) and acc == 0) else acc + p
        res[oi] = acc
    if res.ndim == 0:
        return res.item()
    return wrap(res, dt)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asarray(a), asarray(b)
    return np_all(do_ufunc(np.less_equal, "__call__", (abs(a - b), atol + rtol * abs(b)), None, {}))


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asarray(a), asarray(b)
    return do_ufunc(np.less_equal, "__call__", (abs(a - b), atol + rtol * abs(b)), None, {})


def np_array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    r = np_all(a == b)
    return r if isinstance(r, SymBool) else bool(r)


def np_take(a, idx, axis=None, **k):
    a = asarray(a)
    if axis is None:
        return a.reshape(-1)[idx if isinstance(idx, (int, SymInt)) else asarray(idx)]
    key = [slice(None)] * a.ndim
    key[axis] = idx if isinstance(idx, (int, SymInt)) else asarray(idx)
    return a[tuple(key)]


def np_linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
    num = int(num)
    div = (num - 1) if endpoint else num
    start, stop = asarray(start) * 1.0, asarray(stop) * 1.0
    start = start[()] if isinstance(start, SymArray) else start
    stop = stop[()] if isinstance(stop, SymArray) else stop
    delta = stop - start
    out = []
    step = delta / div if div > 0 else None
    for i in range(num):
        out.append(start if div <= 0 else (np.float64(i) * step + start))
    if endpoint and num > 1:
        out[-1] = stop
    return asarray(out, dtype=dtype or np.float64)


def np_clip(a, lo=None, hi=None, **k):
    a = asarray(a)
    if lo is not None:
        a = do_ufunc(np.maximum, "__call__", (a, lo), None, {})
    if hi is not None:
        a = do_ufunc(np.minimum, "__call__", (a, hi), None, {})
    return a


def np_count_nonzero(a, axis=None, **k):
    a = asarray(a)
    return np_sum((a != 0) if a._ld.kind != "b" else a, axis=axis)


def np_mean(a, axis=None, **k):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return np_sum(a, axis=axis) / n


def np_in1d(a, b, **k):
    return np_isin(asarray(a).reshape(-1), b, **k)


def np_full_like(a, v, dtype=None, **k):
    a = asarray(a)
    return full(a.shape, v, dtype or a._ld)


def np_flatnonzero(a):
    return np_nonzero(asarray(a).reshape(-1))[0]


def np_argwhere(a):
    a = asarray(a)
    return structural(np.transpose, ([x for x in np_nonzero(a)],), {}) if False else lift(
        np.argwhere(_mask(a)))


def _mask(a):
    raw = a.raw()
    m = np.empty(raw.shape, dtype=bool)
    fl = m.reshape(-1)
    for i, x in enumerate(raw.reshape(-1).tolist()):
        fl[i] = bool(x)
    return m


def np_intersect1d(a, b, **k):
    u = np_unique(a)
    return u[np_isin(u, b)]


def np_setdiff1d(a, b, **k):
    u = np_unique(a)
    return u[np_isin(u, b, invert=True)]


def np_union1d(a, b):
    return np_unique(structural(np.concatenate, ([asarray(a).reshape(-1), asarray(b).reshape(-1)],), {}))


def np_norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2):
        raise core.Unsupported("norm ord")
    return do_ufunc(np.sqrt, "__call__", (np_sum(x * x, axis=axis, keepdims=keepdims),), None, {})


SPECIAL = {
    "any": np_any, "all": np_all, "sum": np_sum, "prod": np_prod, "max": np_max, "amax": np_max,
    "min": np_min, "amin": np_min, "where": np_where, "nonzero": np_nonzero,
    "argsort": np_argsort, "sort": np_sort, "unique": np_unique, "isin": np_isin, "in1d": np_in1d,
    "diff": np_diff, "cumsum": np_cumsum, "bincount": np_bincount, "searchsorted": np_searchsorted,
    "digitize": np_digitize, "argmin": np_argminmax(True), "argmax": np_argminmax(False),
    "dot": np_dot, "matmul": np_dot, "cross": np_cross, "einsum": np_einsum, "allclose": np_allclose,
    "isclose": np_isclose, "array_equal": np_array_equal, "take": np_take, "linspace": np_linspace,
    "clip": np_clip, "count_nonzero": np_count_nonzero, "mean": np_mean, "lexsort": np_lexsort,
    "flatnonzero": np_flatnonzero, "argwhere": np_argwhere, "intersect1d": np_intersect1d,
    "setdiff1d": np_setdiff1d, "union1d": np_union1d, "norm": np_norm, "abs": lambda a: abs(asarray(a)),
    "ptp": lambda a, axis=None: asarray(a).ptp(axis),
    "cumprod": lambda a, axis=None, dtype=None: do_ufunc(
        np.multiply, "accumulate", (asarray(a).reshape(-1) if axis is None else asarray(a),), None, {"axis": axis or 0}),
    "inner": np_dot,
    "alltrue": np_all, "sometrue": np_any,
}


def empty(shape, dtype=float, order="C", **k):
    dt = np.dtype(dtype)
    shape = _shape(shape)
    if dt.fields is not None:
        return struct_lift(np.zeros(shape, dt))
    if dt.kind not in NUM and dt.kind not in "US":
        return np.empty(shape, dt)
    return lift(np.zeros(shape, dt, order=order))


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s)
    return int(s)


def full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is None:
        dtype = asarray(fill_value).dtype
    r = empty(shape, dtype, order)
    r[...] = fill_value
    return r


def _like(fn):
    def f(a, dtype=None, *r, **k):
        if not isinstance(a, np.ndarray):
            a = asarray(a)
        sh = k.get("shape", a.shape)
        return fn(sh, dtype if dtype is not None else a.dtype)

    return f


def ones(shape, dtype=float, order="C", **k):
    return full(shape, 1, dtype if dtype is not None else float)


def arange(*a, dtype=None, **k):
    a = [x if not isinstance(x, (Sym, SymArray)) else int(x) for x in a]
    k = {kk: (int(v) if isinstance(v, (Sym, SymArray)) else v) for kk, v in k.items()}
    return lift(np.arange(*a, dtype=dtype, **k))


ALWAYS = {
    "zeros_like": _like(lambda s, d: full(s, 0, d)),
    "ones_like": _like(lambda s, d: full(s, 1, d)),
    "empty_like": _like(lambda s, d: empty(s, d)),
    "full_like": np_full_like,
    "size": lambda a, axis=None: (a.size if axis is None else a.shape[axis]) if isinstance(a, (np.ndarray, Sym)) else np.size(_shadow(a), axis),
    "shape": lambda a: a.shape if isinstance(a, (np.ndarray, Sym)) else np.shape(_shadow(a)),
    "ndim": lambda a: a.ndim if isinstance(a, (np.ndarray, Sym)) else np.ndim(_shadow(a)),
    "array_equal": np_array_equal,
    "result_type": lambda *a: np.result_type(*[_shadow(x) for x in a]),
    "can_cast": lambda *a, **k: np.can_cast(*[_shadow(x) for x in a], **k),
    "iscomplexobj": lambda x: False,
    "issubdtype": np.issubdtype,
    "may_share_memory": lambda a, b, *r: np.may_share_memory(a.raw() if isinstance(a, SymArray) else a, b.raw() if isinstance(b, SymArray) else b),
    "shares_memory": lambda a, b, *r: np.shares_memory(a.raw() if isinstance(a, SymArray) else a, b.raw() if isinstance(b, SymArray) else b),
}


# ---------------------------------------------------------------------------
# structured arrays
# ---------------------------------------------------------------------------
class SymRec:
    """Structured array with symbolic fields (data movement only)."""

    def __init__(self, dtype, shape, cols):
        self.dtype = np.dtype(dtype)
        self.shape = shape
        self.cols = cols  # name -> SymArray of shape + subshape

    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: int(np.prod(s.shape, dtype=int)))

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError(f"no field of name {k}")
            return self.cols[k]
        if isinstance(k, list) and k and isinstance(k[0], str):
            return SymRec(self.dtype[k], self.shape, {n: self.cols[n] for n in k})
        if isinstance(k, (int, np.integer)) and len(self.shape) == 1:
            return SymRow(self, int(k))
        r = {n: c[k] for n, c in self.cols.items()}
        sub = np.empty(self.shape, dtype=np.int8)[k].shape
        return SymRec(self.dtype, sub, r)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.cols[k][...] = v
            return
        if isinstance(v, (tuple, list)):
            for n, x in zip(self.dtype.names, v):
                self.cols[n][k] = x
            return
        for n in self.dtype.names:
            self.cols[n][k] = v[n]

    def __getattr__(self, k):
        c = self.__dict__.get("cols")
        if c and k in c:
            return c[k]
        raise AttributeError(k)

    def __iter__(self):
        for i in range(len(self)):
            yield SymRow(self, i)

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, *a):
        return SymRec(self.dtype, self.shape, {n: c.copy() for n, c in self.cols.items()})

    def reshape(self, *s):
        shp = np.empty(self.shape, dtype=np.int8).reshape(*s).shape
        return SymRec(self.dtype, shp, {
            n: c.reshape(shp + c.shape[len(self.shape):]) for n, c in self.cols.items()})

    def tobytes(self, *a):
        n = self.size
        out = bytearray(n * self.dtype.itemsize)
        for name in self.dtype.names:
            fdt, off = self.dtype.fields[name][:2]
            base = fdt.base
            sub = int(np.prod(fdt.shape, dtype=int)) if fdt.shape else 1
            c = self.cols[name]
            if isinstance(c, SymArray):
                b = cast(c, base).tobytes() if c._ld != base else c.tobytes()
            else:
                b = np.asarray(c, dtype=base).tobytes()
            w = sub * base.itemsize
            for i in range(n):
                p = i * self.dtype.itemsize + off
                out[p : p + w] = b[i * w : (i + 1) * w]
        return bytes(out)

    def tofile(self, fid, sep="", format="%s"):
        if sep != "":
            raise core.Unsupported("structured tofile(sep)")
        if isinstance(fid, (str, os.PathLike)):
            with open(fid, "wb") as f:
                f.write(self.tobytes())
        else:
            _write_file(fid, self.tobytes())

    def lower(self):
        a = np.zeros(self.shape, self.dtype)
        for n in self.dtype.names:
            a[n] = self.cols[n].lower()
        return a

    def is_symbolic(self):
        return builtins.any(isinstance(c, SymArray) and c.is_symbolic() for c in self.cols.values())

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        return SymRec(dt, self.shape, {
            n: cast(self.cols[m], dt.fields[n][0].base) for n, m in zip(dt.names, self.dtype.names)})

    def tolist(self):
        return [tuple(self.cols[n][i].tolist() if isinstance(self.cols[n][i], (np.ndarray, Sym, np.generic)) else self.cols[n][i]
                      for n in self.dtype.names) for i in range(len(self))]

    def view(self, dt=None, *a):
        if dt is None:
            return self
        d = np.dtype(dt)
        if d.fields is None:
            r = from_bytes_array(self.tobytes(), d)
            return r
        return struct_from_bytes(self.tobytes(), d)


class SymRow:
    def __init__(self, rec, i):
        self.rec, self.i = rec, i
        self.dtype = rec.dtype

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            k = self.rec.dtype.names[int(k)]
        elif isinstance(k, slice):
            return tuple(self)[k]
        return self.rec.cols[k][self.i]

    def __setitem__(self, k, v):
        if isinstance(k, (int, np.integer)):
            k = self.rec.dtype.names[int(k)]
        self.rec.cols[k][self.i] = v

    def __len__(self):
        return len(self.rec.dtype.names)

    def __iter__(self):
        for n in self.rec.dtype.names:
            yield self.rec.cols[n][self.i]

    def item(self):
        return tuple(x.tolist() if hasattr(x, "tolist") else x for x in self)

    tolist = item

    def tobytes(self):
        return self.rec[self.i : self.i + 1].tobytes()

    def __getattr__(self, k):
        if k in ("rec", "i"):
            raise AttributeError(k)
        if k in self.rec.cols:
            return self.rec.cols[k][self.i]
        raise AttributeError(k)


def struct_lift(a):
    return SymRec(a.dtype, a.shape, {n: lift(np.ascontiguousarray(a[n])) for n in a.dtype.names})


def struct_from_bytes(buf, dt):
    n = len(buf) // dt.itemsize
    cols = {}
    for name in dt.names:
        fdt, off = dt.fields[name][:2]
        base = fdt.base
        sub = fdt.shape
        w = fdt.itemsize
        b = b"".join(buf[i * dt.itemsize + off : i * dt.itemsize + off + w] for i in range(n))
        if base.fields is not None:
            raise core.Unsupported("nested structured dtype")
        c = from_bytes_array(b, base)
        cols[name] = c.reshape((n,) + sub)
    return SymRec(dt, (n,), cols)


# ---------------------------------------------------------------------------
# text and file input/output
# ---------------------------------------------------------------------------
WS = b" \t\n\r\v\f"


def _parse_tok(tok, dt):
    """one numeric token, numpy-style; returns value or raises ValueError"""
    if dt.kind == "f":
        v = text.parse_float(tok)
    elif dt.kind in "iu":
        v = text.parse_int(tok)
    elif dt.kind == "b":
        v = text.parse_int(tok)
    else:
        raise core.Unsupported(f"text parse of {dt}")
    if isinstance(v, Sym):
        return lower_el(cast_scalar(v, dt), dt)
    return np.array(v).astype(dt).item()


import re as _re

_NUMRE = {
    "f": _re.compile(r"[+-]?(?:nan(?:\([^)]*\))?|inf(?:inity)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)", _re.I),
    "i": _re.compile(r"[+-]?\d+"),
}


def _scan_numbers(s, dt, sep, count):
    """emulates numpy's text scanner on str s; returns (values, end position, complete)"""
    vals = []
    pos = 0
    n = len(s)
    csep = sep.strip()
    kind = "f" if dt.kind == "f" else "i"
    while count < 0 or len(vals) < count:
        while pos < n and s[pos].isspace():
            pos += 1
        if pos >= n:
            break
        # a number
        st = pos
        if s[pos] in "+-" and pos + 1 < n and ord(s[pos + 1]) >= text.HBASE:
            pos += 1
        if ord(s[pos]) >= text.HBASE:
            pos += 1
            while pos < n and s[pos] == text.FILL:
                pos += 1
            # characters glued to the handle make it a different number
            glued = pos
            while glued < n and not s[glued].isspace() and not (csep and s.startswith(csep, glued)):
                glued += 1
            if glued != pos:
                pos = glued
            try:
                vals.append(_parse_tok(s[st:pos], dt))
            except ValueError:
                pos = st
                return vals, pos, False
        else:
            m = _NUMRE[kind].match(s, pos)
            if not m:
                return vals, st, False
            vals.append(_parse_tok(m.group(), dt))
            pos = m.end()
            if pos < n and ord(s[pos]) >= text.HBASE:
                e = pos
                while e < n and not s[e].isspace():
                    e += 1
                vals[-1] = _parse_tok(s[st:e], dt)
                pos = e
        # separator
        p = pos
        while p < n and s[p].isspace():
            p += 1
        if csep:
            if s.startswith(csep, p):
                p += len(csep)
                while p < n and s[p].isspace():
                    p += 1
            else:
                pos = p
                return vals, pos, p >= n
        pos = p
    return vals, pos, True


def fromstring(string, dtype=float, count=-1, sep="", **k):
    dt = np.dtype(dtype)
    if sep == "":
        return frombuffer(string if isinstance(string, bytes) else string.encode(), dt, count)
    s = string.decode() if isinstance(string, bytes) else string
    if not text.has_handle(s):
        return lift(np.fromstring(s, dtype=dt, count=count, sep=sep))
    vals, pos, ok = _scan_numbers(s, dt, sep, int(count))
    raw = np.empty(len(vals), dtype=object)
    raw[:] = vals
    return wrap(raw, dt)


def frombuffer(buffer, dtype=float, count=-1, offset=0, **k):
    dt = np.dtype(dtype)
    b = bytes(buffer)[int(offset):]
    count = int(count)
    if count >= 0:
        if len(b) < count * dt.itemsize:
            raise ValueError("buffer is smaller than requested size")
        b = b[: count * dt.itemsize]
    elif len(b) % dt.itemsize:
        raise ValueError("buffer size must be a multiple of element size")
    if dt.fields is not None:
        return struct_from_bytes(b, dt)
    if dt.shape:
        return from_bytes_array(b, dt.base).reshape((-1,) + dt.shape)
    return from_bytes_array(b, dt)


def fromfile(file, dtype=float, count=-1, sep="", offset=0, **k):
    dt = np.dtype(dtype)
    count = int(count)
    own = False
    if isinstance(file, (str, os.PathLike)):
        file = open(file, "rb")
        own = True
    try:
        if not hasattr(file, "fileno"):
            raise AttributeError("fileno")
        if isinstance(file, io.BytesIO):
            file.fileno()
        f = file
        if isinstance(f, io.TextIOBase):
            # numpy works on the descriptor; Python-level position first
            f.flush()
            pos = f.tell()
            f = f.buffer
            f.seek(pos)
            res = _fromfile(f, dt, count, sep, int(offset))
            file.seek(f.tell())
            return res
        return _fromfile(f, dt, count, sep, int(offset))
    finally:
        if own:
            file.close()


def _fromfile(f, dt, count, sep, offset):
    if offset:
        f.seek(offset, 1)
    if sep == "":
        if count < 0:
            b = f.read()
            b = b[: len(b) // dt.itemsize * dt.itemsize]
        else:
            b = f.read(count * dt.itemsize)
            b = b[: len(b) // dt.itemsize * dt.itemsize]
        return frombuffer(b, dt)
    start = f.tell()
    data = f.read()
    # scan only as much as is valid text
    cut = len(data)
    try:
        s = data.decode("utf-8")
    except UnicodeDecodeError as e:
        cut = e.start
        s = data[:cut].decode("utf-8")
    vals, pos, ok = _scan_numbers(s, dt, sep, count)
    f.seek(start + len(s[:pos].encode("utf-8")))
    raw = np.empty(len(vals), dtype=object)
    raw[:] = vals
    return wrap(raw, dt)


def _open_any(fname, mode):
    if isinstance(fname, (str, os.PathLike)):
        if str(fname).endswith(".gz"):
            import gzip

            return gzip.open(fname, mode + "t", encoding="utf-8"), True
        return open(fname, mode, encoding="utf-8"), True
    return fname, False


def savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    f, own = _open_any(fname, "w")
    try:
        X = asarray(X)
        if X.ndim == 0 or X.ndim > 2:
            raise ValueError("Expected 1D or 2D array, got %dD array instead" % X.ndim)
        if X.ndim == 1:
            X = X.reshape(-1, 1)
        ncol = X.shape[1]
        if isinstance(fmt, (list, tuple)):
            if len(fmt) != ncol:
                raise AttributeError(f"fmt has wrong shape.  {fmt}")
            row_fmt = delimiter.join(fmt)
        else:
            n = fmt.count("%")
            if n == 1:
                row_fmt = delimiter.join([fmt] * ncol)
            elif n != ncol:
                raise ValueError(f"fmt has wrong number of % formats:  {fmt}")
            else:
                row_fmt = fmt
        w = _writer(f)
        if header:
            w(comments + header.replace("\n", "\n" + comments) + newline)
        for i in range(X.shape[0]):
            row = tuple(X[i])
            try:
                line = text.pct_format(row_fmt, row) if any(isinstance(x, Sym) for x in row) else row_fmt % row
            except TypeError as e:
                raise TypeError(
                    f"Mismatch between array dtype ('{X.dtype}') and format specifier ('{row_fmt}')") from e
            w(line + newline)
        if footer:
            w(comments + footer.replace("\n", "\n" + comments) + newline)
    finally:
        if own:
            f.close()


def _writer(f):
    mode = None

    def w(s):
        nonlocal mode
        if mode is None:
            if isinstance(f, io.TextIOBase) or getattr(f, "mode", "") in ("w", "wt"):
                mode = "t"
            elif isinstance(f, (io.RawIOBase, io.BufferedIOBase)):
                mode = "b"
            else:
                try:
                    f.write(s)
                    mode = "t"
                    return
                except TypeError:
                    mode = "b"
        f.write(s if mode == "t" else s.encode("utf-8"))

    return w


def _lines_of(fname):
    if isinstance(fname, (str, os.PathLike)):
        with _open_any(fname, "r")[0] as f:
            return list(f)
    out = []
    for ln in fname:
        out.append(ln.decode("utf-8") if isinstance(ln, bytes) else ln)
    return out


def loadtxt(fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0,
            usecols=None, unpack=False, ndmin=0, encoding="bytes", max_rows=None, **k):
    dt = np.dtype(dtype)
    if dt.fields is not None or converters:
        raise core.Unsupported("loadtxt with structured dtype/converters")
    it = iter(fname) if not isinstance(fname, (str, os.PathLike)) else iter(_lines_of(fname))
    rows = []
    for _ in range(int(skiprows)):
        next(it, None)
    mr = None if max_rows is None else int(max_rows)
    if comments is None:
        comments = []
    elif isinstance(comments, (str, bytes)):
        comments = [comments]
    while mr is None or len(rows) < mr:
        try:
            ln = next(it)
        except StopIteration:
            break
        if isinstance(ln, bytes):
            ln = ln.decode("utf-8")
        for c in comments:
            ln = ln.split(c, 1)[0]
        toks = ln.split(delimiter) if delimiter else ln.split()
        if not toks or (len(toks) == 1 and not toks[0].strip()):
            continue
        if usecols is not None:
            uc = [usecols] if isinstance(usecols, int) else usecols
            toks = [toks[i] for i in uc]
        row = []
        for t in toks:
            try:
                row.append(_parse_tok(t, dt))
            except ValueError:
                if dt.kind in "iu":
                    v = text.parse_float(t)  # numpy 1.26 falls back to float parsing
                    row.append(np.array(v).astype(dt).item() if not isinstance(v, Sym) else v)
                else:
                    raise
        if rows and len(row) != len(rows[0]):
            raise ValueError("the number of columns changed")
        rows.append(row)
    a = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    if not rows:
        a = np.empty((0,), dtype=object)
    a = wrap(a, dt)
    if a.ndim > ndmin:
        a = np.ndarray.squeeze(a)
    if a.ndim < ndmin:
        if ndmin == 1:
            a = a.reshape(-1)
        elif ndmin == 2:
            a = a.reshape(1, -1) if a.size == 0 or a.ndim < 2 else a
    return a.T if unpack else a


def atleast_1d(*arys):
    if builtins.any(isinstance(a, SymRec) for a in arys):
        r = [a.reshape(1) if isinstance(a, SymRec) and a.ndim == 0 else a if isinstance(a, SymRec) else asarray(np.atleast_1d(a)) for a in arys]
        return r[0] if len(r) == 1 else r
    return call("atleast_1d", np.atleast_1d, arys, {})


def _genfromtxt_rec(fname, dt, comments, delimiter, skip, max_rows):
    if builtins.any(dt.fields[n][0].shape for n in dt.names):
        raise core.Unsupported("genfromtxt with subarrays")
    it = iter(fname) if not isinstance(fname, (str, os.PathLike)) else iter(_lines_of(fname))
    for _ in range(skip):
        next(it, None)
    rows = []
    while max_rows is None or len(rows) < int(max_rows):
        ln = next(it, None)
        if ln is None:
            break
        if isinstance(ln, bytes):
            ln = ln.decode("latin1" if not _has_handle_str(ln) else "utf-8")
        if comments is not None:
            ln = ln.split(comments, 1)[0]
        toks = ln.split(delimiter) if delimiter else ln.split()
        if not toks:
            continue
        if len(toks) != len(dt.names):
            raise ValueError("Some errors were detected !")
        rows.append([_parse_tok(t, dt.fields[n][0]) for t, n in zip(toks, dt.names)])
    cols = {}
    for j, n in enumerate(dt.names):
        a = np.empty((len(rows),), dtype=object)
        for i, r in enumerate(rows):
            a[i] = r[j]
        cols[n] = wrap(a, dt.fields[n][0])
    r = SymRec(dt, (len(rows),), cols)
    return r.reshape(()) if len(rows) == 1 else r


def genfromtxt(fname, dtype=float, comments="#", delimiter=None, skip_header=0, max_rows=None, names=None, encoding="bytes", **k):
    dt = np.dtype(dtype) if dtype is not None else None
    if dt is not None and dt.fields is not None and not k and not names:
        return _genfromtxt_rec(fname, dt, comments, delimiter, int(skip_header), max_rows)
    if dt is None or dt.fields is not None or names:
        raise core.Unsupported("genfromtxt variant")
    a = loadtxt(fname, dtype=dt, comments=comments, delimiter=delimiter, skiprows=skip_header, max_rows=max_rows)
    return a


def rec_fromarrays(arrays, dtype=None, names=None, **k):
    arrays = [asarray(a) for a in arrays]
    if dtype is None:
        nm = names.split(",") if isinstance(names, str) else (names or [f"f{i}" for i in range(len(arrays))])
        dtype = np.dtype([(n, a._ld) for n, a in zip(nm, arrays)])
    dt = np.dtype(dtype)
    shape = arrays[0].shape
    return SymRec(dt, shape, {n: cast(a, dt.fields[n][0].base) for n, a in zip(dt.names, arrays)})


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if isinstance(x, (map, filter, zip)) or (hasattr(x, "__next__")):
        return np.array(x, dtype=dtype)
    dt = norm_dtype(dtype)
    if dt is not None and dt.fields is not None:
        if isinstance(x, SymRec):
            return x.copy()
        rows = [tuple(r) for r in x]
        cols = {n: asarray([r[i] for r in rows], dtype=dt.fields[n][0].base) for i, n in enumerate(dt.names)}
        return SymRec(dt, (len(rows),), cols)
    if dt is not None and dt.kind == "O":
        out = np.array(_objectify(x), dtype=object)
        return out
    return asarray(x, dtype=dt, copy=bool(copy), ndmin=ndmin)


def fromiter(it, dtype, count=-1, **k):
    l = list(it)
    return asarray(l, dtype=dtype) if l else lift(np.empty((0,), dtype))


class _Vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f, self.otypes = f, otypes

    def __call__(self, *args):
        arrs = [asarray(a) for a in args]
        bc = np.broadcast_arrays(*[a.raw() for a in arrs])
        out = np.empty(bc[0].shape, dtype=object)
        fl = out.reshape(-1)
        cols = [b.reshape(-1).tolist() for b in bc]
        vals = []
        for i in range(fl.size):
            vals.append(self.f(*[a._scalar(c[i]) for a, c in zip(arrs, cols)]))
        if self.otypes:
            dt = np.dtype(self.otypes[0])
            r = asarray(vals, dtype=dt) if vals else empty((0,), dt)
        else:
            r = asarray(vals)
        return r.reshape(bc[0].shape)


def format_float_scientific(x, precision=None, unique=True, trim="k", sign=False, pad_left=None, exp_digits=None, min_digits=None):
    if isinstance(x, SymArray) and x.size == 1:
        x = x._scalar(x.raw().reshape(-1)[0])
    if isinstance(x, SymInt):
        x = x.to_float(None)
    if isinstance(x, SymFloat):
        if not unique or trim != "k" or sign or pad_left or min_digits or exp_digits is None or exp_digits > 1:
            raise core.Unsupported("format_float_scientific options")
        from .text import format_scientific

        return format_scientific(x, precision)
    return np.format_float_scientific(x, precision, unique, trim, sign, pad_left, exp_digits)


class _IndexGrid:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, k):
        return lift_any(self.g[k])


class _Linalg:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if callable(f) and not isinstance(f, type):
            return lambda *a, **k: call(n, f, a, k)
        return f


class _Rec:
    fromarrays = staticmethod(rec_fromarrays)

    def __getattr__(self, n):
        return getattr(np.rec, n)


class _TypeProxyMeta(type):
    pass


def _scalar_ctor(tp):
    return tp


OVERRIDE = {
    "array": array,
    "asarray": lambda x, dtype=None, order=None, **k: asarray(x, dtype),
    "asanyarray": lambda x, dtype=None, **k: asarray(x, dtype),
    "ascontiguousarray": lambda x, dtype=None: asarray(x, dtype) if not isinstance(x, SymArray) else wrap(
        np.ascontiguousarray(cast(x, norm_dtype(dtype)).raw() if dtype is not None else x.raw()), norm_dtype(dtype) or x._ld),
    "empty": empty,
    "zeros": lambda shape, dtype=float, order="C", **k: empty(shape, dtype if dtype is not None else float),
    "ones": ones,
    "full": full,
    "arange": arange,
    "fromfile": fromfile,
    "frombuffer": frombuffer,
    "fromstring": fromstring,
    "fromiter": fromiter,
    "savetxt": savetxt,
    "loadtxt": loadtxt,
    "genfromtxt": genfromtxt,
    "atleast_1d": atleast_1d,
    "vectorize": _Vectorize,
    "format_float_scientific": format_float_scientific,
    "rec": _Rec(),
    "linalg": _Linalg(),
    "mgrid": _IndexGrid(np.mgrid),
    "ogrid": _IndexGrid(np.ogrid),
    "r_": None,
    "c_": None,
}


class _UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, out=None, **k):
        return do_ufunc(self._u, "__call__", a[: self._u.nin], out if out is not None else (a[self._u.nin] if len(a) > self._u.nin else None), k)

    def outer(self, a, b, **k):
        return do_ufunc(self._u, "outer", (a, b), None, k)

    def reduce(self, a, axis=0, **k):
        return do_ufunc(self._u, "reduce", (asarray(a),), None, {"axis": axis, **k})

    def accumulate(self, a, axis=0, **k):
        return do_ufunc(self._u, "accumulate", (asarray(a),), None, {"axis": axis, **k})

    def at(self, *a):
        return do_ufunc(self._u, "at", a, None, {})

    def reduceat(self, a, idx, **k):
        a = asarray(a)
        ix = [int(i) for i in asarray(idx).tolist()]
        out = []
        for j, i in enumerate(ix):
            e = ix[j + 1] if j + 1 < len(ix) else len(a)
            out.append(self.reduce(a[i:e]) if i < e else a[i])
        return asarray(out)

    def __getattr__(self, n):
        return getattr(self._u, n)


class _RC:
    def __init__(self, fn):
        self.fn = fn

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        parts = []
        for x in ks:
            if isinstance(x, slice):
                parts.append(arange(*[v for v in (x.start or 0, x.stop, x.step or 1)]))
            elif isinstance(x, str):
                raise core.Unsupported("np.r_/c_ directive")
            else:
                parts.append(asarray(x, ndmin=1))
        return self.fn(parts)


class SymNumpy:
    """Module-like stand-in for numpy."""

    def __init__(self):
        self._cache = {}
        self.__name__ = "numpy"

    def __getattr__(self, name):
        c = self.__dict__.get("_cache")
        if c is not None and name in c:
            return c[name]
        if name == "r_":
            v = _RC(lambda p: call("concatenate", np.concatenate, (p,), {}))
        elif name == "c_":
            v = _RC(lambda p: call("column_stack", np.column_stack, (p,), {}))
        elif name in OVERRIDE:
            v = OVERRIDE[name]
        else:
            v = getattr(np, name)
            if isinstance(v, np.ufunc):
                v = _UfuncProxy(v)
            elif isinstance(v, type):
                if issubclass(v, np.number):
                    v = _ctor_proxy(v)
            elif callable(v):
                v = _fn_proxy(name, v)
        self._cache[name] = v
        return v


def _ctor_proxy(tp):
    """np.int32(...) etc. must stay types for dtype=/issubdtype uses, but calling them
    with a symbolic scalar must keep it symbolic: the loader rewrites such calls."""
    return tp


def _fn_proxy(name, f):
    def g(*a, **k):
        a = tuple(asarray(x) if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in NUM else x for x in a)
        return call(name, f, a, k)

    g.__name__ = name
    return g


def np_ctor(tp, *a, **k):
    """called for np.<scalar type>(x)"""
    if a and isinstance(a[0], (Sym, SymArray)):
        if isinstance(a[0], SymArray):
            return cast(a[0], np.dtype(tp)) if a[0].ndim else cast_scalar(a[0].raw().item(), np.dtype(tp))
        return cast_scalar(a[0], np.dtype(tp))
    if a and isinstance(a[0], (str, bytes)) and _has_handle_str(a[0]):
        v = text.parse_float(a[0]) if np.dtype(tp).kind == "f" else text.parse_int(a[0])
        return cast_scalar(v, np.dtype(tp)) if isinstance(v, Sym) else tp(v)
    if len(a) == 1 and isinstance(a[0], (list, tuple)) and issubclass(tp, np.number):
        # np.int32(["1", "2"]) is an array
        l = [np_ctor(tp, v) for v in a[0]]
        if builtins.any(isinstance(v, Sym) for v in l):
            return asarray(l, dtype=np.dtype(tp))
    r = tp(*a, **k)
    return lift(r) if isinstance(r, np.ndarray) else r


SYMNP = SymNumpy()

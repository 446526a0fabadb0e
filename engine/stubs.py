"""Stand-ins for the modules meshio uses besides numpy.

h5py and netCDF4 are the real libraries behind thin wrappers: symbolic elements are stored
as their registered byte patterns and come back as the same terms.  struct and re work on
the text/byte handles.  rich prints nothing.
"""

from __future__ import annotations

import io as _io
import re as _re
import sys as _sys
import struct as _struct
import types

import numpy as np

from . import core, symarray, text
from .core import Sym, SymBool, SymFloat, SymInt
from .symarray import SymArray, SymRec, asarray, cast, from_bytes_array, lift, wrap


# ---------------------------------------------------------------------------
# numpy <-> byte patterns
# ---------------------------------------------------------------------------
def encode(x, dtype=None):
    """value with symbolic parts -> real numpy value holding the byte patterns"""
    if isinstance(x, Sym):
        x = asarray(x)
    if isinstance(x, (list, tuple)) and symarray._has_sym(x):
        x = asarray(x)
    if isinstance(x, SymRec):
        return np.frombuffer(x.tobytes(), dtype=x.dtype).reshape(x.shape)
    if isinstance(x, SymArray):
        if dtype is not None:
            dt = np.dtype(dtype)
            if dt.kind in "biuf" and x._ld.kind in "biuf":
                x = cast(x, dt)
        if x._ld.kind in "US":
            return x.lower()
        return np.frombuffer(x.tobytes(), dtype=x._ld).reshape(x.shape).copy()
    return x


def decode(x):
    if isinstance(x, np.ma.MaskedArray):
        if x.dtype.kind in "biuf":
            if np.ma.getmaskarray(x).any():
                return x
            x = np.asarray(x)
    if isinstance(x, np.ndarray):
        if x.dtype.fields is not None:
            return symarray.struct_from_bytes(np.ascontiguousarray(x).tobytes(), x.dtype)
        if x.dtype.kind in "biuf":
            return from_bytes_array(np.ascontiguousarray(x).tobytes(), x.dtype).reshape(x.shape)
        return x
    if isinstance(x, np.generic) and x.dtype.kind in "iuf":
        a = from_bytes_array(np.asarray(x).tobytes(), x.dtype)
        return a[0]
    return x


def conc_shape(s):
    if s is None:
        return None
    if isinstance(s, (tuple, list)):
        return tuple(int(v) for v in s)
    return int(s)


# ---------------------------------------------------------------------------
# h5py
# ---------------------------------------------------------------------------
def make_h5py():
    import h5py as real

    m = types.ModuleType("h5py")

    def wrapobj(o):
        if isinstance(o, real.File):
            return File._of(o)
        if isinstance(o, real.Group):
            return Group._of(o)
        if isinstance(o, real.Dataset):
            return Dataset._of(o)
        return o

    class Attrs:
        def __init__(self, a):
            self._a = a

        def __getitem__(self, k):
            return decode(self._a[k])

        def __setitem__(self, k, v):
            self._a[k] = encode(v)

        def create(self, name, data, shape=None, dtype=None):
            self._a.create(name, encode(data, dtype), shape=conc_shape(shape), dtype=dtype)

        def __contains__(self, k):
            return k in self._a

        def __iter__(self):
            return iter(self._a)

        def __len__(self):
            return len(self._a)

        def get(self, k, d=None):
            return self[k] if k in self._a else d

        def keys(self):
            return self._a.keys()

        def items(self):
            return [(k, self[k]) for k in self._a]

        def values(self):
            return [self[k] for k in self._a]

    class Base:
        @classmethod
        def _of(cls, o):
            r = cls.__new__(cls)
            r._o = o
            return r

        @property
        def attrs(self):
            return Attrs(self._o.attrs)

        @property
        def name(self):
            return self._o.name

        @property
        def file(self):
            return File._of(self._o.file)

        @property
        def parent(self):
            return wrapobj(self._o.parent)

    class Group(Base):
        def __getitem__(self, k):
            return wrapobj(self._o[k])

        def __setitem__(self, k, v):
            self._o[k] = v._o if isinstance(v, Base) else encode(v)

        def __delitem__(self, k):
            del self._o[k]

        def __contains__(self, k):
            return k in self._o

        def __iter__(self):
            return iter(self._o)

        def __len__(self):
            return len(self._o)

        def keys(self):
            return self._o.keys()

        def values(self):
            return [wrapobj(v) for v in self._o.values()]

        def items(self):
            return [(k, wrapobj(v)) for k, v in self._o.items()]

        def get(self, k, d=None, **kw):
            return self[k] if k in self._o else d

        def create_group(self, name, **k):
            return Group._of(self._o.create_group(name, **k))

        def require_group(self, name):
            return Group._of(self._o.require_group(name))

        def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
            if data is not None:
                if isinstance(data, Dataset):
                    data = data[()]
                data = encode(data, dtype)
                if shape is not None:
                    k["shape"] = conc_shape(shape)
                return Dataset._of(self._o.create_dataset(name, dtype=dtype, data=data, **k))
            return Dataset._of(self._o.create_dataset(name, conc_shape(shape), dtype=dtype, **k))

        def visititems(self, f):
            return self._o.visititems(lambda n, o: f(n, wrapobj(o)))

        def visit(self, f):
            return self._o.visit(f)

    class File(Group):
        def __init__(self, name, mode="r", **k):
            self._o = real.File(name, mode, **k)

        def close(self):
            self._o.close()

        def flush(self):
            self._o.flush()

        @property
        def filename(self):
            return self._o.filename

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self._o.close()

        def __bool__(self):
            return bool(self._o)

    class Dataset(Base):
        _vp_dataset = True
        shape = property(lambda s: s._o.shape)
        dtype = property(lambda s: s._o.dtype)
        size = property(lambda s: s._o.size)
        ndim = property(lambda s: s._o.ndim)

        def __len__(self):
            return len(self._o)

        def __getitem__(self, k):
            if isinstance(k, tuple):
                k = tuple(self._key(x) for x in k)
            else:
                k = self._key(k)
            return decode(self._o[k])

        @staticmethod
        def _key(k):
            if isinstance(k, SymArray):
                return k.concretise("h5 selection") if k.is_symbolic() else k.lower()
            if isinstance(k, slice):
                f = lambda v: int(v) if isinstance(v, Sym) else v
                return slice(f(k.start), f(k.stop), f(k.step))
            return int(k) if isinstance(k, Sym) else k

        def __setitem__(self, k, v):
            dt = self._o.dtype
            self._o[k] = encode(v, dt if dt.kind in "biuf" else None)

        def __iter__(self):
            for i in range(len(self)):
                yield self[i]

        def __array__(self, *a, **k):
            return self[()]

        def astype(self, dt):
            return self[()].astype(dt)

        def asstr(self, *a, **k):
            return self._o.asstr(*a, **k)

        def reshape(self, *a):
            return self[()].reshape(*a)

        def read_direct(self, *a, **k):
            raise core.Unsupported("read_direct")

    m.File, m.Group, m.Dataset = File, Group, Dataset
    for n in ("special_dtype", "string_dtype", "enum_dtype", "check_dtype", "vlen_dtype", "Empty", "version", "__version__"):
        if hasattr(real, n):
            setattr(m, n, getattr(real, n))
    def special_dtype(**k):
        if "enum" in k:
            k["enum"] = (k["enum"][0], dict(k["enum"][1]))
        return real.special_dtype(**k)

    m.special_dtype = special_dtype
    m.enum_dtype = lambda values, basetype=np.uint8: real.enum_dtype(dict(values), basetype=basetype)
    H5["Dataset"] = Dataset
    return m


H5 = {}


# ---------------------------------------------------------------------------
# netCDF4
# ---------------------------------------------------------------------------
def make_netcdf4():
    import netCDF4 as real

    m = types.ModuleType("netCDF4")

    class Variable:
        def __init__(self, v):
            object.__setattr__(self, "_v", v)

        def __getattr__(self, n):
            return getattr(object.__getattribute__(self, "_v"), n)

        def __setattr__(self, n, v):
            setattr(self._v, n, encode(v))

        def __len__(self):
            return len(self._v)

        def __getitem__(self, k):
            return decode(self._v[k])

        def __setitem__(self, k, v):
            dt = self._v.dtype
            self._v[k] = encode(v, dt if getattr(dt, "kind", None) in "biuf" else None)

        def __iter__(self):
            for i in range(len(self._v)):
                yield self[i]

    class Vars(dict):
        pass

    class Dataset:
        def __init__(self, *a, **k):
            object.__setattr__(self, "_d", real.Dataset(*a, **k))

        def __getattr__(self, n):
            d = object.__getattribute__(self, "_d")
            if n == "variables":
                return Vars((k, Variable(v)) for k, v in d.variables.items())
            return getattr(d, n)

        def __setattr__(self, n, v):
            setattr(self._d, n, encode(v))

        def __getitem__(self, k):
            r = self._d[k]
            return Variable(r) if isinstance(r, real.Variable) else r

        def createDimension(self, name, size=None):
            return self._d.createDimension(name, conc_shape(size))

        def createVariable(self, *a, **k):
            return Variable(self._d.createVariable(*a, **k))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self._d.close()

        def close(self):
            self._d.close()

    m.Dataset, m.Variable = Dataset, Variable
    for n in ("stringtochar", "chartostring", "default_fillvals", "__version__"):
        if hasattr(real, n):
            setattr(m, n, getattr(real, n))
    return m


# ---------------------------------------------------------------------------
# struct
# ---------------------------------------------------------------------------
_ST = {"b": "i1", "B": "u1", "h": "i2", "H": "u2", "i": "i4", "I": "u4", "q": "i8", "Q": "u8", "f": "f4", "d": "f8"}


def _fields(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "@"
    body = fmt
    if fmt and fmt[0] in "@=<>!":
        order, body = fmt[0], fmt[1:]
    out = []
    for cnt, c in _re.findall(r"(\d*)\s*([a-zA-Z?])", body):
        out.append((int(cnt) if cnt else None, c))
    return order, out


def _np_code(order, c):
    e = ">" if order in ">!" else "<"
    if c in "lL":
        w = "8" if order == "@" else "4"
        return np.dtype(e + ("i" if c == "l" else "u") + w)
    if c in "nN":
        return np.dtype(e + ("i8" if c == "n" else "u8"))
    return np.dtype(e + _ST[c])


def make_struct():
    m = types.ModuleType("struct")
    m.calcsize = _struct.calcsize
    m.error = _struct.error
    m.Struct = None

    def pack(fmt, *vals):
        vals = [v.raw().item() if isinstance(v, SymArray) and v.size == 1 else v for v in vals]
        if not any(isinstance(v, Sym) for v in vals):
            return _struct.pack(fmt, *vals)
        order, fl = _fields(fmt)
        zeros, where = [], []
        k = 0
        kinds = []
        for cnt, c in fl:
            if c == "x":
                continue
            if c in "sp":
                kinds.append(None)
                k += 1
                continue
            for _ in range(1 if cnt is None else cnt):
                kinds.append(c)
        if len(kinds) != len(vals):
            raise _struct.error(f"pack expected {len(kinds)} items for packing (got {len(vals)})")
        # zero template, then patch at offsets
        tmpl = [(0.0 if kd in ("f", "d") else 0) if isinstance(v, Sym) else v for kd, v in zip(kinds, vals)]
        buf = bytearray(_struct.pack(fmt, *tmpl))
        off = 0
        vi = 0
        for cnt, c in fl:
            if c in "sp":
                off += cnt or 1
                vi += 1
                continue
            if c == "x":
                off += cnt or 1
                continue
            if c in "c?":
                off += cnt or 1
                vi += cnt or 1
                continue
            dt = _np_code(order, c)
            if order == "@":
                al = dt.itemsize
                off = (off + al - 1) // al * al
            for _ in range(1 if cnt is None else cnt):
                v = vals[vi]
                if isinstance(v, Sym):
                    if dt.kind in "iu":
                        if isinstance(v, SymFloat):
                            raise _struct.error("required argument is not an integer")
                        if isinstance(v, SymBool):
                            v = v._i()
                        ii = np.iinfo(dt)
                        if not bool(core.and_all([v >= int(ii.min), v <= int(ii.max)])):
                            raise _struct.error("argument out of range")
                    v = symarray.cast_scalar(v, dt)
                    if isinstance(v, Sym):
                        buf[off : off + dt.itemsize] = text.to_bytes(v, dt)
                    else:
                        buf[off : off + dt.itemsize] = np.asarray(v).astype(dt).tobytes()
                off += dt.itemsize
                vi += 1
        return bytes(buf)

    def unpack_from(fmt, buffer, offset=0):
        n = _struct.calcsize(fmt)
        return unpack(fmt, bytes(buffer[offset : offset + n]))

    def unpack(fmt, buffer):
        buffer = bytes(buffer)
        conc = _struct.unpack(fmt, buffer)
        order, fl = _fields(fmt)
        out = []
        off = 0
        vi = 0
        for cnt, c in fl:
            if c == "x":
                off += cnt or 1
                continue
            if c in "sp":
                out.append(conc[vi])
                off += 1 if cnt is None else cnt
                vi += 1
                continue
            if c in "c?":
                for _ in range(1 if cnt is None else cnt):
                    out.append(conc[vi])
                    vi += 1
                    off += 1
                continue
            dt = _np_code(order, c)
            if order == "@":
                off = (off + dt.itemsize - 1) // dt.itemsize * dt.itemsize
            cn = 1 if cnt is None else cnt
            vals = text.from_bytes(buffer[off : off + cn * dt.itemsize], dt)
            for v in vals:
                if isinstance(v, Sym):
                    out.append(v.as_python())
                else:
                    out.append(conc[vi])
                vi += 1
            off += cn * dt.itemsize
        return tuple(out)

    def pack_into(fmt, buffer, offset, *vals):
        b = pack(fmt, *vals)
        buffer[offset : offset + len(b)] = b

    def iter_unpack(fmt, buffer):
        n = _struct.calcsize(fmt)
        for i in range(0, len(buffer), n):
            yield unpack(fmt, buffer[i : i + n])

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = _struct.calcsize(fmt)

        def pack(self, *v):
            return pack(self.format, *v)

        def unpack(self, b):
            return unpack(self.format, b)

        def unpack_from(self, b, offset=0):
            return unpack_from(self.format, b, offset)

        def iter_unpack(self, b):
            return iter_unpack(self.format, b)

    m.pack, m.unpack, m.unpack_from, m.pack_into, m.iter_unpack = pack, unpack, unpack_from, pack_into, iter_unpack
    m.Struct = Struct
    return m


# ---------------------------------------------------------------------------
# re
# ---------------------------------------------------------------------------
class Img:
    """A string in which handles were replaced by a representative decimal image."""

    def __init__(self, s):
        self.s = s
        out = []
        self.pos = []  # image index -> source index
        i = 0
        while i < len(s):
            ch = s[i]
            if ord(ch) >= text.HBASE and ch != text.FILL:
                fill = 0
                j = i + 1
                while j < len(s) and s[j] == text.FILL:
                    fill += 1
                    j += 1
                img = text.image(text.tab().text[ord(ch) - text.HBASE], fill)
                for k in range(len(img)):
                    self.pos.append(i if k == 0 else -1)
                out.append(img)
                i = j
            else:
                self.pos.append(i)
                out.append(ch)
                i += 1
        self.pos.append(len(s))
        self.img = "".join(out)

    def back(self, a, b):
        """source substring for image span [a,b)"""
        if a < 0:
            return None
        if a == b:
            return ""
        pa, pb = self.pos[a], self.pos[b]
        if pa < 0 or pb < 0:
            # cut through a number: its digits are unknown here
            core.CTX.unknown_values.append("a regular expression cuts through a number")
            return self.img[a:b]
        return self.s[pa:pb]

    def idx(self, a):
        if a < 0:
            return a
        while self.pos[a] < 0:
            a -= 1
        return self.pos[a]

    def fwd(self, p):
        for k, v in enumerate(self.pos):
            if v >= p:
                return k
        return len(self.img)


class Match:
    def __init__(self, m, im):
        self._m, self._im = m, im
        self.re, self.string = m.re, im.s
        self.lastindex, self.lastgroup = m.lastindex, m.lastgroup

    def _g(self, k):
        a, b = self._m.span(k)
        return None if a < 0 else self._im.back(a, b)

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._g(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, k):
        return self._g(k)

    def groups(self, default=None):
        n = self._m.re.groups
        return tuple(default if self._m.span(k)[0] < 0 else self._g(k) for k in range(1, n + 1))

    def groupdict(self, default=None):
        return {n: (self._g(n) if self._m.span(n)[0] >= 0 else default) for n in self._m.re.groupindex}

    def span(self, k=0):
        a, b = self._m.span(k)
        return self._im.idx(a), self._im.idx(b)

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def __bool__(self):
        return True


class BMatch(Match):
    def _g(self, k):
        r = Match._g(self, k)
        return None if r is None else r.encode()


class Pattern:
    def __init__(self, p):
        self._p = p
        self.pattern, self.flags, self.groups, self.groupindex = p.pattern, p.flags, p.groups, p.groupindex

    def _prep(self, s):
        if isinstance(s, str) and text.has_handle(s):
            return Img(s)
        return None

    def _one(self, fn, s, *a):
        if isinstance(s, bytes) and isinstance(self._p.pattern, bytes) and symarray._has_handle_str(s):
            im = Img(s.decode())
            p = _re.compile(self._p.pattern.decode(), (self._p.flags & ~_re.LOCALE) | _re.ASCII)
            m = getattr(p, fn)(im.img)
            return None if m is None else BMatch(m, im)
        im = self._prep(s)
        if im is None:
            return getattr(self._p, fn)(s, *a)
        a = tuple(im.fwd(x) for x in a)
        m = getattr(self._p, fn)(im.img, *a)
        return None if m is None else Match(m, im)

    def match(self, s, *a):
        return self._one("match", s, *a)

    def search(self, s, *a):
        return self._one("search", s, *a)

    def fullmatch(self, s, *a):
        return self._one("fullmatch", s, *a)

    def finditer(self, s, *a):
        im = self._prep(s)
        if im is None:
            return self._p.finditer(s, *a)
        return [Match(m, im) for m in self._p.finditer(im.img)]

    def findall(self, s, *a):
        im = self._prep(s)
        if im is None:
            return self._p.findall(s, *a)
        out = []
        for m in self._p.finditer(im.img):
            mm = Match(m, im)
            if self.groups == 0:
                out.append(mm.group())
            elif self.groups == 1:
                out.append(mm.groups("")[0])
            else:
                out.append(mm.groups(""))
        return out

    def split(self, s, maxsplit=0):
        im = self._prep(s)
        if im is None:
            return self._p.split(s, maxsplit)
        out, p, n = [], 0, 0
        for m in self._p.finditer(im.img):
            if maxsplit and n >= maxsplit:
                break
            out.append(im.back(p, m.start()))
            out.extend(Match(m, im).groups())
            p = m.end()
            n += 1
        out.append(im.back(p, len(im.img)))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        im = self._prep(s)
        if im is None:
            return self._p.subn(repl, s, count)
        out, p, n = [], 0, 0
        for m in self._p.finditer(im.img):
            if count and n >= count:
                break
            out.append(im.back(p, m.start()))
            mm = Match(m, im)
            if callable(repl):
                out.append(repl(mm))
            elif "\\" in repl:
                def g(x):
                    k = x.group(1) or x.group(2)
                    return mm.group(int(k) if k.isdigit() else k) or ""
                out.append(_re.sub(r"\\(?:(\d+)|g<(\w+)>)", g, repl))
            else:
                out.append(repl)
            p = m.end()
            n += 1
        out.append(im.back(p, len(im.img)))
        return "".join(out), n


def make_re():
    m = types.ModuleType("re")
    for n in dir(_re):
        if n.isupper() or n in ("escape", "error", "purge", "RegexFlag", "PatternError"):
            setattr(m, n, getattr(_re, n))

    def compile(p, flags=0):
        if isinstance(p, Pattern):
            return p
        return Pattern(_re.compile(p, flags))

    m.compile = compile
    m.Pattern, m.Match = Pattern, Match
    for fn in ("match", "search", "fullmatch", "finditer", "findall"):
        def f(p, s, flags=0, fn=fn):
            return getattr(compile(p, flags), fn)(s)

        setattr(m, fn, f)
    m.split = lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s, count)
    return m


# ---------------------------------------------------------------------------
# rich
# ---------------------------------------------------------------------------
CONSOLE = []


def make_rich():
    m = types.ModuleType("rich")
    c = types.ModuleType("rich.console")

    class Console:
        def __init__(self, *a, stderr=False, **k):
            self.stderr = stderr

        def print(self, *a, **k):
            CONSOLE.append(a)
            f = _sys.stderr if self.stderr else _sys.stdout
            if isinstance(f, _io.StringIO):  # only when the harness listens
                f.write(" ".join(_re.sub(r"\[/?[a-z]+\]", "", str(x)) for x in a) + "\n")

        log = print

    c.Console = Console
    m.console = c
    m.print = lambda *a, **k: CONSOLE.append(a)
    return m, c


class _Lazy(dict):
    def get(self, k, d=None):
        if k not in self:
            return d
        v = self[k]
        if isinstance(v, tuple) and v[0] == "lazy":
            v = v[1]()
            self[k] = v
        return v


_rich, _console = make_rich()
MODULES = _Lazy({
    "h5py": ("lazy", make_h5py),
    "netCDF4": ("lazy", make_netcdf4),
    "struct": ("lazy", make_struct),
    "re": ("lazy", make_re),
    "rich": _rich,
    "rich.console": _console,
})


def submodule(name):
    root, *rest = name.split(".")
    m = MODULES.get(root)
    for r in rest:
        m = getattr(m, r)
    return m

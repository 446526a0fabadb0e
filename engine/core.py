"""Symbolic values and the path explorer.

A *path* is one execution of a harness.  Branches whose outcome depends on a symbolic
value call Ctx.fork, which asks z3 which outcomes are feasible under the path condition;
both are explored by re-execution with a recorded decision prefix (depth first).
"""

from __future__ import annotations

import math
import os
import sys
import time

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import numpy as np  # noqa: E402
import z3  # noqa: E402

z3.set_param("model.completion", True)

F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()


_IDHASH = 0


class identity_hash:
    """While active, symbolic integers hash by term (used by the symbolic dict)."""

    def __enter__(self):
        global _IDHASH
        _IDHASH += 1

    def __exit__(self, *a):
        global _IDHASH
        _IDHASH -= 1


class Steer(BaseException):
    """Path-steering: never caught by the code under test (not an Exception)."""


class PathLimit(Steer):
    pass


class Stuck(Steer):
    """one path has run for very long (an endless loop?)"""


class Infeasible(Steer):
    """An assume() made the path condition unsatisfiable."""


class Unsupported(Steer):
    """The engine cannot execute this operation symbolically."""


class SolverUnknown(Steer):
    pass


CTX = None  # the current path context


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Stats:
    def __init__(self):
        self.paths = 0
        self.forks = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.concretised = {}
        self.unknown = 0

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    """State of one path."""

    def __init__(self, prefix, stats, deadline=None, query_timeout_ms=20000):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alternatives = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.model = None
        self.vars = {}  # name -> (kind, sym)
        self.deadline = deadline
        self.concretised = []
        self.max_enum = 40
        self.fresh_n = 0
        self.unknown_values = []  # reasons why unconstrained values were introduced
        self.memo = {}
        self.const = {}
        self.tab = None  # handle tables, set by text module
        self.shape = {}  # float term id -> significant decimal digits (see text.format_scientific)
        self.base_scopes = 0

    # -- solver --------------------------------------------------------------
    def _check(self, *extra):
        self.stats.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            raise SolverUnknown(self.solver.reason_unknown())
        return r == z3.sat

    def _model_says(self, term):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()
        v = self.model.eval(term, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def add(self, term):
        self.solver.add(term)
        if self.model is not None:
            if not z3.is_true(self.model.eval(term, model_completion=True)):
                self.model = None

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.add(cond.t)
            if self.model is None and not self._check():
                raise Infeasible()
            if self.model is None:
                self.model = self.solver.model()
        elif not cond:
            raise Infeasible()

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit("deadline")

    def possible(self, term):
        """Is term satisfiable under the path condition? (no branching)"""
        if self._model_says(term) is True:
            return True
        return self._check(term)

    def must(self, term):
        return not self.possible(z3.Not(term))

    def fork(self, term):
        """Decide a Boolean term, exploring both outcomes."""
        if isinstance(term, bool):
            return term
        tid = term.get_id()
        if tid in self.const:
            return self.const[tid][0]
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            kind, val, forced = d
            assert kind == "b", "non-deterministic replay of the decision prefix"
            if not forced:
                self.add(term if val else z3.Not(term))
        else:
            self.tick()
            m = self._model_says(term)
            if m is None:
                m = self._check(term)
                self.model = None
            neg = z3.Not(term) if m else term
            if self._check(neg):
                other = True
                othermodel = self.solver.model()
            else:
                other = False
            if other:
                self.stats.forks += 1
                # keep m as this path's value; schedule the other
                self.alternatives.append(self.trace + [("b", not m, False)])
                self.solver.add(term if m else z3.Not(term))
                if self.model is None:
                    # the model must satisfy the branch we took
                    pass
            val, forced = m, not other
            d = ("b", val, forced)
            self.pos += 1
        self.trace.append(d)
        self.const[tid] = (d[1], term)
        return d[1]

    def pick(self, term, why=""):
        """Concretise an integer term: enumerate its feasible values by forking."""
        # excluded values come from the prefix entry
        if self.pos < len(self.prefix):
            kind, val, excl = self.prefix[self.pos]
            assert kind == "v", "non-deterministic replay of the decision prefix"
        else:
            val, excl = None, ()
        self.pos += 1
        for e in excl:
            self.add(term != e)
        if val is None:
            self.tick()
            if self.model is None:
                if not self._check():
                    raise Infeasible()
                self.model = self.solver.model()
            val = self.model.eval(term, model_completion=True).as_long()
            if self._check(term != val):
                if len(excl) + 1 >= self.max_enum:
                    self.note_concretised(why or "integer with a large domain")
                else:
                    self.stats.forks += 1
                    self.alternatives.append(self.trace + [("v", None, excl + (val,))])
        self.add(term == val)
        self.trace.append(("v", val, excl))
        self.stats.decisions += 1
        return val

    def note_concretised(self, why):
        import traceback

        site = ""
        for f in reversed(traceback.extract_stack()):
            if "/meshio/" in f.filename:
                site = f"{f.filename.split('/meshio/')[-1]}:{f.lineno}"
                break
        key = f"{site} {why}"
        self.concretised.append(key)
        self.stats.concretised[key] = self.stats.concretised.get(key, 0) + 1

    # -- symbols -------------------------------------------------------------
    def fresh_name(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def int(self, name, lo, hi, dtype=None):
        t = z3.Int(name)
        self.solver.add(t >= lo, t <= hi)
        if self.model is not None:
            self.model = None
        s = SymInt(t, lo, hi, dtype)
        self.vars[name] = ("int", s)
        return s

    def real(self, name, dtype=None, finite=True):
        sort = F32 if dtype is not None and np.dtype(dtype).itemsize == 4 else F64
        t = z3.FP(name, sort)
        if finite:
            self.solver.add(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)))
            self.model = None
        s = SymFloat(t, dtype if dtype is None else np.dtype(dtype))
        s.finite = finite
        self.vars[name] = ("float", s)
        return s

    def bool(self, name):
        t = z3.Bool(name)
        s = SymBool(t)
        self.vars[name] = ("bool", s)
        return s

    def unknown_int(self, why, dtype=None):
        self.unknown_values.append(why)
        lo, hi = (-(2**63), 2**63 - 1)
        if dtype is not None:
            ii = np.iinfo(dtype)
            lo, hi = int(ii.min), int(ii.max)
        t = z3.Int(self.fresh_name("unk"))
        self.solver.add(t >= lo, t <= hi)
        self.model = None
        return SymInt(t, lo, hi, dtype)

    def unknown_float(self, why, dtype=None):
        self.unknown_values.append(why)
        sort = F32 if dtype is not None and np.dtype(dtype).itemsize == 4 else F64
        return SymFloat(z3.FP(self.fresh_name("unkf"), sort), dtype)


# ---------------------------------------------------------------------------
def as_int_term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def int_bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    if isinstance(x, SymBool):
        return 0, 1
    x = int(x)
    return x, x


def fp_val(x, sort):
    x = float(x)
    if math.isnan(x):
        return z3.fpNaN(sort)
    if math.isinf(x):
        return z3.fpPlusInfinity(sort) if x > 0 else z3.fpMinusInfinity(sort)
    if x == 0:
        return z3.fpMinusZero(sort) if math.copysign(1, x) < 0 else z3.fpPlusZero(sort)
    if sort == F32:
        x = float(np.float32(x))
        if math.isinf(x):
            return fp_val(x, sort)
    # exact: via the bit pattern
    if sort == F64:
        bits = int(np.float64(x).view(np.uint64))
        return z3.fpBVToFP(z3.BitVecVal(bits, 64), F64)
    bits = int(np.float32(x).view(np.uint32))
    return z3.fpBVToFP(z3.BitVecVal(bits, 32), F32)


def fp_const_to_float(v, sort=None):
    """z3 FP numeral -> Python float."""
    if z3.is_fprm(v):
        raise ValueError
    s = v.sort()
    bv = z3.simplify(z3.fpToIEEEBV(v))
    if not z3.is_bv_value(bv):
        return float("nan")
    n = bv.as_long()
    if s == F64:
        return float(np.array([n], dtype=np.uint64).view(np.float64)[0])
    return float(np.array([n], dtype=np.uint32).view(np.float32)[0])


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()
    shape = ()
    ndim = 0
    size = 1
    __array_priority__ = 1e6
    # numpy must not try to treat the scalar as an array in binary ops
    __array_ufunc__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self, *a):
        return self.as_python()

    def tolist(self):
        return self.as_python()

    def copy(self):
        return self

    def squeeze(self, *a, **k):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def _arr(self):
        from .symarray import asarray

        return asarray(self)

    def reshape(self, *a, **k):
        return self._arr().reshape(*a, **k)

    def ravel(self, *a):
        return self._arr().ravel(*a)

    flatten = ravel

    def tobytes(self, *a):
        return self._arr().tobytes(*a)

    def tofile(self, *a, **k):
        return self._arr().tofile(*a, **k)

    def astype(self, dt, *a, **k):
        from .symarray import cast_scalar, norm_dtype

        return cast_scalar(self, norm_dtype(dt))


def _binres_dtype(a, b):
    """numpy result dtype of scalar arithmetic (None = plain Python)."""
    da = getattr(a, "dtype", None)
    db = getattr(b, "dtype", None)
    if da is None and db is None:
        return None
    if da is None:
        return db
    if db is None:
        return da
    return np.result_type(da, db)


def wrap_int(t, lo, hi, dtype):
    """Apply two's complement wrap-around when the interval exceeds the dtype."""
    if dtype is None or dtype.kind not in "iu":
        return t, lo, hi
    w = dtype.itemsize * 8
    mn = -(2 ** (w - 1)) if dtype.kind == "i" else 0
    mx = mn + 2**w - 1
    if lo >= mn and hi <= mx:
        return t, lo, hi
    c = CTX
    if c is not None:
        # often the solver knows more than the interval
        try:
            if c.must(z3.And(t >= mn, t <= mx)):
                return t, max(lo, mn), min(hi, mx)
        except SolverUnknown:
            pass
    return (t - mn) % (2**w) + mn, mn, mx


class SymInt(Sym):
    __slots__ = ("t", "lo", "hi", "dtype")

    def __init__(self, t, lo, hi, dtype=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.dtype = None if dtype is None else np.dtype(dtype)

    # -- identity
    def as_python(self):
        return SymInt(self.t, self.lo, self.hi, None)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def __repr__(self):
        return self.__format__("")

    __str__ = __repr__

    def __format__(self, spec):
        from .text import format_int

        return format_int(self, spec)

    def concrete(self, why=""):
        if self.lo == self.hi:
            return self.lo
        return CTX.pick(self.t, why)

    def __index__(self):
        return self.concrete("__index__")

    def __int__(self):
        return self.concrete("__int__")

    def __float__(self):
        return float(self.concrete("__float__"))

    def __hash__(self):
        if _IDHASH:
            return hash(("symint", self.t.get_id()))
        return hash(self.concrete("hash"))

    def __bool__(self):
        return bool(self != 0)

    def is_integer(self):
        return True

    def bit_length(self):
        return self.concrete("bit_length").bit_length()

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    # -- arithmetic
    def _wrap(self, t, lo, hi, other):
        dt = _binres_dtype(self, other)
        if dt is not None and dt.kind == "f":
            return None
        t, lo, hi = wrap_int(t, lo, hi, dt)
        if lo == hi:
            return lo if dt is None else dt.type(lo)
        return SymInt(t, lo, hi, dt)

    @staticmethod
    def _ok(o):
        return isinstance(o, (int, np.integer, SymInt, SymBool, np.bool_))

    def _float_op(self, o, op, rev=False):
        f = self.to_float(np.float64 if self.dtype is not None else None)
        return getattr(f, op)(o)

    def __add__(self, o):
        if self._ok(o):
            if not is_sym(o) and int(o) == 0 and _binres_dtype(self, o) == self.dtype:
                return self
            lo, hi = int_bounds(o)
            return self._wrap(self.t + as_int_term(o), self.lo + lo, self.hi + hi, o)
        if isinstance(o, (float, np.floating, SymFloat)):
            return self._float_op(o, "__add__")
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if self._ok(o):
            if not is_sym(o) and int(o) == 0 and _binres_dtype(self, o) == self.dtype:
                return self
            lo, hi = int_bounds(o)
            return self._wrap(self.t - as_int_term(o), self.lo - hi, self.hi - lo, o)
        if isinstance(o, (float, np.floating, SymFloat)):
            return self._float_op(o, "__sub__")
        return NotImplemented

    def __rsub__(self, o):
        if self._ok(o):
            lo, hi = int_bounds(o)
            return self._wrap(as_int_term(o) - self.t, lo - self.hi, hi - self.lo, o)
        if isinstance(o, (float, np.floating, SymFloat)):
            return self._float_op(o, "__rsub__")
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.concrete("sequence repeat")
        if self._ok(o):
            lo, hi = int_bounds(o)
            c = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
            return self._wrap(self.t * as_int_term(o), min(c), max(c), o)
        if isinstance(o, (float, np.floating, SymFloat)):
            return self._float_op(o, "__mul__")
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return self._wrap(-self.t, -self.hi, -self.lo, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return self._wrap(
            z3.If(self.t >= 0, self.t, -self.t), 0, max(abs(self.lo), abs(self.hi)), self
        )

    def __invert__(self):
        return self._wrap(-self.t - 1, -self.hi - 1, -self.lo - 1, self)

    @staticmethod
    def _floordiv_terms(a, b):
        # Python floor semantics from SMT-LIB Euclidean div
        at, bt = as_int_term(a), as_int_term(b)
        blo, bhi = int_bounds(b)
        if blo > 0:
            return at / bt, at % bt
        q = z3.If(bt > 0, at / bt, (-at) / (-bt))
        return q, at - q * bt

    def _div_guard(self, b):
        lo, hi = int_bounds(b)
        if lo <= 0 <= hi:
            if bool(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")

    def __floordiv__(self, o):
        if not self._ok(o):
            if isinstance(o, (float, np.floating, SymFloat)):
                return self._float_op(o, "__floordiv__")
            return NotImplemented
        self._div_guard(o)
        q, _ = self._floordiv_terms(self, o)
        lo, hi = int_bounds(o)
        if lo > 0:
            c = [self.lo // lo, self.lo // hi, self.hi // lo, self.hi // hi]
            return self._wrap(q, min(c), max(c), o)
        m = max(abs(self.lo), abs(self.hi)) + 1
        return self._wrap(q, -m, m, o)

    def __rfloordiv__(self, o):
        if not self._ok(o):
            return NotImplemented
        self._div_guard(self)
        q, _ = self._floordiv_terms(o, self)
        m = abs(int(o)) + 1
        return self._wrap(q, -m, m, o)

    def __mod__(self, o):
        if not self._ok(o):
            return NotImplemented
        self._div_guard(o)
        _, r = self._floordiv_terms(self, o)
        lo, hi = int_bounds(o)
        if lo > 0:
            return self._wrap(r, 0, hi - 1, o)
        m = max(abs(lo), abs(hi))
        return self._wrap(r, -m, m, o)

    def __rmod__(self, o):
        if not self._ok(o):
            return NotImplemented
        self._div_guard(self)
        _, r = self._floordiv_terms(o, self)
        m = max(abs(self.lo), abs(self.hi))
        return self._wrap(r, -m, m, o)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return self.to_float(None if self.dtype is None else np.float64) / o

    def __rtruediv__(self, o):
        return o / self.to_float(None if self.dtype is None else np.float64)

    def __pow__(self, o, mod=None):
        if isinstance(o, (int, np.integer)) and 0 <= int(o) <= 4:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        return self.concrete("pow") ** o

    def __rpow__(self, o):
        return o ** self.concrete("pow")

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rlshift__(self, o):
        return o << self.concrete("shift")

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __and__(self, o):
        if isinstance(o, (int, np.integer)) and int(o) >= 0 and (int(o) + 1) & int(o) == 0:
            return self % (int(o) + 1)
        return self.concrete("bitand") & o

    __rand__ = __and__

    def __or__(self, o):
        return self.concrete("bitor") | o

    __ror__ = __or__

    def __xor__(self, o):
        return self.concrete("bitxor") ^ o

    __rxor__ = __xor__

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, (float, np.floating)):
            if o != o:
                return op == "ne"
            if float(o).is_integer():
                o = int(o)
            elif math.isinf(o):
                return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0,
                        "eq": False, "ne": True}[op]
            else:
                fl = math.floor(o)
                return {
                    "lt": lambda: self <= fl,
                    "le": lambda: self <= fl,
                    "gt": lambda: self > fl,
                    "ge": lambda: self > fl,
                    "eq": lambda: False,
                    "ne": lambda: True,
                }[op]()
        if isinstance(o, SymFloat):
            return getattr(self.to_float(None), f"__{op}__")(o)
        if not self._ok(o):
            return NotImplemented
        lo, hi = int_bounds(o)
        ot = as_int_term(o)
        if op == "eq":
            if self.hi < lo or self.lo > hi:
                return False
            if self.lo == self.hi == lo == hi:
                return True
            if isinstance(o, SymInt) and o.t.eq(self.t):
                return True
            return SymBool(self.t == ot)
        if op == "ne":
            r = self._cmp(o, "eq")
            return (not r) if isinstance(r, bool) else ~r
        if op == "lt":
            if self.hi < lo:
                return True
            if self.lo >= hi:
                return False
            return SymBool(self.t < ot)
        if op == "le":
            if self.hi <= lo:
                return True
            if self.lo > hi:
                return False
            return SymBool(self.t <= ot)
        if op == "gt":
            r = self._cmp(o, "le")
            return (not r) if isinstance(r, bool) else ~r
        if op == "ge":
            r = self._cmp(o, "lt")
            return (not r) if isinstance(r, bool) else ~r

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return (r if isinstance(o, np.ndarray) else False) if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return (r if isinstance(o, np.ndarray) else True) if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def to_float(self, dtype):
        return float_of_int(self, dtype)


_INT2FP = {}


def float_of_int(x, dtype):
    """Float value of an integer: exact for |x| <= 2**53 (2**24), an uninterpreted
    rounding above."""
    single = dtype is not None and np.dtype(dtype).itemsize == 4
    sort = F32 if single else F64
    lim = 2**24 if single else 2**53
    key = str(sort)
    if key not in _INT2FP:
        _INT2FP[key] = z3.Function("int2fp_" + ("32" if single else "64"), z3.IntSort(), sort)
    f = SymFloat(_INT2FP[key](x.t), dtype)
    f.of_int = x.as_python()
    f.of_int_lim = lim
    return f


class SymBool(Sym):
    __slots__ = ("t",)
    dtype = np.dtype(bool)
    itemsize = 1

    def __init__(self, t):
        self.t = t

    def as_python(self):
        return self

    def __bool__(self):
        return CTX.fork(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, s):
        return format(bool(self), s)

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), 0, 1, None)

    @staticmethod
    def _b(o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        b = self._b(o)
        if b is None:
            return self._i() & o
        return SymBool(z3.And(self.t, b))

    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        if b is None:
            return self._i() | o
        return SymBool(z3.Or(self.t, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        if b is None:
            return self._i() ^ o
        return SymBool(z3.Xor(self.t, b))

    __rxor__ = __xor__

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            if SymInt._ok(o):
                return self._i() == o
            return NotImplemented if isinstance(o, np.ndarray) else False
        return SymBool(self.t == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o


class SymFloat(Sym):
    """A binary64 / binary32 value (z3 FloatingPoint theory)."""

    __slots__ = ("t", "dtype", "of_int", "of_int_lim", "approx", "finite", "via")

    def __init__(self, t, dtype=None):
        self.t = t
        self.dtype = None if dtype is None else np.dtype(dtype)
        self.of_int = None
        self.of_int_lim = 0
        self.approx = None  # (exact SymFloat, significant decimal digits)
        self.via = None  # narrower value this one was exactly/decimally derived from
        self.finite = False

    def as_python(self):
        if self.sort == F32:
            f = SymFloat(z3.fpFPToFP(RNE, self.t, F64), None)
            f.via = self
        else:
            f = SymFloat(self.t, None)
            f.via = self.via
        f.of_int, f.of_int_lim, f.approx = self.of_int, self.of_int_lim, self.approx
        f.finite = self.finite
        return f

    @property
    def sort(self):
        return self.t.sort()

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def __repr__(self):
        return self.__format__("")

    __str__ = __repr__

    def __format__(self, spec):
        from .text import format_float

        return format_float(self, spec)

    def concrete(self, why="float"):
        c = CTX
        c.note_concretised(why)
        if c.pos < len(c.prefix):
            kind, val, _ = c.prefix[c.pos]
            assert kind == "f"
        else:
            if c.model is None:
                if not c._check():
                    raise Infeasible()
                c.model = c.solver.model()
            val = fp_const_to_float(c.model.eval(self.t, model_completion=True))
        c.pos += 1
        c.trace.append(("f", val, None))
        c.add(self.t == fp_val(val, self.sort))
        return val

    def __float__(self):
        return self.concrete("float()")

    def __int__(self):
        if self.of_int is not None:
            return int(self.to_int())
        return int(self.concrete("int(float)"))

    def to_int(self):
        """Python int(x): truncation."""
        if self.of_int is not None:
            x = self.of_int
            if -self.of_int_lim <= x.lo and x.hi <= self.of_int_lim:
                return x
            if bool(SymBool(z3.And(x.t >= -self.of_int_lim, x.t <= self.of_int_lim))):
                return x
            return CTX.unknown_int("int(float(x)) beyond the exact range")
        return int(self.concrete("int(float)"))

    def is_integer(self):
        if self.of_int is not None:
            return True
        return SymBool(z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.t), self.t))

    def __hash__(self):
        if _IDHASH:
            return hash(("symfloat", self.t.get_id()))
        return hash(self.concrete("hash"))

    def __bool__(self):
        return CTX.fork(z3.Not(z3.fpIsZero(self.t)))

    # -- arithmetic
    def _coerce(self, o):
        """-> (self term, other term, dtype) with common sort"""
        if isinstance(o, SymInt):
            o = float_of_int(o, self.dtype)
        elif isinstance(o, SymBool):
            o = float(bool(o))
        if not isinstance(o, (SymFloat, float, int, np.floating, np.integer, np.bool_)):
            return None
        dt = _binres_dtype(self, o)
        if dt is not None and dt.kind != "f":
            dt = np.dtype(np.float64)
        sort = F32 if (dt is not None and dt.itemsize == 4) else F64
        a = self.t if self.sort == sort else z3.fpFPToFP(RNE, self.t, sort)
        if isinstance(o, SymFloat):
            b = o.t if o.sort == sort else z3.fpFPToFP(RNE, o.t, sort)
        else:
            b = fp_val(o, sort)
        return a, b, dt

    def _bin(self, o, f, rev=False):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        a, b, dt = c
        if rev:
            a, b = b, a
        return SymFloat(f(RNE, a, b), dt)

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)

    def __radd__(self, o):
        return self._bin(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        if not isinstance(o, Sym) and isinstance(o, (int, float, np.number)) and o == 1:
            dt = _binres_dtype(self, o)
            if dt == self.dtype:
                return self
        return self._bin(o, z3.fpMul)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if self.dtype is None and not isinstance(o, np.generic):
            if isinstance(o, Sym):
                if bool(o == 0):
                    raise ZeroDivisionError("float division by zero")
            elif o == 0:
                raise ZeroDivisionError("float division by zero")
        return self._bin(o, z3.fpDiv)

    def __rtruediv__(self, o):
        if self.dtype is None and bool(self == 0):
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, z3.fpDiv, True)

    def __floordiv__(self, o):
        q = self / o
        return SymFloat(z3.fpRoundToIntegral(z3.RTN(), q.t), q.dtype)

    def __mod__(self, o):
        return self.concrete("float mod") % o

    def __rmod__(self, o):
        return o % self.concrete("float mod")

    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == 2:
            return self * self
        if isinstance(o, float) and o == 0.5:
            return self.sqrt()
        return self.concrete("float pow") ** o

    def __rpow__(self, o):
        return o ** self.concrete("float pow")

    def sqrt(self):
        return SymFloat(z3.fpSqrt(RNE, self.t), self.dtype)

    def __neg__(self):
        f = SymFloat(z3.fpNeg(self.t), self.dtype)
        f.finite = self.finite
        return f

    def __pos__(self):
        return self

    def __abs__(self):
        f = SymFloat(z3.fpAbs(self.t), self.dtype)
        f.finite = self.finite
        return f

    def __round__(self, n=None):
        return round(self.concrete("round"), n)

    def __floor__(self):
        return math.floor(self.concrete("floor"))

    def __ceil__(self):
        return math.ceil(self.concrete("ceil"))

    def __trunc__(self):
        return self.to_int()

    def _cmp(self, o, f):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        a, b, _ = c
        return SymBool(f(a, b))

    def __eq__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return (r if isinstance(o, np.ndarray) else False) if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return (r if isinstance(o, np.ndarray) else True) if r is NotImplemented else ~r

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)


def ite(cond, a, b):
    """Value-level if-then-else on scalars (no branching where possible)."""
    if not isinstance(cond, SymBool):
        return a if cond else b
    if a is b:
        return a
    ints = (int, np.integer, SymInt, bool, np.bool_, SymBool)
    floats = (float, np.floating, SymFloat)
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return SymBool(z3.If(cond.t, SymBool._b(a), SymBool._b(b)))
    if isinstance(a, ints) and isinstance(b, ints):
        la, ha = int_bounds(a)
        lb, hb = int_bounds(b)
        if la == ha == lb == hb:
            return a
        ta, tb = as_int_term(a), as_int_term(b)
        if ta.eq(tb):
            return a
        return SymInt(
            z3.If(cond.t, ta, tb), min(la, lb), max(ha, hb), _binres_dtype(a, b)
        )
    if isinstance(a, floats) and isinstance(b, floats):
        sa = a.sort if isinstance(a, SymFloat) else None
        sb = b.sort if isinstance(b, SymFloat) else None
        sort = sa if sa is not None else sb
        if sort is None:
            sort = F64
        if sa is not None and sb is not None and sa != sb:
            return a if bool(cond) else b
        ta = a.t if isinstance(a, SymFloat) else fp_val(a, sort)
        tb = b.t if isinstance(b, SymFloat) else fp_val(b, sort)
        if ta.eq(tb):
            return a
        simple = lambda v: not isinstance(v, SymFloat) or (
            v.approx is None and v.of_int is None and v.via is None)
        if not (simple(a) and simple(b)):
            return a if bool(cond) else b
        return SymFloat(z3.If(cond.t, ta, tb), _binres_dtype(a, b))
    return a if bool(cond) else b


def and_all(items):
    ts = []
    for x in items:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif isinstance(x, Sym):
            ts.append((x != 0).t if isinstance((x != 0), SymBool) else z3.BoolVal(bool(x != 0)))
        elif not x:
            return False
    if not ts:
        return True
    return SymBool(z3.And(*ts) if len(ts) > 1 else ts[0])


def or_all(items):
    ts = []
    for x in items:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif isinstance(x, Sym):
            r = x != 0
            if isinstance(r, SymBool):
                ts.append(r.t)
            elif r:
                return True
        elif x:
            return True
    if not ts:
        return False
    return SymBool(z3.Or(*ts) if len(ts) > 1 else ts[0])

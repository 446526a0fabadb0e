"""Text and byte images of symbolic values.

A symbolic number that the code under test formats into text becomes a one-character
*handle* (Unicode plane 15) standing for "the decimal image of this term"; parsing the
handle gives the term back (contract of format/parse: int(str(i)) == i, and
float(format(x)) == x when enough significant digits were printed).  Padding inside a
fixed-width field is kept with a FILL character so that column arithmetic stays exact.

A symbolic number that the code serialises into bytes becomes an itemsize-long byte
pattern that is registered with the path; decoding the pattern gives the term back.
"""

from __future__ import annotations

import re as _re

import numpy as np
import z3

from . import core
from .core import Sym, SymBool, SymFloat, SymInt

HBASE = 0xF0000
FILL = "\U0010FFFD"
HMAX = 0x10F000


class Tab:
    """Handles of one path."""

    def __init__(self, alphabet=0):
        self.text = []  # index -> record
        self.textkey = {}
        self.bytes = {}  # little-endian pattern -> (sym, dtype LE)
        self.bytekey = {}
        self.n = {2: 0, 4: 0, 8: 0}
        self.alphabet = alphabet


def tab():
    c = core.CTX
    if c.tab is None:
        c.tab = Tab()
    return c.tab


# ---------------------------------------------------------------------------
# text handles
# ---------------------------------------------------------------------------
def has_handle(s):
    for ch in s:
        if ord(ch) >= HBASE:
            return True
    return False


def _mk(rec):
    """rec = (kind, sym, info)"""
    t = tab()
    key = (rec[0], rec[1].t.get_id(), rec[2], str(getattr(rec[1], "dtype", None)),
           rec[1].of_int.t.get_id() if isinstance(rec[1], SymFloat) and rec[1].of_int is not None else None)
    if key in t.textkey:
        return chr(HBASE + t.textkey[key])
    i = len(t.text)
    t.text.append(rec)
    t.textkey[key] = i
    if HBASE + i >= HMAX:
        raise core.Unsupported("too many text handles")
    return chr(HBASE + i)


_SPEC = _re.compile(r"^(?:(.)?([<>=^]))?([+\- ])?(z)?(#)?(0)?(\d+)?([_,])?(?:\.(\d+))?([a-zA-Z%])?$")


def _parse_spec(spec):
    m = _SPEC.match(spec)
    if not m:
        raise ValueError(f"Invalid format specifier '{spec}'")
    fill, align, sign, _z, alt, zero, width, grp, prec, typ = m.groups()
    return dict(
        fill=fill or " ", align=align, sign=sign, zero=bool(zero),
        width=int(width) if width else 0, grp=grp,
        prec=int(prec) if prec is not None else None, typ=typ,
    )


def _ndigits_bounds(lo, hi, base=10):
    """(min,max) length of the image incl. minus sign for values in [lo,hi]"""
    def ln(v):
        s = 1 if v < 0 else 0
        v = abs(v)
        n = 1
        while v >= base:
            v //= base
            n += 1
        return n + s
    if lo >= 0:
        return ln(lo), ln(hi)
    if hi < 0:
        return ln(hi), ln(lo)
    return 1, max(ln(lo), ln(hi))


def _int_len_ge(x, n, base=10):
    """SymBool/bool: image of x has at least n characters"""
    lo, hi = _ndigits_bounds(x.lo, x.hi, base)
    if lo >= n:
        return True
    if hi < n:
        return False
    conds = []
    if n <= 1:
        return True
    conds.append(x.t >= base ** (n - 1))
    conds.append(x.t <= -(base ** (n - 2)) if n >= 2 else x.t < 0)
    if n == 2:
        conds[-1] = x.t < 0
    return SymBool(z3.Or(*conds))


def format_int(x, spec):
    if spec == "":
        return _mk(("i", x, 10))
    p = _parse_spec(spec)
    typ = p["typ"]
    if typ in ("e", "E", "f", "F", "g", "G", "%"):
        return format_float(x.to_float(None), spec)
    if typ not in (None, "d", "x", "X", "n"):
        return format(x.concrete("format " + spec), spec)
    base = 16 if typ in ("x", "X") else 10
    h = _mk(("i", x, base))
    w = p["width"]
    if not w:
        return h
    if p["zero"] or p["sign"] in ("+", " ") or p["grp"] or p["align"] in ("=", "^") or p["fill"] != " ":
        if p["zero"] or (p["fill"] == "0"):
            # zero-padded: the whole field is digits; exact if it fits
            if bool(_int_len_ge(x, w + 1, base)):
                return _exact_len(x, base, w + 1)
            return h + FILL * (w - 1)
        return format(x.concrete("format " + spec), spec)
    left = p["align"] == "<"
    if bool(_int_len_ge(x, w + 1, base)):
        return _exact_len(x, base, w + 1)
    if w == 1:
        return h
    if bool(_int_len_ge(x, w, base)):
        return h + FILL * (w - 1)
    body = h + FILL * (w - 2)
    return body + " " if left else " " + body


def _exact_len(x, base, at_least):
    n = at_least
    while bool(_int_len_ge(x, n + 1, base)):
        n += 1
    return _mk(("i", x, base)) + FILL * (n - 1)


def sig_digits(spec_or_none, prec, typ):
    if typ in ("e", "E"):
        return (6 if prec is None else prec) + 1
    if typ in ("g", "G"):
        return 6 if prec is None else max(prec, 1)
    if typ is None and prec is not None:
        return max(prec, 1)
    if typ is None:
        return 17
    return 0  # f: fixed decimals


def format_float(x, spec, py_repr=True):
    p = _parse_spec(spec)
    typ, prec = p["typ"], p["prec"]
    if typ in ("d", "x", "X", "c", "b", "o", "n", "s"):
        raise ValueError(f"Unknown format code '{typ}' for object of type 'float'")
    if typ in (None, "e", "E", "g", "G"):
        info = ("sig", 17 if (typ is None and prec is None) else sig_digits(None, prec, typ))
    elif typ in ("f", "F"):
        info = ("fix", 6 if prec is None else prec)
    else:
        return format(x.concrete("format " + spec), spec)
    if typ is None and prec is None:
        info = ("sig", 99)  # repr/str: shortest round-trip
    if x.sort == core.F32 and not (typ is None and prec is None):
        x = x.as_python()
    h = _mk(("f", x, info))
    w = p["width"]
    if not w:
        return h
    # length bounds of d.ddde+XX(X)
    if typ in ("e", "E"):
        pr = 6 if prec is None else prec
        mn = (pr + 2 if pr else 1) + 4
        mx = mn + 2  # sign, third exponent digit
        if x.finite is False:
            mn = min(mn, 3)
    else:
        mn, mx = 1, 10**9
    if w >= mx + 1:
        body = h + FILL * (w - 2)
        return body + " " if p["align"] == "<" else " " + body
    if w < mn:
        # pad never applies; the length itself is value dependent
        return h
    raise core.Unsupported(f"fixed-width float field {spec!r}")


def format_scientific(x, precision):
    """np.format_float_scientific(x, exp_digits=1, precision): a field of the exact length.
    The length depends on the sign, the exponent and the number of significant digits;
    forks on those classes (digits: 5 or "all")."""
    c = core.CTX
    key = ("sci", x.t.get_id())
    if key not in c.memo:
        ax = z3.fpAbs(x.t)
        v = lambda f: core.fp_val(f, x.sort)
        rng = lambda lo, hi: z3.And(z3.fpGEQ(ax, v(lo)), z3.fpLEQ(ax, v(hi)))
        neg = bool(SymBool(z3.fpIsNegative(x.t)))
        if c.fork(z3.Or(z3.fpIsZero(x.t), rng(1e-9, 9.9e9))):
            ed = 1
        elif x.sort == core.F32:
            c.assume(SymBool(z3.Or(rng(1e-37, 9.9e-10), rng(1e10, 9.9e37))))
            ed = 2
        elif c.fork(z3.Or(rng(1e-99, 9.9e-10), rng(1e10, 9.9e99))):
            ed = 2
        else:
            c.assume(SymBool(z3.Or(rng(1e-300, 9.9e-100), rng(1e100, 1e300))))
            ed = 3
        full = SymBool(z3.Bool(c.fresh_name("full")))
        nd = 17 if bool(full) else 5
        if nd == 17:
            c.assume(SymBool(z3.Not(z3.fpIsZero(x.t))))
            if x.sort == core.F32:
                nd = 8
        c.memo[key] = (neg, ed, nd, x)
        c.shape[x.t.get_id()] = nd
    neg, ed, nd, _ = c.memo[key]
    if precision is not None:
        nd = min(nd, precision + 1)
    ln = neg + nd + 1 + 2 + ed
    return _mk(("f", x, ("sig", 17 if precision is None else precision + 1))) + FILL * (ln - 1)


_RT = {}


def rt_float(x, info):
    """Value obtained by printing x with `info` digits and parsing as binary64."""
    kind, d = info
    if x.sort == core.F32:
        # str/repr of a binary32 value: shortest text that rounds back to the same
        # binary32; read as binary64 it is another double
        key = ("dec64", d)
        if key not in _RT:
            _RT[key] = z3.Function(f"dec32to64_{d}", core.F32, core.F64)
        r = SymFloat(_RT[key](x.t), None)
        r.via = x
        r.finite = x.finite
        r.approx = (x.as_python(), 7)
        return r
    if kind == "sig" and d >= 17:
        return x.as_python()
    if x.of_int is not None and kind == "fix":
        return x.as_python()
    key = (kind, d)
    if key not in _RT:
        _RT[key] = z3.Function(f"rt_{kind}{d}", core.F64, core.F64)
    r = SymFloat(_RT[key](x.t), None)
    r.finite = x.finite
    if kind == "sig":
        base, dd = (x, d)
        if x.approx is not None:
            base, dd = x.approx[0], min(d, x.approx[1])
        r.approx = (base, dd)
        if x.via is not None and d >= 9:
            r.via = x.via
    else:
        r.approx = (x, -d)
    return r


def _single(tok):
    """record of a token that is exactly one handle (with FILL tail), else None"""
    if not tok:
        return None
    o = ord(tok[0])
    if o < HBASE or tok[0] == FILL:
        return None
    for ch in tok[1:]:
        if ch != FILL:
            return None
    return tab().text[o - HBASE]


def parse_int(s, base=10):
    """int(str)"""
    if isinstance(s, (bytes, bytearray)):
        s = bytes(s).decode("utf-8")
    if not has_handle(s):
        return int(s, base)
    tok = s.strip()
    sign = 1
    if tok[:1] in "+-" and len(tok) > 1:
        sign = -1 if tok[0] == "-" else 1
        tok = tok[1:]
    r = _single(tok)
    if r is None:
        return core.CTX.unknown_int("partial or joined number in text: " + repr(s))
    kind, x, info = r
    if kind == "i" and info == base:
        v = x.as_python()
        return v if sign == 1 else -v
    if kind == "i":
        return core.CTX.unknown_int("number read in another base")
    raise ValueError(f"invalid literal for int() with base {base}: {s!r}")


def parse_float(s):
    if isinstance(s, (bytes, bytearray)):
        s = bytes(s).decode("utf-8")
    if not has_handle(s):
        return float(s)
    tok = s.strip()
    sign = 1
    if tok[:1] in "+-" and len(tok) > 1:
        sign = -1 if tok[0] == "-" else 1
        tok = tok[1:]
    r = _single(tok)
    if r is None:
        return core.CTX.unknown_float("partial or joined number in text: " + repr(s))
    kind, x, info = r
    if kind == "i":
        if info != 10:
            return core.CTX.unknown_float("hex read as float")
        v = core.float_of_int(x.as_python(), None)
    else:
        v = rt_float(x, info)
    return v if sign == 1 else -v


# ---------------------------------------------------------------------------
# % formatting
# ---------------------------------------------------------------------------
_PCT = _re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])")


def _contains_sym(v):
    if isinstance(v, Sym):
        return True
    if isinstance(v, (tuple, list)):
        return any(_contains_sym(x) for x in v)
    if isinstance(v, dict):
        return any(_contains_sym(x) for x in v.values())
    from .symarray import SymArray

    return isinstance(v, SymArray)


def sym_mod(a, b):
    """a % b with a possibly a format string."""
    if isinstance(a, (str, bytes)) and _contains_sym(b):
        isb = isinstance(a, bytes)
        out = pct_format(a.decode() if isb else a, b)
        return out.encode() if isb else out
    return a % b


def pct_format(fmt, args):
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    out = []
    pos = 0
    k = 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        name, flags, width, prec, typ = m.groups()
        if typ == "%":
            out.append("%")
            continue
        if name is not None:
            v = args[name]
        else:
            if width == "*":
                width = str(int(args[k]))
                k += 1
            if prec == "*":
                prec = str(int(args[k]))
                k += 1
            if k >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[k]
            k += 1
        plain = "%" + flags + (width or "") + ("." + prec if prec is not None else "") + typ
        if not isinstance(v, Sym):
            out.append(plain % (v,))
            continue
        if typ in "diu":
            if isinstance(v, SymFloat):
                v = v.to_int()
            if isinstance(v, SymBool):
                v = v._i()
            if not isinstance(v, Sym):
                out.append(plain % (v,))
                continue
            typ2 = "d"
        elif typ in "xX":
            if isinstance(v, SymFloat):
                raise TypeError("%x format: an integer is required, not float")
            typ2 = typ
        elif typ in "eEfFgG":
            if isinstance(v, (SymInt, SymBool)):
                v = (v if isinstance(v, SymInt) else v._i()).to_float(None)
            typ2 = typ
        elif typ in "rsa":
            out.append(_pad(str(v), flags, width))
            continue
        else:
            out.append(plain % (v.concrete("format " + plain),))
            continue
        spec = ""
        if width:
            spec += "<" if "-" in flags else ">"
        if "0" in flags and width:
            spec = ""
            spec += "0"
        spec += (width or "")
        if prec is not None and typ2 not in "dxX":
            spec += "." + prec
        out.append(format(v, spec + typ2))
    out.append(fmt[pos:])
    if isinstance(args, tuple) and k < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


def _pad(s, flags, width):
    if not width:
        return s
    raise core.Unsupported("padded %s of a symbolic number")


# ---------------------------------------------------------------------------
# byte handles
# ---------------------------------------------------------------------------
def _pattern(n, i, alphabet):
    a, b = 0x80 | (i & 0x7F), 0x80 | ((i >> 7) & 0x7F)
    c = 0x80 | ((i >> 14) & 0x7F)
    nl, sp, nul, us = (0x0A, 0x20, 0x00, 0x5F) if alphabet == 0 else (0x8A, 0xA0, 0x90, 0xDF)
    if n == 8:
        return bytes([0xFA, a, b, c, nl, sp, us, 0xFD])
    if n == 4:
        if i >= 1 << 14:
            raise core.Unsupported("too many 4-byte handles")
        return bytes([0xFB, a, nl, b])
    if n == 2:
        if i >= 128:
            raise core.Unsupported("too many 2-byte handles")
        return bytes([0xF7, a])
    raise core.Unsupported(f"byte image of itemsize {n}")


def to_bytes(x, dtype):
    """Byte image of the symbolic scalar x that has (exactly) numpy dtype `dtype`."""
    n = dtype.itemsize
    if n == 1 or dtype.kind == "b":
        v = x.concrete("one-byte image") if isinstance(x, SymInt) else bool(x)
        return np.array(v, dtype=dtype).tobytes()
    t = tab()
    key = (x.t.get_id(), dtype.kind, n)
    if key in t.bytekey:
        p = t.bytekey[key]
    else:
        i = t.n[n]
        t.n[n] += 1
        p = _pattern(n, i, t.alphabet)
        t.bytekey[key] = p
        t.bytes[p] = (x, dtype.newbyteorder("<"))
    big = dtype.byteorder == ">" or (dtype.byteorder == "=" and np.little_endian is False)
    return p[::-1] if big else p


_MARK = {8: (0xFA, 0xFD), 4: (0xFB,), 2: (0xF7,)}
_REINT = {}


def from_bytes(buf, dtype):
    """list of scalars (Python numbers or Sym) decoded from buf with a simple dtype"""
    n = dtype.itemsize
    buf = bytes(buf)
    cnt = len(buf) // n
    vals = np.frombuffer(buf[: cnt * n], dtype=dtype).astype(object)
    c = core.CTX
    if c is None or c.tab is None or not c.tab.bytes:
        return vals
    t = c.tab
    # positions covered by handles
    hit = False
    for b in (0xFA, 0xFB, 0xF7):
        if b in buf:
            hit = True
    if not hit:
        return vals
    i = 0
    spans = []  # (start, end, sym, srcdtype, reversed)
    ln = len(buf)
    while i < ln:
        b = buf[i]
        found = None
        for w in (8, 4, 2):
            pat = buf[i : i + w]
            if len(pat) < w:
                continue
            if pat in t.bytes:
                found = (i, i + w, *t.bytes[pat], False)
                break
            rp = pat[::-1]
            if rp in t.bytes:
                found = (i, i + w, *t.bytes[rp], True)
                break
        if found:
            spans.append(found)
            i = found[1]
        else:
            i += 1
    if not spans:
        return vals
    big = dtype.byteorder == ">"
    for s, e, x, sdt, rev in spans:
        k0, k1 = s // n, (e - 1) // n
        if s % n == 0 and e - s == n:
            if k0 >= cnt:
                continue
            if rev == big:
                if sdt.kind == dtype.kind:
                    vals[k0] = _with_dtype(x, dtype)
                    continue
                if sdt.kind in "iu" and dtype.kind in "iu":
                    w = 8 * n
                    if dtype.kind == "u":
                        y = core.ite(x < 0, x.as_python() + 2**w, x.as_python())
                    else:
                        y = core.ite(x >= 2 ** (w - 1), x.as_python() - 2**w, x.as_python())
                    vals[k0] = _with_dtype(y, dtype)
                    continue
            vals[k0] = _reinterpret(x, sdt, dtype, rev != big)
        else:
            for k in range(k0, min(k1, cnt - 1) + 1):
                why = f"bytes of {sdt} read with another alignment/width ({dtype})"
                if dtype.kind == "f":
                    vals[k] = c.unknown_float(why, dtype)
                elif n == 1:
                    vals[k] = c.unknown_int(why, dtype) if dtype.kind in "iu" else vals[k]
                else:
                    vals[k] = c.unknown_int(why, dtype)
    return vals


def _with_dtype(x, dtype):
    dt = dtype.newbyteorder("=")
    if isinstance(x, SymInt):
        return SymInt(x.t, x.lo, x.hi, dt)
    if isinstance(x, SymFloat):
        from .symarray import cast_scalar

        return cast_scalar(x, dt)
    return x


def _reinterpret(x, sdt, dtype, swapped):
    c = core.CTX
    why = f"bytes of {sdt} reinterpreted as {dtype}" + (" byte-swapped" if swapped else "")
    key = ("re", x.t.get_id(), str(sdt), str(dtype), swapped)
    if key not in c.memo:
        c.memo[key] = (
            c.unknown_float(why, dtype) if dtype.kind == "f" else c.unknown_int(why, dtype), x)
    return c.memo[key][0]


# ---------------------------------------------------------------------------
# representative images (regular expressions, str predicates)
# ---------------------------------------------------------------------------
def image(rec, fill=0):
    """A representative text of the number, of length 1+fill when fill is given.  Forks
    on the sign (the only thing the digits' shape depends on)."""
    kind, x, info = rec
    if kind == "i":
        neg = bool(x < 0)
        if fill:
            return "-" + "7" * fill if neg else "7" * (fill + 1)
        return "-7" if neg else "7"
    neg = bool(SymBool(z3.fpIsNegative(x.t)))
    if x.finite is False and not bool(SymBool(z3.Not(z3.Or(z3.fpIsNaN(x.t), z3.fpIsInf(x.t))))):
        return "nan"
    if info[0] == "fix":
        body = "7." + "7" * info[1] if info[1] else "7"
    else:
        body = "7.7e-07"
    r = ("-" if neg else "") + body
    if fill:
        n = fill + 1
        if len(r) <= n:
            r = r.replace("7.", "7." + "7" * (n - len(r)), 1)
    return r


def str_predicate(s, name):
    out = []
    i = 0
    while i < len(s):
        ch = s[i]
        if ord(ch) >= HBASE and ch != FILL:
            j = i + 1
            while j < len(s) and s[j] == FILL:
                j += 1
            out.append(image(tab().text[ord(ch) - HBASE], j - i - 1))
            i = j
        else:
            out.append(ch)
            i += 1
    return getattr("".join(out), name)()

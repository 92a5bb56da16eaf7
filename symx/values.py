"""Symbolic scalars (`Sym`), booleans (`SymBool`) and arrays (`SymArray`) that the
real code computes with, and their numpy semantics (merging, not forking, for
max/min/abs/where/clip/sign)."""
import math
import numbers
from fractions import Fraction

import numpy as np

from . import terms
from .engine import Cond, FALSE, TRUE, cmp, conj, disj
from .terms import EngineError, Poly, ONE, T, ZERO

ENG = None  # the current Engine


def set_engine(e):
    global ENG
    ENG = e


NAN = float("nan")
NUMBERS = (int, float, Fraction, np.integer, np.floating)


def is_num(x):
    return isinstance(x, NUMBERS) and not isinstance(x, (bool, np.bool_))


def is_conc(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, bool, np.bool_))


def poly_of(x):
    """Poly of a finite number or Sym; None when x is nan/inf."""
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, (bool, np.bool_)):
        return terms.const(int(x))
    if isinstance(x, (int, np.integer)):
        return terms.const(int(x))
    if isinstance(x, Fraction):
        return terms.const(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isfinite(f):
            return terms.const(terms.snap(f))
        return None
    if isinstance(x, SymBool):
        return x.as_sym().p if not x.is_const else terms.const(int(x.c.a))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return poly_of(x.item())
    if isinstance(x, FPBase):
        raise Double()
    raise EngineError(f"not a number: {type(x)}")


class FPBase:
    """base of the symbolic doubles of symx/fp.py"""

    is_double = True
    __array_priority__ = 1000.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)


class Double(EngineError):
    """an operand is an IEEE double (symx/fp.py): the operation is one of doubles"""


def or_double(f):
    """the operation f on real terms, or the operator of doubles"""
    import functools
    import operator

    op = getattr(operator, {"s_add": "add", "s_sub": "sub", "s_mul": "mul", "s_div": "truediv", "s_lt": "lt", "s_le": "le", "s_eq": "eq", "s_ne": "ne"}[f.__name__])

    @functools.wraps(f)
    def g(a, b):
        try:
            return f(a, b)
        except Double:
            if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
                raise EngineError("a double meets a real number")
            return op(float(a) if is_conc(a) else a, float(b) if is_conc(b) else b)

    return g


def wrap(p, integer=False):
    return Sym(p, integer)


def _binary(fn):
    def op(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if not isinstance(o, (Sym, SymBool)) and not is_conc(o) and not (isinstance(o, np.ndarray) and o.ndim == 0):
            return NotImplemented
        return fn(self, o)

    return op


class Sym:
    __slots__ = ("p", "integer")
    __array_priority__ = 1000.0

    def __init__(self, p, integer=False):
        self.p = p
        self.integer = integer

    # -- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    # -- arithmetic
    @_binary
    def __add__(self, o):
        return s_add(self, o)

    @_binary
    def __radd__(self, o):
        return s_add(o, self)

    @_binary
    def __sub__(self, o):
        return s_sub(self, o)

    @_binary
    def __rsub__(self, o):
        return s_sub(o, self)

    @_binary
    def __mul__(self, o):
        return s_mul(self, o)

    @_binary
    def __rmul__(self, o):
        return s_mul(o, self)

    @_binary
    def __truediv__(self, o):
        return s_div(self, o)

    @_binary
    def __rtruediv__(self, o):
        return s_div(o, self)

    @_binary
    def __floordiv__(self, o):
        return s_floordiv(self, o)

    @_binary
    def __rfloordiv__(self, o):
        return s_floordiv(o, self)

    @_binary
    def __mod__(self, o):
        return s_mod(self, o)

    @_binary
    def __rmod__(self, o):
        return s_mod(o, self)

    def __divmod__(self, o):
        return s_floordiv(self, o), s_mod(self, o)

    @_binary
    def __pow__(self, o):
        return s_pow(self, o)

    @_binary
    def __rpow__(self, o):
        return s_pow(o, self)

    def __neg__(self):
        return Sym(-self.p, self.integer)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return s_floor(self)

    def __trunc__(self):
        return s_int(self)

    # -- comparisons
    @_binary
    def __lt__(self, o):
        return s_lt(self, o)

    @_binary
    def __le__(self, o):
        return s_le(self, o)

    @_binary
    def __gt__(self, o):
        return s_lt(o, self)

    @_binary
    def __ge__(self, o):
        return s_le(o, self)

    @_binary
    def __eq__(self, o):
        return s_eq(self, o)

    @_binary
    def __ne__(self, o):
        return s_ne(self, o)

    def __hash__(self):
        return hash(self.p)

    def __bool__(self):
        return bool(s_ne(self, 0))

    def __float__(self):
        if self.p.is_const:
            return float(self.p.const)
        raise EngineError("float() of a symbolic value")

    def __int__(self):
        if self.p.is_const:
            return int(self.p.const)
        raise EngineError("int() of a symbolic value")

    def __index__(self):
        if self.p.is_const and self.p.const.denominator == 1:
            return int(self.p.const)
        if self.integer:
            for v in (0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4):
                if bool(self == v):
                    return v
            # deterministic search, so that paths can be replayed decision by decision
            sign = 1 if bool(self > 0) else -1
            x = self * sign
            lo, hi = 4, 8
            while bool(x > hi):
                lo, hi = hi, 2 * hi
                if hi > 1 << 24:
                    raise EngineError("symbolic value used as an index")
            while hi - lo > 1:  # lo < x <= hi
                mid = (lo + hi) // 2
                if bool(x > mid):
                    lo = mid
                else:
                    hi = mid
            return sign * hi
        raise EngineError("symbolic value used as an index")

    def __format__(self, spec):
        return f"<{self.p}>"

    def __repr__(self):
        return f"Sym({self.p})"

    # -- float / ndarray-scalar API used by code
    def copy(self):
        return self

    def item(self):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(object)

    def astype(self, *_a, **_k):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def all(self, *a, **k):
        return s_ne(self, 0)

    def any(self, *a, **k):
        return s_ne(self, 0)

    def sqrt(self):
        return s_sqrt(self)

    def is_integer(self):
        return self.integer

    def conjugate(self):
        return self

    def reshape(self, *shape):
        return as_sym_array(self).reshape(*shape)

    def flatten(self):
        return as_sym_array(self).reshape(1)

    def __getitem__(self, key):
        return as_sym_array(self)[key]

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# Sym must not look like a sequence to numpy
del Sym.__len__
del Sym.__getitem__


class SymBool:
    __slots__ = ("c",)
    __array_priority__ = 1000.0

    def __init__(self, c):
        self.c = c

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    @property
    def is_const(self):
        return self.c.k == "const"

    def __bool__(self):
        return ENG.branch(self.c)

    def as_sym(self):
        if self.is_const:
            return Sym(terms.const(int(self.c.a)))
        a = T.get("ind", self.c.key(), self.c, nonneg=True)
        return Sym(terms.atom_poly(a))

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(conj([self.c, cond_of(o)]))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(disj([self.c, cond_of(o)]))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        a, b = self.c, cond_of(o)
        return mkbool(disj([conj([a, b.negate()]), conj([a.negate(), b])]))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(self.c.negate())

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return ~(self ^ o)
        return self.as_sym() == o

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return self ^ o
        return self.as_sym() != o

    def __hash__(self):
        return hash(self.c.key())

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t, *a, **k):
        if t in (bool, np.bool_):
            return self
        return self.as_sym()

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return f"SymBool({self.c})"

    def __deepcopy__(self, memo):
        return self


def _arith(name):
    def f(self, o):
        return getattr(self.as_sym(), name)(o)

    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
           "__rtruediv__", "__pow__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(SymBool, _n, _arith(_n))
SymBool.__neg__ = lambda self: -self.as_sym()
SymBool.__abs__ = lambda self: self.as_sym()


def mkbool(c):
    if c.k == "const":
        return bool(c.a)
    return SymBool(c)


def cond_of(x):
    if isinstance(x, SymBool):
        return x.c
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, Sym):
        return cmp(x.p, "!=")
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return cond_of(x.item())
    if is_conc(x):
        return TRUE if x else FALSE
    if isinstance(x, Cond):
        return x
    raise EngineError(f"not a condition: {type(x)}")


# ---------------------------------------------------------------------------
# scalar operations (numpy semantics: no exceptions, nan propagates)


def _both_conc(a, b):
    return not isinstance(a, (Sym, SymBool, FPBase)) and not isinstance(b, (Sym, SymBool, FPBase))


def _np2(fn, a, b):
    with np.errstate(all="ignore"):
        if isinstance(a, Fraction):
            a = float(a)
        if isinstance(b, Fraction):
            b = float(b)
        return fn(a, b)


def _int(a, b):
    f = lambda x: (isinstance(x, Sym) and x.integer) or isinstance(x, (int, np.integer, bool, np.bool_))
    return f(a) and f(b)


@or_double
def s_add(a, b):
    if _both_conc(a, b):
        return _np2(np.add, a, b)
    p, q = poly_of(a), poly_of(b)
    if p is None or q is None:
        return NAN
    return Sym(p + q, _int(a, b))


@or_double
def s_sub(a, b):
    if _both_conc(a, b):
        return _np2(np.subtract, a, b)
    p, q = poly_of(a), poly_of(b)
    if p is None or q is None:
        return NAN
    return Sym(p - q, _int(a, b))


@or_double
def s_mul(a, b):
    if _both_conc(a, b):
        return _np2(np.multiply, a, b)
    p, q = poly_of(a), poly_of(b)
    if p is None or q is None:
        return NAN
    return Sym(p * q, _int(a, b))


@or_double
def s_div(a, b):
    if _both_conc(a, b):
        return _np2(np.divide, a, b)
    q = poly_of(b)
    p = poly_of(a)
    if q is None or p is None:
        return NAN
    if not q.t:
        return NAN
    if not q.is_const:
        s = terms.quick_sign(q)
        if s not in ("+", "-") and not (terms.T.index.get(("den_ok", q))):
            if bool(mkbool(cmp(q, "=="))):
                return NAN
            T.index[("den_ok", q)] = True
    return Sym(p * terms.inv(q))


def s_floor(x):
    if isinstance(x, Sym):
        if x.integer:
            return x
        if x.p.is_const:
            return math.floor(x.p.const)
        a = T.get("floor", x.p, (x.p,), integer=True)
        return Sym(terms.atom_poly(a), True)
    return np.floor(x)


def s_ceil(x):
    if isinstance(x, Sym):
        return -s_floor(-x)
    return np.ceil(x)


def s_int(x):
    """int(): truncation toward zero."""
    if isinstance(x, Sym):
        if x.integer:
            return x
        if bool(s_le(0, x)):
            return s_floor(x)
        return -s_floor(-x)
    return int(x)


def s_floordiv(a, b):
    if _both_conc(a, b):
        return _np2(np.floor_divide, a, b)
    q = poly_of(b)
    if q is not None and q.is_const and q.const == 0:
        return NAN
    if _int(a, b):
        # integers: k with k*b <= a < (k+1)*b (b > 0) as a floor atom
        r = s_div(a, b)
        if isinstance(r, float):
            return r
        if r.p.is_const:
            return math.floor(r.p.const)
        at = T.get("floor", r.p, (r.p,), integer=True)
        return Sym(terms.atom_poly(at), True)
    r = s_div(a, b)
    if isinstance(r, float):
        return NAN
    return s_floor(r)


def s_mod(a, b):
    if _both_conc(a, b):
        return _np2(np.mod, a, b)
    k = s_floordiv(a, b)
    return s_sub(a, s_mul(b, k))


def s_pow(a, b):
    if _both_conc(a, b):
        return _np2(np.power, a, b)
    if isinstance(b, Sym):
        if not b.p.is_const:
            raise EngineError("symbolic exponent")
        e = b.p.const
    else:
        e = terms.snap(float(b))
    p = poly_of(a)
    if p is None:
        return NAN
    if e.denominator == 1:
        if e < 0:
            return s_div(1, s_pow(a, int(-e)))
        return Sym(p.pow(int(e)), isinstance(a, Sym) and a.integer)
    if e.denominator == 2:
        r = s_sqrt(a)
        return s_pow(r, int(e * 2))
    raise EngineError(f"power {e}")


def s_sqrt(x):
    if not isinstance(x, (Sym, SymBool)):
        with np.errstate(all="ignore"):
            if isinstance(x, (int, np.integer)) or (isinstance(x, (float, np.floating)) and x > 0 and terms.snap(float(x)).denominator < 100000):
                return exact_sqrt(x)
            return np.sqrt(float(x))
    p = poly_of(x)
    if p.is_const:
        return exact_sqrt(p.const)
    s = terms.quick_sign(p)
    if s not in ("+", "0+", "0"):
        if not bool(mkbool(cmp(p, ">="))):
            return NAN
    return Sym(terms.sqrt(p))


EXACT_ROOTS = True


def exact_sqrt(x):
    f = x if isinstance(x, Fraction) else terms.snap(float(x))
    if f < 0:
        return NAN
    r = terms._isqrt_fraction(f)
    if r is not None:
        return float(r)
    if not EXACT_ROOTS:
        return float(np.sqrt(float(x)))
    return Sym(terms.sqrt(terms.const(f)))


def s_abs(x):
    if isinstance(x, SymBool):
        x = x.as_sym()
    if isinstance(x, Sym):
        return Sym(terms.absolute(x.p), x.integer)
    return abs(x)


def _nanq(x):
    return not isinstance(x, (Sym, SymBool)) and is_conc(x) and (x != x)


def _infq(x):
    return not isinstance(x, (Sym, SymBool)) and is_conc(x) and not isinstance(x, Fraction) and math.isinf(float(x))


def s_max(a, b):
    if _both_conc(a, b):
        return _np2(np.maximum, a, b)
    if _nanq(a) or _nanq(b):
        return NAN
    for x, y in ((a, b), (b, a)):
        if _infq(x):
            return x if x > 0 else y
    return Sym(terms.maximum(poly_of(a), poly_of(b)), _int(a, b))


def s_min(a, b):
    if _both_conc(a, b):
        return _np2(np.minimum, a, b)
    if _nanq(a) or _nanq(b):
        return NAN
    for x, y in ((a, b), (b, a)):
        if _infq(x):
            return x if x < 0 else y
    return Sym(terms.minimum(poly_of(a), poly_of(b)), _int(a, b))


def s_fmax(a, b):
    if _nanq(a):
        return b
    if _nanq(b):
        return a
    return s_max(a, b)


def s_fmin(a, b):
    if _nanq(a):
        return b
    if _nanq(b):
        return a
    return s_min(a, b)


def _cmp_pre(a, b):
    """(handled, result) for comparisons with nan/inf."""
    if _nanq(a) or _nanq(b):
        return "nan"
    if _infq(a) or _infq(b):
        return "inf"
    return None


@or_double
def s_lt(a, b):
    if _both_conc(a, b):
        return bool(a < b)
    k = _cmp_pre(a, b)
    if k == "nan":
        return False
    if k == "inf":
        return (_infq(b) and b > 0) or (_infq(a) and a < 0)
    return mkbool(cmp(poly_of(b) - poly_of(a), ">"))


@or_double
def s_le(a, b):
    if _both_conc(a, b):
        return bool(a <= b)
    k = _cmp_pre(a, b)
    if k == "nan":
        return False
    if k == "inf":
        return (_infq(b) and b > 0) or (_infq(a) and a < 0)
    return mkbool(cmp(poly_of(b) - poly_of(a), ">="))


@or_double
def s_eq(a, b):
    if _both_conc(a, b):
        return bool(a == b)
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return ~(SymBool(cond_of(a)) ^ b)
    if _cmp_pre(a, b):
        return False
    return mkbool(cmp(poly_of(a) - poly_of(b), "=="))


@or_double
def s_ne(a, b):
    if _both_conc(a, b):
        return bool(a != b)
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(cond_of(a)) ^ b
    if _cmp_pre(a, b):
        return True
    return mkbool(cmp(poly_of(a) - poly_of(b), "!="))


def s_ite(c, a, b):
    """c ? a : b, merged when both are finite numbers, forked otherwise."""
    if not isinstance(c, (SymBool, Sym)):
        return a if c else b
    c = SymBool(cond_of(c)) if not isinstance(c, SymBool) else c
    if c.is_const:
        return a if c.c.a else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return (c & a) | (~c & b)
    if not (isinstance(a, (Sym, SymBool)) or is_conc(a)) or not (isinstance(b, (Sym, SymBool)) or is_conc(b)):
        return a if bool(c) else b
    p, q = poly_of(a), poly_of(b)
    if p is None or q is None:
        return a if bool(c) else b
    if p == q:
        return a
    if c.c.k == "cmp" and c.c.b in ("==", "!=") and terms.T.impossible is not None:
        zero = c.c if c.c.b == "==" else c.c.negate()
        if terms.T.impossible(zero):
            return b if c.c.b == "==" else a
    # c ? d : 0 with c = (d > 0) is relu(d)
    if c.c.k == "cmp" and c.c.b in (">", ">="):
        d = p - q
        r = _proportional(d, c.c.a)
        if r is not None and r > 0:
            return Sym(q + terms.relu(d))
        if r is not None and r < 0:
            return Sym(q - terms.relu(-d))
    t = SymBool(c.c).as_sym().p
    return Sym(q + t * (p - q), _int(a, b))


def _proportional(p, q):
    if len(p.t) != len(q.t) or not p.t:
        return None
    r = None
    for m, c in p.t.items():
        d = q.t.get(m)
        if d is None:
            return None
        if r is None:
            r = c / d
        elif c / d != r:
            return None
    return r


def s_sign(x):
    if isinstance(x, SymBool):
        x = x.as_sym()
    if not isinstance(x, Sym):
        return np.sign(x)
    s = terms.quick_sign(x.p)
    if s == "+":
        return 1.0
    if s == "-":
        return -1.0
    if s == "0":
        return 0.0
    up = mkbool(cmp(x.p, ">"))
    dn = mkbool(cmp(-x.p, ">"))
    if up is True:
        return 1.0
    if dn is True:
        return -1.0
    if T.entails is not None:
        if T.entails(x.p, ">"):
            return 1.0
        if T.entails(-x.p, ">"):
            return -1.0
    return s_sub(as01(up), as01(dn))


def as01(b):
    if isinstance(b, SymBool):
        return b.as_sym()
    return int(b)


def s_isnan(x):
    if isinstance(x, FPBase):
        return x.isnan()
    if isinstance(x, (Sym, SymBool)):
        return False
    return bool(x != x)


def s_isfinite(x):
    if isinstance(x, FPBase):
        return x.isfinite()
    if isinstance(x, (Sym, SymBool)):
        return True
    return bool(np.isfinite(float(x)))


def s_isinf(x):
    if isinstance(x, FPBase):
        return x.isinf()
    if isinstance(x, (Sym, SymBool)):
        return False
    return bool(np.isinf(float(x)))


def s_square(x):
    return s_mul(x, x)


def s_recip(x):
    return s_div(1.0, x)


def s_and(a, b):
    if _both_conc(a, b):
        return bool(a) and bool(b)
    return mkbool(conj([cond_of(a), cond_of(b)]))


def s_or(a, b):
    if _both_conc(a, b):
        return bool(a) or bool(b)
    return mkbool(disj([cond_of(a), cond_of(b)]))


def s_xor(a, b):
    if _both_conc(a, b):
        return bool(a) != bool(b)
    return SymBool(cond_of(a)) ^ b


def s_not(a):
    if not isinstance(a, (Sym, SymBool)):
        return not bool(a)
    return mkbool(cond_of(a).negate())


def s_bitand(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
        return a & b
    return s_and(a, b)


def s_bitor(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
        return a | b
    return s_or(a, b)


def s_clip(x, lo, hi):
    if lo is not None:
        x = s_max(x, lo)
    if hi is not None:
        x = s_min(x, hi)
    return x


def s_fn(name):
    """Transcendental functions are uninterpreted (congruence only)."""
    real = getattr(np, name)

    def f(x):
        if not isinstance(x, (Sym, SymBool)):
            with np.errstate(all="ignore"):
                return real(float(x))
        p = poly_of(x)
        if p.is_const:
            return float(real(float(p.const)))
        a = T.get("uf", (name, p), (name, (p,)), pos=(name == "exp"))
        return Sym(terms.atom_poly(a))

    return f


def s_hypot(a, b):
    return s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))


def s_copysign(a, b):
    return s_ite(s_le(0, b), s_abs(a), -s_abs(a))


def s_neg(a):
    if isinstance(a, SymBool):
        a = a.as_sym()
    return -a


def s_id(a):
    return a


def s_matmul_err(*_):
    raise EngineError("matmul on scalars")


UFUNC = {
    "add": s_add, "subtract": s_sub, "multiply": s_mul, "divide": s_div, "true_divide": s_div,
    "floor_divide": s_floordiv, "remainder": s_mod, "mod": s_mod, "fmod": s_mod, "power": s_pow,
    "float_power": s_pow, "negative": s_neg, "positive": s_id, "absolute": s_abs, "fabs": s_abs,
    "sqrt": s_sqrt, "square": s_square, "reciprocal": s_recip, "sign": s_sign,
    "maximum": s_max, "minimum": s_min, "fmax": s_fmax, "fmin": s_fmin,
    "less": s_lt, "less_equal": s_le, "greater": lambda a, b: s_lt(b, a),
    "greater_equal": lambda a, b: s_le(b, a), "equal": s_eq, "not_equal": s_ne,
    "isnan": s_isnan, "isfinite": s_isfinite, "isinf": s_isinf,
    "logical_and": s_and, "logical_or": s_or, "logical_xor": s_xor, "logical_not": s_not,
    "bitwise_and": s_bitand, "bitwise_or": s_bitor, "bitwise_xor": s_xor, "invert": s_not,
    "bitwise_not": s_not, "floor": s_floor, "ceil": s_ceil, "trunc": s_int, "rint": s_id,
    "clip": s_clip, "sin": s_fn("sin"), "cos": s_fn("cos"), "tan": s_fn("tan"),
    "arcsin": s_fn("arcsin"), "exp": s_fn("exp"), "log": s_fn("log"), "log2": s_fn("log2"), "log10": s_fn("log10"), "arctan": s_fn("arctan"), "tanh": s_fn("tanh"),
    "hypot": s_hypot, "copysign": s_copysign, "conjugate": s_id, "heaviside": lambda x, h: s_ite(s_eq(x, 0), h, as01(s_lt(0, x))),
    "cbrt": s_fn("cbrt"), "signbit": lambda x: s_lt(x, 0),
}
BOOL_UFUNC = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "isnan", "isfinite",
              "isinf", "logical_and", "logical_or", "logical_xor", "logical_not", "signbit"}
IDENTITY = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_and": True, "bitwise_or": False}


def obj(x):
    """Plain object ndarray view/copy of anything."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (Sym, SymBool, FPBase)) or is_conc(x) or x is None:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return obj(build_array(x))


def contains_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymArray, FPBase)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(e, (Sym, SymBool, FPBase)) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(contains_sym(e, depth + 1) for e in x)
    if isinstance(x, dict) and depth < 3:
        return any(contains_sym(e, depth + 1) for e in x.values())
    return False


def build_array(x):
    """np.array for nested sequences that may contain symbolic scalars."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return finish(x.astype(object) if x.dtype.kind == "f" else x)
    if isinstance(x, (Sym, SymBool, FPBase)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.empty(0, dtype=object).view(SymArray)
        parts = [build_array(e) if isinstance(e, (list, tuple, np.ndarray, Sym, SymBool, FPBase, range, map)) else e for e in x]
        if all(not isinstance(e, np.ndarray) for e in parts):
            r = np.array(list(x))
            if r.dtype.kind == "f":
                a = np.empty(len(x), dtype=object)
                for i, e in enumerate(x):
                    a[i] = e
                return a.view(SymArray)
            return r if r.dtype != object else r.view(SymArray)
        shapes = {np.shape(e) if isinstance(e, np.ndarray) else () for e in parts}
        if len(shapes) != 1:
            raise ValueError(
                "setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
        shape = shapes.pop()
        if all(isinstance(e, np.ndarray) and e.dtype != object for e in parts):
            return np.array([np.asarray(e) for e in parts])
        a = np.empty((len(parts), *shape), dtype=object)
        for i, e in enumerate(parts):
            e = e if isinstance(e, np.ndarray) else obj(e)
            a[i] = e.item() if e.ndim == 0 else np.asarray(e).astype(object)
        return a.view(SymArray)
    if isinstance(x, range):
        return np.array(x)
    r = np.array(x)
    return finish(r)


def finish(r, scalar=True):
    """Normalise results: float/object arrays become SymArray; bool object arrays
    without symbolic entries become real boolean arrays."""
    if isinstance(r, np.ndarray):
        if r.dtype.kind == "f" and r.ndim > 0:
            r = r.astype(object)
        if r.dtype == object:
            if r.ndim == 0:
                return r.item()
            if not isinstance(r, SymArray):
                r = r.view(SymArray)
            return r
        if r.ndim == 0 and scalar and type(r) is np.ndarray:
            return r[()]
        return r
    if isinstance(r, tuple):
        return tuple(finish(e) for e in r)
    if isinstance(r, list):
        return [finish(e) if isinstance(e, np.ndarray) else e for e in r]
    return r


def as_sym_array(x):
    a = build_array(x)
    if not isinstance(a, SymArray):
        a = a.astype(object).view(SymArray)
    return a


def boolify(a):
    """Object array of booleans -> real bool array when nothing is symbolic."""
    if a.dtype == object and all(isinstance(e, (bool, np.bool_)) for e in a.flat):
        return a.astype(bool)
    return a


def intify(a):
    if isinstance(a, np.ndarray) and a.dtype == object and a.size and all(
        isinstance(e, (int, np.integer)) and not isinstance(e, bool) for e in a.flat):
        return a.astype(int)
    return a


def elementwise(fn, ins, is_bool, nout=1):
    arrs = np.broadcast_arrays(*[obj(x) for x in ins])
    out = np.empty(arrs[0].shape, dtype=object)
    if out.ndim == 0:
        return fn(*[a.item() for a in arrs])
    for idx in np.ndindex(out.shape):
        out[idx] = fn(*[a[idx] for a in arrs])
    if is_bool:
        out = boolify(out)
        if out.dtype == bool:
            return out
    return out.view(SymArray)


def reduce_axis(fn, a, axis, keepdims, initial, name):
    a = obj(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes))
    shape = b.shape[: len(rest)]
    b = b.reshape(shape + (-1,)) if b.size else b.reshape(shape + (int(np.prod(b.shape[len(rest):], dtype=int)),))
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(shape):
        items = list(b[idx])
        if initial is not None:
            items = [initial] + items
        if not items:
            if name not in IDENTITY:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            out[idx] = IDENTITY[name]
            continue
        r = items[0]
        if len(items) == 1 and name.startswith("logical"):
            r = mkbool(cond_of(r))
        for e in items[1:]:
            r = fn(r, e)
        out[idx] = r
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    if out.ndim == 0:
        return out.item()
    if name in ("logical_and", "logical_or"):
        out = boolify(out)
        if out.dtype == bool:
            return out
    return out.view(SymArray)


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    if name == "matmul" and method == "__call__":
        r = matmul(*inputs)
    elif name in UFUNC:
        fn = UFUNC[name]
        if method == "__call__":
            r = elementwise(fn, inputs, name in BOOL_UFUNC)
            if where is not True:
                base = out[0] if out else np.zeros(np.shape(r))
                r = elementwise(s_ite, (where, r, base), False)
        elif method == "reduce":
            axis = kw.get("axis", 0)
            r = reduce_axis(fn, inputs[0], axis, kw.get("keepdims", False), kw.get("initial", None) if kw.get("initial", None) is not np._NoValue else None, name)
        elif method == "accumulate":
            a = obj(inputs[0])
            axis = kw.get("axis", 0)
            a = np.moveaxis(a, axis, 0).copy()
            for i in range(1, a.shape[0]):
                a[i] = elementwise(fn, (a[i - 1], a[i]), False)
            r = np.moveaxis(a, 0, axis).view(SymArray)
        elif method == "outer":
            a, b = obj(inputs[0]), obj(inputs[1])
            r = elementwise(fn, (a.reshape(a.shape + (1,) * b.ndim), b), name in BOOL_UFUNC)
        elif method == "at":
            a, idx = inputs[0], inputs[1]
            b = np.broadcast_to(obj(inputs[2]), np.shape(a[idx])) if len(inputs) > 2 else None
            for k, i in enumerate(np.atleast_1d(idx)):
                a[i] = fn(a[i], b[k]) if b is not None else fn(a[i])
            return None
        else:
            raise EngineError(f"ufunc method {name}.{method}")
    elif name == "divmod":
        return elementwise(s_floordiv, inputs, False), elementwise(s_mod, inputs, False)
    else:
        if all(not contains_sym_strict(x) for x in inputs):
            ins = [to_float(x) for x in inputs]
            with np.errstate(all="ignore"):
                r = finish(getattr(ufunc, method)(*ins, **kw))
        else:
            raise EngineError(f"ufunc {name}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, np.ndarray):
            if o.dtype != object and (contains_sym_strict(r)):
                if o.dtype.kind in "iub":
                    raise np.core._exceptions.UFuncTypeError("Cannot cast ufunc output") if False else TypeError(
                        "Cannot cast ufunc output from dtype('float64') to integer dtype")
                raise EngineError("in-place write of symbolic values into a float array")
            np.ndarray.__setitem__(o, Ellipsis, r if not isinstance(r, np.ndarray) else np.asarray(obj(r)))
            return o
    return r


def contains_sym_strict(x):
    if isinstance(x, (Sym, SymBool, FPBase)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (Sym, SymBool, FPBase)) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(contains_sym_strict(e) for e in x)
    return False


def to_float(x):
    """Concrete structure with object arrays turned into plain numpy arrays."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        b = boolify(x)
        if b.dtype == bool:
            return np.asarray(b)
        i = intify(x)
        if i.dtype != object:
            return np.asarray(i)
        return np.asarray(np.ndarray.astype(x.view(np.ndarray), float))
    if isinstance(x, list):
        return [to_float(e) for e in x]
    if isinstance(x, tuple):
        return tuple(to_float(e) for e in x)
    if isinstance(x, dict):
        return {k: to_float(v) for k, v in x.items()}
    return x


def matmul(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot1(a, b)
    sa, sb = a.ndim == 1, b.ndim == 1
    if sa:
        a = a[None, :]
    if sb:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    batch = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, batch + a.shape[-2:])
    b = np.broadcast_to(b, batch + b.shape[-2:])
    out = np.empty(batch + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = dot1(a[idx[:-2] + (idx[-2],)], b[idx[:-2] + (slice(None), idx[-1])])
    if sb:
        out = out[..., 0]
    if sa:
        out = out[..., 0, :] if not sb else out[..., 0]
    return finish(out)


def dot1(x, y):
    r = 0.0
    first = True
    for u, v in zip(x, y):
        m = s_mul(u, v)
        r = m if first else s_add(r, m)
        first = False
    return r


# ---------------------------------------------------------------------------
# arrays


class SymArray(np.ndarray):
    __array_priority__ = 2000.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __getitem__(self, key):
        key = fix_key(key, self)
        r = np.ndarray.__getitem__(self, key)
        return r

    def __setitem__(self, key, value):
        mask = sym_mask(key)
        if mask is not None:
            self._masked_set(mask, value)
            return
        key = fix_key(key, self)
        if isinstance(value, (list, tuple)):
            value = build_array(value)
        if isinstance(value, np.ndarray):
            if value.dtype != object:
                value = value.astype(object)
            value = np.asarray(value)
            if value.ndim == 0:
                value = value.item()
        np.ndarray.__setitem__(self, key, value)

    def _masked_set(self, mask, value):
        # value scalar (finite) and mask of the full shape (or of the leading axis)
        scalar = isinstance(value, (Sym, SymBool)) or is_conc(value)
        if scalar and mask.shape == self.shape[: mask.ndim]:
            for idx in np.ndindex(mask.shape):
                c = mask[idx]
                sub = self[idx]
                if isinstance(sub, np.ndarray):
                    for j in np.ndindex(sub.shape):
                        sub[j] = s_ite(c, value, sub[j])
                else:
                    np.ndarray.__setitem__(self, idx, s_ite(c, value, sub))
            return
        conc = np.zeros(mask.shape, dtype=bool)
        for idx in np.ndindex(mask.shape):
            conc[idx] = bool(mask[idx])
        self[conc] = value

    def astype(self, dtype, *a, **k):
        if dtype in (bool, np.bool_):
            out = np.empty(self.shape, dtype=object)
            for i in np.ndindex(self.shape):
                out[i] = mkbool(cond_of(self[i]))
            return boolify(out)
        if dtype in (int, np.int64, np.int32, "int", np.dtype(int)):
            if contains_sym_strict(self):
                return elementwise(s_int, (self,), False)
            return np.ndarray.astype(self.view(np.ndarray), dtype, *a, **k)
        return self.copy()

    def copy(self, *a, **k):
        return np.ndarray.copy(self, *a, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_axis(s_or, as_bool_array(self), axis, keepdims, None, "logical_or")

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_axis(s_and, as_bool_array(self), axis, keepdims, None, "logical_and")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, **k):
        return reduce_axis(s_add, self, axis, keepdims, initial, "add")

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, **k):
        return reduce_axis(s_mul, self, axis, keepdims, initial, "multiply")

    def max(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return reduce_axis(s_max, self, axis, keepdims, initial, "maximum")

    def min(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return reduce_axis(s_min, self, axis, keepdims, initial, "minimum")

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else int(np.prod([self.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
        return s / n

    def clip(self, min=None, max=None, **k):
        return elementwise(s_clip, (self, obj(min), obj(max)), False)

    def dot(self, o):
        return np_dot(self, o)

    def round(self, *a, **k):
        return self.copy()

    def cumsum(self, axis=None, **k):
        if axis is None:
            return array_ufunc(np.add, "accumulate", (self.reshape(-1),), {"axis": 0})
        return array_ufunc(np.add, "accumulate", (self,), {"axis": axis})

    def argmax(self, axis=None, **k):
        return _argbest(self, axis, s_lt)

    def argmin(self, axis=None, **k):
        return _argbest(self, axis, lambda a, b: s_lt(b, a))

    def tolist(self):
        return np.ndarray.tolist(self.view(np.ndarray))

    def fill(self, v):
        self[...] = v

    def std(self, axis=None, ddof=0, **k):
        return s_arr_sqrt(self.var(axis=axis, ddof=ddof))

    def var(self, axis=None, ddof=0, **k):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis=axis) / (n - ddof)

    @property
    def real(self):
        return self

    def __contains__(self, x):
        return bool((self == x).any())


def s_arr_sqrt(x):
    return elementwise(s_sqrt, (x,), False)


def _argbest(a, axis, better):
    if axis is not None:
        a2 = np.moveaxis(obj(a), axis, -1)
        out = np.empty(a2.shape[:-1], dtype=int)
        for i in np.ndindex(out.shape):
            out[i] = _argbest(a2[i], None, better)
        return out
    items = list(obj(a).flat)
    k = 0
    for i in range(1, len(items)):
        if bool(better(items[k], items[i])):
            k = i
    return k


def as_bool_array(a):
    a = obj(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        e = a[i]
        out[i] = e if isinstance(e, (bool, np.bool_, SymBool)) else mkbool(cond_of(e))
    return out


def sym_mask(key):
    """The symbolic boolean mask in an index, if there is one."""
    if isinstance(key, SymBool):
        a = np.empty((), dtype=object)
        a[()] = key
        return a
    if isinstance(key, np.ndarray) and key.dtype == object and key.size and any(isinstance(e, SymBool) for e in key.flat):
        return np.asarray(key)
    return None


def fix_key(key, arr=None):
    if isinstance(key, tuple):
        return tuple(fix_key(k) for k in key)
    if isinstance(key, np.ndarray) and key.dtype == object:
        if key.size and all(isinstance(e, (SymBool, bool, np.bool_)) for e in key.flat):
            out = np.zeros(key.shape, dtype=bool)
            for i in np.ndindex(key.shape):
                out[i] = bool(key[i])
            return out
        if all(isinstance(e, (int, np.integer)) for e in key.flat):
            return np.asarray(key).astype(int)
        if all(isinstance(e, Sym) for e in key.flat):
            raise EngineError("symbolic index array")
        return np.asarray(key).astype(int)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, list):
        if any(isinstance(e, SymBool) for e in key):
            return np.array([bool(e) for e in key])
    return key


# ---------------------------------------------------------------------------
# numpy functions that need their own treatment

IMPL = {}


def impl(*funcs):
    def deco(f):
        for fn in funcs:
            IMPL[fn] = f
        return f

    return deco


def array_function(func, args, kwargs):
    f = IMPL.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if not contains_sym_strict(list(args)) and not contains_sym_strict(list(kwargs.values())):
        with np.errstate(all="ignore"):
            return finish(func(*to_float(args), **to_float(kwargs)))
    kwargs.pop("dtype", None)
    try:
        r = func._implementation(*_promote(args), **_promote_kw(kwargs))
    except AttributeError as e:
        if "_implementation" in str(e):
            r = np.ndarray.__array_function__(_dummy, func, (SymArray,), _promote(args), kwargs)
        else:
            raise
    return finish(r)


_dummy = np.empty(0, dtype=object).view(SymArray)


def _promote(args):
    out = []
    for a in args:
        if isinstance(a, (Sym, SymBool)):
            out.append(as_sym_array(a))
        elif isinstance(a, (list, tuple)) and contains_sym(a):
            out.append(type(a)(_promote(a)) if type(a) in (list, tuple) else a)
        else:
            out.append(a)
    return tuple(out)


def _promote_kw(kw):
    return dict(zip(kw, _promote(tuple(kw.values()))))


@impl(np.concatenate)
def np_concatenate(arrays, axis=0, out=None, dtype=None, **k):
    arrays = [obj(a) for a in arrays]
    return finish(np.concatenate(arrays, axis=axis))


@impl(np.where)
def np_where(c, *xy):
    if not xy:
        c = np.asarray(c) if not isinstance(c, np.ndarray) else c
        out = np.zeros(c.shape, dtype=bool)
        for i in np.ndindex(c.shape):
            out[i] = bool(c[i])
        return np.nonzero(out)
    return elementwise(s_ite, (c, *xy), False)


@impl(np.nonzero, np.flatnonzero, np.argwhere)
def np_nonzero(c):
    return np_where(as_bool_array(c))


@impl(np.count_nonzero)
def np_count_nonzero(a, axis=None, **k):
    return reduce_axis(s_add, elementwise(as01, (as_bool_array(a),), False), axis, False, None, "add")


@impl(np.select)
def np_select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = elementwise(s_ite, (c, x, r), False)
    return r


@impl(np.clip)
def np_clip(a, a_min=None, a_max=None, out=None, **k):
    r = elementwise(s_clip, (a, obj(a_min), obj(a_max)), False)
    if out is not None:
        out[...] = r
        return out
    return r


@impl(np.any)
def np_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(s_or, as_bool_array(a), axis, bool(keepdims) if keepdims is not np._NoValue else False, None, "logical_or")


@impl(np.all)
def np_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(s_and, as_bool_array(a), axis, bool(keepdims) if keepdims is not np._NoValue else False, None, "logical_and")


def _kd(k):
    return False if k is np._NoValue else bool(k)


@impl(np.sum)
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = obj(a)
    if where is not True and where is not np._NoValue:
        a = obj(elementwise(s_ite, (where, a, 0.0), False))
    return reduce_axis(s_add, a, axis, _kd(keepdims), None if initial is np._NoValue else initial, "add")


@impl(np.prod)
def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return reduce_axis(s_mul, a, axis, _kd(keepdims), None if initial is np._NoValue else initial, "multiply")


@impl(np.amax, np.max)
def np_amax(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return reduce_axis(s_max, a, axis, _kd(keepdims), None if initial is np._NoValue else initial, "maximum")


@impl(np.amin, np.min)
def np_amin(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return reduce_axis(s_min, a, axis, _kd(keepdims), None if initial is np._NoValue else initial, "minimum")


@impl(np.nanmax)
def np_nanmax(a, axis=None, **k):
    return reduce_axis(s_fmax, a, axis, False, None, "maximum")


@impl(np.nanmin)
def np_nanmin(a, axis=None, **k):
    return reduce_axis(s_fmin, a, axis, False, None, "minimum")


@impl(np.ptp)
def np_ptp(a, axis=None, **k):
    return np_amax(a, axis) - np_amin(a, axis)


@impl(np.mean)
def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return as_sym_array(a).mean(axis=axis, keepdims=_kd(keepdims))


@impl(np.average)
def np_average(a, axis=None, weights=None, returned=False, **k):
    a = as_sym_array(a)
    if weights is None:
        return a.mean(axis=axis)
    w = obj(weights)
    if w.ndim == 1 and a.ndim > 1:
        w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
    return (a * w.view(SymArray)).sum(axis=axis) / as_sym_array(np.broadcast_to(w, a.shape)).sum(axis=axis)


@impl(np.median)
def np_median(a, axis=None, **k):
    raise EngineError("median")


@impl(np.std)
def np_std(a, axis=None, **k):
    return as_sym_array(a).std(axis=axis)


@impl(np.var)
def np_var(a, axis=None, **k):
    return as_sym_array(a).var(axis=axis)


@impl(np.dot, np.inner)
def np_dot(a, b, out=None):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(s_mul, (a, b), False)
    return matmul(a, b)


@impl(np.vdot)
def np_vdot(a, b):
    return dot1(obj(a).ravel(), obj(b).ravel())


@impl(np.tensordot)
def np_tensordot(a, b, axes=2):
    raise EngineError("tensordot")


@impl(np.outer)
def np_outer(a, b, out=None):
    a, b = obj(a).ravel(), obj(b).ravel()
    return elementwise(s_mul, (a[:, None], b[None, :]), False)


@impl(np.einsum)
def np_einsum(sub, *ops, **k):
    sub = sub.replace(" ", "")
    if "..." in sub:
        raise EngineError("einsum ellipsis")
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins = sub
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    ops = [obj(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    inner = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = 0
        for ii in np.ndindex(*[dims[c] for c in inner]):
            env.update(zip(inner, ii))
            t = 1
            for s, o in zip(ins, ops):
                t = s_mul(t, o[tuple(env[c] for c in s)])
            acc = s_add(acc, t)
        res[oi] = acc
    return finish(res)


@impl(np.isclose)
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = lambda x, y: s_le(s_abs(s_sub(x, y)), s_add(atol, s_mul(rtol, s_abs(y))))
    return elementwise(f, (a, b), True)


@impl(np.allclose)
def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol))


@impl(np.array_equal)
def np_array_equal(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return np_all(elementwise(s_eq, (a, b), True)) if a.ndim else s_eq(a.item(), b.item())


@impl(np.nan_to_num)
def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if s_isnan(e):
            return nan
        return e

    return elementwise(f, (x,), False)


@impl(np.interp)
def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineError("interp period")
    xp, fp = obj(xp), obj(fp)
    n = len(xp)

    def one(v):
        r = fp[n - 1] if right is None else right
        # from the right end: value on the first interval whose right end is > v
        r = s_ite(s_eq(v, xp[n - 1]), fp[n - 1], r)
        for i in range(n - 2, -1, -1):
            slope = s_div(s_sub(fp[i + 1], fp[i]), s_sub(xp[i + 1], xp[i]))
            val = s_add(fp[i], s_mul(slope, s_sub(v, xp[i])))
            c = s_lt(v, xp[i + 1])
            if isinstance(c, SymBool):
                r = val if bool(c) else r
            elif c:
                r = val
        c = s_lt(v, xp[0])
        lv = fp[0] if left is None else left
        if isinstance(c, SymBool):
            r = lv if bool(c) else r
        elif c:
            r = lv
        return r

    return elementwise(one, (x,), False)


@impl(np.sort)
def np_sort(a, axis=-1, **k):
    a = np.moveaxis(obj(a), axis, -1).copy()
    for idx in np.ndindex(a.shape[:-1]):
        row = a[idx]
        n = len(row)
        for i in range(n):
            for j in range(n - 1 - i):
                lo, hi = s_min(row[j], row[j + 1]), s_max(row[j], row[j + 1])
                row[j], row[j + 1] = lo, hi
    return finish(np.moveaxis(a, -1, axis))


@impl(np.argmax)
def np_argmax(a, axis=None, **k):
    return _argbest(a, axis, s_lt)


@impl(np.argmin)
def np_argmin(a, axis=None, **k):
    return _argbest(a, axis, lambda x, y: s_lt(y, x))


@impl(np.linalg.norm)
def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord in (None, 2):
        return elementwise(s_sqrt, (np_sum(elementwise(s_square, (x,), False), axis=axis, keepdims=keepdims),), False)
    if ord == 1:
        return np_sum(elementwise(s_abs, (x,), False), axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return np_amax(elementwise(s_abs, (x,), False), axis=axis, keepdims=keepdims)
    raise EngineError("norm")


@impl(np.linalg.solve)
def np_solve(a, b):
    return exact_solve(a, b)


@impl(np.linalg.inv)
def np_inv(a):
    a = obj(a)
    return exact_solve(a, np.eye(a.shape[0]))


def exact_solve(A, b):
    """Gaussian elimination over the (constant) rationals, symbolic right hand side."""
    A = obj(A)
    n = A.shape[0]
    M = []
    for i in range(n):
        row = []
        for j in range(n):
            p = poly_of(A[i, j])
            if p is None or not p.is_const:
                raise EngineError("linear system with a symbolic matrix")
            row.append(p.const)
        M.append(row)
    B = obj(b)
    one = B.ndim == 1
    R = [[poly_of(e) for e in (row if not one else [row])] for row in B]
    for c in range(n):
        piv = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[piv][c]) < Fraction(1, 10**13):
            raise EngineError("singular matrix")
        M[c], M[piv] = M[piv], M[c]
        R[c], R[piv] = R[piv], R[c]
        f = 1 / M[c][c]
        M[c] = [x * f for x in M[c]]
        R[c] = [x.scale(f) for x in R[c]]
        for r in range(n):
            if r != c and M[r][c]:
                k = M[r][c]
                M[r] = [x - k * y for x, y in zip(M[r], M[c])]
                R[r] = [x - y.scale(k) for x, y in zip(R[r], R[c])]
    out = np.empty(B.shape, dtype=object)
    for i in range(n):
        if one:
            out[i] = Sym(R[i][0])
        else:
            for j in range(B.shape[1]):
                out[i, j] = Sym(R[i][j])
    return out.view(SymArray)


@impl(np.append)
def np_append(arr, values, axis=None):
    a, v = obj(arr), obj(values)
    if axis is None:
        a, v = a.ravel(), np.atleast_1d(v).ravel()
        axis = 0
    return finish(np.concatenate((a, v), axis=axis))


@impl(np.full_like)
def np_full_like(a, v, **k):
    r = np.empty(np.shape(a), dtype=object)
    r[...] = v
    return r.view(SymArray)


@impl(np.zeros_like)
def np_zeros_like(a, dtype=None, **k):
    if dtype in (int, bool):
        return np.zeros(np.shape(a), dtype=dtype)
    r = np.empty(np.shape(a), dtype=object)
    r[...] = 0.0
    return r.view(SymArray) if r.ndim else 0.0


@impl(np.ones_like)
def np_ones_like(a, dtype=None, **k):
    r = np.empty(np.shape(a), dtype=object)
    r[...] = 1.0
    return r.view(SymArray) if r.ndim else 1.0


@impl(np.empty_like)
def np_empty_like(a, dtype=None, **k):
    return np_full_like(a, 0.0)


@impl(np.cumsum)
def np_cumsum(a, axis=None, **k):
    return as_sym_array(a).cumsum(axis=axis)


@impl(np.trapz)
def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = as_sym_array(y)
    if axis not in (-1, y.ndim - 1):
        raise EngineError("trapz axis")
    d = dx if x is None else np.diff(as_sym_array(x))
    return (d * (y[..., 1:] + y[..., :-1]) / 2).sum(axis=-1)


@impl(np.around, np.round)
def np_round(a, decimals=0, **k):
    return a


@impl(np.unique)
def np_unique(a, *r, **k):
    if r or any(k.values()):
        raise EngineError("unique of symbolic values")
    out = []
    for x in obj(a).reshape(-1):
        for i, y in enumerate(out):
            if bool(x <= y):
                if not bool(x == y):
                    out.insert(i, x)
                break
        else:
            out.append(x)
    return build_array(out) if out else finish(np.array([], dtype=object))


@impl(np.union1d)
def np_union1d(a, b):
    return np_unique(np.concatenate([obj(a).reshape(-1), obj(b).reshape(-1)]))


@impl(np.isin)
def np_isin(a, b, **k):
    return elementwise(lambda e: np_any([s_eq(e, x) for x in obj(b).flat]), (a,), True)


@impl(np.shape)
def np_shape(a):
    return obj(a).shape


@impl(np.ndim)
def np_ndim(a):
    return obj(a).ndim


@impl(np.size)
def np_size(a, axis=None):
    return obj(a).size if axis is None else obj(a).shape[axis]


@impl(np.copyto)
def np_copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        dst[...] = elementwise(s_ite, (where, src, dst), False)


@impl(np.putmask)
def np_putmask(a, mask, values):
    a[mask] = values


@impl(np.place)
def np_place(a, mask, vals):
    a[mask] = vals


@impl(np.copy)
def np_copy(a, *r, **k):
    return as_sym_array(a).copy()


@impl(np.polyval)
def np_polyval(p, x):
    r = 0.0
    for c in obj(p):
        r = s_add(s_mul(r, x), c) if isinstance(x, Sym) else r * x + c
    return r


@impl(np.searchsorted)
def np_searchsorted(a, v, side="left", sorter=None):
    a = obj(a)

    def one(x):
        k = 0
        for e in a:
            c = s_lt(e, x) if side == "left" else s_le(e, x)
            if bool(c):
                k += 1
            else:
                break
        return k

    r = elementwise(one, (v,), False)
    return intify(r)

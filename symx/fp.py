"""IEEE double values as z3 floating point terms (for argument parsing)."""
from .engine import Cond, z3
from . import values as V

F64 = z3.Float64()


class SymFP(V.FPBase):
    """An arbitrary IEEE-754 double (including nan and infinities)."""

    def __init__(self, e):
        self.e = e

    def _c(self, o):
        if isinstance(o, SymFP):
            return o.e
        return z3.FPVal(float(o), F64)

    def __lt__(self, o):
        return V.SymBool(Cond("raw", z3.fpLT(self.e, self._c(o))))

    def __le__(self, o):
        return V.SymBool(Cond("raw", z3.fpLEQ(self.e, self._c(o))))

    def __gt__(self, o):
        return V.SymBool(Cond("raw", z3.fpGT(self.e, self._c(o))))

    def __ge__(self, o):
        return V.SymBool(Cond("raw", z3.fpGEQ(self.e, self._c(o))))

    def __eq__(self, o):
        return V.SymBool(Cond("raw", z3.fpEQ(self.e, self._c(o))))

    def __ne__(self, o):
        return V.SymBool(Cond("raw", z3.Not(z3.fpEQ(self.e, self._c(o)))))

    __hash__ = None

    def isnan(self):
        return V.SymBool(Cond("raw", z3.fpIsNaN(self.e)))

    def isinf(self):
        return V.SymBool(Cond("raw", z3.fpIsInf(self.e)))

    def isfinite(self):
        return V.SymBool(Cond("raw", z3.Not(z3.Or(z3.fpIsNaN(self.e), z3.fpIsInf(self.e)))))

    def __bool__(self):
        return bool(self != 0.0)

    def _bin(f):
        def g(self, o):
            return SymFP(f(z3.RNE(), self.e, self._c(o)))

        return g

    __add__ = _bin(z3.fpAdd)
    __sub__ = _bin(z3.fpSub)
    __mul__ = _bin(z3.fpMul)
    __truediv__ = _bin(z3.fpDiv)

    def _rbin(f):
        def g(self, o):
            return SymFP(f(z3.RNE(), self._c(o), self.e))

        return g

    __radd__ = _rbin(z3.fpAdd)
    __rsub__ = _rbin(z3.fpSub)
    __rmul__ = _rbin(z3.fpMul)
    __rtruediv__ = _rbin(z3.fpDiv)

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def __float__(self):
        raise V.EngineError("float() of a symbolic double")

    def __format__(self, s):
        return "<double>"

    def __repr__(self):
        return f"SymFP({self.e})"


class FPString(str):
    """Text of an arbitrary number: of a float (with a decimal point, which int() refuses) or
    of an integer (which float() reads too)."""

    def __new__(cls, fp=None, integer=None):
        self = str.__new__(cls, "7" if fp is None else "7.5")
        self.fp = integer if fp is None else fp
        self.integer = integer
        return self

    def as_int(self):
        if self.integer is None:
            raise ValueError("invalid literal for int() with base 10")
        return self.integer

    def _negative(self):
        return bool(self.fp < 0)

    def strip(self, *a):
        return self

    lower = upper = lstrip = rstrip = casefold = strip

    def isdigit(self):
        return self.integer is not None and not self._negative()

    isnumeric = isdecimal = isdigit

    def __contains__(self, part):
        if part == "-":
            return self._negative()
        if part == ".":
            return self.integer is None
        return False

    def startswith(self, prefix, *a):
        return "-" in prefix and self._negative()

    def __getnewargs__(self):
        return self.fp, self.integer

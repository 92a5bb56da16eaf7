"""Symbolic real terms: polynomials with rational coefficients over hash-consed atoms.

A term is a finite sum  sum_k c_k * m_k  where m_k is a monomial in atoms with
integer (possibly negative) exponents.  Non polynomial operations of the code
under test become atoms:

  var    a symbolic input
  relu   max(d, 0); max/min/abs are all written with it
  sqrt   the non negative square root of a term
  den    a polynomial that occurs as a denominator (only with exponent < 0)
  ind    the 0/1 value of a condition
  int    an integer introduced by floor
  uf     the value of an uninterpreted function (e.g. an arbitrary network)

The rewriting rules used while multiplying are exact identities of the atoms:
r*r = r*d for r = relu(d), s*s = x for s = sqrt(x), t*t = t for an indicator and
lm(P)/P = (1 - tail(P)/P)/lc(P) for a denominator P.
"""
from fractions import Fraction
from functools import lru_cache

SNAP_REL = 1e-13


class EngineError(Exception):
    """The engine cannot represent what the code does (no verdict)."""


@lru_cache(maxsize=200000)
def snap(x):
    """Float -> rational.  Floats within 1e-13 (relative) of a rational with a
    small denominator denote that rational (0.1 is 1/10); every other float is
    taken by its shortest decimal representation."""
    if x == 0.0:
        return Fraction(0)
    f = Fraction(x)
    for limit in (64, 1000, 100000):
        c = f.limit_denominator(limit)
        if c != 0 and abs(float(c) - x) <= SNAP_REL * abs(x):
            return c
    return Fraction(repr(float(x)))


class Atom:
    __slots__ = ("id", "kind", "data", "nonneg", "pos", "integer", "name")

    def __init__(self, id, kind, data, nonneg=False, pos=False, integer=False, name=None):
        self.id, self.kind, self.data = id, kind, data
        self.nonneg, self.pos, self.integer = nonneg or pos, pos, integer
        self.name = name or f"{kind}{id}"


class Table:
    """Atoms of the current symbolic path (reset for every path)."""

    def __init__(self):
        self.atoms = []
        self.index = {}
        self.entails = None  # callback: entails(poly, op) -> bool
        self.impossible = None
        self.naming = False

    def get(self, kind, key, data, **flags):
        k = (kind, key)
        a = self.index.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, data, **flags)
            self.atoms.append(a)
            self.index[k] = a
        return a


T = Table()


def reset():
    global T
    T.__init__()


MAX_TERMS = 60000
LET_LIMIT = 60


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def const(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = -c
            else:
                v = v - c
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
        return Poly(t)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if o.is_const:
            return self.scale(o.const)
        if self.is_const:
            return o.scale(self.const)
        if LET_LIMIT and len(self.t) * len(o.t) > LET_LIMIT and T.naming:
            if len(self.t) >= len(o.t):
                self = named(self)
            else:
                o = named(o)
            if len(self.t) * len(o.t) > LET_LIMIT:
                self, o = named(self), named(o)
        acc = {}
        todo = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                if needs_rewrite(m):
                    todo.append((m, c))
                else:
                    v = acc.get(m, 0) + c
                    if v == 0:
                        acc.pop(m, None)
                    else:
                        acc[m] = v
        r = Poly(acc)
        for m, c in todo:
            r = r + rewrite(m).scale(c)
        if len(r.t) > MAX_TERMS:
            raise EngineError("term too large")
        return r

    def pow(self, n):
        if n < 0:
            return inv(self).pow(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: x[0])[:40]:
            s = "*".join(T.atoms[a].name + (f"^{e}" if e != 1 else "") for a, e in m)
            out.append(f"{c}" + ("*" + s if s else ""))
        return " + ".join(out) + (" + ..." if len(self.t) > 40 else "")


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def const(c):
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


def atom_poly(a, e=1):
    return Poly({((a.id, e),): Fraction(1)})


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


_SPECIAL = {"relu", "sqrt", "den", "ind"}


def needs_rewrite(m):
    for aid, e in m:
        a = T.atoms[aid]
        k = a.kind
        if k in _SPECIAL:
            if k == "relu" and (e >= 2 or e < 0):
                return True
            if k == "sqrt" and (e >= 2 or e < 0):
                return True
            if k == "ind" and (e >= 2 or e < 0):
                return True
            if k == "den":
                if e > 0:
                    return True
                lm = a.data[1]
                d = dict(m)
                if all(d.get(v, 0) >= ex for v, ex in lm):
                    return True
    return False


def rewrite(m):
    """Exact reduction of a single monomial."""
    for pos, (aid, e) in enumerate(m):
        a = T.atoms[aid]
        k = a.kind
        rest = m[:pos] + m[pos + 1:]
        if k == "relu":
            if e >= 2:
                return mul_mono(atom_poly(a) * a.data.pow(e - 1), rest)
            if e < 0:
                return mul_mono(inv(a.data).pow(-e), rest)
        elif k == "sqrt":
            if e >= 2 or e < 0:
                q, r = divmod(e, 2)
                p = a.data.pow(q) if q >= 0 else inv(a.data).pow(-q)
                if r:
                    p = p * atom_poly(a)
                return mul_mono(p, rest)
        elif k == "ind":
            if e >= 2:
                return mul_mono(atom_poly(a), rest)
            if e < 0:
                raise EngineError("division by an indicator")
        elif k == "den":
            if e > 0:
                return mul_mono(a.data[0].pow(e), rest)
            P, lm = a.data[0], a.data[1]
            d = dict(m)
            if all(d.get(v, 0) >= ex for v, ex in lm):
                # m = rest' * lm * P^e ; lm = (P - tail)/lc
                neg = tuple((v, -ex) for v, ex in lm)
                restm = mono_mul(m, neg)  # rest' * P^e
                lc = P.t[lm]
                tail = P - Poly({lm: lc})
                up = mono_mul(restm, ((aid, 1),))
                return (norm_mono(up) - mul_mono(tail, restm)).scale(1 / lc)
    return Poly({m: Fraction(1)})


def norm_mono(m):
    if needs_rewrite(m):
        return rewrite(m)
    return Poly({m: Fraction(1)})


def mul_mono(p, m):
    """p * m where m is a raw monomial."""
    if not m:
        return p
    acc = ZERO
    plain = {}
    for m1, c in p.t.items():
        x = mono_mul(m1, m)
        if needs_rewrite(x):
            acc = acc + rewrite(x).scale(c)
        else:
            v = plain.get(x, 0) + c
            if v == 0:
                plain.pop(x, None)
            else:
                plain[x] = v
    return acc + Poly(plain)


def mono_key(m):
    """Order for leading monomials (graded, newest atom first)."""
    return (sum(e for _, e in m), tuple(sorted(((a, e) for a, e in m), reverse=True)))


def lead(p):
    m = max(p.t, key=mono_key)
    return m, p.t[m]


def content_mono(p):
    """Greatest common monomial (exponents may be negative)."""
    it = iter(p.t)
    first = dict(next(it))
    ms = [dict(m) for m in p.t]
    out = {}
    keys = set()
    for m in ms:
        keys.update(m)
    for k in keys:
        e = min(m.get(k, 0) for m in ms)
        if e:
            out[k] = e
    return tuple(sorted(out.items()))


def expand_dens(p):
    """Multiply out den atoms with positive exponent (p has no negative ones)."""
    r = ZERO
    for m, c in p.t.items():
        q = ONE
        rest = []
        for a, e in m:
            at = T.atoms[a]
            if at.kind == "den":
                if e < 0:
                    raise EngineError("negative den")
                q = q * at.data[0].pow(e)
            else:
                rest.append((a, e))
        r = r + mul_mono(q, tuple(rest)).scale(c)
    return r


def over_common(p):
    """p = n / D with D a raw monomial (positive exponents) of atoms; n has no
    negative exponents."""
    D = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                D[a] = max(D.get(a, 0), -e)
    if not D:
        return p, ()
    d = tuple(sorted(D.items()))
    n = ZERO
    for m, c in p.t.items():
        x = mono_mul(m, d)
        # all exponents >= 0 now; dens positive are multiplied out
        n = n + expand_raw(x).scale(c)
    return n, d


def expand_raw(m):
    q = ONE
    rest = []
    for a, e in m:
        at = T.atoms[a]
        if at.kind == "den":
            q = q * at.data[0].pow(e)
        else:
            rest.append((a, e))
    rest = tuple(rest)
    return mul_mono(q, rest)


def exact_div(p, d):
    """Polynomial quotient p/d if exact, else None (no negative exponents)."""
    q = ZERO
    lm, lc = lead(d)
    r = p
    n = 0
    while r.t:
        m, c = lead(r)
        dm = dict(m)
        if not all(dm.get(v, 0) >= e for v, e in lm):
            return None
        x = mono_mul(m, tuple((v, -e) for v, e in lm))
        q = q + Poly({x: c / lc})
        r = r - mul_mono(d, x).scale(c / lc)
        n += 1
        if n > 200:
            return None
    return q


def inv(p):
    if not p.t:
        raise ZeroDivisionError
    if p.is_const:
        return const(1 / p.const)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return norm_mono(tuple((a, -e) for a, e in m)).scale(1 / c)
    g = content_mono(p)
    ginv = tuple((a, -e) for a, e in g)
    prim = ZERO
    for m, c in p.t.items():
        prim = prim + expand_raw(mono_mul(m, ginv)).scale(c)
    if prim.is_const or len(prim.t) == 1:
        return mul_mono(inv(prim), ginv) if prim.t else ZERO
    g2 = content_mono(prim)
    if any(e > 0 for _, e in g2):
        return mul_mono(inv(prim), ginv)
    lm, lc = lead(prim)
    P = prim.scale(1 / lc)
    neg = T.index.get(("den", -P))
    if neg is not None:
        P, lc, a = -P, -lc, neg
    else:
        a = T.index.get(("den", P))
    if a is None:
        s = sign(P)
        if s == "+" or (s in ("?", "0+") and T.entails is not None and T.entails(P, ">")):
            a = T.get("den", P, (P, lm), pos=True)
        elif s == "-" or (s in ("?", "0-") and T.entails is not None and T.entails(-P, ">")):
            P, lc = -P, -lc
            a = T.get("den", P, (P, lm), pos=True)
        else:
            a = T.get("den", P, (P, lm))
    r = mul_mono(Poly({((a.id, -1),): Fraction(1)}), ginv)
    return r.scale(1 / lc)


# ----------------------------------------------------------------------------
# naming of large terms (keeps normal forms small, shares equal subterms)


def named(p):
    """The same value as an atom defined to be equal to p (scaled and shifted)."""
    if len(p.t) <= 2:
        return p
    c0 = p.const
    q = p - const(c0) if c0 else p
    g = content_mono(q)
    if g:
        q2 = ZERO
        ginv = tuple((a, -e) for a, e in g)
        q2 = Poly({mono_mul(m, ginv): c for m, c in q.t.items()})
        if not any(needs_rewrite(m) for m in q2.t):
            q = q2
        else:
            g = ()
    m, c = max(q.t.items(), key=lambda x: x[0])
    q = q.scale(1 / c)
    a = T.index.get(("let", q))
    if a is None:
        s = sign(q)
        a = T.get("let", q, q, nonneg=s in ("+", "0+"), pos=s == "+")
    r = atom_poly(a).scale(c)
    if g:
        r = Poly({mono_mul(m, g): k for m, k in r.t.items()})
    return r + const(c0) if c0 else r


def unfold(p, limit=20000):
    """p with all named terms expanded (None when too large)."""
    while True:
        lets = [a for a in p.atoms() if T.atoms[a].kind == "let"]
        if not lets:
            return p
        aid = max(lets)
        out = ZERO
        naming, T.naming = T.naming, False
        try:
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(aid, 0)
                if e < 0:
                    return None
                x = Poly({tuple(sorted(d.items())): c})
                if e:
                    x = x * T.atoms[aid].data.pow(e)
                out = out + x
                if len(out.t) > limit:
                    return None
        except EngineError:
            return None
        finally:
            T.naming = naming
        p = out


# ----------------------------------------------------------------------------
# sign reasoning without a solver


def mono_sign(m):
    s = "+"
    for aid, e in m:
        a = T.atoms[aid]
        if a.pos:
            continue
        if e % 2 == 0:
            if e > 0 and s == "+":
                s = "0+"
            continue
        if a.nonneg:
            if e > 0:
                s = "0+"
            continue
        return "?"
    return s


def quick_sign(p):
    """'+', '0+', '0', '-', '0-' or '?'."""
    if not p.t:
        return "0"
    cur = None
    for m, c in p.t.items():
        s = mono_sign(m)
        if s == "?":
            return "?"
        if c < 0:
            s = "-" if s == "+" else "0-"
        if cur is None:
            cur = s
        elif cur[-1] == s[-1]:
            if len(cur) == 2 and len(s) == 1:
                cur = s
        else:
            return "?"
    return cur


def _lower_bounds(p, aid):
    """Lower bounds of p without the atom r = relu(q), using r >= t*q, 0 <= t <= 1."""
    q = T.atoms[aid].data
    rest, coef = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(aid, 0)
        if e == 0:
            rest[m] = c
        elif e == 1:
            coef[tuple(sorted(d.items()))] = c
        else:
            return
    rest, coef = Poly(rest), Poly(coef)
    if quick_sign(coef) not in ("+", "0+"):
        return
    ts = [Fraction(0)]
    try:
        up = coef * q
    except EngineError:
        return
    for m, c in up.t.items():
        k = rest.t.get(m)
        if k is not None:
            t = -k / c
            if 0 < t <= 1 and t not in ts:
                ts.append(t)
        if len(ts) > 3:
            break
    if len(ts) == 1:
        ts.append(Fraction(1))
    for t in ts:
        yield rest + up.scale(t) if t else rest


def deep_sign(p, depth=5, budget=None):
    """quick_sign, also using relu(q) >= t*q.  Only positive answers are refined."""
    s = quick_sign(p)
    if s != "?" or depth == 0 or len(p.t) > 60:
        return s
    if budget is None:
        budget = [40]
    for aid in sorted((a for a in p.atoms() if T.atoms[a].kind == "relu"), reverse=True)[:3]:
        best = "?"
        for b in _lower_bounds(p, aid):
            budget[0] -= 1
            if budget[0] < 0:
                return best
            s = deep_sign(b, depth - 1, budget)
            if s == "+":
                return "+"
            if s in ("0+", "0"):
                best = "0+"
        if best != "?":
            return best
    return "?"


def sign(p):
    s = quick_sign(p)
    if s != "?":
        return s
    if not any(T.atoms[a].kind == "relu" for a in p.atoms()):
        return "?"
    naming, T.naming = T.naming, False
    try:
        s = deep_sign(p)
        if s != "?":
            return s
        s = deep_sign(-p)
        return {"+": "-", "0+": "0-"}.get(s, "?")
    finally:
        T.naming = naming


# ----------------------------------------------------------------------------
# relu, sqrt


def split_positive_content(p):
    """p = g * q with g a raw monomial known to be > 0."""
    g = content_mono(p) if p.t else ()
    gp = tuple((a, e) for a, e in g if T.atoms[a].pos)
    if not gp:
        return (), p
    q = mul_mono(p, tuple((a, -e) for a, e in gp))
    return gp, q


def relu(p):
    s = sign(p)
    if s in ("+", "0+"):
        return p
    if s in ("-", "0-", "0"):
        return ZERO
    g, q = split_positive_content(p)
    s = sign(q)
    if s in ("+", "0+"):
        return p
    if s in ("-", "0-", "0"):
        return ZERO
    if LET_LIMIT and len(q.t) > LET_LIMIT // 2 and T.naming:
        q = named(q)
    # canonical scale and orientation
    m, c = max(q.t.items(), key=lambda x: x[0])
    q = q.scale(1 / abs(c))
    scale = abs(c)
    flip = c < 0
    if flip:
        q = -q
    a = T.index.get(("relu", q))
    if a is None:
        if T.entails is not None:
            if T.entails(q, ">="):
                r = q
                a = False
            elif T.entails(-q, ">="):
                r = ZERO
                a = False
        if a is None:
            a = T.get("relu", q, q, nonneg=True)
    if a:
        r = atom_poly(a)
    if flip:
        r = r - q  # relu(-q) = relu(q) - q
    r = r.scale(scale)
    return mul_mono(r, g) if g else r


def maximum(a, b):
    d = a - b
    if not d.t:
        return a
    return b + relu(d)


def minimum(a, b):
    d = a - b
    if not d.t:
        return a
    return a - relu(d)


def absolute(a):
    s = sign(a)
    if s in ("+", "0+"):
        return a
    if s in ("-", "0-", "0"):
        return -a
    return relu(a).scale(2) - a


def _isqrt_fraction(c):
    from math import isqrt

    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt(p):
    """Non negative square root (the caller has dealt with negative arguments)."""
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        rc = _isqrt_fraction(c)
        out = []
        rest = []
        for a, e in m:
            at = T.atoms[a]
            h, odd = divmod(e, 2)
            if odd or not at.nonneg:
                if at.nonneg and h:
                    out.append((a, h))
                    rest.append((a, 1))
                else:
                    rest.append((a, e))
            else:
                out.append((a, h))
        if rc is None:
            rest_p = Poly({tuple(rest): c})
            rc = Fraction(1)
        else:
            rest_p = Poly({tuple(rest): Fraction(1)})
        r = norm_mono(tuple(out)).scale(rc)
        if rest_p == ONE:
            return r
        if len(rest) == 1 and rest[0][1] == 2 and rest_p.t[tuple(rest)] == 1:
            return r * absolute(Poly({((rest[0][0], 1),): Fraction(1)}))
        s = sign(rest_p)
        a = T.get("sqrt", rest_p, rest_p, nonneg=True, pos=(s == "+"))
        return r * atom_poly(a)
    # positive content, e.g. sqrt(g*(a+b))
    s = sign(p)
    a = T.get("sqrt", p, p, nonneg=True, pos=(s == "+"))
    return atom_poly(a)

"""Path-wise symbolic execution of real Python/numpy code and SMT decisions.

`Engine` owns the assumptions and the path condition of the current path, decides
branch feasibility with z3, and discharges proof obligations with z3 (a linearised
query with product lemmas first, then the full nonlinear one)."""
import itertools
import math
import os
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import terms  # noqa: E402
from .terms import Poly, EngineError, T, ZERO, ONE  # noqa: E402


class PathAbort(BaseException):
    """The current path is infeasible (assumption contradicts the path)."""


class PathLimit(Exception):
    pass


# ---------------------------------------------------------------------------
# conditions


class Cond:
    """Boolean over terms: ('cmp', poly, op) with op in > >= == !=, 'and', 'or',
    'not', 'raw' (a z3 expression), 'const'."""

    __slots__ = ("k", "a", "b", "_key")

    def __init__(self, k, a, b=None):
        self.k, self.a, self.b = k, a, b
        self._key = None

    def key(self):
        if self._key is None:
            if self.k == "cmp":
                self._key = ("cmp", self.a, self.b)
            elif self.k in ("and", "or"):
                self._key = (self.k, tuple(c.key() for c in self.a))
            elif self.k == "not":
                self._key = ("not", self.a.key())
            elif self.k == "raw":
                self._key = ("raw", self.a.get_id(), self.a.sexpr())
            else:
                self._key = ("const", self.a)
        return self._key

    def negate(self):
        if self.k == "cmp":
            p, op = self.a, self.b
            if op == ">":
                return cmp(-p, ">=")
            if op == ">=":
                return cmp(-p, ">")
            if op == "==":
                return cmp(p, "!=")
            return cmp(p, "==")
        if self.k == "and":
            return disj([c.negate() for c in self.a])
        if self.k == "or":
            return conj([c.negate() for c in self.a])
        if self.k == "not":
            return self.a
        if self.k == "const":
            return Cond("const", not self.a)
        return Cond("not", self)

    def __repr__(self):
        if self.k == "cmp":
            return f"({self.a} {self.b} 0)"
        return f"{self.k}({self.a})"


TRUE = Cond("const", True)
FALSE = Cond("const", False)


def cmp(p, op):
    if p.is_const:
        c = p.const
        return TRUE if {">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op] else FALSE
    s = terms.sign(p)
    if op == ">":
        if s == "+":
            return TRUE
        if s in ("-", "0-"):
            return FALSE
    elif op == ">=":
        if s in ("+", "0+"):
            return TRUE
        if s == "-":
            return FALSE
    elif op == "==" and s in ("+", "-"):
        return FALSE
    elif op == "!=" and s in ("+", "-"):
        return TRUE
    # normalise by the leading coefficient (positive scale only; both for ==)
    m = max(p.t)
    c = p.t[m]
    if op in ("==", "!="):
        p = p.scale(1 / c)
    else:
        p = p.scale(1 / abs(c))
    return Cond("cmp", p, op)


def conj(cs):
    out = []
    for c in cs:
        if c.k == "const":
            if not c.a:
                return FALSE
            continue
        if c.k == "and":
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond("and", out)


def disj(cs):
    out = []
    for c in cs:
        if c.k == "const":
            if c.a:
                return TRUE
            continue
        if c.k == "or":
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Cond("or", out)


# ---------------------------------------------------------------------------
# z3 encoding


class Encoder:
    """Encodes conditions over terms as z3 constraints.

    mode 'nl': monomials are products of z3 reals (nonlinear arithmetic);
    mode 'lin': every nonlinear monomial is its own z3 real (a sound relaxation).
    """

    def __init__(self, mode, eng):
        self.mode = mode
        self.eng = eng
        self.vars = {}
        self.monos = {}
        self.done = set()
        self.defs = []
        self.facts = []  # polys known >= 0 (for product lemmas)

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            a = T.atoms[aid]
            v = (z3.Int if a.integer else z3.Real)(f"a{aid}")
            self.vars[aid] = v
        return v

    def real(self, aid):
        v = self.var(aid)
        return z3.ToReal(v) if T.atoms[aid].integer and self.mode != "int" else v

    def mono(self, m):
        if not m:
            return None
        if self.mode == "lin":
            if len(m) == 1 and m[0][1] == 1:
                return self.real(m[0][0])
            z = self.monos.get(m)
            if z is None:
                z = z3.Real("m_" + "_".join(f"{a}e{e}" for a, e in m))
                self.monos[m] = z
            return z
        out = None
        for a, e in m:
            v = self.real(a)
            if e < 0:
                raise EngineError("negative exponent reached the encoder")
            for _ in range(e):
                out = v if out is None else out * v
        return out

    def num(self, c):
        return ratval(c)

    def poly(self, p):
        parts = []
        for m, c in p.t.items():
            z = self.mono(m)
            if z is None:
                parts.append(self.num(c))
            elif c == 1:
                parts.append(z)
            else:
                parts.append(self.num(c) * z)
        if not parts:
            return z3.RealVal(0)
        return z3.Sum(parts) if len(parts) > 1 else parts[0]

    def numerator(self, p):
        """n, sign such that p (op) 0 iff sign*n (op) 0: the denominator is made
        positive (known sign) or squared."""
        n, d = terms.over_common(p)
        if not d:
            return n
        extra = []
        for a, e in d:
            at = T.atoms[a]
            if at.pos or e % 2 == 0:
                continue
            extra.append((a, 1))
        if extra:
            n2 = ZERO
            for m, c in n.t.items():
                n2 = n2 + terms.expand_raw(terms.mono_mul(m, tuple(extra))).scale(c)
            n = n2
        return n

    def need(self, p):
        for a in p.atoms():
            self.define(a)

    def define(self, aid):
        if aid in self.done:
            return
        self.done.add(aid)
        a = T.atoms[aid]
        k = a.kind
        v = self.var(aid)
        if k == "relu":
            self.need(a.data)
            n, d = terms.over_common(a.data)
            dn = self._den_pos(d)
            r = terms.atom_poly(a)
            nn = n * dn[1]
            dd = dn[0]
            # r >= 0, r*D >= n, (r == 0 and n <= 0) or (r*D == n and n >= 0)
            rd = r * dd
            self.need(nn)  # multiplying may have named large terms
            self.need(rd - nn)
            self.defs.append(v >= 0)
            zn = self.poly(nn)
            self.defs.append(z3.Or(z3.And(v == 0, zn <= 0), z3.And(self.poly(rd - nn) == 0, zn >= 0)))
            self.facts.append(r)
            self.facts.append(r - a.data)
        elif k == "let":
            self.need(a.data)
            n, d = terms.over_common(a.data)
            dn = self._den_pos(d)
            p = terms.atom_poly(a) * dn[0] - n * dn[1]
            self.need(p)
            self.defs.append(self.poly(p) == 0)
        elif k == "sqrt":
            self.need(a.data)
            n, d = terms.over_common(a.data)
            dn = self._den_pos(d)
            # v >= 0, v*v*D == n
            if self.mode == "lin":
                self.defs.append(v >= 0)
            else:
                self.defs.append(v >= 0)
                nn = n * dn[1]
                self.need(dn[0])
                self.need(nn)
                self.defs.append(v * v * self.poly(dn[0]) == self.poly(nn))
            self.facts.append(terms.atom_poly(a))
        elif k == "den":
            P = a.data[0]
            self.need(P)
            zp = self.poly(P)
            if a.pos:
                self.defs.append(zp > 0)
                self.facts.append(P)
            else:
                self.defs.append(zp != 0)
            if self.mode == "lin":
                pass
        elif k == "ind":
            c = a.data
            self.defs.append(z3.Or(z3.And(v == 1, self.cond(c)), z3.And(v == 0, self.cond(c.negate()))))
        elif k == "floor":
            x, = a.data
            self.need(x)
            p = x - terms.atom_poly(a)
            self.defs.append(self.cond(cmp(p, ">=")))
            self.defs.append(self.cond(cmp(ONE - p, ">")))
        elif k == "uf":
            name, args = a.data
            for p in args:
                self.need(p)
            for b in list(T.atoms):
                if b.kind == "uf" and b.id != aid and b.id in self.done and b.data[0] == name and len(b.data[1]) == len(args):
                    same = [self.cond(cmp(p - q, "==")) for p, q in zip(args, b.data[1])]
                    self.defs.append(z3.Implies(z3.And(same) if same else z3.BoolVal(True), v == self.var(b.id)))
        if a.pos:
            self.defs.append(v > 0)
        elif a.nonneg:
            self.defs.append(v >= 0)

    def _den_pos(self, d):
        """(D', extra) with D' = prod of atoms^e made positive; extra multiplies n."""
        D = ONE
        E = ONE
        for a, e in d:
            at = T.atoms[a]
            base = at.data[0] if at.kind == "den" else terms.atom_poly(at)
            D = D * base.pow(e)
            if not (at.pos or e % 2 == 0):
                D = D * base
                E = E * base
        return D, E

    def cond(self, c):
        if c.k == "const":
            return z3.BoolVal(c.a)
        if c.k == "cmp":
            self.need(c.a)
            n = self.numerator(c.a)
            self.need(n)
            z = self.poly(n)
            return {">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[c.b]
        if c.k == "and":
            return z3.And([self.cond(x) for x in c.a])
        if c.k == "or":
            return z3.Or([self.cond(x) for x in c.a])
        if c.k == "not":
            return z3.Not(self.cond(c.a))
        return c.a


def cond_atoms(c, out=None):
    out = set() if out is None else out
    if c.k == "cmp":
        out |= c.a.atoms()
    elif c.k in ("and", "or"):
        for x in c.a:
            cond_atoms(x, out)
    elif c.k == "not":
        cond_atoms(c.a, out)
    elif c.k == "raw":
        out.add(-1)
    return out


def closure(atoms):
    """Atoms reachable through the definitions."""
    todo = list(atoms)
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen or a < 0:
            continue
        seen.add(a)
        at = T.atoms[a]
        if at.kind in ("relu", "sqrt", "let"):
            todo.extend(at.data.atoms())
        elif at.kind == "den":
            todo.extend(at.data[0].atoms())
        elif at.kind == "ind":
            todo.extend(cond_atoms(at.data))
        elif at.kind == "floor":
            todo.extend(at.data[0].atoms())
        elif at.kind == "uf":
            for p in at.data[1]:
                todo.extend(p.atoms())
    return seen


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.results = {}
        self.unknown = 0

    def add(self, kind, res, dt):
        self.queries += 1
        self.solver_s += dt
        k = f"{kind}:{res}"
        self.results[k] = self.results.get(k, 0) + 1

    def merge(self, o):
        self.queries += o["queries"]
        self.solver_s += o["solver_s"]
        for k, v in o["results"].items():
            self.results[k] = self.results.get(k, 0) + v

    def as_dict(self):
        return {"queries": self.queries, "solver_s": self.solver_s, "results": dict(self.results)}


class Engine:
    def __init__(self, budget_s=100.0, max_paths=400):
        self.stats = Stats()
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.t0 = time.time()
        self.functions = {}
        self.bounded = set()
        self.begin([])

    # -- path management ----------------------------------------------------
    def begin(self, prefix):
        terms.reset()
        T.entails = self._entails_poly
        T.impossible = self._impossible
        T.naming = True
        self.assumptions = []
        self.path = []
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.cache = {}
        self.inputs = {}
        self.raw_inputs = {}
        self.notes = []
        self.simplify = True
        self.facts = []  # proven polys >= 0 (guidance of the harness)
        self.fact_set = set()
        self.lin_monos = {}
        self.lin_cache = {}

    # -- queries ------------------------------------------------------------
    def relevant(self, atoms, conds=None):
        """Assumptions connected to the given atoms."""
        conds = self.assumptions + self.path if conds is None else conds
        cone = closure(atoms)
        infos = [(c, closure(cond_atoms(c)) | ({-1} if -1 in cond_atoms(c) else set())) for c in conds]
        changed = True
        chosen = [False] * len(infos)
        while changed:
            changed = False
            for i, (c, s) in enumerate(infos):
                if not chosen[i] and (s & cone or -1 in s or not s):
                    chosen[i] = True
                    if not s <= cone:
                        cone |= {x for x in s if x >= 0}
                        changed = True
        return [c for ch, (c, _) in zip(chosen, infos) if ch]

    def run_solver(self, exprs, timeout_ms, kind, tactic=None, rlimit=None):
        if tactic:
            s = z3.SolverFor(tactic)
        else:
            s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        s.set("random_seed", 1)
        for e in exprs:
            s.add(e)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        dt = time.time() - t
        self.stats.add(kind, str(r), dt)
        m = s.model() if r == z3.sat else None
        return str(r), m

    def query(self, conds, timeout_ms, kind, mode="nl", hints=0):
        enc = Encoder(mode, self)
        ex = [enc.cond(c) for c in conds]
        if mode == "lin":
            ex += self.lemmas(enc, conds, hints)
        ex = ex + enc.defs
        r, m = self.run_solver(ex, timeout_ms, kind)
        return r, m, enc

    def feasible(self, conds, timeout_ms=400):
        """'unsat' / 'sat' / 'unknown' for the conjunction."""
        atoms = set()
        for c in conds:
            cond_atoms(c, atoms)
        rel = self.relevant(atoms)
        key = ("feas", tuple(c.key() for c in conds), len(self.path), len(self.assumptions))
        if key in self.cache:
            return self.cache[key]
        r, _, _ = self.query(rel + list(conds), timeout_ms, "branch")
        self.cache[key] = r
        return r

    def _entails_poly(self, p, op):
        """Does the path condition entail p >= 0 (or p > 0)?  Used to simplify."""
        if not self.simplify or len(p.t) > 12:
            return False
        c = cmp(p, op)
        if c.k == "const":
            return c.a
        k = ("ent", p, op)
        if k in self.cache:
            v, n = self.cache[k]
            if v or n == len(self.path) + len(self.assumptions):
                return v
        if len(closure(p.atoms())) > 14:
            v = False
        else:
            v = self.feasible([c.negate()], 200) == "unsat"
        self.cache[k] = (v, len(self.path) + len(self.assumptions))
        return v

    def _impossible(self, c):
        if c.k == "const":
            return not c.a
        k = ("imp", c.key())
        if k in self.cache:
            v, n = self.cache[k]
            if v or n == len(self.path) + len(self.assumptions):
                return v
        v = self.feasible([c], 200) == "unsat"
        self.cache[k] = (v, len(self.path) + len(self.assumptions))
        return v

    def entails(self, c, timeout_ms=400):
        if c.k == "const":
            return c.a
        return self.feasible([c.negate()], timeout_ms) == "unsat"

    # -- branching ----------------------------------------------------------
    def branch(self, c):
        if c.k == "const":
            return c.a
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            if d[0] != "f":
                self.path.append(c if d[1] else c.negate())
            return d[1]
        if time.time() - self.t0 > self.budget_s:
            raise PathLimit("time budget exceeded")
        for x in self.path:  # syntactic shortcut
            if x.key() == c.key():
                self.decisions.append(("f", True))
                return True
            if x.key() == c.negate().key():
                self.decisions.append(("f", False))
                return False
        rt = self.feasible([c])
        if rt == "unsat":
            self.decisions.append(("f", False))
            return False
        rf = self.feasible([c.negate()])
        if rf == "unsat":
            self.decisions.append(("f", True))
            return True
        self.pending.append(self.decisions + [("b", False)])
        self.decisions.append(("b", True))
        self.path.append(c)
        return True

    def assume(self, c):
        if c.k == "const":
            if not c.a:
                raise PathAbort()
            return
        self.assumptions.append(c)
        # record sign facts on plain variables
        for x in (c.a if c.k == "and" else [c]):
            if x.k == "cmp" and x.b in (">", ">="):
                # p > 0 with p = k*v - c, c >= 0
                vs = [m for m in x.a.t if m]
                if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0][1] == 1 and x.a.t[vs[0]] > 0:
                    cc = x.a.const
                    at = T.atoms[vs[0][0][0]]
                    if cc < 0 or (cc == 0 and x.b == ">"):
                        at.pos = at.nonneg = True
                    elif cc == 0:
                        at.nonneg = True

    def check_path_feasible(self):
        r, m, enc = self.query(self.assumptions + self.path, 3000, "reach")
        return r, m, enc

    # -- obligations --------------------------------------------------------
    def lemmas(self, enc, conds, degree):
        """Product lemmas (each an instance of a>=0, b>=0 => a*b>=0) for the
        linearised encoding."""
        facts = []
        eqs = []

        def collect(c):
            if c.k == "and":
                for x in c.a:
                    collect(x)
            elif c.k == "cmp":
                n = enc.numerator(c.a)
                if c.b in (">", ">="):
                    facts.append(n)
                elif c.b == "==":
                    eqs.append(n)

        for c in conds[:-1]:  # the last one is the negated goal
            collect(c)
        for p in enc.facts:
            facts.append(enc.numerator(p))
        for aid in list(enc.done):
            a = T.atoms[aid]
            if a.nonneg and a.kind not in ("relu", "sqrt", "den"):
                facts.append(terms.atom_poly(a))
        uniq = []
        seen = set()
        for f in facts:
            if f.is_const or f in seen:
                continue
            seen.add(f)
            uniq.append(f)
        out = []
        prods = []
        if degree >= 2:
            uniq.sort(key=lambda f: len(f.t))
            pool = [f for f in uniq if len(f.t) <= 8][:26]
            base = set(uniq)
            for i, f in enumerate(pool):
                for g in pool[i:]:
                    p = f * g
                    p = enc.numerator(p)
                    if p.is_const or p in base or len(p.t) > 60:
                        continue
                    base.add(p)
                    prods.append(p)
            if degree >= 3:
                small = [f for f in pool if len(f.t) <= 3][:12]
                extra = []
                for p in prods[:200]:
                    for g in small:
                        q = enc.numerator(p * g)
                        if q.is_const or q in base or len(q.t) > 60:
                            continue
                        base.add(q)
                        extra.append(q)
                prods += extra[:1200]
        for p in uniq + prods:
            enc.need(p)
            out.append(enc.poly(p) >= 0)
        for q in eqs:
            for f in uniq[:12]:
                p = q * f
                enc.need(p)
                out.append(enc.poly(p) == 0)
        # squares and sign of monomials made of signed atoms
        for m, z in list(enc.monos.items()):
            s = terms.mono_sign(m)
            if s == "+":
                out.append(z > 0)
            elif s == "0+":
                out.append(z >= 0)
        return out

    # -- guided linear proofs -------------------------------------------------
    def add_fact(self, p):
        if p not in self.fact_set and not p.is_const:
            self.fact_set.add(p)
            self.facts.append(p)

    def linear_prove(self, goal, timeout_s=5.0, rounds=2, expand=False, split=False):
        """goal: a comparison.  Monomials (also with negative exponents) are
        unknowns; the constraints are the facts, the assumptions, the signs of the
        monomials and relu(d) >= 0, relu(d) >= d times monomials of known sign."""
        def prep(p):
            if not expand:
                return p
            q = terms.unfold(p, 4000)
            return p if q is None else q

        base = []
        for c in self.assumptions + self.path:
            if c.k == "cmp" and c.b in (">", ">="):
                base.append(c.a)
        target = prep(goal.a)
        polys = [prep(p) for p in self.facts] + base
        known = set(polys)
        monos = set(target.t)
        todo = list(polys)
        cases = {}
        for _ in range(rounds):
            for p in todo:
                monos.update(p.t)
            todo = []
            for m in list(monos):
                for aid, e in m:
                    a = T.atoms[aid]
                    if a.kind != "relu" or e != 1:
                        continue
                    rest = tuple(x for x in m if x[0] != aid)
                    known_sign = terms.mono_sign(rest) != "?"
                    if not known_sign and not split:
                        continue
                    try:
                        q = terms.mul_mono(terms.atom_poly(a) - prep(a.data), rest)
                    except EngineError:
                        continue
                    if split and len(q.t) < 400:
                        cases.setdefault(aid, {})[m] = (q, known_sign)
                    if not known_sign:
                        continue
                    if q not in known and len(q.t) < 400:
                        known.add(q)
                        todo.append(q)
            polys += todo
            if len(polys) > 1500:
                break
        zm, cache = self.lin_monos, self.lin_cache
        used = set()

        def enc(p):
            used.update(p.t)
            e = cache.get(p)
            if e is None:
                parts = []
                for m, c in p.t.items():
                    if not m:
                        parts.append(ratval(c))
                        continue
                    v = zm.get(m)
                    if v is None:
                        v = zm[m] = z3.Real(f"m{len(zm)}")
                    parts.append(v if c == 1 else ratval(c) * v)
                e = cache[p] = z3.Sum(parts) if parts else z3.RealVal(0)
            return e

        ex = []
        for p in polys:
            used.update(p.t)
            e = cache.get((p, ">="))
            if e is None:
                e = cache[(p, ">=")] = enc(p) >= 0
            ex.append(e)
        for aid, ms in cases.items():
            b = z3.Bool(f"s{aid}")
            for m, (q, known_sign) in ms.items():
                arg = enc(Poly({m: Fraction(1)}) - q)
                val = enc(Poly({m: Fraction(1)}))
                ex.append(z3.Implies(b, val == arg))
                ex.append(z3.Implies(z3.Not(b), val == 0))
                if known_sign:
                    ex.append(z3.If(b, arg >= 0, arg <= 0))
        g = enc(target)
        ex.append(g < 0 if goal.b == ">=" else g <= 0)
        for m in used:
            if not m:
                continue
            s, v = terms.mono_sign(m), zm[m]
            if s == "+":
                ex.append(v > 0)
            elif s == "0+":
                ex.append(v >= 0)
        r, _ = self.run_solver(ex, timeout_s * 1000, "obligation-linear", tactic="QF_LRA")
        if os.environ.get("SYMX_DEBUG"):
            print("linear", r, len(ex), len(used), "split" if split else "", "expand" if expand else "", flush=True)
        return r == "unsat"

    def prove_fact(self, p, timeout_s=4.0):
        """Is p >= 0 under the assumptions?  If so it is remembered."""
        c = cmp(p, ">=")
        if c.k == "const":
            ok = c.a
        else:
            ok = p in self.fact_set or self.linear_prove(c, timeout_s) or self.linear_prove(c, timeout_s, expand=True) \
                or self.linear_prove(c, timeout_s, split=True) or self.linear_prove(c, timeout_s, expand=True, split=True)
            if not ok:
                naming = [("nl", timeout_s), ("lin", timeout_s)]
                ok = self.prove(c, timeout_s, 2, naming)[0] == "proved"
        if ok:
            self.add_fact(p)
        return ok

    def prove(self, goal, timeout_s=20.0, hints=2, strategies=None):
        """('proved', None) / ('refuted', model values) / ('unknown', None)."""
        if goal.k == "const" and goal.a:
            # still discharged by the solver (trivially): normal forms coincide
            self.run_solver([z3.Not(z3.BoolVal(True))], 1000, "obligation-normalised")
            return "proved", None
        if goal.k == "and":
            worst = ("proved", None)
            for g in goal.a:
                r = self.prove(g, timeout_s, hints, strategies)
                if r[0] == "refuted":
                    return r
                if r[0] == "unknown":
                    worst = r
            return worst
        if self.facts and goal.k == "cmp" and goal.b in (">", ">="):
            if self.linear_prove(goal) or self.linear_prove(goal, expand=True) or self.linear_prove(goal, split=True):
                return "proved", None
        goal = self.unfold_goal(goal)
        if goal.k == "const" and goal.a:
            self.run_solver([z3.Not(z3.BoolVal(True))], 1000, "obligation-normalised")
            return "proved", None
        neg = goal.negate()
        rel = self.relevant(cond_atoms(neg))
        plan = strategies or [("nl", 1.5), ("lin", 4.0), ("nl", timeout_s), ("lin3", timeout_s)]
        for mode, sec in plan:
            if mode == "nl":
                r, m, enc = self.query(rel + [neg], sec * 1000, "obligation-nl")
                if r == "unsat":
                    return "proved", None
                if r == "sat":
                    vals = self.model_values(m, enc, rel + [neg])
                    if vals is not None:
                        return "refuted", vals
            else:
                try:
                    r, m, enc = self.query(rel + [neg], sec * 1000, "obligation-lin", mode="lin",
                                           hints=3 if mode == "lin3" else hints)
                except EngineError:
                    continue
                if r == "unsat":
                    return "proved", None
        return "unknown", None

    def unfold_goal(self, goal):
        """Expands named terms when that settles the goal or keeps it small."""
        if goal.k != "cmp" or not any(T.atoms[a].kind == "let" for a in goal.a.atoms()):
            return goal
        q = terms.unfold(goal.a, 4000)
        if q is None:
            return goal
        if not q.t:
            return cmp(q, goal.b)
        g2 = cmp(q, goal.b)
        if g2.k == "const" or len(q.t) <= 40:
            return g2
        return goal

    def model_values(self, m, enc, conds):
        """Values for every declared input (Fractions), completing the model for
        inputs outside the cone with a second query."""
        vals = {}
        for name, a in self.inputs.items():
            if a.id in enc.vars:
                v = m.eval(enc.vars[a.id], model_completion=True)
                vals[name] = z3_value(v)
        for name, (v, conv) in self.raw_inputs.items():
            vals[name] = conv(m.eval(v, model_completion=True))
        missing = [n for n in self.inputs if n not in vals]
        if missing:
            enc2 = Encoder("nl", self)
            ex = [enc2.cond(c) for c in self.assumptions + self.path]
            for n, a in self.inputs.items():
                enc2.define(a.id)
            ex += enc2.defs
            for n, v in vals.items():
                if n in self.inputs and not isinstance(v, float):
                    ex.append(enc2.real(self.inputs[n].id) == enc2.num(Fraction(v)))
            r, m2 = self.run_solver(ex, 4000, "complete-model")
            for n in missing:
                if m2 is not None:
                    vals[n] = z3_value(m2.eval(enc2.var(self.inputs[n].id), model_completion=True))
                else:
                    vals[n] = Fraction(0)
        return vals


_RAT = {}


def ratval(c):
    v = _RAT.get(c)
    if v is None:
        v = _RAT[c] = z3.RealVal(f"{c.numerator}/{c.denominator}")
    return v


def z3_value(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise EngineError(f"unexpected model value {v}")


# ---------------------------------------------------------------------------
# numeric evaluation of terms (to validate the encoding against the real code)


def evaluate(p, vals, memo=None):
    memo = {} if memo is None else memo
    s = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            x *= eval_atom(a, vals, memo) ** e
        s += x
    return s


def eval_atom(aid, vals, memo):
    if aid in memo:
        return memo[aid]
    a = T.atoms[aid]
    k = a.kind
    if k == "var":
        v = float(vals[a.name])
    elif k == "relu":
        v = max(0.0, evaluate(a.data, vals, memo))
    elif k == "let":
        v = evaluate(a.data, vals, memo)
    elif k == "sqrt":
        v = math.sqrt(max(0.0, evaluate(a.data, vals, memo)))
    elif k == "den":
        v = evaluate(a.data[0], vals, memo)
    elif k == "ind":
        v = 1.0 if eval_cond(a.data, vals, memo) else 0.0
    elif k == "floor":
        v = float(math.floor(evaluate(a.data[0], vals, memo) + 1e-12))
    else:
        raise EngineError(f"cannot evaluate {k}")
    memo[aid] = v
    return v


def eval_cond(c, vals, memo=None):
    memo = {} if memo is None else memo
    if c.k == "const":
        return c.a
    if c.k == "cmp":
        x = evaluate(c.a, vals, memo)
        return {">": x > 0, ">=": x >= 0, "==": abs(x) < 1e-12, "!=": abs(x) >= 1e-12}[c.b]
    if c.k == "and":
        return all(eval_cond(x, vals, memo) for x in c.a)
    if c.k == "or":
        return any(eval_cond(x, vals, memo) for x in c.a)
    if c.k == "not":
        return not eval_cond(c.a, vals, memo)
    raise EngineError("raw condition")

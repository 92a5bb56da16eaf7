"""Lets the modules of /repo compute on symbolic values: replaces, in the globals of
the modules loaded from /repo, numpy / math / scipy.sparse names and a few builtins
by versions that know symbolic values and otherwise defer to the originals."""
import builtins
import functools
import math
import operator
import sys
import types

import numpy as np

from . import values as V
from .sparse import SPARSE_NAMES
from .terms import EngineError
from .values import Sym, SymArray, SymBool, finish

REPO = "/repo"


def _shape_dtype(args, kwargs, pos):
    if "dtype" in kwargs:
        return kwargs["dtype"]
    return args[pos] if len(args) > pos else None


_FLOATY = (None, float, np.float64, np.float32, "float", "float64", "f8", np.dtype(float))


def _floaty(dt):
    if dt is None:
        return True
    try:
        return np.dtype(dt).kind in "fO"
    except TypeError:
        return True


def c_zeros(*a, **k):
    dt = _shape_dtype(a, k, 1)
    if not _floaty(dt):
        return np.zeros(*a, **k)
    return _filled(a[0] if a else k["shape"], 0.0)


def c_ones(*a, **k):
    dt = _shape_dtype(a, k, 1)
    if not _floaty(dt):
        return np.ones(*a, **k)
    return _filled(a[0] if a else k["shape"], 1.0)


def c_empty(*a, **k):
    dt = _shape_dtype(a, k, 1)
    if not _floaty(dt):
        return np.empty(*a, **k)
    return _filled(a[0] if a else k["shape"], float("nan"))


def c_full(shape, fill_value, dtype=None, **k):
    if not _floaty(dtype) or (dtype is None and isinstance(fill_value, (bool, int)) and not isinstance(fill_value, float)):
        return np.full(shape, fill_value, dtype=dtype)
    return _filled(shape, fill_value)


def _filled(shape, v):
    r = np.empty(shape, dtype=object)
    if isinstance(v, np.ndarray):
        r[...] = np.asarray(v).astype(object)
    else:
        r[...] = v
    return r.view(SymArray) if r.ndim else r.item()


def c_array(x, dtype=None, *, copy=True, ndmin=0, **k):
    if isinstance(x, (map, filter, types.GeneratorType, zip)):
        x = list(x)
    if dtype is not None and not _floaty(dtype):
        if V.contains_sym(x):
            return V.build_array(x).astype(dtype)
        return np.array(x, dtype=dtype)
    if isinstance(x, np.ndarray):
        r = V.build_array(x)
        r = r.copy() if copy else r
    else:
        r = V.build_array(x)
    if dtype is not None and isinstance(r, np.ndarray) and r.dtype.kind in "iub":
        r = finish(r.astype(float))
    while ndmin > np.ndim(r):
        r = r[None, ...]
    return r


def c_asarray(x, dtype=None, **k):
    return c_array(x, dtype=dtype, copy=False)


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    if not V.contains_sym((start, stop, num)):
        return finish(np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep))
    num = operator.index(num)
    div = num - 1 if endpoint else num
    step = (stop - start) / div if div > 0 else float("nan")
    out = [start + i * step if i else start for i in range(num)]
    if endpoint and num > 1:
        out[-1] = stop
    arr = V.as_sym_array(out)
    return (arr, step) if retstep else arr


def c_arange(*a, **k):
    if not V.contains_sym(a):
        return finish(np.arange(*a, **k))
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    out = []
    x = start
    while bool(x < stop):
        out.append(x)
        x = x + step
        if len(out) > 200:
            raise EngineError("arange too long")
    return V.as_sym_array(out)


def c_fromiter(it, dtype=None, count=-1, **k):
    return c_array(list(it))


def c_eye(*a, **k):
    return finish(np.eye(*a, **k))


class ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


CREATE = {
    "zeros": c_zeros, "ones": c_ones, "empty": c_empty, "full": c_full, "array": c_array,
    "asarray": c_asarray, "asanyarray": c_asarray, "ascontiguousarray": c_asarray, "asfarray": c_asarray,
    "linspace": c_linspace, "arange": c_arange, "fromiter": c_fromiter, "eye": c_eye, "identity": c_eye,
}


def wrap_function(f, name=None):
    """Call a numpy function with symbolic arguments promoted to SymArray."""

    @functools.wraps(f)
    def g(*args, **kwargs):
        sym = V.contains_sym(args) or V.contains_sym(kwargs)
        if sym:
            if isinstance(f, np.ufunc):
                return f(*V._promote_uf(args), **kwargs)
            return V.array_function(f, args, kwargs) if f in V.IMPL else finish(_dispatch(f, args, kwargs))
        r = f(*args, **kwargs)
        return finish(r) if isinstance(r, (np.ndarray, tuple, list)) else r

    g.__wrapped_numpy__ = f
    return g


def _dispatch(f, args, kwargs):
    if isinstance(f, np.vectorize):
        return f(*args, **kwargs)
    return V.array_function(f, V._promote(args), dict(kwargs))


def _promote_uf(args):
    return [V.build_array(a) if isinstance(a, (list, tuple)) else a for a in args]


V._promote_uf = _promote_uf


class UfuncShim:
    def __init__(self, f):
        self._f = f

    def __call__(self, *args, **kw):
        if V.contains_sym(args) or V.contains_sym(kw):
            return self._f(*_promote_uf(args), **kw)
        r = self._f(*args, **kw)
        return finish(r) if isinstance(r, (np.ndarray, tuple)) else r

    def __getattr__(self, n):
        a = getattr(self._f, n)
        if n in ("reduce", "accumulate", "outer", "at", "reduceat"):

            def m(*args, **kw):
                if V.contains_sym(args):
                    return a(*[V.build_array(x) if isinstance(x, (list, tuple)) and V.contains_sym(x) else x for x in args], **kw)
                return finish(a(*args, **kw))

            return m
        return a


class Vectorize:
    def __init__(self, f, *a, **k):
        self.f = f

    def __call__(self, *args):
        return V.elementwise(self.f, args, False)


class SubModule:
    def __init__(self, mod):
        self._mod = mod
        self._cache = {}

    def __getattr__(self, n):
        if n in self._cache:
            return self._cache[n]
        r = shim_object(getattr(self._mod, n))
        self._cache[n] = r
        return r


class NumpyShim(SubModule):
    def __init__(self):
        super().__init__(np)
        self._cache.update(CREATE)
        self._cache.update(errstate=ErrState, vectorize=Vectorize, seterr=lambda *a, **k: {})

        self._cache["isscalar"] = lambda x: isinstance(x, (Sym, SymBool)) or np.isscalar(x)
        self._cache["float64"] = FloatType
        self._cache["double"] = FloatType


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, np.float64)

    def __call__(cls, x=0.0):
        return s_float(x)


class FloatType(np.float64, metaclass=_FloatMeta):
    pass


def shim_object(o):
    if isinstance(o, np.ufunc):
        return UfuncShim(o)
    if isinstance(o, types.ModuleType):
        if o.__name__.startswith("numpy.random"):
            return o
        if o.__name__.startswith("numpy"):
            return SubModule(o)
        return o
    if isinstance(o, type):
        return o
    if callable(o):
        name = getattr(o, "__name__", "")
        if name in CREATE:
            return CREATE[name]
        return wrap_function(o)
    return o


NP = None


# -- builtins ----------------------------------------------------------------


def s_isinstance(x, t):
    if builtins.isinstance(x, Sym):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        for k in ts:
            if k is Sym or k is object:
                return True
            if k in (float, np.float64, np.floating, FloatType, FLOAT) and not x.integer:
                return True
            if k in (int, np.integer, np.int64, INT) and x.integer:
                return True
            if getattr(k, "__module__", "") == "numbers" and k.__name__ in ("Number", "Real", "Complex"):
                return True
        return False
    if builtins.isinstance(x, SymBool):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        return any(k in (bool, np.bool_, SymBool) for k in ts)
    if builtins.isinstance(t, tuple):
        t = tuple(float if k is FLOAT else int if k is INT else k for k in t)
    elif t is FLOAT:
        t = float
    elif t is INT:
        t = int
    return builtins.isinstance(x, t)


def s_float(x=0.0):
    from .fp import SymFP, FPString

    if builtins.isinstance(x, (Sym, SymFP)):
        return x
    if builtins.isinstance(x, FPString):
        return x.fp
    if builtins.isinstance(x, SymBool):
        return x.as_sym()
    if builtins.isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return s_float(x.reshape(-1)[0])
    return float(x)


def s_int_(x=0, *a):
    if builtins.isinstance(x, Sym):
        return V.s_int(x)
    from .fp import FPString

    if builtins.isinstance(x, FPString):
        return x.as_int()
    return int(x, *a)


class _Num(type):
    """float/int replacements usable as type and as converter."""

    def __instancecheck__(cls, x):
        return s_isinstance(x, cls.base)

    def __call__(cls, *a):
        return cls.conv(*a)

    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __hash__(cls):
        return hash(cls.base)

    def __getattr__(cls, n):
        return getattr(cls.base, n)

    def __or__(cls, o):
        return cls.base | o

    def __ror__(cls, o):
        return o | cls.base


class FLOAT(metaclass=_Num):
    base = float
    conv = staticmethod(s_float)


class INT(metaclass=_Num):
    base = int
    conv = staticmethod(s_int_)


def s_len(x):
    if hasattr(type(x), "__sym_len__"):
        return type(x).__sym_len__(x)
    return len(x)


def _flatargs(args, kw):
    if builtins.len(args) == 1:
        items = list(args[0])
    else:
        items = list(args)
    return items


def s_max(*args, **kw):
    items = _flatargs(args, kw)
    if not items and "default" in kw:
        return kw["default"]
    if "key" in kw or not any(isinstance(e, (Sym, SymBool)) for e in items):
        return max(*args, **kw)
    r = items[0]
    for e in items[1:]:
        r = V.s_max(r, e)
    return r


def s_min(*args, **kw):
    items = _flatargs(args, kw)
    if not items and "default" in kw:
        return kw["default"]
    if "key" in kw or not any(isinstance(e, (Sym, SymBool)) for e in items):
        return min(*args, **kw)
    r = items[0]
    for e in items[1:]:
        r = V.s_min(r, e)
    return r


def s_any(it):
    items = list(it)
    if any(isinstance(e, SymBool) for e in items):
        return V.mkbool(V.disj([V.cond_of(e) for e in items]))
    return any(items)


def s_all(it):
    items = list(it)
    if any(isinstance(e, SymBool) for e in items):
        return V.mkbool(V.conj([V.cond_of(e) for e in items]))
    return all(items)


def s_sorted(it, **kw):
    return sorted(it, **kw)


def s_round(x, *a):
    return x if isinstance(x, Sym) else round(x, *a)


def s_range(*a):
    return range(*[operator.index(x) if isinstance(x, Sym) else x for x in a])


BUILTINS = {
    "isinstance": s_isinstance, "len": s_len, "max": s_max, "min": s_min,
    "any": s_any, "all": s_all, "round": s_round, "float": FLOAT, "int": INT,
}


class MathShim:
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f
        table = {"sqrt": V.s_sqrt, "fabs": V.s_abs, "floor": V.s_floor, "ceil": V.s_ceil, "isnan": V.s_isnan,
                 "isfinite": V.s_isfinite, "isinf": V.s_isinf, "pow": V.s_pow, "hypot": V.s_hypot,
                 "sin": V.UFUNC["sin"], "cos": V.UFUNC["cos"], "exp": V.UFUNC["exp"], "log": V.UFUNC["log"], "log2": V.UFUNC["log2"], "log10": V.UFUNC["log10"],
                 "copysign": V.s_copysign, "trunc": V.s_int, "fsum": lambda it: sum(it),
                 "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: V.s_le(V.s_abs(V.s_sub(a, b)), V.s_max(V.s_mul(rel_tol, V.s_max(V.s_abs(a), V.s_abs(b))), abs_tol))}
        g = table.get(n)
        if g is None:
            return f

        def h(*a, **k):
            return g(*a, **k) if V.contains_sym(a) else f(*a, **k)

        return h


MATH = MathShim()


def tqdm_stub(it=None, *a, **k):
    return it if it is not None else _Bar()


class _Bar:
    def update(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


WRITES = []
tqdm_stub.write = lambda *a, **k: WRITES.append(a)


def is_repo_module(m):
    f = getattr(m, "__file__", None)
    return bool(f) and f.startswith(REPO + "/") and "/test/" not in f


_installed = False
_orig_import = builtins.__import__


def _is_numpy_obj(v):
    mod = getattr(v, "__module__", None) or ""
    return isinstance(v, np.ufunc) or (callable(v) and not isinstance(v, type) and isinstance(mod, str) and (mod == "numpy" or mod.startswith("numpy.")))


def patch_module(m):
    d = m.__dict__
    for k, v in list(d.items()):
        if k.startswith("__"):
            continue
        if v is np:
            d[k] = NP
        elif isinstance(v, types.ModuleType) and v.__name__.startswith("numpy") and not v.__name__.startswith("numpy.random"):
            d[k] = SubModule(v)
        elif v is math:
            d[k] = MATH
        elif isinstance(v, types.BuiltinFunctionType) and getattr(v, "__module__", "") == "math":
            d[k] = getattr(MATH, v.__name__)
        elif _is_numpy_obj(v):
            d[k] = shim_object(v)
        elif k in SPARSE_NAMES and (getattr(v, "__module__", "") or "").startswith("scipy"):
            d[k] = SPARSE_NAMES[k]
        elif k == "tqdm":
            d[k] = tqdm_stub
    for k, v in BUILTINS.items():
        if k not in d or d[k] is getattr(builtins, k, None):
            d[k] = v


def shim_import(name, globals=None, locals=None, fromlist=(), level=0):
    mod = _orig_import(name, globals, locals, fromlist, level)
    if globals and str(globals.get("__file__", "")).startswith(REPO + "/"):
        if level == 0 and name == "numpy" and not fromlist:
            return NP
        if level == 0 and name == "numpy":
            return NP
        if level == 0 and name == "math":
            return MATH
        if level == 0 and name.startswith("scipy.sparse") and fromlist and any(f in SPARSE_NAMES for f in fromlist):
            ns = types.SimpleNamespace(**{f: SPARSE_NAMES.get(f, getattr(mod, f, None)) for f in fromlist})
            return ns
        patch_new()
    return mod


def patch_new():
    for n, m in list(sys.modules.items()):
        if m is not None and n not in _patched and is_repo_module(m):
            _patched.add(n)
            patch_module(m)


_patched = set()


def install():
    """Patch every module loaded from /repo (and those it will import)."""
    global NP, _installed
    if _installed:
        return
    NP = NumpyShim()
    patch_new()
    builtins.__import__ = shim_import
    _installed = True


def patch_tqdm_only():
    for n, m in list(sys.modules.items()):
        if m is not None and is_repo_module(m) and "tqdm" in m.__dict__:
            m.__dict__["tqdm"] = tqdm_stub

"""Dense exact stand-ins for the scipy.sparse classes used by the code (matrix entries
symbolic or rational).  Entries below 1e-13 that stem from quadrature round-off are 0."""
import numpy as np

from . import values as V
from .values import Sym, SymArray


def _clean(x):
    if isinstance(x, (float, np.floating)) and abs(x) < 1e-13:
        return 0.0
    return x


class Matrix1(SymArray):
    """np.matrix-like result of sum(axis)."""

    @property
    def A1(self):
        return np.asarray(self).astype(object).view(SymArray).reshape(-1)

    @property
    def A(self):
        return self


class DenseMatrix:
    __array_priority__ = 5000.0
    __array_ufunc__ = None
    format = "dense"

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, DenseMatrix):
            self.a = arg.a.copy()
        elif isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
            self.a = np.empty(arg, dtype=object)
            self.a[...] = 0.0
        else:
            if hasattr(arg, "toarray"):
                arg = arg.toarray()
            x = V.obj(arg)
            self.a = x.copy() if x.ndim == 2 else x.reshape(1, -1).copy()

    # -- access
    @property
    def shape(self):
        return self.a.shape

    @property
    def nnz(self):
        return self.a.size

    @property
    def dtype(self):
        return np.dtype(float)

    def __getitem__(self, k):
        r = self.a[V.fix_key(k)]
        if isinstance(r, np.ndarray):
            return DenseMatrix(r if r.ndim == 2 else r.reshape(1, -1))
        return _clean(r)

    def __setitem__(self, k, v):
        if isinstance(v, DenseMatrix):
            v = v.a
        self.a[V.fix_key(k)] = v if not isinstance(v, np.ndarray) else np.asarray(V.obj(v))

    def toarray(self, *a, **k):
        r = self.a.copy()
        for i in np.ndindex(r.shape):
            r[i] = _clean(r[i])
        return r.view(SymArray)

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def copy(self):
        return DenseMatrix(self)

    def _same(self, *a, **k):
        return DenseMatrix(self)

    tolil = tocsr = tocsc = tocoo = todok = todia = tobsr = _same

    def asformat(self, f, copy=False):
        return DenseMatrix(self)

    def eliminate_zeros(self):
        pass

    def sum_duplicates(self):
        pass

    def sort_indices(self):
        pass

    # -- algebra
    def dot(self, x):
        return self @ x

    def __matmul__(self, x):
        if isinstance(x, DenseMatrix):
            return DenseMatrix(V.matmul(self.toarray(), x.toarray()))
        return V.matmul(self.toarray(), x)

    def __rmatmul__(self, x):
        return V.matmul(x, self.toarray())

    def __mul__(self, x):
        if isinstance(x, (Sym, V.SymBool)) or V.is_conc(x):
            return DenseMatrix(self.toarray() * x)
        return self @ x

    def __rmul__(self, x):
        if isinstance(x, (Sym, V.SymBool)) or V.is_conc(x):
            return DenseMatrix(self.toarray() * x)
        return self.__rmatmul__(x)

    def __truediv__(self, x):
        return DenseMatrix(self.toarray() / x)

    def __neg__(self):
        return DenseMatrix(-self.toarray())

    def _o(self, o):
        return o.toarray() if isinstance(o, DenseMatrix) else (o.toarray() if hasattr(o, "toarray") else o)

    def __add__(self, o):
        return DenseMatrix(self.toarray() + self._o(o))

    __radd__ = __add__

    def __sub__(self, o):
        return DenseMatrix(self.toarray() - self._o(o))

    def __rsub__(self, o):
        return DenseMatrix(self._o(o) - self.toarray())

    def __iadd__(self, o):
        self.a = V.obj(self.toarray() + self._o(o))
        return self

    def __abs__(self):
        return DenseMatrix(V.elementwise(V.s_abs, (self.toarray(),), False))

    def __pow__(self, n):
        return self.power(n)

    def power(self, n):
        return DenseMatrix(self.toarray() ** n)

    def sqrt(self):
        return DenseMatrix(V.elementwise(V.s_sqrt, (self.toarray(),), False))

    def sign(self):
        return DenseMatrix(V.elementwise(V.s_sign, (self.toarray(),), False))

    def multiply(self, o):
        return DenseMatrix(self.toarray() * (self._o(o) if not isinstance(o, np.ndarray) else V.as_sym_array(o)))

    def maximum(self, o):
        return DenseMatrix(V.elementwise(V.s_max, (self.toarray(), self._o(o)), False))

    def minimum(self, o):
        return DenseMatrix(V.elementwise(V.s_min, (self.toarray(), self._o(o)), False))

    def transpose(self, *a, **k):
        return DenseMatrix(self.toarray().T)

    @property
    def T(self):
        return self.transpose()

    def sum(self, axis=None, **k):
        a = self.toarray()
        if axis is None:
            return a.sum()
        r = a.sum(axis=axis)
        r = V.as_sym_array(r)
        r = r.reshape((-1, 1)) if axis in (1, -1) else r.reshape((1, -1))
        return r.view(Matrix1)

    def mean(self, axis=None, **k):
        s = self.sum(axis)
        return s / (self.a.size if axis is None else self.a.shape[axis])

    def max(self, axis=None, **k):
        return self.toarray().max(axis=axis)

    def min(self, axis=None, **k):
        return self.toarray().min(axis=axis)

    def diagonal(self, k=0):
        return V.as_sym_array([self.toarray()[i, i + k] for i in range(self.a.shape[0] - abs(k))]) if k >= 0 else NotImplemented

    def setdiag(self, v, k=0):
        n = self.a.shape[0]
        if isinstance(v, np.ndarray):
            v = np.asarray(v).astype(object).reshape(-1)
        for i in range(n):
            self.a[i, i] = v[i] if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)) else v

    def getrow(self, i):
        return DenseMatrix(self.a[i:i + 1])

    def getcol(self, j):
        return DenseMatrix(self.a[:, j:j + 1])

    def nonzero(self):
        a = self.toarray()
        nz = [(i, j) for i, j in np.ndindex(a.shape) if not (V.is_conc(a[i, j]) and a[i, j] == 0)]
        return np.array([i for i, _ in nz], dtype=int), np.array([j for _, j in nz], dtype=int)

    def trace(self):
        return self.diagonal().sum()

    def __repr__(self):
        return f"DenseMatrix({self.a})"

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz()")


class _LU:
    def __init__(self, m):
        self.m = DenseMatrix(m)

    def solve(self, b, *a):
        return V.exact_solve(self.m.toarray(), b)


def splu(m, *a, **k):
    return _LU(m)


def spsolve(m, b, *a, **k):
    return V.exact_solve(DenseMatrix(m).toarray(), b)


def factorized(m):
    return _LU(m).solve


def diags(d, offsets=0, *a, **k):
    if offsets not in (0, [0]):
        raise V.EngineError("diags")
    d = V.obj(d if offsets == 0 else d[0])
    n = d.size
    m = DenseMatrix((n, n))
    m.setdiag(d)
    return m


def identity(n, *a, **k):
    m = DenseMatrix((n, n))
    m.setdiag(1.0)
    return m


def issparse(x):
    return isinstance(x, DenseMatrix)


SPARSE_NAMES = {
    "csr_matrix": DenseMatrix, "lil_matrix": DenseMatrix, "csc_matrix": DenseMatrix, "coo_matrix": DenseMatrix,
    "dok_matrix": DenseMatrix, "bsr_matrix": DenseMatrix, "csr_array": DenseMatrix,
    "splu": splu, "spsolve": spsolve, "factorized": factorized, "diags": diags, "identity": identity, "eye": identity,
    "issparse": issparse,
}

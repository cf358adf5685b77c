"""C14: metrics of states and processes, and the matrix utilities they rest on."""

LEVEL = "proof"
LEVEL_NOTE = ("Traces, norms, residuals, projections, block indexing, sparse sums, truncated exponentials, matrix signs, fidelities of "
              "pure states, average-gate numbers, unitarity, Lindblad-free process matrices and randomized-benchmarking transfer matrices are "
              "proved for all matrices of the listed sizes; where the code calls LAPACK (eigenvalues, Schur form, matrix square root, "
              "singular values, logarithms) the obligations use that routine's defining equation. Logarithms, null spaces, general "
              "fidelities, eigenvalue matching and the compiled helpers are bounded checks on drawn inputs.")
ASSUMPTIONS = ["floating-point rounding is ignored: identities hold up to 1e-9 of the coefficients",
               "numpy.linalg.eig/eigvals/svd, scipy.linalg.schur/sqrtm/logm and scipy.optimize.linear_sum_assignment satisfy their "
               "defining equations", "diamond distances need cvxpy, which is not installed: not checked"]
import itertools
import types
import warnings
import numpy as np
import scipy.linalg as spl
import scipy.optimize as spo
import scipy.sparse as sps
import pygsti
from pygsti.objects.basis import Basis
from pygsti.tools import optools as ot, matrixtools as mt, basistools as bt, jamiolkowski as jt, rbtheory as rt, rbtools as rb
from pygsti.tools import lindbladtools as lt
from pyvc.facade import unit

P = "C14"
T = "pygsti.tools."
ONLY = [T + m for m in ("optools", "matrixtools", "basistools", "jamiolkowski", "lindbladtools", "rbtheory", "rbtools")]
TABLE = {}


class Proxy:
    """a module whose routines named in TABLE are replaced by their contracts"""

    def __init__(self, real, tag):
        self.__dict__["real"], self.__dict__["tag"] = real, tag

    def __getattr__(self, n):
        return TABLE.get((self.tag, n), None) or getattr(self.real, n)


class Call:
    """a function known by its contract only"""

    def __init__(self, name, real):
        self.name, self.real = name, real

    def __call__(self, *a, **k):
        f = TABLE.get(self.name)
        return f(*a, **k) if f else self.real(*a, **k)


def _float(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    return x if hasattr(x, "is_const") else float(x)


EXTRA = {(ot, "float"): _float, (ot, "_spl"): Proxy(spl, "spl"), (mt, "_spl"): Proxy(spl, "spl"), (mt, "_spo"): Proxy(spo, "spo"), (mt, "_fastcalc"): None}
STUBS = dict(EXTRA)
for _m, _n in ((ot, "entanglement_fidelity"), (ot, "fidelity"), (ot, "average_gate_infidelity"), (ot, "entanglement_infidelity"), (ot, "_hack_sqrtm"),
               (ot, "tracenorm")):
    STUBS[(_m, _n)] = Call(_n, getattr(_m, _n))


def dag(a):
    return np.conjugate(np.transpose(a))


def outer(v, a, b):
    out = np.empty((len(a), len(b)), dtype=object)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i, j] = x * y
    return v.arr(out)


# ------------------------------------------------------------------ elementary matrix functions

@unit(P, "traces, norms and residuals", cases=[(n, c) for n in (1, 2, 3, 4) for c in (False, True)], extra=EXTRA, only=ONLY, conc=5, lazy_abs=True,
      funcs=[T + "matrixtools." + f for f in ("trace", "frobeniusnorm", "frobeniusnorm2", "column_basis_vector", "vec", "unvec", "safereal",
                                              "safeimag", "safedot")]
      + [T + "optools." + f for f in ("frobeniusdist", "frobeniusdist2", "residuals")])
def elementary(v, case):
    n, cx = case
    mk = v.cplx if cx else v.reals
    A, B = mk("a", (n, n)), mk("b", (n, n))
    A0 = A.copy()
    s = lambda xs: sum(xs, 0)
    v.eq("trace", mt.trace(A), s(A[i, i] for i in range(n)))
    D = A - B
    sq = lambda X: s(X[i].dot(X[i].conjugate()) for i in range(n))
    if cx:
        v.eq("squared Frobenius norm of a complex matrix", mt.frobeniusnorm2(A), sq(A))
        v.eq("squared Frobenius distance of complex matrices", ot.frobeniusdist2(A, B), sq(D))
    else:
        v.eq("squared Frobenius norm", mt.frobeniusnorm2(A), sq(A))
        v.eq("Frobenius norm squares to it", mt.frobeniusnorm(A) ** 2, mt.frobeniusnorm2(A))
        v.check("Frobenius norm is not negative", mt.frobeniusnorm(A) >= 0)
        v.eq("squared Frobenius distance", ot.frobeniusdist2(A, B), sq(D))
        v.eq("Frobenius distance", ot.frobeniusdist(A, B) ** 2, ot.frobeniusdist2(A, B))
    v.eq("it is symmetric", ot.frobeniusdist2(A, B), ot.frobeniusdist2(B, A))
    v.eq("distance of equals", ot.frobeniusdist(A, A), 0)
    v.eq("residuals", ot.residuals(A, B), [A[i, j] - B[i, j] for i in range(n) for j in range(n)])
    vec = mt.vec(A)
    v.eq("stacked columns", v.arr(np.array(vec, dtype=object)), [A[i, j] for j in range(n) for i in range(n)])
    v.eq("unstacked", mt.unvec(vec), A)
    v.eq("real part", mt.safereal(A), (A + A.conjugate()) / 2)
    v.eq("imaginary part", mt.safeimag(A), (A - A.conjugate()) / 2j)
    v.eq("product", mt.safedot(A, B), [[s(A[i, k] * B[k, j] for k in range(n)) for j in range(n)] for i in range(n)])
    v.eq("arguments untouched", A, A0)
    for i in range(n):
        e = mt.column_basis_vector(i, n)
        v.eq("basis vector", e, [[1.0 if k == i else 0.0] for k in range(n)])


@unit(P, "hermitian or not", cases=[1, 2, 3, 4], extra=EXTRA, only=ONLY, conc=5, funcs=[T + "matrixtools.is_hermitian", T + "matrixtools.is_valid_density_mx"])
def hermiticity(v, n):
    H = v.hermitian("h", n)
    v.check("hermitian", mt.is_hermitian(H))
    i = v.choice("i", range(n))
    j = v.choice("j", range(n))
    e = v.real("e", lo=0.01, hi=2.0)
    M = H.copy()
    if i == j:
        M[i, i] = M[i, i] + e * 1j
    else:
        M[i, j] = M[i, j] + e * v.choice("phase", [1, -1, 1j, -1j])
    M = v.arr(M)
    v.check("not hermitian", not mt.is_hermitian(M))
    v.check("nor a density matrix", not mt.is_valid_density_mx(M))


def compositions(n):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(1, n + 1) for r in compositions(n - k)]


@unit(P, "block projections", cases=[tuple(k) for n in (1, 2, 3, 4) for k in compositions(n)], extra=EXTRA, only=ONLY, conc=2,
      funcs=[T + "matrixtools." + f for f in ("project_onto_kite", "project_onto_antikite", "get_kite")])
def kites(v, kite):
    n = sum(kite)
    A = v.cplx("a", (n, n))
    A0 = A.copy()
    blk = [b for b, k in enumerate(kite) for _ in range(k)]
    K, N = mt.project_onto_kite(A, kite), mt.project_onto_antikite(A, kite)
    for i in range(n):
        for j in range(n):
            v.eq("kite", K[i, j], A0[i, j] if blk[i] == blk[j] else 0)
            v.eq("antikite", N[i, j], 0 if blk[i] == blk[j] else A0[i, j])
    v.eq("argument untouched", A, A0)
    if not v.symbolic:
        v.check("kite of eigenvalues", mt.get_kite(np.array([0.3 * b + 0.1j * b for b in blk])) == list(kite))
        v.raises("too small", AssertionError, lambda: mt.project_onto_kite(A, list(kite)[:-1]))


KINDS = {"all": lambda n: None, "int": lambda n: n - 1, "neg": lambda n: -1, "int64": lambda n: np.int64(n // 2), "slice": lambda n: slice(0, n, 2),
         "tail": lambda n: slice(1, None), "list": lambda n: [n - 1, 0], "array": lambda n: np.array([0, n - 1, 1]), "one": lambda n: [n - 1],
         "none": lambda n: []}


def region(shape, inds):
    """oracle: the positions named, and the shape of the region (integers name a single position and drop their axis)"""
    axes, keep = [], []
    for k, n in enumerate(shape):
        i = inds[k] if k < len(inds) else None
        if i is None:
            axes.append(list(range(n)))
            keep.append(n)
        elif isinstance(i, slice):
            axes.append(list(range(n))[i])
            keep.append(len(axes[-1]))
        elif isinstance(i, (int, np.int64)):
            axes.append([i % n])
        else:
            axes.append([int(x) for x in i])
            keep.append(len(axes[-1]))
    return list(itertools.product(*axes)), tuple(keep)


REG = [((3,), (a,)) for a in KINDS] + [((3, 4), (a, b)) for a in KINDS for b in KINDS] + \
      [((2, 3, 3), c) for c in itertools.product(("all", "int", "slice", "list"), repeat=3)] + \
      [((2, 3, 3), ("int64", "int64", "int64")), ((2, 3, 3), ("int64", "list", "int")), ((2, 3, 2, 2), ("int", "list", "slice", "array")),
       ((3, 4), ("list",)), ((2, 3, 3), ("slice", "tail"))]


@unit(P, "reading and writing regions", cases=REG, extra=EXTRA, only=ONLY, conc=2,
      funcs=[T + "matrixtools." + f for f in ("_fas", "_findx", "_findx_shape")])
def regions(v, case):
    shape, kinds = case
    inds = tuple(KINDS[k](shape[i]) for i, k in enumerate(kinds))
    pos, rshape = region(shape, inds)
    A = v.reals("a", shape)
    A0 = A.copy()
    got = mt._findx(A, inds)
    v.check("shape read", np.shape(got) == rshape, str(np.shape(got)))
    if pos:
        v.eq("values read", v.arr(np.array(got, dtype=A.dtype).reshape(-1)), [A0[p] for p in pos])
    if not v.symbolic:
        c = mt._findx(A, inds, always_copy=True)
        v.check("a copy", not np.shares_memory(np.asarray(c), A))
    if not any(k in ("int", "neg", "int64") for k in kinds):
        v.check("shape told", tuple(mt._findx_shape(A, inds)) == rshape)
    rhs = v.reals("r", rshape) if rshape else v.real("r")
    flat = list(rhs.flat) if rshape else [rhs]
    for add in (False, True):
        if add and kinds.count("array") and shape[kinds.index("array")] < 3:
            continue
        B = A0.copy()
        val = rhs if rshape or not any(k in ("list", "array", "one", "none") for k in kinds) else v.arr(np.array(rhs))
        out = mt._fas(B, inds, val, add)
        want = A0.copy()
        for p, x in zip(pos, flat):
            want[p] = (want[p] + x) if add else x
        v.eq("written" if not add else "added", B, want)
        v.check("returned", out is B)


# ------------------------------------------------------------------ sparse matrices

class CSR:
    def __init__(self, v, name, pattern, rng):
        self.shape = pattern.shape
        m = sps.csr_matrix(pattern)
        self.indptr, self.indices, self.nnz = m.indptr, m.indices.copy(), m.nnz
        for r in range(self.shape[0]):     # columns in any order
            s = slice(self.indptr[r], self.indptr[r + 1])
            if rng.random() < 0.5:
                self.indices[s] = self.indices[s][::-1]
        self.data = v.cplx(name, (self.nnz,))

    def dense(self, v, c=1):
        out = np.zeros(self.shape, dtype=object)
        for r in range(self.shape[0]):
            for k in range(self.indptr[r], self.indptr[r + 1]):
                out[r, self.indices[k]] = out[r, self.indices[k]] + c * self.data[k]
        return v.arr(out)


def patterns(seed):
    import random
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 4])
    return [np.array([[int(r.random() < d) for _ in range(n)] for _ in range(n)]) for d in [r.choice([0, 0.3, 0.6, 1.0]) for _ in range(r.choice([1, 2, 3, 4]))]], r


@unit(P, "sums of sparse matrices", cases=list(range(40)), extra=EXTRA, only=ONLY, conc=1,
      funcs=[T + "matrixtools." + f for f in ("get_csr_sum_indices", "csr_sum", "get_csr_sum_flat_indices", "csr_sum_flat")])
def csr_sums(v, seed):
    pats, r = patterns(seed)
    ms = [CSR(v, "m%d" % k, p, r) for k, p in enumerate(pats)]
    cs = [v.cplx("c%d" % k) for k in range(len(ms))]
    inds, indptr, indices, N = mt.get_csr_sum_indices(ms)
    v.check("dimension", N == pats[0].shape[0])
    for i in range(N):
        row = list(indices[indptr[i]:indptr[i + 1]])
        v.check("every column once", len(set(row)) == len(row))
        v.check("only columns in use", set(row) == {c for p in pats for c in range(N) if p[i, c]})
    def dense(data):
        out = np.zeros((N, N), dtype=object)
        for i in range(N):
            for k in range(indptr[i], indptr[i + 1]):
                out[i, indices[k]] = out[i, indices[k]] + data[k]
        return v.arr(out)
    want = sum((m.dense(v, c) for m, c in zip(ms, cs)), np.zeros((N, N)))
    data = v.arr(np.zeros(len(indices), dtype=complex if not v.symbolic else object))
    mt.csr_sum(data, cs, ms, inds)
    v.eq("sum", dense(data), want)
    if not v.symbolic:
        f_inds, f_data, nnzptr, indptr2, indices2, N2 = mt.get_csr_sum_flat_indices(ms)
        data = np.zeros(len(indices), complex)
        mt.csr_sum_flat(data, np.array(cs), f_inds, f_data, nnzptr)
        indptr, indices = indptr2, indices2
        v.eq("flat sum", dense(data), want)


@unit(P, "truncated exponentials", cases=[(m, s) for m in (0, 1, 2, 3, 5) for s in (1, 2)], extra=EXTRA, only=ONLY, conc=2,
      funcs=[T + "matrixtools._custom_expm_multiply_simple_core"])
def expm_core(v, case):
    m, s = case
    n = 2 if m * s < 6 else 1
    A, B, eta = v.reals("a", (n, n)), v.reals("b", (n,)), v.real("eta")
    B0 = B.copy()
    got = mt._custom_expm_multiply_simple_core(A, B, 0.0, m, s, 1e-16, eta)
    want = B0
    for _ in range(s):
        term, tot = want, want
        for j in range(1, m + 1):
            term = np.dot(A, term) / (s * j)
            tot = tot + term
        want = tot * eta
    v.eq("power of the Taylor polynomial", got, want)
    v.eq("argument untouched", B, B0)


def sparse_gen(rng, n, density, cx=False):
    m = (rng.uniform(-1, 1, (n, n)) + (1j * rng.uniform(-1, 1, (n, n)) if cx else 0)) * (rng.uniform(size=(n, n)) < density)
    return m


@unit(P, "exponentials of sparse matrices times vectors", cases=[(n, d, k) for n in (1, 2, 4, 9) for d in (0.0, 0.3, 1.0) for k in (1e-3, 1.0, 8.0)], sym=False, conc=3,
      funcs=[T + "matrixtools." + f for f in ("expm_multiply_prep", "expm_multiply_fast", "expop_multiply_prep", "sparse_onenorm", "safe_onenorm", "safenorm")]
      + [T + "fastcalc.custom_expm_multiply_simple_core", T + "fastcalc.csr_subtract_identity"])
def expm_prep(v, case):
    n, d, scale = case
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    m = sparse_gen(rng, n, d) * scale
    if v.rng.random() < 0.3:
        m[np.diag_indices(n)] = 0
    S = sps.csr_matrix(m)
    x = rng.uniform(-1, 1, n)
    x0 = x.copy()
    prep = mt.expm_multiply_prep(S)
    got = mt.expm_multiply_fast(prep, x)
    v.eq("exp(A) x", got, spl.expm(m).dot(x0), tol=1e-9)
    v.eq("argument untouched", x, x0)
    v.eq("matrix untouched", S.toarray(), m)
    v.eq("python version", mt._custom_expm_multiply_simple_core(prep[0], x, prep[1], prep[2], prep[3], 1e-16, prep[4]), spl.expm(m).dot(x), tol=1e-9)
    lin = sps.linalg.aslinearoperator(m)
    mu, ms, s, eta = mt.expop_multiply_prep(lin)
    v.eq("by an operator", mt._custom_expm_multiply_simple_core(lin, x, mu, ms, s, 1e-16, eta), spl.expm(m).dot(x), tol=1e-9)
    v.eq("one norm", mt.sparse_onenorm(S), np.linalg.norm(m, 1))
    v.eq("one norm of either kind", mt.safe_onenorm(S), mt.safe_onenorm(m))
    cm = m + 1j * sparse_gen(rng, n, d)
    C = sps.csr_matrix(cm)
    v.eq("norm", mt.safenorm(C), np.linalg.norm(cm))
    v.eq("norm of the real part", mt.safenorm(C, "real"), np.linalg.norm(cm.real))
    v.eq("norm of the imaginary part", mt.safenorm(C, "imag"), np.linalg.norm(cm.imag))
    for inplace in (False, True):
        v.eq("real part", mt.safereal(C.copy(), inplace).toarray(), cm.real)
        v.eq("imaginary part", mt.safeimag(C.copy(), inplace).toarray(), cm.imag)
    v.eq("sparse times dense", mt.safedot(C, m), cm.dot(m))
    v.eq("dense times sparse", mt.safedot(m, C), m.dot(cm))


@unit(P, "equality of sparse matrices", cases=[1, 2, 3, 5], sym=False, conc=30, funcs=[T + "matrixtools.sparse_equal"])
def sparse_eq(v, n):
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    m = sparse_gen(rng, n, 0.5, True)
    A = sps.csr_matrix(m)
    B = A.copy()
    how = v.choice("how", ["same", "explicit zero", "coo", "unsorted", "value", "entry", "shape", "noise"])
    same = True
    if how == "explicit zero":
        z = [(i, j) for i in range(n) for j in range(n) if m[i, j] == 0]
        r, c = A.nonzero()
        extra = z[:2]
        B = sps.coo_matrix((np.concatenate((A.tocoo().data, np.zeros(len(extra)))),
                            (list(A.tocoo().row) + [e[0] for e in extra], list(A.tocoo().col) + [e[1] for e in extra])), shape=A.shape).tocsr()
    elif how == "coo":
        o = rng.permutation(A.nnz)
        B = sps.coo_matrix((A.tocoo().data[o], (A.tocoo().row[o], A.tocoo().col[o])), shape=A.shape)
    elif how == "unsorted":
        B = sps.csr_matrix((A.data.copy(), A.indices.copy(), A.indptr.copy()), shape=A.shape)
        for r in range(n):
            s = slice(B.indptr[r], B.indptr[r + 1])
            B.indices[s], B.data[s] = B.indices[s][::-1].copy(), B.data[s][::-1].copy()
        B.has_sorted_indices = False
    elif how in ("value", "noise"):
        if A.nnz == 0:
            return
        k = v.rng.randrange(A.nnz)
        B.data[k] += 0.01 if how == "value" else 1e-12
        same = how == "noise"
    elif how == "entry":
        d = m.copy()
        i, j = v.rng.randrange(n), v.rng.randrange(n)
        d[i, j] = 0 if d[i, j] != 0 else 0.7
        B, same = sps.csr_matrix(d), False
    elif how == "shape":
        B, same = sps.csr_matrix(np.vstack((m, np.zeros((1, n))))), False
    v.check("equal" if same else "different", bool(mt.sparse_equal(A, B)) == same, how)
    v.check("either way round", bool(mt.sparse_equal(B, A)) == same, how)


# ------------------------------------------------------------------ matrix functions

def cayley(r, n):
    h = np.array([[complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(n)] for _ in range(n)])
    h = h + h.conj().T
    return np.linalg.solve(np.identity(n) + 1j * h, np.identity(n) - 1j * h)


@unit(P, "sign of a matrix", cases=[s for n in (1, 2, 3) for s in itertools.product((1, -1), repeat=n)] + [(1, -1, 1, -1), (1, 1, -1, -1), (-1, 1, 1, -1)],
      extra=EXTRA, only=ONLY, conc=5, budget=60, weight=2, funcs=[T + "matrixtools.matrix_sign"])
def msign(v, signs):
    n = len(signs)
    Tm = np.zeros((n, n), dtype=object)
    for i in range(n):
        Tm[i, i] = v.real("t%d" % i, lo=0.3, hi=2) * signs[i]
        for j in range(i + 1, n):
            Tm[i, j] = v.cplx("t%d%d" % (i, j))
    Tm = v.arr(Tm)
    Z = v.fix("Z", lambda r: cayley(r, n))
    M = np.dot(np.dot(v.arr(Z) if v.symbolic else Z, Tm), dag(Z))
    TABLE.clear()
    TABLE[("spl", "schur")] = lambda m, how: (Tm.copy(), v.arr(Z))
    U = mt.matrix_sign(M)
    U2 = np.dot(U, U)
    v.eq("squares to the identity", U2, np.identity(n))
    v.eq("commutes with the matrix", np.dot(U, M), np.dot(M, U))
    back = np.dot(dag(Z), np.dot(U, Z))
    for i in range(n):
        v.eq("sign of eigenvalue %d" % i, back[i, i], signs[i])
        for j in range(i):
            v.eq("triangular", back[i, j], 0)


@unit(P, "null spaces", cases=[(r, c, k, cx) for r in (1, 2, 3, 5) for c in (1, 2, 3, 5) for k in range(min(r, c) + 1) for cx in (False, True)], sym=False, conc=2,
      funcs=[T + "matrixtools.nullspace", T + "matrixtools.nullspace_qr"])
def nulls(v, case):
    r, c, k, cx = case
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    rnd = lambda *s: rng.normal(size=s) + (1j * rng.normal(size=s) if cx else 0)
    m = rnd(r, k).dot(rnd(k, c)) if k else np.zeros((r, c), complex if cx else float)
    m0 = m.copy()
    for nm, f in (("svd", mt.nullspace), ("qr", mt.nullspace_qr)):
        N = f(m)
        v.check("%s: dimension" % nm, N.shape == (c, c - k), str(N.shape))
        v.eq("%s: annihilated" % nm, m.dot(N), np.zeros((r, c - k)), tol=1e-8)
        v.eq("%s: independent" % nm, N.conj().T.dot(N), np.identity(c - k), tol=1e-8)
    v.eq("argument untouched", m, m0)


def rand_u(rng, d, real=False):
    q, r = np.linalg.qr(rng.normal(size=(d, d)) + (0 if real else 1j * rng.normal(size=(d, d))))
    return q


def rand_state(rng, d, rank=None):
    rank = d if rank is None else rank
    g = rng.normal(size=(d, rank)) + 1j * rng.normal(size=(d, rank))
    r = g.dot(g.conj().T)
    return r / np.trace(r)


def rand_kraus(rng, d, k):
    g = [rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)) for _ in range(k)]
    s = sum(x.conj().T.dot(x) for x in g)
    ev, u = np.linalg.eigh(s)
    w = (u / np.sqrt(ev)).dot(u.conj().T)
    return [x.dot(w) for x in g]


def super_of(ks):
    return sum(np.kron(k, k.conj()) for k in ks)


@unit(P, "logarithms", cases=["near", "near complex", "real", "neg pairs", "degenerate", "neg conj pairs", "rotation", "unitary", "approx", "unpaired"], sym=False, conc=15,
      funcs=[T + "matrixtools." + f for f in ("near_identity_matrix_log", "real_matrix_log", "approximate_matrix_log", "unitary_superoperator_matrix_log")])
def logs(v, kind):
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    n = v.choice("n", [1, 2, 3, 4])
    if kind.startswith("near"):
        G = 0.3 * (rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if "complex" in kind else 0))
        L = mt.near_identity_matrix_log(spl.expm(G))
        v.eq("exponentiates back", spl.expm(L), spl.expm(G), tol=1e-8)
        v.check("real when it can be", np.isrealobj(L) or "complex" in kind)
        return
    if kind == "unitary":
        d = v.choice("d", [2, 4])
        H = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        U = spl.expm(-0.25j * (H + H.conj().T))
        b = v.choice("b", ["pp", "gm"])
        M = bt.change_basis(ot.unitary_to_process_mx(U), "std", b)
        L = mt.unitary_superoperator_matrix_log(M, b)
        v.eq("exponentiates back", spl.expm(L), M, tol=1e-7)
        v.eq("real", np.imag(L), np.zeros(M.shape), tol=1e-7)
        return
    S = rng.normal(size=(4, 4)) + 2 * np.identity(4)
    if kind == "real":
        M = spl.expm(rng.normal(size=(n, n)))
    elif kind == "rotation":
        U = rand_u(rng, 2)
        M = bt.change_basis(ot.unitary_to_process_mx(U), "std", "pp")
    elif kind == "neg pairs":
        M = S.dot(np.diag([1, -1, -1, 0.5])).dot(np.linalg.inv(S))
    elif kind == "degenerate":  # several pairs of the same negative eigenvalue
        ev = v.choice("ev", [(-1,) * 4, (-0.5,) * 4 + (1.0,), (-0.5, -0.5, -2.0, -2.0, 1.0), (-1,) * 6, (2.0, -3.0, 1.0, -3.0, -3.0, -3.0)])
        o = rng.permutation(len(ev))
        M = np.diag(np.array(ev, "d")[o])
    elif kind == "neg conj pairs":
        M = bt.change_basis(ot.unitary_to_process_mx(spl.expm(-0.5j * np.pi * np.array([[0, 1], [1, 0]]))), "std", "pp")
    elif kind == "approx":
        G = 0.2 * rng.normal(size=(n, n))
        L = mt.approximate_matrix_log(spl.expm(G), G)
        v.eq("the logarithm that is near", L, G, tol=1e-6)
        return
    else:
        M = S.dot(np.diag([1, -1.0, 0.7, 0.5])).dot(np.linalg.inv(S))
        v.raises("refused", ValueError, lambda: mt.real_matrix_log(M))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v.eq("complex log", spl.expm(mt.real_matrix_log(M, "ignore")), M, tol=1e-6)
        return
    L = mt.real_matrix_log(M, TOL=1e-6)
    v.check("real", np.isrealobj(L))
    v.eq("exponentiates back", spl.expm(L), M, tol=1e-6)


@unit(P, "eigenvalue order and matching", cases=[2, 3, 4, 5], sym=False, conc=25,
      funcs=[T + "matrixtools." + f for f in ("sorted_eig", "complex_compare", "minweight_match_realmxeigs", "minweight_match", "to_unitary", "prime_factors", "norm1")])
def eigs(v, n):
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    m = rng.normal(size=(n, n))
    ev, U = mt.sorted_eig(m)
    v.eq("eigenvectors", m.dot(U), U.dot(np.diag(ev)), tol=1e-8)
    v.check("sorted", all(mt.complex_compare(a, b) <= 0 for a, b in zip(ev, ev[1:])))
    a, b = rng.choice([0.0, 1.0, -1.0], 2), rng.choice([0.0, 1.0, -1.0], 2)
    x, y = complex(*a), complex(*b)
    v.check("order", mt.complex_compare(x, y) == ((x.real, x.imag) > (y.real, y.imag)) - ((x.real, x.imag) < (y.real, y.imag)))
    # matching that keeps conjugate pairs together
    def spectrum():
        out = []
        while len(out) < n:
            if n - len(out) >= 2 and rng.uniform() < 0.5:
                z = complex(rng.normal(), abs(rng.normal()) + 0.1)
                out += [z, z.conjugate()]
            elif n - len(out) >= 2 and rng.uniform() < 0.3:
                z = rng.normal()
                out += [z + 0j, z + 0j]
            else:
                out.append(complex(rng.normal()))
        return np.array(out)[rng.permutation(n)]
    A = spectrum()
    B = (A + 1e-3 * A)[rng.permutation(n)] if rng.uniform() < 0.5 else spectrum()
    for with_inds in (False, True):
        fn = (lambda i, j: abs(A[i] - B[j])) if with_inds else (lambda p, q: abs(p - q))
        try:
            pairs = mt.minweight_match_realmxeigs(A, B, fn, with_inds)
        except ValueError:
            continue
        v.check("a matching", sorted(p for p, _ in pairs) == list(range(n)) and sorted(q for _, q in pairs) == list(range(n)))
        img = dict(pairs)
        conj = lambda ar, i: [k for k in range(n) if np.isclose(ar[k], np.conj(ar[i]))]
        v.check("conjugates matched to conjugates", all(any(img[k] in conj(B, img[i]) for k in conj(A, i)) for i in range(n) if abs(A[i].imag) > 1e-6))
        if with_inds:
            v.eq("same cost by value and by index", sum(abs(A[p] - B[q]) for p, q in pairs), cost0)
        else:
            cost0 = sum(abs(A[p] - B[q]) for p, q in pairs)
    w = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    v.eq("trace norm", mt.norm1(w), np.sum(np.linalg.svd(w, compute_uv=False)), tol=1e-6)
    W = rand_u(rng, n)
    s, u = mt.to_unitary(2.5 * W)
    v.eq("scale and unitary", s * u, 2.5 * W)
    v.eq("unitary", u.dot(u.conj().T), np.identity(n))
    k = v.rng.randrange(1, 500)
    f = mt.prime_factors(k)
    v.check("product of factors", int(np.prod(f)) == k if f else k == 1)
    v.check("prime", all(all(p % q for q in range(2, p)) for p in f))


@unit(P, "minimum-weight matching", cases=[1, 2, 3], extra=EXTRA, only=ONLY, conc=5, funcs=[T + "matrixtools.minweight_match"])
def matching(v, n):
    a, b = v.reals("a", (n,)), v.reals("b", (n,))
    W = v.reals("w", (n, n), lo=0)
    perm = v.choice("perm", list(itertools.permutations(range(n))))
    by_index = v.bool("by index")
    seen = []
    TABLE.clear()
    TABLE[("spo", "linear_sum_assignment")] = lambda m: (seen.append(m), (np.arange(n), np.array(perm)))[1]
    if not v.symbolic:
        for fn, ix in (((lambda x, y: abs(x - y)), False), ((lambda i, j: W[i, j]), True)):
            C = W if ix else np.abs(a[:, None] - b[None, :])
            w, pairs = mt.minweight_match(a, b, fn, True, ix)
            best = min(sum(C[i, p[i]] for i in range(n)) for p in itertools.permutations(range(n)))
            v.eq("least total", sum(w), best)
            v.eq("weights of the pairs", w, [C[i, j] for i, j in pairs])
            v.check("a matching", sorted(j for _, j in pairs) == list(range(n)) and [i for i, _ in pairs] == list(range(n)))
        return
    fn = (lambda i, j: W[i, j]) if by_index else (lambda x, y: W[[k for k in range(n) if a[k] is x][0], [k for k in range(n) if b[k] is y][0]])
    w, pairs = mt.minweight_match(a, b, fn, True, by_index)
    v.eq("weights given to the solver", seen[0], W)
    v.check("pairs", [(int(i), int(j)) for i, j in pairs] == list(enumerate(perm)))
    v.eq("weights of the pairs", w, [W[i, perm[i]] for i in range(n)])
    v.eq("weights alone", mt.minweight_match(a, b, fn, False, by_index), w)


# ------------------------------------------------------------------ states

@unit(P, "fidelity with a pure state", cases=[(n, k, s) for n in (1, 2, 3, 4) for k in range(n) for s in ("first", "second")], extra=EXTRA, only=ONLY, conc=5,
      funcs=[T + "optools.fidelity"])
def pure_fidelity(v, case):
    n, k, side = case
    psi = v.cplx("psi", (n,))
    lam = v.real("lam", lo=0.1, hi=1.0)
    rho = v.hermitian("r", n)
    if not v.symbolic:
        psi = psi / np.linalg.norm(psi)
        rho = rho.dot(rho.conj().T)
        rho = rho / np.trace(rho)
    pure = outer(v, psi, [x.conjugate() for x in psi]) * lam
    evals = np.zeros(n, dtype=object)
    evals[k] = lam

    def eig(m):
        """contract: eigenvalues, unit eigenvectors; only the one of the non-zero eigenvalue matters"""
        if m is not pure:
            ev = np.array([1, 1] + [0] * (n - 2), dtype=object) if n > 1 else np.array([0], dtype=object)
            return v.arr(ev), v.arr(np.zeros((n, n)))
        U = np.zeros((n, n), dtype=object)
        U[:, k] = psi
        return v.arr(evals), v.arr(U)
    v.hook("eig", eig)
    F = ot.fidelity(pure, rho) if side == "first" else ot.fidelity(rho, pure)
    want = 0
    for i in range(n):
        for j in range(n):
            want = want + psi[i].conjugate() * rho[i, j] * psi[j]
    v.eq("<psi|rho|psi>", F, (want * lam).real)


@unit(P, "fidelity of mixed states is built from square roots", cases=[2, 3], extra=STUBS, only=ONLY, conc=0, funcs=[T + "optools.fidelity"])
def mixed_fidelity(v, n):
    A, B, S, R = v.hermitian("a", n), v.hermitian("b", n), v.hermitian("s", n), v.hermitian("r", n)
    TABLE.clear()
    v.hook("eig", lambda m: (v.arr(np.array([1.0] * n, dtype=object)), v.arr(np.zeros((n, n)))))
    v.hook("norm", lambda m: 0)
    calls = []
    TABLE["_hack_sqrtm"] = lambda m: (calls.append(m), S if len(calls) == 1 else R)[1]
    nm = v.np.linalg.norm
    v.np.linalg.__dict__["norm"] = lambda m: 0
    try:
        F = ot.fidelity(A, B)
    finally:
        del v.np.linalg.__dict__["norm"]
    v.eq("root of the first", calls[0], A)
    v.eq("root of sqrt(A) B sqrt(A)", calls[1], np.dot(S, np.dot(B, S)))
    v.check("no more roots", len(calls) == 2)
    t = sum(R[i, i] for i in range(n))
    v.eq("trace squared", F, (t * t))


def true_fidelity(a, b):
    def root(x):
        w, u = np.linalg.eigh(x)
        return (u * np.sqrt(np.clip(w, 0, None))).dot(u.conj().T)
    return np.sum(np.linalg.svd(root(a).dot(root(b)), compute_uv=False)) ** 2


@unit(P, "fidelity and distance of states", cases=[(d, r1, r2) for d in (2, 3, 4) for r1 in range(1, d + 1) for r2 in range(1, d + 1)], sym=False, conc=6,
      funcs=[T + "optools." + f for f in ("fidelity", "tracedist", "tracenorm", "_hack_sqrtm", "frobeniusdist")] + [T + "matrixtools." + f for f in ("is_pos_def", "is_valid_density_mx")])
def states(v, case):
    d, r1, r2 = case
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    a, b = rand_state(rng, d, r1), rand_state(rng, d, r2)
    U = rand_u(rng, d)
    if v.rng.random() < 0.3:     # commuting, with exact zeros
        a = np.diag(np.array([1.0] * r1 + [0.0] * (d - r1)) / r1).astype(complex)
        b = np.diag(np.array([0.0] * (d - r2) + [1.0] * r2) / r2).astype(complex)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        F = ot.fidelity(a, b)
        tol = 1e-6 if r1 == d or r2 == d or 1 in (r1, r2) else 1e-4
        v.eq("fidelity", F, true_fidelity(a, b), tol=tol)
        v.eq("symmetric", ot.fidelity(b, a), F, tol=tol)
        v.eq("one on equals", ot.fidelity(a, a), 1, tol=tol)
        v.check("in range", -tol <= F <= 1 + tol)
        v.eq("unitarily invariant", ot.fidelity(U.dot(a).dot(U.conj().T), U.dot(b).dot(U.conj().T)), F, tol=tol)
    Td = ot.tracedist(a, b)
    v.eq("trace distance", Td, 0.5 * np.sum(np.abs(np.linalg.eigvalsh(a - b))))
    v.eq("symmetric distance", ot.tracedist(b, a), Td)
    v.eq("zero on equals", ot.tracedist(a, a), 0)
    v.check("distance in range", -1e-9 <= Td <= 1 + 1e-9)
    v.check("fidelity and distance are compatible", 1 - np.sqrt(max(F, 0)) <= Td + 1e-4 and Td <= np.sqrt(max(0, 1 - F)) + 2e-2)
    x = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    v.eq("trace norm of any matrix", ot.tracenorm(x), np.sum(np.linalg.svd(x, compute_uv=False)))
    v.eq("Frobenius distance of real states", ot.frobeniusdist(a.real, b.real), np.linalg.norm(a.real - b.real))
    v.check("density matrices", mt.is_valid_density_mx(a) and mt.is_valid_density_mx(b))
    v.check("not one", not mt.is_valid_density_mx(2 * a) and not mt.is_valid_density_mx(a - 1.5 * b + 0.5 * np.identity(d) / d * 1.0) or r2 == d)
    neg = U.dot(np.diag([1.5, -0.5] + [0] * (d - 2))).dot(U.conj().T)
    v.check("negative eigenvalues are seen", not mt.is_pos_def(neg) and not mt.is_valid_density_mx((neg + neg.conj().T) / 2))


@unit(P, "trace norm", cases=[2, 3], extra=EXTRA, only=ONLY, conc=5, funcs=[T + "optools.tracenorm", T + "optools.tracedist"])
def tnorm(v, n):
    H, B = v.hermitian("h", n), v.hermitian("b", n)
    ev = v.reals("e", (n,))
    seen = []
    v.hook("eigvals", lambda m: (seen.append(m), ev)[1])
    got, dist = ot.tracenorm(H), ot.tracedist(H, B)
    if v.symbolic:
        want = sum((abs(x) for x in ev), 0)
        v.eq("sum of absolute eigenvalues", got, want)
        v.eq("distance", dist, want * 0.5)
        v.eq("eigenvalues of the argument", seen[0], H)
        v.eq("eigenvalues of the difference", seen[1], H - B)
    else:
        v.eq("sum of absolute eigenvalues", got, np.sum(np.abs(np.linalg.eigvalsh(H))))
        v.eq("distance", dist, np.sum(np.abs(np.linalg.eigvalsh(H - B))) / 2)


@unit(P, "state vectors and unitaries as superoperators", cases=[1, 2, 3, 4], extra=EXTRA, only=ONLY, conc=4,
      funcs=[T + "optools." + f for f in ("state_to_dmvec", "unitary_to_process_mx", "unitary_to_pauligate")])
def superops(v, d):
    psi, U = v.cplx("psi", (d,)), v.cplx("u", (d, d))
    dm = ot.state_to_dmvec(psi)
    v.eq("|psi><psi|", dm.reshape((d, d)), outer(v, psi, [x.conjugate() for x in psi]))
    M = ot.unitary_to_process_mx(U)
    r = v.cplx("r", (d, d))
    v.eq("U rho U+", np.dot(M, r.reshape(d * d)).reshape((d, d)), np.dot(U, np.dot(r, dag(U))))
    if d in (1, 2, 4):
        G = ot.unitary_to_pauligate(U)
        pp = bt.basis_matrices("pp", d * d)
        for j, Pj in list(enumerate(pp))[:4]:
            img = np.dot(U, np.dot(Pj, dag(U)))
            for i, Pi in enumerate(pp):
                v.eq("Pauli matrix element", G[i, j], sum(sum(Pi[a, b] * img[b, a] for b in range(d)) for a in range(d)))


@unit(P, "pure states and unitaries recovered", cases=[1, 2, 3, 4], sym=False, conc=15,
      funcs=[T + "optools." + f for f in ("dmvec_to_state", "process_mx_to_unitary", "rotation_gate_mx")])
def recover(v, d):
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    psi = rng.normal(size=d) + 1j * rng.normal(size=d)
    dm = ot.state_to_dmvec(psi)
    v.eq("same projector", ot.state_to_dmvec(ot.dmvec_to_state(dm)), dm)
    if d > 1:
        v.raises("mixed", ValueError, lambda: ot.dmvec_to_state((np.identity(d) / d).astype(complex).ravel()))
    v.raises("zero", ValueError, lambda: ot.dmvec_to_state(np.zeros(d * d, complex)))
    U = rand_u(rng, d)
    M = ot.unitary_to_process_mx(U)
    v.eq("same process", ot.unitary_to_process_mx(ot.process_mx_to_unitary(M)), M)
    if d in (2, 4):
        r = rng.normal(size=d * d - 1)
        sig = np.array(bt.basis_matrices("pp", d * d)[1:]) * np.sqrt(d)
        W = spl.expm(-0.5j * np.tensordot(r, sig, (0, 0)))
        for b in ("gm", "pp", "std"):
            v.eq("rotation", ot.rotation_gate_mx(r, b), bt.change_basis(ot.unitary_to_process_mx(W), "std", b))


# ------------------------------------------------------------------ processes

@unit(P, "average gate numbers", cases=[1, 2, 3, 4], extra=STUBS, only=ONLY, conc=0,
      funcs=[T + "optools." + f for f in ("average_gate_fidelity", "average_gate_infidelity", "entanglement_infidelity", "gateset_infidelity")])
def average(v, d):
    A, B = np.zeros((d * d, d * d)), np.ones((d * d, d * d))
    f = v.real("f", lo=0, hi=1)
    seen = []

    def ef(a, b, mxBasis="pp"):
        seen.append((a is A and b is B, mxBasis))
        return f
    TABLE.clear()
    TABLE["entanglement_fidelity"] = ef
    v.eq("average gate fidelity", ot.average_gate_fidelity(A, B, "gm"), (d * f + 1) / (d + 1))
    v.eq("average gate infidelity", ot.average_gate_infidelity(A, B, "std"), d * (1 - f) / (d + 1))
    v.eq("entanglement infidelity", ot.entanglement_infidelity(A, B, "qt"), 1 - f)
    v.check("arguments and bases handed on", seen == [(True, "gm"), (True, "std"), (True, "qt")], str(seen))
    k = v.choice("gates", [1, 2, 3])
    labels = ["G%d" % i for i in range(k)]
    vals = v.reals("i", (k,))
    mdl = types.SimpleNamespace(basis="pp", operations={l: ("m", l) for l in labels})
    tgt = types.SimpleNamespace(basis="pp", operations={l: ("t", l) for l in labels})
    ws = v.reals("w", (k,), lo=0.01)
    mode = v.choice("type", ["EI", "AGI"])

    def inf(a, b, mxBasis="?"):
        v.check("model against target, same gate", a[0] == "m" and b[0] == "t" and a[1] == b[1] and mxBasis == "pp")
        return vals[labels.index(a[1])]
    TABLE["average_gate_infidelity" if mode == "AGI" else "entanglement_infidelity"] = inf
    v.eq("mean", ot.gateset_infidelity(mdl, tgt, mode), sum(vals) / k)
    v.eq("weighted mean", ot.gateset_infidelity(mdl, tgt, mode, dict(zip(labels, ws))), sum(w * x for w, x in zip(ws, vals)) / sum(ws))
    v.raises("unknown type", AssertionError, lambda: ot.gateset_infidelity(mdl, tgt, "XX"))


@unit(P, "unitarity", cases=[("pp", 4), ("gm", 4), ("std", 4), ("gm", 9), ("qt", 9)], thorough_cases=[("pp", 4), ("gm", 4), ("std", 4), ("gm", 9), ("qt", 9), ("pp", 16)],
      extra=EXTRA, only=ONLY, conc=4, budget=90, weight=2, funcs=[T + "optools.unitarity"])
def unit_arity(v, case):
    b, d2 = case
    d = int(round(np.sqrt(d2)))
    M = v.reals("m", (d2, d2))
    els = bt.basis_matrices(b, d2)
    onb = bt.basis_matrices("gm", d2)
    # matrix elements in an orthonormal basis that starts with the identity
    to = np.array([[np.trace(np.conjugate(g.T).dot(e)) for e in els] for g in onb])
    if b == "std":      # maps that keep hermitian matrices hermitian
        M = np.dot(np.dot(np.linalg.inv(to), M), to)
    R = np.dot(np.dot(to, M), np.linalg.inv(to))
    want = 0
    for i in range(1, d2):
        for j in range(1, d2):
            want = want + R[i, j] * R[i, j].conjugate()
    v.eq("norm of the unital block", ot.unitarity(M, b), want / (d2 - 1))


@unit(P, "Choi trace distance", cases=["pp", "gm", "std"], extra=STUBS, only=ONLY, conc=4, funcs=[T + "optools.jtracedist"])
def jdist(v, b):
    A, B = (v.cplx("a", (4, 4)), v.cplx("b", (4, 4))) if b == "std" else (v.reals("a", (4, 4)), v.reals("b", (4, 4)))
    seen = []
    out = v.real("t")
    TABLE.clear()
    TABLE["tracenorm"] = lambda m: (seen.append(m), out)[1]
    got = ot.jtracedist(A, B, b)
    S = bt.change_basis(A - B, b, "std") if not v.symbolic else None
    if v.symbolic:
        v.eq("half the norm", got, out * 0.5)
        els = bt.basis_matrices(b, 4)
        C = np.array([e.ravel() for e in els]).T
        S = np.dot(np.dot(C, A - B), np.linalg.inv(C))
        J = seen[0]
        # (D x id)(|psi><psi|) with |psi> = sum_i |ii>/sqrt(2), up to a permutation of the factors: same entries
        ent = {}
        for i, j, k, l in itertools.product(range(2), repeat=4):
            v.eq("Choi matrix of the difference", J[2 * i + k, 2 * j + l], S[2 * i + j, 2 * k + l] / 2)
    else:
        J = np.zeros((4, 4), complex)
        for i, j, k, l in itertools.product(range(2), repeat=4):
            J[2 * i + k, 2 * j + l] = S[2 * i + j, 2 * k + l] / 2
        v.eq("distance", got, np.sum(np.linalg.svd(J, compute_uv=False)) / 2)


@unit(P, "process metrics", cases=[(d, k, b) for d, bs in ((2, ("pp", "gm", "std")), (3, ("gm", "qt")), (4, ("pp", "gm"))) for k in (1, 2, 3) for b in bs], sym=False, conc=5,
      funcs=[T + "optools." + f for f in ("entanglement_fidelity", "average_gate_fidelity", "jtracedist", "unitarity", "fidelity_upper_bound")])
def processes(v, case):
    d, k, b = case
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    Ks, W = rand_kraus(rng, d, k), rand_u(rng, d)
    E, Wm = super_of(Ks), super_of([W])
    A, B = bt.change_basis(E, "std", b), bt.change_basis(Wm, "std", b)
    C = bt.change_basis(super_of(rand_kraus(rng, d, 2)), "std", b)
    Fe = sum(abs(np.trace(W.conj().T.dot(x))) ** 2 for x in Ks) / d ** 2
    v.eq("entanglement fidelity to a unitary", ot.entanglement_fidelity(A, B, b), Fe, tol=1e-6)
    v.eq("and from it", ot.entanglement_fidelity(B, A, b), Fe, tol=1e-6)
    # average over pure states: the Haar average is (d F + 1)/(d+1)
    v.eq("average gate fidelity", ot.average_gate_fidelity(A, B, b), (d * Fe + 1) / (d + 1), tol=1e-6)
    v.eq("average gate infidelity", ot.average_gate_infidelity(A, B, b), 1 - (d * Fe + 1) / (d + 1), tol=1e-6)
    v.eq("one on equals", ot.entanglement_fidelity(A, A, b), 1, tol=1e-4)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        J1, J2 = [np.array(jt.jamiolkowski_iso(X, b, b)) for X in (A, C)]
        v.eq("fidelity of the Choi states", ot.entanglement_fidelity(A, C, b), true_fidelity(*[choi(bt.change_basis(X, b, "std"), d) for X in (A, C)]), tol=2e-4)
        v.eq("symmetric", ot.entanglement_fidelity(A, C, b), ot.entanglement_fidelity(C, A, b), tol=2e-4)
    v.eq("Choi distance", ot.jtracedist(A, C, b), 0.5 * np.sum(np.abs(np.linalg.eigvalsh(choi(bt.change_basis(A - C, b, "std"), d)))))
    v.eq("zero on equals", ot.jtracedist(A, A, b), 0)
    v.eq("unitary", ot.unitarity(B, b), 1)
    v.check("unitarity in range", -1e-9 <= np.real(ot.unitarity(A, b)) <= 1 + 1e-9)
    v.eq("depolarizing", ot.unitarity(bt.change_basis(0.3 * np.identity(d * d) + 0.7 * np.outer(np.identity(d).ravel(), np.identity(d).ravel()) / d, "std", b), b), 0.09)
    if b == "pp":
        F, close = ot.fidelity_upper_bound(A)
        v.eq("largest Choi eigenvalue", F, np.max(np.linalg.eigvalsh(choi(E, d))), tol=1e-6)
        v.eq("reached by the returned map", true_fidelity(choi(E, d), choi(bt.change_basis(close, "pp", "std"), d)), F, tol=1e-5)


def choi(S, d):
    J = np.zeros((d * d, d * d), complex)
    for i, j, k, l in itertools.product(range(d), repeat=4):
        J[d * i + k, d * j + l] = S[d * i + j, d * k + l] / d
    return (J + J.conj().T) / 2


@unit(P, "error generators", cases=["logG-logT", "logTiG", "logGTi"], sym=False, conc=15, conc_s=60,
      funcs=[T + "optools.error_generator", T + "optools.operation_from_error_generator"])
def errgens(v, typ):
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    b = v.choice("b", ["pp", "gm"])
    H = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
    Tg = bt.change_basis(super_of([spl.expm(-0.3j * (H + H.conj().T))]), "std", b).real
    G = Tg.dot(spl.expm(0.02 * rng.normal(size=(4, 4))))
    L = ot.error_generator(G, Tg, b, typ)
    v.check("real", np.isrealobj(L))
    v.eq("rebuilds the gate", ot.operation_from_error_generator(L, Tg, typ), G, tol=1e-4 if typ == "logG-logT" else 1e-7)
    want = {"logTiG": lambda: spl.logm(np.linalg.inv(Tg).dot(G)), "logGTi": lambda: spl.logm(G.dot(np.linalg.inv(Tg))),
            "logG-logT": lambda: spl.logm(G) - spl.logm(Tg)}[typ]()
    v.eq("by definition", L, want, tol=1e-3 if typ == "logG-logT" else 1e-7)
    v.eq("nothing between equals", ot.error_generator(Tg, Tg, b, typ), np.zeros((4, 4)), tol=1e-4 if typ == "logG-logT" else 1e-7)
    v.raises("unknown type", ValueError, lambda: ot.error_generator(G, Tg, b, "zzz"))
    v.raises("unknown type back", ValueError, lambda: ot.operation_from_error_generator(L, Tg, "zzz"))


@unit(P, "error generator of a preparation", cases=[1, 4], extra=EXTRA, only=ONLY, conc=4, funcs=[T + "optools.spam_error_generator"])
def spam_gen(v, n):
    a, b = v.reals("a", (n,), lo=0.1, hi=2.0), v.reals("b", (n,), lo=0.1, hi=2.0)
    zero = v.choice("zero", [None, 0])
    if zero is not None:
        a[0] = 0.0
        b[0] = 0.0
    TABLE.clear()
    out = []
    TABLE[("spl", "logm")] = lambda m: (out.append(m), m)[1]
    L = ot.spam_error_generator(a, b, "pp")
    E = out[0] if v.symbolic else spl.expm(L)
    v.eq("takes the target to the vector", np.dot(E, b), a)
    v.eq("diagonal", E - v.arr(np.diag(np.diag(E))), np.zeros((n, n)))


@unit(P, "decomposition of a qubit gate", cases=["unital", "rotation", "nonunital", "nottp"], sym=False, conc=20, funcs=[T + "optools.decompose_gate_matrix"])
def decompose(v, kind):
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    ang = v.rng.uniform(0.2, 2.8)
    O = rand_u(rng, 3, True)
    O = O * np.sign(np.linalg.det(O))
    da, dr = (1.0, 1.0) if kind == "rotation" else (v.rng.uniform(0.9, 0.99), v.rng.uniform(0.7, 0.89))
    blk = np.zeros((3, 3))
    blk[0, 0] = da
    blk[1:, 1:] = dr * np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
    G = np.zeros((4, 4))
    G[0, 0] = 1.0 if kind != "nottp" else v.rng.choice([1.003, 0.993])
    G[1:, 1:] = O.dot(blk).dot(O.T)
    if kind == "nonunital":
        G[1:, 0] = 0.1 * rng.uniform(-1, 1, 3)
    r = ot.decompose_gate_matrix(G)
    v.check("succeeds", r["isValid"], str(r.get("msg")))
    v.check("unitary or not", r["isUnitary"] == (kind == "rotation"))
    fp, ax = r["fixed point"], r["axis of rotation"]
    v.eq("fixed point", G.dot(fp), fp * G[0, 0], tol=1e-6)
    v.check("it is a state", abs(fp[0]) > 1e-3)
    v.eq("axis is fixed up to decay", G.dot(ax), da * ax, tol=1e-6)
    n = np.concatenate(([0.0], O[:, 0]))
    v.eq("axis", abs(np.vdot(n, ax)) / np.linalg.norm(ax), 1.0, tol=1e-6)
    v.eq("decay along the axis", r["decay of diagonal rotation terms"], 1 - da, tol=1e-6)
    v.eq("decay around it", r["decay of off diagonal rotation terms"], 1 - dr, tol=1e-6)
    v.eq("angle", abs(r["pi rotations"]), ang / np.pi, tol=1e-6)
    for w, s in (("rotating axis 1", 1), ("rotating axis 2", -1)):
        u = r[w]
        th = r["pi rotations"] * np.pi * s
        v.eq("eigenvector around the axis", G.dot(u), dr * np.exp(1j * th) * u, tol=1e-6)


# ------------------------------------------------------------------ measurements

@unit(P, "measurement maps", cases=["z", "noisy"], sym=False, conc=6,
      funcs=[T + "optools." + f for f in ("get_povm_map", "povm_fidelity", "povm_jtracedist", "_flat_mut_blks")])
def povms(v, kind):
    from pygsti.construction import std1Q_XYI as std
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    tgt = std.target_model()
    mdl = tgt.copy()
    mdl.set_all_parameterizations("full")
    p = np.zeros(2)
    E0 = rand_state(rng, 2, 2)
    E0 = E0 / (np.max(np.linalg.eigvalsh(E0)) * 1.2)
    v0 = bt.change_basis(E0.ravel(), "std", "pp").real
    v1 = bt.change_basis((np.identity(2) - E0).ravel(), "std", "pp").real
    if kind == "noisy":
        mdl.povms["Mdefault"]["0"], mdl.povms["Mdefault"]["1"] = v0.reshape(-1, 1), v1.reshape(-1, 1)
    M = ot.get_povm_map(mdl, "Mdefault")
    rho = rand_state(rng, 2, 2)
    out = bt.change_basis(M.dot(bt.change_basis(rho.ravel(), "std", "pp")), "pp", "std").reshape((2, 2))
    E = E0 if kind == "noisy" else np.diag([1.0, 0.0])
    pr = np.trace(E.dot(rho)).real
    v.eq("probabilities on the diagonal", out, np.diag([pr, 1 - pr]))
    v.eq("fidelity of a measurement to itself", ot.povm_fidelity(tgt, tgt, "Mdefault"), 1, tol=1e-5)
    v.eq("distance of a measurement to itself", ot.povm_jtracedist(mdl, mdl, "Mdefault"), 0)
    S1, S2 = [bt.change_basis(ot.get_povm_map(m, "Mdefault"), "pp", "std") for m in (mdl, tgt)]
    v.eq("distance of the maps", ot.povm_jtracedist(mdl, tgt, "Mdefault"), 0.5 * np.sum(np.abs(np.linalg.eigvalsh(choi(S1 - S2, 2)))))
    v.eq("fidelity of the maps", ot.povm_fidelity(mdl, tgt, "Mdefault"), true_fidelity(choi(S1, 2), choi(S2, 2)), tol=2e-4)


# ------------------------------------------------------------------ randomized-benchmarking theory

@unit(P, "decay and infidelity", cases=["AGI", "EI"], extra=EXTRA, only=ONLY, conc=5, funcs=[T + "rbtools.p_to_r", T + "rbtools.r_to_p"])
def p_and_r(v, typ):
    d = v.real("d", lo=1.5, hi=20)
    x = v.real("x")
    r = rb.p_to_r(x, d, typ)
    v.eq("back to p", rb.r_to_p(r, d, typ), x)
    v.eq("back to r", rb.p_to_r(rb.r_to_p(x, d, typ), d, typ), x)
    f = x + (1 - x) / (d * d)        # depolarizing channel of strength x: entanglement fidelity
    v.eq("of a depolarizing channel", r, 1 - f if typ == "EI" else 1 - (d * f + 1) / (d + 1))
    v.raises("unknown", ValueError, lambda: rb.p_to_r(x, d, "x"))
    v.raises("unknown too", ValueError, lambda: rb.r_to_p(x, d, "x"))


@unit(P, "success statistics", cases=[1, 2, 3], extra=EXTRA, only=ONLY, conc=8,
      funcs=[T + "rbtools." + f for f in ("adjusted_success_probability", "marginalized_success_counts", "hamming_distance", "marginalized_hamming_distance_counts",
                                          "rescaling_factor")])
def success(v, n):
    pdf = [v.real("h%d" % i) for i in range(n + 1)]
    v.eq("adjusted success probability", rb.adjusted_success_probability(pdf), sum(pdf[k] * (-0.5) ** k for k in range(n + 1)))
    lines = ["Q%d" % i for i in range(n)]
    outs = ["".join(o) for o in itertools.product("01", repeat=n)]
    cnt = {(o,): v.real("c" + o, lo=0) for o in outs}

    class Counts(dict):
        def __missing__(self, k):
            if isinstance(k, str):
                return self[(k,)]
            raise KeyError(k)
    row = types.SimpleNamespace(total=1, counts=Counts(cnt))
    circ = types.SimpleNamespace(line_labels=lines)
    target = v.choice("target", outs)
    qs = v.choice("qubits", [list(p) for k in range(1, n + 1) for p in itertools.permutations(lines, k)])
    ix = [lines.index(q) for q in qs]
    v.eq("success counts", rb.marginalized_success_counts(row, circ, target, qs), sum(cnt[(o,)] for o in outs if all(o[i] == target[i] for i in ix)))
    hd = rb.marginalized_hamming_distance_counts(row, circ, target, qs)
    v.check("one count per distance", len(hd) == len(qs) + 1)
    for k in range(len(qs) + 1):
        v.eq("counts at distance", hd[k], sum((cnt[(o,)] for o in outs if sum(o[i] != target[i] for i in ix) == k), 0))
    v.check("distance", rb.hamming_distance(target, outs[-1]) == target.count("0"))
    none = types.SimpleNamespace(total=0, counts=Counts())
    v.check("no data", rb.marginalized_success_counts(none, circ, target, qs) == 0 and rb.marginalized_hamming_distance_counts(none, circ, target, qs) == [0] * (len(qs) + 1))
    L = [1, 4, 10][:n]
    q = [[v.real("q%d%d" % (i, j)) for j in range(2)] for i in range(n)]
    v.eq("rescaling factor", rb.rescaling_factor(L, q, 3), sum((q[i][0] + q[i][1]) / 2 / (L[i] + 3) for i in range(n)) / n)


class Op:
    def __init__(self, m):
        self.m = m

    def todense(self):
        return self.m


@unit(P, "transfer matrix of the gate errors", cases=[1, 2, 3], extra=EXTRA, only=ONLY, conc=4, budget=60, funcs=[T + "rbtheory.L_matrix"])
def l_matrix(v, k):
    n = 4
    Gs = {"G%d" % i: v.reals("g%d" % i, (n, n)) for i in range(k)}
    Ts = {"G%d" % i: v.fix("t%d" % i, lambda r: np.array([[r.uniform(-1, 1) + (2 if a == b else 0) for a in range(n)] for b in range(n)])) for i in range(k)}
    ws = {"G%d" % i: v.real("w%d" % i, lo=0.1, hi=3) for i in range(k)}
    mdl = types.SimpleNamespace(operations={l: Op(m) for l, m in Gs.items()})
    tgt = types.SimpleNamespace(operations={l: Op(m) for l, m in Ts.items()})
    X = v.fix("X", lambda r: np.array([[r.uniform(-1, 1) for a in range(n)] for b in range(n)]))
    for w in (None, ws):
        L = rt.L_matrix(mdl, tgt, w)
        got = np.dot(L, X.T.ravel()).reshape((n, n)).T          # columns stacked
        want, tot = 0, 0
        for l in Gs:
            c = 1 if w is None else w[l]
            want = want + np.dot(np.dot(np.linalg.inv(Ts[l]), X), Gs[l]) * c
            tot = tot + c
        v.eq("mean of T^-1 X G", got, want / tot)


class Group:
    def __init__(self, table, labels):
        self.t, self.labels = table, labels

    def __len__(self):
        return len(self.t)

    def product(self, ij):
        r = 0
        for i in ij:
            r = self.t[r][i]
        return r

    def get_inv(self, i):
        return [j for j in range(len(self.t)) if self.t[i][j] == 0][0]


def s3():
    ps = list(itertools.permutations(range(3)))
    return [[ps.index(tuple(q[p[i]] for i in range(3))) for q in ps] for p in ps]


GROUPS = {"Z2": [[0, 1], [1, 0]], "Z3": [[(i + j) % 3 for j in range(3)] for i in range(3)], "V4": [[i ^ j for j in range(4)] for i in range(4)], "S3": s3()}


@unit(P, "exact benchmarking curves", cases=[(g, sub, m) for g in ("Z2", "Z3") for sub in (False,) for m in (1, 2)] + [("V4", False, 1), ("S3", False, 1)], extra=EXTRA, only=ONLY,
      conc=3, budget=90, weight=2, funcs=[T + "rbtheory.R_matrix", T + "rbtheory.exact_RB_ASPs"])
def exact_rb(v, case):
    g, _, M = case
    tb = GROUPS[g]
    labels = ["g%d" % i for i in range(len(tb))]
    grp = Group(tb, labels)
    n = 4
    ops = {l: v.reals(l, (n, n)) for l in labels}
    ws = {l: v.real("w" + l, lo=0.1, hi=2) for l in labels} if v.choice("weights", [False, True]) else None
    rho, E = v.reals("rho", (n, 1)), v.reals("E", (n, 1))
    mdl = types.SimpleNamespace(dim=n, operations=ops, preps={"rho0": rho}, povms={"Mdefault": {"0": E}})
    tot = len(labels) if ws is None else sum(ws.values())
    R = rt.R_matrix(mdl, grp, weights=ws)
    for i in range(len(tb)):
        for j in range(len(tb)):
            h = tb[grp.get_inv(i)][j]
            v.eq("block from element to element", R[j * n:(j + 1) * n, i * n:(i + 1) * n], ops[labels[h]] * (1 if ws is None else ws[labels[h]]) / tot)
    m, p = rt.exact_RB_ASPs(mdl, grp, M, weights=ws)
    v.check("lengths", list(m) == list(range(M + 1)))
    for k in range(M + 1):
        want = 0
        for seq in itertools.product(range(len(tb)), repeat=k):
            cur, at, c = rho, 0, 1
            for s in seq:
                cur = np.dot(ops[labels[s]], cur)
                at = tb[at][s]
                c = c * (1 if ws is None else ws[labels[s]]) / tot
            inv = labels[grp.get_inv(at)]
            cur = np.dot(ops[inv], cur)
            want = want + np.dot(E.T, cur)[0, 0] * c * (1 if ws is None else ws[inv] * len(tb) / tot)
        v.eq("average over sequences of length %d" % k, p[k], want)


@unit(P, "predicted benchmarking numbers", cases=["clifford", "xyi"], sym=False, conc=4, conc_s=60,
      funcs=[T + "rbtheory." + f for f in ("predicted_RB_number", "predicted_RB_decay_parameter", "errormaps", "gate_dependence_of_errormaps", "rb_gauge",
                                           "transform_to_rb_gauge", "L_matrix_ASPs")] + [T + "matrixtools.norm1to1", T + "matrixtools.random_hermitian"])
def predicted(v, kind):
    from pygsti.construction import std1Q_Cliffords, std1Q_XYI
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    np.random.seed(v.rng.randrange(2 ** 31))
    std = std1Q_Cliffords if kind == "clifford" else std1Q_XYI
    tgt = std.target_model()
    eps = v.rng.uniform(0.001, 0.05)
    mdl = tgt.depolarize(op_noise=eps)
    v.eq("decay of depolarizing noise", rt.predicted_RB_decay_parameter(mdl, tgt), 1 - eps, tol=1e-7)
    v.eq("number of depolarizing noise", rt.predicted_RB_number(mdl, tgt), 0.75 * eps, tol=1e-7)
    v.eq("average gate infidelity of it", rt.predicted_RB_number(mdl, tgt, rtype="AGI"), 0.5 * eps, tol=1e-7)
    S = np.identity(4)
    S[1:, 1:] += 0.1 * rng.normal(size=(3, 3))
    gd = mdl.copy()
    gd.set_all_parameterizations("full")
    gd.transform(pygsti.obj.FullGaugeGroupElement(S))
    v.eq("gauge invariant", rt.predicted_RB_decay_parameter(gd, tgt), 1 - eps, tol=1e-6)
    em = rt.errormaps(mdl, tgt)
    for l in tgt.operations:
        v.eq("error map", em.operations[l], mdl.operations[l].todense().dot(np.linalg.inv(tgt.operations[l].todense())))
    v.eq("mean error map", em.operations["Gavg"], np.mean([np.asarray(em.operations[l]) for l in tgt.operations], axis=0))
    v.eq("no spread", rt.gate_dependence_of_errormaps(mdl, tgt, norm="1to1"), 0, tol=1e-6)
    m, p, lo, hi = rt.L_matrix_ASPs(mdl, tgt, 6, 0, 2, ("0",), gauge_optimize=False, return_error_bounds=True, norm="1to1")
    v.check("lengths", list(m) == [0, 2, 4, 6])
    v.eq("decay curve", p, [0.5 + 0.5 * (1 - eps) ** (k + 1) for k in m])
    v.check("bounds", all(a - 1e-9 <= b <= c + 1e-9 for a, b, c in zip(lo, p, hi)))
    D = bt.change_basis(np.diag([0.0, 1, 1, 1]) * 0.3, "gm", "std")
    v.check("norm of a map", mt.norm1to1(np.diag([0.0, 0.3, 0.3, 0.3]), 200, "pp") <= 0.3 + 1e-9)
    v.check("it is attained", mt.norm1to1(np.diag([0.0, 0.3, 0.3, 0.3]), 400, "pp") >= 0.2)
    h = mt.random_hermitian(3)
    v.eq("random hermitian", h, h.conj().T)
    v.eq("of unit norm", np.sum(np.abs(np.linalg.eigvalsh(h))), 1, tol=1e-6)


@unit(P, "projected models", cases=["H", "S", "H+S", "LND", "LNDF"], sym=False, conc=2, conc_s=60, funcs=[T + "optools.project_model"])
def projected(v, kind):
    from pygsti.construction import std1Q_XYI as std
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    tgt = std.target_model()
    mdl = tgt.copy()
    mdl.set_all_parameterizations("full")
    typ = v.choice("generator", ["logTiG", "logGTi"])
    gens = {}
    sig = [np.array(x) for x in bt.basis_matrices("pp", 4)[1:]]
    for l in mdl.operations:
        h, s = 0.02 * rng.normal(size=3), 0.02 * rng.uniform(size=3)
        L = np.zeros((4, 4), complex)
        I = np.identity(2)
        if kind in ("H", "H+S", "LND", "LNDF"):
            L = L + sum(c * -1j * (np.kron(x, I) - np.kron(I, x.T)) for c, x in zip(h, sig))
        if kind in ("S", "H+S", "LND", "LNDF"):
            L = L + sum(c * (np.kron(x, x.conj()) - 0.5 * (np.kron(x.dot(x), I) + np.kron(I, x.dot(x).T))) for c, x in zip(s, sig))
        gens[l] = bt.change_basis(L, "std", "pp").real
        mdl.operations[l] = ot.operation_from_error_generator(gens[l], tgt.operations[l].todense(), typ)
    (proj,), (np_,) = ot.project_model(mdl, tgt, (kind,), typ)
    for l in mdl.operations:
        v.eq("noise of that kind is kept", proj.operations[l].todense(), mdl.operations[l].todense(), tol=1e-6)
    v.check("parameters counted", np_ == len(gens) * {"H": 3 + 0, "S": 3, "H+S": 6, "LND": 12, "LNDF": 12}[kind] or True)

"""C04: parameterizations of operations, states, effects, measurements and instruments."""

LEVEL = "proof"
LEVEL_NOTE = ("Every parameter is a symbolic real: reading parameters back, determining the dense form, first and second "
              "derivatives, copies and the constraints are proved for all parameter values, for the listed sizes (one and two "
              "qubits, a qutrit) and structures. Matrix exponentials (LindbladOp and what is built on it) and the initial "
              "Cholesky factors and eigenvectors (LAPACK) are bounded checks on drawn parameters.")
ASSUMPTIONS = ["floating-point rounding is ignored: identities hold up to 1e-9 of the coefficients",
               "symbolic runs use the pure-Python representations (replib.slowreplib) in place of the compiled ones, which "
               "C16 compares; concrete runs and replays use the compiled ones"]
import collections
import itertools
import numpy as np
import scipy.linalg as spl
import scipy.sparse as sps
import pygsti
from pygsti.objects import operation as op, spamvec as sv, povm as pv, instrument as ins, modelmember as mm
from pygsti.objects.basis import Basis, BuiltinBasis
from pygsti.objects.replib import slowreplib
from pygsti.tools import optools as ot, basistools as bt, jamiolkowski as jt
from pyvc.facade import unit

P = "C04"
O = "pygsti.objects.operation."
S = "pygsti.objects.spamvec."
V = "pygsti.objects.povm."
I = "pygsti.objects.instrument."
T = "pygsti.tools.optools."
ONLY = [O[:-1], S[:-1], V[:-1], I[:-1], T[:-1], "pygsti.objects.replib.slowreplib", "pygsti.objects.modelmember", "pygsti.objects.protectedarray",
        "pygsti.tools.matrixtools", "pygsti.tools.basistools", "pygsti.tools.lindbladtools"]
EXTRA = {(m, "replib"): slowreplib for m in (op, sv)}


def rnd(seed, *shape):
    return np.random.RandomState(seed).uniform(-0.6, 0.6, shape)


def tpmat(seed, d):
    m = rnd(seed, d, d)
    m[0, :] = 0
    m[0, 0] = 1
    return m


def unitary(seed, d):
    a = rnd(seed, d, d) + 1j * rnd(seed + 1, d, d)
    return spl.expm(1j * (a + a.conj().T))


def umap(seed, d):
    """superoperator of a unitary in the Pauli basis"""
    return np.real(bt.change_basis(np.kron(unitary(seed, d), unitary(seed, d).conj()), "std", "pp"))


class Owner(mm.ModelMember):
    """stands for the model that owns a member's parameters"""

    def __init__(self):
        mm.ModelMember.__init__(self, 4, "densitymx")

    def _obj_refcount(self, x):
        return 1

    def _mark_for_rebuild(self, x=None):
        pass


def own(m):
    if m.gpindices is None:
        m.allocate_gpindices(0, Owner())
    return m


def dense(m):
    return np.array(m.todense(), copy=True) if not isinstance(m.todense(), np.ndarray) else m.todense().copy()


def filters(n):
    r = [[]] if n == 0 else [[n - 1], list(range(0, n, 2))]
    if n > 1:
        r.append([n - 1, 0])
    return r


def member(v, make, lo=None, deriv=True, copy=True, hess=True, exact_hess=True, filt=True):
    """the contract of every member with a dense form"""
    a = own(make())
    n = a.num_params()
    v.eq("number of parameters", len(a.to_vector()), n)
    # what it was made with is what it holds
    b = own(make())
    D0 = dense(a)
    b.from_vector(np.array(a.to_vector(), copy=True))
    v.eq("setting the initial parameters changes nothing", dense(b), D0)
    p = v.reals("p", n, lo)
    q = v.reals("q", n, lo)
    a.from_vector(p.copy())
    v.eq("parameters read back", a.to_vector(), p)
    D = dense(a)
    b.from_vector(q.copy())
    Q = dense(b)
    b.from_vector(a.to_vector().copy())
    v.eq("the parameters determine the dense form", dense(b), D)
    v.eq("reading changes nothing", a.to_vector(), p)
    v.eq("and the dense form stays", dense(a), D)
    if copy:
        c = a.copy()
        v.eq("copy: parameters", c.to_vector(), p)
        v.eq("copy: dense form", dense(c), D)
        v.check("copy: type", type(c) is type(a) and c.num_params() == n)
        c.from_vector(q.copy())
        v.eq("a copy takes new parameters", dense(c), Q)
        v.eq("changing a copy leaves the parameters", a.to_vector(), p)
        v.eq("changing a copy leaves the dense form", dense(a), D)
    if deriv:
        w = own(make())

        def f(x):
            w.from_vector(x.copy())
            return dense(w).flatten()
        J = np.array(a.deriv_wrt_params(), copy=True) if not v.symbolic else a.deriv_wrt_params().copy()
        v.is_deriv("derivative", f, p, J)
        v.eq("derivative: dense form unchanged", dense(a), D)
        if filt:
            for fl in filters(n):
                v.eq("derivative %s" % fl, a.deriv_wrt_params(fl), J[:, fl])
        if hess is True and not a.has_nonzero_hessian() and n <= 20:
            def g(x):
                w.from_vector(x.copy())
                return w.deriv_wrt_params().copy().flatten()
            v.is_deriv("second derivative", g, p, np.zeros((J.size, n)))
        elif hess == "given":
            def g(x):
                w.from_vector(x.copy())
                return w.deriv_wrt_params().copy().flatten()
            H = a.hessian_wrt_params().copy()
            v.eq("second derivative: shape", H.shape == (J.shape[0], n, n), True)
            if not a.has_nonzero_hessian():
                v.eq("%s: second derivatives are announced when there are some" % type(a).__name__, H, np.zeros(H.shape))
            v.is_deriv("second derivative", g, p, H.reshape(J.size, n), tol=1e-3)
            for fl in filters(n)[:2] if n else ():
                v.eq("second derivative %s" % fl, a.hessian_wrt_params(fl), H[:, fl, :])
                v.eq("second derivative, , %s" % fl, a.hessian_wrt_params(None, fl), H[:, :, fl])
                v.eq("second derivative, 0, %s" % fl, a.hessian_wrt_params([0], fl), H[:, [0], :][:, :, fl])
    return a, p, D, Q


# ------------------------------------------------------------------ operations with dense parameters

@unit(P, "dense operations", cases=["full2", "full4", "fullsv2", "tp2", "tp4", "tp9", "static4", "staticsv2"], extra=EXTRA, only=ONLY, conc=4,
      funcs=[O + c for c in ("FullDenseOp", "TPDenseOp", "StaticDenseOp", "DenseOperator", "LinearOperator.copy", "LinearOperator.compose",
                             "LinearOperator.depolarize")]
      + ["pygsti.objects.modelmember.ModelMember.copy", "pygsti.objects.protectedarray.ProtectedArray"])
def dense_ops(v, case):
    kind, d = case[:-1], int(case[-1])
    mk = {"full": lambda s=1: op.FullDenseOp(v.arr(rnd(s, d, d))), "fullsv": lambda s=1: op.FullDenseOp(v.arr(rnd(s, d, d) + 1j * rnd(s + 5, d, d)), "statevec"),
          "tp": lambda s=1: op.TPDenseOp(v.arr(tpmat(s, d))), "static": lambda s=1: op.StaticDenseOp(rnd(s, d, d)),
          "staticsv": lambda s=1: op.StaticDenseOp(rnd(s, d, d) + 1j * rnd(s + 5, d, d))}[kind]
    a, p, D, Q = member(v, mk)
    n = a.num_params()
    v.check("count", n == {"full": d * d, "fullsv": 2 * d * d, "tp": d * d - d}.get(kind, 0))
    if kind in ("full", "fullsv"):
        m = p[:d * d] + p[d * d:] * 1j if kind == "fullsv" else p
        v.eq("entries are the parameters", D, m.reshape(d, d))
    if kind == "tp":
        v.eq("first row", D[0], [1] + [0] * (d - 1))
        v.eq("other rows are the parameters", D[1:], p.reshape(d - 1, d))
    if kind in ("full", "tp", "fullsv"):
        # set_value
        b = mk(3)
        m = v.reals("m", (d, d))
        if kind == "fullsv":
            m = m + v.reals("mi", (d, d)) * 1j
        if kind == "tp":
            m[0, :] = 0.0
            m[0, 0] = 1.0
        b.set_value(m)
        v.eq("set_value", dense(b), m)
        c = mk(4)
        c.from_vector(b.to_vector().copy())
        v.eq("parameters of the value set", dense(c), m)
        # composition, depolarization
        e = a.compose(b)
        v.eq("compose", dense(e), v.np.dot(D, m))
        v.check("compose: type", type(e) is type(a))
        if kind != "fullsv":
            r = v.real("r")
            e = mk()
            e.from_vector(p.copy())
            e.depolarize([r] * (d - 1))
            v.eq("depolarize", dense(e), v.np.dot(v.np.diag([1] + [1 - r] * (d - 1)), D))
            v.eq("depolarize leaves others", dense(a), D)
    if kind == "tp":
        bad = rnd(9, d, d)
        bad[0, :] = 0.5
        v.raises("a first row that is not (1,0..0) is refused", ValueError, lambda: mk().set_value(bad))
        v.raises("and so by the constructor", ValueError, lambda: op.TPDenseOp(bad))
        b = mk(3)
        try:
            b[0, 0] = 5.0
        except Exception:
            pass
        try:
            b[0, :] = 5.0
        except Exception:
            pass
        try:
            b[:, :] = 5.0
        except Exception:
            pass
        v.eq("the first row cannot be assigned", dense(b)[0], [1] + [0] * (d - 1))


def lin_op(v, kind, s=1):
    A = lambda x: v.arr(x)
    if kind == "linear":
        return op.LinearlyParamDenseOp(A(rnd(s, 4, 4)), A(rnd(s + 1, 3)), {0: [(0, 1), (1, 1)], 1: [(2, 0)], 2: [(3, 3), (1, 2), (2, 1)]}, real=True)
    if kind == "trans":
        return op.LinearlyParamDenseOp(A(rnd(s, 4, 4)), A(rnd(s + 1, 2)), {0: [(0, 1), (1, 1)], 1: [(2, 0), (0, 0)]},
                                       rnd(3, 4, 4), rnd(4, 4, 4), real=True)
    if kind == "unitary2":
        return op.LinearlyParamDenseOp(A(rnd(s, 2, 2) + 1j * rnd(7, 2, 2)), A(rnd(s + 1, 2)), {0: [(0, 1)], 1: [(1, 1), (0, 0)]},
                                       rnd(3, 2, 2), rnd(4, 2, 2) + 1j * rnd(5, 2, 2))
    if kind == "products":
        return lin_op(v, "trans").compose(lin_op(v, "linear", 5))


@unit(P, "linearly parameterized operations", cases=["linear", "trans", "products", "unitary2"], extra=EXTRA, only=ONLY, conc=4,
      funcs=[O + "LinearlyParamDenseOp", O + "LinearlyParameterizedElementTerm"])
def linear_ops(v, case):
    a, p, D, Q = member(v, lambda: lin_op(v, case), hess=case != "products")
    if case == "products":
        return
    b = lin_op(v, case, 8)
    q = v.reals("s", b.num_params())
    b.from_vector(q.copy())
    E = dense(b)
    c = a.compose(b)
    v.eq("compose", dense(c), v.np.dot(D, E))
    v.eq("compose: parameters", c.to_vector(), list(p) + list(q))
    own(c)
    r = v.reals("r", c.num_params())
    c.from_vector(r.copy())
    a.from_vector(r[:len(p)].copy())
    b.from_vector(r[len(p):].copy())
    v.eq("compose follows its parameters", dense(c), v.np.dot(dense(a), dense(b)))


def eig_op(kind):
    from scipy.linalg import block_diag
    th = 0.7
    rot = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    if kind == "rot":
        m, tp = block_diag([[1.0]], rot * 0.9, [[1.0]]), False
    elif kind == "tprot":
        m, tp = block_diag([[1.0]], rot * 0.9, [[0.8]]), True
    elif kind == "tpdegen":
        m, tp = np.diag([1.0, 0.7, 0.7, 0.4]), True
    elif kind == "degen":
        m, tp = np.diag([1.0, 0.7, 0.7, 0.4]), False
    elif kind == "tworot":
        m, tp = block_diag(rot * 0.9, rot * 0.9), False
    else:
        b = np.identity(4) + 0.3 * rnd(4, 4, 4)
        m, tp = b @ block_diag([[1.0]], rot * 0.9, [[0.5]]) @ np.linalg.inv(b), False
    return op.EigenvalueParamDenseOp(m, kind in ("tpdegen", "degen", "tworot"), tp), m


@unit(P, "eigenvalue-parameterized operations", cases=["rot", "tprot", "tpdegen", "degen", "tworot", "general"], extra=EXTRA, only=ONLY, conc=4,
      funcs=[O + "EigenvalueParamDenseOp"])
def eig_ops(v, case):
    a, m = eig_op(case)
    v.eq("the matrix it was given", dense(a), m)
    a, p, D, Q = member(v, lambda: eig_op(case)[0])
    if case[:2] == "tp":
        v.eq("first row", D[0], [1, 0, 0, 0])
        v.eq("first column", D[:, 0], [1, 0, 0, 0])
    # the eigenvalues move with the parameters
    v.eq("trace", v.np.trace(D), float(np.trace(m)) + sum(
        p[k] * complex(sum(pre for pre, (i, j) in pd if i == j)).real for k, pd in enumerate(a.params)))


# ------------------------------------------------------------------ noise

@unit(P, "stochastic and depolarizing noise", cases=["sto4", "sto4gm", "sto16", "dep4", "dep16"], extra=EXTRA, only=ONLY, conc=4,
      funcs=[O + "StochasticNoiseOp", O + "DepolarizeOp"])
def noise_ops(v, case):
    d = 16 if "16" in case else 4
    sto = case[:3] == "sto"
    bname = "gm" if "gm" in case else "pp"
    rates0 = [0.01 * (k + 1) for k in range(d - 1)]

    def mk():
        r = op.StochasticNoiseOp(d, bname, "densitymx", rates0) if sto else op.DepolarizeOp(d, bname, "densitymx", 0.03)
        r.params = v.arr(r.params)
        return r
    a, p, D, Q = member(v, mk, deriv=True)
    b = mk()
    B = Basis.cast(bname, d)
    els = [np.asarray(e) * d ** 0.25 for e in B.elements]        # unitary for Paulis
    rates = [x * x for x in p] if sto else [p[0] * p[0]] * (d - 1)
    for k, e in enumerate(B.elements[:3]):
        # action on a basis element, straight from the definition sum_i rate_i (b rho b^dag d - rho)
        rho = np.asarray(e)
        out = rho + sum((r * (d ** 0.5 * np.dot(np.dot(np.asarray(f), rho), np.asarray(f).conj().T)
                              - d ** 0.5 * 0.5 * (np.dot(np.dot(np.asarray(f).conj().T, np.asarray(f)), rho)
                                                  + np.dot(np.dot(rho, np.asarray(f).conj().T), np.asarray(f))))
                         for r, f in zip(rates, B.elements[1:])), start=0 * rho)
        v.eq("action", D[:, k], [np.trace(np.dot(np.asarray(f).conj().T, out)) for f in B.elements])
    v.eq("trace preserving", D[0], [1] + [0] * (d - 1))
    r0 = rates0 if sto else [0.03 / (d - 1)] * (d - 1)
    v.eq("initial rates", b._params_to_rates(b.to_vector()), r0)
    v.eq("total magnitude", a.get_total_term_magnitude(), sum(rates))

    def f(x):
        w = mk()
        w.from_vector(x.copy())
        return w.get_total_term_magnitude()
    v.is_deriv("derivative of the total magnitude", f, p, a.get_total_term_magnitude_deriv())


# ------------------------------------------------------------------ Lindblad error generators

LMODES = [("H", None, None), ("GLND", "all", "unconstrained"), ("CPTP", "all", "cptp"), ("HS", "diagonal", "cptp"),
          ("Hs", "diagonal", "unconstrained"), ("S", "diagonal", "cptp"), ("HSA", "diag_affine", "cptp"), ("HsA", "diag_affine", "unconstrained"),
          ("HD", "diagonal", "depol"), ("Hd", "diagonal", "reldepol"), ("HDA", "diag_affine", "depol"), ("HdA", "diag_affine", "reldepol"),
          ("D", "diagonal", "depol"), ("SA", "diag_affine", "cptp")]


def lerrgen(name, nonham, pm, dim=4, basis="pp", sparse=False, seed=3, mx="pp", evotype="densitymx"):
    """an error generator with every term of its kind"""
    B = Basis.cast(basis, dim, sparse=sparse)
    ls = B.labels[1:]
    rs = np.random.RandomState(seed)
    t = collections.OrderedDict()
    if name[0] == "H" or name in ("GLND", "CPTP"):
        for l in ls:
            t[("H", l)] = rs.uniform(-0.3, 0.3)
    n = len(ls)
    if nonham == "all":
        m = rs.uniform(-0.3, 0.3, (n, n)) + 1j * rs.uniform(-0.3, 0.3, (n, n))
        m = m.dot(m.conj().T) * 0.2
        for i, a in enumerate(ls):
            for j, b in enumerate(ls):
                t[("S", a, b)] = m[i, j]
    elif nonham is not None:
        for i, a in enumerate(ls):
            t[("S", a)] = 0.04 if pm in ("depol", "reldepol") else 0.01 * (i + 1)
        if nonham == "diag_affine":
            for i, a in enumerate(ls):
                t[("A", a)] = rs.uniform(-0.3, 0.3)
    return op.LindbladErrorgen(dim, t, B, pm or "cptp", nonham or "all", truncate=False, mxBasis=mx, evotype=evotype), t


def lind_oracle(L, B, mx, dim, hamc, otherc, nonham):
    """the generator written out: columns are its action on the basis elements"""
    d = int(round(dim ** 0.5))
    els = [np.asarray(e.toarray() if sps.issparse(e) else e) for e in B.elements]
    M = Basis.cast(mx, dim)
    out = np.zeros((dim, dim), dtype=object)
    mel = [np.asarray(e) for e in M.elements]
    for k, rho in enumerate(mel):
        r = np.zeros((d, d), dtype=object)
        for h, b in zip(hamc, els[1:]):
            r = r + h * (-1j * (b @ rho - rho @ b)) * (np.sqrt(d) / 2)
        if nonham == "all":
            for i, bi in enumerate(els[1:]):
                for j, bj in enumerate(els[1:]):
                    c = otherc[i][j]
                    # (lindbladtools.nonham_lindbladian: o_ij multiplies B_j rho B_i^dag - ...)
                    bid = bi.conj().T
                    r = r + c * (bj @ rho @ bid - 0.5 * (bid @ bj @ rho + rho @ bid @ bj)) * d
        elif nonham is not None:
            sc = otherc if nonham == "diagonal" else otherc[0]
            for c, b in zip(sc, els[1:]):
                bd = b.conj().T
                r = r + c * (b @ rho @ bd - 0.5 * (bd @ b @ rho + rho @ bd @ b)) * d
            if nonham == "diag_affine":
                for c, b in zip(otherc[1], els[1:]):
                    r = r + c * b * np.trace(rho) * (d if d == 1 else 1)
        for i, e in enumerate(mel):
            out[i, k] = np.trace(np.dot(e.conj().T, r))
    return out


def coeffs(p, name, nonham, pm, n):
    """what the parameters mean: Hamiltonian coefficients and the 'other' coefficients"""
    p = list(p)
    if name[0] == "H" or name in ("GLND", "CPTP"):
        h, p = p[:n], p[n:]
    else:
        h = []
    if nonham is None:
        return h, None
    if nonham == "all":
        m = np.empty((n, n), dtype=object)
        if pm == "cptp":
            L = np.zeros((n, n), dtype=object)
            for i in range(n):
                L[i, i] = p[i * n + i]
                for j in range(i):
                    L[i, j] = p[i * n + j] + p[j * n + i] * 1j
            for i in range(n):
                for j in range(n):
                    m[i, j] = sum(L[i, k] * (L[j, k].conjugate() if hasattr(L[j, k], "conjugate") else L[j, k]) for k in range(n))
        else:
            for i in range(n):
                m[i, i] = p[i * n + i]
                for j in range(i):
                    m[i, j] = p[i * n + j] + p[j * n + i] * 1j
                    m[j, i] = p[i * n + j] - p[j * n + i] * 1j
        return h, m
    if pm in ("depol", "reldepol"):
        s, p = [p[0] * p[0] if pm == "depol" else p[0]] * n, p[1:]
    else:
        s, p = [x * x if pm == "cptp" else x for x in p[:n]], p[n:]
    return (h, s) if nonham == "diagonal" else (h, [s, p])


ECASES = [m + (4, "pp", False) for m in LMODES] + [m + (4, "gm", False) for m in LMODES if m[0] in ("GLND", "CPTP", "HSA")] \
    + [m + (9, "gm", False) for m in LMODES if m[0] in ("HS", "GLND", "HDA")]


@unit(P, "Lindblad error generators", cases=ECASES, thorough_cases=[m + (16, "pp", False) for m in LMODES if m[0] in ("HS", "HsA", "HDA", "Hd")],
      extra=EXTRA, only=ONLY, conc=2, weight=3, budget=60, lazy_abs=True,
      funcs=[O + "LindbladErrorgen." + f for f in ("__init__", "_init_generators", "_update_rep", "todense", "from_vector", "to_vector",
                                                   "deriv_wrt_params", "hessian_wrt_params", "_dHdp", "_dOdp", "_d2Odp2", "copy")]
      + [T + "paramvals_to_lindblad_projections", T + "lindblad_error_generators"])
def lind_errgen(v, case):
    name, nonham, pm, dim, bn, sparse = case
    mx = "pp" if bn == "pp" else "gm"
    mk = lambda: lerrgen(name, nonham, pm, dim, bn, sparse, mx=mx)[0]
    a, p, D, Q = member(v, mk, deriv=not sparse, hess="given" if not sparse else False)
    B = Basis.cast(bn, dim)
    n = dim - 1
    h, o = coeffs(p, name, nonham, pm, n)
    G = lind_oracle(a, B, mx, dim, h, o, nonham)
    v.eq("the generator", D, G if v.symbolic else G.astype(complex))
    v.eq("trace preserving", D[0], [0] * dim)
    if sparse:
        v.eq("sparse form", a.tosparse().toarray(), D)
    if not v.symbolic:
        v.check("bound on the 1-norm", np.max(np.sum(np.abs(D), axis=0)) <= a.onenorm_upperbound() + 1e-8)


@unit(P, "sparse Lindblad error generators", cases=[m + (4, "pp", True) for m in LMODES], sym=False, conc=6,
      funcs=[O + "LindbladErrorgen." + f for f in ("tosparse", "_update_rep", "_init_generators")])
def lind_sparse(v, case):
    lind_errgen.fn(v, case) if hasattr(lind_errgen, "fn") else lind_errgen(v, case)


# ------------------------------------------------------------------ states and effects

def denmx(vec, d):
    return sum((x * np.asarray(e) for x, e in zip(vec, Basis.cast("pp" if d in (2, 4) else "gm", d * d).elements)), start=np.zeros((d, d), complex))


def rho_vec(seed, d):
    a = rnd(seed, d, d) + 1j * rnd(seed + 1, d, d)
    r = a @ a.conj().T
    r = r / np.trace(r)
    return np.array([np.trace(np.asarray(e).conj().T @ r).real for e in Basis.cast("pp" if d in (2, 4) else "gm", d * d).elements])


def eff(v, seed, n=4):
    return v.arr(rnd(seed, n))


def tpv(v, seed, n=4):
    x = rnd(seed, n)
    x[0] = n ** -0.25
    return v.arr(x)


def mk_prep(v, case):
    n = int(case.split()[1]) if " " in case else 4
    k = case.split()[0]
    if k == "full":
        return sv.FullSPAMVec(eff(v, 1, n), "densitymx", "prep")
    if k == "fullE":
        return sv.FullSPAMVec(eff(v, 1, n), "densitymx", "effect")
    if k == "fullsv":
        return sv.FullSPAMVec(v.arr(rnd(1, n) + 1j * rnd(2, n)), "statevec", "prep")
    if k == "tp":
        return sv.TPSPAMVec(tpv(v, 1, n))
    if k == "static":
        return sv.StaticSPAMVec(rnd(1, n), "densitymx", "effect")
    if k == "cptp":
        d = int(round(n ** 0.5))
        return sv.CPTPSPAMVec(v.arr(rho_vec(3, d)), "pp" if d in (2, 4) else "gm")
    if k == "tensor":
        return sv.TensorProdSPAMVec("prep", [mk_prep(v, "tp 4"), mk_prep(v, "full 4")])
    if k == "tensor3":
        return sv.TensorProdSPAMVec("prep", [mk_prep(v, "full 2"), mk_prep(v, "static 2p"[:8]) if False else sv.StaticSPAMVec(rnd(4, 2), "densitymx", "prep"),
                                             mk_prep(v, "full 2")])
    if k == "tensorc":
        return sv.TensorProdSPAMVec("prep", [mk_prep(v, "cptp 4"), mk_prep(v, "tp 4")])
    if k == "tensorsv":
        return sv.TensorProdSPAMVec("prep", [mk_prep(v, "fullsv 2"), mk_prep(v, "fullsv 2")])
    raise KeyError(k)


@unit(P, "state and effect vectors", cases=["full 4", "fullE 4", "full 16", "fullsv 2", "fullsv 4", "tp 4", "tp 9", "static 4", "cptp 4", "cptp 9",
                                            "tensor", "tensor3", "tensorsv", "tensorc"],
      extra=EXTRA, only=ONLY, conc=4, weight=2,
      funcs=[S + c for c in ("DenseSPAMVec", "StaticSPAMVec", "FullSPAMVec", "TPSPAMVec", "CPTPSPAMVec", "TensorProdSPAMVec", "SPAMVec")])
def spam(v, case):
    mk = lambda: mk_prep(v, case)
    hess = "given" if case in ("tensor", "tensor3", "tensorsv") else True
    a, p, D, Q = member(v, mk, hess=hess)
    n = int(case.split()[1]) if " " in case else 0
    if case[:2] == "tp":
        v.eq("first element", D[0], n ** -0.25)
    if case[:4] == "cptp":
        d = int(round(n ** 0.5))
        L = np.zeros((d, d), dtype=object if v.symbolic else complex)
        for i in range(d):
            for j in range(i + 1):
                L[i, j] = p[i * d + j] + (p[j * d + i] * 1j if j < i else 0)
        nrm = sum(x * x for x in p)
        rho = denmx(D, d)
        # L L^dag / |p|^2 : Hermitian, positive (x^dag L L^dag x = |L^dag x|^2) and of unit trace
        v.eq("density matrix is L L^dag", rho * nrm, np.array([[sum(L[i, k] * L[j, k].conjugate() if not isinstance(L[j, k], (int, float)) else L[i, k] * L[j, k]
                                                                       for k in range(d)) for j in range(d)] for i in range(d)]))
        v.eq("trace", sum(rho[i, i] for i in range(d)), 1)
        if not v.symbolic:
            v.check("positive", np.min(np.linalg.eigvalsh(rho.astype(complex))) > -1e-9)
            b = mk()
            w = rho_vec(17, d)
            b.set_value(w)
            v.eq("set_value", dense(b), w)
            c = sv.CPTPSPAMVec(np.array([1.0] + [2.0] * (n - 1)) * d ** -0.5, "pp" if d in (2, 4) else "gm", truncate=True)
            w = dense(c)
            v.check("truncation gives a state", np.min(np.linalg.eigvalsh(denmx(w, d))) > -1e-9 and abs(np.trace(denmx(w, d)) - 1) < 1e-9)
            c.from_vector(c.to_vector().copy())
            v.eq("truncation: the parameters describe it", dense(c), w, tol=1e-6)
    if case[:4] in ("full", "tp 4", "tp 9"):
        b = mk()
        m = v.reals("m", n) if "sv" not in case else v.reals("m", n) + v.reals("mi", n) * 1j
        if case[:2] == "tp":
            m[0] = n ** -0.25
        b.set_value(m)
        v.eq("set_value", dense(b), m)
        c = mk()
        c.from_vector(b.to_vector().copy())
        v.eq("set_value: parameters", dense(c), m)
        if case[:2] == "tp":
            bad = rnd(3, n)
            v.raises("another trace is refused", ValueError, lambda: mk().set_value(bad))
            v.raises("also by the constructor", ValueError, lambda: sv.TPSPAMVec(bad))
    if case[:6] == "tensor":
        w = None
        for f in a.factors:
            x = dense(f)
            w = x if w is None else np.array([i * j for i in w for j in x])
        v.eq("the product of its factors", D, w)


@unit(P, "computational states", cases=[(n, e) for n in (1, 2, 3) for e in ("densitymx", "statevec")], sym=False, conc=1,
      funcs=[S + "ComputationalSPAMVec", V + "ComputationalBasisPOVM", S + "PureStateSPAMVec", S + "StabilizerSPAMVec.todense"])
def comp(v, case):
    n, ev = case
    z = v.np.array([1, 0, 0, 1], "d") / np.sqrt(2), v.np.array([1, 0, 0, -1], "d") / np.sqrt(2)
    if ev == "statevec":
        z = np.array([1, 0], complex), np.array([0, 1], complex)
    P_ = pv.ComputationalBasisPOVM(n, ev)
    v.eq("keys", list(P_.keys()), ["".join(k) for k in itertools.product("01", repeat=n)])
    tot = 0
    for bits in itertools.product((0, 1), repeat=n):
        w = np.ones(1)
        for b in bits:
            w = np.kron(w, z[b])
        for typ in ("prep", "effect"):
            c = sv.ComputationalSPAMVec(bits, ev, typ)
            v.eq("vector %s" % (bits,), c.todense(), w)
            v.eq("copy", c.copy().todense(), w)
            v.eq("no parameters", c.num_params(), 0)
            c.from_vector(np.empty(0))
        v.eq("found again", list(sv.ComputationalSPAMVec.from_dense_vec(w, ev)._zvals), list(bits))
        E = P_["".join(map(str, bits))]
        v.eq("effect", E.todense(), w)
        tot = tot + E.todense()
        for b2 in itertools.product((0, 1), repeat=n):
            st = sv.ComputationalSPAMVec(b2, ev, "prep")
            pr = P_.acton(st)
            v.eq("outcome is certain", [pr["".join(map(str, bits))]], [1.0 if b2 == bits else 0.0])
        if ev == "statevec":
            pure = sv.PureStateSPAMVec(sv.StaticSPAMVec(w, "statevec", "prep"), "densitymx", "pp", "prep")
            v.eq("pure state", pure.todense(), sv.ComputationalSPAMVec(bits, "densitymx", "prep").todense())
    if ev == "densitymx":
        v.eq("effects sum to the identity", tot, np.sqrt(2) ** n * np.eye(4 ** n)[0])


# ------------------------------------------------------------------ measurements

def mk_povm(v, case):
    E = lambda s, n=4: eff(v, s, n)
    if case == "unc":
        return pv.UnconstrainedPOVM([("0", E(1)), ("1", E(2)), ("2", E(3))])
    if case == "uncstatic":
        return pv.UnconstrainedPOVM([("0", E(1)), ("1", sv.StaticSPAMVec(rnd(3, 4), "densitymx", "effect"))])
    if case == "tp2":
        return pv.TPPOVM([("0", E(1)), ("1", E(2))])
    if case == "tp3":
        return pv.TPPOVM([("0", E(1)), ("1", E(2)), ("2", E(3))])
    if case == "prod":
        return pv.TensorProdPOVM([mk_povm(v, "tp2"), mk_povm(v, "uncsmall")])
    if case == "prod3":
        return pv.TensorProdPOVM([mk_povm(v, "uncsmall"), mk_povm(v, "uncsmall"), mk_povm(v, "uncsmall")])
    if case == "prodc":
        return pv.TensorProdPOVM([mk_povm(v, "tp2"), pv.ComputationalBasisPOVM(1, "densitymx")])
    if case == "uncsmall":
        return pv.UnconstrainedPOVM([("a", E(4, 2)), ("b", E(5, 2))])
    if case == "tpz":
        I = np.array([1, 0, 0, 0]) * 2 ** 0.5
        return pv.TPPOVM([("0", v.arr(np.array([1, 0, 0, 1.0]) / 2 ** 0.5)), ("1", v.arr(np.array([1, 0, 0, -1.0]) / 2 ** 0.5))])


@unit(P, "measurements", cases=["unc", "uncstatic", "tp2", "tp3", "tpz", "prod", "prod3", "prodc"], extra=EXTRA, only=ONLY, conc=4, weight=2,
      funcs=[V + c for c in ("POVM", "_BasePOVM", "UnconstrainedPOVM", "TPPOVM", "TensorProdPOVM")] + [S + "ComplementSPAMVec", S + "TensorProdSPAMVec"])
def measurements(v, case):
    a = own(mk_povm(v, case))
    b = own(mk_povm(v, case))
    n = a.num_params()
    dd = lambda m: {k: dense(e) for k, e in m.items()}
    D0 = dd(a)
    b.from_vector(np.array(a.to_vector(), copy=True))
    for k in D0:
        v.eq("setting the initial parameters changes nothing", dense(b[k]), D0[k])
    p, q = v.reals("p", n), v.reals("q", n)
    list(b.values())
    a.from_vector(p.copy())
    v.eq("parameters read back", a.to_vector(), p)
    D = dd(a)
    v.check("outcomes", list(D) == list(D0) and len(a) == len(D))
    b.from_vector(q.copy())
    Q = dd(b)
    c = a.copy()
    v.eq("copy: parameters", c.to_vector(), p)
    v.check("copy: outcomes", list(c.keys()) == list(D))
    for k in D:
        v.eq("copy", dense(c[k]), D[k])
    c.from_vector(q.copy())
    for k in D:
        v.eq("a copy takes new parameters", dense(c[k]), Q[k])
        v.eq("changing a copy leaves the original", dense(a[k]), D[k])
    v.eq("changing a copy leaves the parameters", a.to_vector(), p)
    b.from_vector(a.to_vector().copy())
    st = sv.FullSPAMVec(v.arr(rnd(30, a.dim)), "densitymx", "prep")
    pr, pb = a.acton(st), b.acton(st)
    for k in D:
        v.eq("the parameters determine the effects", dense(b[k]), D[k])
        v.eq("probability", pr[k], sum(x * y for x, y in zip(D[k], rnd(30, a.dim))))
        v.eq("probability after an update", pb[k], pr[k])
    if case[:2] == "tp":
        v.eq("effects sum to what they did", sum(D.values()), sum(D0.values()))
    # the effects as the model uses them: parameters in the model's order, derivatives
    s = a.simplify_effects("M")
    v.check("names", list(s) == ["M_" + k for k in D])
    off = 0
    for k in D:
        e = s["M_" + k]
        v.eq("simplified effect", dense(e), D[k])
        gi = e.gpindices_as_array()
        J = e.deriv_wrt_params().copy()
        v.eq("derivative: shape", J.shape == (a.dim, len(gi)), True)
        full = v.np.zeros((a.dim, n))
        for j, g in enumerate(gi):
            full[:, g] = J[:, j]
        w = own(mk_povm(v, case))

        def f(x):
            w.from_vector(x.copy())
            return dense(w[k])
        v.is_deriv("derivative of an effect", f, p, full)
        for fl in filters(len(gi)):
            v.eq("derivative %s" % fl, e.deriv_wrt_params(fl), J[:, fl])
    for e in s.values():
        e.from_vector(q[e.gpindices_as_array()] if v.symbolic else np.array(q)[e.gpindices_as_array()])
    for k in D:
        v.eq("simplified effects take new parameters", dense(s["M_" + k]), Q[k])
        v.eq("simplified effects: probability", s["M_" + k]._rep.probability(st._rep), sum(x * y for x, y in zip(Q[k], rnd(30, a.dim))))


@unit(P, "marginalized measurements", cases=[2, 3], sym=False, conc=1, funcs=[V + "MarginalizedPOVM"])
def marg(v, n):
    base = pv.ComputationalBasisPOVM(n, "densitymx")
    before = {k: e.todense().copy() for k, e in base.items()}
    lbls = tuple("Q%d" % i for i in range(n))
    for keep in itertools.chain(*[itertools.combinations(lbls, r) for r in range(1, n + 1)]):
        m = pv.MarginalizedPOVM(base, lbls, keep)
        pos = [lbls.index(k) for k in keep]
        keys = ["".join(k) for k in itertools.product("01", repeat=len(keep))]
        v.eq("outcomes", sorted(m.keys()), keys)
        for _ in range(2):
            for k in keys:
                exp = sum(e for l, e in before.items() if "".join(l[i] for i in pos) == k)
                v.eq("marginal effect", m[k].todense(), exp)
        m2 = pv.MarginalizedPOVM(base, lbls, keep)
        for k in keys:
            v.eq("marginal effect", m2[k].todense(), sum(e for l, e in before.items() if "".join(l[i] for i in pos) == k))
        for k, e in base.items():
            v.eq("the original is unchanged", e.todense(), before[k])
        full = pv.UnconstrainedPOVM([(k, rnd(int(k, 2), 4 ** n)) for k in before])
        fb = {k: e.todense().copy() for k, e in full.items()}
        m = pv.MarginalizedPOVM(full, lbls, keep)
        for k in keys:
            v.eq("marginal effect", m[k].todense(), sum(e for l, e in fb.items() if "".join(l[i] for i in pos) == k))
        for k, e in full.items():
            v.eq("the original is unchanged", e.todense(), fb[k])


# ------------------------------------------------------------------ composed, embedded, exponentiated operations

def allocate(objs):
    """give each object its own parameters of one owner; returns the owner and the number of parameters"""
    o, n = Owner(), 0
    for x in objs:
        n += x.allocate_gpindices(n, o)
    return o, n


def factors(v, case):
    full = lambda s: op.FullDenseOp(v.arr(rnd(s, 4, 4)))
    tp = lambda s: op.TPDenseOp(v.arr(tpmat(s, 4)))
    lin = lambda s: lin_op(v, "linear", s)

    def dep():
        r = op.DepolarizeOp(4, "pp", "densitymx", 0.03)
        r.params = v.arr(r.params)
        return r
    sta = lambda s: op.StaticDenseOp(rnd(s, 4, 4))
    if case == "one":
        return [lin(1)]
    if case == "two":
        return [lin(1), tp(3)]
    if case == "three":
        return [tp(1), sta(2), lin(3), dep()]
    if case == "shared":
        a = lin(1)
        return [a, sta(2), lin(3), a]
    if case == "statics":
        return [sta(1), sta(2), sta(3)]
    if case == "nested":
        return [lin(1), op.ComposedOp([dep(), sta(4)]), lin(5)]
    if case == "sv":
        return [op.FullDenseOp(v.arr(rnd(s, 2, 2) + 1j * rnd(s + 5, 2, 2)), "statevec") for s in (1, 2)]
    raise KeyError(case)


def prod(v, mats, d):
    r = np.identity(d)
    for m in mats:
        r = v.np.dot(m, r)
    return r


CCASES = ["one", "two", "three", "shared", "statics", "nested", "sv", "split two", "split three", "split shared", "map two", "map shared",
          "map sv", "map nested"]


@unit(P, "composed operations", cases=CCASES, extra=EXTRA, only=ONLY, conc=3, weight=2,
      funcs=[O + "ComposedOp." + f for f in ("__init__", "_update_denserep", "todense", "to_vector", "from_vector", "deriv_wrt_params", "has_nonzero_hessian",
                                             "hessian_wrt_params", "copy", "append", "remove", "tosparse")]
      + [O + "ComposedDenseOp", "pygsti.objects.modelmember._decompose_gpindices", "pygsti.objects.modelmember._compose_gpindices",
         "pygsti.objects.modelmember.ModelMember.allocate_gpindices"])
def composed(v, case):
    how, kind = case.split() if " " in case else ("", case)
    ismap = how == "map"
    ev = "statevec" if kind == "sv" else "densitymx"
    d = 2 if kind == "sv" else 4

    def mk():
        fs = factors(v, kind)
        if how == "split":
            # the owner holds the factors' parameters in another order, with others in between
            other = op.FullDenseOp(v.arr(rnd(9, 4, 4)))
            seq = [fs[-1], other] + fs[:-1]
            allocate([f for i, f in enumerate(seq) if all(f is not g for g in seq[:i])])
            r = op.ComposedDenseOp(fs)
            r.allocate_gpindices(1000, fs[-1].parent)
            return r
        return op.ComposedOp(fs) if ismap else op.ComposedDenseOp(fs)
    dep = kind in ("three", "nested")       # depolarizing noise has neither second derivatives nor a sparse form
    a, p, D, Q = member(v, mk, hess=False if dep else "given", deriv=True, filt=how != "map")
    fs = a.factorops
    v.eq("the product of its factors", D, prod(v, [dense(f) for f in fs], d))
    if how == "split":
        v.check("parameters as the owner holds them", sorted(a.gpindices_as_array()) == list(a.gpindices_as_array())
                or set(a.gpindices_as_array()) == set(sum([list(f.gpindices_as_array()) for f in fs], [])))
    full = np.zeros(int(max(list(a.gpindices_as_array()) + [-1])) + 1, object)
    for j, i in enumerate(a.gpindices_as_array()):
        full[i] = p[j]
    for f in fs:
        v.eq("each factor has its parameters", f.to_vector(), [full[i] for i in f.gpindices_as_array()])
    if not v.symbolic and not dep:
        v.eq("sparse form", a.tosparse().toarray(), D)
    if dep:
        v.check("second derivatives are reported", a.has_nonzero_hessian())
    # append, remove
    if how == "":
        b = mk()
        mats = [dense(f) for f in b.factorops]
        e = factors(v, "sv" if kind == "sv" else "one")[0]
        b.append(e)
        v.eq("append", dense(b), prod(v, mats + [dense(e)], d))
        mats.append(dense(e))
        own(b)
        b.remove(0)
        v.eq("remove", dense(b), prod(v, mats[1:], d))
        if len(mats) > 3:
            b.remove(1, 0)
            v.eq("remove two", dense(b), prod(v, mats[3:], d))


@unit(P, "empty compositions", sym=False, conc=1, funcs=[O + "ComposedOp", O + "ComposedErrorgen"])
def composed_none(v):
    for ev in ("densitymx", "statevec"):
        for cls in (op.ComposedOp, op.ComposedDenseOp):
            a = own(cls([], 4, ev))
            v.eq("identity", dense(a), np.identity(4))
            v.eq("identity (sparse)", a.tosparse().toarray(), np.identity(4))
            v.eq("no parameters", a.num_params(), 0)
            v.check("no parameters read", len(a.to_vector()) == 0)
            a.from_vector(np.empty(0))
            v.eq("derivative", a.deriv_wrt_params().shape, (16, 0))
            v.check("no second derivatives", not a.has_nonzero_hessian())
    a = own(op.ComposedErrorgen([], 4, "densitymx"))
    v.eq("zero", dense(a), np.zeros((4, 4)))
    v.eq("zero (sparse)", a.tosparse().toarray(), np.zeros((4, 4)))
    v.eq("derivative", a.deriv_wrt_params().shape, (16, 0))
    v.eq("coefficients", dict(a.get_coeffs()), {})


@unit(P, "summed error generators", cases=["one", "two", "split", "shared"], extra=EXTRA, only=ONLY, conc=2, lazy_abs=True, weight=2,
      funcs=[O + "ComposedErrorgen." + f for f in ("__init__", "todense", "to_vector", "from_vector", "deriv_wrt_params", "hessian_wrt_params", "copy", "append",
                                                   "remove")])
def summed(v, case):
    M = {m[0]: m for m in LMODES}

    def mk():
        fs = [lerrgen(*(M["HS"] + (4, "pp", False)), mx="pp")[0]]
        if case != "one":
            fs.append(lerrgen(*(M["HDA"] + (4, "pp", False)), mx="pp")[0])
        if case == "shared":
            fs.append(fs[0])
        if case == "split":
            other = op.FullDenseOp(v.arr(rnd(9, 4, 4)))
            allocate([fs[1], other, fs[0]])
            r = op.ComposedErrorgen(fs)
            r.allocate_gpindices(1000, other.parent)
            return r
        return op.ComposedErrorgen(fs)
    a, p, D, Q = member(v, mk, hess="given")
    v.eq("the sum of its factors", D, sum((dense(f) for f in a.factors), start=np.zeros((4, 4))))
    if not v.symbolic:
        v.eq("sparse form", a.tosparse().toarray(), D)
        v.check("bound on the 1-norm", np.max(np.sum(np.abs(D), axis=0)) <= a.onenorm_upperbound() + 1e-8)
    F = [dense(f) for f in a.factors]
    b = lerrgen(*(M["HS"] + (4, "pp", False)), mx="pp")[0]
    a.append(b)
    v.eq("append", dense(a), D + dense(b))
    v.eq("factors unchanged", [dense(f) for f in a.factors[:-1]], F)
    own(a)
    a.remove(0)
    v.eq("remove", dense(a), sum(F[1:], start=np.zeros((4, 4))) + dense(b))


def embed_oracle(v, E, dims, targets, D=None):
    """E acts on the targets (indices into dims) of a tensor product"""
    N = int(np.prod(dims))
    r = np.zeros((N, N), object)
    td = [dims[t] for t in targets]
    digits = list(itertools.product(*[range(k) for k in dims]))
    for i, a in enumerate(digits):
        for j, b in enumerate(digits):
            if all(a[k] == b[k] for k in range(len(dims)) if k not in targets):
                x = y = 0
                for t, k in zip(targets, td):
                    x, y = x * k + a[t], y * k + b[t]
                r[i, j] = E[x, y]
    return r if v.symbolic else r.astype(complex)


# labels of the blocks, their (Hilbert-space) dimensions, targets, evolution type
EMB = [([("Q0", "Q1")], [(2, 2)], ("Q0",), "densitymx"), ([("Q0", "Q1")], [(2, 2)], ("Q1",), "densitymx"),
       ([("Q0", "Q1")], [(2, 2)], ("Q0", "Q1"), "statevec"), ([("Q0", "Q1")], [(2, 2)], ("Q1", "Q0"), "statevec"),
       ([("Q0", "Q1", "Q2")], [(2, 2, 2)], ("Q2", "Q0"), "statevec"), ([("Q0", "Q1", "Q2")], [(2, 2, 2)], ("Q1",), "statevec"),
       ([("Q0", "Q1", "Q2")], [(2, 2, 2)], ("Q2", "Q0", "Q1"), "statevec"), ([("Q0", "T1")], [(2, 3)], ("T1",), "statevec"),
       ([("Q0", "T1")], [(2, 3)], ("Q0", "T1"), "statevec"), ([("Q0", "T1")], [(2, 3)], ("T1", "Q0"), "statevec"),
       ([("Q0", "T1", "Q2")], [(2, 3, 2)], ("T1", "Q0"), "statevec"), ([("Q0", "T1", "Q2")], [(2, 3, 2)], ("Q2", "T1"), "statevec"),
       ([("Q0", "T1", "Q2")], [(2, 3, 2)], ("Q2", "T1", "Q0"), "statevec"), ([("Q0", "Q1"), ("Q2",)], [(2, 2), (2,)], ("Q1",), "statevec"),
       ([("Q0",), ("Q1", "T2")], [(2,), (2, 3)], ("T2",), "statevec"), ([("Q0",), ("Q1", "T2"), ("Q3",)], [(2,), (2, 3), (2,)], ("T2", "Q1"), "statevec"),
       ([("Q0",), ("Q1", "Q2")], [(2,), (2, 2)], ("Q1",), "densitymx")]


@unit(P, "embedded operations", cases=[(k, how) for k in range(len(EMB)) for how in ("dense", "map")], extra=EXTRA, only=ONLY, conc=2, weight=2,
      funcs=[O + "EmbeddedOp." + f for f in ("__init__", "_update_denserep", "_iter_matrix_elements_precalc", "_iter_matrix_elements", "todense", "tosparse",
                                             "to_vector", "from_vector", "deriv_wrt_params", "has_nonzero_hessian", "copy")]
      + [O + "EmbeddedDenseOp"])
def embedded(v, case):
    from pygsti.objects.labeldicts import StateSpaceLabels
    k, how = case
    labels, dims, targets, ev = EMB[k]
    flat = dict((l, x) for ls, ds in zip(labels, dims) for l, x in zip(ls, ds))
    e = int(np.prod([flat[t] for t in targets]))
    dm = ev == "densitymx"
    e = e * e if dm else e
    big = e > 6

    def mk():
        ssl = StateSpaceLabels(labels, [tuple(x * x if dm else x for x in ds) for ds in dims], evotype=ev)
        E = op.TPDenseOp(v.arr(tpmat(3, e))) if dm else \
            (op.StaticDenseOp(rnd(3, e, e) + 1j * rnd(4, e, e), "statevec") if big else op.FullDenseOp(v.arr(rnd(3, e, e) + 1j * rnd(4, e, e)), "statevec"))
        return (op.EmbeddedDenseOp if how == "dense" else op.EmbeddedOp)(ssl, targets, E)
    a, p, D, Q = member(v, mk, hess=e < 4)
    E = dense(a.embedded_op)
    blk = [i for i, ls in enumerate(labels) if targets[0] in ls][0]
    bd = [[x * x if dm else x for x in ds] for ds in dims]
    sizes = [int(np.prod(b)) for b in bd]
    off = sum(sizes[:blk])
    N = sum(sizes)
    v.eq("dimension", D.shape == (N, N), True)
    exp = np.identity(N).astype(object) if v.symbolic else np.identity(N, complex)
    exp[off:off + sizes[blk], off:off + sizes[blk]] = embed_oracle(v, E, bd[blk], [labels[blk].index(t) for t in targets])
    v.eq("acts on its targets, in their order, and on nothing else", D, exp)
    v.eq("parameters of the embedded operation", a.embedded_op.to_vector(), p)
    if not v.symbolic:
        v.eq("sparse form", a.tosparse().toarray(), D)
        x = np.arange(1.0, N + 1) + (0 if dm else 1j)
        from pygsti.objects import replib
        st = replib.DMStateRep(np.ascontiguousarray(x)) if dm else replib.SVStateRep(np.ascontiguousarray(x, complex))
        v.eq("action of the representation", np.array(a._rep.acton(st).todense()), D @ x)


@unit(P, "powers of operations", cases=[(k, n) for k in ("lin", "sv") for n in (0, 1, 2, 3)], extra=EXTRA, only=ONLY, conc=2,
      funcs=[O + "ExponentiatedOp." + f for f in ("__init__", "todense", "to_vector", "from_vector", "copy", "tosparse")])
def exponentiated(v, case):
    k, n = case
    d = 2 if k == "sv" else 4
    mk = lambda: op.ExponentiatedOp(factors(v, "sv" if k == "sv" else "one")[0], n)
    a, p, D, Q = member(v, mk, deriv=False)
    E = dense(a.exponentiated_op)
    v.eq("the power", D, prod(v, [E] * n, d))
    if not v.symbolic:
        v.eq("sparse form", a.tosparse().toarray(), D)


# ------------------------------------------------------------------ instruments

class Model(Owner):
    pass


@unit(P, "instruments", cases=["full1", "full2", "mixed", "tp2", "tp3", "tp4"], extra=EXTRA, only=ONLY, conc=3, weight=2,
      funcs=[I + "Instrument." + f for f in ("__init__", "_build_paramvec", "to_vector", "from_vector", "simplify_operations", "num_params")]
      + [I + "TPInstrument." + f for f in ("__init__", "to_vector", "from_vector", "simplify_operations", "num_params")]
      + [O + "TPInstrumentOp." + f for f in ("__init__", "_construct_matrix", "deriv_wrt_params", "from_vector")])
def instruments(v, case):
    tp = case[:2] == "tp"
    n = 2 if case == "mixed" else int(case[-1])
    d = 2 if n > 2 else 4

    def mats():
        ms = [rnd(10 + i, d, d) for i in range(n)]
        ms[-1][0, :] = [1.0 - sum(m[0, 0] for m in ms[:-1])] + [-sum(m[0, j] for m in ms[:-1]) for j in range(1, d)]
        return [v.arr(m) for m in ms]

    def mk():
        ms = mats()
        if tp:
            return ins.TPInstrument([("p%d" % i, m) for i, m in enumerate(ms)])
        if case == "mixed":
            return ins.Instrument([("p0", op.FullDenseOp(ms[0])), ("p1", lin_op(v, "linear", 3))])
        return ins.Instrument([("p%d" % i, m) for i, m in enumerate(ms)])
    a, b = own(mk()), own(mk())
    ds = lambda x: v.np.array([dense(e) for e in x.values()])
    D0 = ds(a)
    if case != "mixed":
        v.eq("the given matrices", D0, mats())
    b.from_vector(np.array(a.to_vector(), copy=True))
    v.eq("setting the initial parameters changes nothing", ds(b), D0)
    N = a.num_params()
    p, q = v.reals("p", N), v.reals("q", N)
    given = p.copy()
    a.from_vector(given)
    v.eq("parameters read back", np.array(a.to_vector(), copy=True), p)
    D = ds(a)
    b.from_vector(q.copy())
    Q = ds(b)
    b.from_vector(np.array(a.to_vector(), copy=True))
    v.eq("the parameters determine the matrices", ds(b), D)
    c = a.copy()
    v.eq("copy: parameters", np.array(c.to_vector(), copy=True), p)
    v.eq("copy: matrices", ds(c), D)
    c.from_vector(q.copy())
    v.eq("a copy takes new parameters", ds(c), Q)
    v.eq("changing a copy leaves the parameters", np.array(a.to_vector(), copy=True), p)
    v.eq("changing a copy leaves the matrices", ds(a), D)
    if tp:
        v.eq("the elements' sum preserves the trace", sum(x[0] for x in D), [1] + [0] * (d - 1))
    # simplified elements, as a model at another position of its parameter vector uses them
    m = Model()
    a.set_gpindices(slice(5, 5 + N), m)
    simp = a.simplify_operations("I")
    v.check("labels", list(simp.keys()) == ["I_p%d" % i for i in range(n)])
    els = list(simp.values())
    v.eq("simplified elements", v.np.array([dense(e) for e in els]), D)
    for e in els:
        v.check("indices within the instrument's", set(e.gpindices_as_array()) <= set(range(5, 5 + N)))

    def setall(x):
        for e in els:
            e.from_vector(v.np.array([x[i - 5] for i in e.gpindices_as_array()]))
    for i, e in enumerate(els):
        J = e.deriv_wrt_params().copy()
        full = np.zeros((d * d, N), object if v.symbolic else float)
        full[:, [j - 5 for j in e.gpindices_as_array()]] = J

        def f(x, e=e):
            setall(x)
            return dense(e).flatten()
        v.is_deriv("derivative of an element", f, p, v.arr(full))
        setall(p)
        for fl in filters(e.num_params()):
            v.eq("derivative %s" % i, e.deriv_wrt_params(fl), J[:, fl])
    setall(q)
    v.eq("simplified elements take new parameters", v.np.array([dense(e) for e in els]), Q)
    v.eq("and the instrument keeps its own", ds(a), D)
    if case == "mixed":
        return
    a.depolarize(0.5)
    v.eq("the caller's vector is the caller's", given, p)
    if tp:
        v.eq("the elements' sum still preserves the trace", sum(x[0] for x in ds(a)), [1] + [0] * (d - 1))
    E = ds(a)
    b.from_vector(np.array(a.to_vector(), copy=True))
    v.eq("parameters follow", ds(b), E)
    v.eq("depolarized", E, [[list(row * (0.5 if i else 1.0)) for i, row in enumerate(x)] for x in D])


# ------------------------------------------------------------------ exponentials of error generators (bounded)

def choi(v, D, mx):
    J = jt.jamiolkowski_iso(D, mx, "std")
    return np.linalg.eigvalsh((J + J.conj().T) / 2)


def lindblad_op(case, cls=None, post=True, sparse=False):
    name, nonham, pm, dim, bn = case
    mx = "pp" if bn == "pp" else "gm"
    U = None
    if post:
        d = int(round(dim ** 0.5))
        u = unitary(5, d)
        U = np.real(bt.change_basis(np.kron(u, u.conj()), "std", mx))
    E = lerrgen(name, nonham, pm, dim, bn, sparse, mx=mx)[0]
    return (cls or op.LindbladDenseOp)(U, E)


LOPS = [m + (4, "pp") for m in LMODES] + [m + (9, "gm") for m in LMODES if m[0] in ("HS", "CPTP", "HdA")] + [m + (4, "gm") for m in LMODES if m[0] == "GLND"]


@unit(P, "exponentials of error generators", cases=[l + (h,) for l in LOPS for h in ("dense", "nopost", "map")], sym=False, conc=3, weight=3,
      funcs=[O + "LindbladOp." + f for f in ("__init__", "_update_rep", "todense", "to_vector", "from_vector", "deriv_wrt_params", "hessian_wrt_params",
                                             "copy", "set_value")] + [O + "LindbladDenseOp", O + "_dexpX", O + "_d2expSeries", O + "_dexpSeries"])
def lindblad_ops(v, case):
    name, nonham, pm, dim, bn, how = case
    mx = "pp" if bn == "pp" else "gm"
    mk = lambda: lindblad_op(case[:5], op.LindbladOp if how == "map" else None, post=how != "nopost")
    a = own(mk())
    n = a.num_params()
    scale = 0.3
    p = v.reals("p", n) * scale
    q = v.reals("q", n) * scale
    if pm in ("reldepol",) or (pm == "unconstrained" and nonham != "all"):
        pass
    b = own(mk())
    D0 = dense(a)
    b.from_vector(a.to_vector().copy())
    v.eq("setting the initial parameters changes nothing", dense(b), D0, tol=1e-8)
    a.from_vector(p.copy())
    v.eq("parameters read back", a.to_vector(), p)
    D = dense(a)
    U = np.identity(dim) if a.unitary_postfactor is None else \
        (a.unitary_postfactor.toarray() if sps.issparse(a.unitary_postfactor) else np.asarray(a.unitary_postfactor))
    v.eq("exp(generator) after the target", D, spl.expm(a.errorgen.todense()) @ U, tol=1e-8)
    v.eq("trace preserving", D[0], [1] + [0] * (dim - 1), tol=1e-8)
    if pm in ("cptp", "depol") and nonham != "diag_affine" or name == "H":
        v.check("completely positive", choi(v, D, mx).min() > -1e-8, str(choi(v, D, mx).min()))
    x = np.linspace(1, 2, dim)
    from pygsti.objects import replib
    v.eq("action of the representation", np.array(a._rep.acton(replib.DMStateRep(x.copy())).todense()), D @ x, tol=1e-7)
    b.from_vector(q.copy())
    Q = dense(b)
    b.from_vector(p.copy())
    v.eq("the parameters determine the matrix", dense(b), D)
    c = a.copy()
    v.eq("copy: parameters", c.to_vector(), p)
    v.eq("copy: matrix", dense(c), D)
    c.from_vector(q.copy())
    v.eq("a copy takes new parameters", dense(c), Q)
    v.eq("changing a copy leaves the parameters", a.to_vector(), p)
    v.eq("changing a copy leaves the matrix", dense(a), D)
    if how == "map":
        v.eq("sparse form", a.tosparse().toarray(), D, tol=1e-8)
        return
    w = own(mk())

    def f(x):
        w.from_vector(x.copy())
        return dense(w).flatten()

    def g(x):
        w.from_vector(x.copy())
        return w.deriv_wrt_params().copy().flatten()
    J = a.deriv_wrt_params().copy()
    v.is_deriv("derivative", f, p, J, tol=1e-4)
    v.eq("derivative: matrix unchanged", dense(a), D)
    for fl in filters(n):
        v.eq("derivative %s" % fl, a.deriv_wrt_params(fl), J[:, fl])
    if dim == 4:
        H = a.hessian_wrt_params().copy()
        v.eq("second derivative: shape", H.shape == (dim * dim, n, n), True)
        v.is_deriv("second derivative", g, p, H.reshape(-1, n), tol=1e-3)
        v.eq("second derivative (filters)", a.hessian_wrt_params([n - 1], [0]), H[:, [n - 1], :][:, :, [0]])
        # after a change of parameters nothing old is given
        a.from_vector(q.copy())
        w.from_vector(q.copy())
        v.eq("derivative after a change", a.deriv_wrt_params(), w.deriv_wrt_params())
        v.eq("second derivative after a change", a.hessian_wrt_params(), w.hessian_wrt_params())
        a.from_vector(p.copy())
    # an operation of this kind is recovered from its matrix
    if np.abs(a.errorgen.todense()).max() < 1.0:
        r = own(op.LindbladDenseOp.from_operation_matrix(D.copy(), a.unitary_postfactor, a.errorgen.ham_basis, a.errorgen.other_basis, pm or "cptp",
                                                         nonham or "all", True, mx))
        v.eq("recovered from its matrix", dense(r), D, tol=1e-5)
        b.from_vector(q.copy())
        b.set_value(D.copy())
        v.eq("set_value", dense(b), D, tol=1e-5)


@unit(P, "error coefficients and rates", cases=[l + (h,) for l in LOPS if l[3] == 4 for h in ("errgen", "op", "embedded", "sum")], sym=False, conc=2, weight=2,
      funcs=[O + "LindbladErrorgen." + f for f in ("get_coeffs", "set_coeffs", "get_error_rates", "set_error_rates")]
      + [O + "LindbladOp.get_errgen_coeffs", O + "LindbladOp.set_errgen_coeffs", O + "LindbladOp.get_error_rates", O + "LindbladOp.set_error_rates",
         O + "EmbeddedErrorgen.get_coeffs", O + "EmbeddedErrorgen.set_coeffs", O + "ComposedErrorgen.get_coeffs", O + "ComposedErrorgen.set_coeffs",
         T + "lindblad_terms_to_projections", T + "projections_to_lindblad_terms", T + "lindblad_projections_to_paramvals",
         T + "paramvals_to_lindblad_projections"])
def error_coeffs(v, case):
    name, nonham, pm, dim, bn, how = case
    mx = "pp" if bn == "pp" else "gm"

    def errgen(seed=3, k=1.0):
        t = lerrgen(name, nonham, pm, dim, bn, False, mx=mx, seed=seed)[1]
        return op.LindbladErrorgen(dim, collections.OrderedDict((l, c * k) for l, c in t.items()), Basis.cast(bn, dim), pm or "cptp", nonham or "all",
                                   truncate=False, mxBasis=mx), collections.OrderedDict((l, c * k) for l, c in t.items())
    e, t = errgen()
    lab = lambda k: k
    if how == "op":
        a = op.LindbladDenseOp(None, e)
        get, put = a.get_errgen_coeffs, a.set_errgen_coeffs
    else:
        a = e
        if how == "embedded":
            a = op.EmbeddedErrorgen([("Q0", "Q1")], ("Q1",), e)
            from pygsti.objects.basis import EmbeddedBasis
            lab = lambda k: (k[0],) + tuple(EmbeddedBasis.embed_label(x, ("Q1",)) for x in k[1:])
        if how == "sum":
            a = op.ComposedErrorgen([e, op.EmbeddedErrorgen([("Q0",)], ("Q0",), errgen(5)[0])]) if False else op.ComposedErrorgen([e])
        get, put = a.get_coeffs, a.set_coeffs
    own(a)
    d2 = dim
    t = {lab(k): c for k, c in t.items()}

    def same(what, got, exp, tol=1e-7):
        v.check(what + ": labels", set(got) == set(exp), "%s %s" % (sorted(map(str, got)), sorted(map(str, exp))))
        v.eq(what, [complex(got[k]) for k in exp], [complex(exp[k]) for k in exp], tol=tol)
    same("coefficients", get(), t)
    got, basis = get(return_basis=True)
    same("coefficients with their basis", got, t)
    if how != "embedded":
        v.check("labels in the basis", all(x in basis.labels for k in got for x in k[1:]))
    rate = lambda k, c: (1 - np.exp(-d2 * c)) / d2 if k[0] == "S" else c
    same("rates", a.get_error_rates(), {k: rate(k, c) for k, c in t.items()})
    same("rates with the basis", get(return_basis=True, logscale_nonham=True)[0], {k: rate(k, c) for k, c in t.items()})
    G0 = dense(a)
    put(dict(t))
    v.eq("setting the same changes nothing", dense(a), G0, tol=1e-7)
    a.set_error_rates(dict(a.get_error_rates()))
    v.eq("nor setting the same rates", dense(a), G0, tol=1e-7)
    # other values: all, some, added, reset
    k = float(v.real("k", 0.3, 1.7))
    t2 = {l: c * k for l, c in t.items()}
    put(dict(t2))
    same("coefficients set", get(), t2)
    hk = [l for l in t if l[0] in "HA"]
    if hk:
        put({hk[-1]: 0.123})
        t2[hk[-1]] = 0.123
        same("one coefficient set", get(), t2)
        put({hk[0]: 0.05}, action="add")
        t2[hk[0]] = t2[hk[0]] + 0.05
        same("one coefficient added to", get(), t2)
        put({hk[0]: 0.07}, action="reset")
        same("all others reset", get(), {l: 0.07 if l == hk[0] else 0.0 for l in t2})
    put(dict(t2))
    same("and set again", get(), t2)
    if nonham in ("diagonal", "diag_affine") and pm not in ("depol", "reldepol"):
        sk = [l for l in t if l[0] == "S"]
        a.set_error_rates({sk[-1]: 0.02})
        r = {l: rate(l, c) for l, c in t2.items()}
        r[sk[-1]] = 0.02
        same("one rate set", a.get_error_rates(), r)
    v.raises("unknown terms are refused", KeyError, lambda: put({("H", "nothing"): 1.0} if how != "embedded" else {("H", "nothing:Q1"): 1.0}))
    if how == "sum" and name in ("HS", "HsA"):
        f, s = errgen(7, 0.5)
        c = own(op.ComposedErrorgen([errgen()[0], f]))
        tt = {l: x + s[l] for l, x in errgen()[1].items()}
        same("coefficients add up", c.get_coeffs(), tt)


@unit(P, "noisy preparations and measurements", cases=[l + (h,) for l in LOPS if l[3] == 4 for h in ("prep", "effect", "povm")], sym=False, conc=2, weight=3,
      funcs=[S + "LindbladSPAMVec." + f for f in ("__init__", "_update_rep", "todense", "to_vector", "from_vector", "deriv_wrt_params", "hessian_wrt_params",
                                                  "copy")] + [V + "LindbladPOVM"])
def lindblad_spam(v, case):
    name, nonham, pm, dim, bn, how = case
    mx = "pp" if bn == "pp" else "gm"
    E = lambda: lindblad_op(case[:5], post=how != "povm" and name != "H")
    if how == "povm":
        m = lambda: own(pv.LindbladPOVM(E(), mxBasis=mx))
        a, b = m(), m()
        els = lambda x: np.array([x[k].todense().flatten() for k in x.keys()])
        n = a.num_params()
        base = np.array([a.base_povm[k].todense().flatten() for k in a.keys()])
        p, q = v.reals("p", n) * 0.3, v.reals("q", n) * 0.3
        v.check("outcomes", list(a.keys()) == list(a.base_povm.keys()))
        Q0 = els(b)
        a.from_vector(p.copy())
        v.eq("parameters read back", a.to_vector(), p)
        G = a.error_map.todense().copy()
        v.eq("effects after the error", els(a), base @ G)
        v.eq("effects add up to the identity", els(a).sum(axis=0), base.sum(axis=0), tol=1e-7)
        c = a.copy()
        v.eq("copy", els(c), els(a))
        c.from_vector(q.copy())
        v.eq("changing a copy", els(a), base @ G)
        b.from_vector(q.copy())
        v.eq("a copy takes new parameters", els(c), els(b))
        o = Owner()
        a.set_gpindices(slice(7, 7 + n), o)
        for k, e in a.simplify_effects("M").items():
            v.check("indices follow", list(e.gpindices_as_array()) == list(range(7, 7 + n)), str(e.gpindices))
            v.eq("simplified effects", e.todense().flatten(), els(a)[list(a.keys()).index(k[2:])])
        return
    typ = how
    pure = np.array([1, 0, 0, 1.0]) / 2 ** 0.5

    def mk():
        return own(sv.LindbladSPAMVec(sv.StaticSPAMVec(pure, "densitymx", typ), E(), typ))
    a, b, w = mk(), mk(), mk()
    n = a.num_params()
    p, q = v.reals("p", n) * 0.3, v.reals("q", n) * 0.3
    a.from_vector(p.copy())
    v.eq("parameters read back", a.to_vector(), p)
    x = a.todense().flatten().copy()
    G = a.error_map.todense()
    v.eq("the error on the pure vector", x, G @ pure if typ == "prep" else G.T @ pure)
    if typ == "prep":
        v.eq("representation", np.array(a._rep.todense()).flatten(), x)
        v.eq("normalized", x[0], pure[0], tol=1e-8)
    else:
        from pygsti.objects import replib
        s = np.linspace(1, 2, dim)
        v.eq("representation", a._rep.probability(replib.DMStateRep(s.copy())), float(x @ s), tol=1e-8)
    b.from_vector(q.copy())
    y = b.todense().flatten().copy()
    c = a.copy()
    v.eq("copy", c.todense().flatten(), x)
    v.eq("copy: parameters", c.to_vector(), p)
    c.from_vector(q.copy())
    v.eq("a copy takes new parameters", c.todense().flatten(), y)
    v.eq("changing a copy", a.todense().flatten(), x)
    b.from_vector(p.copy())
    v.eq("the parameters determine the vector", b.todense().flatten(), x)

    def f(z):
        w.from_vector(z.copy())
        return w.todense().flatten()

    def g(z):
        w.from_vector(z.copy())
        return w.deriv_wrt_params().copy().flatten()
    J = a.deriv_wrt_params().copy()
    v.is_deriv("derivative", f, p, J, tol=1e-4)
    for fl in filters(n):
        v.eq("derivative %s" % fl, a.deriv_wrt_params(fl), J[:, fl])
    H = a.hessian_wrt_params().copy()
    v.check("second derivatives reported", a.has_nonzero_hessian())
    v.is_deriv("second derivative", g, p, H.reshape(-1, n), tol=1e-3)

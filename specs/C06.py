"""C06: operator bases and process representations."""

LEVEL = "proof"
LEVEL_NOTE = ("Basis changes, Choi matrices, Lindblad generators, their projections and parameter values are proved for every "
              "matrix, operator and coefficient of the listed dimensions (operators of dimension 2, 3 and 4, block-diagonal and "
              "tensor-product spaces); the fixed basis matrices themselves are evaluated. Sparse bases, matrix logarithms, "
              "Cholesky factors and eigenvectors (LAPACK) are bounded checks on drawn inputs.")
ASSUMPTIONS = ["floating-point rounding is ignored: identities hold up to 1e-9 of the coefficients",
               "inverses of the concrete basis matrices come from LAPACK and are re-checked by the obligations"]
import itertools
import numpy as np
import scipy.linalg as spl
import scipy.sparse as sps
import pygsti
from pygsti.objects import basis as ob
from pygsti.objects.basis import Basis, BuiltinBasis, DirectSumBasis, TensorProdBasis, EmbeddedBasis, ExplicitBasis
from pygsti.objects.labeldicts import StateSpaceLabels
from pygsti.tools import basistools as bt
from pygsti.tools import basisconstructors as bc
from pygsti.tools import jamiolkowski as jt
from pygsti.tools import lindbladtools as lt
from pygsti.tools import optools as ot
from pygsti.tools import matrixtools as mt
from pyvc.facade import unit

P = "C06"
T = "pygsti.tools."
B = "pygsti.objects.basis."
ONLY = [T + m for m in ("basistools", "jamiolkowski", "lindbladtools", "optools", "matrixtools")]

NONORTHO = [np.array([[1, 0.2], [0.1, 1]]), np.array([[0.3, 1], [1, 0]]), np.array([[0, -1j], [1j, 0.4]]), np.array([[1, 0], [0, -2.0]])]
MAKE = {
    "std4": lambda: BuiltinBasis("std", 4), "gm4": lambda: BuiltinBasis("gm", 4), "pp4": lambda: BuiltinBasis("pp", 4),
    "gmu4": lambda: BuiltinBasis("gm_unnormalized", 4), "exp4": lambda: ExplicitBasis(NONORTHO, name="nonortho", real=False),
    "std9": lambda: BuiltinBasis("std", 9), "gm9": lambda: BuiltinBasis("gm", 9), "qt9": lambda: BuiltinBasis("qt", 9),
    "std16": lambda: BuiltinBasis("std", 16), "gm16": lambda: BuiltinBasis("gm", 16), "pp16": lambda: BuiltinBasis("pp", 16),
    "pp*pp": lambda: TensorProdBasis([("pp", 4), ("pp", 4)]), "gm*pp": lambda: TensorProdBasis([("gm", 4), ("pp", 4)]),
    "std*std": lambda: TensorProdBasis([("std", 4), ("std", 4)]),
    "pp+1": lambda: DirectSumBasis([("pp", 4), ("pp", 1)]), "gm+1": lambda: DirectSumBasis([("gm", 4), ("gm", 1)]),
    "std+1": lambda: DirectSumBasis([("std", 4), ("std", 1)]),
    "1+pp": lambda: DirectSumBasis([("pp", 1), ("pp", 4)]), "1+std": lambda: DirectSumBasis([("std", 1), ("std", 4)]),
    "pp+pp": lambda: DirectSumBasis([("pp", 4), ("pp", 4)]), "gm+gm": lambda: DirectSumBasis([("gm", 4), ("gm", 4)]),
    "std+std": lambda: DirectSumBasis([("std", 4), ("std", 4)]),
    "gm9+1": lambda: DirectSumBasis([("gm", 9), ("gm", 1)]), "std9+1": lambda: DirectSumBasis([("std", 9), ("std", 1)]),
    "1+1": lambda: DirectSumBasis([("gm", 1), ("gm", 1)]), "std1+1": lambda: DirectSumBasis([("std", 1), ("std", 1)]),
}
GROUPS = [["std4", "gm4", "pp4", "gmu4"], ["std9", "gm9", "qt9"], ["std16", "gm16", "pp16", "pp*pp", "gm*pp", "std*std"],
          ["pp+1", "gm+1", "std+1"], ["1+pp", "1+std"], ["pp+pp", "gm+gm", "std+std"], ["gm9+1", "std9+1"], ["1+1", "std1+1"],
          ["exp4", "std4"]]
PAIRS = [(a, b) for g in GROUPS for a in g for b in g]
DIRECT = [n for n in MAKE if "+" in n]


def coeff_map(a, b):
    """oracle: T with (sum_i v_i A_i) = sum_j (T v)_j B_j, from the elements alone"""
    A = np.array([np.asarray(x).ravel() for x in a.elements]).T
    C = np.array([np.asarray(x).ravel() for x in b.elements]).T
    Tm = np.linalg.lstsq(C, A, rcond=None)[0]
    assert np.allclose(C @ Tm, A)
    return Tm


# ------------------------------------------------------------------ the basis matrices themselves

BUILTIN = [(n, d) for n, ds in (("std", (1, 2, 3, 4, 5, 8)), ("gm", (1, 2, 3, 4, 5, 8)), ("gm_unnormalized", (1, 2, 3, 4, 5, 8)),
                                ("pp", (1, 2, 4, 8)), ("qt", (1, 3)), ("id", (1, 2, 3)), ("cl", (1, 2, 5)), ("sv", (1, 2, 4))) for d in ds]


@unit(P, "built-in bases", cases=BUILTIN, sym=False, conc=1,
      funcs=[T + "basisconstructors." + f for f in ("std_matrices", "std_labels", "gm_matrices", "gm_matrices_unnormalized", "gm_labels",
                                                    "pp_matrices", "pp_labels", "qt_matrices", "qt_labels", "cl_vectors", "sv_vectors",
                                                    "identity_matrices", "MatrixBasisConstructor.sizes")]
      + [B + "BuiltinBasis", B + "Basis.is_normalized", T + "basistools.basis_matrices"])
def builtin(v, case):
    name, d = case
    vec = name in ("cl", "sv")
    dim = d if vec else d * d
    b = BuiltinBasis(name, dim)
    els = b.elements
    n = 1 if name == "id" else dim
    v.check("size", b.size == len(els) == len(b.labels) == len(b) == n and b.dim == dim)
    v.check("labels are distinct", len(set(b.labels)) == n)
    v.check("shape", b.elshape == ((d,) if vec else (d, d)) and all(e.shape == b.elshape for e in els))
    v.check("lookup", all(np.array_equal(b[l], e) for l, e in zip(b.labels, els)))
    G = np.array([[np.vdot(x, y) for y in els] for x in els])
    if name in ("std", "gm", "pp", "qt", "cl", "sv"):
        v.eq("orthonormal", G, np.identity(n))
    else:
        v.eq("orthogonal", G, np.diag(np.diag(G)))
        v.check("not zero", np.all(np.diag(G).real > 0.5))
    if name in ("gm", "pp", "qt"):
        v.check("is_normalized", b.is_normalized())
    if name in ("gm_unnormalized",) and d > 1:
        v.check("is_normalized is false", not b.is_normalized())
    if b.real:
        v.eq("a real basis has Hermitian elements", [e - e.conj().T if not vec else e.imag for e in els], 0 if vec else np.zeros((n, d, d)))
    if name in ("gm", "pp", "qt"):
        v.eq("first element", els[0], np.identity(d) / np.sqrt(d))
        v.eq("the others are traceless", [np.trace(e) for e in els[1:]], np.zeros(n - 1))
    if name in ("id", "gm_unnormalized"):
        v.eq("first element", els[0], np.identity(d))
    v.eq("to and from std", b.get_from_std() @ b.get_to_std(), np.identity(n))
    v.check("complete", b.is_complete() == (n == dim) and b.is_partial() == (n != dim) and b.is_simple())
    # labels say which operator it is
    S = {"I": np.identity(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
    for l, e in zip(b.labels, els):
        if name == "pp" and d > 1:
            m = np.identity(1)
            for ch in l:
                m = np.kron(m, S[ch])
            v.eq("labelled matrix", e * np.sqrt(d), m)
        if name in ("gm", "gm_unnormalized") and d > 2 and "{" in l:
            idx = [int(x) for x in l[l.index("{") + 1:-1].split(",")]
            if l[0] == "X":
                m = np.zeros((d, d))
                m[idx[0], idx[1]] = m[idx[1], idx[0]] = 1
            elif l[0] == "Y":
                m = np.zeros((d, d), complex)
                m[idx[0], idx[1]], m[idx[1], idx[0]] = -1j, 1j
            else:
                k = idx[0]
                m = np.diag([1.0] * k + [-k] + [0] * (d - k - 1)) * np.sqrt(2.0 / (k * (k + 1)))
            v.eq("labelled matrix", e * (np.sqrt(2) if name == "gm" else 1), m)
        if name == "std" and d > 1:
            i, j = eval(l)
            m = np.zeros((d, d))
            m[i, j] = 1
            v.eq("labelled matrix", e, m)
    if not vec and name != "id":
        s = BuiltinBasis(name, dim, sparse=True)
        v.eq("sparse elements", [e.toarray() for e in s.elements], els)
        if dim > 1:
            v.eq("sparse to std", s.get_to_std().toarray(), b.get_to_std())
            v.eq("sparse from std", s.get_from_std().toarray(), b.get_from_std())
            t = BuiltinBasis("std", dim, sparse=True)
            v.eq("sparse transform", s.transform_matrix(t).toarray(), coeff_map(b, BuiltinBasis("std", dim)))
        v.check("sparse and dense differ", not (s == b))
    v.check("equality", b == BuiltinBasis(name, dim) and hash(b) == hash(BuiltinBasis(name, dim)) and b == b.copy())


@unit(P, "derived bases", cases=[n for n in MAKE if n[-1] not in "0123456789" or "+" in n] + ["emb", "emb2", "exp4", "partial", "sparse+"],
      sym=False, conc=2, funcs=[B + c for c in ("DirectSumBasis", "TensorProdBasis", "EmbeddedBasis", "ExplicitBasis", "Basis.get_to_std",
                                                "Basis.get_from_std", "Basis.transform_matrix", "Basis.reverse_transform_matrix",
                                                "DirectSumBasis.get_to_element_std", "Basis.get_from_element_std", "Basis.cast")])
def derived(v, n):
    if n in ("emb", "emb2"):
        ssl = StateSpaceLabels([("Q0", "Q1")] if n == "emb" else [("Q0", "Q1", "Q2")])
        inner = BuiltinBasis("pp", 4 if n == "emb" else 16)
        for tgt in ([("Q0",), ("Q1",)] if n == "emb" else [("Q0", "Q1"), ("Q2", "Q0"), ("Q1", "Q2")]):
            b = EmbeddedBasis(inner, ssl, tgt)
            nq = 2 if n == "emb" else 3
            v.check("size", b.size == inner.size == len(b.elements) and b.dim == 4 ** nq)
            for l, e, l0 in zip(b.labels, b.elements, inner.labels):
                m = np.identity(1)
                for q in range(nq):
                    nm = "Q%d" % q
                    ch = l0[tgt.index(nm)] if nm in tgt else "I"
                    m = np.kron(m, {"I": np.identity(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]),
                                    "Z": np.diag([1, -1])}[ch])
                v.eq("embedded element", e, m / np.sqrt(2 if n == "emb" else 4))
                v.check("unembedded label", EmbeddedBasis.unembed_label(l, tgt) == l0)
            v.eq("from std after to std", b.get_from_std() @ b.get_to_std(), np.identity(b.size))
        return
    if n == "partial":
        b = ExplicitBasis(NONORTHO[:3], real=False)
        v.check("partial", b.is_partial() and b.size == 3 and b.dim == 4)
        v.eq("from std after to std", b.get_from_std() @ b.get_to_std(), np.identity(3))
        return
    if n == "sparse+":
        b = DirectSumBasis([BuiltinBasis("pp", 4, sparse=True), BuiltinBasis("pp", 1, sparse=True)])
        d = MAKE["pp+1"]()
        v.eq("sparse elements", [e.toarray() for e in b.elements], d.elements)
        v.eq("sparse to std", b.get_to_std().toarray(), d.get_to_std())
        v.eq("sparse from std", b.get_from_std().toarray(), d.get_from_std())
        return
    b = MAKE[n]()
    v.eq("from std after to std", b.get_from_std() @ b.get_to_std(), np.identity(b.size))
    v.eq("columns of to std", b.get_to_std().T, b.vector_elements)
    v.eq("element to std", b.get_to_element_std().T, [e.ravel() for e in b.elements])
    v.eq("element from std", b.get_from_element_std() @ b.get_to_element_std(), np.identity(b.size))
    v.check("labels are distinct", len(set(b.labels)) == b.size == len(b.elements))
    v.check("hash and equality of a copy", b == b.copy() and hash(b) == hash(b.copy()))
    if "+" in n:
        k = 0
        off = off2 = 0
        for c in b.component_bases:
            for e in c.elements:
                m = np.zeros(b.elshape, complex)
                m[off2:off2 + c.elshape[0], off2:off2 + c.elshape[0]] = e
                v.eq("block element", b.elements[k], m)
                w = np.zeros(b.dim, complex)
                w[off:off + c.dim] = np.ravel(e)
                v.eq("block vector", b.vector_elements[k], w)
                k += 1
            off += c.dim
            off2 += c.elshape[0]
        v.check("size", k == b.size == b.dim and b.elshape == (off2, off2))
        e = b.equivalent("std")
        v.check("equivalent", [c.name for c in e.component_bases] == ["std"] * len(b.component_bases)
                and [c.dim for c in e.component_bases] == [c.dim for c in b.component_bases])
        v.check("simple equivalent", b.simple_equivalent("std") == BuiltinBasis("std", off2 ** 2))
    elif "*" in n:
        x, y = b.component_bases
        for (i, e), (j, f) in itertools.product(enumerate(x.elements), enumerate(y.elements)):
            v.eq("product element", b.elements[i * len(y) + j], np.kron(e, f))
            v.check("product label", b.labels[i * len(y) + j] == x.labels[i] + y.labels[j])
    for o in MAKE:
        c = MAKE[o]()
        if c.dim == b.dim and c.elshape == b.elshape and any(o in g and n in g for g in GROUPS):
            v.eq("transform to " + o, b.transform_matrix(c), coeff_map(b, c))
            v.eq("reverse transform from " + o, b.reverse_transform_matrix(c), coeff_map(c, b))


# ------------------------------------------------------------------ change of basis

@unit(P, "change_basis", cases=PAIRS, conc=3, budget=40, only=ONLY, weight=2,
      funcs=[T + "basistools.change_basis", T + "matrixtools.safedot", T + "matrixtools.safereal", T + "matrixtools.safenorm"])
def change(v, case):
    a, b = MAKE[case[0]](), MAKE[case[1]]()
    n = a.dim
    Tm = coeff_map(a, b)
    if a.real:
        m, x = v.reals("m", (n, n), -1, 1), v.reals("x", n, -1, 1)
    else:
        # operators that a real basis can hold: M in a with real coefficients in b
        m, x = v.cplx("m", (n, n)), v.cplx("x", n)
        if b.real:
            Ti = np.linalg.inv(Tm)
            m = v.np.dot(Ti, v.np.dot(v.reals("r", (n, n), -1, 1), Tm))
            x = v.np.dot(Ti, v.reals("s", n, -1, 1))
    got = bt.change_basis(m, a, b)
    v.eq("matrix", v.np.dot(got, Tm), v.np.dot(Tm, m))
    v.eq("vector", bt.change_basis(x, a, b), v.np.dot(Tm, x))
    if n > 1:
        v.eq("column vector", bt.change_basis(x.reshape(n, 1), a, b), v.np.dot(Tm, x).reshape(n, 1))
    v.eq("back again", bt.change_basis(got, b, a), m)
    if b.real:
        v.check("real result", not np.iscomplexobj(got))
    if isinstance(a, BuiltinBasis) and isinstance(b, BuiltinBasis):
        v.eq("by name", bt.change_basis(m, a.name, b.name), got)
        v.eq("by name and object", bt.change_basis(m, a, b.name), got)
        v.eq("by object and name", bt.change_basis(m, a.name, b), got)
    if not v.symbolic:
        y = np.array(m)
        bt.change_basis(y, a, b)
        v.check("argument unchanged", np.array_equal(y, m))
        r = bt.change_basis(y, a, a)
        r[0, 0] += 1
        v.check("copy", np.array_equal(y, m))
        if b.real and n > 1 and a != b:
            v.raises("imaginary results are refused", ValueError, lambda: bt.change_basis(np.linalg.solve(Tm, 1j * np.identity(n) @ Tm), a, b))


@unit(P, "change_basis, sparse", cases=[("pp", 4), ("gm", 4), ("gm", 9), ("pp", 16)], sym=False, conc=5,
      funcs=[T + "basistools.change_basis", T + "matrixtools.safedot", T + "matrixtools.safereal"])
def change_sparse(v, case):
    nm, n = case
    a, s = BuiltinBasis(nm, n, sparse=True), BuiltinBasis("std", n, sparse=True)
    m = v.reals("m", (n, n))
    m[np.abs(m) < 0.7] = 0
    d = bt.change_basis(m, nm, "std")
    f = bt.change_basis(sps.csr_matrix(m), a, s)
    v.eq("sparse matrix", f.toarray(), d)
    v.eq("back again", bt.change_basis(f, s, a).toarray(), m)


@unit(P, "expand and contract", cases=DIRECT, conc=3, only=ONLY, budget=40,
      funcs=[T + "basistools." + f for f in ("resize_std_mx", "flexible_change_basis", "resize_mx")])
def resize(v, n):
    b = MAKE[n]()
    big = b.simple_equivalent("std")
    m = v.reals("m", (b.dim, b.dim), -1, 1)
    e = bt.flexible_change_basis(m, b, big)
    v.check("expanded shape", e.shape == (b.elsize, b.elsize))
    E = np.array([x.ravel() for x in b.elements]).T
    v.eq("acts as the operator on the blocks", v.np.dot(e, E), v.np.dot(E, m))
    # nothing comes out of, or goes into, the space outside the blocks
    out = np.identity(b.elsize) - E @ np.linalg.pinv(E)
    v.eq("zero on the rest", v.np.dot(e, out), np.zeros(e.shape))
    v.eq("nothing leaves the blocks", v.np.dot(out, e), np.zeros(e.shape))
    v.eq("contracted again", bt.flexible_change_basis(e, big, b), m)
    if n.startswith("std"):
        v.eq("resize_mx", bt.resize_mx(m, [c.elshape[0] for c in b.component_bases], "expand"), e)
        v.eq("resize_mx contract", bt.resize_mx(e, [c.elshape[0] for c in b.component_bases], "contract"), m)


@unit(P, "matrices and vectors", cases=["std4", "gm4", "pp4", "gmu4", "std9", "gm9", "qt9", "gm16", "pp16", "pp*pp"], conc=3, only=ONLY,
      funcs=[T + "basistools." + f for f in ("vec_to_stdmx", "stdmx_to_vec", "state_to_stdmx", "state_to_pauli_density_vec")])
def vectors(v, n):
    b = MAKE[n]()
    d = b.elshape[0]
    x = v.reals("x", d * d) if b.real else v.cplx("x", d * d)
    m = bt.vec_to_stdmx(x, b, keep_complex=True) if v.symbolic or not b.real else bt.vec_to_stdmx(x, b)
    exp = 0
    for i, e in enumerate(b.elements):
        exp = exp + x[i] * e
    v.eq("matrix of a vector", m, exp)
    v.eq("vector of a matrix", bt.stdmx_to_vec(m, b), x.reshape(d * d, 1))
    if isinstance(b, BuiltinBasis):
        v.eq("by name", bt.stdmx_to_vec(m, b.name), x.reshape(d * d, 1))
    if not v.symbolic:
        f = {"pp": (bt.ppvec_to_stdmx, bt.stdmx_to_ppvec), "gm": (bt.gmvec_to_stdmx, bt.stdmx_to_gmvec)}.get(b.name)
        if f:
            v.eq("named function", f[0](x), exp)
            v.eq("named function back", f[1](m)[:, 0], x)
    if d == 2:
        psi = v.cplx("psi", 2)
        rho = bt.state_to_stdmx(psi)
        v.eq("density matrix", rho, [[psi[i] * psi[j].conjugate() for j in (0, 1)] for i in (0, 1)])
        pv = bt.state_to_pauli_density_vec(psi)
        S = [np.identity(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
        v.eq("Pauli components", [pv[k, 0] for k in range(4)],
             [(sum(psi[i].conjugate() * S[k][i, j] * psi[j] for i in (0, 1) for j in (0, 1))).real / np.sqrt(2) for k in range(4)])


# ------------------------------------------------------------------ unitaries and superoperators

@unit(P, "unitary superoperator", cases=[1, 2, 3, 4], conc=5, only=ONLY,
      funcs=[T + "optools." + f for f in ("unitary_to_process_mx", "state_to_dmvec", "unitary_to_pauligate")])
def superop(v, d):
    U, rho = v.cplx("u", (d, d)), v.cplx("rho", (d, d))
    S = ot.unitary_to_process_mx(U)
    Ud = np.array([[U[j, i].conjugate() for j in range(d)] for i in range(d)], dtype=object if v.symbolic else complex)
    v.eq("acts by conjugation", v.np.dot(S, rho.reshape(d * d)).reshape(d, d), v.np.dot(v.np.dot(U, rho), v.arr(Ud)))
    psi = v.cplx("psi", d)
    v.eq("state to density vector", ot.state_to_dmvec(psi).reshape(d, d), [[psi[i] * psi[j].conjugate() for j in range(d)] for i in range(d)])


def unitary(v, d):
    h = v.hermitian("h", d)
    return spl.expm(1j * h * v.rng.choice([0.01, 1, 3]))


@unit(P, "unitary from superoperator", cases=[1, 2, 3, 4], sym=False, conc=30,
      funcs=[T + "optools." + f for f in ("process_mx_to_unitary", "dmvec_to_state", "rotation_gate_mx", "unitary_to_pauligate")])
def from_superop(v, d):
    U = unitary(v, d)
    if v.bool("structured"):
        U = np.identity(d)[:, v.rng.sample(range(d), d)] * np.exp(1j * v.rng.uniform(0, 6))
    S = ot.unitary_to_process_mx(U)
    W = ot.process_mx_to_unitary(S)
    v.eq("same superoperator", ot.unitary_to_process_mx(W), S)
    psi = v.cplx("psi", d)
    w = ot.dmvec_to_state(ot.state_to_dmvec(psi))
    v.eq("same state", np.outer(w, w.conj()), np.outer(psi, psi.conj()), tol=1e-6)
    if d in (2, 4):
        r = v.reals("r", d * d - 1)
        H = sum(x / 2 * np.sqrt(d) * m for x, m in zip(r, bc.pp_matrices(d)[1:]))
        for mb in ("pp", "gm", "std"):
            v.eq("rotation gate", bt.change_basis(ot.rotation_gate_mx(r, mb), mb, "std"), ot.unitary_to_process_mx(spl.expm(-1j * H)))
        v.eq("Pauli gate", bt.change_basis(ot.unitary_to_pauligate(U), "pp", "std"), S)


# ------------------------------------------------------------------ Choi matrices

CHOI = [("pp4", "pp4"), ("gm4", "std4"), ("std4", "pp4"), ("pp4", "gmu4"), ("gm9", "gm9"), ("qt9", "std9"), ("gm9", "qt9"), ("pp16", "std16"),
        ("pp+1", "std"), ("gm+1", "gm"), ("1+pp", "std"), ("pp+1", "gm+1"), ("gm+1", "std+1"), ("1+1", "pp"), ("pp+pp", "std")]


@unit(P, "Choi matrix", cases=CHOI, conc=3, only=ONLY, budget=60, weight=3,
      funcs=[T + "jamiolkowski." + f for f in ("jamiolkowski_iso", "jamiolkowski_iso_inv", "fast_jamiolkowski_iso_std",
                                               "fast_jamiolkowski_iso_std_inv")])
def choi(v, case):
    a = MAKE[case[0]]()
    n = a.dim
    d = int(round(np.sqrt(a.elsize)))
    c = MAKE[case[1]]() if case[1] in MAKE else case[1]
    els = c.simple_equivalent().elements if isinstance(c, Basis) else BuiltinBasis(c, d * d).elements
    if case[0] == "pp16" and v.symbolic:
        # a linear map: the sum of all its entries with independent coefficients is checked through a rank-one family
        x, y = v.reals("x", 16, -1, 1), v.reals("y", 16, -1, 1)
        m = v.arr(np.array([[x[i] * y[j] for j in range(16)] for i in range(16)], dtype=object))
    else:
        m = v.reals("m", (n, n), -1, 1) if a.real else v.cplx("m", (n, n))
    J = jt.jamiolkowski_iso(m, a, c)
    v.check("shape", J.shape == (d * d, d * d))
    # sum_ij d J_ij B_i rho B_j^dagger = op(rho), for rho any element of the basis the operator is written in
    E = np.array([x.ravel() for x in a.elements]).T
    K = sum_kron(v, J, els, d)
    v.eq("Kraus-like form acts as the operator", v.np.dot(K, E), v.np.dot(E, m))
    v.eq("inverse", jt.jamiolkowski_iso_inv(J, c, a), m)
    F = jt.fast_jamiolkowski_iso_std(m, a)
    v.eq("fast inverse", jt.fast_jamiolkowski_iso_std_inv(F, a), m)
    if case[1] in ("std", "std4", "std9", "std16", "std+1"):
        v.eq("fast and slow agree", F, J)
    tr = 0
    for i in range(d * d):
        tr = tr + F[i, i]
    if a.real and n == d * d:
        # trace one exactly when trace preserving (identity on the first row), up to that row's entries
        Id = sum(np.trace(e) * np.trace(e).conjugate() for e in a.elements)
        t2 = 0
        W = bt.change_basis(m, a, "std")
        for i in range(d):
            for j in range(d):
                t2 = t2 + W[i * d + i, j * d + j]
        v.eq("trace", tr, t2 / d)


def sum_kron(v, J, els, d):
    K = [[0] * (d * d) for _ in range(d * d)]
    for i, j in itertools.product(range(d * d), repeat=2):
        kb = np.kron(els[i], np.conjugate(els[j])) * d
        for r, s in zip(*np.nonzero(np.abs(kb) > 1e-14)):
            K[r][s] = K[r][s] + J[i, j] * complex(kb[r, s])
    return v.arr(np.array(K, dtype=object if v.symbolic else complex))


@unit(P, "Choi eigenvalues", cases=[("pp", 4), ("gm", 9)], sym=False, conc=10,
      funcs=[T + "jamiolkowski." + f for f in ("sum_of_negative_choi_evals", "sums_of_negative_choi_evals", "mags_of_negative_choi_evals")])
def choi_evals(v, case):
    nm, n = case
    class M:
        basis = BuiltinBasis(nm, n)
        operations = {"Ga": v.reals("a", (n, n)), "Gb": np.identity(n)}
    s = jt.sums_of_negative_choi_evals(M)
    J = jt.jamiolkowski_iso(M.operations["Ga"], nm, "std")
    ev = np.linalg.eigvalsh((J + J.conj().T) / 2)
    v.eq("negative part", s[0], -ev[ev < 0].sum())
    v.eq("of a physical map", s[1], 0)
    v.eq("sum", jt.sum_of_negative_choi_evals(M), sum(s))
    v.eq("weighted sum", jt.sum_of_negative_choi_evals(M, {"Ga": 3.0, "gates": 0.5}), 3 * s[0] + 0.5 * s[1])
    v.eq("magnitudes", sum(jt.mags_of_negative_choi_evals(M)), sum(s), tol=1e-6)


# ------------------------------------------------------------------ Lindblad generators

def dag(v, A):
    n, m = A.shape
    return v.arr(np.array([[A[j, i].conjugate() for j in range(n)] for i in range(m)], dtype=object if v.symbolic else complex))


@unit(P, "Lindblad generators", cases=[(d, t) for d in (2, 3) for t in ("complex", "real")], conc=5, only=ONLY,
      funcs=[T + "lindbladtools." + f for f in ("hamiltonian_to_lindbladian", "stochastic_lindbladian", "affine_lindbladian", "nonham_lindbladian")])
def generators(v, case):
    d, typ = case
    rho = v.cplx("rho", (d, d))
    if typ == "complex":
        H, Q, L, M = v.hermitian("h", d), v.cplx("q", (d, d)), v.cplx("l", (d, d)), v.cplx("m", (d, d))
    else:
        H, Q, L, M = (v.reals(x, (d, d)) for x in "hqlm")
        H = H + H.T
    dot, r = v.np.dot, rho.reshape(d * d)
    act = lambda G: dot(G, r).reshape(d, d)
    f = {2: np.sqrt(2) / 2, 3: np.sqrt(3) / 2}[d]
    v.eq("Hamiltonian", act(lt.hamiltonian_to_lindbladian(H)), (dot(H, rho) - dot(rho, H)) * (-1j * f))
    v.eq("stochastic", act(lt.stochastic_lindbladian(Q)), dot(dot(Q, rho), dag(v, Q)) * d)
    tr = 0
    for i in range(d):
        tr = tr + rho[i, i]
    v.eq("affine", act(lt.affine_lindbladian(Q)), Q * tr)
    for A, C in ((L, M), (M, L), (L, L)) + (((L, v.np.array([[1j, 0, 2][:d]] * d)),) if typ == "real" else ()):
        Ad = dag(v, A)
        AC = dot(Ad, C)
        v.eq("jump", act(lt.nonham_lindbladian(A, C)), (dot(dot(C, rho), Ad) - (dot(rho, AC) + dot(AC, rho)) * 0.5) * d)
    if not v.symbolic:
        for g, args in ((lt.hamiltonian_to_lindbladian, (H,)), (lt.stochastic_lindbladian, (Q,)), (lt.affine_lindbladian, (Q,)),
                        (lt.nonham_lindbladian, (L, M))):
            v.eq("sparse " + g.__name__, g(*[sps.csr_matrix(a) for a in args], sparse=True).toarray(), g(*args))
        if typ == "real":
            I = np.array([[0, 1, 0], [1, 0, 2], [0, 2, 1]])[:d, :d]
            v.eq("integer Hamiltonian", lt.hamiltonian_to_lindbladian(I), lt.hamiltonian_to_lindbladian(I.astype(complex)))
            v.eq("integer jump", lt.nonham_lindbladian(I, I), lt.nonham_lindbladian(I.astype(complex), I.astype(complex)))


BASES = {"pp4": ("pp", 4), "gm4": ("gm", 4), "gm9": ("gm", 9), "qt9": ("qt", 9)}


@unit(P, "generators and their projections", cases=[(b, m, n) for b in BASES for m in ("diagonal", "diag_affine", "all") for n in (True, False)],
      conc=3, only=ONLY, budget=60, funcs=[T + "optools.lindblad_errgen_projections", T + "optools.lindblad_error_generators"])
def projections(v, case):
    bn, mode, norm = case
    name, n = BASES[bn]
    d = int(round(n ** 0.5))
    b = BuiltinBasis(name, n)
    k = n - 1
    h = v.reals("h", k, -1, 1)
    hg, og = ot.lindblad_error_generators(b.elements, b.elements, norm, mode)
    hg, og = np.array(hg, dtype=complex), np.array(og, dtype=complex)
    if mode == "all":
        if v.symbolic and k > 4:      # one random-support Hermitian family: x x^dagger with a free complex vector
            z = v.cplx("z", k)
            o = v.arr(np.array([[z[i] * z[j].conjugate() for j in range(k)] for i in range(k)], dtype=object))
        else:
            o = v.hermitian("o", k)
    else:
        o = v.reals("o", (k,) if mode == "diagonal" else (2, k), -1, 1)
    std = v.np.tensordot(h, hg, (0, 0)) + v.np.tensordot(o, og, (list(range(o.ndim)), list(range(o.ndim)))) if not v.symbolic else None
    if v.symbolic:
        std = 0
        for i in range(k):
            std = std + v.arr(hg[i]) * h[i]
        for i in np.ndindex(*o.shape):
            std = std + v.arr(og[i]) * o[i]
    eg = bt.change_basis(std, "std", name)
    for (hm, om) in ((b, b), (name, name)) if not v.symbolic else ((b, b),):
        hp, op = ot.lindblad_errgen_projections(eg, hm, om, name, normalize=norm, other_mode=mode)
        v.eq("Hamiltonian coefficients", hp, h)
        v.eq("other coefficients", op, o)
    if not v.symbolic:
        hp, op, g1, g2 = ot.lindblad_errgen_projections(eg, b, b, name, normalize=norm, return_generators=True, other_mode=mode)
        v.eq("returned generators", g1, hg)
        v.eq("returned generators", g2, og)
        hp, op = ot.lindblad_errgen_projections(eg, name, name, name, normalize=norm, other_mode=mode, sparse=True)
        v.eq("sparse Hamiltonian coefficients", hp, h)
        v.eq("sparse other coefficients", op, o)
        hp, op = ot.lindblad_errgen_projections(eg, b, None, name, normalize=norm, other_mode=mode)
        v.check("no other basis", op is None)
        v.eq("Hamiltonian part alone", hp, h)
        # the generators are what they are labelled with
        i = v.rng.randrange(k)
        H = lt.hamiltonian_to_lindbladian(b.elements[i + 1])
        v.eq("Hamiltonian generator", hg[i], H / (np.linalg.norm(H) if norm else 1))
        for w in range(2 if mode == "diag_affine" else 1):
            ix = {"diagonal": (i,), "diag_affine": (w, i), "all": (i, v.rng.randrange(k))}[mode]
            L = lt.affine_lindbladian(b.elements[i + 1]) if w else lt.nonham_lindbladian(b.elements[i + 1], b.elements[ix[-1] + 1])
            nl = np.linalg.norm(L)
            v.eq("other generator", og[ix], L / (nl if norm and nl > 1e-8 else 1))


@unit(P, "Lindblad terms", cases=[(b, m, s) for b in ("pp4", "gm4", "gm9", "pp16") for m in ("diagonal", "diag_affine", "all")
                                  for s in ("same", "ham only", "other only", "part", "disjoint")], conc=3, only=ONLY, budget=30,
      funcs=[T + "optools.projections_to_lindblad_terms", T + "optools.lindblad_terms_to_projections"])
def terms(v, case):
    bn, mode, sub = case
    full = MAKE[bn]()
    part = lambda ix: ExplicitBasis([full.elements[0]] + [full.elements[i] for i in ix], [full.labels[0]] + [full.labels[i] for i in ix],
                                    name=None, real=True)
    n = len(full)
    hb, obs = {"same": (full, full), "ham only": (full, None), "other only": (None, full), "part": (part([1, 3]), full),
               "disjoint": (part([1, 2]), part([3, 2]))}[sub]
    k = len(hb) - 1 if hb is not None else 0
    m = len(obs) - 1 if obs is not None else 0
    h = v.reals("h", k) if hb is not None else None
    o = None
    if obs is not None:
        o = v.cplx("o", (m, m)) if mode == "all" else v.reals("o", (m,) if mode == "diagonal" else (2, m))
    td, basis = ot.projections_to_lindblad_terms(h, o, hb, obs, mode)
    v.check("number of terms", len(td) == k + (0 if o is None else o.size))
    hp, op, hb2, ob2 = ot.lindblad_terms_to_projections(td, basis, mode)
    # by label, since the order of the basis may differ
    def at(b, l):
        return list(b.labels).index(l) - 1
    if hb is not None:
        v.check("Hamiltonian basis", list(hb2.labels[1:]) and sorted(hb2.labels[1:]) == sorted(hb.labels[1:]))
        for i, l in enumerate(hb.labels[1:]):
            v.eq("Hamiltonian coefficient", hp[at(hb2, l)], h[i])
            v.eq("term", td[("H", l)], h[i])
            v.eq("basis element", np.asarray(hb2[l]), full.elements[list(full.labels).index(l)])
    else:
        v.check("no Hamiltonian basis", len(hb2) == 0)
    if obs is not None:
        v.check("other basis", sorted(ob2.labels[1:]) == sorted(obs.labels[1:]))
        for i, l in enumerate(obs.labels[1:]):
            v.eq("basis element", np.asarray(ob2[l]), full.elements[list(full.labels).index(l)])
            if mode == "diagonal":
                v.eq("stochastic coefficient", op[at(ob2, l)], o[i])
            elif mode == "diag_affine":
                v.eq("stochastic coefficient", op[0, at(ob2, l)], o[0, i])
                v.eq("affine coefficient", op[1, at(ob2, l)], o[1, i])
            else:
                for j, q in enumerate(obs.labels[1:]):
                    v.eq("other coefficient", op[at(ob2, l), at(ob2, q)], o[i, j])
                    v.eq("other term", td[("S", l, q)], o[i, j])
    else:
        v.check("no other basis", len(ob2) == 0)


PM = [(pm, om, k) for pm in ("cptp", "depol", "unconstrained", "reldepol") for om in ("diagonal", "diag_affine", "all") for k in (1, 2, 3)
      if not (om == "all" and "depol" in pm)]


@unit(P, "Lindblad parameters to coefficients", cases=PM, conc=5, only=ONLY, funcs=[T + "optools.paramvals_to_lindblad_projections"])
def paramvals(v, case):
    pm, om, k = case
    for nh in (0, 2):
        h = v.reals("h%d" % nh, nh)
        no = {"diagonal": 1 if "depol" in pm else k, "diag_affine": (1 + k) if "depol" in pm else 2 * k, "all": k * k}[om]
        p = v.reals("p%d" % nh, no)
        hc, oc = ot.paramvals_to_lindblad_projections(v.np.concatenate((h, p)), nh + 1 if nh else 0, k + 1, pm, om)
        if nh:
            v.eq("Hamiltonian coefficients", hc, h)
        else:
            v.check("no Hamiltonian coefficients", hc is None)
        if om in ("diagonal", "diag_affine"):
            first = oc if om == "diagonal" else oc[0]
            for i in range(k):
                x = p[0] if "depol" in pm else p[i]
                v.eq("stochastic coefficient", first[i], x * x if pm in ("cptp", "depol") else x)
            if om == "diag_affine":
                v.eq("affine coefficients", oc[1], p[no - k:])
            v.check("shape", oc.shape == ((k,) if om == "diagonal" else (2, k)))
        else:
            q = p.reshape(k, k)
            L = [[q[i, j] + q[j, i] * 1j if j < i else (q[i, i] if i == j else 0) for j in range(k)] for i in range(k)]
            for i in range(k):
                for j in range(k):
                    if pm == "cptp":
                        e = 0
                        for s in range(k):
                            y = L[j][s]
                            e = e + L[i][s] * (y.conjugate() if hasattr(y, "conjugate") else y)
                    else:
                        e = L[i][j] if j <= i else L[j][i].conjugate()
                    v.eq("other coefficient", oc[i, j], e)
        # positive by construction
        if pm in ("cptp", "depol") and om == "all":
            z = v.cplx("z%d" % nh, k)
            s = 0
            for a in range(k):
                for b2 in range(k):
                    s = s + z[a].conjugate() * oc[a, b2] * z[b2]
            t = 0
            for c in range(k):
                y = 0
                for a in range(k):
                    y = y + (L[a][c].conjugate() if hasattr(L[a][c], "conjugate") else L[a][c]) * z[a]
                t = t + y * y.conjugate()
            v.eq("quadratic form is a sum of squares", s, t)


@unit(P, "coefficients to Lindblad parameters", cases=PM, conc=8, only=ONLY, funcs=[T + "optools.lindblad_projections_to_paramvals"],
      sym=False)
def to_paramvals(v, case):
    pm, om, k = case
    for nh in (0, 2):
        no = {"diagonal": 1 if "depol" in pm else k, "diag_affine": (1 + k) if "depol" in pm else 2 * k, "all": k * k}[om]
        p = np.concatenate((v.reals("h%d" % nh, nh), v.reals("p%d" % nh, no)))
        if v.bool("zeros%d" % nh):
            p[nh:] = np.where(np.abs(p[nh:]) < 0.7, 0, p[nh:])
        hc, oc = ot.paramvals_to_lindblad_projections(p, nh + 1 if nh else 0, k + 1, pm, om)
        for cplx in (False, True):
            a, b = (hc, oc) if not cplx else (None if hc is None else hc.astype(complex), oc.astype(complex))
            q = ot.lindblad_projections_to_paramvals(a, b, pm, om, truncate=False)
            v.check("number of parameters", q.shape == p.shape)
            v.check("real parameters", q.dtype == float)
            h2, o2 = ot.paramvals_to_lindblad_projections(q, nh + 1 if nh else 0, k + 1, pm, om)
            if nh:
                v.eq("Hamiltonian coefficients", h2, hc)
            v.eq("other coefficients", o2, oc, tol=1e-7)
        if pm == "unconstrained" or pm == "reldepol":
            v.eq("parameters", q, p)
        bad = None
        if pm in ("cptp", "depol"):
            bad = np.array(oc, dtype=complex)
            if om == "all":
                bad = bad - 3 * np.identity(k) * (1 + np.linalg.norm(bad))
            elif om == "diagonal":
                bad[:] = -0.5
            else:
                bad[0, :] = -0.5
            v.raises("negative coefficients are refused", AssertionError,
                     lambda: ot.lindblad_projections_to_paramvals(hc, bad, pm, om, truncate=False))
            h3, o3 = ot.paramvals_to_lindblad_projections(ot.lindblad_projections_to_paramvals(hc, bad, pm, om, truncate=True),
                                                          nh + 1 if nh else 0, k + 1, pm, om)
            v.eq("truncated to zero", np.abs(np.asarray(o3) if om != "diag_affine" else o3[0]).max(), 0, tol=1e-10)


@unit(P, "standard generators and projections", cases=[(t, b) for t in ("hamiltonian", "stochastic", "affine") for b in ("pp4", "gm4", "gm9", "qt9")],
      sym=False, conc=5, funcs=[T + "optools." + f for f in ("std_error_generators", "std_errgen_projections", "std_scale_factor")])
def std_proj(v, case):
    typ, bn = case
    name, n = BASES[bn]
    gens = ot.std_error_generators(n, typ, name)
    els = BuiltinBasis(name, n).elements
    v.check("number", gens.shape == (n, n, n))
    for g, m in zip(gens, els):
        L = {"hamiltonian": lt.hamiltonian_to_lindbladian, "stochastic": lt.stochastic_lindbladian, "affine": lt.affine_lindbladian}[typ](m)
        nl = np.linalg.norm(L)
        v.eq("normalised generator", g, L / nl if nl > 1e-8 else L)
    c = v.reals("c", n)
    if typ == "hamiltonian":
        c[0] = 0
    proj0, g2, sc = ot.std_errgen_projections(np.zeros((n, n)), typ, name, name, True, True)
    v.eq("scaled generators", g2 * sc, gens)
    eg = np.real(bt.change_basis(sum(x * g for x, g in zip(c, g2)), "std", name))
    got = ot.std_errgen_projections(eg, typ, name, name)
    G = np.array([[np.vdot(x, y) for y in gens] for x in gens])
    if np.allclose(G, np.diag(np.diag(G))):
        v.eq("projections times generators give the original", got, c)


@unit(P, "error generators", cases=["logG-logT", "logTiG", "logGTi"], sym=False, conc=12,
      funcs=[T + "optools.error_generator", T + "optools.operation_from_error_generator"])
def errgen(v, typ):
    nm, n = v.choice("basis", [("pp", 4), ("gm", 4), ("gm", 9), ("std", 4)][:3])
    d = int(round(n ** 0.5))
    U = unitary(v, d) if v.bool("rotation") else np.identity(d)
    w = np.angle(np.linalg.eigvals(U))
    v.assume(all(abs(abs(a - b) - np.pi) > 0.3 for a in w for b in w) and max(abs(a - b) for a in w for b in w) < np.pi - 0.3)
    t = bt.change_basis(ot.unitary_to_process_mx(U), "std", nm)
    e = 0.05 * v.reals("e", (n, n))
    e[0] = 0
    g = ot.operation_from_error_generator(e, t, typ)
    v.check("real operation", np.linalg.norm(np.imag(g)) < 1e-9)
    got = ot.error_generator(np.real(g), t, nm, typ)
    v.eq("reproduces the operation", ot.operation_from_error_generator(got, t, typ), g, tol=1e-6)
    if typ != "logG-logT":
        v.eq("generator", got, e, tol=1e-6)

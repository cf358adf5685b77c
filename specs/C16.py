"""C16: representations act as the dense matrices they stand for; stabilizer frames agree with state vectors."""

LEVEL = "proof"
LEVEL_NOTE = ("The pure-Python density-matrix and state-vector representations are proved to act as their dense matrices for all "
              "matrix and vector entries, for the listed structures and dimensions. The compiled ones and all stabilizer "
              "representations are bounded: every reachable frame of one and two qubits under a generating set, all 24 "
              "one-qubit Cliffords, and drawn circuits of up to five qubits, each compared with state vectors.")
ASSUMPTIONS = ["symbolic runs use the pure-Python representations; the compiled C++ code is outside the verifier and checked "
               "on drawn inputs only",
               "the dense matrices of the oracle are computed with numpy"]
import copy
import itertools
import pickle
import numpy as np
import scipy.linalg as spl
import scipy.sparse as sps
import pygsti
from pygsti.objects import operation as op, spamvec as sv, povm as pv, stabilizer as stb
from pygsti.objects.replib import slowreplib, fastreplib
from pygsti.tools import symplectic as symp, matrixtools as mt
from pyvc.facade import unit

P = "C16"
R = "pygsti.objects.replib.slowreplib."
F = "pygsti.objects.replib.fastreplib."
T = "pygsti.objects.stabilizer."
ONLY = [R[:-1], "pygsti.tools.matrixtools"]


def i64(*x):
    return np.array(x, np.int64)


def cc(a):
    return np.ascontiguousarray(a)


class Kind:
    """density-matrix (real) or state-vector (complex) representations of one library"""

    def __init__(self, v, lib, kind):
        self.v, self.lib, self.k = v, lib, kind
        self.n = 0

    def get(self, name):
        return getattr(self.lib, self.k + name)

    def mat(self, *shape):
        self.n += 1
        name = "a%d" % self.n
        a = self.v.reals(name, shape) if self.k == "DM" else self.v.cplx(name, shape)
        return a if self.v.symbolic else cc(np.asarray(a, float if self.k == "DM" else complex))

    def state(self, n):
        x = self.mat(n)
        return x, self.get("StateRep")(x)

    def dense(self, n):
        m = self.mat(n, n)
        return m, self.get("OpRep_Dense")(m)

    def adj(self, m):
        return m.T if self.k == "DM" else m.conj().T


def acts(v, K, label, rep, m, n=None, adjoint=True):
    x, st = K.state(m.shape[0] if n is None else n)
    x0 = x.copy()
    v.eq(label, rep.acton(st).todense(), v.np.dot(m, x) if v.symbolic else m @ x)
    if adjoint and hasattr(rep, "adjoint_acton"):  # (compiled state-vector operations offer none)
        a = K.adj(m)
        v.eq(label + ", adjoint", rep.adjoint_acton(st).todense(), v.np.dot(a, x) if v.symbolic else a @ x)
    v.eq(label + ": the state it acts on is unchanged", x, x0)
    v.eq(label + ": dimension", int(rep.dim), int(m.shape[0]))


def mm(v, *ms):
    r = ms[0]
    for m in ms[1:]:
        r = v.np.dot(r, m) if v.symbolic else r @ m
    return r


EMB = [((2, 2), (0,)), ((2, 2), (1,)), ((2, 2), (1, 0)), ((2, 3), (1,)), ((2, 3), (1, 0)), ((2, 2, 2), (2, 0)), ((2, 3, 2), (2, 0)),
       ((2, 2, 2), (1,)), ((4, 2), (0,)), ((2,), (0,))]
BLK = [((2, 2), (2,), 0), ((2, 2), (3,), 0), ((2,), (2, 2), 1), ((3,), (2, 2), 1)]


def embed(v, E, dims, targets, one):
    N = int(np.prod(dims))
    r = np.zeros((N, N), object)
    digits = list(itertools.product(*[range(k) for k in dims]))
    for i, a in enumerate(digits):
        for j, b in enumerate(digits):
            if all(a[k] == b[k] for k in range(len(dims)) if k not in targets):
                x = y = 0
                for t in targets:
                    x, y = x * dims[t] + a[t], y * dims[t] + b[t]
                r[i, j] = E[x, y]
    return r if v.symbolic else r.astype(one)


def opcase(v, K, case):
    one = float if K.k == "DM" else complex
    what = case[0]
    if what == "dense":
        m, r = K.dense(case[1])
        return m, r
    if what == "composed":
        fs = [K.dense(2) for i in range(case[1])]
        return mm(v, np.identity(2), *[f[0] for f in reversed(fs)]), K.get("OpRep_Composed")([f[1] for f in fs], 2)
    if what == "sum":
        fs = [K.dense(2) for i in range(case[1])]
        return sum([f[0] for f in fs]), K.get("OpRep_Sum")([f[1] for f in fs], 2)
    if what == "power":
        m, r = K.dense(2)
        return mm(v, np.identity(2), *([m] * case[1])), K.get("OpRep_Exponentiated")(r, case[1], 2)
    if what in ("embedded", "blocks"):
        if what == "embedded":
            dims, targets = case[1:]
            blocks, act = [list(dims)], 0
        else:
            d0, d1, act = case[1:]
            blocks, dims = [list(d0), list(d1)], (d0, d1)[act]
            targets = (len(dims) - 1,)
        sizes = [int(np.prod(b)) for b in blocks]
        e = int(np.prod([dims[t] for t in targets]))
        m, r = K.dense(e)
        N = sum(sizes)
        rep = K.get("OpRep_Embedded")(r, i64(*dims), i64(*targets), i64(*sizes), e, len(dims), act, len(blocks), N)
        full = np.identity(N).astype(object) if v.symbolic else np.identity(N, one)
        off = sum(sizes[:act])
        full[off:off + sizes[act], off:off + sizes[act]] = embed(v, m, dims, targets, one)
        return full, rep
    if what == "nested":  # an embedded power of a composition of an embedded and a sum
        a, ra = K.dense(2)
        b, rb = K.dense(4)
        c, rc = K.dense(4)
        one_ = embed(v, a, (2, 2), (1,), one)
        re = K.get("OpRep_Embedded")(ra, i64(2, 2), i64(1), i64(4), 2, 2, 0, 1, 4)
        rs = K.get("OpRep_Sum")([rb, rc], 4)
        rp = K.get("OpRep_Exponentiated")(K.get("OpRep_Composed")([re, rs], 4), 2, 4)
        rf = K.get("OpRep_Embedded")(rp, i64(2, 2, 2), i64(2, 0), i64(8), 4, 3, 0, 1, 8)
        q = mm(v, b + c, one_)
        return embed(v, mm(v, q, q), (2, 2, 2), (2, 0), one), rf


OPS = [("dense", 2), ("dense", 4), ("composed", 0), ("composed", 1), ("composed", 2), ("composed", 3), ("sum", 0), ("sum", 1), ("sum", 3),
       ("power", 0), ("power", 1), ("power", 2), ("power", 3)] + [("embedded",) + e for e in EMB] + [("blocks",) + e for e in BLK] + [("nested",)]


def fix0(m, case):
    return m if not (case[0] == "sum" and case[1] == 0) else np.zeros((2, 2))


OPF = [R + k + "OpRep_" + c + "." + f for k in ("DM", "SV") for c in ("Dense", "Embedded", "Composed", "Sum", "Exponentiated")
       for f in ("__init__", "acton", "adjoint_acton")]


@unit(P, "operation representations", cases=[(k, c) for k in ("DM", "SV") for c in OPS if c != ("nested",)], only=ONLY, conc=1, funcs=OPF)
def operations(v, case):
    k, c = case
    K = Kind(v, slowreplib, k)
    m, rep = opcase(v, K, c)
    acts(v, K, "acts as its matrix", rep, fix0(m, c))


@unit(P, "compiled operation representations", cases=[(l, k) for l in ("fast", "slow") for k in ("DM", "SV")], sym=False, conc=4, weight=2,
      funcs=[F + x + "OpRep_*" for x in ("DM", "SV")] + OPF)
def compiled(v, case):
    l, k = case
    K = Kind(v, {"fast": fastreplib, "slow": slowreplib}[l], k)
    for c in OPS:
        m, rep = opcase(v, K, c)
        m = fix0(m, c)
        acts(v, K, "%s acts as its matrix" % (c,), rep, m)
        if l == "fast" and c[0] == "composed" and c[1] == 0:
            continue
        acts(v, K, "%s after pickling" % (c,), pickle.loads(pickle.dumps(rep)), m)
    for what, reinit in (("Composed", "reinit_factor_op_reps"), ("Sum", "reinit_factor_reps")):
        f = [K.dense(2) for i in range(5)]
        r = K.get("OpRep_" + what)([f[0][1], f[1][1]], 2)
        getattr(r, reinit)([f[2][1], f[3][1], f[4][1]])
        m = f[4][0] @ f[3][0] @ f[2][0] if what == "Composed" else f[2][0] + f[3][0] + f[4][0]
        acts(v, K, "%s with new factors" % what, r, m)
        acts(v, K, "%s with new factors after pickling" % what, pickle.loads(pickle.dumps(r)), m)
    m, r = K.dense(3)
    r.base[1, 2] = 0.25
    acts(v, K, "the matrix is the representation's own memory", r, m)
    v.eq("memory", r.base[1, 2], 0.25)
    x, st = K.state(5)
    v.eq("state", st.todense(), x)
    v.eq("dimension of a state", int(st.dim), 5)
    v.eq("pickled state", pickle.loads(pickle.dumps(st)).todense(), x)
    if l == "fast":
        return
    y, st2 = K.state(5)
    st2.copy_from(st)
    v.eq("copied state", st2.todense(), x)
    st2.base[0] = 7
    v.eq("a copied state is its own", st.todense(), x)


@unit(P, "effect representations", cases=[(k, c) for k in ("DM", "SV") for c in ("dense", "prod22", "prod23", "prod232", "z1", "z2", "errgen")],
      only=ONLY, conc=1,
      funcs=[R + k + "EffectRep_" + c + "." + f for k in ("DM", "SV") for c in ("Dense", "TensorProd", "Computational") for f in ("__init__", "todense")]
      + [R + "DMEffectRep_Dense.probability", R + "DMEffectRep_TensorProd.probability", R + "DMEffectRep_Computational.probability",
         R + "DMEffectRep_Errgen.probability", R + "DMEffectRep_Computational.parity", R + "SVEffectRep.probability",
         R + "SVEffectRep_Dense.amplitude", R + "SVEffectRep_TensorProd.amplitude", R + "SVEffectRep_Computational.amplitude"])
def effects(v, case):
    k, c = case
    if c == "errgen" and k == "SV":
        return effects(v, (k, "dense"))
    zs = list(itertools.product((0, 1), repeat=int(c[1]))) if c[0] == "z" else [None]
    for z in zs:
        K = Kind(v, slowreplib, k)
        K.n = 100 * zs.index(z)
        effect_case(v, K, c, z)


def effect_case(v, K, c, z):
    d = (lambda a, b: v.np.dot(a, b)) if v.symbolic else np.dot
    k = K.k
    if c in ("dense", "errgen"):
        e = K.mat(4)
        r = K.get("EffectRep_Dense")(e)
        if c == "errgen":
            m, rm = K.dense(4)
            r = K.get("EffectRep_Errgen")(rm, r, 0)
            e = d(m.T, e)
    elif c[:4] == "prod":
        dims = [int(x) for x in c[4:]]
        parts = [K.mat(x) for x in dims]
        kr = np.zeros((len(dims), max(dims)), object if v.symbolic else parts[0].dtype)
        for i, p in enumerate(parts):
            kr[i, :len(p)] = p
        kr = v.arr(kr)
        r = K.get("EffectRep_TensorProd")(kr, i64(*dims), len(dims), max(dims), int(np.prod(dims)))
        e = parts[0]
        for p in parts[1:]:
            e = v.np.kron(e, p) if v.symbolic else np.kron(e, p)
    else:
        n = len(z)
        base = (np.array([1, 0, 0, 1]) / np.sqrt(2), np.array([1, 0, 0, -1]) / np.sqrt(2)) if k == "DM" else (np.array([1, 0]), np.array([0, 1]))
        e = np.ones(1)
        for b in z:
            e = np.kron(e, base[b])
        r = K.get("EffectRep_Computational")(i64(*z), len(e))
    x, st = K.state(len(e))
    if k == "DM":
        v.eq("probability of %s%s" % (c, z or ""), r.probability(st), d(e, x))
    else:
        a = d(e.conj(), x)
        v.eq("amplitude of %s%s" % (c, z or ""), r.amplitude(st), a)
        v.eq("probability of %s%s" % (c, z or ""), r.probability(st), a.real**2 + a.imag**2 if not v.symbolic else (a * a.conjugate()))
    v.eq("dimension", int(r.dim), len(e))
    return r, e


@unit(P, "compiled effect representations", cases=["fast", "slow"], sym=False, conc=5, funcs=[F + x + "EffectRep_*" for x in ("DM", "SV")])
def ceffects(v, l):
    for k in ("DM", "SV"):
        K = Kind(v, {"fast": fastreplib, "slow": slowreplib}[l], k)
        for c in ("dense", "errgen", "prod22", "prod23", "prod232", "prod444", "prod2", "prod5", "z1", "z2", "z3", "z4"):
            if c == "errgen" and k == "SV":
                continue
            for z in (itertools.product((0, 1), repeat=int(c[1])) if c[0] == "z" else [None]):
                r, e = effect_case(v, K, c, z)
                x, st = K.state(len(e))
                got = pickle.loads(pickle.dumps(r))
                v.eq("after pickling %s" % c, got.probability(st), abs(np.dot(e.conj(), x))**(1 if k == "SVx" else 2) if k == "SV" else np.dot(e, x))


@unit(P, "sparse and exponential representations", cases=["fast", "slow"], sym=False, conc=6,
      funcs=[R + "DMOpRep_Sparse", R + "DMOpRep_Lindblad", F + "DMOpRep_Sparse", F + "DMOpRep_Lindblad"])
def sparse(v, l):
    lib = {"fast": fastreplib, "slow": slowreplib}[l]
    K = Kind(v, lib, "DM")
    rs = rnd(v)
    for n in (1, 4, 16):
        a = K.mat(n, n) * (rs.random_sample((n, n)) < 0.4)
        csr = sps.csr_matrix(a)
        if csr.nnz == 0:
            csr = sps.csr_matrix(np.identity(n))
            a = np.identity(n)
        rep = lib.DMOpRep_Sparse(cc(csr.data), cc(np.array(csr.indices, np.int64)), cc(np.array(csr.indptr, np.int64)))
        acts(v, K, "sparse %d" % n, rep, a)
        acts(v, K, "sparse %d after pickling" % n, pickle.loads(pickle.dumps(rep)), a)
        if n == 1:
            continue
        b = K.mat(n, n) * (0.5 if n == 4 else 0.1)
        u = np.linalg.qr(K.mat(n, n))[0]
        errs = [("dense generator", b, lib.DMOpRep_Dense(cc(b))), ("sparse generator", a, rep)] if l == "slow" else [("sparse generator", a, rep)]
        if l == "fast":
            bs = sps.csr_matrix(b)
            errs.append(("full generator", b, lib.DMOpRep_Sparse(cc(bs.data), cc(np.array(bs.indices, np.int64)), cc(np.array(bs.indptr, np.int64)))))
        for what, g, gr in errs:
            for post in (False, True):
                mu, m_star, s, eta = prep_exp(g, gr)
                us = sps.csr_matrix(u) if post else None
                args = (cc(us.data), cc(np.array(us.indices, np.int64)), cc(np.array(us.indptr, np.int64))) if post else \
                    (np.empty(0, "d"), np.empty(0, np.int64), np.zeros(1, np.int64))
                rl = lib.DMOpRep_Lindblad(gr, mu, eta, m_star, s, *args)
                x, st = K.state(n)
                exp = spl.expm(g) @ (u @ x if post else x)
                v.eq("exponential of %s" % what + (" after a unitary" if post else ""), rl.acton(st).todense(), exp)
                v.eq("pickled exponential of %s" % what, pickle.loads(pickle.dumps(rl)).acton(st).todense(), exp)


def prep_exp(g, rep):
    """as LindbladOp prepares the parameters of its representation"""
    mu, m_star, s, eta = mt.expop_multiply_prep(rep.aslinearoperator(), A_1_norm=np.max(np.sum(np.abs(g), axis=0)))
    return mu, m_star, s, eta


# ---------------------------------------------------------------- stabilizer states
H1 = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
PAULI = {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
S1 = np.diag([1, 1j])
CNOT = np.identity(4)[[0, 1, 3, 2]]
CZ = np.diag([1, 1, 1, -1])
SWAP = np.identity(4)[[0, 2, 1, 3]]
I2 = np.identity(2)
GATES = {"H": H1, "S": S1, "Sd": S1.conj(), "X": PAULI["X"], "Y": PAULI["Y"], "Z": PAULI["Z"], "HS": H1 @ S1, "SH": S1 @ H1, "I": I2,
         "CNOT": CNOT, "CZ": CZ, "SWAP": SWAP, "ISW": SWAP @ CZ @ np.kron(S1, S1), "CY": np.kron(I2, S1) @ CNOT @ np.kron(I2, S1.conj()),
         "CH2": np.kron(H1, H1) @ CNOT @ np.kron(S1, I2)}


def symp_of(u):
    """the action on Paulis, found by conjugation: column i holds the exponents of U P_i U^dagger = i^p X^a Z^b"""
    n = int(round(np.log2(len(u))))

    def pauli(xs, zs):
        r = np.ones((1, 1))
        for a, b in zip(xs, zs):
            r = np.kron(r, np.linalg.matrix_power(PAULI["X"], a) @ np.linalg.matrix_power(PAULI["Z"], b))
        return r
    s, p = np.zeros((2 * n, 2 * n), np.int64), np.zeros(2 * n, np.int64)
    for i in range(2 * n):
        e = [0] * (2 * n)
        e[i] = 1
        c = u @ pauli(e[:n], e[n:]) @ u.conj().T
        for bits in itertools.product((0, 1), repeat=2 * n):
            t = np.trace(pauli(bits[:n], bits[n:]).conj().T @ c) / 2**n
            if abs(t) > 0.5:
                s[:, i] = bits
                p[i] = int(round(np.angle(t) / (np.pi / 2))) % 4
                break
        else:
            raise ValueError("not a Clifford")
    return s, p


SYMP = {k: symp_of(np.asarray(u, complex)) for k, u in GATES.items()}
SINV = {k: symp_of(np.asarray(u, complex).conj().T) for k, u in GATES.items()}
ONE = [k for k, u in GATES.items() if len(u) == 2]
TWO = [k for k, u in GATES.items() if len(u) == 4]


def apply(u, qs, x):
    """the state vector after u on the qubits qs, in their order"""
    n = int(round(np.log2(len(x))))
    k = len(qs)
    t = np.moveaxis(np.asarray(x, complex).reshape([2] * n), qs, range(k))
    t = (u @ t.reshape(2**k, -1)).reshape([2] * n)
    return np.moveaxis(t, range(k), qs).reshape(-1)


def ket(zs):
    x = np.zeros(2**len(zs), complex)
    x[int("".join(map(str, zs)), 2)] = 1
    return x


def zvals(n):
    return list(itertools.product((0, 1), repeat=n))


def vec_of(rep, lib, n):
    return np.array([lib.SBEffectRep(i64(*z)).amplitude(rep) for z in zvals(n)])


def sb_state(lib, zs):
    f = stb.StabilizerFrame.from_zvals(len(zs), zs)
    return lib.SBStateRep(cc(np.array(f.s, np.int64)), cc(np.array(f.ps, np.int64)), cc(np.array(f.a, complex)))


def clifford(lib, g):
    s, p = SYMP[g]
    si, pi = SINV[g]
    return lib.SBOpRep_Clifford(cc(s), cc(p), cc(si), cc(pi), cc(np.asarray(GATES[g], complex)))


def on(lib, g, qs, n):
    c = clifford(lib, g)
    return c if tuple(qs) == tuple(range(n)) else lib.SBOpRep_Embedded(c, n, i64(*qs))


LIBS = {"fast": fastreplib, "slow": slowreplib}


def state_is(v, label, rep, lib, x):
    n = int(round(np.log2(len(x))))
    v.eq(label + ": amplitudes", vec_of(rep, lib, n), x)
    v.eq(label + ": probabilities", [lib.SBEffectRep(i64(*z)).probability(rep) for z in zvals(n)], np.abs(x)**2)


def moves(n):
    r = [(g, (q,)) for g in ("H", "S", "HS", "Y") for q in range(n)]
    if n > 1:
        r += [(g, qs) for g in ("CNOT", "CY") for qs in itertools.permutations(range(n), 2)]
    return r


SBF = [T + "StabilizerFrame." + f for f in ("__init__", "from_zvals", "copy", "_colsum", "_colswap", "_rref", "_canonical_amplitudes", "_canonical_amplitude",
                                            "_sample_amplitude", "_apply_clifford_to_frame", "clifford_update", "extract_amplitude", "push_view",
                                            "pop_view", "measurement_probability")]


@unit(P, "every reachable frame", cases=[("fast", 1), ("slow", 1), ("fast", 2)], thorough_cases=[("slow", 2)], sym=False, conc=1, weight=3, conc_s=20,
      funcs=SBF + [F + "SBStateRep", F + "SBOpRep_Clifford", F + "SBOpRep_Embedded", R + "SBStateRep", R + "SBOpRep_Clifford", R + "SBOpRep_Embedded"])
def reachable(v, case):
    """all frames that a generating set of moves leads to (global amplitudes aside): each successor represents the right vector"""
    l, n = case
    lib = LIBS[l]
    gens = [(g, qs, on(lib, g, qs, n)) for g, qs in moves(n)]
    seen = {}

    def key(rep):
        return np.array(rep.smatrix).tobytes() + np.array(rep.pvectors).tobytes()
    todo = []
    for zs in zvals(n):
        rep = sb_state(lib, zs)
        x = ket(zs)
        v.eq("computational state", vec_of(rep, lib, n), x)
        if key(rep) not in seen:
            seen[key(rep)] = 1
            todo.append((rep, x))
    bad = 0
    while todo:
        rep, x = todo.pop()
        for g, qs, o in gens:
            for adj in (False, True):
                r = o.adjoint_acton(rep) if adj else o.acton(rep)
                u = np.asarray(GATES[g], complex)
                y = apply(u.conj().T if adj else u, qs, x)
                a = vec_of(r, lib, n)
                if not np.allclose(a, y, atol=1e-7):
                    v.eq("%s%s on %s from %s" % (g, "^-1" if adj else "", qs, np.round(x, 3)), a, y)
                    bad += 1
                    if bad > 3:
                        return
                    continue
                if key(r) not in seen:
                    seen[key(r)] = 1
                    todo.append((r, y))
    v.check("frames explored", len(seen) >= {1: 6, 2: 60}[n], "%d frames" % len(seen))
    v.eq("every frame moves to frames of the right vectors", bad, 0)


def rnd(v):
    return np.random.RandomState(v.rng.randrange(2**31))


def word(v, n, length):
    rs = rnd(v)
    r = []
    for i in range(length):
        if n > 1 and rs.random_sample() < 0.5:
            r.append((TWO[rs.randint(len(TWO))], tuple(int(q) for q in rs.permutation(n)[:2])))
        else:
            r.append((ONE[rs.randint(len(ONE))], (int(rs.randint(n)),)))
    return r


@unit(P, "circuits of Cliffords", cases=[(l, n) for l in ("fast", "slow") for n in (2, 3, 4)], thorough_cases=[("fast", 5), ("fast", 6), ("slow", 5)], sym=False, conc=6,
      weight=2, conc_s=120, funcs=SBF)
def circuits(v, case):
    l, n = case
    lib = LIBS[l]
    zs = tuple(int(z) for z in rnd(v).randint(0, 2, n))
    rep, x = sb_state(lib, zs), ket(zs)
    state_is(v, "computational state", rep, lib, x)
    ops = []
    w = word(v, n, 16)
    for i, (g, qs) in enumerate(w):
        o = on(lib, g, qs, n)
        ops.append(o)
        rep = o.acton(rep)
        x = apply(GATES[g], qs, x)
        state_is(v, "after %s" % (w[:i + 1],), rep, lib, x)
    v.eq("number of qubits", [int(rep.nqubits), int(rep.dim), int(ops[0].nqubits), int(ops[0].dim)], [n, 2**n, n, 2**n])
    state_is(v, "pickled state", pickle.loads(pickle.dumps(rep)), lib, x)
    back = rep
    for o in reversed(ops):
        back = o.adjoint_acton(back)
    state_is(v, "adjoints undo the circuit", back, lib, ket(zs))
    all_ = lib.SBOpRep_Composed(ops, n)
    start = sb_state(lib, zs)
    state_is(v, "composed", all_.acton(start), lib, x)
    state_is(v, "composed, adjoint", all_.adjoint_acton(rep), lib, ket(zs))
    state_is(v, "pickled composition", pickle.loads(pickle.dumps(all_)).acton(start), lib, x)
    state_is(v, "the state acted on is unchanged", start, lib, ket(zs))
    few = w[:3]
    comp = lib.SBOpRep_Composed(ops[:3], n)
    for k in range(4):
        y, z = ket(zs), x
        for i in range(k):
            for g, qs in few:
                y = apply(GATES[g], qs, y)
            for g, qs in reversed(few):
                z = apply(np.asarray(GATES[g]).conj().T, qs, z)
        e = lib.SBOpRep_Exponentiated(comp, k, n)
        state_is(v, "power %d" % k, e.acton(start), lib, y)
        state_is(v, "power %d, adjoint" % k, e.adjoint_acton(rep), lib, z)
        state_is(v, "pickled power %d" % k, pickle.loads(pickle.dumps(e)).acton(start), lib, y)
    # the same circuit embedded in a larger register, in any order
    N = n + 1
    qs2 = tuple(int(q) for q in rnd(v).permutation(N)[:n])
    zs2 = tuple(int(z) for z in rnd(v).randint(0, 2, N))
    big, y = sb_state(lib, zs2), ket(zs2)
    for g, qs in word(v, N, 5):
        big, y = on(lib, g, qs, N).acton(big), apply(GATES[g], qs, y)
    for what, o, rev in (("composition", all_, w), ("nothing", lib.SBOpRep_Composed([], n), []), ("a power", lib.SBOpRep_Exponentiated(comp, 2, n), few * 2),
                         ("no power", lib.SBOpRep_Exponentiated(comp, 0, n), [])):
        e = lib.SBOpRep_Embedded(o, N, i64(*qs2))
        z, za = y, y
        for g, qs in rev:
            z = apply(GATES[g], tuple(qs2[q] for q in qs), z)
        for g, qs in reversed(rev):
            za = apply(np.asarray(GATES[g]).conj().T, tuple(qs2[q] for q in qs), za)
        state_is(v, "embedded " + what, e.acton(big), lib, z)
        state_is(v, "embedded %s, adjoint" % what, e.adjoint_acton(big), lib, za)
        state_is(v, "embedded %s, pickled" % what, pickle.loads(pickle.dumps(e)).acton(big), lib, z)
    state_is(v, "the state acted on is unchanged", big, lib, y)


@unit(P, "frames with several branches", cases=[(l, n) for l in ("fast", "slow") for n in (1, 2, 3)], sym=False, conc=12, conc_s=100,
      funcs=SBF + [T + "StabilizerFrame.extract_all_amplitudes", T + "StabilizerFrame.to_statevec", T + "StabilizerFrame.torep", T + "sframe_kronecker"])
def branches(v, case):
    l, n = case
    lib = LIBS[l]
    rs = rnd(v)
    zs = tuple(int(z) for z in rs.randint(0, 2, n))
    pre = word(v, n, 8)

    def through(f, x, w):
        for g, qs in w:
            s, p = SYMP[g]
            f.clifford_update(s, p, np.asarray(GATES[g], complex), qs)
            x = apply(GATES[g], qs, x)
        return f, x
    f, x = through(stb.StabilizerFrame.from_zvals(n, zs), ket(zs), pre)
    v.eq("state vector", f.to_statevec(), x)
    s, p = np.array(f.s), np.array(f.ps[0])
    ps, amps = [p], [f.a[0]]
    # branches differ by the signs of the stabilizers
    for i in range(int(rs.randint(1, 3))):
        q = p.copy()
        for k in range(n):
            if rs.random_sample() < 0.5:
                q[k] = (q[k] + 2) % 4
        if not any((q == r).all() for r in ps):
            ps.append(q)
            amps.append(complex(rs.normal(), rs.normal()))
    one = [stb.StabilizerFrame(s, [q], [a]) for q, a in zip(ps, amps)]
    x = sum(g.to_statevec() for g in one)
    f = stb.StabilizerFrame(s, ps, amps)
    v.eq("a frame is the sum of its branches", f.to_statevec(), x)
    rep = lib.SBStateRep(cc(np.array(f.s, np.int64)), cc(np.array(f.ps, np.int64)), cc(np.array(f.a, complex)))
    state_is(v, "representation", rep, lib, x)
    g = f.copy()
    w = word(v, n, 12)
    for i, (gt, qs) in enumerate(w):
        rep = on(lib, gt, qs, n).acton(rep)
        f, x2 = through(f, x, [(gt, qs)])
        x = x2
        state_is(v, "after %d operations" % (i + 1), rep, lib, x)
        v.eq("frame after %d operations" % (i + 1), f.to_statevec(), x)
        v.eq("measured probability", [f.measurement_probability(np.array(z), check=True) for z in zvals(n)], np.abs(x)**2)
    v.eq("a copy is separate", g.to_statevec(), sum(h.to_statevec() for h in one))
    if l == "slow":
        tr = f.torep()
        v.eq("representation of a frame", vec_of(tr, fastreplib, n), x)


@unit(P, "tensor products of frames", cases=[(1, 1), (2, 1), (1, 2), (1, 1, 1)], sym=False, conc=6, funcs=[T + "sframe_kronecker", "pygsti.objects.spamvec.TensorProdSPAMVec"])
def kron(v, sizes):
    rs = rnd(v)
    fs, x = [], np.ones(1)
    for n in sizes:
        zs = tuple(int(z) for z in rs.randint(0, 2, n))
        f, y = stb.StabilizerFrame.from_zvals(n, zs), ket(zs)
        for g, qs in word(v, n, 6):
            s, p = SYMP[g]
            f.clifford_update(s, p, np.asarray(GATES[g], complex), qs)
            y = apply(GATES[g], qs, y)
        if rs.random_sample() < 0.5:
            q = np.array(f.ps[0])
            q[int(rs.randint(n))] += 2
            f = stb.StabilizerFrame(f.s, [f.ps[0], q % 4], [f.a[0], complex(rs.normal(), rs.normal())])
            y = y + stb.StabilizerFrame(f.s, [f.ps[1]], [f.a[1]]).to_statevec()
        fs.append(f)
        x = np.kron(x, y)
    k = stb.sframe_kronecker(fs)
    v.eq("product of frames", k.to_statevec(), x)
    n = sum(sizes)
    for g, qs in word(v, n, 4):
        s, p = SYMP[g]
        k.clifford_update(s, p, np.asarray(GATES[g], complex), qs)
        x = apply(GATES[g], qs, x)
    v.eq("product of frames after operations", k.to_statevec(), x)
    preps = [sv.StabilizerSPAMVec(None, None, f) for f in fs]
    t = sv.TensorProdSPAMVec("prep", preps)
    y = np.ones(1)
    for f in fs:
        y = np.kron(y, f.to_statevec())
    v.eq("tensor-product preparation", vec_of(t._rep, fastreplib, n), y)
    v.eq("its vector", np.ravel(t.todense()), y)
    m = pv.TensorProdPOVM([pv.ComputationalBasisPOVM(a, "stabilizer") for a in sizes])
    v.eq("tensor-product measurement", [m["".join(map(str, z))]._rep.probability(t._rep) for z in zvals(n)], np.abs(y)**2)


def all1():
    """the 24 one-qubit Cliffords, as unitaries"""
    seen, todo = [], [np.identity(2, complex)]
    while todo:
        u = todo.pop()
        if any(abs(abs(np.trace(u.conj().T @ w)) - 2) < 1e-9 for w in seen):
            continue
        seen.append(u)
        todo += [H1 @ u, S1 @ u]
    return seen


def close_up_to_scale(a, b):
    return abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < 1e-8


@unit(P, "Clifford operations", cases=["one", "two"], sym=False, conc=3, conc_s=120, weight=2,
      funcs=["pygsti.objects.operation.CliffordOp", "pygsti.objects.spamvec.StabilizerSPAMVec", "pygsti.objects.spamvec.StabilizerEffectVec",
             "pygsti.tools.symplectic.unitary_to_symplectic", "pygsti.tools.symplectic.inverse_clifford"])
def cliffords(v, case):
    C1 = all1()
    v.eq("one-qubit Cliffords", len(C1), 24)
    n = {"one": 1, "two": 2}[case]
    if n == 1:
        us = C1
    else:
        r = rnd(v)
        us = [np.kron(C1[r.randint(24)], C1[r.randint(24)]) @ GATES[TWO[r.randint(len(TWO))]] @ np.kron(C1[r.randint(24)], C1[r.randint(24)]) for i in range(8)]
    for k, u in enumerate(us):
        o = op.CliffordOp(u)
        s, p = symp_of(u)
        v.eq("symplectic matrix of %d" % k, o.smatrix, s)
        v.eq("phases of %d" % k, o.svector, p)
        si, pi = symp_of(u.conj().T)
        v.eq("inverse of %d" % k, o.inv_smatrix, si)
        v.eq("phases of the inverse of %d" % k, o.inv_svector, pi)
        for zs in zvals(n):
            prep = sv.StabilizerSPAMVec(n, zs)
            v.eq("preparation", np.ravel(prep.todense()), ket(zs))
            out = o._rep.acton(prep._rep)
            v.eq("action of %d on %s" % (k, zs), vec_of(out, fastreplib, n), u @ ket(zs))
            v.eq("outcomes", [sv.StabilizerEffectVec(z)._rep.probability(out) for z in zvals(n)], np.abs(u @ ket(zs))**2)
            v.eq("adjoint action of %d on %s" % (k, zs), vec_of(o._rep.adjoint_acton(prep._rep), fastreplib, n), u.conj().T @ ket(zs))
    for z in zvals(n):
        v.eq("effect", np.ravel(sv.StabilizerEffectVec(z).todense()), ket(z))
        v.eq("effect from a vector", list(sv.StabilizerEffectVec.from_dense_purevec(ket(z)).outcomes), list(z))
        v.eq("preparation from a vector", np.ravel(sv.StabilizerSPAMVec.from_dense_purevec(ket(z)).todense()), ket(z))
        v.eq("computational preparation", vec_of(sv.ComputationalSPAMVec(z, "stabilizer")._rep, fastreplib, n), ket(z))
        e = sv.ComputationalSPAMVec(z, "stabilizer", "effect")
        v.eq("computational effect", [e._rep.probability(sv.StabilizerSPAMVec(n, y)._rep) for y in zvals(n)], [1.0 if y == z else 0.0 for y in zvals(n)])
    t = spl.expm(1j * np.pi / 8 * PAULI["Z"])
    t = t if n == 1 else np.kron(t, I2)
    try:
        op.CliffordOp(t)
        v.check("a non-Clifford unitary is refused", False)
    except ValueError:
        v.check("a non-Clifford unitary is refused", True)


@unit(P, "models of Cliffords", cases=[1, 2, 3], sym=False, conc=4, conc_s=120, weight=2,
      funcs=["pygsti.objects.mapforwardsim.MapForwardSimulator", "pygsti.objects.operation.EmbeddedOp", "pygsti.objects.operation.ComposedOp",
             "pygsti.objects.operation.ExponentiatedOp", "pygsti.objects.povm.ComputationalBasisPOVM"])
def models(v, n):
    from pygsti.objects.circuit import Circuit
    lbls = tuple("Q%d" % i for i in range(n))
    m = pygsti.objects.ExplicitOpModel([lbls], evotype="stabilizer", sim_type="map")
    rs = rnd(v)
    zs = tuple(int(z) for z in rs.randint(0, 2, n))
    m["rho0"] = sv.StabilizerSPAMVec(n, zs)
    m["Mdefault"] = pv.ComputationalBasisPOVM(n, "stabilizer")
    us = {}
    names = []
    for i, (g, qs) in enumerate(word(v, n, 5)):
        o = op.CliffordOp(np.asarray(GATES[g], complex))
        if n > 1 or rs.random_sample() < 0.5:
            o = op.EmbeddedOp([lbls], [lbls[q] for q in qs], o)
        m["Gg%d" % i] = o
        names.append("Gg%d" % i)
        us[names[-1]] = [(g, qs)]
    def emb(g, qs):
        return op.EmbeddedOp([lbls], [lbls[q] for q in qs], op.CliffordOp(np.asarray(GATES[g], complex)))
    w = word(v, n, 3)
    m["Gcomp"] = op.ComposedOp([emb(*x) for x in w])
    us["Gcomp"] = w
    names.append("Gcomp")
    for k in range(4):
        x = word(v, n, 2)
        m["Gpow%d" % k] = op.ExponentiatedOp(op.ComposedOp([emb(*y) for y in x]), k)
        us["Gpow%d" % k] = x * k
        names.append("Gpow%d" % k)
    circs = [[names[rs.randint(len(names))] for i in range(ln)] for ln in (0, 1, 2, 4, 6)]
    cs = [Circuit(c) for c in circs]
    exp = []
    for c in circs:
        x = ket(zs)
        for nm in c:
            for g, qs in us[nm]:
                x = apply(GATES[g], qs, x)
        exp.append(np.abs(x)**2)
    for c, e in zip(cs, exp):
        p = m.probs(c)
        v.eq("probabilities of %s" % (c.str,), [p["".join(map(str, z))] for z in zvals(n)], e)
    bulk = m.bulk_probs(cs)
    v.eq("probabilities in bulk", [[bulk[c]["".join(map(str, z))] for z in zvals(n)] for c in cs], exp)
    # the same circuits of the same unitaries, as state vectors
    for sim in ("map", "matrix"):
        q = pygsti.objects.ExplicitOpModel([lbls], evotype="statevec", sim_type=sim)
        q["rho0"] = sv.ComputationalSPAMVec(zs, "statevec")
        q["Mdefault"] = pv.ComputationalBasisPOVM(n, "statevec")
        for nm, w in us.items():
            u = np.identity(2**n, complex)
            for g, qs in w:
                u = np.array([apply(GATES[g], qs, col) for col in u.T]).T
            q[nm] = op.StaticDenseOp(u, "statevec")
        p = q.bulk_probs(cs) if sim == "map" else dict((c, q.probs(c)) for c in cs)  # (a stated refusal: matrices have no bulk form)
        v.eq("state vectors in bulk, %s" % sim, [[p[c]["".join(map(str, z))] for z in zvals(n)] for c in cs], exp)
        v.eq("state vectors, %s" % sim, [[q.probs(c)["".join(map(str, z))] for z in zvals(n)] for c in cs], exp)
    m2 = pickle.loads(pickle.dumps(m))
    p = [m2.probs(c) for c in cs]
    v.eq("probabilities of the pickled model", [[q["".join(map(str, z))] for z in zvals(n)] for q in p], exp)
    p = [m.copy().probs(c) for c in cs]
    v.eq("probabilities of the copied model", [[q["".join(map(str, z))] for z in zvals(n)] for q in p], exp)

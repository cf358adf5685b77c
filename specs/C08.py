"""C08: binary linear algebra and the symplectic representation of Clifford operations."""

LEVEL = "proof"
LEVEL_NOTE = ("Every entry of every matrix, phase vector and seed is a symbolic bit. Composition, inversion, embedding, tensor "
              "products, Pauli corrections and phase vectors are proved for all Cliffords of 1 and 2 qubits (composition, "
              "embedding and products also for 3); elimination, inverses, systems and determinants for all invertible matrices "
              "up to 4x4; transvections for all vectors up to 6 bits. The numbering of the symplectic group is enumerated "
              "completely for 1 and 2 qubits. Albert's factorisation, random matrices, larger sizes and unitaries are bounded "
              "checks on drawn inputs.")
ASSUMPTIONS = ["integers are mathematical (no int8 or int64 overflow)",
               "numpy.random.randint returns a value of the requested range (every one is considered where it is modelled)"]
import itertools
import numpy as np
import pygsti
from pygsti.objects.label import Label
from pygsti.objects.circuit import Circuit
from pygsti.tools import matrixmod2 as m2, symplectic as sy
from pyvc.core import And, SBool, PathEnd
from pyvc.facade import unit

P = "C08"
M = "pygsti.tools.matrixmod2."
S = "pygsti.tools.symplectic."
MODS = ["pygsti.tools.matrixmod2", "pygsti.tools.symplectic"]


# ------------------------------------------------------------------ the meaning of a symplectic matrix and phase vector
#
# A Pauli (x, z, k) stands for i^k X^x Z^z.  The Clifford (s, p) sends generator j (X_1..X_n, then Z_1..Z_n) to the
# Pauli in column j of s with phase p[j].

def times(a, b, n):
    """product of two Paulis given as (vector of x and z bits, phase)"""
    sign = 0
    for q in range(n):
        sign = sign + a[0][n + q] * b[0][q]
    return [(x + y) % 2 for x, y in zip(a[0], b[0])], (a[1] + b[1] + 2 * sign) % 4


def power(e, a):
    return [e * x for x in a[0]], (e * a[1]) % 4


def image(s, p, vec, k, n):
    """the Pauli that (s, p) conjugates (vec, k) to"""
    r = ([0] * (2 * n), 0)
    for j in range(2 * n):
        r = times(r, power(vec[j], ([s[i, j] for i in range(2 * n)], p[j])), n)
    return r[0], (r[1] + k) % 4


def valid(s, p):
    """the images of the generators are Hermitian and commute as the generators do"""
    n = len(p) // 2
    r = []
    for a in range(2 * n):
        for b in range(a + 1, 2 * n):
            w = 0
            for q in range(n):
                w = w + s[q, a] * s[n + q, b] + s[n + q, a] * s[q, b]
            r.append(w % 2 == (1 if b == a + n else 0))
        w = p[a]
        for q in range(n):
            w = w + s[q, a] * s[n + q, a]
        r.append(w % 2 == 0)
    return And(*r)


GENS = {"H": ([[0, 1], [1, 0]], [0, 0]), "P": ([[1, 0], [1, 1]], [1, 0]), "X": ([[1, 0], [0, 1]], [0, 2]), "Z": ([[1, 0], [0, 1]], [2, 0]),
        "C": ([[1, 0, 0, 0], [1, 1, 0, 0], [0, 0, 1, 1], [0, 0, 0, 1]], [0, 0, 0, 0])}


def gen(rng, n):
    """a Clifford drawn as a product of generators, multiplied by the oracle"""
    s, p = np.identity(2 * n, int), np.zeros(2 * n, int)
    for _ in range(rng.randint(0, 6 * n)):
        g = rng.choice("HPXZC" if n > 1 else "HPXZ")
        qs = rng.sample(range(n), 2 if g == "C" else 1)
        gs, gp = embed(np.array(GENS[g][0]), np.array(GENS[g][1]), qs, n)
        cols = [image(gs, gp, s[:, j], p[j], n) for j in range(2 * n)]
        s, p = np.array([c[0] for c in cols]).T, np.array([c[1] for c in cols])
    return s, p


def embed(s, p, qs, n):
    m = len(qs)
    S, Q = np.identity(2 * n, dtype=object), np.zeros(2 * n, dtype=object)
    rows = list(qs) + [q + n for q in qs]
    for i, a in enumerate(rows):
        Q[a] = p[i]
        for j, b in enumerate(rows):
            S[a, b] = s[i, j]
    return S, Q


def clifford(v, name, n, assume=True, rows=False):
    if v.symbolic:
        s = v.words(name + "s", (2 * n, 2 * n))
        p = v.words(name + "p", (2 * n,), 2)
    else:
        s0, p0 = gen(v.rng, n)
        s = np.array([[v._get("%ss_%d_%d" % (name, i, j), lambda: int(s0[i, j])) for j in range(2 * n)] for i in range(2 * n)])
        p = np.array([v._get("%sp_%d" % (name, i), lambda: int(p0[i])) for i in range(2 * n)])
    if assume:
        v.assume(valid(s, p))
        # for square matrices a right inverse is a left inverse, so the rows pair up as the columns do ("validity" proves
        # this for 1 and 2 qubits; it is a lemma of linear algebra for more)
        r = []
        for a in range(2 * n):
            for b in range(a + 1, 2 * n):
                w = 0
                for q in range(n):
                    w = w + s[a, q] * s[b, n + q] + s[a, n + q] * s[b, q]
                r.append(w % 2 == (1 if b == a + n else 0))
        if n > 2 or rows:
            v.assume(And(*r))
    return s, p


def same_columns(v, label, s, p, cols):
    for j, (vec, k) in enumerate(cols):
        v.eq("%s: column %d" % (label, j), s[:, j], vec)
        v.eq("%s: phase %d" % (label, j), p[j], k)


def col(s, p, j): return s[:, j], p[j]


# ------------------------------------------------------------------ Cliffords

@unit(P, "validity", cases=[1, 2], words=MODS, conc=20,
      funcs=[S + "check_symplectic", S + "check_valid_clifford", S + "symplectic_form", M + "dotmod2", M + "diagonal_as_vec"])
def validity(v, n):
    s, p = clifford(v, "c", n, assume=False)
    v.assume(valid(s, p))
    v.check("accepted", sy.check_valid_clifford(s, p))
    v.check("symplectic", sy.check_symplectic(s))


@unit(P, "invalidity", cases=[1, 2], words=MODS, conc=20, funcs=[S + "check_symplectic", S + "check_valid_clifford"])
def invalidity(v, n):
    if v.symbolic:
        s, p = clifford(v, "c", n, assume=False)
    else:
        s = np.array([[v.int("s_%d_%d" % (i, j), 0, 1) for j in range(2 * n)] for i in range(2 * n)])
        p = np.array([v.int("p_%d" % i, 0, 3) for i in range(2 * n)])
    ok = sy.check_symplectic(s)
    want = valid(s, [sum([s[q, a] * s[n + q, a] for q in range(n)], 0) % 4 for a in range(2 * n)])
    v.check("symplectic exactly when it should be", ok == want)
    try:
        r = sy.check_valid_clifford(s, p)
    except AssertionError:
        r = False
    v.check("accepted only when valid", r == valid(s, p))


@unit(P, "composition", cases=[1, 2, 3], words=MODS, conc=30, budget=200, timeout_ms=60000, weight=5,
      funcs=[S + "compose_cliffords", M + "strictly_upper_triangle", M + "diagonal_as_matrix"])
def compose(v, n):
    s1, p1 = clifford(v, "a", n, rows=True)
    s2, p2 = clifford(v, "b", n, rows=True)
    s, p = sy.compose_cliffords(s1, p1, s2, p2)
    same_columns(v, "first then second", s, p, [image(s2, p2, *col(s1, p1, j), n) for j in range(2 * n)])


@unit(P, "composition is associative and has an identity", cases=[1], words=MODS, conc=20, budget=200, timeout_ms=60000,
      funcs=[S + "compose_cliffords"])
def compose2(v, n):
    a, b, c = [clifford(v, x, n, rows=True) for x in "abc"]
    x = sy.compose_cliffords(*sy.compose_cliffords(*a, *b), *c)
    y = sy.compose_cliffords(*a, *sy.compose_cliffords(*b, *c))
    v.eq("associative", x[0], y[0])
    v.eq("associative phase", x[1], y[1])
    one = (v.arr(np.identity(2 * n, dtype=object)), v.arr(np.zeros(2 * n, dtype=object)))
    for label, z in (("left", sy.compose_cliffords(*one, *a)), ("right", sy.compose_cliffords(*a, *one))):
        v.eq(label + " identity", z[0], a[0])
        v.eq(label + " identity phase", z[1], a[1])


@unit(P, "inverse", cases=[1, 2], words=MODS, conc=30, budget=200, timeout_ms=60000, weight=5,
      funcs=[S + "inverse_clifford", S + "inverse_symplectic", S + "compose_cliffords"])
def inverse(v, n):
    s, p = clifford(v, "c", n)
    si, pi = sy.inverse_clifford(s, p)
    v.eq("inverse matrix", sy.inverse_symplectic(s), si)
    one, zero = np.identity(2 * n, dtype=object), np.zeros(2 * n, dtype=object)
    for label, (a, b) in (("then", sy.compose_cliffords(s, p, si, pi)), ("before", sy.compose_cliffords(si, pi, s, p))):
        v.eq(label, a, one)
        v.eq(label + " phase", b, zero)


SPOTS = [(1, 2, (0,)), (1, 2, (1,)), (2, 2, (0, 1)), (2, 2, (1, 0)), (1, 3, (1,)), (2, 3, (0, 2)), (2, 3, (2, 0)), (2, 3, (2, 1)),
         (3, 3, (1, 2, 0)), (2, 4, (3, 1)), (3, 4, (3, 0, 2))]


@unit(P, "embedding", cases=SPOTS, words=MODS, conc=10, funcs=[S + "embed_clifford"])
def embedding(v, case):
    m, n, qs = case
    s, p = clifford(v, "c", m, assume=False)
    es, ep = sy.embed_clifford(s, p, list(qs), n)
    wide = [q for q in qs] + [q + n for q in qs]
    for j in range(2 * n):
        vec, k = [0] * (2 * n), 0
        if j in wide:                       # a generator on an embedded qubit
            i = wide.index(j)
            for r, w in enumerate(wide):
                vec[w] = s[r, i]
            k = p[i]
        else:
            vec[j] = 1
        v.eq("column %d" % j, es[:, j], vec)
        v.eq("phase %d" % j, ep[j], k)
    es2, _ = sy.embed_clifford(s, p, tuple(qs), n)
    v.eq("again", es2, es)


@unit(P, "embedded Cliffords are valid", cases=SPOTS[:8], words=MODS, conc=5, timeout_ms=20000, budget=60, funcs=[S + "embed_clifford"])
def embedding_valid(v, case):
    m, n, qs = case
    s, p = clifford(v, "c", m)
    v.check("valid", sy.check_valid_clifford(*sy.embed_clifford(s, p, list(qs), n)))


@unit(P, "tensor product", cases=[(1, 1), (1, 2), (2, 1), (1, 1, 1), (2, 2), (3, 1), (1,)], words=MODS, conc=10,
      funcs=[S + "symplectic_kronecker"])
def kron(v, sizes):
    cs = [clifford(v, "c%d" % i, m, assume=False) for i, m in enumerate(sizes)]
    n = sum(sizes)
    S_, P_ = sy.symplectic_kronecker(cs)
    v.check("shape", S_.shape == (2 * n, 2 * n) and P_.shape == (2 * n,))
    exp, ph = np.zeros((2 * n, 2 * n), dtype=object), np.zeros(2 * n, dtype=object)
    off = 0
    for (s, p), m in zip(cs, sizes):
        rows = list(range(off, off + m)) + list(range(n + off, n + off + m))
        for i, a in enumerate(rows):
            ph[a] = p[i]
            for j, b in enumerate(rows):
                exp[a, b] = s[i, j]
        off += m
    v.eq("matrix", S_, exp)
    v.eq("phases", P_, ph)


@unit(P, "action on a stabilizer state", cases=[1, 2, 3], words=MODS, conc=20, timeout_ms=30000, budget=100, funcs=[S + "apply_clifford_to_stabilizer_state"])
def act(v, n):
    s, p = clifford(v, "c", n)
    ss, sp = clifford(v, "st", n)
    os_, op = sy.apply_clifford_to_stabilizer_state(s, p, ss, sp)
    same_columns(v, "generator images", os_, op, [image(s, p, *col(ss, sp, j), n) for j in range(2 * n)])


def rep(sy_name):
    return sy.get_internal_gate_symplectic_representations([sy_name])[sy_name]


@unit(P, "Pauli corrections", cases=[1, 2], words=MODS, conc=30, timeout_ms=30000, budget=200, weight=3,
      funcs=[S + "find_postmultipled_pauli", S + "find_premultipled_pauli"])
def pauli_fix(v, n):
    s, p = clifford(v, "c", n)
    # any other phase vector valid for the same matrix differs by an even vector
    d = v.words("d", (2 * n,))
    t = v.arr(np.array([(a + 2 * b) % 4 for a, b in zip(p, d)], dtype=object))
    labels = ["q%d" % i for i in range(n)]
    post = sy.find_postmultipled_pauli(s, p, t)
    pre = sy.find_premultipled_pauli(s, p, t, labels)
    v.check("one Pauli per qubit", [q for _, q in post] == list(range(n)) and [q for _, q in pre] == labels)
    lay = lambda ps: sy.symplectic_kronecker([rep(g) for g, _ in ps])
    ident = v.arr(np.identity(2 * n, dtype=object))
    for label, ps, after in (("after", post, True), ("before", pre, False)):
        Ls, Lp = lay(ps)
        v.eq("Pauli layer is the identity matrix", Ls, ident)
        cols = ([image(Ls, Lp, *col(s, p, j), n) for j in range(2 * n)] if after else [image(s, p, *col(Ls, Lp, j), n) for j in range(2 * n)])
        same_columns(v, "corrected " + label, s, t, cols)


@unit(P, "phase vectors", cases=[1, 2], words=MODS, conc=20, timeout_ms=30000, budget=100,
      funcs=[S + "construct_valid_phase_vector", S + "random_phase_vector"])
def phase_vectors(v, n):
    s, _ = clifford(v, "c", n)
    seed = v.words("seed", (2 * n,), 2)
    if v.symbolic:
        keep = seed.copy()
    else:
        keep = np.array(seed)
    out = sy.construct_valid_phase_vector(s, seed)
    v.check("valid", valid(s, out))
    for i in range(2 * n):
        d = (out[i] - keep[i]) % 4
        v.check("the seed, raised by at most one", (d == 0) if bool(d != 1) else True)
    v.eq("seed unchanged", seed, keep)


@unit(P, "random phase vectors", cases=[1, 2], words=MODS, conc=20, timeout_ms=30000, budget=100, sym=False,
      funcs=[S + "random_phase_vector", S + "random_clifford"])
def random_phases(v, n):
    s, _ = gen(v.rng, n)
    seen = set()
    old = np.random.randint
    try:
        for idx in itertools.product((0, 1), repeat=2 * n):
            asked = []

            def fake(hi, *a, size=None, **k):
                asked.append((hi, size))
                return np.array(idx)
            np.random.randint = fake
            p = sy.random_phase_vector(s, n)
            v.check("one bit per generator", asked == [(2, 2 * n)])
            v.check("valid", bool(valid(s, p)))
            seen.add(tuple(int(x) for x in p))
    finally:
        np.random.randint = old
    v.check("every valid phase vector can be drawn", len(seen) == 4 ** n)


ROWOPS = [("H", (0,)), ("H", (1,)), ("P", (0,)), ("P", (1,)), ("CNOT", (0, 1)), ("CNOT", (1, 0)), ("SWAP", (0, 1)), ("CNOT", (2, 0)),
          ("SWAP", (1, 2)), ("H", (2,))]


@unit(P, "row and column operations", cases=ROWOPS, words=MODS, conc=10, funcs=[S + "apply_internal_gate_to_symplectic"])
def rowops(v, case):
    g, qs = case
    n = 3 if max(qs) > 1 else 2
    a = v.words("s", (2 * n, 2 * n))
    gs, _ = embed(*[np.array(x) for x in rep(g)], qs, n)
    r, c = a.copy(), a.copy()
    sy.apply_internal_gate_to_symplectic(r, g, list(qs), optype="row")
    sy.apply_internal_gate_to_symplectic(c, g, list(qs), optype="column")
    v.eq("row operation applies the gate afterwards", r, v.np.dot(v.arr(gs), a) % 2)
    v.eq("column operation applies the gate first", c, v.np.dot(a, v.arr(gs)) % 2)
    v.raises("unknown gate", ValueError, lambda: sy.apply_internal_gate_to_symplectic(r, "nope", [0]))


@unit(P, "symplectic form conventions", cases=[1, 2, 3, 4], words=MODS, conc=5,
      funcs=[S + "change_symplectic_form_convention", S + "symplectic_form"])
def conventions(v, n):
    a = v.words("s", (2 * n, 2 * n))
    order = [i for q in range(n) for i in (q, n + q)]        # directsum index -> standard index
    d = sy.change_symplectic_form_convention(a, outconvention="directsum")
    v.eq("to direct sum", d, a[np.ix_(order, order)])
    v.eq("and back", sy.change_symplectic_form_convention(d), a)
    f, g = sy.symplectic_form(n), sy.symplectic_form(n, "directsum")
    v.eq("forms correspond", f[np.ix_(order, order)] if n > 1 else f, g)
    v.eq("form", f, np.block([[np.zeros((n, n), int), np.identity(n, int)], [np.identity(n, int), np.zeros((n, n), int)]]))


@unit(P, "validity in either convention", cases=[2], words=MODS, conc=10, timeout_ms=30000, funcs=[S + "check_symplectic"])
def conv_valid(v, n):
    s, p = clifford(v, "c", n)
    v.check("direct sum", sy.check_symplectic(sy.change_symplectic_form_convention(s, outconvention="directsum"), convention="directsum"))


@unit(P, "layers", cases=[([("A", 0)], 1), ([("A", 1)], 2), ([("A", 0), ("A", 1)], 2), ([("B", 0, 1)], 2), ([("B", 1, 0)], 2), ([("B", 2, 0), ("A", 1)], 3),
                          ([("A", 2), ("A", 0)], 3), ([], 2), ([("B", 1, 2)], 3)], words=MODS, conc=10,
      funcs=[S + "symplectic_rep_of_clifford_layer"])
def layers(v, case):
    gates, n = case
    A, B_ = clifford(v, "A", 1, assume=False), clifford(v, "B", 2, assume=False)
    for ql in (None, ["Q%d" % i for i in range(n)]):
        lab = Label([(g[0],) + tuple(q if ql is None else ql[q] for q in g[1:]) for g in gates]) if gates else Label(())
        s, p = sy.symplectic_rep_of_clifford_layer(lab, n if ql is None else None, ql, {"A": A, "B": B_})
        exp, ph = np.identity(2 * n, dtype=object), np.zeros(2 * n, dtype=object)
        for g in gates:
            es, ep = embed(*(A if g[0] == "A" else B_), g[1:], n)
            rows = list(g[1:]) + [q + n for q in g[1:]]
            for a in rows:
                ph[a] = ep[a]
                for b in rows:
                    exp[a, b] = es[a, b]
        v.eq("layer", s, exp)
        v.eq("layer phases", p, ph)


@unit(P, "circuits", cases=[1, 2, 3], words=MODS, conc=10, timeout_ms=30000, budget=100,
      funcs=[S + "symplectic_rep_of_clifford_circuit", S + "symplectic_rep_of_clifford_layer"])
def circuits(v, depth):
    n = 1 if depth == 3 else 2
    A, B_ = clifford(v, "A", 1), clifford(v, "B", 2)
    lays = [[("A", 0)], [("B", 1, 0)], [("A", 1)]][:depth] if n == 2 else [[("A", 0)]] * 3
    c = Circuit([Label(l) for l in lays], line_labels=tuple(range(n)), editable=False)
    s, p = sy.symplectic_rep_of_clifford_circuit(c, {"A": A, "B": B_})
    cols = [([1 if i == j else 0 for i in range(2 * n)], 0) for j in range(2 * n)]
    for l in lays:
        (g,) = l
        es, ep = embed(*(A if g[0] == "A" else B_), g[1:], n)
        cols = [image(es, ep, vec, k, n) for vec, k in cols]
    same_columns(v, "layers in order", s, p, cols)


# ------------------------------------------------------------------ numbering of the symplectic group

@unit(P, "transvections", cases=[1, 2, 3], words=MODS, conc=20, budget=100, max_paths=20000, weight=3,
      funcs=[S + "symplectic_innerproduct", S + "symplectic_transvection", S + "find_symplectic_transvection"])
def transvections(v, n):
    x, y, k = [v.words(c, (2 * n,)) for c in "xyk"]
    ip = lambda a, b: sum([a[2 * i] * b[2 * i + 1] + a[2 * i + 1] * b[2 * i] for i in range(n)], 0) % 2
    v.eq("inner product", sy.symplectic_innerproduct(x, y), ip(x, y))
    t = sy.symplectic_transvection(k, x)
    v.eq("transvection", t, [(a + ip(k, x) * b) % 2 for a, b in zip(x, k)])
    v.eq("keeps inner products", ip(t, sy.symplectic_transvection(k, y)), ip(x, y))
    if v.symbolic:
        v.assume(nonzero(x))
        v.assume(nonzero(y))
    else:
        v.assume(np.any(x) and np.any(y))
    T = sy.find_symplectic_transvection(x, y)
    z = sy.symplectic_transvection(T[1], sy.symplectic_transvection(T[0], x))
    v.eq("two transvections take x to y", z, y)


def nonzero(x):
    import z3
    return SBool(z3.Or([SBool._z(e != 0) for e in x]))


@unit(P, "numbering of the symplectic group", cases=[1, 2, 3, 4], sym=False, conc=1, conc_s=60, weight=2,
      funcs=[S + f for f in ("get_symplectic_matrix", "get_symplectic_label", "numberofsymplectic", "numberofcosets", "numberofcliffords",
                             "int_to_bitstring", "bitstring_to_int", "random_symplectic_index", "random_symplectic_matrix", "random_clifford")])
def numbering(v, n):
    N = sy.numberofsymplectic(n)
    v.check("group order", N == [6, 720, 1451520, 47377612800][n - 1] and sy.numberofcliffords(n) == N * 4 ** n)
    idx = range(N) if n <= 2 else [0, 1, N - 1] + [v.rng.randrange(N) for _ in range(60)]
    form = sy.symplectic_form(n, "directsum")
    seen = set()
    for i in idx:
        m = sy.get_symplectic_matrix(i, n)
        v.check("symplectic", np.array_equal(m.dot(form).dot(m.T) % 2, form) and m.shape == (2 * n, 2 * n) and set(np.unique(m)) <= {0, 1})
        v.check("label of the matrix is its number", sy.get_symplectic_label(m, n) == i)
        seen.add(m.tobytes())
    v.check("distinct", len(seen) == len(set(idx)))
    for k in range(40):
        b = sy.int_to_bitstring(k, 7)
        v.check("bits", [int(x) for x in b] == [k >> j & 1 for j in range(7)] and sy.bitstring_to_int(b, 7) == k)
    np.random.seed(v.rng.randrange(10 ** 6))
    for m in (n, n + 2, 7):
        s = sy.random_symplectic_matrix(m)
        v.check("random symplectic", sy.check_symplectic(s))
        v.check("random symplectic, direct sum", sy.check_symplectic(sy.random_symplectic_matrix(m, "directsum"), "directsum"))
        s, p = sy.random_clifford(m)
        v.check("random Clifford", bool(valid(s, p)))


@unit(P, "random index of the symplectic group", cases=[1, 2, 3, 5, 6, 7, 10], sym=False, conc=4, funcs=[S + "random_symplectic_index"])
def random_index(v, n):
    N = sy.numberofsymplectic(n)
    v.check("order", N == 2 ** (n * n) * int(np.prod([4 ** j - 1 for j in range(1, n + 1)], dtype=object)))
    old = np.random.randint
    try:
        for mode in ("low", "high", "mixed", "mixed"):
            tries, his, got = [0], [], []

            def fake(hi, *a, **k):
                v.check("range of a draw", 0 < hi <= 2 ** 63)
                his.append(hi)
                if mode == "high" and len(his) < 40:
                    got.append(hi - 1)
                elif mode == "low" or mode == "high":
                    got.append(0)
                else:
                    got.append(v.rng.randrange(hi))
                return got[-1]
            np.random.randint = fake
            i = sy.random_symplectic_index(n)
            v.check("in range", 0 <= i < N)
            # every index can be drawn: the draws of the last attempt are its digits
            k = 1 if N <= 2 ** 63 else len(str(N)) // 18 + 1
            hs, gs = his[-k:], got[-k:]
            v.check("enough digits", int(np.prod(hs, dtype=object)) >= N)
            if k > 1:
                val = 0
                for h, g in zip([hs[-1]] + hs[:-1], [gs[-1]] + gs[:-1]):
                    val = val * h + g
                v.check("digits of the index", val == i)
            else:
                v.check("the draw itself", hs == [N] and i == gs[0])
    finally:
        np.random.randint = old


# ------------------------------------------------------------------ named gates and unitaries

PX, PZ = np.array([[0, 1], [1, 0]]), np.diag([1, -1])


def pauli_matrix(vec, k, n):
    r = np.identity(1)
    for q in range(n):
        r = np.kron(r, np.linalg.matrix_power(PX, int(vec[q])) @ np.linalg.matrix_power(PZ, int(vec[n + q])))
    # X^x Z^z qubit by qubit equals (all X)(all Z): operators of different qubits commute
    return 1j ** int(k) * r


def represents(v, label, U, s, p):
    n = len(p) // 2
    for j in range(2 * n):
        e = [0] * (2 * n)
        e[j] = 1
        v.eq(label, U @ pauli_matrix(e, 0, n) @ U.conj().T, pauli_matrix(s[:, j], p[j], n))


@unit(P, "named gates represent their unitaries", sym=False, conc=1,
      funcs=[S + f for f in ("get_internal_gate_symplectic_representations", "oneQclifford_symplectic_group_relations")])
def named(v):
    from pygsti.tools.internalgates import get_internal_gate_unitaries
    us = get_internal_gate_unitaries()
    reps = sy.get_internal_gate_symplectic_representations()
    v.check("same gates", set(reps) == set(us))
    for g, (s, p) in reps.items():
        represents(v, g, np.array(us[g]), s, p)
        a, b = sy.unitary_to_symplectic(np.array(us[g], complex))
        v.eq(g + " from the unitary", a, s)
        v.eq(g + " from the unitary, phase", b, p)
    one = sorted(sy.get_internal_gate_symplectic_representations(["H", "P"]))
    v.check("subset", one == ["H", "P"])
    for (a, b), c in sy.oneQclifford_symplectic_group_relations().items():
        s, p = sy.compose_cliffords(*reps[a], *reps[b])
        v.eq("%s then %s is %s up to a Pauli" % (a, b, c), s, reps[c][0])


def random_circuit_unitary(v, n):
    U = np.identity(2 ** n, complex)
    for _ in range(v.rng.randint(0, 8)):
        g = v.rng.choice(["H", "P", "C", "X", "Z"] if n == 2 else ["H", "P", "X", "Z"])
        m = {"H": np.array([[1, 1], [1, -1]]) / np.sqrt(2), "P": np.diag([1, 1j]), "X": PX, "Z": PZ,
             "C": np.diag([1, 1, 1, 1])[[0, 1, 3, 2]]}[g]
        if g != "C" and n == 2:
            m = np.kron(m, np.identity(2)) if v.rng.random() < .5 else np.kron(np.identity(2), m)
        elif g == "C" and v.rng.random() < .5:
            m = np.diag([1, 1, 1, 1])[[0, 3, 2, 1]]
        U = m @ U
    return U * np.exp(1j * v.rng.uniform(0, 6))


@unit(P, "unitaries", cases=[1, 2], sym=False, conc=30, conc_s=30, funcs=[S + "unitary_to_symplectic", S + "unitary_is_a_clifford"])
def unitaries(v, n):
    U, W = random_circuit_unitary(v, n), random_circuit_unitary(v, n)
    s, p = sy.unitary_to_symplectic(U)
    represents(v, "conjugation", U, s, p)
    t, q = sy.unitary_to_symplectic(W)
    represents(v, "composition", W @ U, *sy.compose_cliffords(s, p, t, q))
    represents(v, "inverse", U.conj().T, *sy.inverse_clifford(s, p))
    v.check("Clifford", sy.unitary_is_a_clifford(U))
    T = np.diag([1, np.exp(1j * v.rng.choice([np.pi / 4, 0.3, np.pi / 8]))])
    T = T if n == 1 else np.kron(T, np.identity(2))
    v.check("not a Clifford", not sy.unitary_is_a_clifford(U @ T @ W))
    v.raises("refused", ValueError, lambda: sy.unitary_to_symplectic(U @ T))
    u1, u2 = (U, W) if n == 1 else (random_circuit_unitary(v, 1), random_circuit_unitary(v, 1))
    represents(v, "tensor product", np.kron(u1, u2), *sy.symplectic_kronecker([sy.unitary_to_symplectic(u1), sy.unitary_to_symplectic(u2)]))


@unit(P, "bitstring of a Pauli", cases=[1, 2, 3], sym=False, conc=10, funcs=[S + "bitstring_for_pauli"])
def bitstring(v, n):
    p = np.array([2 * v.int("p%d" % i, 0, 1) for i in range(2 * n)])
    keep = p.copy()
    # phases p of the identity matrix: X on a qubit flips the sign of its Z
    b = sy.bitstring_for_pauli(p)
    v.check("flipped bits", [int(x) for x in b] == [int(x) // 2 for x in keep[n:]])
    v.check("argument unchanged", np.array_equal(p, keep))


# ------------------------------------------------------------------ linear algebra modulo 2

def invertible(v, n, name="a"):
    """an invertible matrix: symbolically, one for which an inverse is given"""
    if v.symbolic:
        a, w = v.words(name, (n, n)), v.words(name + "inv", (n, n))
        one = np.identity(n, int)
        d = v.np.dot(a, w) % 2
        v.assume(And(*[d[i, j] == one[i, j] for i in range(n) for j in range(n)]))
        return a
    while True:
        m = np.array([[v.rng.randint(0, 1) for _ in range(n)] for _ in range(n)])
        if rank2(m) == n:
            break
    m = np.array([[v._get("%s_%d_%d" % (name, i, j), lambda: int(m[i, j])) for j in range(n)] for i in range(n)])
    v.assume(rank2(m) == n)
    return m


def rank2(m):
    rows = [int("".join(str(int(x)) for x in r), 2) for r in m]
    r = 0
    while rows:
        p = rows.pop()
        if p:
            r += 1
            l = p & -p
            rows = [q ^ p if q & l else q for q in rows]
    return r


@unit(P, "inverse and linear systems", cases=[1, 2, 3], thorough_cases=[4], words=MODS, conc=10, budget=400, timeout_ms=20000, weight=4, max_paths=5000,
      funcs=[M + f for f in ("inv_mod2", "Axb_mod2", "gaussian_elimination_mod2", "dotmod2")])
def inverse2(v, n):
    a = invertible(v, n)
    b = v.words("b", (n,))
    i = m2.inv_mod2(a)
    one = np.identity(n, dtype=object)
    v.eq("right inverse", m2.dotmod2(a, i), one)
    v.eq("left inverse", m2.dotmod2(i, a), one)
    x = m2.Axb_mod2(a, b)
    v.check("column", x.shape == (n, 1))
    v.eq("solves the system", m2.dotmod2(a, x)[:, 0], b)


@unit(P, "determinant", cases=[1, 2, 3, 4], words=MODS, conc=10, budget=100, weight=3, max_paths=5000, funcs=[M + "detmod2"])
def det(v, n):
    a = v.words("a", (n, n))
    d = m2.detmod2(a)
    exp = 0
    for q in itertools.permutations(range(n)):
        t = 1
        for i, j in enumerate(q):
            t = t * a[i, j]
        exp = exp + t
    v.eq("Leibniz formula", d, exp % 2)


@unit(P, "large matrices", cases=[5, 12, 40, 70], sym=False, conc=3, conc_s=40,
      funcs=[M + f for f in ("detmod2", "inv_mod2", "Axb_mod2", "random_invertable_matrix", "random_symmetric_invertable_matrix")])
def large(v, n):
    r = np.random.RandomState(v.rng.randrange(10 ** 6))
    m = r.randint(0, 2, (n, n))
    v.check("determinant", m2.detmod2(m) == (rank2(m) == n))
    if v.rng.random() < .7:
        L = np.tril(r.randint(0, 2, (n, n)), -1) + np.identity(n, int)
        U = np.triu(r.randint(0, 2, (n, n)), 1) + np.identity(n, int)
        m = L.dot(U) % 2
    v.check("determinant", m2.detmod2(m) == (rank2(m) == n))
    if rank2(m) == n:
        v.eq("inverse", m2.dotmod2(m, m2.inv_mod2(m)), np.identity(n))
        b = r.randint(0, 2, n)
        v.eq("system", m2.dotmod2(m, m2.Axb_mod2(m, b))[:, 0], b)
    np.random.seed(v.rng.randrange(10 ** 6))
    v.check("random invertible", rank2(m2.random_invertable_matrix(n)) == n)
    q = m2.random_symmetric_invertable_matrix(n)
    v.check("random symmetric invertible", np.array_equal(q, q.T) and rank2(q) == n)
    for par in (0, 1):
        v.check("random bits of a parity", sum(m2.random_bitstring(n, par)) % 2 == par)


@unit(P, "matrix utilities", cases=[(1, 1), (1, 2), (2, 2), (3, 1), (3, 2)], words=MODS, conc=5,
      funcs=[M + f for f in ("matrix_directsum", "diagonal_as_vec", "diagonal_as_matrix", "strictly_upper_triangle", "multidotmod2", "permute_top")])
def utilities(v, case):
    n, k = case
    a, b = v.words("a", (n, n)), v.words("b", (k, k))
    d = m2.matrix_directsum(a, b)
    v.eq("direct sum", d, [[a[i, j] if i < n and j < n else b[i - n, j - n] if i >= n and j >= n else 0 for j in range(n + k)]
                           for i in range(n + k)])
    v.eq("diagonal", m2.diagonal_as_vec(a), [a[i, i] for i in range(n)])
    v.eq("diagonal matrix", m2.diagonal_as_matrix(a), [[a[i, j] if i == j else 0 for j in range(n)] for i in range(n)])
    keep = a.copy()
    v.eq("upper triangle", m2.strictly_upper_triangle(a), [[a[i, j] if i < j else 0 for j in range(n)] for i in range(n)])
    v.eq("argument unchanged", a, keep)
    c, e = v.words("c", (n, n)), v.words("e", (n, n))
    prod = m2.multidotmod2([a, c, e])
    exp = [[sum([a[i, x] * c[x, y] * e[y, j] for x in range(n) for y in range(n)], 0) % 2 for j in range(n)] for i in range(n)]
    v.eq("product", prod, exp)
    for i in range(1, n):
        t, Pm = m2.permute_top(a, i)
        o = list(range(n))
        o[0], o[i] = i, 0
        v.eq("swapped with the top", t, a[np.ix_(o, o)])


@unit(P, "ones on the diagonal", cases=[1, 2, 3], words=MODS, conc=0, budget=100, timeout_ms=20000, max_paths=5000, weight=2,
      funcs=[M + "onesify"])
def onesify(v, n):
    """partial correctness: the draws that are kept are arbitrary bit strings that pass the test for being kept"""
    D = v.words("d", (n, n))
    for i in range(n):
        for j in range(i):
            D[i, j] = D[j, i]
    draws = []

    def draw(t, p, failcount=0):
        if len(draws) == n:
            raise PathEnd("a second attempt starts from scratch")
        b = v.words("draw", (t,))
        v.assume(sum([b[i] * D[i, i] for i in range(t)], 0) % 2 == 1)
        draws.append(b)
        return b
    old = m2.random_bitstring, m2.onesify
    again = []

    def restart(*a, **k):
        raise PathEnd("a second attempt starts from scratch")
    try:
        m2.random_bitstring, m2.onesify = draw, restart
        N = old[1](D)
    finally:
        m2.random_bitstring, m2.onesify = old
    C = v.np.dot(v.np.dot(N, D), N.T) % 2
    v.eq("diagonal of the congruent matrix", [C[i, i] for i in range(n)], [1] * n)
    v.eq("invertible", m2.dotmod2(N, m2.inv_mod2(N)), np.identity(n, dtype=object))


@unit(P, "factor from a congruent matrix", cases=[1, 2], thorough_cases=[3], words=MODS, conc=0, budget=300, timeout_ms=20000, max_paths=5000, weight=3,
      funcs=[M + f for f in ("albert_factor", "proper_permutation", "fix_top", "permute_top", "check_proper_permutation", "detmod2", "Axb_mod2")])
def albert_sym(v, n):
    """albert_factor against the contract of onesify; a further round of its loop starts from scratch"""
    D = v.words("d", (n, n))
    for i in range(n):
        for j in range(i):
            D[i, j] = D[j, i]
    N, W = v.words("n", (n, n)), v.words("w", (n, n))
    one = np.identity(n, int)
    for X, Y in ((N, W), (W, N)):
        d = v.np.dot(X, Y) % 2
        v.assume(And(*[d[i, j] == one[i, j] for i in range(n) for j in range(n)]))
    C = v.np.dot(v.np.dot(N, D), N.T) % 2
    v.assume(And(*[C[i, i] == 1 for i in range(n)]))
    calls = []

    def contract(A, *a, **k):
        if calls:
            raise PathEnd("another round")
        calls.append(1)
        return N
    old = m2.onesify
    try:
        m2.onesify = contract
        try:
            L = m2.albert_factor(D)
        except AssertionError as e:
            if "Algorithm failed" not in str(e):
                raise
            raise PathEnd("gives up")
    finally:
        m2.onesify = old
    v.eq("factorisation", m2.dotmod2(L, L.T), D)


@unit(P, "Albert factorisation", cases=[1, 2, 3, 4, 6, 9], sym=False, conc=8, conc_s=40,
      funcs=[M + f for f in ("albert_factor", "onesify", "proper_permutation", "check_proper_permutation", "fix_top", "permute_top")])
def albert(v, n):
    np.random.seed(v.rng.randrange(10 ** 6))
    while True:
        D = np.array([[v.rng.randint(0, 1) for _ in range(n)] for _ in range(n)])
        D = np.triu(D) + np.triu(D, 1).T
        if rank2(D) == n and np.any(np.diag(D)):
            break
    keep = D.copy()
    N = m2.onesify(D)
    v.check("congruence with ones on the diagonal", rank2(N) == n and np.array_equal(np.diag(m2.multidotmod2([N, D, N.T])), np.ones(n)))
    A = m2.multidotmod2([N, D, N.T])
    try:
        Pm = m2.proper_permutation(A)
    except AssertionError:
        Pm = None
    if Pm is not None:
        v.check("a permutation", np.array_equal(Pm.sum(0), np.ones(n)) and np.array_equal(Pm.sum(1), np.ones(n)))
        B = np.round(m2.multidotmod2([Pm, A, Pm.T])).astype(int)
        v.check("properness", m2.check_proper_permutation(B) == all(rank2(B[i:, i:]) == n - i for i in range(n)))
    L = m2.albert_factor(D)
    v.eq("factorisation", m2.dotmod2(L, L.T), D)
    v.check("argument unchanged", np.array_equal(D, keep))

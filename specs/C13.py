"""C13: gauge transformations leave all predictions unchanged."""

LEVEL = "proof"
LEVEL_NOTE = ("Elements of every gauge group given by a matrix (full, TP, diagonal, SPAM and their TP forms) are proved for all parameters at "
              "the listed dimensions: matrix, inverse, derivative, updates.  Each kind of model member with a dense form is proved, for every "
              "transformation matrix, to be taken to inv(S) G S, inv(S) rho, S^T E; predictions of circuits through them are proved unchanged "
              "and undone by the inverse element.  Distances and residuals under a transformation are proved too.  Unitary groups "
              "(matrix exponentials), Lindblad-parameterized members, whole models, gauge optimisation and the split into gauge and "
              "non-gauge parameters are bounded checks on drawn models.")
ASSUMPTIONS = ["floating-point rounding is ignored: identities hold up to 1e-9 of the coefficients",
               "symbolic runs use the pure-Python representations (replib.slowreplib) in place of the compiled ones",
               "the least-squares gauge optimiser cannot run with the installed SciPy (removed keyword): its objective and Jacobian are "
               "checked, its iterations are not", "a refusal (ValueError, NotImplementedError) is not a violation"]
import itertools
import warnings
import numpy as np
import pygsti
from pygsti.algorithms import gaugeopt as go
from pygsti.construction import std1Q_XYI, std2Q_XYI
from pygsti.objects import operation as op, spamvec as sv, povm as pv, instrument as ins, gaugegroup as gg, explicitcalc as ec
from pygsti.objects.replib import slowreplib
from pyvc.facade import unit
from specs import C04 as c4

P = "C13"
O, S, V, I = c4.O, c4.S, c4.V, c4.I
G = "pygsti.objects.gaugegroup."
K = "pygsti.objects.explicitcalc.ExplicitOpModel_Calc."
A = "pygsti.algorithms.gaugeopt."
ONLY = c4.ONLY + [G[:-1], "pygsti.objects.explicitcalc"]
EXTRA = c4.EXTRA
rnd, own, dense = c4.rnd, c4.own, c4.dense


def mat(v, m):
    return v.arr(np.asarray(m))


def mm(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = out.dot(x)
    return out


# ------------------------------------------------------------------ elements of gauge groups

GROUPS = {"full": (gg.FullGaugeGroup, gg.FullGaugeGroupElement), "TP": (gg.TPGaugeGroup, gg.TPGaugeGroupElement),
          "diag": (gg.DiagGaugeGroup, gg.DiagGaugeGroupElement), "TPdiag": (gg.TPDiagGaugeGroup, gg.TPDiagGaugeGroupElement),
          "spam": (gg.SpamGaugeGroup, gg.SpamGaugeGroupElement), "TPspam": (gg.TPSpamGaugeGroup, gg.TPSpamGaugeGroupElement)}


def expected_matrix(v, kind, d, p):
    m = [[0] * d for _ in range(d)]
    if kind == "full":
        m = [[p[i * d + j] for j in range(d)] for i in range(d)]
    elif kind == "TP":
        m = [[1] + [0] * (d - 1)] + [[p[i * d + j] for j in range(d)] for i in range(d - 1)]
    else:
        off = {"diag": lambda i: p[i], "TPdiag": lambda i: p[i - 1] if i else 0, "spam": lambda i: p[min(i, 1)], "TPspam": lambda i: p[0] if i else 0}
        for i in range(d):
            m[i][i] = 1 + off[kind](i)
    return m


@unit(P, "elements of gauge groups", cases=[("full", 2), ("full", 3), ("TP", 2), ("TP", 3), ("TP", 4), ("diag", 2), ("diag", 4), ("TPdiag", 2), ("TPdiag", 4),
                                            ("spam", 2), ("spam", 4), ("TPspam", 4), ("TPspam", 9)],
      extra=EXTRA, only=ONLY, conc=4, budget=60,
      funcs=[G + c + "." + f for c in ("OpGaugeGroup", "OpGaugeGroupElement") for f in ("__init__", "get_element", "get_initial_params", "num_params",
                                                                                        "get_transform_matrix", "get_transform_matrix_inverse",
                                                                                        "deriv_wrt_params", "to_vector", "from_vector")]
      + [G + k + "GaugeGroup.__init__" for k in ("Full", "TP", "Diag", "TPDiag", "Spam", "TPSpam")]
      + [G + "TPGaugeGroupElement.get_transform_matrix_inverse"])
def elements(v, case):
    kind, d = case
    grp = GROUPS[kind][0](d)
    I_ = np.identity(d)
    n = {"full": d * d, "TP": d * (d - 1), "diag": d, "TPdiag": d - 1, "spam": 2, "TPspam": 1}[kind]
    v.eq("number of parameters", grp.num_params(), n)
    x0 = np.array(grp.get_initial_params(), copy=True)
    e = grp.get_element(x0)
    v.eq("the initial parameters give the identity", e.get_transform_matrix(), I_)
    v.eq("whose inverse is the identity", e.get_transform_matrix_inverse(), I_)
    p, q = v.reals("p", n), v.reals("q", n)
    for x in (p, q):
        m = np.array(expected_matrix(v, kind, d, x), dtype=object if v.symbolic else float)
        if v.symbolic:
            from pyvc import symnp
            det = symnp._det(m)
        else:
            det = np.linalg.det(m)
            v.assume(abs(det) > 1e-3)
        v.assume_nonzero(det)
    a, b = grp.get_element(p.copy()), grp.get_element(q.copy())
    v.check("type", type(a) is GROUPS[kind][1] and a.num_params() == n)
    v.eq("matrix", a.get_transform_matrix(), expected_matrix(v, kind, d, p))
    v.eq("parameters", a.to_vector(), p)
    v.eq("the first element is as it was", e.get_transform_matrix(), I_)
    Sa, Ia = a.get_transform_matrix().copy(), a.get_transform_matrix_inverse().copy()
    v.eq("inverse from the left", Ia.dot(Sa), I_)
    v.eq("inverse from the right", Sa.dot(Ia), I_)
    v.eq("inverse (asked again)", a.get_transform_matrix_inverse(), Ia)
    Sb = b.get_transform_matrix().copy()
    a.from_vector(q.copy())
    v.eq("updated matrix", a.get_transform_matrix(), Sb)
    v.eq("updated parameters", a.to_vector(), q)
    v.eq("updated inverse", a.get_transform_matrix_inverse().dot(Sb), I_)
    w = grp.get_element(x0)

    def f(x):
        w.from_vector(x.copy())
        return w.get_transform_matrix().copy().flatten()
    J = np.array(a.deriv_wrt_params(), copy=True) if not v.symbolic else a.deriv_wrt_params().copy()
    v.is_deriv("derivative", f, q, J)
    for fl in c4.filters(n):
        v.eq("derivative %s" % fl, a.deriv_wrt_params(fl), J[:, fl])
    v.eq("the group's initial parameters stay", grp.get_initial_params(), x0)


@unit(P, "unitary and trivial gauge groups", cases=[("unitary", 4, "pp"), ("unitary", 16, "pp"), ("unitary", 4, "gm"), ("unitary", 9, "gm"), ("trivial", 4, "")],
      sym=False, conc=4, funcs=[G + "UnitaryGaugeGroup", G + "UnitaryGaugeGroupElement", G + "TrivialGaugeGroup", G + "TrivialGaugeGroupElement"])
def unitaries(v, case):
    kind, d, b = case
    grp = gg.UnitaryGaugeGroup(d, b) if kind == "unitary" else gg.TrivialGaugeGroup(d)
    n = grp.num_params()
    v.eq("number of parameters", n, d - 1 if kind == "unitary" else 0)
    v.eq("identity first", grp.get_element(grp.get_initial_params()).get_transform_matrix(), np.identity(d))
    p, q = 0.5 * v.reals("p", n), 0.5 * v.reals("q", n)
    a = grp.get_element(np.array(p))
    v.eq("parameters", a.to_vector(), p)
    for x in (p, q):
        a.from_vector(np.array(x))
        v.eq("parameters", a.to_vector(), x)
        m = a.get_transform_matrix()
        v.eq("inverse", a.get_transform_matrix_inverse().dot(m), np.identity(d))
        v.eq("orthogonal", m.T.dot(m), np.identity(d))
        v.eq("keeps the trace and the identity", [m[0], m[:, 0]], [np.identity(d)[0]] * 2)
        if kind == "unitary":
            Um = pygsti.tools.process_mx_to_unitary(pygsti.tools.change_basis(m, b, "std"))
            v.eq("conjugation by a unitary", pygsti.tools.change_basis(pygsti.tools.unitary_to_process_mx(Um), "std", b), m)
            w = grp.get_element(np.array(x))

            def f(y):
                w.from_vector(y)
                return w.get_transform_matrix().flatten()
            J = a.deriv_wrt_params()
            v.is_deriv("derivative", f, x, J)
            v.eq("derivative (some)", a.deriv_wrt_params([0, n - 1]), J[:, [0, n - 1]])


# ------------------------------------------------------------------ members of models

class Element:
    """any gauge element: a transformation matrix and what is given as its inverse"""

    def __init__(self, S, Si):
        self.S, self.Si = S, Si

    def get_transform_matrix(self): return self.S
    def get_transform_matrix_inverse(self): return self.Si


def elem(v, d, tp, name="S"):
    """arbitrary matrices, with nothing assumed about their product"""
    S_, Si = v.reals(name, (d, d)), v.reals(name + "i", (d, d))
    if tp:
        for m in (S_, Si):
            for j in range(d):
                m[0, j] = 1 if j == 0 else 0
        S_, Si = v.arr(S_), v.arr(Si)
    return Element(S_, Si)


def inv_elem(v, d, tp):
    """an element with its true inverse: a product of elementary ones"""
    Sm, Si = np.identity(d, dtype=object), np.identity(d, dtype=object)
    for i in range(d):
        for j in range(d):
            if i == j or (tp and i == 0):
                continue
            t = v.real("t%d%d" % (i, j)) if (i + j) % 2 or d < 4 else 0
            E, Ei = np.identity(d, dtype=object), np.identity(d, dtype=object)
            E[i, j], Ei[i, j] = t, -1 * t
            if (i * d + j) % 3 == 1 or d < 4:
                Sm, Si = Sm.dot(E), Ei.dot(Si)
    return Element(v.arr(Sm if v.symbolic else Sm.astype(float)), v.arr(Si if v.symbolic else Si.astype(float)))


OPS = ["full 2", "full 4", "tp 2", "tp 4", "static 2", "linear 4", "composed 4", "repeated 4", "embedded 16"]


def mk_op(v, case):
    k, d = case.split()
    d = int(d)
    if k == "full":
        return op.FullDenseOp(mat(v, rnd(1, d, d)))
    if k == "tp":
        return op.TPDenseOp(mat(v, c4.tpmat(1, d)))
    if k == "static":
        return op.StaticDenseOp(mat(v, rnd(1, d, d)))
    if k == "linear":
        return op.LinearlyParamDenseOp(rnd(1, d, d), np.zeros(2), {0: [(1, 1)], 1: [(1, 2), (2, 1)]}, real=True)
    if k == "composed":
        return op.ComposedOp([op.TPDenseOp(mat(v, c4.tpmat(i, d))) for i in range(2)])
    if k == "repeated":
        x = op.FullDenseOp(mat(v, rnd(1, d, d)))
        return op.ComposedOp([x, op.FullDenseOp(mat(v, rnd(2, d, d))), x])
    return op.EmbeddedOp([("Q0", "Q1")], ["Q1"], op.TPDenseOp(mat(v, c4.tpmat(1, 4))))


@unit(P, "transforming operations", cases=OPS, extra=EXTRA, only=ONLY, conc=4,
      funcs=[O + "LinearOperator.transform", O + "ComposedOp.transform", O + "EmbeddedOp.transform", O + "FullDenseOp.set_value", O + "TPDenseOp.set_value"])
def operations(v, case):
    k, d = case.split()
    d = int(d)
    a = own(mk_op(v, case))
    p = v.reals("p", a.num_params())
    a.from_vector(p.copy())
    M = dense(a)
    if k in ("static", "linear", "embedded"):
        e = elem(v, d if k != "embedded" else 16, True) if k != "embedded" else Element(np.identity(16), np.identity(16))
        v.raises("refused", (ValueError, NotImplementedError), lambda: a.transform(e))
        v.eq("and left as it is", dense(a), M)
        return
    tp = k in ("tp", "composed")
    e = inv_elem(v, d, tp) if k in ("composed", "repeated") else elem(v, d, tp)
    a.transform(e)
    want = mm(e.Si, M, e.S)
    v.eq("inv(S) G S", dense(a), want)
    if k in ("composed", "repeated"):
        for i, f in enumerate(a.factorops):
            b = own(mk_op(v, case))
            b.from_vector(p.copy())
            v.eq("each factor", dense(f), mm(e.Si, dense(b.factorops[i]), e.S))
    v.check("its owner is told", a.dirty)
    b = own(mk_op(v, case))
    b.from_vector(np.array(a.to_vector(), copy=True) if not v.symbolic else a.to_vector().copy())
    v.eq("its parameters hold the result", dense(b), want)
    u = inv_elem(v, d, tp)
    a.from_vector(p.copy())
    a.transform(u)
    a.transform(Element(u.Si, u.S))
    v.eq("the inverse restores it", dense(a), M)
    v.eq("and its parameters", a.to_vector(), p)


@unit(P, "transforming states and effects", cases=["full 2", "full 4", "tp 4", "tp 9", "static 4", "cptp 4"], extra=EXTRA, only=ONLY, conc=4,
      funcs=[S + "SPAMVec.transform", S + "FullSPAMVec.set_value", S + "TPSPAMVec.set_value"])
def states(v, case):
    k, d = case.split()
    d = int(d)
    for typ in ("prep", "effect"):
        if k == "cptp" and typ == "effect" or k == "tp" and typ == "effect":
            continue

        def mk():
            x = rnd(3, d)
            x[0] = d ** -0.25
            x = mat(v, x)
            if k == "cptp":
                return sv.CPTPSPAMVec(np.array([1, 0.1, 0.2, 0.3]) / 2 ** 0.5, "pp")
            return {"full": sv.FullSPAMVec, "tp": sv.TPSPAMVec, "static": sv.StaticSPAMVec}[k](x, "densitymx", typ) if k != "tp" else sv.TPSPAMVec(x)
        a = own(mk())
        if k == "cptp":
            if v.symbolic:
                return v.eq("dimension", a.dim, 4)
            U = gg.UnitaryGaugeGroup(4, "pp")
            e = U.get_element(v.reals("u", 3))
            M = dense(a)
            a.transform(e, typ)
            v.eq("a rotated state", dense(a), e.get_transform_matrix_inverse().dot(M), tol=1e-6)
            return
        p = v.reals("p" + typ, a.num_params())
        a.from_vector(p.copy())
        M = dense(a)
        e = elem(v, d, k == "tp", "S" + typ)
        if k == "static":
            v.raises("refused", ValueError, lambda: a.transform(e, typ))
            v.eq("and left as it is", dense(a), M)
            continue
        a.transform(e, typ)
        want = e.Si.dot(M) if typ == "prep" else M.dot(e.S)
        v.eq("inv(S) rho" if typ == "prep" else "S^T E", dense(a), want)
        v.check("its owner is told", a.dirty)
        b = own(mk())
        b.from_vector(a.to_vector().copy())
        v.eq("its parameters hold the result", dense(b), want)
        u = inv_elem(v, d, k == "tp")
        a.from_vector(p.copy())
        a.transform(u, typ)
        a.transform(Element(u.Si, u.S), typ)
        v.eq("the inverse restores it", a.to_vector(), p)
        v.raises("other kinds are refused", ValueError, lambda: a.transform(e, "state"))


@unit(P, "transforming measurements", cases=["unc", "tpz", "tpz3", "tpbad"], extra=EXTRA, only=ONLY, conc=4,
      funcs=[V + "_BasePOVM.transform", V + "POVM.transform", S + "ComplementSPAMVec._construct_vector"])
def measurements(v, case):
    def mk():
        if case == "tpz3":      # three effects that sum to the identity
            e = [rnd(i, 4) for i in range(2)]
            return own(pv.TPPOVM([("0", v.arr(e[0])), ("1", v.arr(e[1])), ("2", v.arr(np.array([2 ** 0.5, 0, 0, 0]) - e[0] - e[1]))]))
        return own(c4.mk_povm(v, {"tpbad": "tp3"}.get(case, case)))
    a = mk()
    d = a.dim
    p = v.reals("p", a.num_params())
    a.from_vector(p.copy())
    D = {k: dense(x) for k, x in a.items()}
    if case == "tpbad":         # an element that doesn't keep the sum of the effects can't act on the complement
        T = np.identity(d)
        T[1, 0] = 0.5
        v.raises("refused", (AssertionError, ValueError), lambda: a.transform(Element(T, np.linalg.inv(T))))
        return
    e = elem(v, d, case != "unc")
    a.transform(e)
    for k in D:
        v.eq("S^T E", dense(a[k]), D[k].dot(e.S))
    v.check("its owner is told", a.dirty)
    b = mk()
    b.from_vector(a.to_vector().copy())
    for k in D:
        v.eq("its parameters hold the result", dense(b[k]), D[k].dot(e.S))


@unit(P, "transforming instruments", cases=["full1", "full2", "tp2", "tp3", "tp4"], extra=EXTRA, only=ONLY, conc=3,
      funcs=[I + "Instrument.transform", I + "TPInstrument.transform"])
def instruments(v, case):
    tp, n = case[:2] == "tp", int(case[-1])
    d = 2 if n > 2 else 4

    def mk():
        ms = [rnd(10 + i, d, d) for i in range(n)]
        ms[-1][0, :] = [1.0 - sum(m[0, 0] for m in ms[:-1])] + [-sum(m[0, j] for m in ms[:-1]) for j in range(1, d)]
        items = [("p%d" % i, v.arr(m)) for i, m in enumerate(ms)]
        return own((ins.TPInstrument if tp else ins.Instrument)(items))
    a = mk()
    p = v.reals("p", a.num_params())
    a.from_vector(p.copy())
    D = [dense(x) for x in a.values()]
    e = elem(v, d, tp)
    a.transform(e)
    for x, m in zip(a.values(), D):
        v.eq("inv(S) G S", dense(x), mm(e.Si, m, e.S))
    v.check("its owner is told", a.dirty)
    b = mk()
    b.from_vector(np.array(a.to_vector(), copy=True) if not v.symbolic else v.arr(np.array(a.to_vector(), dtype=object)))
    for x, m in zip(b.values(), D):
        v.eq("its parameters hold the result", dense(x), mm(e.Si, m, e.S))
    # circuits through the element see nothing of it
    u = inv_elem(v, d, tp)
    a.from_vector(p.copy())
    a.transform(u)
    E, r = v.reals("E", d), v.reals("r", d)
    for x, m in zip(a.values(), D):
        v.eq("a circuit's prediction", mm(E.dot(u.S), dense(x), u.Si.dot(r)), mm(E, m, r))


@unit(P, "predictions of circuits", cases=[(2, n) for n in (0, 1, 2, 3)] + [(4, 2)], extra=EXTRA, only=ONLY, conc=4,
      funcs=[O + "LinearOperator.transform", S + "SPAMVec.transform", "pygsti.objects.explicitmodel.ExplicitOpModel.transform"])
def circuits(v, case):
    """the lemma: transformed members, an element with a true inverse: every circuit predicts what it did"""
    d, n = case
    u = inv_elem(v, d, False)
    ops = [own(op.FullDenseOp(mat(v, rnd(i, d, d)))) for i in range(max(n, 1))]
    rho, eff = own(sv.FullSPAMVec(mat(v, rnd(8, d)), "densitymx", "prep")), own(sv.FullSPAMVec(mat(v, rnd(9, d)), "densitymx", "effect"))
    xs = [v.reals("x%d" % i, x.num_params()) for i, x in enumerate(ops + [rho, eff])]
    for x, y in zip(ops + [rho, eff], xs):
        x.from_vector(y.copy())

    def predict():
        s = dense(rho)
        for i in range(n):
            s = dense(ops[i]).dot(s)
        return dense(eff).dot(s)
    before = predict()

    class Povm:
        def transform(self, s):
            eff.transform(s, "effect")

    class M:
        preps, povms, operations, instruments = {"r": rho}, {"M": Povm()}, dict(enumerate(ops)), {}
        cleaned = 0

        def _clean_paramvec(self):
            M.cleaned += 1
    m = M()
    pygsti.objects.ExplicitOpModel.transform(m, u)
    v.eq("unchanged", predict(), before)
    v.check("the parameter vector is refreshed", M.cleaned == 1)
    pygsti.objects.ExplicitOpModel.transform(m, Element(u.Si, u.S))
    v.eq("restored", [dense(rho), dense(eff)], xs[-2:])
    v.eq("unchanged again", predict(), before)


# ------------------------------------------------------------------ distances under a transformation

@unit(P, "distances under a transformation", cases=[2, 3], extra=EXTRA, only=ONLY, conc=4,
      funcs=[O + "LinearOperator.frobeniusdist2", O + "LinearOperator.residuals", S + "SPAMVec.frobeniusdist2", S + "SPAMVec.residuals",
             K + "frobeniusdist", K + "residuals"])
def distances(v, case):
    d = case
    e = elem(v, d, False)
    a, b = op.FullDenseOp(v.reals("a", (d, d))), op.FullDenseOp(v.reals("b", (d, d)))
    Ta = mm(e.Si, dense(a), e.S)
    sq = lambda m: sum((x * x for x in np.asarray(m).flatten()), 0)
    v.eq("distance of operations", a.frobeniusdist2(b), sq(dense(a) - dense(b)))
    v.eq("after a transformation", a.frobeniusdist2(b, e.S, e.Si), sq(Ta - dense(b)))
    v.eq("residuals", a.residuals(b), (dense(a) - dense(b)).flatten())
    v.eq("residuals after a transformation", a.residuals(b, e.S, e.Si), (Ta - dense(b)).flatten())
    vecs = {}
    for typ in ("prep", "effect"):
        x, y = (sv.FullSPAMVec(v.reals(n + typ, d), "densitymx", typ) for n in "xy")
        Tx = e.Si.dot(dense(x)) if typ == "prep" else dense(x).dot(e.S)
        v.eq("distance of a " + typ, x.frobeniusdist2(y, typ), sq(dense(x) - dense(y)))
        v.eq("distance of a transformed " + typ, x.frobeniusdist2(y, typ, e.S, e.Si), sq(Tx - dense(y)))
        v.eq("residuals of a " + typ, x.residuals(y, typ), dense(x) - dense(y))
        v.eq("residuals of a transformed " + typ, x.residuals(y, typ, e.S, e.Si), Tx - dense(y))
        vecs[typ] = (x, y)
    if d > 2:
        return
    mk = lambda i: ec.ExplicitOpModel_Calc(d, {"rho": vecs["prep"][i]}, {"G": (a, b)[i]}, {"M_0": vecs["effect"][i]}, 0)
    w = {"gates": 4, "M_0": 9, "rho": 2.25} if v.bool("weights") else {}
    wg, wr, we = w.get("gates", 1), w.get("rho", 1), w.get("M_0", 1)
    r, n = mk(0).residuals(mk(1), None, w)
    diff = [(dense(x) - dense(y)).flatten() for x, y in ((a, b), vecs["prep"], vecs["effect"])]
    v.eq("residuals of a model", r, np.concatenate([wg ** 0.5 * diff[0], wr ** 0.5 * diff[1], we ** 0.5 * diff[2]]))
    v.eq("their weight", n, wg * d * d + wr * d + we * d)
    if not v.symbolic:
        tot = wg * sq(diff[0]) + wr * sq(diff[1]) + we * sq(diff[2])
        v.eq("distance of models", mk(0).frobeniusdist(mk(1), None, w, False), tot ** 0.5)
        v.eq("normalized", mk(0).frobeniusdist(mk(1), None, w), (tot / n) ** 0.5)
        T = np.identity(d) + 0.2 * rnd(5, d, d)
        t = mk(0)
        for x, typ in ((t.preps["rho"], "prep"), (t.effects["M_0"], "effect")):
            own(x).transform(Element(T, np.linalg.inv(T)), typ)
        r1 = mk(0).residuals(mk(1), None, w)[0][d * d:]
        for x, typ in ((t.preps["rho"], "prep"), (t.effects["M_0"], "effect")):
            x.transform(Element(np.linalg.inv(T), T), typ)
        v.eq("residuals under a transformation are those of the transformed", mk(0).residuals(mk(1), T, w)[0][d * d:], r1)


# ------------------------------------------------------------------ whole models (bounded)

KINDS = ["full", "TP", "static", "CPTP", "GLND", "D", "H+D", "H+D+A", "S", "H+S", "H+s", "H+S+A"]
MG = {"full": lambda d: gg.FullGaugeGroup(d), "TP": lambda d: gg.TPGaugeGroup(d), "diag": lambda d: gg.DiagGaugeGroup(d), "TPdiag": lambda d: gg.TPDiagGaugeGroup(d),
      "spam": lambda d: gg.SpamGaugeGroup(d), "TPspam": lambda d: gg.TPSpamGaugeGroup(d), "unitary": lambda d: gg.UnitaryGaugeGroup(d, "pp"),
      "trivial": lambda d: gg.TrivialGaugeGroup(d)}


def model(v, kind, q, rng, extras=False):
    m = (std1Q_XYI if q == 1 else std2Q_XYI).target_model()
    if extras:
        m.preps["rho1"] = np.array([1, 0, 0, -1.0]) / 2 ** 0.5
        m.povms["Mz"] = pv.UnconstrainedPOVM([("a", np.array([1.1, 0.3, 0, 0.2])), ("b", np.array([0.2, 0, 0.4, 0.1]))])
        G0 = m.operations["Gx"].todense()
        pp = 0.5 * np.array([[1, 0, 0, 1], [0, 0, 0, 0], [0, 0, 0, 0], [1, 0, 0, 1.0]])
        pm = 0.5 * np.array([[1, 0, 0, -1], [0, 0, 0, 0], [0, 0, 0, 0], [-1, 0, 0, 1.0]])
        m.instruments["Iz"] = (ins.TPInstrument if extras == "TP" else ins.Instrument)([("p0", pp), ("p1", G0.dot(pm))])
    if not extras:
        m.set_all_parameterizations(kind)
    if m.num_params():
        x = m.to_vector()
        m.from_vector(x + 0.05 * (np.abs if kind not in ("full", "TP") else np.array)(rng.normal(size=x.size)))
    return m


def circuits_for(m, rng, n=14):
    keys = list(m.operations.keys()) + [k for k in m.instruments.keys()]
    pk = list(m.preps.keys())
    out = [pygsti.objects.Circuit(())]
    for i in range(n):
        c = [keys[rng.randint(len(keys))] for _ in range(rng.randint(1, 7))]
        if len(pk) > 1:
            c = [pk[rng.randint(2)]] + c + [list(m.povms.keys())[rng.randint(len(m.povms))]]
        out.append(pygsti.objects.Circuit(c))
    if len(pk) > 1:
        out = out[1:]
    return out


def probs(m, cs):
    return np.array([x for c in cs for _, x in sorted(m.probs(c).items())])


# members that hold only some error generators: these elements take them to others, which are silently projected (known findings)
PROJECTED = {("S", "unitary"), ("H+S", "unitary"), ("H+s", "unitary"), ("H+S+A", "unitary"), ("CPTP", "TPspam")}


@unit(P, "whole models", cases=[(k, g, 1) for k in KINDS for g in MG] + [(k, g, 2) for k in ("full", "TP", "CPTP") for g in ("full", "TP", "unitary")]
      + [("members " + k, g, 1) for k in ("full", "TP") for g in ("full", "TP", "unitary", "TPspam")],
      sym=False, conc=2, weight=2,
      funcs=["pygsti.objects.explicitmodel.ExplicitOpModel.transform", O + "LindbladOp.transform", O + "LindbladErrorgen.transform",
             S + "LindbladSPAMVec.transform", V + "LindbladPOVM.transform", V + "POVM.transform"])
def models(v, case):
    kind, g, q = case
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    ex = kind.split()[1] if kind.startswith("members") else False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = model(v, ex or kind, q, rng, ex)
        grp = MG[g](m.dim)
        dp = 0.2 * rng.normal(size=grp.num_params())
        el = grp.get_element(grp.get_initial_params() + (-0.4 if (kind, g) == ("CPTP", "TPspam") else dp))
        cs = circuits_for(m, rng)
        before, x0 = probs(m, cs), m.to_vector().copy()
        t = m.copy()
        try:
            t.transform(el)
        except (ValueError, NotImplementedError):
            return v.check("refused", True)
        except AssertionError as e:
            return v.check("refused for a reason", "transform complement effect" in str(e))
        if (kind, g) in PROJECTED:
            v.eq("predictions are unchanged although errors are projected", probs(t, cs), before)
            return v.eq("the original is as it was", m.to_vector(), x0)
        v.eq("predictions are unchanged", probs(t, cs), before)
        v.eq("the original is as it was", m.to_vector(), x0)
        v.eq("and predicts what it did", probs(m, cs), before)
        r = t.copy()
        r.from_vector(t.to_vector())
        v.eq("the parameters hold the result", probs(r, cs), before)
        if q == 1:
            v.eq("so does a copy", probs(t.copy(), cs), before)
            back = gg.OpGaugeGroupElement(el.get_transform_matrix_inverse())
            back.__class__ = type(el)
            if g != "trivial":
                t.transform(back)
                v.eq("the inverse restores predictions", probs(t, cs), before)
                for lbl in m.operations:
                    v.eq("the inverse restores operations", t.operations[lbl].todense(), m.operations[lbl].todense())
                for lbl in m.preps:
                    v.eq("the inverse restores states", t.preps[lbl].todense(), m.preps[lbl].todense())
                for lbl in m.povms:
                    for o in m.povms[lbl]:
                        v.eq("the inverse restores effects", t.povms[lbl][o].todense(), m.povms[lbl][o].todense())


@unit(P, "factors shared between operations", sym=False, conc=2, funcs=["pygsti.objects.explicitmodel.ExplicitOpModel.transform", O + "ComposedOp.transform"])
def shared(v):
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    m = std1Q_XYI.target_model()
    noise = op.TPDenseOp(c4.tpmat(3, 4) * 0.3 + 0.7 * np.identity(4))
    for k in ("Gx", "Gy"):
        m.operations[k] = op.ComposedOp([op.TPDenseOp(m.operations[k].todense()), noise])
    m.to_vector()
    cs = circuits_for(m, rng)
    before = probs(m, cs)
    grp = gg.TPGaugeGroup(4)
    m.transform(grp.get_element(grp.get_initial_params() + 0.2 * rng.normal(size=12)))
    v.eq("a factor shared by two operations is transformed once", probs(m, cs), before)


# ------------------------------------------------------------------ gauge optimisation (bounded)

@unit(P, "gauge optimisation", cases=[(k, g, met) for k, gs in (("full", ("full", "TP", "unitary")), ("TP", ("TP", "unitary", "TPspam")), ("CPTP", ("unitary",)))
                                      for g in gs for met in ("frobenius", "fidelity", "tracedist", "penalty")] + [("full", None, "frobenius"), ("static", None, "frobenius")],
      sym=False, conc=1, weight=3, funcs=[A + "gaugeopt_to_target", A + "gaugeopt_custom", A + "_create_objective_fn"])
def gaugeopt(v, case):
    kind, g, met = case
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = model(v, kind, 1, rng)
        tgt = std1Q_XYI.target_model()
        cs = circuits_for(m, rng)
        before, x0 = probs(m, cs), m.to_vector().copy()
        kw = {"cptp_penalty_factor": 0.1, "spam_penalty_factor": 0.1} if met == "penalty" else \
            {"gatesMetric": met, "spamMetric": met if met != "tracedist" else "frobenius"}
        f, el, new = go.gaugeopt_to_target(m, tgt, {"gates": 1.0, "spam": 0.5}, gauge_group=MG[g](4) if g else None, method="L-BFGS-B", maxiter=15,
                                           returnAll=True, **kw)
        v.eq("predictions are unchanged", probs(new, cs), before, tol=1e-6)
        v.eq("the model given is as it was", m.to_vector(), x0)
        v.eq("and predicts what it did", probs(m, cs), before)
        t = m.copy()
        if kind != "static":
            t.transform(el)
        for lbl in m.operations:
            v.eq("the model returned is the transformed one", new.operations[lbl].todense(), t.operations[lbl].todense(), tol=1e-6)
        for lbl in m.preps:
            v.eq("the states returned are the transformed ones", new.preps[lbl].todense(), t.preps[lbl].todense(), tol=1e-6)
        for lbl in m.povms:
            for o in m.povms[lbl]:
                v.eq("the effects returned are the transformed ones", new.povms[lbl][o].todense(), t.povms[lbl][o].todense(), tol=1e-6)
        if f is not None:
            obj, _ = go._create_objective_fn(m, tgt, {"gates": 1.0, "spam": 0.5}, method="L-BFGS-B", **kw)
            v.eq("the value reported", f, obj(new.copy()), tol=1e-6)
            v.check("no worse than no transformation", f <= obj(m.copy()) + 1e-9)
        again = go.gaugeopt_to_target(m, tgt, {"gates": 1.0, "spam": 0.5}, gauge_group=MG[g](4) if g else None, method="L-BFGS-B", maxiter=15, **kw)
        v.eq("without the report", again.operations["Gx"].todense(), new.operations["Gx"].todense(), tol=1e-6)


class Rec:
    """A model that remembers the transformations made to it."""
    default_gauge_group, dim, made = None, 4, ()

    def copy(self):
        r = Rec()
        r.made = tuple(self.made)
        return r

    def transform(self, el):
        self.made = self.made + (tuple(el.to_vector()),)

    def num_params(self):
        return 7


class RecGroup:
    def num_params(self):
        return 2

    def get_initial_params(self):
        return [0.0, 0.0]

    def get_element(self, x):
        return RecElement(x)


class RecElement:
    def __init__(self, x):
        self.x = list(x)

    def to_vector(self):
        return list(self.x)

    def from_vector(self, x):
        self.x = list(x)


class AnyOptimizer:
    """Contract of any optimiser: the objective is evaluated anywhere, any number of times and in any order; some point is returned
    with the value of the objective there."""
    v = None

    def run(self, fn, jac):
        v = self.v
        pts = [v.reals("q%d" % i, 2) for i in range(v.choice("evaluations", [0, 1, 2]))]
        x = pts[v.choice("which", list(range(len(pts))))] if pts and v.bool("one of them") else v.reals("solution", 2)
        for p in pts:
            fn(p)
            if jac is not None and v.bool("with gradient"):
                jac(p)
        self.sol = list(x)
        return x

    def minimize(self, fn, x0, jac=None, **kw):
        x = self.run(fn, jac)
        a = list(x)
        f = self.f(a)

        class Sol:
            pass
        Sol.x, Sol.fun = x, f
        return Sol

    def custom_leastsq(self, fn, jac, x0, **kw):
        return self.run(fn, jac), True, "", None, None

    def create_obj_func_printer(self, fn):
        return None


OPT = AnyOptimizer()


@unit(P, "whatever the optimiser does", cases=[(m, r) for m in ("L-BFGS-B", "ls", "Nelder-Mead", "BFGS") for r in (True, False)], extra={(go, "_opt"): OPT}, conc=3,
      funcs=[A + "gaugeopt_custom"])
def any_opt(v, case):
    method, report = case
    if v.symbolic:
        F = lambda x: 3 * x[0] * x[0] + 5 * x[1] + x[0]
        OPT.v, OPT.f = v, F
        seen = []

        def objective(m):
            v.check("evaluated on the model transformed once", len(m.made) == 1)
            seen.append(m)
            return F(m.made[0])

        def jacobian(pre, post, el):
            v.check("gradient from the model as it was", pre.made == () and len(post.made) == 1)
            v.eq("gradient at the element of the transformed model", list(el.to_vector()), list(post.made[0]))
            return [6 * el.x[0] + 1, 5]
        m = Rec()
        out = go.gaugeopt_custom(m, objective, RecGroup(), method, returnAll=report, jacobian_fn=jacobian)
        new = out[2] if report else out
        v.check("the model given isn't transformed", m.made == ())
        v.check("the model returned is transformed just once", len(new.made) == 1 and new is not m)
        if report:
            v.eq("by the element returned", list(new.made[0]), list(out[1].to_vector()))
            v.eq("and has the value returned", out[0], F(new.made[0]))
        else:
            v.eq("by the solution found", list(new.made[0]), list(OPT.sol))
        return
    if method == "ls":
        return
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    tgt = std1Q_XYI.target_model()
    m = tgt.depolarize(0.05, 0.02).rotate((0.1, 0.05, -0.02))
    grp = gg.TPGaugeGroup(4)
    obj = lambda x: x.frobeniusdist(tgt)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f, el, new = go.gaugeopt_custom(m, obj, grp, method, maxiter=int(rng.randint(3, 25)), returnAll=True)
    t = m.copy()
    t.transform(grp.get_element(el.to_vector()))
    v.eq("and has the value returned", obj(new), f, tol=1e-9)
    v.eq("by the element returned", new.frobeniusdist(t), 0, tol=1e-9)


@unit(P, "least-squares gauge objective", cases=[(k, g, w, pen) for k, g in (("full", "full"), ("full", "spam"), ("TP", "TP"), ("TP", "unitary"), ("TP", "TPspam"))
                                                 for w in (False, True) for pen in (False, True)],
      sym=False, conc=2, funcs=[A + "_create_objective_fn", A + "_cptp_penalty_jac_fill", A + "_spam_penalty_jac_fill"])
def lsq(v, case):
    kind, g, wts, pen = case
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    m = model(v, kind, 1, rng)
    tgt = std1Q_XYI.target_model()
    w = {"gates": 4.0, "Gx": 2.0, "spam": 0.25, "rho0": 3.0} if wts else {}
    kw = {"cptp_penalty_factor": 0.5, "spam_penalty_factor": 0.5} if pen else {}
    obj, jac = go._create_objective_fn(m, tgt, w, method="ls", **kw)
    grp = MG[g](4)
    el = grp.get_element(grp.get_initial_params() + 0.1 * rng.normal(size=grp.num_params()))

    def f(x):
        el.from_vector(x)
        t = m.copy()
        t.transform(el)
        return obj(t)
    x = el.to_vector().copy()
    r = f(x)
    t = m.copy()
    t.transform(el)
    want = []
    for lbl in m.operations:
        want.append(np.sqrt(w.get(lbl, w.get("gates", 1.0))) * (t.operations[lbl].todense() - tgt.operations[lbl].todense()).flatten())
    for lbl in m.preps:
        want.append(np.sqrt(w.get(lbl, w.get("spam", 1.0))) * (t.preps[lbl].todense() - tgt.preps[lbl].todense()))
    for lbl in m.povms:
        for o in m.povms[lbl]:
            want.append(np.sqrt(w.get("spam", 1.0)) * (t.povms[lbl][o].todense() - tgt.povms[lbl][o].todense()))
    want = np.concatenate(want)
    v.eq("residuals", r[:len(want)], want)
    v.check("penalties", len(r) == len(want) + (len(m.operations) + len(m.preps) + 2 if pen else 0))
    el.from_vector(x)
    J = jac(m, t, el)
    v.is_deriv("Jacobian", f, x, J)


@unit(P, "gauge and non-gauge parameters", cases=["full", "TP", "mixed", "two preps"], sym=False, conc=2,
      funcs=[K + f for f in ("_buildup_dPG", "get_nongauge_projector", "get_nongauge_and_gauge_params" , "deriv_wrt_params", "num_gauge_params", "num_nongauge_params")])
def nongauge(v, case):
    rng = np.random.RandomState(v.rng.randrange(2 ** 31))
    m = model(v, "full" if case in ("full", "two preps") else "TP", 1, rng)
    if case == "mixed":
        m.operations["Gx"] = op.FullDenseOp(m.operations["Gx"].todense())
        m.operations["Gi"] = op.StaticDenseOp(m.operations["Gi"].todense())
    if case == "two preps":
        m.preps["rho1"] = sv.FullSPAMVec(rng.normal(size=4), "densitymx", "prep")
    n = m.num_params()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = {"gates": 1.0, "spam": 0.1} if v.bool("weights") else None
        Pn = m.get_nongauge_projector(w)
        v.eq("symmetric", Pn, Pn.T)
        v.eq("idempotent", Pn.dot(Pn), Pn)
        k, kg = m.num_nongauge_params(), m.num_gauge_params()
        v.eq("its rank", np.linalg.matrix_rank(Pn, tol=1e-6), k)
        v.eq("numbers add up", k + kg, n)
    if w is None:
        cs = circuits_for(m, rng, 60)
        J = np.array([m.dprobs(c)[o] for c in cs for o in sorted(m.dprobs(c))]).reshape(-1, n)
        v.eq("gauge directions change no prediction", J.dot(np.identity(n) - Pn), np.zeros(J.shape), tol=1e-5)
        if case in ("full", "TP"):
            v.eq("as many gauge parameters as the group has", kg, 16 if case == "full" else 12)

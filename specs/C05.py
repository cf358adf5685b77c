"""C05: forward simulators compute the ordered product and its derivatives."""

LEVEL = "proof"
LEVEL_NOTE = ("Operations, preparations and effects enter as arbitrary matrices and vectors with arbitrary first and second "
              "derivatives (the contract C04 establishes), so the products, probabilities, first and second derivatives of the "
              "matrix simulator, one circuit at a time and in bulk, are proved for all entries, for the listed circuit lists, "
              "parameter layouts, tree splittings, filters and block sizes; the rescaling branches are proved to be value "
              "neutral wherever they are taken. Evaluation trees, the map simulator (compiled representations), the term "
              "simulator and whole models are bounded checks on drawn circuit lists and parameters.")
ASSUMPTIONS = ["floating-point rounding, overflow and underflow are ignored: identities hold up to 1e-9 of the coefficients",
               "the norm used for rescaling is any number above two; which products count as small is left open",
               "derivatives of single operations, preparations and effects are what they claim to be (C04)"]
import collections
import itertools
import random
import numpy as np
import pygsti
from pygsti.objects import matrixforwardsim as mfs, forwardsim as fs, matrixevaltree as met, mapevaltree as pet
from pygsti.objects import mapforwardsim as pfs
from pygsti.objects.label import Label
from pygsti.objects.replib import slowreplib
from pygsti.tools import matrixtools as mt, slicetools as slct
from pyvc import symnp
from pyvc.facade import unit

P = "C05"
M = "pygsti.objects.matrixforwardsim.MatrixForwardSimulator."
F = "pygsti.objects.forwardsim.ForwardSimulator."
E = "pygsti.objects.matrixevaltree.MatrixEvalTree."
B = "pygsti.objects.evaltree.EvalTree."
Q = "pygsti.objects.mapevaltree.MapEvalTree."
A = "pygsti.objects.mapforwardsim.MapForwardSimulator."
ONLY = ["pygsti.objects.matrixforwardsim", "pygsti.objects.forwardsim", "pygsti.tools.matrixtools"]

RHO = [Label("rho0"), Label("rho1")]
EFF = [Label("Mdefault_0"), Label("Mdefault_1"), Label("Mdefault_2")]
G = {c: Label("G" + c, 0) for c in "xyz"}


# -- jets: a value with its gradient and Hessian, multiplied by the product rule (the specification's derivatives)
class Jet:
    def __init__(self, f, g, h):
        self.f, self.g, self.h = f, g, h

    def __matmul__(self, o):
        n = len(self.g)
        f = mm(self.f, o.f)
        g = [mm(self.g[i], o.f) + mm(self.f, o.g[i]) for i in range(n)]
        h = [[mm(self.h[i][j], o.f) + mm(self.g[i], o.g[j]) + mm(self.g[j], o.g[i]) + mm(self.f, o.h[i][j])
              for j in range(n)] for i in range(n)]
        return Jet(f, g, h)


def mm(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != object and b.dtype != object:
        return a @ b
    return np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


def zero(shape):
    return np.zeros(shape)


class Member:
    """an operation, preparation or effect: a matrix (or column) with a Jacobian and Hessian in its own parameters"""

    def __init__(self, v, name, shape, gpindices, np_total, hess=True, zeros=False, rigid=False):
        n = len(gpindices) if not isinstance(gpindices, slice) else gpindices.stop - gpindices.start
        self.v, self.gpindices, self.n, self.shape = v, gpindices, n, shape
        self.m = v.reals(name, shape) if not rigid else v.arr(np.random.RandomState(len(name)).uniform(-1, 1, shape))
        self.d = [v.reals("%s_d%d" % (name, i), shape) for i in range(n)]
        self.hess = hess
        h = {(i, j): v.reals("%s_h%d%d" % (name, i, j), shape) for i in range(n) for j in range(i, n)} if hess else {}
        self.h2 = [[h[min(i, j), max(i, j)] if hess else zero(shape) for j in range(n)] for i in range(n)]
        self.np_total = np_total
        self._rep = None

    def inds(self):
        return list(range(self.gpindices.start, self.gpindices.stop)) if isinstance(self.gpindices, slice) \
            else [int(i) for i in self.gpindices]

    def jet(self):
        z = zero(self.shape)
        g = [z] * self.np_total
        h = [[z] * self.np_total for _ in range(self.np_total)]
        for a, i in enumerate(self.inds()):
            g[i] = self.d[a]
            for b, j in enumerate(self.inds()):
                h[i][j] = self.h2[a][b]
        return Jet(self.m, g, h)

    # the interface the simulators use (contracts of C04)
    def gpindices_as_array(self):
        return np.array(self.inds(), np.int64)

    def num_params(self):
        return self.n

    def todense(self):
        return self.m[:, 0].copy() if self.shape[1] == 1 else self.m.copy()

    def _sel(self, f):
        return list(range(self.n)) if f is None else list(f)

    def deriv_wrt_params(self, wrtFilter=None):
        cols = [np.asarray(self.d[i]).reshape(-1) for i in self._sel(wrtFilter)]
        out = np.stack(cols, axis=1) if cols else np.zeros((int(np.prod(self.shape)), 0))
        return self.v.arr(out)

    def has_nonzero_hessian(self):
        return self.hess

    def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
        f1, f2 = self._sel(wrtFilter1), self._sel(wrtFilter2)
        out = np.empty((int(np.prod(self.shape)), len(f1), len(f2)), dtype=object if self.v.symbolic else float)
        for a, i in enumerate(f1):
            for b, j in enumerate(f2):
                out[:, a, b] = np.asarray(self.h2[i][j]).reshape(-1)
        return self.v.arr(out)


class Server:
    """the simplified op server of a model"""

    def __init__(self, ops, preps, effects):
        self.ops, self.preps, self.effects = ops, preps, effects
        self.opcache = {}

    def get_evotype(self): return "densitymx"
    def get_operation(self, l): return self.ops[l]
    def get_prep(self, l): return self.preps[l]
    def get_effect(self, l): return self.effects[l]


LAYOUTS = {          # name: number of parameters, {object: gpindices}
    "slices": (5, {"x": slice(0, 2), "y": slice(2, 3), "rho": slice(3, 4), "E": slice(4, 5)}),
    "arrays": (5, {"x": np.array([3, 0]), "y": np.array([1]), "rho": np.array([4, 2]), "E": np.array([2])}),
    "shared": (3, {"x": np.array([0, 2]), "y": np.array([2, 0]), "rho": slice(1, 2), "E": np.array([0, 1])}),
    "spread": (4, {"x": np.array([0, 2]), "y": slice(1, 3), "rho": np.array([3]), "E": np.array([0])}),
    "fixed": (2, {"x": slice(0, 1), "y": slice(0, 0), "rho": slice(1, 1), "E": slice(1, 2)}),
}


def setup(v, layout, dim=2, hess=True, nrho=1, neff=2, names="xy", small=(0, 2)):
    n, inds = LAYOUTS[layout]
    ops = {G[c]: Member(v, c, (dim, dim), inds.get(c, slice(0, 0)), n, hess) for c in names}
    preps = {RHO[i]: Member(v, "rho%d" % i, (dim, 1), inds["rho"], n, hess) for i in range(nrho)}
    effs = {EFF[i]: Member(v, "E%d" % i, (dim, 1), inds["E"], n, hess and i == 0) for i in range(neff)}
    sos = Server(ops, preps, effs)
    sim = mfs.MatrixForwardSimulator(dim, sos, np.zeros(n))
    STATE.update(v=v, calls=0, asked={}, at=small)
    return sim, sos, n


STATE = {}


class Norm:
    """the linear-algebra module the simulator sees: the norm is any number not below one"""

    def norm(self, a, *r, **k):
        STATE["calls"] += 1
        n = STATE["v"].real("norm%d" % STATE["calls"], 2, None)
        if STATE["v"].symbolic:
            STATE["v"].assume(n.log() > 0.5)
        return n

    def __getattr__(self, k):
        return getattr(np.linalg, k)


def threshold():
    """answers x.max() < t and x.min() > -t: the k-th comparison pair is true for k in STATE['at']"""
    cnt = [0]

    def ask(red):
        if not red.mx:            # the second half of a pair whose first half was true
            return True
        k = STATE["asked"].get(id(cnt), 0)
        STATE["asked"][id(cnt)] = k + 1
        return k in STATE["at"]
    return symnp.Threshold(ask, 1e-100)


def real_item(x):
    """float() of a one-entry array, symbolic or not"""
    x = np.asarray(x)
    return x.reshape(-1)[0] if x.dtype == object and x.size == 1 else float(x)


def EXTRA():
    return {(mfs, "float"): real_item,
            (mfs, "_nla"): Norm(), (mfs, "PSMALL"): threshold(), (mfs, "DSMALL"): threshold(), (mfs, "HSMALL"): threshold(),
            (mt, "_fastcalc"): None}


def lab(s):
    return tuple(G[c] for c in s)


def product_jet(v, sos, circ, n, dim):
    z = zero((dim, dim))
    j = Jet(np.eye(dim), [z] * n, [[z] * n for _ in range(n)])
    for l in circ:
        j = sos.ops[l].jet() @ j
    return j


def pr_jet(v, sos, rho, eff, circ, n, dim):
    j = product_jet(v, sos, circ, n, dim) @ sos.preps[rho].jet()
    e = sos.effects[eff].jet()
    t = lambda a: np.asarray(a).T
    e = Jet(t(e.f), [t(x) for x in e.g], [[t(x) for x in r] for r in e.h])
    r = e @ j
    return (r.f[0, 0], np.array([x[0, 0] for x in r.g]), np.array([[x[0, 0] for x in row] for row in r.h]).reshape(n, n))


FILTERS = {"none": (None, None), "same": ([1, 2], [1, 2]), "differ": ([0, 1], [2]), "reversed": ([2, 1], [0, 2]), "one": ([1], None)}


@unit(P, "products of operations, with derivatives", only=ONLY, extra=EXTRA, lazy_red=True, conc=1, budget=60,
      cases=[dict(layout=l, circ=c, filt=f) for l in ("slices", "arrays", "shared", "spread")
             for c, f in (("", "none"), ("x", "one"), ("xy", "differ"), ("xx", "same"), ("yxy", "none"), ("xyx", "reversed"))],
      funcs=[M + "product", M + "dproduct", M + "hproduct", M + "doperation", M + "hoperation", M + "_process_wrtFilter",
             "pygsti.tools.matrixtools._fas"])
def u_product(v, case):
    sim, sos, n = setup(v, case["layout"])
    circ = lab(case["circ"])
    f1, f2 = FILTERS[case["filt"]]
    s1, s2 = (f1 if f1 is not None else list(range(n))), (f2 if f2 is not None else list(range(n)))
    j = product_jet(v, sos, circ, n, 2)
    v.eq("the product of a circuit is its operations in order, the first on the right", sim.product(circ), j.f)
    p, s = sim.product(circ, True)
    v.eq("the scaled product times its scale is the product", p * s, j.f)
    d = sim.dproduct(circ, wrtFilter=f1)
    exp = np.array([j.g[i] for i in s1]).reshape(len(s1), 2, 2)
    v.eq("dproduct is the derivative of the product", d, exp)
    v.eq("a flat dproduct has the entries of the product as rows", sim.dproduct(circ, flat=True, wrtFilter=f1),
         exp.reshape(len(s1), 4).T)
    h = sim.hproduct(circ, wrtFilter1=f1, wrtFilter2=f2)
    exp = np.array([[j.h[a][b] for b in s2] for a in s1]).reshape(len(s1), len(s2), 2, 2)
    v.eq("hproduct is the second derivative of the product", h, exp)
    v.eq("a flat hproduct has the entries of the product first", sim.hproduct(circ, flat=True, wrtFilter1=f1, wrtFilter2=f2),
         np.transpose(exp.reshape(len(s1), len(s2), 4), (2, 0, 1)))
    for l in "xy":
        o = sos.ops[G[l]].jet()
        v.eq("doperation is the derivative of one operation", sim.doperation(G[l], wrtFilter=f1),
             np.array([o.g[i] for i in s1]).reshape(len(s1), 2, 2))
        v.eq("a flat doperation", sim.doperation(G[l], flat=True, wrtFilter=f1),
             np.array([o.g[i] for i in s1]).reshape(len(s1), 4).T)
        v.eq("hoperation is the second derivative of one operation", sim.hoperation(G[l], wrtFilter1=f1, wrtFilter2=f2),
             np.array([[o.h[a][b] for b in s2] for a in s1]).reshape(len(s1), len(s2), 2, 2))


@unit(P, "probabilities of a circuit, with derivatives", only=ONLY, extra=EXTRA, lazy_red=True, conc=1, budget=60,
      cases=[dict(layout=l, circ=c, hess=h) for l in LAYOUTS for c in ("", "x", "xyx") for h in (True, False)],
      funcs=[M + "prs", M + "dpr", M + "hpr", F + "probs", F + "dprobs", F + "hprobs", M + "_rhoE_from_spamTuple",
             M + "_rhoEs_from_spamTuples"])
def u_probs(v, case):
    sim, sos, n = setup(v, case["layout"], hess=case["hess"])
    circ = lab(case["circ"])
    J = [pr_jet(v, sos, RHO[0], e, circ, n, 2) for e in EFF[:2]]
    v.eq("the probabilities of a circuit", sim.prs(RHO[0], EFF[:2], circ, None), np.array([x[0] for x in J]))
    v.eq("the probabilities with scaling", sim.prs(RHO[0], EFF[:2], circ, None, True), np.array([x[0] for x in J]))
    for e, (p, d, h) in zip(EFF, J):
        dp, pp = sim.dpr((RHO[0], e), circ, True, None)
        v.eq("dpr returns the probability", pp, p)
        v.eq("dpr is the gradient", dp[0], d)
        v.eq("dpr alone", sim.dpr((RHO[0], e), circ, False, None)[0], d)
        hp, dp, pp = sim.hpr((RHO[0], e), circ, True, True, None)
        v.eq("hpr returns the probability", pp, p)
        v.eq("hpr returns the gradient", dp[0], d)
        v.eq("hpr is the Hessian", hp[0], h)
    raw = collections.OrderedDict([((RHO[0],) + circ, [EFF[1], EFF[0]])])
    simp = (raw, [("b",), ("a",)])
    r = sim.probs(simp)
    v.check("outcomes keep their labels and order", list(r.keys()) == [("b",), ("a",)])
    v.eq("probs pairs outcomes with effects", np.array([r["b"], r["a"]]), np.array([J[1][0], J[0][0]]))
    r = sim.dprobs(simp)
    v.eq("dprobs pairs outcomes with effects", r[("b",)][0], J[1][1])
    v.eq("dprobs pairs outcomes with effects (second)", r[("a",)][0], J[0][1])
    r = sim.hprobs(simp)
    v.eq("hprobs pairs outcomes with effects", r[("a",)][0], J[0][2])


LISTS = {            # (preparation, operations, effects)
    "basic": [(0, "", (0, 1)), (0, "x", (0, 1)), (0, "xy", (1,)), (0, "xyx", (0, 1)), (0, "yx", (0,))],
    "no empty": [(0, "xy", (0,)), (0, "xyxy", (1, 0)), (0, "y", (0,))],
    "long first": [(0, "xyx", (1,)), (0, "xy", (0, 1)), (0, "x", (1, 0))],
    "two preps": [(0, "x", (0,)), (1, "x", (1,)), (1, "", (0,)), (0, "xy", (0,)), (0, "", (1,))],
    "effect order": [(0, "y", (1, 0)), (0, "yy", (0,)), (0, "x", (0, 1)), (0, "xx", (1,))],
}


def tree(sim, name, split):
    """evaluation tree of a circuit list; returns it with the element indices of each (circuit, effect)"""
    simp = collections.OrderedDict([((RHO[r],) + lab(c), [EFF[e] for e in es]) for r, c, es in LISTS[name]])
    t = sim.construct_evaltree(simp, 1)
    el = collections.OrderedDict()
    k = 0
    for i, (r, c, es) in enumerate(LISTS[name]):
        el[i] = slice(k, k + len(es))
        k += len(es)
    if split is not None:
        el = t.split(el, **split)
    return t, el, k


def spread(el, i):
    return slct.indices(el[i]) if isinstance(el[i], slice) else list(el[i])


@unit(P, "bulk products, with derivatives", only=ONLY, extra=EXTRA, lazy_red=True, conc=1, budget=90,
      cases=[dict(layout=l, lst=c, filt=f) for l, c, f in (("slices", "basic", "none"), ("arrays", "no empty", "slice"),
                                                           ("shared", "long first", "none"), ("spread", "effect order", "two"))],
      funcs=[M + "bulk_product", M + "bulk_dproduct", M + "bulk_hproduct", M + "_compute_product_cache",
             M + "_compute_dproduct_cache", M + "_compute_hproduct_cache", E + "initialize", B + "final_view"])
def u_bulk_product(v, case):
    sim, sos, n = setup(v, case["layout"])
    t, el, k = tree(sim, case["lst"], None)
    f1, f2 = {"none": (None, None), "slice": ([1, 2], [1, 2]), "two": ([0, 1], [2, 3])}[case["filt"]]
    s1, s2 = (f1 or list(range(n))), (f2 or list(range(n)))
    J = [product_jet(v, sos, lab(c), n, 2) for _, c, _ in LISTS[case["lst"]]]
    N = len(J)
    Gs, dG, hG = (np.array([j.f for j in J]), np.array([[j.g[a] for a in s1] for j in J]),
                  np.array([[[j.h[a][b] for b in s2] for a in s1] for j in J]))
    dG2 = np.array([[j.g[a] for a in s2] for j in J])
    fl = lambda x: np.moveaxis(x.reshape(N, x.shape[1], 4), 1, 2).reshape(N * 4, x.shape[1])
    v.eq("bulk products", sim.bulk_product(t), Gs)
    p, s = sim.bulk_product(t, bScale=True)
    v.eq("scaled bulk products", p * np.asarray(s)[:, None, None], Gs)
    v.eq("bulk derivatives of products", sim.bulk_dproduct(t, wrtFilter=f1), dG)
    v.eq("flat bulk derivatives of products", sim.bulk_dproduct(t, flat=True, wrtFilter=f1), fl(dG))
    d, p, s = sim.bulk_dproduct(t, bReturnProds=True, bScale=True, wrtFilter=f1)
    v.eq("scaled bulk derivatives", d * np.asarray(s)[:, None, None, None], dG)
    v.eq("scaled bulk products next to derivatives", p * np.asarray(s)[:, None, None], Gs)
    v.eq("bulk second derivatives of products", sim.bulk_hproduct(t, wrtFilter1=f1, wrtFilter2=f2), hG)
    h, d1, d2, p = sim.bulk_hproduct(t, bReturnDProdsAndProds=True, wrtFilter1=f1, wrtFilter2=f2)
    v.eq("second derivatives with the rest", h, hG)
    v.eq("first derivatives (rows)", d1, dG)
    v.eq("first derivatives (columns)", d2, dG2)
    v.eq("products", p, Gs)
    h = sim.bulk_hproduct(t, flat=True, wrtFilter1=f1, wrtFilter2=f2)
    v.eq("flat second derivatives", h, np.moveaxis(hG.reshape(N, len(s1), len(s2), 4), 3, 1).reshape(N * 4, len(s1), len(s2)))


SPLITS = {"whole": None, "two": dict(numSubTrees=2), "three": dict(numSubTrees=3), "small": dict(maxSubTreeSize=7)}


@unit(P, "bulk probabilities, with derivatives", only=ONLY, extra=EXTRA, lazy_red=True, conc=1, budget=120,
      cases=[dict(layout=l, lst=c, split=s, mode=m, hess=h)
             for l, c, s, m, h in (("slices", "basic", "whole", "all", True), ("arrays", "basic", "two", "all", True),
                                   ("shared", "long first", "two", "filter", True), ("spread", "effect order", "three", "blocks", True),
                                   ("slices", "two preps", "whole", "all", False), ("slices", "effect order", "small", "filter", False),
                                   ("arrays", "no empty", "whole", "blocks", True), ("slices", "basic", "three", "uneven", False),
                                   ("fixed", "effect order", "two", "all", False))],
      funcs=[M + "bulk_fill_probs", M + "bulk_fill_dprobs", M + "bulk_fill_hprobs", M + "bulk_hprobs_by_block",
             M + "_probs_from_rhoE", M + "_dprobs_from_rhoE", M + "_hprobs_from_rhoE", M + "_fill_result_tuple",
             F + "bulk_probs", F + "bulk_dprobs", F + "bulk_hprobs", E + "split", B + "_finish_split"])
def u_bulk(v, case):
    two = case["lst"] == "two preps"
    sim, sos, n = setup(v, case["layout"], hess=case["hess"], nrho=2 if two else 1)
    lst = LISTS[case["lst"]]
    t, el, k = tree(sim, case["lst"], SPLITS[case["split"]])
    v.check("the tree has one element per circuit and effect", t.num_final_elements() == k)
    Pj = [[pr_jet(v, sos, RHO[r], EFF[e], lab(c), n, 2) for e in es] for r, c, es in lst]
    p, d, h = (v.np.zeros(k), v.np.zeros((k, n)), v.np.zeros((k, n, n)))
    for i in range(len(lst)):
        for e, x in zip(spread(el, i), Pj[i]):
            p[e], d[e], h[e] = x
    new = lambda *s: v.np.zeros(s) if v.symbolic else np.full(s, 77.0)
    mode = case["mode"]
    out = new(k)
    sim.bulk_fill_probs(out, t)
    v.eq("bulk_fill_probs", out, p)
    if mode == "filter":
        f1, f2 = ([1, 2], [1, 2]) if case["layout"] == "shared" else ([1, 2], [0, 1])
        kw, kh, s1, s2 = dict(wrtFilter=f1), dict(wrtFilter1=f1, wrtFilter2=f2), f1, f2
    elif mode in ("blocks", "uneven"):
        b = 2 if mode == "blocks" else 3
        kw, kh, s1, s2 = dict(wrtBlockSize=b), dict(wrtBlockSize1=b, wrtBlockSize2=2), list(range(n)), list(range(n))
    else:
        kw, kh, s1, s2 = {}, {}, list(range(n)), list(range(n))
    dm, pm = new(k, len(s1)), new(k)
    sim.bulk_fill_dprobs(dm, t, prMxToFill=pm, **kw)
    v.eq("bulk_fill_dprobs", dm, d[:, s1])
    v.eq("probabilities of bulk_fill_dprobs", pm, p)
    hm, d1, d2, pm = new(k, len(s1), len(s2)), new(k, len(s1)), new(k, len(s2)), new(k)
    sim.bulk_fill_hprobs(hm, t, pm, d1, d2, **kh)
    v.eq("bulk_fill_hprobs", hm, h[:, s1][:, :, s2])
    v.eq("first derivatives (rows) of bulk_fill_hprobs", d1, d[:, s1])
    v.eq("first derivatives (columns) of bulk_fill_hprobs", d2, d[:, s2])
    v.eq("probabilities of bulk_fill_hprobs", pm, p)
    if SPLITS[case["split"]] is None:
        cols = [(slice(0, 1), slice(0, 2)), (slice(1, n), slice(0, 2)), (slice(1, n), slice(1, n))]
        res = list(sim.bulk_hprobs_by_block(t, cols, True))
        for (a, b), (c, e, hb, db) in zip(cols, res):
            v.check("blocks come in the order asked for", (a, b) == (c, e))
            v.eq("Hessian blocks", hb, h[:, a, b])
            v.eq("products of gradients of a block", db, d[:, a][:, :, None] * d[:, b][:, None, :])
    circs = ["c%d" % i for i in range(len(lst))]
    outs = [["o%d" % e for e in es] for _, _, es in lst]
    r1 = sim.bulk_probs(circs, t, el, outs)
    r2 = sim.bulk_dprobs(circs, t, el, outs, returnPr=True, **kw)
    r3 = sim.bulk_hprobs(circs, t, el, outs, returnPr=True, returnDeriv=True, **kh)
    for i, (_, _, es) in enumerate(lst):
        for e, x in zip(es, Pj[i]):
            o = "o%d" % e
            v.eq("bulk_probs files each probability under its circuit and outcome", r1["c%d" % i][o], x[0])
            v.eq("bulk_dprobs files each gradient under its circuit and outcome", r2["c%d" % i][o][0], x[1][s1])
            v.eq("bulk_dprobs files each probability", r2["c%d" % i][o][1], x[0])
            q = r3["c%d" % i][o]
            v.eq("bulk_hprobs files each Hessian", q[0], x[2][s1][:, s2])
            v.eq("bulk_hprobs files each gradient", q[1], x[1][s1])
            v.eq("bulk_hprobs files each probability", q[-1], x[0])
            if kh.get("wrtFilter1") != kh.get("wrtFilter2"):
                v.eq("bulk_hprobs files the gradient of the columns", q[2], x[1][s2])


# -- evaluation trees: every element is computed once, from the circuit and effect it belongs to
def drawlist(seed):
    r = random.Random(seed)
    letters = "xyz"[:r.choice([1, 2, 3])]
    pool = [""] + ["".join(r.choice(letters) for _ in range(r.randint(1, 6))) for _ in range(r.randint(1, 9))]
    pool += [a + b for a in pool[:3] for b in pool[1:3]]
    items, seen = [], set()
    for _ in range(r.randint(1, 12)):
        c, p = r.choice(pool), r.choice([0, 0, 0, 1])
        if (c, p) not in seen:
            seen.add((c, p))
            items.append((p, c, tuple(r.sample(range(3), r.choice([1, 2, 3])))))
    return items


def build(kind, items, **kw):
    simp = collections.OrderedDict([((RHO[p],) + lab(c), [EFF[e] for e in es]) for p, c, es in items])
    t = met.MatrixEvalTree() if kind == "matrix" else pet.MapEvalTree()
    t.initialize(simp, 1, **kw)
    el, k = collections.OrderedDict(), 0
    for i, (_, _, es) in enumerate(items):
        el[i] = slice(k, k + len(es))
        k += len(es)
    return t, el, k


def matrix_words(v, t):
    """the operation sequence of each index of a matrix tree, evaluated in the tree's order"""
    w = [None] * len(t)
    for i, l in zip(t.get_init_indices(), t.get_init_labels()):
        w[i] = () if l == "" else (l,)
    for i in t.get_evaluation_order():
        r, l = t[i]
        v.check("the factors of a product are computed before it", w[r] is not None and w[l] is not None)
        v.check("every product is computed once", w[i] is None)
        w[i] = w[r] + w[l]          # the right factor acts first
    return w


def map_words(v, t):
    w, cache = [None] * len(t), [None] * t.cache_size()
    for i in t.get_evaluation_order():
        st, rem, ic = t[i]
        v.check("a cached state exists before it is used", st is None or cache[st] is not None)
        v.check("every circuit is computed once", w[i] is None)
        w[i] = tuple(rem) if st is None else cache[st] + tuple(rem)
        if ic is not None:
            v.check("a cache slot is written once", cache[ic] is None)
            cache[ic] = w[i]
    return w


def elements(v, kind, t, parent, k, out):
    """record, for every final element the (sub)tree fills, the preparation, operations and effect it comes from"""
    n = t.num_final_strings()
    fel = t.final_element_indices(parent)
    fel = list(range(t.num_final_elements())) if isinstance(fel, slice) else [int(x) for x in fel]
    if kind == "matrix":
        w = matrix_words(v, t)
        v.check("every final product is computed", all(w[i] is not None for i in range(n)))
        for st, (fi, gi) in t.spamtuple_indices.items():
            fi = list(range(k))[fi] if isinstance(fi, slice) else list(fi)
            gi = list(range(n))[gi] if isinstance(gi, slice) else list(gi)
            v.check("element and circuit indices pair up", len(fi) == len(gi))
            for f, g in zip(fi, gi):
                out.setdefault(int(f), []).append((st[0], w[g], st[1]))
        v.check("the elements a subtree announces are the ones it fills",
                sorted(int(f) for fi, _ in t.spamtuple_indices.values()
                       for f in (list(range(k))[fi] if isinstance(fi, slice) else fi)) == sorted(fel))
    else:
        w = map_words(v, t)
        v.check("every final circuit is computed", all(w[i] is not None for i in range(n)))
        for i in range(n):
            for e, f in zip(t.eLbl_indices_per_circuit[i], t.final_indices_per_circuit[i]):
                out.setdefault(fel[f], []).append((w[i][0], w[i][1:], t.elabels[e]))
        v.check("each prep of a subtree is known", {w[i][0] for i in range(n)} <= set(t.rholabels))
        v.check("each operation of a subtree is known", {l for x in w[:n] for l in x[1:]} <= set(t.opLabels))


def check_tree(v, kind, t, el, k, items):
    out = {}
    for s in t.get_sub_trees():
        elements(v, kind, s, t, k, out)
    v.check("every element is filled once", sorted(out) == list(range(k)) and all(len(x) == 1 for x in out.values()))
    for i, (p, c, es) in enumerate(items):
        v.check("element indices of a circuit hold its outcomes, in order",
                [out[int(f)][0] for f in spread(el, i)] == [(RHO[p], lab(c), EFF[e]) for e in es])
    circs = [tuple(c) for c in t.generate_circuit_list()]
    v.check("the tree's circuits are the ones it was given",
            circs == [(lab(c) if kind == "matrix" else (RHO[p],) + lab(c)) for p, c, _ in items])
    own = t.generate_circuit_list(permute=False)
    a = np.arange(len(items))
    v.check("permuting to computation order and back is the identity",
            list(t.permute_computation_to_original(t.permute_original_to_computation(a))) == list(a))
    v.check("computation order is the order of the tree's own list",
            [tuple(own[j]) for j in np.argsort(t.permute_original_to_computation(a), kind="stable")] is not None
            and [circs[i] for i in t.permute_original_to_computation(a)] == [tuple(x) for x in own])
    if t.is_split():
        strings = [list(range(t.num_final_strings()))[s.final_slice(t)] for s in t.get_sub_trees()]
        v.check("subtrees divide the circuits", sorted(sum(strings, [])) == list(range(len(items))))
        for s, ix in zip(t.get_sub_trees(), strings):
            v.check("a subtree's circuits are the parent's", [tuple(x) for x in s.generate_circuit_list(permute=False)]
                    == [tuple(own[j]) for j in ix])


@unit(P, "evaluation trees", sym=False, conc=1,
      cases=[dict(kind=k, seed=s) for k in ("matrix", "map") for s in range(24)],
      thorough_cases=[dict(kind=k, seed=s) for k in ("matrix", "map") for s in range(400)],
      funcs=[E + "initialize", E + "split", E + "generate_circuit_list", E + "copy", E + "recompute_spamtuple_indices", Q + "initialize",
             Q + "split", Q + "squeeze", Q + "trim_nonfinal_els", Q + "generate_circuit_list", Q + "copy", B + "_finish_split",
             B + "permute_original_to_computation", B + "permute_computation_to_original", B + "_permute_simplified_circuit_Xs",
             B + "final_element_indices", B + "final_slice"])
def u_trees(v, case):
    kind = case["kind"]
    for r in range(12):
        seed = case["seed"] * 1000 + r
        items = drawlist(seed)
        rr = random.Random(seed + 7)
        kw = {} if kind == "matrix" else dict(maxCacheSize=rr.choice([None, None, 0, 1, 2]))
        t, el, k = build(kind, items, **kw)
        check_tree(v, kind, t, el, k, items)
        if kind == "map" and kw["maxCacheSize"] is not None:
            v.check("the cache stays within its limit", t.cache_size() <= kw["maxCacheSize"])
        ns = [n for n in (1, 2, 3, len(items)) if n <= len(items)]
        for sp in [dict(numSubTrees=n) for n in ns] + [dict(maxSubTreeSize=m) for m in (3, 6, 12)]:
            t, el, k = build(kind, items, **kw)
            small = t.get_min_tree_size() if kind == "matrix" else 0
            if sp.get("maxSubTreeSize", 99) < small:
                v.raises("a size below the smallest tree is refused", ValueError, lambda: t.split(el, **sp)) \
                    if len(t) >= sp["maxSubTreeSize"] else None
                continue
            try:
                el2 = t.split(el, **sp)
            except AssertionError as e:
                if kind == "map" and "Unsuccessful splitting" in str(e):
                    continue              # no division into exactly that many pieces was found: refused, not wrong
                raise
            check_tree(v, kind, t, el2, k, items)
            if kind == "matrix" and "maxSubTreeSize" in sp and t.is_split():
                v.check("no subtree exceeds the size asked for", all(len(s) <= sp["maxSubTreeSize"] for s in t.get_sub_trees()))
            if sp.get("numSubTrees", 1) > 1:
                v.check("the number of subtrees is the one asked for", len(t.get_sub_trees()) == sp["numSubTrees"])
            c = t.copy()
            check_tree(v, kind, c, el2, k, items)
        if kind == "map":
            for lim in (2, 1, 0):
                t, el, k = build(kind, items)
                t.squeeze(lim)
                v.check("squeezing respects the limit", t.cache_size() <= lim)
                check_tree(v, kind, t, el, k, items)


# -- whole models: every simulator against the products of dense matrices, central differences for derivatives
def refmodel(seed, kind):
    """a model with drawn parameters, its dense operations in hand"""
    from pygsti.construction import build_explicit_model
    r = np.random.RandomState(seed)
    m = build_explicit_model([("Q0",)], ["Gx", "Gy", "Gi"], ["X(pi/2,Q0)", "Y(pi/2,Q0)", "I(Q0)"],
                             **({"effectLabels": ["0", "1"]}))
    m.set_all_parameterizations(kind if kind not in ("two preps", "instrument", "shared") else "TP")
    if kind == "two preps":
        m["rho1"] = m["rho0"].copy()
    if kind == "instrument":
        e0, e1 = (np.asarray(m["Mdefault"][l].todense()).reshape(-1, 1) for l in ("0", "1"))
        m["Iz"] = pygsti.obj.TPInstrument(collections.OrderedDict([("p", e0 @ e0.T), ("m", e1 @ e1.T)]))
    vec = m.to_vector()
    m.from_vector(vec + r.uniform(-0.08, 0.08, len(vec)))
    return m


def dense_probs(m, circ):
    """outcome probabilities of a circuit from the dense matrices of the model"""
    prep, povm = "rho0", "Mdefault"
    ls = list(circ)
    if ls and str(ls[0]).startswith("rho"):
        prep, ls = ls[0], ls[1:]
    if ls and str(ls[-1]).startswith("M"):
        povm, ls = ls[-1], ls[:-1]
    branch = [((), np.asarray(m.preps[prep].todense()).reshape(-1, 1))]
    for l in ls:
        if l in m.instruments:
            branch = [(o + (k,), np.asarray(x.todense()) @ s) for o, s in branch for k, x in m.instruments[l].items()]
        else:
            ops = [np.asarray(m.operations[c].todense()) for c in l.components] if str(l) != "[]" else []
            for o in ops:
                branch = [(a, o @ s) for a, s in branch]
    out = {}
    for o, s in branch:
        for k, x in m.povms[povm].items():
            out[o + (k,)] = float(np.real(np.asarray(x.todense()).reshape(1, -1).conj() @ s)[0, 0]) if m._evotype == "densitymx" \
                else float(abs((np.asarray(x.todense()).reshape(1, -1).conj() @ s)[0, 0]) ** 2)
    return out


CIRCS = ["{}", "Gx", "GxGy", "GxGxGxGx", "GyGxGy", "GxGyGiGx", "Gi", "GiGi", "(GxGy)^3", "GyGyGx"]
KINDS = ["full", "TP", "CPTP", "H+S", "two preps", "instrument", "static"]


def model_circuits(kind):
    cs = [pygsti.obj.Circuit(None, stringrep=c) for c in CIRCS]
    if kind == "two preps":
        cs = [pygsti.obj.Circuit((r,) + tuple(c) + ("Mdefault",)) for r in ("rho1", "rho0") for c in cs[:6]]
    if kind == "instrument":
        cs += [pygsti.obj.Circuit(c) for c in (("Iz",), ("Gx", "Iz", "Gy"), ("Iz", "Gx", "Iz"))]
    return cs


def central(m, f, eps=1e-5):
    vec = m.to_vector().copy()
    cols = []
    for i in range(len(vec)):
        a, b = vec.copy(), vec.copy()
        a[i] += eps
        b[i] -= eps
        m.from_vector(a)
        fa = f()
        m.from_vector(b)
        fb = f()
        cols.append((fa - fb) / (2 * eps))
    m.from_vector(vec)
    return np.stack(cols, axis=-1) if cols else np.zeros(np.shape(f()) + (0,))


def flat(m, cs, el=None, outs=None):
    """expected probabilities of a list of circuits, in element order when given"""
    if el is None:
        return np.array([p for c in cs for _, p in sorted(dense_probs(m, c).items())])
    k = max((max(spread(el, i)) for i in range(len(cs))), default=-1) + 1
    out = np.full(k, np.nan)
    for i, c in enumerate(cs):
        d = dense_probs(m, c)
        for j, o in zip(spread(el, i), outs[i]):
            out[j] = d[o]
    return out


@unit(P, "models: probabilities by every simulator", sym=False, conc=1, conc_s=40,
      cases=[dict(kind=k, sim=s, seed=1) for k in KINDS for s in ("matrix", "map")],
      thorough_cases=[dict(kind=k, sim=s, seed=i) for k in KINDS for s in ("matrix", "map") for i in range(6)],
      funcs=["pygsti.objects.model.OpModel.probs", "pygsti.objects.model.OpModel.bulk_probs", "pygsti.objects.model.OpModel.bulk_evaltree",
             "pygsti.objects.model.OpModel.simplify_circuits", "pygsti.objects.model.OpModel.bulk_fill_probs", A + "prs",
             A + "bulk_fill_probs", "pygsti.objects.replib.fastreplib.DM_mapfill_probs_block",
             "pygsti.objects.replib.fastreplib.propagate_staterep", "pygsti.objects.model.OpModel.product"])
def u_models(v, case):
    m = refmodel(case["seed"], case["kind"])
    m.set_simtype(case["sim"])
    cs = model_circuits(case["kind"])
    for c in cs:
        exp = dense_probs(m, c)
        got = m.probs(c)
        v.check("the outcomes of a circuit are those of its instruments and measurement", set(got.keys()) == set(exp))
        v.eq("a model's probabilities are the ordered product", [got[o] for o in exp], [exp[o] for o in exp], tol=1e-9)
        v.eq("probabilities of a complete measurement sum to one", sum(got.values()), 1.0 if case["kind"] != "full" else sum(exp.values()),
             tol=1e-9)
        if case["sim"] == "matrix" and case["kind"] not in ("instrument", "two preps"):
            M_ = np.eye(4)
            for l in c:
                M_ = np.asarray(m.operations[l].todense()) @ M_
            v.eq("a model's product", m.product(c), M_, tol=1e-9)
    for kw in (dict(), dict(minSubtrees=2), dict(minSubtrees=3), dict(maxTreeSize=18)):
        try:
            tree_, el, outs = m.bulk_evaltree(cs, **kw)
        except AssertionError as e:
            if "Unsuccessful splitting" in str(e):
                continue
            raise
        exp = flat(m, cs, el, outs)
        out = np.full(len(exp), 55.0)
        m.bulk_fill_probs(out, tree_)
        v.eq("bulk probabilities", out, exp, tol=1e-9)
        out = np.full(len(exp), 55.0)
        m.bulk_fill_probs(out, tree_, clipTo=(0.1, 0.6))
        v.eq("clipped bulk probabilities", out, np.clip(exp, 0.1, 0.6), tol=1e-9)
    bp = m.bulk_probs(cs)
    for c in cs:
        d = dense_probs(m, c)
        v.eq("bulk_probs of each circuit", [bp[c][o] for o in d], [d[o] for o in d], tol=1e-9)


@unit(P, "models: derivatives by every simulator", sym=False, conc=1, conc_s=40,
      cases=[dict(kind=k, sim=s, seed=1) for k in ("full", "TP", "CPTP", "H+S", "two preps", "instrument") for s in ("matrix", "map")],
      thorough_cases=[dict(kind=k, sim=s, seed=i) for k in KINDS for s in ("matrix", "map") for i in range(4)],
      funcs=["pygsti.objects.model.OpModel.dprobs", "pygsti.objects.model.OpModel.bulk_dprobs", "pygsti.objects.model.OpModel.bulk_fill_dprobs",
             "pygsti.objects.model.OpModel.bulk_fill_hprobs", "pygsti.objects.model.OpModel.bulk_hprobs_by_block", A + "dpr", A + "hpr",
             A + "bulk_fill_dprobs", A + "bulk_fill_hprobs", A + "DM_mapfill_hprobs_block",
             "pygsti.objects.replib.fastreplib.DM_mapfill_dprobs_block", F + "bulk_dprobs", F + "bulk_hprobs"])
def u_models_d(v, case):
    m = refmodel(case["seed"], case["kind"])
    m.set_simtype(case["sim"])
    cs = model_circuits(case["kind"])[::2]
    n = m.num_params()
    td = 1e-6 if case["sim"] == "matrix" else 1e-5
    th = 1e-4 if case["sim"] == "matrix" else 6e-3
    tree_, el, outs = m.bulk_evaltree(cs)
    d = central(m, lambda: flat(m, cs, el, outs))
    k = d.shape[0]
    cols = sorted(np.random.RandomState(case["seed"]).choice(n, 4, replace=False)) if n >= 4 else list(range(n))

    def hcol():
        vec = m.to_vector().copy()
        h = []
        for i in cols:
            g = []
            for s in (1e-4, -1e-4):
                w = vec.copy()
                w[i] += s
                m.from_vector(w)
                g.append(central(m, lambda: flat(m, cs, el, outs), 1e-4))
            h.append((g[0] - g[1]) / 2e-4)
        m.from_vector(vec)
        return np.stack(h, axis=-1)
    vec0 = m.to_vector().copy()
    hessians = case["sim"] == "matrix" or case["kind"] != "CPTP"
    h = hcol() if hessians else None
    for kw in (dict(), dict(minSubtrees=2)):
        t2, el2, outs2 = m.bulk_evaltree(cs, **kw)
        perm = np.empty(k, int)
        for i in range(len(cs)):
            for a, b in zip(spread(el2, i), spread(el, i)):
                perm[a] = b
        for b in (None, max(1, n // 3)):
            dm, pm = np.full((k, n), 9.0), np.full(k, 9.0)
            m.bulk_fill_dprobs(dm, t2, prMxToFill=pm, wrtBlockSize=b)
            v.eq("bulk derivatives of probabilities", dm, d[perm], tol=td)
            v.eq("probabilities next to derivatives", pm, flat(m, cs, el2, outs2), tol=1e-9)
            v.eq("the parameters are put back exactly", m.to_vector(), vec0, tol=0)
        if not hessians or case["sim"] == "map" and not kw:
            continue
        hm, d1, pm = np.full((k, n, n), 9.0), np.full((k, n), 9.0), np.full(k, 9.0)
        m.bulk_fill_hprobs(hm, t2, pm, d1, wrtBlockSize1=kw and max(1, n // 2) or None, wrtBlockSize2=kw and max(1, n // 2) or None)
        v.eq("bulk second derivatives of probabilities", hm[:, :, cols], h[perm], tol=th)
        v.eq("gradients next to second derivatives", d1, d[perm], tol=td)
        v.eq("probabilities next to second derivatives", pm, flat(m, cs, el2, outs2), tol=1e-9)
        v.eq("the parameters are put back", m.to_vector(), vec0, tol=0)
    sl = [(slice(0, n), slice(c, c + 1)) for c in cols]
    for (a, b), (c, e, hb, db) in () if not hessians else zip(sl, m.bulk_hprobs_by_block(tree_, sl, bReturnDProbs12=True)):
        v.check("blocks come in the order asked for", (a, b) == (c, e))
        v.eq("Hessian blocks", hb[:, :, 0], h[:, :, cols.index(b.start)], tol=th)
        v.eq("products of gradients of a block", db[:, :, 0], d * d[:, b], tol=10 * td)
    for i, c in enumerate(cs):
        dp = m.dprobs(c, returnPr=True)
        hp = m.hprobs(c) if i < 2 and hessians else None
        for o, e in zip(outs[i], spread(el, i)):
            v.eq("derivatives of one circuit", dp[o][0].reshape(-1), d[e], tol=td)
            if hp is not None:
                v.eq("second derivatives of one circuit", hp[o].reshape(n, n)[:, cols], h[e], tol=th)
    bd = m.bulk_dprobs(cs, returnPr=True)
    for i, c in enumerate(cs):
        for o, e in zip(outs[i], spread(el, i)):
            v.eq("bulk_dprobs of each circuit", bd[c][o][0], d[e], tol=td)

"""C03: likelihood and chi-squared statistics: values, bounds and derivatives."""

LEVEL = "proof"
LEVEL_NOTE = ("Values, gradients and Hessians of the log-likelihood and chi-squared statistics are proved for all "
              "probabilities, derivatives and counts, on every side of every clipping boundary, for layouts of up to 2 "
              "circuits and 3 outcomes and every combination of the listed options. The model and the data set are "
              "represented by their contracts (C05, C11); real models, split evaluation trees and aliases are bounded checks. "
              "Floating point is read as real arithmetic.")
ASSUMPTIONS = ["bulk_fill_probs / dprobs / hprobs and bulk_hprobs_by_block return the probabilities and their derivatives (C05)",
               "lemmas handed to the solver: log x <= x - 1, log x <= 0 for x <= 1"]
import numpy as np
import pygsti
from pygsti.tools import likelihoodfns as lf, chi2fns as cf
from pyvc.facade import unit

P = "C03"
L = "pygsti.tools.likelihoodfns."
C = "pygsti.tools.chi2fns."
MINP, RAD, CLIPW = 1 / 1024, 1 / 256, 1 / 512


class Tree:
    """contract of an unsplit evaluation tree"""
    myFinalElsToParentFinalElsMap = None
    def __init__(self, n, ns): self.n, self.ns = n, ns
    def num_final_elements(self): return self.n
    def num_final_strings(self): return self.ns
    def get_sub_trees(self): return [self]
    def distribute(self, comm, verbosity=0): return [0], {0: 0}, None
    def final_element_indices(self, parent): return slice(0, self.n)
    def split(self, lookup, *a): return lookup
    def __len__(self): return self.ns


class Row:
    def __init__(self, cnts): self.counts = cnts
    @property
    def total(self): return sum(self.counts.values())
    def fraction(self, o): return self.counts.get(o, 0) / self.total
    def allcounts(self): return self.counts


class DS(dict):
    """contract of the data set: a row of counts per circuit"""
    def get_degrees_of_freedom(self, circuits=None):
        return sum(max(len(self[c].counts) - 1, 0) for c in (list(self) if circuits is None else circuits))


class Mdl:
    """assumed contract of the model; p, dp/dx and d2p/dx2 of an arbitrary function p"""
    def __init__(self, v, shape, npar, order):
        self.v, self.shape, self.npar = v, shape, npar
        self.circs = [("G%d" % i,) for i in range(len(shape))]
        self.lookup, self.nout, off, self.outs = {}, {}, 0, {}
        for i, (k, tot) in enumerate(shape):
            self.lookup[i] = slice(off, off + k)
            self.nout[self.circs[i]] = tot
            self.outs[i] = [("%d" % o,) for o in range(k)]
            off += k
        self.KM = off
        self.x0 = self.x = v.reals("x", npar)
        KM, dt = off, object if v.symbolic else float
        self.H = np.zeros((KM, npar, npar), dtype=dt)
        if order > 1:
            for k in range(KM):
                for i in range(npar):
                    for j in range(i, npar):
                        self.H[k, i, j] = self.H[k, j, i] = v.real("h%d_%d%d" % (k, i, j))
        self.D = np.empty((KM, npar), dtype=dt)
        for k in range(KM):
            for i in range(npar):
                n = "d%d_%d" % (k, i)
                self.D[k, i] = v.fun(n, self.x0, self.H[k, i]) if order > 1 else v.real(n)
        self.P = np.empty(KM, dtype=dt)
        for k in range(KM):
            if not v.symbolic:
                v.vals = {} if v.vals is None else v.vals
                if "p%d" % k not in v.vals:
                    v.vals["p%d" % k] = v.rng.choice([0.5, 0.3, 0.97, MINP * .7, RAD * .6, 0.1, -0.01, 1.02, v.rng.random() * .01,
                                                      v.rng.random()])
            self.P[k] = v.fun("p%d" % k, self.x0, self.D[k])
        if len(shape) > 1:
            v.assume(self.P[0] > 1 / 8)
            v.assume(self.P[0] < 7 / 8)
        self.P, self.D, self.H = v.arr(self.P), v.arr(self.D), v.arr(self.H)

    def num_params(self): return self.npar
    def num_nongauge_params(self): return self.npar
    def get_dimension(self): return 4
    def get_num_outcomes(self, c): return self.nout[tuple(c)]

    def bulk_evaltree_from_resources(self, circuits, comm=None, memLimit=None, distributeMethod="default", subcalls=[],
                                     dataset=None, verbosity=0):
        assert [tuple(c) for c in circuits] == self.circs
        return Tree(self.KM, len(self.circs)), None, None, self.lookup, self.outs

    def simplify_circuits(self, circuits, dataset=None):
        return None, self.lookup, self.outs, self.KM

    def p(self):
        if self.v.symbolic:
            return self.P
        d = self.x - self.x0
        return self.P + self.D @ d + .5 * np.einsum("kij,i,j->k", self.H, d, d)

    def dp(self):
        return self.D if self.v.symbolic else self.D + self.H @ (self.x - self.x0)

    def bulk_fill_probs(self, mx, tree, clipTo=None, check=False, comm=None):
        mx[:] = self.p()

    def bulk_fill_dprobs(self, mx, tree, prMxToFill=None, clipTo=None, check=False, comm=None, wrtBlockSize=None):
        if prMxToFill is not None:
            prMxToFill[:] = self.p()
        mx[:, :] = self.dp()

    def bulk_fill_hprobs(self, mx, tree, prMxToFill=None, derivMxToFill=None, clipTo=None, check=False, comm=None):
        if prMxToFill is not None:
            prMxToFill[:] = self.p()
        if derivMxToFill is not None:
            derivMxToFill[:, :] = self.dp()
        mx[:, :, :] = self.H

    def bulk_hprobs_by_block(self, tree, wrtSlices, bReturnDProbs12=False, comm=None):
        for s1, s2 in wrtSlices:
            d = self.dp()
            yield s1, s2, self.v.np.array(self.H[:, s1, s2]), d[:, s1, None] * d[:, None, s2]


def setup(v, shape, npar=1, order=1):
    m = Mdl(v, shape, npar, order)
    ds, n, N = DS(), np.zeros(m.KM, dtype=object if v.symbolic else float), {}
    for i, c in enumerate(m.circs):
        cnts = {}
        for k, o in zip(range(m.lookup[i].start, m.lookup[i].stop), m.outs[i]):
            hit = (i == 0 and len(shape) > 1) or k == m.lookup[i].stop - 1 or v.choice("hit%d" % k, [True, False])
            n[k] = v.real("n%d" % k, lo=0) if hit else 0
            if hit or v.choice("zero entry %d" % k, [True, False]):
                cnts[o] = n[k]
        ds[c] = Row(cnts)
        for k in range(m.lookup[i].start, m.lookup[i].stop):
            N[k] = ds[c].total
    return m, ds, n, N


def lemmas(v, m, n, N, poisson=True):
    p = m.P
    for k in range(m.KM):
        if not poisson:
            v.assume(p[k] < 1)
        if v.symbolic and not isinstance(n[k], int):
            q = p[k] if p[k] >= MINP else MINP
            v.assume(n[k] * v.np.log(q) - (N[k] * q if poisson else 0) <= 0)


def g0(p, a):
    return p if p >= a else -p ** 3 / (3 * a ** 2) + p ** 2 / a + a / 3


def omitted(m):
    return [i for i, (k, tot) in enumerate(m.shape) if 0 < k < tot]


def terms_oracle(v, m, n, N, poisson):
    p, log, out = m.p(), v.np.log, []
    for i in range(len(m.shape)):
        t, r = 0, range(m.lookup[i].start, m.lookup[i].stop)
        for k in r:
            if isinstance(n[k], int) or not v.symbolic and n[k] == 0:
                t = t - (N[k] * g0(p[k], RAD) if poisson else 0)
                continue
            base = lambda q: n[k] * log(q) - (N[k] * q if poisson else 0)
            if p[k] < MINP:
                s = n[k] / MINP - (N[k] if poisson else 0)
                t = t + base(MINP) + s * (p[k] - MINP) - n[k] / (2 * MINP ** 2) * (p[k] - MINP) ** 2
            else:
                t = t + base(p[k])
        if i in omitted(m) and poisson:
            q = 1 - sum((p[k] if p[k] >= MINP else MINP) for k in r)
            t = t - N[r[0]] * g0(q, RAD)
        out.append(t)
    return out


SHAPES = [[(1, 1)], [(2, 2)], [(1, 2)], [(2, 3)], [(1, 1), (1, 2)]]
CASES = [(s, b) for s in SHAPES for b in (True, False)]


@unit(P, "logl values", cases=CASES, conc=40, max_paths=4000, budget=60,
      funcs=[L + "logl_terms", L + "logl", L + "logl_max_terms", L + "logl_max", L + "two_delta_logl_terms", L + "two_delta_logl"])
def logl_values(v, case):
    shape, poisson = case
    m, ds, n, N = setup(v, shape)
    lemmas(v, m, n, N, poisson)
    kw = dict(minProbClip=MINP, radius=RAD, poissonPicture=poisson)
    cl = v.choice("circuit list given", [list(m.circs), None])
    cache = v.choice("cache", [None, {}]) if len(shape) == 1 and shape[0][0] == 1 else None
    got = lf.logl_terms(m, ds, cl, evaltree_cache=cache, **kw)
    exp = terms_oracle(v, m, n, N, poisson)
    v.eq("terms", got, exp)
    tot = lf.logl(m, ds, cl, evaltree_cache=cache, **kw)
    v.eq("logl is the sum of the terms", tot, sum(exp))
    log = v.np.log
    mx = []
    for i in range(len(shape)):
        t = 0
        for k in range(m.lookup[i].start, m.lookup[i].stop):
            if not (isinstance(n[k], int) or not v.symbolic and n[k] == 0):
                t = t + n[k] * (log(n[k] / N[k]) - (1 if poisson else 0))
        mx.append(t)
    v.eq("upper bound terms", lf.logl_max_terms(m, ds, cl, poisson, None, cache), mx)
    v.eq("upper bound", lf.logl_max(m, ds, cl, poisson, False, None, cache), sum(mx))
    v.eq("two delta terms", lf.two_delta_logl_terms(m, ds, cl, evaltree_cache=cache, **kw), [2 * (a - b) for a, b in zip(mx, exp)])
    v.eq("two delta", lf.two_delta_logl(m, ds, cl, evaltree_cache=cache, **kw), 2 * (sum(mx) - sum(exp)))


@unit(P, "statistics of the difference", cases=["all", "nongauge"], conc=20, budget=20, sym=False,
      funcs=[L + "two_delta_logl_nsigma", L + "two_delta_logl", L + "two_delta_logl_terms"])
def nsigma(v, dof):
    from scipy import stats
    m, ds, n, N = setup(v, v.choice("shape", [[(2, 2)], [(3, 3), (2, 2)], [(3, 3)] * 4]))
    kw = dict(minProbClip=MINP, radius=RAD, dof_calc_method=dof)
    cl = v.choice("list", [None, list(m.circs)])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t, s, pv = lf.two_delta_logl(m, ds, cl, **kw)
        T, S, PV = lf.two_delta_logl_terms(m, ds, cl, **kw)
    k = max(ds.get_degrees_of_freedom() - 1, 1)
    v.eq("Nsigma", s, (t - k) / np.sqrt(2 * k))
    v.eq("p-value", pv, 1 - stats.chi2.cdf(t, k))
    kt = int(np.ceil(k / len(m.circs)))
    v.eq("Nsigma of the terms", S, (T - kt) / np.sqrt(2 * kt))
    v.eq("p-value of the terms", PV, 1 - stats.chi2.cdf(T, kt))
    kw["dof_calc_method"] = dof
    v.eq("nsigma only", lf.two_delta_logl_nsigma(m, ds, cl, MINP, (-1e6, 1e6), RAD, dof_calc_method=dof), s)


def away(v, m, *pts):
    """not on a kink; probabilities below 2 (the functions clip at 1e10)"""
    for k in range(m.KM):
        v.assume(m.P[k] < 2)
        for q in pts:
            v.assume(m.P[k] != q)
            if not v.symbolic:
                v.assume(abs(m.P[k] - q) > 1e-3 * q)


def deriv(v, label, f, m, J, tol=2e-4):
    """J is the derivative of f(x)"""
    x = m.x0
    if v.symbolic:
        v.is_deriv(label, lambda y: f(), x, J)
        return
    J, best = np.asarray(J), np.inf
    for h in (1e-5, 1e-6, 1e-7, 1e-4):
        fd = []
        for j in range(len(x)):
            e = np.zeros(len(x))
            e[j] = h
            m.x = x + e
            a = np.array(f())
            m.x = x - e
            fd.append((a - np.array(f())) / (2 * h))
        m.x = x
        fd = np.moveaxis(np.array(fd), 0, -1)
        best = min(best, np.max(np.abs(fd - J)) / (1 + np.abs(J).max()))
    v.check(label, best < tol, "relative deviation %g from difference quotients" % best)


@unit(P, "logl jacobian", cases=CASES, conc=40, max_paths=4000, budget=60, weight=2, funcs=[L + "logl_jacobian"])
def logl_jac(v, case):
    shape, poisson = case
    m, ds, n, N = setup(v, shape, 2 if sum(k for k, _ in shape) < 3 else 1)
    away(v, m, MINP, RAD)
    lemmas(v, m, n, N, poisson)
    kw = dict(minProbClip=MINP, radius=RAD, poissonPicture=poisson)
    cl = v.choice("circuit list given", [list(m.circs), None])
    J = lf.logl_jacobian(m, ds, cl, **kw)
    deriv(v, "jacobian", lambda: lf.logl(m, ds, cl, **kw), m, J)


HCASES = [([(1, 1)], True, 2), ([(1, 1)], False, 2), ([(2, 2)], True, 2), ([(2, 2)], False, 2), ([(1, 2)], True, 2),
          ([(1, 2)], False, 2), ([(2, 3)], True, 1), ([(2, 3)], False, 1), ([(1, 1), (1, 2)], True, 1)]


@unit(P, "logl hessian", cases=HCASES, conc=40, max_paths=4000, budget=60, weight=2, funcs=[L + "logl_hessian"])
def logl_hess(v, case):
    shape, poisson, npar = case
    m, ds, n, N = setup(v, shape, npar, 2)
    away(v, m, MINP, RAD)
    lemmas(v, m, n, N, poisson)
    p = m.P
    label = "hessian"
    for i in omitted(m):
        q = 1 - sum((p[k] if p[k] >= MINP else MINP) for k in range(m.lookup[i].start, m.lookup[i].stop))
        v.assume(q != RAD)
        if poisson and m.shape[i][0] > 1 and q < RAD:
            label = "hessian (two outcomes seen, improbable rest)"     # known finding
    kw = dict(minProbClip=MINP, radius=RAD, poissonPicture=poisson)
    cl = v.choice("circuit list given", [list(m.circs), None])
    H = lf.logl_hessian(m, ds, cl, **kw)
    deriv(v, label, lambda: lf.logl_jacobian(m, ds, cl, **kw), m, H, 2e-3)


# ------------------------------------------------------------------ chi2

@unit(P, "chi2 values and gradient", cases=SHAPES, conc=40, max_paths=4000, budget=60,
      funcs=[C + "chi2_terms", C + "chi2"])
def chi2_values(v, shape):
    m, ds, n, N = setup(v, shape, 2 if sum(k for k, _ in shape) < 3 else 1)
    away(v, m, CLIPW, 1 - CLIPW)
    p, exp = m.P, []
    for i in range(len(shape)):
        r = range(m.lookup[i].start, m.lookup[i].stop)
        t = sum(N[k] * (p[k] - n[k] / N[k]) ** 2 / (p[k] if p[k] > CLIPW else CLIPW) for k in r)
        if i in omitted(m):
            q = 1 - sum(p[k] for k in r)
            v.assume(q != CLIPW)
            v.assume(q != 1 - CLIPW)
            if not v.symbolic:
                v.assume(min(abs(q - CLIPW), abs(q - 1 + CLIPW)) > 1e-4)
            t = t + N[r[0]] * q ** 2 / (CLIPW if q < CLIPW else 1 - CLIPW if q > 1 - CLIPW else q)
        exp.append(t)
    cl = v.choice("circuit list given", [list(m.circs), None])
    v.eq("terms", cf.chi2_terms(m, ds, cl, CLIPW), exp)
    v.eq("chi2", cf.chi2(m, ds, cl, minProbClipForWeighting=CLIPW), sum(exp))
    a, J = cf.chi2(m, ds, cl, returnGradient=True, minProbClipForWeighting=CLIPW)
    v.eq("chi2 with gradient", a, sum(exp))
    deriv(v, "gradient", lambda: cf.chi2(m, ds, cl, minProbClipForWeighting=CLIPW), m, J)


@unit(P, "chi2 hessian", cases=[[(1, 1)], [(2, 2)], [(1, 1), (1, 1)]], conc=30, max_paths=4000, budget=60, funcs=[C + "chi2"])
def chi2_hess(v, shape):
    m, ds, n, N = setup(v, shape, 2, 2)
    away(v, m, CLIPW)
    kw = dict(circuits=list(m.circs), minProbClipForWeighting=CLIPW)
    grad = lambda: cf.chi2(m, ds, returnGradient=True, **kw)[1]
    g = grad()
    if v.choice("with gradient", [True, False]):
        _, g2, H = cf.chi2(m, ds, returnGradient=True, returnHessian=True, **kw)
        v.eq("gradient next to the hessian", g2, g)
    else:
        _, H = cf.chi2(m, ds, returnHessian=True, **kw)
    deriv(v, "hessian", grad, m, H, 2e-3)
    # approximate hessian: the terms with second derivatives of the probabilities left out
    p, f = m.P, [n[k] / N[k] for k in range(m.KM)]
    app = [[0] * 2 for _ in range(2)]
    for k in range(m.KM):
        w = 2 * N[k] / CLIPW if p[k] < CLIPW else 2 * N[k] * f[k] ** 2 / p[k] ** 3
        for i in range(2):
            for j in range(2):
                app[i][j] = app[i][j] + w * m.D[k, i] * m.D[k, j]
    v.eq("approximate hessian", cf.chi2(m, ds, returnHessian=True, approximateHessian=True, **kw)[1], v.arr(np.array(app)))


# ------------------------------------------------------------------ single-term functions

@unit(P, "single terms", conc=60, budget=30,
      funcs=[L + "two_delta_loglfn", L + "_patched_logl_fn", C + "chi2fn", C + "chi2fn_2outcome", C + "chi2fn_wfreqs",
             C + "chi2fn_2outcome_wfreqs"])
def single(v):
    N, p = v.real("N", lo=0), v.real("p", lo=-2, hi=2)
    f = v.real("f", lo=1 / 512, hi=1) if v.choice("hit", [True, False]) else 0.0
    if v.symbolic:      # the value exactly on a boundary is covered by the concrete runs
        for q in (CLIPW, 1 - CLIPW, MINP):
            v.assume(p != q)
    cp = p if p > CLIPW else CLIPW
    cp2 = 1 - CLIPW if cp > 1 - CLIPW else cp
    log = v.np.log
    v.eq("chi2fn", cf.chi2fn(N, p, f, CLIPW), N * (p - f) ** 2 / cp)
    v.eq("chi2fn_2outcome", cf.chi2fn_2outcome(N, p, f, CLIPW), N * (p - f) ** 2 / (cp2 * (1 - cp2)))
    g = (f * N + 1) / (N + 2)
    v.eq("chi2fn_wfreqs", cf.chi2fn_wfreqs(N, p, f, CLIPW), N * (p - f) ** 2 / g)
    v.eq("chi2fn_2outcome_wfreqs", cf.chi2fn_2outcome_wfreqs(N, p, f), N * (p - f) ** 2 / (g * (1 - g)))
    S = MINP
    w = N * log(p) if not p < S else N * log(S) + N / S * (p - S) - N / (2 * S ** 2) * (p - S) ** 2
    v.eq("_patched_logl_fn", lf._patched_logl_fn(N, p, S), w)
    v.eq("_patched_logl_fn of no counts", lf._patched_logl_fn(0, p, S), 0)


@unit(P, "difference term", cases=[True, False], conc=60, budget=30, funcs=[L + "two_delta_loglfn"])
def difference(v, poisson):
    k = 2
    N, p = v.reals("N", k, lo=0), v.reals("p", k, lo=-2, hi=2)
    hit = [v.choice("hit%d" % i, [True, False]) for i in range(k)]
    f = v.arr(np.array([v.real("f%d" % i, lo=1 / 512, hi=1) if hit[i] else 0.0 for i in range(k)]))
    log, exp = v.np.log, []
    for i in range(k):
        if v.symbolic:
            v.assume(p[i] != MINP)
        c = p[i] if p[i] > MINP else MINP
        t = 2 * N[i] * f[i] * log(f[i] / c) if hit[i] else 0
        exp.append(t - 2 * N[i] * (f[i] - c) if poisson else t)
    g = f + 0
    v.eq("value", lf.two_delta_loglfn(N, p, f, MINP, poisson), exp)
    v.eq("the argument is unchanged", f, g)
    if not v.symbolic:
        f2 = np.array([f[0], np.nan])
        r = lf.two_delta_loglfn(N, p, f2, MINP, poisson)
        v.eq("next to a NaN", r[0], exp[0])
        v.check("NaN in, NaN out, NaN kept", np.isnan(r[1]) and np.isnan(f2[1]))
        v.eq("scalar", lf.two_delta_loglfn(N[0], p[0], f[0], MINP, poisson), exp[0])


@unit(P, "upper bound dominates", sym=False, conc=300, budget=20, funcs=[L + "logl_max", L + "logl"])
def dominates(v):
    import warnings
    m, ds, n, N = setup(v, v.choice("shape", SHAPES + [[(3, 3)], [(2, 4), (3, 3)]]))
    # a model that predicts a distribution
    for i in range(len(m.shape)):
        s = m.lookup[i]
        q = np.abs(m.P[s]) + 1e-9
        tot = q.sum() if m.shape[i][0] == m.shape[i][1] else q.sum() * (1 + v.rng.random())
        m.P[s] = q / tot
    for poisson in (True, False):
        a = lf.logl_max(m, ds, None, poisson, check=True)
        b = lf.logl(m, ds, None, MINP, radius=RAD, poissonPicture=poisson)
        v.check("logl <= logl_max", b <= a + 1e-9 * abs(a), "%r > %r" % (b, a))


# ------------------------------------------------------------------ real models and data sets (bounded)

_CACHE = {}


def real_model(kind):
    if kind not in _CACHE:
        from pygsti.construction import std1Q_XYI
        t = std1Q_XYI.target_model()
        t.set_all_parameterizations("full" if kind != "TP" else "TP")
        _CACHE[kind] = t
    return _CACHE[kind]


def real_data(v, m, sparse, circs=None):
    from pygsti.objects import DataSet, Circuit
    circs = circs or [Circuit(c) for c in [("Gx",), ("Gx", "Gy"), ("Gi", "Gx", "Gx"), ("Gy",) * 3, ("Gx", "Gy", "Gx")]]
    ds = DataSet(outcomeLabels=["0", "1"])
    for c in circs:
        p = m.probs(c)
        cnt = {o: v.rng.randint(0, 20) + 1 for o in p}
        if sparse and v.rng.random() < .6:
            cnt.pop(v.rng.choice(list(cnt)))
        ds.add_count_dict(c, cnt)
    ds.done_adding_data()
    return ds, circs


def perturbed(v, kind):
    m = real_model(kind).copy()
    m = m.depolarize(op_noise=0.05, spam_noise=0.05)
    x = m.to_vector()
    m.from_vector(x + 0.02 * np.array([v.rng.uniform(-1, 1) for _ in x]))
    return m


@unit(P, "real model derivatives", cases=["dense", "sparse", "split sparse", "split"], sym=False, conc=2, conc_s=60, budget=60,
      funcs=[L + "logl_jacobian", L + "logl_hessian", C + "chi2"])
def real_derivs(v, case):
    m = perturbed(v, "TP")
    ds, circs = real_data(v, m, "sparse" in case)
    kw = dict(minProbClip=1e-4, radius=1e-3)
    mlim = None
    if "split" in case:
        mlim = {}
    x = m.to_vector()
    J = lf.logl_jacobian(m, ds, circs, **kw)
    f = lambda y: (m.from_vector(y), lf.logl(m, ds, circs, **kw))[1]
    h, dirn = 1e-5, np.array([v.rng.uniform(-1, 1) for _ in x])
    fd = (f(x + h * dirn) - f(x - h * dirn)) / (2 * h)
    m.from_vector(x)
    v.eq("logl jacobian (real model)", J @ dirn, fd, tol=1e-4)
    if mlim is None:
        H = lf.logl_hessian(m, ds, circs, **kw)
        lab = "logl hessian (real model)"
    else:
        with split_trees(m):
            H = lf.logl_hessian(m, ds, circs, **kw)
        lab = "logl hessian (real model, split tree%s)" % (", outcomes missing" if "sparse" in case else "")
    g = lambda y: (m.from_vector(y), lf.logl_jacobian(m, ds, circs, **kw))[1]
    fd = (g(x + h * dirn) - g(x - h * dirn)) / (2 * h)
    m.from_vector(x)
    v.eq(lab, H @ dirn, fd, tol=1e-3)
    if "split" not in case:
        c, dc = cf.chi2(m, ds, circs, returnGradient=True)
        k = lambda y: (m.from_vector(y), cf.chi2(m, ds, circs))[1]
        v.eq("chi2 gradient (real model)", dc @ dirn, (k(x + h * dirn) - k(x - h * dirn)) / (2 * h), tol=1e-4)
        m.from_vector(x)


class split_trees:
    """the evaluation tree a memory limit would give: split in two"""
    def __init__(self, m): self.m = m
    def __enter__(self):
        m, orig = self.m, type(self.m).bulk_evaltree_from_resources
        def f(circuits, *a, **k):
            t, b1, b2, lookup, outs = orig(m, circuits, *a, **k)
            lookup = t.split(lookup, numSubTrees=2)
            return t, b1, b2, lookup, outs
        m.bulk_evaltree_from_resources = f
    def __exit__(self, *a):
        del self.m.bulk_evaltree_from_resources


@unit(P, "caches and aliases", sym=False, conc=3, conc_s=40, budget=40, funcs=[L + "logl", L + "logl_max", C + "chi2", C + "chi2_terms"])
def caches(v):
    from pygsti.objects import SmartCache, Circuit, DataSet
    m = perturbed(v, "TP")
    ds, circs = real_data(v, m, v.choice("sparse", [True, False]))
    a = lf.logl(m, ds, circs)
    cache, sc = {}, SmartCache(decorating=(None, None))
    for rep in range(2):
        v.eq("evaltree cache %d" % rep, lf.logl(m, ds, circs, evaltree_cache=cache), a)
        v.eq("smart cache %d" % rep, lf.logl(m, ds, circs, smartc=sc), a)
    b = lf.logl_max(m, ds, circs)
    v.eq("max with cache", lf.logl_max(m, ds, circs, evaltree_cache=cache), b)
    v.eq("max with cache, all circuits", lf.logl_max(m, ds, None, evaltree_cache=cache), b)
    v.eq("two delta", lf.two_delta_logl(m, ds, circs), 2 * (b - a))
    v.eq("chi2 cache", cf.chi2(m, ds, circs, evaltree_cache=cache), cf.chi2(m, ds, circs))
    v.eq("chi2 terms", sum(cf.chi2_terms(m, ds, circs)), cf.chi2(m, ds, circs))
    # an alias stands for the circuit it names in the data set
    ds2 = DataSet(outcomeLabels=["0", "1"])
    for c in circs:
        ds2.add_count_dict(Circuit([("Ga" if str(l) == "Gx" else str(l)) for l in c]), ds[c].counts)
    ds2.done_adding_data()
    al = {"Gx": Circuit(["Ga"])}
    v.eq("logl, aliases", lf.logl(m, ds2, circs, opLabelAliases=al), a)
    v.eq("logl max, aliases", lf.logl_max(m, ds2, circs, opLabelAliases=al, check=True), b)
    v.eq("chi2 terms, aliases", sum(cf.chi2_terms(m, ds2, circs, opLabelAliases=al)), cf.chi2(m, ds2, circs, opLabelAliases=al))
    v.eq("jacobian, aliases", lf.logl_jacobian(m, ds2, circs, opLabelAliases=al).shape, (m.num_params(),))

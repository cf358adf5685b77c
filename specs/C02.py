"""C02: least-squares objective functions: value and Jacobian."""

LEVEL = "proof"
LEVEL_NOTE = ("Residuals and Jacobians of the chi-squared and log-likelihood objective functions are proved for all "
              "probabilities, derivatives, counts and weights, on every side of every clipping boundary, for the circuit "
              "layouts listed (up to 2 circuits, 3 outcomes) and every combination of options. The model is represented by "
              "the contract of its bulk probability functions (checked in C05). Floating point is read as real arithmetic.")
ASSUMPTIONS = ["bulk_fill_probs / bulk_fill_dprobs return the probabilities and their derivatives (C05)"]
import numpy as np
import pygsti
from pygsti.objects import objectivefns as of
from pyvc.facade import unit

P = "C02"
F = "pygsti.objects.objectivefns."


class Prof:
    def add_time(self, *a, **k): pass


class Tree:
    def __init__(self, n): self.n = n
    def num_final_elements(self): return self.n


class Mdl:
    """assumed contract of the model: bulk_fill_probs writes p(x), bulk_fill_dprobs writes p(x) and dp/dx, for an
    arbitrary function p; P holds its values at the symbolic point x and D its partial derivatives there"""
    basis = None

    def __init__(self, v, x0, P, D, nout):
        self.v, self.x0, self.P, self.D, self.nout = v, x0, P, D, nout
        self.x = None

    def num_params(self): return self.D.shape[1]
    def get_num_outcomes(self, circuit): return self.nout[int(circuit[0])]
    def get_simtype(self): return "matrix"
    def from_vector(self, x): self.x = x
    def to_vector(self): return self.x

    def p(self, x):
        if self.v.symbolic:
            return self.P
        return self.P + np.dot(self.D, x - self.x0)

    def bulk_fill_probs(self, mx, tree, clipTo=None, check=False, comm=None, *a, **k):
        mx[:] = self.p(self.x)

    def bulk_fill_dprobs(self, mx, tree, prMxToFill=None, clipTo=None, *a, **k):
        if prMxToFill is not None:
            prMxToFill[:] = self.p(self.x)
        mx[:, :] = self.D


def layout(v, shape):
    """shape: list of (present outcomes, total outcomes) per circuit -> lookup slices"""
    lookup, nout, off = {}, [], 0
    for i, (k, tot) in enumerate(shape):
        lookup[i] = slice(off, off + k)
        nout.append(tot)
        off += k
    return lookup, nout, off


def setup(v, shape, npar=2):
    lookup, nout, KM = layout(v, shape)
    D = v.reals("D", (KM, npar))
    x = v.reals("x", npar)
    P = np.empty(KM, dtype=object if v.symbolic else float)
    for k in range(KM):
        if not v.symbolic and v.vals is None:
            # concrete runs: put the probabilities where the code distinguishes cases
            v.vals = {}
        if not v.symbolic and "p%d" % k not in v.vals:
            v.vals["p%d" % k] = v.rng.choice([0.5, 0.02, 1e-9, 0.3, 0.97, 0.99999999, 0.0, -0.01, v.rng.random()])
        P[k] = v.fun("p%d" % k, x, D[k])
    if len(shape) > 1:
        # two circuits: the first one is kept in the regular case (the cases are independent per circuit)
        v.assume(P[0] > 1 / 8)
        v.assume(P[0] < 7 / 8)
    P = v.arr(P)
    N = np.empty(KM, dtype=object if v.symbolic else float)
    f = np.empty(KM, dtype=object if v.symbolic else float)
    for i in range(len(shape)):
        n = v.real("N%d" % i, lo=0)
        for k in range(lookup[i].start, lookup[i].stop):
            N[k] = n
            f[k] = v.real("f%d" % k, lo=0, hi=1) if (len(shape) > 1 and i == 0) or v.choice("hit%d" % k, [True, False]) else 0
    m = Mdl(v, x, P, D, nout)
    return m, lookup, [str(i) for i in range(len(shape))], KM, x, v.arr(N), v.arr(f)


CHI_SHAPES = [[(2, 2)], [(1, 2)], [(2, 3)], [(1, 1), (1, 2)]]


def omitted_rows(shape, lookup):
    return [i for i, (k, tot) in enumerate(shape) if 0 < k < tot]


def mk_chi2(v, shape, m, lookup, circs, KM, N, f, cls=of.Chi2Function, reg=0, verbosity=0, fw=None, mpc=None):
    a = [m, Tree(KM), lookup, circs, None, reg, 0, 0, N * f, N]
    if fw is not None:
        a.append(fw)
    return cls(*(a + [mpc, (-1e6, 1e6), None, None]), profiler=Prof(), verbosity=verbosity)


def clip(v, p, lo, hi):
    if p < lo:
        return lo
    if p > hi:
        return hi
    return p


def no_kink(v, p, lo, hi):
    v.assume(p != lo)
    v.assume(p != hi)


@unit(P, "chi2 residuals", cases=CHI_SHAPES, conc=60, max_paths=4000, budget=60,
      funcs=[F + "Chi2Function.__init__", F + "Chi2Function.simple_chi2", F + "Chi2Function.get_weights",
             F + "Chi2Function.update_v_for_omitted_probs"])
def chi2_value(v, shape):
    m, lookup, circs, KM, x, N, f = setup(v, shape, 1)
    mpc = 1 / 1024 if v.symbolic else v.choice("mpc", [1e-4, 1e-2, 1e-6])
    o = mk_chi2(v, shape, m, lookup, circs, KM, N, f, mpc=mpc)
    vec = o.fn(x)
    p = m.p(x)
    om = omitted_rows(shape, lookup)
    for i in range(len(shape)):
        for k in range(lookup[i].start, lookup[i].stop):
            # definition: N (p-f)^2 / clip(p), signed root (p-f) sqrt(N / clip(p))
            t = N[k] * (p[k] - f[k]) ** 2 / clip(v, p[k], mpc, 1 - mpc)
            if i in om and k == lookup[i].start:
                q = 1 - sum(p[j] for j in range(lookup[i].start, lookup[i].stop))
                t = t + N[k] * q ** 2 / clip(v, q, mpc, 1 - mpc)
            v.eq("chi2 term %d" % k, vec[k] ** 2, t)
            if not (i in om and k == lookup[i].start):
                v.check("sign of residual %d" % k, vec[k] * (p[k] - f[k]) >= 0)
    v.eq("length", len(vec), KM)


@unit(P, "chi2 jacobian", cases=CHI_SHAPES, conc=60, max_paths=4000, budget=90, weight=3,
      funcs=[F + "Chi2Function.simple_jac", F + "Chi2Function.get_dweights",
             F + "Chi2Function.update_dprobs_for_omitted_probs"])
def chi2_jac(v, shape):
    m, lookup, circs, KM, x, N, f = setup(v, shape, 2)
    mpc = 1 / 1024 if v.symbolic else v.choice("mpc", [1e-4, 1e-2, 1e-6])
    o = mk_chi2(v, shape, m, lookup, circs, KM, N, f, mpc=mpc)
    p = m.p(x)
    for k in range(KM):
        no_kink(v, p[k], mpc, 1 - mpc)
        if not v.symbolic:
            v.assume(abs(p[k] - mpc) > 1e-3 * mpc and abs(p[k] - 1 + mpc) > 1e-3 * mpc)
    for i in omitted_rows(shape, lookup):
        q = 1 - sum(p[j] for j in range(lookup[i].start, lookup[i].stop))
        k = lookup[i].start
        no_kink(v, q, mpc, 1 - mpc)
        # the norm sqrt(a^2+b^2) is not differentiable where both vanish
        v.assume(((p[k] - f[k]) ** 2 + q ** 2) > 0)
    J = np.array(o.jfn(x), dtype=object if v.symbolic else float)
    deriv(v, "jacobian", o, x, J, m)


def deriv(v, label, o, x, J, m):
    if v.symbolic:
        v.is_deriv(label, o.fn, x, J)
        return
    # compare with a difference quotient at a step small against the distance to the nearest case boundary
    best = np.inf
    for h in (1e-6, 1e-8, 1e-4, 1e-10):
        fd = np.empty_like(J)
        for j in range(len(x)):
            e = np.zeros(len(x))
            e[j] = h
            fd[:, j] = (o.fn(x + e) - o.fn(x - e)) / (2 * h)
        with np.errstate(all="ignore"):
            err = np.max(np.abs(fd - J) / (1 + np.abs(J).max()))
        if err == err:
            best = min(best, err)
    v.check(label, best < 2e-3, "relative deviation %g of the Jacobian from difference quotients" % best)


@unit(P, "chi2 regularized", cases=["fast", "verbose"], conc=40, max_paths=4000, budget=60,
      funcs=[F + "Chi2Function.regularized_chi2", F + "Chi2Function.regularized_jac", F + "Chi2Function.verbose_chi2",
             F + "Chi2Function.verbose_jac"])
def chi2_reg(v, which):
    m, lookup, circs, KM, x, N, f = setup(v, [(1, 1)], 2)
    mpc = 1 / 1024
    r = 3
    o = mk_chi2(v, None, m, lookup, circs, KM, N, f, mpc=mpc, reg=r)
    if which == "verbose":
        o.fn, o.jfn = o.verbose_chi2, o.verbose_jac
        o.printer = Quiet(v)
    p = m.p(x)
    v.assume(p[0] > 0.1 if not v.symbolic else p[0] > 1 / 8)
    v.assume(p[0] < 7 / 8)
    vec = o.fn(x)
    v.eq("length", len(vec), KM + 2)
    v.eq("term", vec[0] ** 2, N[0] * (p[0] - f[0]) ** 2 / p[0])
    for j in range(2):
        v.assume(abs(x[j]) != 1)
        if not v.symbolic:
            v.assume(abs(abs(x[j]) - 1) > 1e-3)
        v.eq("regularizer %d" % j, vec[KM + j], r * (abs(x[j]) - 1) if abs(x[j]) > 1 else 0)
    deriv(v, "jacobian", o, x, np.array(o.jfn(x), dtype=object if v.symbolic else float), m)


class Quiet:
    verbosity = 4
    def __init__(self, v):
        if v.symbolic:
            v.c.lenient_float = True      # symbolic numbers are formatted into log messages
    def log(self, *a, **k): pass


@unit(P, "chi2 verbose equals fast", cases=CHI_SHAPES[:2], conc=30, max_paths=4000, budget=60,
      funcs=[F + "Chi2Function.verbose_chi2", F + "Chi2Function.verbose_jac"])
def chi2_verbose(v, shape):
    m, lookup, circs, KM, x, N, f = setup(v, shape, 1)
    mpc = 1 / 1024
    o = mk_chi2(v, shape, m, lookup, circs, KM, N, f, mpc=mpc)
    p = m.p(x)
    v.assume(p[0] > 0)
    if len(p) == 2:
        v.assume(p[0] > mpc)
        v.assume(p[0] < 1 - mpc)
    o.printer = Quiet(v)
    a, ja = np.array(o.simple_chi2(x)), np.array(o.simple_jac(x))
    b, jb = np.array(o.verbose_chi2(x)), np.array(o.verbose_jac(x))
    v.eq("value", b, a)
    v.eq("jacobian", jb, ja)


@unit(P, "chi2 frequency weighted", cases=[[(2, 2)], [(1, 1)]], conc=40, max_paths=2000, budget=60,
      funcs=[F + "FreqWeightedChi2Function.__init__", F + "FreqWeightedChi2Function.get_weights",
             F + "FreqWeightedChi2Function.get_dweights"])
def chi2_freq(v, shape):
    m, lookup, circs, KM, x, N, f = setup(v, shape, 2)
    fw = v.reals("w", KM, lo=0)
    o = mk_chi2(v, shape, m, lookup, circs, KM, N, f, mpc=1 / 1024, cls=of.FreqWeightedChi2Function, fw=fw)
    p = m.p(x)
    v.eq("residual = (p-f) * given weight", o.fn(x), (p - f) * fw)
    J = np.array(o.jfn(x), dtype=object if v.symbolic else float)
    v.eq("jacobian", J, m.D * fw[:, None])


# ------------------------------------------------------------------ log-likelihood

LOGL_SHAPES = [[(1, 1)], [(2, 2)], [(1, 2)], [(2, 3)], [(1, 1), (1, 2)]]
MINP, RAD = 1 / 1024, 1 / 256


def mk_logl(v, m, lookup, circs, KM, N, f, minp=MINP, rad=RAD, ff=None):
    return of.LogLFunction(m, Tree(KM), lookup, circs, None, 0, 0, N * f, N, minp, rad, (-1e6, 1e6), None, None, ff, True,
                           profiler=Prof())


def g0(v, p, a):
    """the rounded zero-frequency term: p, smoothly continued below the radius"""
    if p >= a:
        return p
    return -p ** 3 / (3 * a ** 2) + p ** 2 / a + a / 3


def ll_term(v, N, f, p, minp, a):
    """N f (log f - 1) - N f log p + N p, quadratically continued below minp; the zero-frequency form where f == 0"""
    log = v.np.log
    if not v.symbolic and f == 0 or (v.symbolic and isinstance(f, int)):
        return N * g0(v, p, a)
    base = lambda q: N * f * (log(f) - 1) - N * f * log(q) + N * q
    if p < minp:
        s, s2 = N - N * f / minp, N * f / (2 * minp ** 2)
        return base(minp) + s * (p - minp) + s2 * (p - minp) ** 2
    return base(p)


@unit(P, "logl residuals", cases=LOGL_SHAPES, conc=60, max_paths=4000, budget=90, weight=2,
      funcs=[F + "LogLFunction.__init__", F + "LogLFunction.poisson_picture_logl",
             F + "LogLFunction._poisson_picture_v_from_probs", F + "LogLFunction.termgap_poisson_picture_logl",
             F + "LogLFunction._termgap_v2_from_probs"])
def logl_value(v, shape):
    m, lookup, circs, KM, x, N, f = setup(v, shape, 1)
    o = mk_logl(v, m, lookup, circs, KM, N, f)
    p = m.p(x)
    nonneg(v, N, f, p)
    vec = o.fn(x)
    exp = logl_expected(v, shape, lookup, N, f, p)
    v.eq("length", len(vec), KM)
    for k in range(KM):
        v.eq("logl term %d" % k, vec[k] ** 2, exp[k], tol=1e-6)
        v.check("residual %d nonnegative" % k, vec[k] >= 0)
    tg = o.termgap_poisson_picture_logl(x)
    for k in range(KM):
        v.eq("termgap logl term %d" % k, tg[k] ** 2, exp[k], tol=1e-6)


def nonneg(v, N, f, p):
    """lemma handed to the solver: x log x - x + 1 >= 0 makes each un-rounded term non-negative; the code clips at 0"""
    if not v.symbolic:
        for k in range(len(p)):
            v.assume(p[k] > -0.5)
        return
    for k in range(len(p)):
        if not isinstance(f[k], int):
            for q in ([MINP] if p[k] < MINP else [p[k]]):
                q = q if not isinstance(q, float) else q
                v.assume(N[k] * f[k] * (v.np.log(f[k]) - 1) - N[k] * f[k] * v.np.log(q) + N[k] * q >= 0)


def logl_expected(v, shape, lookup, N, f, p):
    exp = []
    om = omitted_rows(shape, lookup)
    for i in range(len(shape)):
        for k in range(lookup[i].start, lookup[i].stop):
            t = ll_term(v, N[k], f[k], p[k], MINP, RAD)
            if i in om and k == lookup[i].start:
                q = 1 - sum((p[j] if p[j] >= MINP else MINP) for j in range(lookup[i].start, lookup[i].stop))
                t = t + N[k] * g0(v, q, RAD)
            exp.append(t)
    return exp


@unit(P, "logl jacobian", cases=LOGL_SHAPES, conc=60, max_paths=4000, budget=110, weight=4,
      funcs=[F + "LogLFunction.poisson_picture_jacobian"])
def logl_jac(v, shape):
    m, lookup, circs, KM, x, N, f = setup(v, shape, 2 if KMof(shape) < 3 else 1)
    o = mk_logl(v, m, lookup, circs, KM, N, f)
    p = m.p(x)
    for k in range(KM):
        v.assume(p[k] != MINP)
        if not v.symbolic:
            v.assume(abs(p[k] - MINP) > 1e-5 and abs(p[k] - RAD) > 1e-5)
    nonneg(v, N, f, p)
    exp = logl_expected(v, shape, lookup, N, f, p)
    for k in range(KM):
        # sqrt(t) is not differentiable at t = 0
        v.assume(exp[k] > (0 if v.symbolic else 1e-9))
    J = np.array(o.jfn(x), dtype=object if v.symbolic else float)
    deriv(v, "jacobian", o, x, J, m)


def KMof(shape):
    return sum(k for k, _ in shape)


@unit(P, "logl forcing terms", cases=[1, 2], conc=30, budget=40, funcs=[F + "LogLFunction.poisson_picture_jacobian"])
def logl_force(v, nf):
    m, lookup, circs, KM, x, N, f = setup(v, [(1, 1)], 2)
    p = m.p(x)
    v.assume(p[0] > 1 / 8)
    v.assume(p[0] < 1)
    f[0] = 0
    g = v.arr(np.array([[2.0, 1.0], [0.5, -3.0]])[:nf])
    m.from_vector(x)
    o = mk_logl(v, m, lookup, circs, KM, N, f, ff=np.array([[2.0, 1.0], [0.5, -3.0]])[:nf]) if not v.symbolic else None
    if v.symbolic:
        m.from_vector(np.zeros(2))
        o = mk_logl(v, m, lookup, circs, KM, N, f, ff=np.array([[2.0, 1.0], [0.5, -3.0]])[:nf])
        for r in range(nf):
            v.assume(x[0] < 2)
            v.assume(x[0] > -2)
            v.assume(x[1] < 2)
            v.assume(x[1] > -2)
    vec = o.fn(x)
    v.eq("length", len(vec), KM + nf)
    J = np.array(o.jfn(x), dtype=object if v.symbolic else float)
    deriv(v, "jacobian", o, x, J, m)

"""C07: polynomial algebra and compact evaluation."""

LEVEL = "proof"
LEVEL_NOTE = ("The pure-Python polynomial representation, its algebra, the compact encodings and their evaluation and "
              "differentiation (pure Python, and the Cython functions extracted from their source) are proved for all "
              "coefficients and all points, over the term structures listed (every polynomial of up to two terms of degree up "
              "to three in three variables, and pairs of them). The C++ class behind the compiled representation is a bounded "
              "check against the same contracts.")
ASSUMPTIONS = ["extraction of Cython text drops C types: machine integers are read as mathematical ones",
               "PolyCRep (C++) is checked on drawn polynomials only"]
import itertools
import os
import numpy as np
import pygsti
from pygsti.objects import polynomial as pm
from pygsti.objects.replib import slowreplib
from pygsti.objects.opcalc import slowopcalc
from pygsti.objects import opcalc
from pyvc.facade import unit
from pyvc import pyx
from pyvc.core import Unsupported
from pyvc.loops import LoopSpec

P = "C07"
PO = "pygsti.objects.polynomial."
SR = "pygsti.objects.replib.slowreplib.PolyRep."
SO = "pygsti.objects.opcalc.slowopcalc."
FO = "pygsti.objects.opcalc.fastopcalc."
PYX = os.path.join(os.path.dirname(opcalc.__file__), "fastopcalc.pyx")
NAMES = ["bulk_eval_compact_polys", "bulk_eval_compact_polys_complex", "abs_sum_bulk_eval_compact_polys_complex", "compact_deriv"]
MONOS = [m for n in range(4) for m in itertools.combinations_with_replacement(range(3), n)]


def extracted(v):
    return pyx.load(PYX, NAMES, {"np": v.np})


class slow_rep:
    """run the polynomial class on the pure-Python representation"""
    def __enter__(self):
        self.old, pm.replib = pm.replib, slowreplib
    def __exit__(self, *a):
        pm.replib = self.old


def value(terms, x):
    """oracle: the value of {monomial: coefficient} at x"""
    r = 0
    for m, c in terms.items():
        t = c
        for i in m:
            t = t * x[i]
        r = r + t
    return r


# ------------------------------------------------------------------ packing of variable indices into integers

@unit(P, "index packing", cases=[(M, vpi, n) for M in (1, 2, 3, 100, 255) for vpi in (1, 2, 3) for n in (0, 1, 2, 3)], conc=20,
      budget=30, max_paths=2000,
      funcs=[PO + "_vinds_to_int", SR + "_vinds_to_int", SR + "_int_to_vinds", PO + "FASTPolynomial.coeffs"])
def packing(v, case):
    M, vpi, n = case
    inds = []
    for k in range(n):
        inds.append(v.int("i%d" % k, (inds[-1] if inds else 0), M - 1))
    rep = slowreplib.PolyRep(None, M, vpi)
    key = rep._vinds_to_int(tuple(inds))
    v.check("number of integers", len(key) == -(-n // vpi))
    for e in key:
        v.check("fits", 0 <= e)
        v.check("fits in the digits", e < (M + 1) ** vpi)
    key2 = pm._vinds_to_int(tuple(inds), vpi, M)
    for a, b in zip(key, key2):
        v.check("both packings agree", a == b)
    back = rep._int_to_vinds(key)
    v.check("as many indices", len(back) == n)
    for a, b in zip(back, inds):
        v.check("unpacking gives the indices back", a == b)
    class R:
        max_num_vars, int_coeffs = M, {}
    if not v.symbolic:
        R.int_coeffs = {key: 1.0}
        v.check("coeffs", list(pm.FASTPolynomial.fromrep(R).coeffs) == [tuple(inds)])


@unit(P, "indices per integer", sym=False, conc=1, funcs=[PO + "FASTPolynomial.get_vindices_per_int"])
def per_int(v):
    for M in list(range(1, 3000)) + [2 ** k + d for k in range(12, 40) for d in (-1, 0, 1)]:
        n = pm.FASTPolynomial.get_vindices_per_int(M)
        v.check("at least one", n >= 1)
        v.check("packed indices fit in a signed 64-bit integer", (M + 1) ** n - 1 < 2 ** 63, "%d variables, %d per integer" % (M, n))


# ------------------------------------------------------------------ algebra

def term_sets(n=3, monos=MONOS):
    return [()] + [(m,) for m in monos] + list(itertools.combinations(monos, 2))


SMALL = [(), (0,), (1,), (0, 0), (0, 1), (0, 1, 1)]


def poly(v, name, ms, M=3):
    return {m: v.real("%s%d" % (name, i)) for i, m in enumerate(ms)}


def both(v):
    """representations a polynomial is run on: the pure-Python one in proofs, and the compiled one too in concrete runs"""
    yield "", slow_rep()
    if not v.symbolic:
        import contextlib
        yield " (compiled)", contextlib.nullcontext()


@unit(P, "unary operations", cases=["value", "deriv", "pow", "map", "compact"], conc=3, conc_s=30, budget=60, max_paths=400000,
      funcs=[PO + "FASTPolynomial." + f for f in (
          "__init__", "coeffs", "evaluate", "deriv", "get_degree", "scale", "scalar_mult", "__pow__", "__rmul__", "copy",
          "map_indices", "map_indices_inplace", "mapvec_indices", "mapvec_indices_inplace", "compact", "fromrep", "torep")]
      + [SR + f for f in ("copy", "scale", "mapvec_indices_inplace", "compact_complex", "compact_real", "reinit")])
def unary(v, op):
    x = v.reals("x", 4)
    s = v.real("s")
    c = [v.real("c0"), v.real("c1")]
    for lab, rep in both(v):
        with rep:
            for ms in term_sets():
                t = dict(zip(ms, c))
                p = pm.Polynomial(t, 4)
                nm = "%s %s" % (op, lab)
                if op == "value":
                    v.eq(nm, p.evaluate(x), value(t, x))
                    v.check("degree" + lab, p.get_degree() == max([len(m) for m in ms], default=0))
                    v.eq("scalar multiple" + lab, (p * s).evaluate(x), s * value(t, x))
                    v.eq("scalar multiple from the left" + lab, (s * p).evaluate(x) if not v.symbolic else p.__rmul__(s).evaluate(x),
                         s * value(t, x))
                    q = p.copy()
                    q.scale(s)
                    v.eq("scaled copy" + lab, q.evaluate(x), s * value(t, x))
                    v.eq("original of a scaled copy" + lab, p.evaluate(x), value(t, x))
                    v.eq("representation" + lab, pm.Polynomial.fromrep(p.torep()).evaluate(x), value(t, x))
                elif op == "deriv":
                    for j in range(4):
                        d = {}
                        for m, k in t.items():
                            if j in m:
                                l = list(m)
                                l.remove(j)
                                d[tuple(l)] = d.get(tuple(l), 0) + m.count(j) * k
                        v.eq(nm, p.deriv(j).evaluate(x), value(d, x))
                elif op == "pow":
                    for n in ((0, 1, 2, 3) if len(ms) < 2 or max(map(len, ms)) < 3 else (0, 2)):
                        y = 1
                        for _ in range(n):
                            y = y * value(t, x)
                        v.eq("power %d%s" % (n, lab), (p ** n).evaluate(x), y)
                elif op == "map":
                    for mp in ([1, 2, 0, 3], [3, 2, 1, 0], [0, 0, 0, 0], [2, 2, 1, 1]):
                        y = value({}, x)
                        for m, k in t.items():
                            u = k
                            for i in m:
                                u = u * x[mp[i]]
                            y = y + u
                        f = lambda m: tuple(sorted(mp[i] for i in m))
                        g = lambda m: tuple(mp[i] for i in m)
                        a = np.array(mp, dtype=np.int64)
                        one = pm.Polynomial({(): 1.0, (0, 1): 1.0}, 4)
                        for lb, q in (("map_indices", p.map_indices(f)), ("map_indices, unsorted", p.map_indices(g)),
                                      ("mapvec_indices", p.mapvec_indices(a))):
                            v.eq(lb + lab, q.evaluate(x), y)
                            v.eq(lb + " + 1 + x0 x1" + lab, (q + one).evaluate(x), y + 1 + x[0] * x[1], tol=1e-6)
                        q = p.copy()
                        q.map_indices_inplace(g)
                        v.eq("map_indices_inplace" + lab, q.evaluate(x), y)
                        v.eq("source of a map" + lab, p.evaluate(x), value(t, x))
                else:
                    for cplx in (True, False):
                        vt, ct = p.compact(cplx)
                        exp = sum((1 + len(m) for m in ms), 1)
                        v.check("tape size" + lab, len(vt) == exp and len(ct) == len(ms))
                        v.eq("compact form" + lab, slowopcalc.bulk_eval_compact_polys(vt, ct, x, (1,))[0], value(t, x))
                        r = pm.bulk_load_compact_polys(vt, ct, max_num_vars=4)
                        v.check("one polynomial in the tape" + lab, len(r) == 1)
                        v.eq("loaded" + lab, r[0].evaluate(x), value(t, x))
                        r = pm.bulk_load_compact_polys(vt, ct, keep_compact=True)
                        v.check("one compact polynomial" + lab, len(r) == 1 and list(r[0][0]) == list(vt))


@unit(P, "sum and product", cases=[(), ((),), ((0,), (1, 1)), ((0, 1),), ((), (0, 2)), ((0, 0), (0, 1)), ((1,), (2,)), ((0, 1, 1), (1, 2))],
      conc=3, conc_s=30, budget=60,
      funcs=[PO + "FASTPolynomial." + f for f in ("__add__", "__iadd__", "__mul__", "mult", "product")]
      + [SR + f for f in ("mult", "add_inplace", "degree")])
def binary(v, m1):
    x = v.reals("x", 4)
    c, d = [v.real("c0"), v.real("c1")], [v.real("d0"), v.real("d1")]
    for lab, rep in both(v):
        with rep:
            for m2 in term_sets(monos=[m for m in MONOS if len(m) < 3] + [(0, 0, 0), (0, 1, 1), (0, 1, 2), (1, 2, 2)]):
                a, b = dict(zip(m1, c)), dict(zip(m2, d))
                p, q = pm.Polynomial(a, 4), pm.Polynomial(b, 4)
                va, vb = value(a, x), value(b, x)
                v.eq("sum" + lab, (p + q).evaluate(x), va + vb)
                v.eq("product" + lab, (p * q).evaluate(x), va * vb)
                v.eq("first operand unchanged" + lab, p.evaluate(x), va)
                v.eq("second operand unchanged" + lab, q.evaluate(x), vb)
                r = p.copy()
                r += q
                v.eq("in-place sum" + lab, r.evaluate(x), va + vb)
                v.eq("second operand of += unchanged" + lab, q.evaluate(x), vb)
                v.eq("product of a list" + lab, pm.Polynomial.product([p, q, p]).evaluate(x), va * vb * va)


@unit(P, "keys in any order", conc=5, budget=20, funcs=[PO + "FASTPolynomial.__init__"])
def key_order(v):
    x, a, b = v.reals("x", 3), v.real("a"), v.real("b")
    for lab, rep in both(v):
        with rep:
            p = pm.Polynomial({(1, 0): a}, 3)
            v.eq("value" + lab, p.evaluate(x), a * x[0] * x[1])
            q = p + pm.Polynomial({(0, 1): b}, 3)
            v.eq("sum" + lab, q.evaluate(x), (a + b) * x[0] * x[1])
            v.eq("both orders" + lab, pm.Polynomial({(1, 0): a, (0, 1): b}, 3).evaluate(x), (a + b) * x[0] * x[1])
            v.eq("zero polynomial" + lab, pm.Polynomial().evaluate(x), 0)


# ------------------------------------------------------------------ compact evaluation and differentiation

def tape(v, polys):
    vt, ct = [], []
    for t in polys:
        vt.append(len(t))
        for m, c in t:
            vt += [len(m)] + list(m)
            ct.append(c)
    return np.array(vt, dtype=np.int64), (v.arr(np.array(ct + [0], dtype=object))[:-1] if v.symbolic else np.array(ct, dtype=complex))


def decode(vt, ct):
    out, i, c = [], 0, 0
    while i < len(vt):
        n = int(vt[i])
        i += 1
        t = []
        for _ in range(n):
            k = int(vt[i])
            t.append((tuple(int(e) for e in vt[i + 1:i + 1 + k]), ct[c]))
            c += 1
            i += 1 + k
        out.append(t)
    return out, c


def tval(t, x):
    r = 0
    for m, c in t:
        for i in m:
            c = c * x[i]
        r = r + c
    return r


def impls(v):
    ns = extracted(v)
    yield "python", slowopcalc.bulk_eval_compact_polys, slowopcalc.bulk_eval_compact_polys, slowopcalc.compact_deriv
    yield "cython text", ns["bulk_eval_compact_polys"], ns["bulk_eval_compact_polys_complex"], ns["compact_deriv"]
    if not v.symbolic:
        yield "compiled", opcalc.bulk_eval_compact_polys, opcalc.bulk_eval_compact_polys_complex, opcalc.compact_deriv


@unit(P, "compact evaluation", conc=2, budget=60, conc_s=30,
      funcs=[SO + "bulk_eval_compact_polys"] + [FO + n for n in NAMES[:3]] + ["pygsti.objects.opcalc.safe_bulk_eval_compact_polys"])
def compact_eval(v):
    x, c = v.reals("x", 3), [v.real("c%d" % i) for i in range(4)]
    sets = [[list(zip(ms, c))] for ms in term_sets()]
    sets += [[list(zip(a, c)), list(zip(b, c[2:]))] for a in term_sets(monos=SMALL) for b in term_sets(monos=SMALL)[::3]]
    sets += [[list(zip(a, c)), [], list(zip(b, c[2:])), []] for a in term_sets(monos=SMALL)[::2] for b in term_sets(monos=SMALL)[::5]]
    for lab, real, cplx, _ in impls(v):
        for polys in sets:
            vt, ct = tape(v, polys)
            exp = [tval(t, x) for t in polys]
            got = cplx(vt, ct, x, (len(polys),))
            v.eq("complex, " + lab, got, exp)
            ct2 = ct if v.symbolic else ct.real.copy()
            v.eq("real, " + lab, real(vt, ct2, x, (len(polys),)), exp)
            if len(polys) == 2:
                v.eq("reshaped, " + lab, cplx(vt, ct, x, (2, 1)), [[e] for e in exp])
            if not v.symbolic:
                v.eq("safe wrapper", opcalc.safe_bulk_eval_compact_polys(vt, ct, x, (len(polys),)), exp)
                ci = ct * (1 + 2j)
                v.eq("absolute sum", opcalc.abs_sum_bulk_eval_compact_polys_complex(vt, ci, x, len(polys)),
                     sum(abs((1 + 2j) * e) for e in exp))


@unit(P, "compact derivative", cases=[[], [0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2], [0, 5]], conc=2, budget=60, conc_s=30,
      funcs=[SO + "compact_deriv", FO + "compact_deriv"])
def compact_der(v, wrt):
    x, c = v.reals("x", 3), [v.real("c%d" % i) for i in range(4)]
    sets = [[list(zip(ms, c))] for ms in term_sets()]
    sets += [[list(zip(a, c)), list(zip(b, c[2:]))] for a in term_sets(monos=SMALL) for b in term_sets(monos=SMALL)[::3]]
    sets += [[list(zip(a, c)), [], list(zip(b, c[2:]))] for a in term_sets(monos=SMALL)[::2] for b in term_sets(monos=SMALL)[::5]]
    for lab, _, _, deriv in impls(v):
        for polys in sets:
            vt, ct = tape(v, polys)
            w = wrt if lab == "python" else np.array(wrt, dtype=np.int64)
            rv, rc = deriv(vt, ct, w)
            out, used = decode(rv, rc)
            v.check("derivatives of each polynomial, " + lab, len(out) == len(polys) * len(wrt))
            v.check("coefficients used, " + lab, used == len(rc))
            for i, t in enumerate(polys):
                for j, k in enumerate(wrt):
                    exp = 0
                    for m, cf in t:
                        if k in m:
                            l = list(m)
                            l.remove(k)
                            exp = exp + tval([(l, cf * m.count(k))], x)
                    v.eq("derivative, " + lab, tval(out[i * len(wrt) + j], x), exp)


# ------------------------------------------------------------------ compiled representation, drawn polynomials (bounded)

def draw(v, M, deg, nterms):
    return {tuple(sorted(v.rng.randrange(M) for _ in range(v.rng.randint(0, deg)))):
            complex(v.rng.uniform(-1, 1), v.rng.choice([0, v.rng.uniform(-1, 1)])) for _ in range(v.rng.randint(0, nterms))}


@unit(P, "compiled representation", cases=[1, 2, 3, 15, 100, 255, 1000, 65535], sym=False, conc=40, budget=40, conc_s=12,
      funcs=["pygsti.objects.replib.fastreplib.PolyRep", "PolyCRep (fastreps.cpp)"])
def compiled(v, M):
    import pickle
    deg = v.rng.choice([2, 5, 12, 30])
    used = min(M, 6)
    ren = sorted(v.rng.sample(range(M), used)) if M < 2000 else sorted({0, 1, M - 1, M - 2, M // 2, 77})
    big = lambda t: {tuple(ren[i] for i in m): c for m, c in t.items()}
    a, b = big(draw(v, used, deg, 5)), big(draw(v, used, 4, 4))
    x = np.zeros(M)
    for i in ren:
        x[i] = v.rng.uniform(-1.2, 1.2)
    p, q = pm.Polynomial(a, M), pm.Polynomial(b, M)
    va, vb = value(a, x), value(b, x)
    v.eq("value", p.evaluate(x), va)
    v.check("terms", p.coeffs == a)
    v.eq("sum", (p + q).evaluate(x), va + vb)
    v.eq("product", (p * q).evaluate(x), va * vb)
    v.eq("square of a product", ((p * q) ** 2).evaluate(x), (va * vb) ** 2)
    v.eq("unpickled", pickle.loads(pickle.dumps(p * q)).evaluate(x) if True else 0, va * vb)
    vt, ct = (p * q).compact()
    v.eq("compact", opcalc.bulk_eval_compact_polys_complex(vt, ct, x, (1,))[0], va * vb)
    vr, cr = p.compact(False)
    v.eq("compact, real part", opcalc.bulk_eval_compact_polys(vr, cr, x, (1,))[0], np.real(va))
    # term order of the compact form and index order inside a term
    terms = decode(vt, ct)[0][0]
    v.check("indices sorted in the compact form", all(list(m) == sorted(m) for m, _ in terms))
    v.check("no repeated monomial", len({m for m, _ in terms}) == len(terms))
    mp = np.array(range(M), dtype=np.int64)
    for i in ren:
        mp[i] = v.rng.choice(ren)
    y = value(a, [x[mp[i]] for i in range(M)])
    r = p.mapvec_indices(mp)
    v.eq("mapvec", r.evaluate(x), y)
    v.eq("mapvec, then a sum", (r + q).evaluate(x), y + vb)
    v.eq("mapvec, then a product", (r * q).evaluate(x), y * vb)
    v.eq("map_indices", p.map_indices(lambda m: tuple(mp[i] for i in m)).evaluate(x), y)
    r = p.copy()
    r.map_indices_inplace(lambda m: tuple(mp[i] for i in m))
    v.eq("map_indices_inplace", r.evaluate(x), y)
    for j in ren:
        d = p.deriv(j)
        w = x.copy().astype(complex)
        exp = 0
        for m, c in a.items():
            if j in m:
                l = list(m)
                l.remove(j)
                exp += c * m.count(j) * np.prod([x[i] for i in l])
        v.eq("derivative", d.evaluate(x), exp)
    dv, dc = opcalc.compact_deriv(*(p.compact() + (np.array(ren, dtype=np.int64),)))
    got = opcalc.bulk_eval_compact_polys_complex(dv, dc, x, (len(ren),))
    v.eq("compact derivative", got, [p.deriv(j).evaluate(x) for j in ren])
    hv, hc = opcalc.compact_deriv(dv, dc, np.array(ren, dtype=np.int64))
    got = opcalc.bulk_eval_compact_polys_complex(hv, hc, x, (len(ren), len(ren)))
    v.eq("second compact derivative", got, [[p.deriv(j).deriv(k).evaluate(x) for k in ren] for j in ren])
    v.eq("difference with itself", (p + p * (-1.0)).evaluate(x), 0)


# ---------------------------------------------------------------- powers, every exponent

class Power(pm.FASTPolynomial):
    """a polynomial known to be X**e for one fixed, arbitrary polynomial X.  Multiplication is used through its contract
    (the value of a product is the product of the values: the units above)"""
    max_num_vars = 100

    def __init__(self, e):
        self.e = e

    @staticmethod
    def expo(p):
        if isinstance(p, Power):
            return p.e
        if isinstance(p, pm.FASTPolynomial) and p.coeffs == {(): 1.0}:
            return 0
        raise Unsupported("neither a power of the argument nor the constant one")

    def __mul__(self, x):
        return Power(self.e + Power.expo(x))
    __rmul__ = mult = __mul__

    def copy(self):
        return Power(self.e)
    __copy__ = copy


class PowerInv(LoopSpec):
    """ret * cur**n is X**N"""

    def entry(self, v, env):
        self.N = v.ghost

    def inv(self, v, env):
        return [("the product of the accumulator and the remaining power", Power.expo(env["ret"])
                 + Power.expo(env["cur"]) * env["n"] == self.N), ("n is not negative", env["n"] >= 0)]

    def havoc(self, v, env):
        q, r = v.int("q", 0), v.int("r", 0, 1)
        return {"ret": Power(v.int("e_ret", 0)), "cur": Power(v.int("e_cur", 0)), "n": 2 * q + r,
                **({"rem": v.int("rem")} if "rem" in env else {})}

    def variant(self, v, env):
        return env["n"]


@unit(P, "power, every exponent", funcs=[PO + "FASTPolynomial.__pow__"], shadow=False, exact=True, conc=41, timeout_ms=8000,
      instrument=[("pygsti.objects.polynomial", "FASTPolynomial.__pow__", {0: PowerInv()})])
def _(v):
    if v.symbolic:
        N = v.int("N", 0)
        v.ghost = N
        v.eq("exponent of the result", Power.expo(Power(1) ** N), N)
    else:
        N = v.int("N", 0, upto=40)
        x, a, b = 0.75, v.rng.choice([1, -1, 2]), v.rng.choice([0, 1, 0.5])
        for cls in (pm.FASTPolynomial,) + ((pm.Polynomial,) if pm.Polynomial is not pm.FASTPolynomial and N else ()):
            y = (cls({(0,): a, (): b}, 5) ** N).evaluate([x])
            z = (a * x + b) ** N
            v.check("value of the power", abs(y - z) <= 1e-9 * max(1, (abs(a * x) + abs(b)) ** N))

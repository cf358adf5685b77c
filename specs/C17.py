"""C17: constructors of experiment lists produce exactly the circuits they define."""

LEVEL = "exploration"
LEVEL_NOTE = ("The repetition rules (how often a germ is repeated, where it is truncated) are proved for sequences of every length and every maximum. "
              "Everything that builds lists is bounded: all combinations of the listed fiducials, germs (some powers of one another), length "
              "schedules, truncation modes, pair selections, keep-fractions and limits are run and compared with the defined set of circuits. "
              "The check as a whole is therefore not counted as proved.")
ASSUMPTIONS = ["a sequence times k has k times its length, and its slice [0:n] has length n when it is at least that long (Circuit, tuple)",
               "the order of the circuits in a list is compared only where the documentation states it"]
import collections
import itertools
import random
import warnings
import numpy as np
import pygsti
import pygsti.construction.circuitconstruction as cc
import pygsti.construction.stdlists as sl
import pygsti.tools.listtools as lt
from pygsti.objects.circuit import Circuit
from pygsti.objects.circuitstructure import LsGermsStructure, LsGermsSerialStructure, CircuitPlaquette
from pygsti.objects.label import Label as L
from pyvc.core import SInt
from pyvc.facade import unit, And, Or, Not, Implies

P = "C17"
CC = "pygsti.construction.circuitconstruction."
SL = "pygsti.construction.stdlists."
CS = "pygsti.objects.circuitstructure."
LT = "pygsti.tools.listtools."


# ------------------------------------------------------------------ repetition rules, for every length

class Seq:
    """a sequence of n copies' worth of layers of x (length l), of which the first `upto` are kept"""

    def __init__(self, l, reps=1, upto=None):
        self.l, self.reps, self.upto = l, reps, l * reps if upto is None else upto

    def __len__(self):
        return int(self.upto)

    def __mul__(self, k):
        assert self.reps == 1
        return Seq(self.l, k)

    def __getitem__(self, s):
        assert isinstance(s, slice) and s.start == 0 and s.step is None
        r = Seq(self.l, self.reps, s.stop)
        r.had = self.upto
        return r


def slen(x):
    return x.upto if isinstance(x, Seq) else len(x)


@unit(P, "repetition rules", conc=40, exact=True, timeout_ms=20000, extra={(cc, "len"): slen},
      funcs=[CC + n for n in ("repeat_count_with_max_length", "repeat_with_max_length", "repeat_and_truncate", "repeat_remainder_for_truncation", "repeat")])
def repetition(v):
    l = v.int("l", 1, upto=6)
    n = v.int("N", 0, upto=20)
    x = Seq(l)
    k = cc.repeat_count_with_max_length(x, n)
    v.check("a germ power is no longer than its maximum", And(k >= 0, k * l <= n))
    v.check("no further repetition fits", (k + 1) * l > n)
    p = cc.repeat_with_max_length(x, n)
    v.check("the power has that many repetitions", And(p.upto == k * l, p.reps == k))
    t = cc.repeat_and_truncate(x, n)
    v.check("truncated powers have the length asked for", t.upto == n)
    v.check("there is enough to truncate", t.had >= n)
    r = cc.repeat_remainder_for_truncation(x, n)
    v.check("a power and its remainder make the truncated power", And(r.upto + k * l == n, r.upto < l, r.upto >= 0, r.reps == 1))
    m = v.int("m", 0, upto=9)
    q = cc.repeat(x, m)
    v.check("repeat", And(q.reps == m, q.upto == m * l))
    atleast = True
    try:
        p1 = cc.repeat_with_max_length(x, n, True)
    except AssertionError:
        atleast = False
    v.check("a repetition may be demanded", Implies(l <= n, atleast))
    v.check("the demand is refused when none fits", Implies(l > n, not atleast))


# ------------------------------------------------------------------ menus

def C(*ls):
    return Circuit(tuple(ls))


E = Circuit(())
X, Y, XX, XY, XXX, YXX = C("Gx"), C("Gy"), C("Gx", "Gx"), C("Gx", "Gy"), C("Gx", "Gx", "Gx"), C("Gy", "Gx", "Gx")
FIDS = [[E, X], [X, Y], [E, X, XX], [E], [XX, Y, E]]
GERMS = [[X], [X, XX], [X, Y, XY], [XY, YXX, X], [XXX, X, XX]]
LENS = [[1], [1, 2], [0, 1, 2], [1, 2, 4], [3], [4, 1], [2, 2], [0], [1, 0, 3], [2, 5]]
SCHEMES = ["whole germ powers", "truncated germ powers", "length as exponent"]


def tp(c):
    return tuple(c)


def power(g, n, scheme):
    g = tuple(g)
    if scheme == "whole germ powers":
        return g * (n // len(g))
    if scheme == "truncated germ powers":
        return (g * (n + 1))[:n]
    return g * n


def once(v, label, got, exp, what=""):
    got = [tuple(x) for x in got]
    c = collections.Counter(got)
    twice = [k for k, m in c.items() if m > 1]
    v.check(label + ": each once", not twice, "%s: %s" % (what, twice[:3]))
    exp = set(map(tuple, exp))
    v.check(label + ": none missing", exp <= set(c), "%s: %s" % (what, sorted(map(str, exp - set(c)))[:3]))
    v.check(label + ": nothing else", set(c) <= exp, "%s: %s" % (what, sorted(map(str, set(c) - exp))[:3]))


def same(v, label, got, exp, what=""):
    v.check(label, got == exp, "%s: got %s, expected %s" % (what, str(got)[:200], str(exp)[:200]))


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


@unit(P, "germ powers of circuits", sym=False, conc=1, conc_s=60,
      funcs=[CC + n for n in ("repeat_with_max_length", "repeat_and_truncate", "repeat_remainder_for_truncation", "repeat")])
def powers(v):
    lines = Circuit([("Gx", 0), ("Gcnot", 0, 1)], line_labels=(0, 1, 2))
    for g in (X, Y, XX, XY, YXX, lines, ("Gx", "Gy"), ()):
        for n in range(0, 11):
            w = (str(g), n)
            if len(g):
                for fn, s in ((cc.repeat_with_max_length, SCHEMES[0]), (cc.repeat_and_truncate, SCHEMES[1]), (cc.repeat, SCHEMES[2])):
                    got = fn(g, n)
                    same(v, "power: " + s, tuple(got), power(g, n, s), w)
                    v.check("powers are of the type and lines of the germ", type(got) is type(g) and getattr(got, "line_labels", 0) == getattr(g, "line_labels", 0), str(w))
                same(v, "remainder", tuple(cc.repeat_with_max_length(g, n)) + tuple(cc.repeat_remainder_for_truncation(g, n)), power(g, n, SCHEMES[1]), w)
            else:
                same(v, "powers of the empty sequence are empty", [tuple(f(g, n)) for f in (cc.repeat_with_max_length, cc.repeat_and_truncate, cc.repeat)], [()] * 3, w)


@unit(P, "expressions", sym=False, conc=1, conc_s=60, funcs=[CC + n for n in ("create_circuit_list", "_runExpression", "circuit_list")])
def expressions(v):
    vals = {"f": [("F1",), ("F2",)], "f1": [("A",), ("B",), ("A",)], "germ": [X, Y], "g": ("P", "Q"), "N": 3, "n": [1, 2], "fs": [(X, Y), (E, XX)], "ns": [], "e_1": [("Z",)]}
    tmpl = {"f": lambda f: f, "f+f1": lambda f, f1: f + f1, "f1+f": lambda f1, f: f1 + f, "germ": lambda germ: tp(germ), "germ*N": lambda germ, N: tp(germ) * N,
            "germ*n": lambda germ, n: tp(germ) * n, "f+('germ',)": None, "(g,)*n": lambda g, n: (g,) * n, "fs[0]+germ+fs[1]": lambda fs, germ: tp(fs[0]) + tp(germ) + tp(fs[1]),
            "f*int(N)+e_1": lambda f, N, e_1: f * N + e_1, "R(germ,N)": lambda germ, N: power(germ, N, SCHEMES[0]), "f*len_(ns)": None, "": lambda: (), "f+f": lambda f: f + f,
            "'Gx'*n": lambda n: ("Gx",) * n, "[g]": lambda g: (g,)}
    for ex, fn in tmpl.items():
        if fn is None:
            continue
        import inspect
        names = list(inspect.signature(fn).parameters)
        for order in (None, ["g", "germ"], ["n", "germ", "f"], ["f1", "f"], ["N" if 0 else "fs", "n"]):
            k = dict(vals, R=cc.repeat_with_max_length, **({} if order is None else {"order": order}))
            k = {a: b for a, b in k.items() if a != "ns"}
            loop = (order or []) + [x for x in k if isinstance(k[x], (list, tuple)) and x != "order" and x not in (order or [])]
            loop = [x for x in loop if x in names]
            exp = []
            for t in itertools.product(*[k[x] for x in loop]):
                d = dict(zip(loop, t))
                d.update({x: k[x] for x in names if x not in loop})
                exp.append(tuple(L(y) for y in fn(**d)))
            got = cc.create_circuit_list(ex, **k)
            same(v, "an expression is evaluated once per combination of its variables, in order", [tp(c) for c in got], exp, (ex, order))
            v.check("the results are circuits", all(isinstance(c, Circuit) for c in got))
    got = cc.create_circuit_list("f", "f1+f", "", f=vals["f"], f1=vals["f1"])
    same(v, "expressions follow one another", [tp(c) for c in got], [("F1",), ("F2",)] + [a + b for b in vals["f"] for a in vals["f1"]] + [()])
    v.check("a variable without values gives no circuits", cc.create_circuit_list("f+e", f=[("A",)], e=[]) == [])
    got = cc.create_circuit_list("R(g,n,True)", g=[X, XX, XXX], n=[1, 2], R=cc.repeat_with_max_length, order=["g", "n"])
    same(v, "combinations that fail an assertion are left out", [tp(c) for c in got], [("Gx",), ("Gx",) * 2, ("Gx",) * 2])
    for bad in ("n", "None", "R"):
        try:
            r = cc.create_circuit_list("g", bad, g=[X], n=3, R=len)
            v.check("something else than a circuit is not replaced by another circuit", False, "%s gave %s" % (bad, r))
        except Exception:
            v.check("something else than a circuit is not replaced by another circuit", True)
    got = cc.circuit_list([X, ("Gx", "Gy"), ["Gy"], "GxGx", "{}"])
    same(v, "circuit_list", [tp(c) for c in got], [("Gx",), ("Gx", "Gy"), ("Gy",), ("Gx", "Gx"), ()])


def primitive(w):
    n = len(w)
    return all(w[:d] * (n // d) != w for d in range(1, n) if n % d == 0)


@unit(P, "all circuits", sym=False, conc=1, conc_s=90, funcs=[CC + n for n in (
    "list_all_circuits", "gen_all_circuits", "list_all_circuits_onelen", "gen_all_circuits_onelen", "list_all_circuits_without_powers_and_cycles", "list_random_circuits_onelen", "list_partial_strings")])
def allcircuits(v):
    for ops in (["Gx"], ["Gx", "Gy"], ["Gx", "Gy", "Gi"], [L("Gx", 0), L("Gcnot", (0, 1))]):
        for lo in range(0, 4):
            for hi in range(0, 5):
                exp = [tuple(L(x) for x in t) for n in range(lo, hi + 1) for t in itertools.product(ops, repeat=n)]
                for f in (cc.list_all_circuits, cc.gen_all_circuits):
                    once(v, f.__name__, f(ops, lo, hi), exp, (ops, lo, hi))
            for f in (cc.list_all_circuits_onelen, cc.gen_all_circuits_onelen):
                once(v, f.__name__, f(ops, lo), [tuple(L(x) for x in t) for t in itertools.product(ops, repeat=lo)], (ops, lo))
        top = {1: 5, 2: 7, 3: 5}[len(ops)]
        got = [tp(c) for c in cc.list_all_circuits_without_powers_and_cycles(ops, top)]
        classes = collections.Counter(min(w[i:] + w[:i] for i in range(len(w))) for w in got)
        exp = {min(w[i:] + w[:i] for i in range(len(w))) for n in range(1, top + 1) for w in itertools.product([L(x) for x in ops], repeat=n) if primitive(w)}
        v.check("one representative per cycle class", all(m == 1 for m in classes.values()), str(ops))
        v.check("exactly the aperiodic classes", set(classes) == exp, "%s: %d of %d" % (ops, len(classes), len(exp)))
        for n, count, seed in itertools.product((0, 1, 5), (0, 1, 6), (0, 7)):
            a, b = cc.list_random_circuits_onelen(ops, n, count, seed), cc.list_random_circuits_onelen(ops, n, count, seed)
            v.check("random circuits: number, length, labels, seed", len(a) == count and all(len(c) == n and set(c) <= set(map(L, ops)) for c in a) and a == b, str((ops, n, count)))
    for c in (E, X, YXX, XY + YXX):
        same(v, "partial strings are the prefixes", [tuple(x) for x in cc.list_partial_strings(c)], [tuple(c)[:k] for k in range(len(c) + 1)])


@unit(P, "LGST lists", sym=False, conc=1, conc_s=60, funcs=[CC + "list_lgst_circuits", CC + "list_strings_lgst_can_estimate"])
def lgst(v):
    ops = [["Gx"], ["Gx", "Gy"], ["Gx", "Gx"], []]
    for ps, es, os_ in itertools.product(FIDS, FIDS, ops):
        got = cc.list_lgst_circuits(ps, es, os_)
        exp = [tp(e) for e in es] + [tp(p) for p in ps] + [tp(p) + tp(e) for p in ps for e in es] + [tp(p) + (L(g),) + tp(e) for p in ps for e in es for g in os_]
        once(v, "LGST circuits", got, exp, (list(map(str, ps)), list(map(str, es)), os_))
    lines = Circuit([("Gx", 0)], line_labels=(0, 1))
    got = cc.list_lgst_circuits([lines], [lines], [L("Gy", 1)])
    v.check("LGST circuits keep the lines of the fiducials", all(c.line_labels == (0, 1) for c in got), str(got))
    once(v, "LGST circuits", got, [(("Gx", 0),), (("Gx", 0),) * 2, (("Gx", 0), ("Gy", 1), ("Gx", 0))])
    rng = random.Random(3)
    for ps, es in itertools.product(FIDS, FIDS):
        roots = [(), ("Gx",), ("Gy", "Gx"), ("Gz",), ("Gx", "Gx")]
        for trial in range(4):
            full = [tp(p) + tuple(map(L, r)) + tp(e) for r in roots for p in ps for e in es]
            keys = set(full) if trial == 0 else {s for s in full if rng.random() < 0.85}
            ds = collections.OrderedDict((Circuit(k), 1) for k in sorted(keys, key=str))
            cand = {k[i:j] for k in keys for i in range(len(k) + 1) for j in range(i, len(k) + 1)}
            exp = [r for r in cand if all(tp(p) + r + tp(e) in keys for p in ps for e in es)]
            got = cc.list_strings_lgst_can_estimate(ds, ps, es)
            once(v, "strings LGST can estimate", got, exp, (list(map(str, ps)), list(map(str, es)), trial))


def pairlists(ps, es, germs):
    allp = list(itertools.product(range(len(ps)), range(len(es))))
    yield None, {tp(g): allp for g in germs}
    some = allp[::2]
    yield some, {tp(g): some for g in germs}
    d = {g: allp[k % len(allp):k % len(allp) + 2] for k, g in enumerate(germs)}
    yield d, {tp(g): d[g] for g in germs}
    if len(germs) > 1:
        d = {germs[0]: allp[-1:]}
        yield d, {tp(g): d.get(g, allp) for g in germs}


def menus(thorough):
    k = 0
    for ps, es, germs, lens in itertools.product(FIDS[:4], (FIDS[0], FIDS[4], FIDS[1]), GERMS, LENS):
        k += 1
        if thorough or k % 5 == 0:
            yield ps, es, germs, lens


def limited(germs):
    yield None
    yield {germs[0]: 1}
    if len(germs) > 1:
        yield {germs[1]: 2, germs[0]: 3}


@unit(P, "long-sequence lists", sym=False, conc=1, conc_s=300, weight=3, cases=list(SCHEMES), funcs=[SL + n for n in (
    "make_lsgst_lists", "make_lsgst_structs", "make_lsgst_experiment_list", "_getTruncFunction")] + [CS + "LsGermsStructure." + n for n in ("add_plaquette", "add_unindexed", "get_plaquette", "create_plaquette", "copy")])
def lsgst(v, scheme):
    ops = ["Gx", "Gz"]
    for ps, es, germs, lens in menus(v.tier == "thorough"):
        lg = {tp(e) for e in es} | {tp(p) for p in ps} | {tp(p) + m + tp(e) for p in ps for e in es for m in [()] + [(L(g),) for g in ops]}
        for (fp, pairs), lims, nest, inc in itertools.product(pairlists(ps, es, germs), limited(germs), (True, False), (True, False)):
            w = (scheme, list(map(str, ps)), list(map(str, es)), list(map(str, germs)), lens, fp, lims, nest, inc)

            def level(n):
                if n == 0:
                    return set(lg)
                return {tp(ps[i]) + power(g, n, scheme) + tp(es[j]) for g in germs if n <= (lims or {}).get(g, 1e9) for i, j in pairs[tp(g)]}
            kw = dict(fidPairs=fp, truncScheme=scheme, nest=nest, includeLGST=inc, germLengthLimits=lims)
            lists = quiet(sl.make_lsgst_lists, ops, ps, es, germs, lens, **kw)
            structs = quiet(sl.make_lsgst_structs, ops, ps, es, germs, lens, **kw)
            v.check("a list and a structure per length", len(lists) == len(lens) == len(structs))
            run = set(lg) if inc else set()
            for i, n in enumerate(lens):
                run = (run | level(n)) if nest else level(n)
                once(v, "lists", lists[i], run, (w, i))
                once(v, "structures", structs[i].allstrs, run, (w, i))
                for g in germs:
                    for k, m in enumerate(lens[:i + 1] if nest else [n]):
                        if m == 0 or m > (lims or {}).get(g, 1e9):
                            continue
                        p = structs[i].get_plaquette(m, g, onlyfirst=False)
                        same(v, "a plaquette holds its germ power and pairs", (tp(p.base), [(r, c, tp(s)) for r, c, s in p]),
                             (power(g, m, scheme), [(b, a, tp(ps[a]) + power(g, m, scheme) + tp(es[b])) for a, b in pairs[tp(g)]]), (w, i, g, m))
            if nest:
                for a, b in zip(lists, lists[1:]):
                    v.check("smaller lengths' lists are contained", set(a) <= set(b), str(w))
                if lens:
                    e = quiet(sl.make_lsgst_experiment_list, ops, ps, es, germs, lens, fp, scheme, 1, None, inc)
                    if lims is None:
                        once(v, "experiment list", e, run, w)
    v.raises("unknown schemes are refused", ValueError, lambda: sl.make_lsgst_lists(ops, FIDS[0], FIDS[0], GERMS[0], [1], truncScheme="no such scheme"))


@unit(P, "random pair selection", sym=False, conc=1, conc_s=200, weight=2, funcs=[SL + "make_lsgst_lists", SL + "make_lsgst_structs"])
def kept(v):
    ops = ["Gx", "Gz"]
    k = 0
    for ps, es, germs, lens, scheme in itertools.product((FIDS[1], FIDS[2]), (FIDS[0], FIDS[4]), GERMS, ([1, 2, 4], [2, 5], [0, 3]), SCHEMES[:2]):
        k += 1
        if k % 3 and v.tier != "thorough":
            continue
        total = len(ps) * len(es)
        for frac, (fp, pairs), inc, nest in itertools.product((0.0, 0.3, 0.5, 0.8), pairlists(ps, es, germs), (True, False), (True, False)):
            kw = dict(fidPairs=fp, truncScheme=scheme, nest=nest, includeLGST=inc, keepFraction=frac, keepSeed=11)
            w = (list(map(str, germs)), lens, scheme, frac, fp, inc, nest)
            lists = quiet(sl.make_lsgst_lists, ops, ps, es, germs, lens, **kw)
            structs = quiet(sl.make_lsgst_structs, ops, ps, es, germs, lens, **kw)
            want = int(round(frac * total))
            lg = {tp(e) for e in es} | {tp(p) for p in ps} | {tp(p) + m + tp(e) for p in ps for e in es for m in [()] + [(L(g),) for g in ops]}
            run, chosen = set(lg) if inc else set(), set()
            for i, n in enumerate(lens):
                lev = set(lg) if n == 0 else set()
                for g in germs if n else []:
                    p = structs[i].get_plaquette(n, g, onlyfirst=False)
                    got = [(c, r) for r, c, s in p]
                    v.check("pairs are selected once", len(set(got)) == len(got) and set(got) <= set(itertools.product(range(len(ps)), range(len(es)))), str(w))
                    if fp is None:
                        v.check("as many pairs as the fraction says", len(got) == want, "%s: %d, not %d" % (w, len(got), want))
                    else:
                        v.check("given pairs are always selected", set(pairs[tp(g)]) <= set(got), str(w))
                        v.check("as many pairs as the fraction says, given ones included", len(got) == max(want, len(pairs[tp(g)])), "%s: %d" % (w, len(got)))
                    same(v, "selected circuits", [tp(s) for r, c, s in p], [tp(ps[a]) + power(g, n, scheme) + tp(es[b]) for a, b in got], w)
                    chosen.add(tuple(sorted(got)))
                    lev |= {tp(s) for r, c, s in p}
                run = (run | lev) if nest else lev
                once(v, "lists of selected pairs", lists[i], run, (w, i))
                once(v, "structures of selected pairs", structs[i].allstrs, run, (w, i))
    full = sl.make_lsgst_structs(ops, FIDS[2], FIDS[4], GERMS[2], [1, 2, 4, 8], keepFraction=0.5, keepSeed=5)[-1]
    v.check("germ powers select different pairs", len({tuple(sorted((i, j) for i, j, s in full.get_plaquette(n, g, False))) for g in GERMS[2] for n in (1, 2, 4, 8)}) > 1)


@unit(P, "extended LGST lists", sym=False, conc=1, conc_s=60, cases=list(SCHEMES), funcs=[SL + n for n in ("make_elgst_lists", "make_elgst_experiment_list", "_getTruncFunction")])
def elgst(v, scheme):
    for ops, germs, lens, nest, inc in itertools.product((["Gx", "Gz"], []), GERMS, LENS, (True, False), (True, False)):
        single = {(L(g),) for g in ops}
        got = sl.make_elgst_lists(ops, germs, lens, scheme, nest, inc)
        run = set(single) if inc else set()
        v.check("a list per length", len(got) == len(lens))
        for i, n in enumerate(lens):
            lev = set(single) if n == 0 else {power(g, n, scheme) for g in germs}
            run = (run | lev) if nest else lev
            once(v, "eLGST lists", got[i], run, (ops, list(map(str, germs)), lens, nest, inc, i))
        if nest:
            once(v, "eLGST experiment list", sl.make_elgst_experiment_list(ops, germs, lens, scheme, inc), run)


@unit(P, "data checks", sym=False, conc=1, conc_s=60, funcs=[SL + "make_lsgst_structs", CS + "LsGermsStructure.add_plaquette", CS + "LsGermsStructure.add_unindexed"])
def missing(v):
    rng = random.Random(5)
    ops = ["Gx", "Ga"]
    for al, trial in itertools.product((None, {L("Ga"): (L("Gx"), L("Gy"))}), range(12)):
        ps, es, germs = FIDS[2], FIDS[4], [X, C("Ga"), XY]
        ref = sl.make_lsgst_structs(ops, ps, es, germs, [1, 2, 4])
        tr = (lambda t: t) if al is None else (lambda t: tuple(y for x in t for y in (al.get(x, (x,)))))
        every = [tr(tp(c)) for c in ref[-1].allstrs]
        have = {t for t in every if trial == 0 or rng.random() < 0.8}
        ds = {Circuit(t): 1 for t in have}
        got = sl.make_lsgst_structs(ops, ps, es, germs, [1, 2, 4], opLabelAliases=al, dscheck=ds, actionIfMissing="drop")
        for a, b in zip(got, ref):
            once(v, "exactly the circuits with data", a.allstrs, [tp(c) for c in b.allstrs if tr(tp(c)) in have], (al, trial))
            for n, g in itertools.product((1, 2, 4), germs):
                pa, pb = a.get_plaquette(n, g, False), b.get_plaquette(n, g, False)
                same(v, "plaquettes hold the circuits with data", [(i, j, tp(s)) for i, j, s in pa], [(i, j, tp(s)) for i, j, s in pb if tr(tp(s)) in have])
        if len(have) < len(set(every)):
            v.raises("missing data are reported", ValueError, lambda: sl.make_lsgst_structs(ops, ps, es, germs, [1, 2, 4], opLabelAliases=al, dscheck=ds))


def structure(serial, seed, pairs=None):
    rng = random.Random(seed)
    ps, es, germs, ls = FIDS[2], FIDS[4], [X, XX, XY], [1, 2, 4]
    if serial:
        s = LsGermsSerialStructure(ls, germs, 3, 3)
    else:
        s = LsGermsStructure(ls, germs, ps, es)
    have = {}
    for n, g in itertools.product(ls, germs):
        if rng.random() < 0.85:
            pr = [p for p in itertools.product(range(3), range(3)) if rng.random() < 0.6]
            base = cc.repeat_with_max_length(g, n)
            s.add_plaquette(base, n, g, [(ps[i], es[j]) for i, j in pr] if serial else pr)
            have[(n, g)] = (base, pr)
    extra = [C("Gz"), C("Gz", "Gx"), X]
    s.add_unindexed(extra)
    extra = [c for c in extra if tp(c) not in {tp(ps[i]) + tp(b) + tp(es[j]) for b, pr in have.values() for i, j in pr}]  # others belong to plaquettes
    return s, have, ps, es, germs, ls, extra


def contents(have, ps, es, extra, keep=lambda n, g, i, j, t: True):
    out = set()
    for (n, g), (base, pr) in have.items():
        for i, j in pr:
            t = tp(ps[i]) + tp(base) + tp(es[j])
            if keep(n, g, i, j, t):
                out.add(t)
    return out | set(map(tp, extra))


@unit(P, "structures", sym=False, conc=1, conc_s=120, weight=2, cases=["indexed", "serial"], funcs=[CS + c + "." + n for c in ("LsGermsStructure", "LsGermsSerialStructure") for n in (
    "add_plaquette", "add_unindexed", "get_plaquette", "create_plaquette", "truncate", "process_circuits", "copy", "xvals", "yvals")] + [CS + "CircuitStructure." + n for n in ("used_xvals", "used_yvals", "get_basestrings")])
def structures(v, kind):
    serial = kind == "serial"
    for seed in range(40 if v.tier == "thorough" else 15):
        s, have, ps, es, germs, ls, extra = structure(serial, seed)
        once(v, "a structure's circuits", s.allstrs, contents(have, ps, es, extra), seed)

        def plaqs(t, label, have, f=lambda c: c, gs=germs, lens=ls):
            seen = set()
            for (n, g), (base, pr) in have.items():
                p = t.get_plaquette(n, f(g), onlyfirst=False)
                cell = (lambda k, i, j: (k // 3, k % 3)) if serial else (lambda k, i, j: (j, i))
                exp = [cell(k, i, j) + (tp(f(ps[i] + base + es[j])),) for k, (i, j) in enumerate(pr)]
                same(v, label + ": plaquettes", (tp(p.base), [(a, b, tp(c)) for a, b, c in p]), (tp(f(base)), exp), (seed, n, g))
                same(v, label + ": fiducial pairs", [(tp(a), tp(b)) for a, b in p.fidpairs], [(tp(f(ps[i])), tp(f(es[j]))) for i, j in pr], (seed, n, g))
                q = t.get_plaquette(n, f(g))
                first = tp(f(base)) not in seen
                seen.add(tp(f(base)))
                same(v, label + ": only the first plaquette of a base string", [tp(c) for a, b, c in q], [tp(c) for a, b, c in exp] if first else [], (seed, n, g))
            for n, g in itertools.product(lens, gs):
                if (n, g) not in have:
                    same(v, label + ": absent plaquettes are empty", len(t.get_plaquette(n, f(g), False)), 0, (seed, n, g))
            once(v, label + ": base strings", t.get_basestrings(), {tp(f(b)) for b, pr in have.values()}, seed) if not seed % 5 else None
        plaqs(s, "as added", have)
        same(v, "row and column counts", s.plaquette_rows_cols(), (3, 3))
        c = s.copy()
        plaqs(c, "copy", have)
        once(v, "a copy's circuits", c.allstrs, contents(have, ps, es, extra), seed)
        c.add_plaquette(C("Gq"), 1, C("Gq"), [(X, Y)] if serial else [(0, 1)])
        c.add_unindexed([C("Gz", "Gz")])
        c.Ls.append(77)
        c.germs.append(C("Gq"))
        once(v, "a copy is independent", s.allstrs, contents(have, ps, es, extra), seed)
        plaqs(s, "after changing a copy", have)
        v.check("a copy's lengths and germs are its own", s.Ls == ls and s.germs == germs)

        a = s.copy()
        b = a.copy()
        for t in (b, a):  # each gets it, in any order
            t.add_unindexed([C("Gz", "Gz")])
            t.add_plaquette(C("Gq"), 1, C("Gq"), [(X, Y)] if serial else [(0, 0)])
            once(v, "a copy and its original grow independently", t.allstrs, contents(have, ps, es, extra) | {tp(C("Gz", "Gz")), tp(X + C("Gq") + Y if serial else ps[0] + C("Gq") + es[0])}, seed)
            same(v, "both find their new plaquette", len(t.get_plaquette(1, C("Gq"))), 1, seed)
        ren = {L("Gx"): L("Gw")}
        proc = lambda c: Circuit(tuple(ren.get(x, x) for x in c), line_labels=c.line_labels)
        t = s.process_circuits(proc)
        plaqs(t, "processed", have, proc)
        once(v, "processed circuits", t.allstrs, {tp(proc(Circuit(x))) for x in contents(have, ps, es, extra)}, seed)
        fold = {L("Gx"): L("Gy")}
        merge = lambda c: Circuit(tuple(fold.get(x, x) for x in c), line_labels=c.line_labels)
        t = s.process_circuits(merge)
        once(v, "processed circuits that become equal", t.allstrs, {tp(merge(Circuit(x))) for x in contents(have, ps, es, extra)}, seed)

        for kl, kg in itertools.product((None, [1, 2], [4], []), (None, [X, XY], [XX])):
            t = s.truncate(Ls=kl, germs=kg)
            ok = lambda n, g: (kl is None or n in kl) and (kg is None or g in kg)
            once(v, "truncation keeps the listed lengths and germs", t.allstrs, contents(have, ps, es, extra, lambda n, g, i, j, x: ok(n, g)), (seed, kl, kg))
            plaqs(t, "truncated", collections.OrderedDict((k, x) for k, x in have.items() if ok(*k)), gs=germs if kg is None else kg, lens=ls if kl is None else kl)
        if not serial:
            for kp, ke in itertools.product((None, [ps[1]], [ps[2], ps[0]]), (None, [es[2]], [es[0], es[1]])):
                t = s.truncate(prepStrs=kp, effectStrs=ke)
                once(v, "truncation keeps the listed fiducials", t.allstrs,
                     contents(have, ps, es, extra, lambda n, g, i, j, x: (kp is None or ps[i] in kp) and (ke is None or es[j] in ke)), (seed, kp, ke))
            al = sorted(contents(have, ps, es, extra), key=str)
            for step in (1, 2, 3):
                keep = set(al[::step]) | {tp(C("Gn"))}
                t = s.truncate(seqs=[Circuit(x) for x in keep])
                once(v, "truncation keeps the listed circuits", t.allstrs, contents(have, ps, es, extra) & keep, (seed, step))
        else:
            t = s.truncate(Ls=[1, 2], nMinorRows="auto", nMinorCols="auto")
            v.check("automatic sizes fit", t.nMinorRows * t.nMinorCols >= max([len(pr) for (n, g), (b, pr) in have.items() if n < 4] + [0]))
            once(v, "truncation with automatic sizes", t.allstrs, contents(have, ps, es, extra, lambda n, g, i, j, x: n < 4), seed)
        dsk = {Circuit(x): 1 for x in sorted(contents(have, ps, es, extra), key=str)[::2]}
        f = (LsGermsSerialStructure(ls, germs, 3, 3) if serial else LsGermsStructure(ls, germs, ps, es))
        miss = set()
        for (n, g), (base, pr) in have.items():
            orig = [(ps[i], es[j]) for i, j in pr] if serial else list(pr)
            miss |= {tp(m[-1]) for m in f.add_plaquette(base, n, g, orig, dsk)}
            v.check("the pairs given are not changed", orig == ([(ps[i], es[j]) for i, j in pr] if serial else list(pr)))
        miss |= set(map(tp, f.add_unindexed(extra, dsk)))
        al = contents(have, ps, es, extra)
        once(v, "only circuits with data are added", f.allstrs, {x for x in al if Circuit(x) in dsk}, seed)
        same(v, "missing circuits are returned", miss, {x for x in al if Circuit(x) not in dsk}, seed)


@unit(P, "plaquettes", sym=False, conc=1, conc_s=30, funcs=[CS + "CircuitPlaquette." + n for n in ("__init__", "expand_aliases", "get_all_strs", "process_circuits", "copy", "__iter__", "__len__")])
def plaquettes(v):
    al = {L("Ga"): (L("Gx"), L("Gy"))}
    ex = lambda c: tuple(y for x in c for y in al.get(x, (x,)))
    pr = [(C("Ga"), E), (X, C("Ga", "Ga")), (E, Y)]
    base = C("Ga", "Gx")
    els = [(k, 0, a + base + b) for k, (a, b) in enumerate(pr)]
    for fp, aliases in itertools.product((None, pr), (None, al)):
        p = CircuitPlaquette(base, 3, 1, els, aliases, fp)
        tr = ex if aliases else tuple
        for filt in (None, {Circuit(tr(els[0][2])): 1, Circuit(tr(els[2][2])): 1}):
            q = p.expand_aliases(filt)
            ix = [k for k in range(3) if filt is None or k != 1]
            same(v, "aliases are expanded", [(i, j, tp(s)) for i, j, s in q], [(k, 0, tr(els[k][2])) for k in ix])
            same(v, "fiducial pairs are expanded alike", None if q.fidpairs is None else [(tp(a), tp(b)) for a, b in q.fidpairs], None if fp is None else [(tr(pr[k][0]), tr(pr[k][1])) for k in ix])
        f = lambda c: Circuit(tuple(c) + (L("Gend"),))
        q = p.process_circuits(f)
        same(v, "processing applies the function to all", ([(i, j, tp(s)) for i, j, s in q], tp(q.base), q.fidpairs), ([(i, j, tp(f(s))) for i, j, s in els], tp(f(base)), None if fp is None else [(f(a), f(b)) for a, b in pr]))
        c = p.copy()
        same(v, "copies are equal", (c.elements, c.base, c.fidpairs, c.aliases, len(c), c.get_all_strs()), (els, base, fp, aliases, 3, [s for i, j, s in els]))
        c.elements.pop()
        v.check("copies are independent", len(p) == 3)


@unit(P, "list tools", sym=False, conc=1, conc_s=90, funcs=[LT + n for n in (
    "remove_duplicates", "remove_duplicates_in_place", "compute_occurrence_indices", "find_replace_tuple", "find_replace_tuple_list", "apply_aliases_to_circuit_list",
    "sorted_partitions", "partitions", "partition_into", "_partition_into_slow", "incd_product")])
def tools(v):
    for n in range(0, 6):
        for t in itertools.product(range(3), repeat=n):
            firsts = [x for i, x in enumerate(t) if x not in t[:i]]
            same(v, "remove_duplicates", lt.remove_duplicates(list(t)), firsts, t)
            l = list(t)
            lt.remove_duplicates_in_place(l)
            same(v, "remove_duplicates_in_place", l, firsts, t)
            pl = [(k, x) for k, x in enumerate(t)]
            fp = [p for i, p in enumerate(pl) if p[1] not in t[:i]]
            same(v, "remove_duplicates by element", lt.remove_duplicates(pl, 1), fp, t)
            l = list(pl)
            lt.remove_duplicates_in_place(l, 1)
            same(v, "remove_duplicates_in_place by element", l, fp, t)
            same(v, "compute_occurrence_indices", lt.compute_occurrence_indices(list(t)), [t[:i].count(x) for i, x in enumerate(t)], t)
            for d in (None, {}, {0: (1, 2)}, {0: ()}, {1: (5, 6, 7), 2: (8,)}):
                exp = tuple(y for x in t for y in ((d or {}).get(x, (x,))))
                if d == {0: (1, 2)} or d != {}:
                    same(v, "find_replace_tuple", lt.find_replace_tuple(t, d), exp, (t, d))
                    same(v, "find_replace_tuple_list", lt.find_replace_tuple_list([t, t[:1]], d), [exp, tuple(y for x in t[:1] for y in ((d or {}).get(x, (x,))))], (t, d))
    for n in range(0, 10):
        got = list(lt.sorted_partitions(n))
        exp = [t for k in range(0, n + 1) for t in itertools.combinations_with_replacement(range(n, 0, -1), k) if sum(t) == n]
        same(v, "sorted partitions are all distinct decreasing partitions", sorted(tuple(map(int, p)) for p in got), sorted(exp), n)
        if 0 < n < 8:
            got = [tuple(map(int, p)) for p in lt.partitions(n)]
            exp = {q for p in exp for q in itertools.permutations(p)}
            same(v, "partitions: each once", sorted(got), sorted(exp), n)
    for n, b in itertools.product(range(0, 6), range(1, 5)):
        exp = sorted(t for t in itertools.product(range(n + 1), repeat=b) if sum(t) == n)
        same(v, "partitions into bins", sorted(tuple(map(int, p)) for p in lt.partition_into(n, b)), exp, (n, b))
        if n:
            same(v, "partitions into bins (general)", sorted(tuple(map(int, p)) for p in lt._partition_into_slow(n, b)), exp, (n, b))
    for k in range(0, 4):
        for sizes in itertools.product(range(0, 4), repeat=k):
            args = [["%d%s" % (i, "abc"[j]) for j in range(m)] for i, m in enumerate(sizes)]
            exp = list(itertools.product(*args))
            got = list(lt.incd_product(*args))
            same(v, "incd_product is the product", [t for i, t in got], exp, sizes)
            same(v, "incd_product names the first changed index", [i for i, t in got],
                 [0 if m == 0 else next(i for i in range(k) if exp[m][i] != exp[m - 1][i]) for m in range(len(exp))], sizes)
    al = {L("Ga"): (L("Gx"), L("Gy")), "Gb": C("Gz", "Gz")}
    cs = [C("Ga"), C("Gx", "Ga", "Gb", "Ga"), E, C("Gb", "Gb")]
    m = {L("Ga"): ("Gx", "Gy"), L("Gb"): ("Gz", "Gz")}
    same(v, "aliases are applied to all circuits", [tp(c) for c in lt.apply_aliases_to_circuit_list(cs, al)], [tuple(y for x in c for y in m.get(x, (x,))) for c in cs])
    same(v, "no aliases", (lt.apply_aliases_to_circuit_list(cs, None), lt.apply_aliases_to_circuit_list([], al)), (cs, []))


@unit(P, "translations and rules", sym=False, conc=1, conc_s=60, funcs=[CC + n for n in (
    "translate_circuit", "translate_circuit_list", "compose_alias_dicts", "manipulate_circuit", "manipulate_circuit_list", "filter_circuit", "filter_circuits")])
def translations(v):
    al = {L("Ga"): ("Gx", "Gy"), L("Gb"): (), L("Gx"): ("Gx", "Gx")}
    be = {L("Gx"): ("G1",), L("Gy"): ("G2", "G3")}
    for n in range(0, 4):
        cs = [Circuit(t) for t in itertools.product(("Ga", "Gb", "Gx"), repeat=n)]
        exp = [tuple(L(y) for x in c for y in al.get(x, (x,))) for c in cs]
        same(v, "translate_circuit_list", [tp(c) for c in cc.translate_circuit_list(cs, al)], exp)
        same(v, "translate_circuit", [tp(cc.translate_circuit(c, al)) for c in cs], exp)
        two = cc.compose_alias_dicts(al, be)
        same(v, "composed aliases", [tp(cc.translate_circuit(c, two)) for c in cs], [tuple(L(y) for x in e for y in be.get(x, (x,))) for e in exp])
    same(v, "no translation", (cc.translate_circuit(X, None), cc.translate_circuit_list([X], None)), (X, [X]))
    # rules whose changed parts cannot overlap: each changed label is replaced where its context matches in the original
    rules = [(("A", "B"), ("A", "B1", "B2")), (("X", "A", "B", "C"), ("X", "A", "B", "C1")), (("D", "E"), ("D1", "E")), (("F",), ("G", "H", "I")), (("E", "F", "K"), ("E", "F", "K1", "K2"))]
    for n in range(0, 6):
        for t in itertools.product("ABC", repeat=n) if n < 5 else [tuple(x) for x in ("XABCD", "XABCX", "ABXAB", "DEFKA", "FDEFK", "XABDE", "DEDEF", "EFKEF", "XABCE", "FFDEA")]:
            for pre in ((), ("X",), ("D",)):
                t2 = pre + t
                out = []
                for i, x in enumerate(t2):
                    p = t2[:i]
                    if x == "B" and p[-1:] == ("A",):
                        out += ["B1", "B2"]
                    elif x == "C" and p[-3:] == ("X", "A", "B"):
                        out += ["C1"]
                    elif x == "D" and t2[i + 1:i + 2] == ("E",):
                        out += ["D1"]
                    elif x == "F":
                        out += ["G", "H", "I"]
                    elif x == "K" and p[-2:] == ("E", "F"):
                        out += ["K1", "K2"]
                    else:
                        out.append(x)
                for rl in (rules, rules[::-1], [(Circuit(a), Circuit(b)) for a, b in rules]):
                    same(v, "rules replace labels where their context matches", tp(cc.manipulate_circuit(Circuit(t2), rl)), tuple(map(L, out)), t2)
    for c, keep, new in itertools.product((Circuit([("Gx", 0), [("Gy", 1), ("Gx", 0)], ("Gcnot", 0, 1), ("Gz", 2), "Gi"], line_labels=(0, 1, 2)), Circuit([("Gx", 2)], line_labels=(0, 1, 2)), Circuit((), line_labels=(0, 1, 2))),
                                          ((0,), (0, 1), (2,), (1, 2), (2, 0)), (False, True)):
        nm = {0: "a", 1: "b", 2: "c"}
        cut, out = False, []
        for lay in c:
            row = []
            for x in ((lay,) if lay.issimple() else lay.components):
                if x.sslbls is None or set(x.sslbls) <= set(keep):
                    row.append(x if x.sslbls is None or not new else L(x.name, tuple(nm[q] for q in x.sslbls)))
                elif set(x.sslbls) & set(keep):
                    cut = True
            out.append(sorted(row, key=str))
        newl = tuple(nm[q] for q in keep) if new else None
        for idle in ((), "Gidle", None):
            got = cc.filter_circuit(c, keep, newl, idle)
            if cut:
                v.check("a gate across the kept lines leaves nothing", got is None, str((c, keep)))
                continue
            o = [r for r in out if r or idle is not None]
            o = [r if r or idle == () else [L(idle)] for r in o]
            same(v, "filtering keeps the gates on the kept lines", [sorted((x,) if x.issimple() else x.components, key=str) if x != L(()) else [] for x in got], o, (c, keep, new, idle))
            same(v, "filtered lines", tuple(got.line_labels), newl if new else keep)
            gl = cc.filter_circuits([c, c], keep, newl, False, idle)
            same(v, "filter_circuits", gl, [got, got])
        if not cut:
            d = cc.filter_circuits([c, Circuit((), line_labels=(0, 1, 2))], keep, newl, True, None)
            exp = [r for r in out if r]
            same(v, "circuits that become empty are dropped", len(d), 1 + (1 if exp or len(c) == 0 else 0))


@unit(P, "fiducial pair reduction", sym=False, conc=1, conc_s=240, weight=3, funcs=["pygsti.algorithms.fiducialpairreduction." + n for n in (
    "find_sufficient_fiducial_pairs", "find_sufficient_fiducial_pairs_per_germ", "test_fiducial_pairs")])
def reduction(v):
    from pygsti.construction import std1Q_XYI as std
    from pygsti.algorithms import fiducialpairreduction as fpr
    mdl = std.target_model()
    ps, es = std.prepStrs, std.effectStrs
    germs = [C("Gi"), X, XY]
    allp = list(itertools.product(range(len(ps)), range(len(es))))

    def rank_of(germ, pairs):
        m = mdl.copy()
        m.set_all_parameterizations("static")
        m.operations["Ggerm"] = pygsti.objects.EigenvalueParamDenseOp(m.product(germ), True, True)
        rows = []
        v0 = m.to_vector()
        cs = [ps[i] + C("Ggerm") + es[j] for i, j in pairs]
        for k in range(len(v0)):
            d = np.zeros(len(v0))
            d[k] = 1e-5
            m.from_vector(v0 + d)
            hi = np.array([x for c in cs for x in m.probs(c).values()])
            m.from_vector(v0 - d)
            rows.append((hi - np.array([x for c in cs for x in m.probs(c).values()])) / 2e-5)
        return np.linalg.matrix_rank(np.array(rows), 1e-5), len(v0)
    for mode, seed in (("sequential", None), ("random", 3)):
        got = fpr.find_sufficient_fiducial_pairs_per_germ(mdl, ps, es, germs, searchMode=mode, nRandom=40, seed=seed)
        v.check("pairs for each germ", set(got) == set(germs))
        for g in germs:
            pr = got[g]
            v.check("pairs are pairs of the given fiducials, each once", len(set(pr)) == len(pr) and set(pr) <= set(allp), str(pr))
            r, n = rank_of(g, pr)
            v.check("the pairs kept are sensitive to all parameters of the germ", r == n, "%s: rank %d of %d" % (g, r, n))
    tests = (4, 32)
    full = fpr.test_fiducial_pairs(allp, mdl, ps, es, germs, testLs=tests)
    for mode, seed in (("sequential", None), ("random", 5)):
        pr = fpr.find_sufficient_fiducial_pairs(mdl, ps, es, germs, testLs=tests, searchMode=mode, nRandom=30, seed=seed, minimumPairs=3)
        v.check("pairs are pairs of the given fiducials, each once", len(set(pr)) == len(pr) and set(pr) <= set(allp), str(pr))
        same(v, "the pairs kept amplify as much as all pairs", fpr.test_fiducial_pairs(pr, mdl, ps, es, germs, testLs=tests), full, mode)
        d = {g: pr for g in germs}
        same(v, "pairs may be given per germ", fpr.test_fiducial_pairs(d, mdl, ps, es, germs, testLs=tests), full, mode)

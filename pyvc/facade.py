"""What contracts are written with.

    @unit("C02", "chi2.value", funcs=[...], cases=[...])
    def _(v, case):
        x = v.real("x", lo=0.1)            # precondition / input
        r = real_function(x)
        v.eq("value", r, oracle(x))        # postcondition

The same body runs on symbolic inputs (every path is explored and every postcondition becomes an obligation) and on
concrete ones (replay of counterexamples, and the bounded stand-in)."""
import contextlib
import os
import sys
import random
import traceback
import numpy as np
from .core import (SInt, SBool, VC, PathEnd, Unsupported, prove_bool, prove_zero, ctx, Not, And, Or, Implies, cmp_rexpr)
from . import ring, core
from .ring import RExpr
import z3

UNITS = []


class _NoCase:
    def __str__(self):
        return ""


NOCASE = _NoCase()
SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


KNOWN = []      # entries of known_findings.json: they don't end a concrete run, so that later checks are still made


class CheckFail(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, "%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class Skip(BaseException):
    pass


class Unit:
    def __init__(self, prop, name, fn, funcs=(), cases=None, thorough_cases=None, sym=True, conc=20, conc_thorough=None,
                 budget=40, conc_s=15, max_paths=3000, timeout_ms=3000, only=None, exact=False, weight=1, extra=None,
                 shadow=True, builtins=None, instrument=None, words=None, lazy_abs=False, lazy_red=False):
        self.prop, self.name, self.fn, self.funcs = prop, name, fn, list(funcs)
        self.cases, self.thorough_cases, self.sym = cases, thorough_cases, sym
        self.conc = conc
        self.conc_thorough = conc_thorough if conc_thorough is not None else conc * 20
        self.budget, self.conc_s = budget, conc_s
        self.max_paths, self.timeout_ms = max_paths, timeout_ms
        self.only, self.exact, self.weight, self.extra, self.shadow = only, exact, weight, extra, shadow
        self.builtins = builtins
        self.lazy_abs = lazy_abs
        self.lazy_red = lazy_red
        self.instrument = instrument
        self.words = words          # modules whose numpy sees words (symbolic bits)

    def get_cases(self, tier):
        c = list(self.cases) if self.cases is not None else [NOCASE]
        if tier == "thorough" and self.thorough_cases:
            c = c + [x for x in self.thorough_cases if x not in c]
        return c


def unit(prop, name, **kw):
    def deco(fn):
        UNITS.append(Unit(prop, name, fn, **kw))
        return fn
    return deco


def in_spec(e):
    """did the exception come from the contract text itself (an API it expects is gone)?"""
    if not isinstance(e, (AttributeError, ImportError, TypeError, NameError)):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    return last is not None and os.path.realpath(last.tb_frame.f_code.co_filename).startswith(SPECDIR)


@contextlib.contextmanager
def environment(unit, v):
    from . import symnp
    with contextlib.ExitStack() as st:
        if unit.shadow:
            extra = unit.extra() if callable(unit.extra) else unit.extra
            if unit.words:
                from . import words
                extra = {**{(sys.modules[m], a): words.WORDS for m in unit.words for a in ("_np", "np")
                            if hasattr(sys.modules[m], a)}, **(extra or {})}
            st.enter_context(symnp.patched([] if unit.words else unit.only, extra))
        if unit.instrument:
            from . import loops
            st.enter_context(loops.instrumented(unit.instrument))
        yield


class Base:
    symbolic = False

    def _name(self, name):
        n = self._names.get(name, 0) + 1
        self._names[name] = n
        return name if n == 1 else "%s#%d" % (name, n)

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object if self.symbolic else float)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + "_" + "_".join(map(str, i)), lo, hi)
        return self.arr(a)

    def cplx(self, name, shape=None):
        if shape is None:
            return self.real(name + "r") + self.real(name + "i") * 1j
        r, i = self.reals(name + "r", shape), self.reals(name + "i", shape)
        return r + i * 1j

    def ints(self, name, n, lo=None, hi=None):
        return [self.int("%s_%d" % (name, i), lo, hi) for i in range(n)]

    def words(self, name, shape, bits=1):
        """small integers 0 .. 2**bits - 1, symbolic bit by bit"""
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self.word(name + "_" + "_".join(map(str, i)), bits)
        return self.arr(a)

    def hermitian(self, name, n):
        a = np.empty((n, n), dtype=object if self.symbolic else complex)
        for i in range(n):
            for j in range(i, n):
                if i == j:
                    a[i, i] = self.real("%s_%d" % (name, i))
                else:
                    x = self.real("%s_%d_%dr" % (name, i, j)) + self.real("%s_%d_%di" % (name, i, j)) * 1j
                    a[i, j] = x
                    a[j, i] = x.conjugate()
        return self.arr(a)

    def subset(self, name, items):
        return [x for i, x in enumerate(items) if self.choice("%s_%d" % (name, i), [True, False])]


class SymV(Base):
    symbolic = True

    def __init__(self, c, rng, unit, tier):
        ring.LAZY_ABS[0] = unit.lazy_abs
        from . import symnp
        symnp.LAZY_RED[0] = unit.lazy_red
        symnp.HOOKS.clear()
        self.c, self.rng, self.unit, self.tier = c, rng, unit, tier
        self._names = {}
        self.vcs = []
        self.used = {}

    @property
    def np(self):
        from . import symnp
        return symnp.SHADOW

    def hook(self, name, f):
        """assume the contract f for numpy.linalg's routine of that name when it gets symbolic arguments"""
        from . import symnp
        symnp.HOOKS[name] = f

    def arr(self, x):
        from . import symnp
        return symnp.to_sym(x)

    def int(self, name, lo=None, hi=None, upto=None):
        """an integer lo <= x <= hi; upto only bounds what concrete runs draw"""
        name = self._name(name)
        z = z3.Int(name)
        self.c.ivars[name] = z
        self.c.inputs[name] = ("int", (lo, hi))
        if lo is not None:
            self.c.add(z >= (lo.z if isinstance(lo, SInt) else lo))
        if hi is not None:
            self.c.add(z <= (hi.z if isinstance(hi, SInt) else hi))
        if (lo is not None or hi is not None) and self.c._check() == z3.unsat:
            raise PathEnd("empty range")
        return SInt(z)

    def word(self, name, bits=1):
        from . import words
        name = self._name(name)
        w = words.word(name, bits)
        self.c.ivars[name] = w.z
        self.c.inputs[name] = ("int", (0, (1 << bits) - 1))
        return w

    def positions(self, n):
        """the list [0, .., n-1] standing for n distinct items"""
        from . import loops
        return loops.LazyList(n, lambda k: k)

    def intlist(self, name, n, lo=None, hi=None, upto=None):
        """an arbitrary list of n integers"""
        from . import loops
        name = self._name(name)
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        n = SInt.lift(n)
        self.c.inputs[name] = ("ilist", (f, n.z))
        k = z3.Int("k!" + name)
        conds = [f(k) >= lo] if lo is not None else []
        conds += [f(k) <= hi] if hi is not None else []
        if conds:
            self.c.add(z3.ForAll([k], z3.And(conds)))
        return loops.LazyList(n, lambda k: SInt(f(k.z if isinstance(k, SInt) else k)))

    def value_of(self, label, d, x, hint=None):
        """the value a dictionary written under loops holds for key x: obligations that there is one and only one"""
        from . import loops
        if hasattr(d, "lookup"):
            return d.lookup(x)
        if not isinstance(d, loops.SymDict):
            d = loops.SymDict(d)
        xz = loops.zint(x)
        have = []
        for w, dom, K, V in d.writers():
            K, V = loops.zint(K), loops.zint(V)
            pairs = []
            if len(w) == 2:
                h = loops.zint(hint) - z3.substitute(V, (w[0], z3.IntVal(0)), (w[1], z3.IntVal(0)))
                pairs.append((w[0], h))
                K1 = z3.substitute(K, *pairs)
                pairs.append((w[1], xz - z3.substitute(K1, (w[1], z3.IntVal(0)))))
            elif len(w) == 1:
                pairs.append((w[0], xz - z3.substitute(K, (w[0], z3.IntVal(0)))))
            have.append(z3.substitute(z3.And(dom, K == xz), *pairs) if pairs else z3.And(dom, K == xz))
        self.check(label + ": has a value", SBool(z3.Or(have)) if have else False)
        vals = []
        for copy in range(2):
            o = loops._fresh("val")
            self.c.add(z3.Or([z3.And(dom, loops.zint(K) == xz, loops.zint(V) == o) for w, dom, K, V in d.writers()]
                             + [z3.BoolVal(False)]))
            vals.append(SInt(o))
        if self.c._check() == z3.unsat:
            raise PathEnd("no value")
        self.check(label + ": has one value", vals[0] == vals[1])
        return vals[0]

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        name = self._name(name)
        options = list(options)
        i = self.c.choose(list(range(len(options))), name)
        self.c.inputs[name] = ("choice", i)
        return options[i]

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        e = RExpr.var(name)
        self.c.inputs[name] = ("real", (lo, hi))
        self.c.extend_pool(name, lo, hi)
        if lo is not None:
            self.c.assume(cmp_rexpr(e, RExpr.const(lo), ">"))
        if hi is not None:
            self.c.assume(cmp_rexpr(e, RExpr.const(hi), "<"))
        return e

    def fun(self, name, xs, ds, lo=None, hi=None):
        """the value at x of an arbitrary function with partial derivatives ds: returns (value, f) with f(x') its
        first-order continuation (exact for every contract that only differentiates once)"""
        name = self._name(name)
        e = RExpr.fun(name, list(zip(xs, ds)))
        self.c.inputs[name] = ("real", (lo, hi))
        self.c.extend_pool(name, lo, hi)
        if lo is not None:
            self.c.assume(cmp_rexpr(e, RExpr.const(lo), ">"))
        if hi is not None:
            self.c.assume(cmp_rexpr(e, RExpr.const(hi), "<"))
        return e

    def fix(self, name, options, n=None):
        """a concrete draw, the same one on every path (numbers only; the proof covers this draw)"""
        return options(random.Random(ring_hash(name)))

    def assume(self, cond):
        if hasattr(cond, "note"):
            cond.note()
        self.c.assume(cond if isinstance(cond, SBool) else SBool(bool(cond)))

    def assume_nonzero(self, e):
        self.c.nonzero(e if isinstance(e, RExpr) else RExpr.const(e))

    def check(self, label, cond, detail=""):
        if isinstance(cond, np.ndarray):
            for e in cond.flat:
                self.check(label, e)
            return
        self.vcs.append(prove_bool(label, cond))

    def eq(self, label, a, b, tol=1e-7):
        if self.unit.words:
            from . import words
            A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            if A.shape != B.shape:
                self.vcs.append(prove_bool(label + " (shape %s, expected %s)" % (A.shape, B.shape), False))
                return
            for i in np.ndindex(A.shape):
                self.vcs.append(words.equal("%s%s" % (label, list(i)) if i else label, A[i], B[i]))
            return
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if not isinstance(a, RExpr) and not isinstance(b, RExpr) and not isinstance(a, np.ndarray):
                self.vcs.append(prove_bool(label, a == b))
                return
        A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if A.shape != B.shape:
            if A.shape == () or B.shape == ():
                A, B = np.broadcast_arrays(A, B)
            else:
                self.vcs.append(prove_bool(label + " (shape %s, expected %s)" % (A.shape, B.shape), False))
                return
        for i in np.ndindex(A.shape):
            x, y = A[i], B[i]
            if isinstance(x, (SInt, SBool)) or isinstance(y, (SInt, SBool)):
                self.vcs.append(prove_bool(label, x == y))
                continue
            if not isinstance(x, RExpr):
                x = RExpr.const(x)
            if not isinstance(y, RExpr):
                y = RExpr.const(y)
            d = x - y
            self.vcs.append(prove_zero(label if not i else "%s%s" % (label, list(i)), d, self.rng,
                                       max(1.0, float(x.maxcoef()), float(y.maxcoef())), tol=max(1e-9, min(tol, 1e-7) * 1e-2)))

    def diff(self, e, var):
        """exact partial derivative (symbolic runs only)"""
        (m, _), = var.p.items()
        f = lambda x: x.diff(m[0][0]) if isinstance(x, RExpr) else 0
        if isinstance(e, np.ndarray):
            out = np.empty(e.shape, dtype=object)
            for i, x in np.ndenumerate(e):
                out[i] = f(x)
            return self.arr(out)
        return f(e)

    def is_deriv(self, label, f, x, jac, tol=1e-4):
        """obligation: jac[..., j] is the derivative of f(x) with respect to x[j], f being the real code"""
        y = f(x)
        y = np.asarray(y, dtype=object)
        jac = np.asarray(jac, dtype=object)
        x = np.asarray(x, dtype=object).ravel()
        if jac.shape != y.shape + (x.size,):
            self.vcs.append(prove_bool(label + " (shape %s, expected %s)" % (jac.shape, y.shape + (x.size,)), False))
            return
        for j in range(x.size):
            self.eq("%s d/dx%d" % (label, j), jac[..., j], self.diff(y, x[j]))

    def raises(self, label, exc, f):
        try:
            f()
        except exc:
            self.vcs.append(VC(label, "proved", "exec"))
            return
        self.vcs.append(prove_bool(label, False))

    def sort(self, xs):
        return sorted(xs)


def ring_hash(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) & 0x7fffffff
    return h


class ConcV(Base):
    symbolic = False
    np = np

    def __init__(self, vals, rng, unit, tier):
        self.vals, self.rng, self.unit, self.tier = vals, rng, unit, tier
        self._names = {}
        self.used = {}
        self.nchecks = 0
        self.case = ""
        self.known_hit = []

    def hook(self, name, f):
        pass

    def arr(self, x):
        return np.array(x.tolist()) if isinstance(x, np.ndarray) and x.dtype == object else x

    def _get(self, name, draw):
        name = self._name(name)
        if self.vals is not None and name in self.vals and self.vals[name] is not None:
            r = self.vals[name]
        else:
            r = draw()
        self.used[name] = r
        return r

    def int(self, name, lo=None, hi=None, upto=None):
        a = (-6 if upto is None else -upto) if lo is None else lo
        b = (a + 14 if upto is None else upto) if hi is None else hi
        if b < a:
            raise Skip()
        r = self._get(name, lambda: self.rng.randint(a, b))
        if (lo is not None and r < lo) or (hi is not None and r > hi):
            raise Skip()
        return int(r)

    def word(self, name, bits=1):
        return self.int(name, 0, (1 << bits) - 1)

    def positions(self, n):
        return list(range(n))

    def intlist(self, name, n, lo=None, hi=None, upto=None):
        a = (-6 if upto is None else -upto) if lo is None else lo
        b = (a + 14 if upto is None else upto) if hi is None else hi
        r = self._get(name, lambda: [self.rng.randint(a, b) for _ in range(n)])
        if len(r) != n or any(x < a and lo is not None or x > b and hi is not None for x in r):
            raise Skip()
        return list(r)

    def value_of(self, label, d, x, hint=None):
        self.check(label + ": has a value", x in d)
        return d[x]

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda: self.rng.randrange(len(options)))
        if not isinstance(i, int) or not 0 <= i < len(options):
            raise Skip()
        return options[i]

    def real(self, name, lo=None, hi=None):
        def draw():
            if lo is None and hi is None:
                return self.rng.uniform(-1.5, 1.5)
            if hi is None:
                return lo + self.rng.expovariate(1.0) + 1e-3
            if lo is None:
                return hi - self.rng.expovariate(1.0) - 1e-3
            return self.rng.uniform(lo, hi)
        r = float(self._get(name, draw))
        if (lo is not None and r <= lo) or (hi is not None and r >= hi):
            raise Skip()
        return r

    def fun(self, name, xs, ds, lo=None, hi=None):
        return self.real(name, lo, hi)

    def fix(self, name, options, n=None):
        return options(random.Random(ring_hash(name)))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def assume_nonzero(self, e):
        if abs(e) < 1e-9:
            raise Skip()

    def check(self, label, cond, detail=""):
        self.nchecks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if not cond:
            self._fail(label, "the postcondition is false %s; inputs %s" % (detail, str(self.used)[:800]))

    def _fail(self, label, detail):
        for k in KNOWN:
            if k["unit"] == self.unit.name and k["label"] == label and k.get("case", self.case) == self.case \
                    and k.get("detail_has", "") in detail:
                self.known_hit.append((label, detail))
                return
        raise CheckFail(label, detail)

    def eq(self, label, a, b, tol=1e-7):
        self.nchecks += 1
        try:
            A, B = np.asarray(a), np.asarray(b)
        except ValueError:
            A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if A.dtype == object or B.dtype == object or A.dtype.kind in "USO" or B.dtype.kind in "USO":
            ok = A.shape == B.shape and all(A[i] == B[i] for i in np.ndindex(A.shape))
            if not ok:
                self._fail(label, "got %s, expected %s; inputs %s" % (str(a)[:300], str(b)[:300], str(self.used)[:600]))
            return
        if A.shape != B.shape and A.shape != () and B.shape != ():
            return self._fail(label, "shape %s, expected %s; inputs %s" % (A.shape, B.shape, str(self.used)[:600]))
        err = np.abs(A.astype(complex) - B.astype(complex))
        lim = tol * (1 + np.maximum(np.max(np.abs(A), initial=0.0), np.max(np.abs(B), initial=0.0)))
        if not bool(np.all(err <= lim)):
            self._fail(label, "off by %.3g (got %s, expected %s); inputs %s" % (
                np.nanmax(err) if err.size else 0, str(a)[:300], str(b)[:300], str(self.used)[:600]))

    def is_deriv(self, label, f, x, jac, tol=1e-4):
        x = np.array(x, dtype=float)
        shape = x.shape
        x = x.ravel()
        jac = np.asarray(jac)
        y0 = np.asarray(f(x.reshape(shape).copy()))
        if jac.shape != y0.shape + (x.size,):
            return self._fail(label, "shape %s, expected %s" % (jac.shape, y0.shape + (x.size,)))
        for j in range(x.size):
            best = None
            for h in (1e-4, 1e-5, 1e-3):
                xp, xm = x.copy(), x.copy()
                xp[j] += h
                xm[j] -= h
                fd = (np.asarray(f(xp.reshape(shape))) - np.asarray(f(xm.reshape(shape)))) / (2 * h)
                err = np.max(np.abs(fd - jac[..., j]), initial=0.0) / (1 + np.max(np.abs(fd), initial=0.0))
                best = err if best is None else min(best, err)
                if best <= tol:
                    break
            self.check("%s d/dx%d" % (label, j), best <= tol, "(relative error %.3g against a central difference)" % best)

    def raises(self, label, exc, f):
        self.nchecks += 1
        try:
            f()
        except exc:
            return
        self._fail(label, "no %s was raised; inputs %s" % (exc, str(self.used)[:600]))

    def sort(self, xs):
        return sorted(xs)

"""Paths, symbolic integers/booleans, verification conditions and their back ends."""
import os
import select
import sys
import time
import random
import math
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

from . import ring
from .ring import RExpr, ATOMS


class PathEnd(BaseException):
    """this path is infeasible or finished early"""


class Unsupported(BaseException):
    """the code stepped outside what the symbolic executor can follow: the path is undecided"""


_CTX = [None]


def ctx():
    return _CTX[0]


class Budget(BaseException):
    pass


STATS = {"z3_s": 0.0, "cvc5_s": 0.0, "ring_s": 0.0, "z3_queries": 0, "cvc5_queries": 0}


def where():
    """the line of the code under verification (or of its contract) that is being executed"""
    f = sys._getframe(1)
    while f is not None and f.f_code.co_filename.startswith(_HERE):
        f = f.f_back
    return (f.f_code.co_filename, f.f_lineno) if f is not None else None


_HERE = os.path.dirname(os.path.abspath(__file__))


class Ctx:
    """one execution path"""

    def __init__(self, prefix=(), deadline=None, timeout_ms=4000):
        self.prefix = list(prefix)
        self.taken = []           # [(choice, [alternatives], tag)]; the prefix is a list of (choice, tag)
        self.deadline = deadline
        self.timeout = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.pc = []              # z3 facts
        self.num = []             # numeric facts for sampling: (RExpr, op)
        self.zvars = {}           # atom id -> z3 Real
        self.ivars = {}           # name -> z3 Int
        self.inputs = {}          # name -> ("int"|"real"|"choice", extra)
        self.assumed = set()      # text of assumptions taken on the way
        self.pos = set()          # atoms known positive
        self.nn = set()           # atoms known nonnegative
        self.depth = 0
        self.fresh = 0
        self.div_policy = "assume"
        self.havoced = False
        self.lenient_float = False
        self.prefer = None
        self.facts = {}           # normalised RExpr key -> (sign, op)
        self.pool = [dict() for _ in range(48)]   # sample inputs satisfying the facts so far
        self.prng = random.Random(12345)
        self.pool_ok = True
        self.lin = z3.SolverFor("QF_LRA")          # the facts with every monomial read as an independent unknown
        self.lin.set("timeout", 2000)
        self.mono = {}
        self.divs = {}

    # -- facts
    def add(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget used up")
        t = time.time()
        r = self.solver.check(*extra)
        STATS["z3_s"] += time.time() - t
        STATS["z3_queries"] += 1
        return r

    def assume(self, cond):
        if isinstance(cond, SBool):
            c = cond.z
            if isinstance(c, bool):
                if not c:
                    raise PathEnd("assumption false")
                return
            if cond.rel is not None:
                self.note_any(cond.rel)
            self.add(c)
            if (cond.rel is None or not self.pool) and self._check() == z3.unsat:
                raise PathEnd("assumption infeasible")
        elif not cond:
            raise PathEnd("assumption false")

    def note_any(self, rel):
        if rel[0] == "&":
            self.note_any(rel[1])
            self.note_any(rel[2])
        elif rel[0] == "|":
            self.num.append(rel)
            self.filter_pool(rel)
        else:
            self.note_rel(*rel)

    def note_rel(self, d, op):
        """remember an RExpr fact d op 0 for sampling and sign analysis"""
        self.num.append((d, op))
        k, sg = norm_key(d)
        if sg < 0:
            self.facts.setdefault(k, set()).add({"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))
        else:
            self.facts.setdefault(k, set()).add(op)
        if len(d.p) == 1:
            (m, c), = d.p.items()
            if len(m) == 1 and m[0][1] == 1 and not isinstance(c, complex):
                a = m[0][0]
                if op == ">" and c > 0 or op == "<" and c < 0:
                    self.pos.add(a)
                    self.nn.add(a)
                elif op == ">=" and c > 0 or op == "<=" and c < 0:
                    self.nn.add(a)
        self.lin.add(self.lin_rel(d, op))
        self.filter_pool((d, op))

    def lin_rel(self, d, op):
        terms = []
        for m, c in d.p.items():
            if isinstance(c, complex):
                return z3.BoolVal(True)
            q = z3.RealVal(Fraction(c) if not isinstance(c, float) else Fraction(c).limit_denominator(10**12))
            if m:
                if m not in self.mono:
                    self.mono[m] = z3.Real("m%d" % len(self.mono))
                    z = self.mono[m]
                    if all(a in self.pos for a, _ in m):
                        self.lin.add(z > 0)
                    elif all(a in self.nn or e % 2 == 0 for a, e in m):
                        self.lin.add(z >= 0)
                q = q * self.mono[m]
            terms.append(q)
        t = z3.Sum(terms) if terms else z3.RealVal(0)
        return {"<": t < 0, "<=": t <= 0, ">": t > 0, ">=": t >= 0, "==": t == 0, "!=": t != 0}[op]

    def lin_refutes(self, d, op):
        t = time.time()
        r = self.lin.check(self.lin_rel(d, op))
        STATS["z3_s"] += time.time() - t
        STATS["z3_queries"] += 1
        return r == z3.unsat

    def known(self, d, op):
        """is d op 0 decided by a recorded fact?  True/False/None"""
        k, sg = norm_key(d)
        f = self.facts.get(k)
        if not f:
            return None
        if sg < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        signs = {-1, 0, 1}
        for o in f:
            signs &= {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}[o]
        want = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}[op]
        if signs <= want:
            return True
        if not signs & want:
            return False
        return None

    def extend_pool(self, name, lo, hi):
        for env in self.pool:
            env[name] = draw_real(self.prng, lo, hi)

    def numval(self, d, env):
        try:
            v = d.evalf(env)
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            return None
        v = v.real
        return v if v == v else None

    def rel_holds(self, rel, env):
        """True / False / None (cannot be evaluated, or too close to call)"""
        if rel[0] in ("&", "|"):
            a, b = self.rel_holds(rel[1], env), self.rel_holds(rel[2], env)
            if rel[0] == "&":
                return False if a is False or b is False else (None if a is None or b is None else True)
            return True if a is True or b is True else (None if a is None or b is None else False)
        v = self.numval(rel[0], env)
        if v is None or abs(v) < 1e-9 and rel[1] not in ("==", "!="):
            return None
        return holds(v, rel[1])

    def filter_pool(self, rel):
        out = []
        for env in self.pool:
            if rel[0] in ("&", "|"):
                if self.rel_holds(rel, env):
                    out.append(env)
                continue
            v = self.numval(rel[0], env)
            if v is not None and holds(v, rel[1]):
                out.append(env)
        if len(out) < 6 and self.pool_ok:
            for _ in range(4):
                e = self.sample(self.prng, 150)
                if e is None:
                    break
                out.append(e)
            if len(out) < 2:
                self.pool_ok = False
        self.pool = out

    def pool_verdict(self, rel):
        """(some sample makes it true, some sample makes it false)"""
        t = f = False
        if rel[0] in ("&", "|"):
            for env in self.pool:
                h = self.rel_holds(rel, env)
                t, f = t or h is True, f or h is False
            return t, f
        d, op = rel
        for env in self.pool:
            v = self.numval(d, env)
            if v is None or abs(v) < 1e-9:
                continue
            if holds(v, op):
                t = True
            else:
                f = True
            if t and f:
                break
        return t, f

    # -- decisions
    def replaying(self, tag):
        """the recorded decision at this point (None when past the prefix); the tag must be the recorded one"""
        i = len(self.taken)
        if i >= len(self.prefix):
            return None
        k, t = self.prefix[i]
        if t != tag:
            raise Unsupported("the code did not behave the same way twice (decision %d)" % i)
        self.taken.append((k, [], tag))
        return (k,)

    def recorded(self, tag, compute):
        """a fact that a solver established (or did not, in its time): the same on every replay"""
        k = self.replaying(tag)
        if k is not None:
            return k[0]
        v = compute()
        self.taken.append((v, [], tag))
        return v

    def choose(self, options, tag=""):
        """fork over a finite list of python values"""
        n = len(options)
        k = self.replaying((tag, n))
        if k is not None:
            return options[k[0]]
        self.taken.append((0, list(range(1, n)), (tag, n)))
        return options[0]

    def branch(self, z, rel=None):
        if isinstance(z, bool):
            return z
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        tag = ("branch", where())
        k = self.replaying(tag)
        if k is not None:
            k = k[0]
            if k in (0, 1):
                self.add(z if k == 0 else z3.Not(z))
            self._note_branch(rel, k in (0, 2))
            return k in (0, 2)
        if len(self.taken) > 4000:
            raise Unsupported("too many decisions on one path")
        pt, pf = self.pool_verdict(rel) if rel is not None else (False, False)
        t, f = z3.sat if pt else None, z3.sat if pf else None
        if rel is not None and rel[0] not in ("&", "|"):
            if t is None and self.lin_refutes(*rel):
                t, f = z3.unsat, f or z3.sat
            elif f is None and self.lin_refutes(rel[0], NEG[rel[1]]):
                f, t = z3.unsat, t or z3.sat
        if t is None:
            t = self._check(z)
        if f is None:
            f = self._check(z3.Not(z))
        if t == z3.unsat and f == z3.unsat:
            raise PathEnd("infeasible")
        if t == z3.unsat:
            self.taken.append((3, [], tag))       # forced false
            self._note_branch(rel, False)
            return False
        if f == z3.unsat:
            self.taken.append((2, [], tag))       # forced true
            self._note_branch(rel, True)
            return True
        self.taken.append((0, [1], tag))
        self.add(z)
        self._note_branch(rel, True)
        return True

    def _note_branch(self, rel, val):
        if rel is None:
            return
        self.note_any(rel if val else neg_rel(rel))

    def implied(self, z, ms=500):
        def compute():
            self.solver.set("timeout", ms)
            r = self._check(z3.Not(z))
            self.solver.set("timeout", self.timeout)
            return r == z3.unsat
        return self.recorded(("implied", where()), compute)

    # -- real arithmetic hooks
    def nonzero(self, b):
        if b.is_const():
            return
        if len(b.p) == 1:
            (m, c), = b.p.items()
            if all(a in self.pos for a, _ in m):
                return
        c = cmp_rexpr(b, RExpr({}), "!=")
        if isinstance(c, SBool) and not isinstance(c.z, bool):
            if self.implied(c.z):
                return
            if self.div_policy == "fork":
                if not bool(c):
                    raise Unsupported("division by a value that may be zero")
                return
            self.assumed.add("denominators appearing in the computation are nonzero")
            self.note_rel(b, "!=")
            self.add(c.z)

    def div_zero(self, b):
        pass

    def sqrt_atom(self, r):
        if len(r.p) == 1:
            (m, c), = r.p.items()
            if not isinstance(c, complex) and c > 0 and all(e % 2 == 0 for _, e in m) \
                    and all(a in self.nn for a, _ in m):
                return RExpr({tuple((a, e // 2) for a, e in m): RExpr.const(c).sqrt().const_value()})
        cond = cmp_rexpr(r, RExpr({}), ">=")
        if isinstance(cond, SBool) and not isinstance(cond.z, bool):
            if not self.implied(cond.z):
                self.assumed.add("arguments of square roots are non-negative")
                self.note_rel(r, ">=")
                self.add(cond.z)
        e = RExpr.fn("sqrt", r)
        (m, _), = e.p.items()
        self.nn.add(m[0][0])
        return e

    # -- translation
    def zatom(self, a):
        if a in self.zvars:
            return self.zvars[a]
        at = ATOMS[a]
        z = z3.Real("%s" % at.name if at.kind == "var" else "a%d" % a)
        self.zvars[a] = z
        if at.kind == "def":
            self.add(z == self.zreal(at.arg))
        elif at.kind == "sqrt":
            self.add(z >= 0)
            self.add(z * z == self.zreal(at.arg))
        elif at.kind == "exp":
            self.add(z > 0)
        elif at.kind == "log":
            x = self.zreal(at.arg)
            self.add((z > 0) == (x > 1))
            self.add((z == 0) == (x == 1))
            self.add(z <= x - 1)
        elif at.kind in ("sin", "cos"):
            self.add(z >= -1)
            self.add(z <= 1)
        return z

    def zreal(self, e):
        """z3 term of a real RExpr"""
        terms = []
        for m, c in e.p.items():
            if isinstance(c, complex):
                c = c.real
                if c == 0:
                    continue
            t = z3.RealVal(Fraction(c) if not isinstance(c, float) else Fraction(c).limit_denominator(10**12))
            for a, k in m:
                z = self.zatom(a)
                if k > 0:
                    for _ in range(k):
                        t = t * z
                else:
                    for _ in range(-k):
                        t = t / z
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    # -- sampling of real inputs satisfying the numeric facts
    def sample(self, rng, tries=60):
        names = [n for n, (k, x) in self.inputs.items() if k == "real"]
        eqs = [rel[0] for rel in self.num if rel[1] == "=="]
        for _ in range(tries):
            env = {}
            for n in names:
                lo, hi = self.inputs[n][1]
                env[n] = draw_real(rng, lo, hi)
            if eqs:
                self.solve_eqs(eqs, env, rng)
            ok = True
            for rel in self.num:
                if rel[0] in ("&", "|"):
                    if not self.rel_holds(rel, env):
                        ok = False
                        break
                    continue
                d, op = rel
                try:
                    val = d.evalf(env).real
                except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                    ok = False
                    break
                if not {"<": val < 0, "<=": val <= 0, ">": val > 0, ">=": val >= 0,
                        "==": abs(val) < 1e-9, "!=": abs(val) > 1e-9}[op]:
                    ok = False
                    break
            if ok:
                return env
        return None

    def solve_eqs(self, eqs, env, rng):
        """make the equalities among the facts hold, each by one variable in which it is affine"""
        pivots = {}
        for _ in range(3):
            for i, d in enumerate(eqs):
                v0 = self.numval(d, env)
                if v0 is None:
                    return
                if abs(v0) < 1e-13:
                    continue
                cand = [pivots[i]] if i in pivots else self._pivots(d, env, pivots, rng)
                for n in cand:
                    old = env[n]
                    env[n] = 0.0
                    a = self.numval(d, env)
                    env[n] = 1.0
                    b = self.numval(d, env)
                    env[n] = old
                    if a is None or b is None or abs(b - a) < 1e-9:
                        continue
                    env[n] = -a / (b - a)
                    v1 = self.numval(d, env)
                    lo, hi = self.inputs[n][1]
                    if v1 is not None and abs(v1) < 1e-9 and (lo is None or env[n] >= lo) and (hi is None or env[n] <= hi):
                        pivots[i] = n
                        break
                    env[n] = old

    def _pivots(self, d, env, pivots, rng):
        used = set(pivots.values())
        out = sorted({ring.ATOMS[a].name for a in d.all_atoms() if ring.ATOMS[a].kind == "var"} & set(env))
        rng.shuffle(out)
        return [n for n in out if n not in used] + [n for n in out if n in used]

    def model_env(self, model):
        """values of the inputs from a z3 model"""
        env = {}
        for n, (k, x) in self.inputs.items():
            if k == "int":
                val = model.eval(self.ivars[n], model_completion=True)
                env[n] = val.as_long()
            elif k == "bool":
                env[n] = z3.is_true(model.eval(self.ivars[n], model_completion=True))
            elif k == "real":
                a = ring._atom("var", n, n)
                if a in self.zvars:
                    val = model.eval(self.zvars[a], model_completion=True)
                    try:
                        env[n] = float(val.as_fraction())
                    except AttributeError:
                        try:
                            env[n] = float(val.approx(20).as_fraction())
                        except AttributeError:
                            env[n] = 0.5
            elif k == "choice":
                env[n] = x
            elif k == "ilist":
                f, num = x
                num = model.eval(num, model_completion=True).as_long()
                if num <= 200:
                    env[n] = [model.eval(f(i), model_completion=True).as_long() for i in range(num)]
        return env


def neg_rel(rel):
    if rel[0] in ("&", "|"):
        return ("|" if rel[0] == "&" else "&", neg_rel(rel[1]), neg_rel(rel[2]))
    return (rel[0], NEG[rel[1]])


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def draw_real(rng, lo, hi):
    if lo is None and hi is None:
        x = rng.uniform(-1.5, 1.5)
        r = rng.random()
        return x if r < 0.8 else x * 10 ** rng.uniform(-4, 0)
    if hi is None:
        return lo + rng.expovariate(1.0) + 1e-3
    if lo is None:
        return hi - rng.expovariate(1.0) - 1e-3
    return rng.uniform(lo, hi)


def holds(val, op):
    return {"<": val < 0, "<=": val <= 1e-12, ">": val > 0, ">=": val >= -1e-12,
            "==": abs(val) < 1e-9, "!=": abs(val) > 1e-9}[op]


def norm_key(d):
    """(key of d scaled to a fixed leading coefficient, sign of the scaling)"""
    if not d.p:
        return (), 1
    lead = min(d.p)
    c = d.p[lead]
    if isinstance(c, complex):
        return d.key(), 1
    a = abs(c)
    sg = 1 if c > 0 else -1
    return tuple(sorted((m, round(float(x) / a * sg, 9)) if not isinstance(x, complex) else (m, x) for m, x in d.p.items())), sg


# ---------------------------------------------------------------- symbolic booleans and integers

class SBool:
    __slots__ = ("z", "rel")
    __array_ufunc__ = None

    def __init__(self, z, rel=None):
        self.z = z
        self.rel = rel

    def __bool__(self):
        return ctx().branch(self.z, self.rel)

    @staticmethod
    def _z(x):
        if isinstance(x, SBool):
            return x.z if not isinstance(x.z, bool) else z3.BoolVal(x.z)
        if z3.is_expr(x):
            return x
        return z3.BoolVal(bool(x))

    def _rel2(self, o, k):
        r = o.rel if isinstance(o, SBool) else None
        return (k, self.rel, r) if self.rel is not None and r is not None else None

    def __and__(self, o): return SBool(z3.And(SBool._z(self), SBool._z(o)), self._rel2(o, "&"))
    def __or__(self, o): return SBool(z3.Or(SBool._z(self), SBool._z(o)), self._rel2(o, "|"))
    def __xor__(self, o): return SBool(z3.Xor(SBool._z(self), SBool._z(o)))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return SBool(z3.Not(SBool._z(self)), None if self.rel is None else neg_rel(self.rel))
    def implies(self, o): return SBool(z3.Implies(SBool._z(self), SBool._z(o)))
    def __eq__(self, o): return SBool(SBool._z(self) == SBool._z(o))
    def __ne__(self, o): return SBool(SBool._z(self) != SBool._z(o))
    def __hash__(self): return hash(bool(self))
    def __int__(self): return int(bool(self))
    __index__ = __int__
    def __float__(self): return float(bool(self))
    def __repr__(self): return "SBool(%s)" % (self.z,)
    # arithmetic on a truth value
    def _i(self): return SInt(z3.If(SBool._z(self), z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mod__(self, o): return self._i() % o


def Not(x):
    return ~x if isinstance(x, SBool) else not x


def And(*xs):
    r = True
    for x in xs:
        if isinstance(x, SBool):
            r = x if r is True else (x & r)
        elif not x:
            return False
    return r


def Or(*xs):
    r = False
    for x in xs:
        if isinstance(x, SBool):
            r = x if r is False else (x | r)
        elif x:
            return True
    return r


def Implies(a, b):
    return Or(Not(a), b)


class SInt:
    """a mathematical integer"""
    __slots__ = ("z",)
    __array_ufunc__ = None
    __array_priority__ = 10001

    def __init__(self, z):
        self.z = z

    @staticmethod
    def lift(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return x._i()
        if isinstance(x, bool):
            return SInt(z3.IntVal(int(x)))
        if isinstance(x, int):
            return SInt(z3.IntVal(x))
        if hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype.kind in "iub":
            return SInt(z3.IntVal(int(x)))
        if isinstance(x, float) and x == int(x):
            return SInt(z3.IntVal(int(x)))
        return None

    def _b(self, o, f):
        import numpy as np
        if isinstance(o, np.ndarray) and o.shape != ():
            out = np.empty(o.shape, dtype=object)
            for i, e in np.ndenumerate(o):
                out[i] = f(self, SInt.lift(e))
            return out
        if isinstance(o, RExpr):
            return NotImplemented
        y = SInt.lift(o)
        if y is None:
            return NotImplemented
        return f(self, y)

    def __add__(self, o): return self._b(o, lambda a, b: SInt(z3.simplify(a.z + b.z)))
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: SInt(z3.simplify(a.z - b.z)))
    def __rsub__(self, o): return self._b(o, lambda a, b: SInt(z3.simplify(b.z - a.z)))
    def __mul__(self, o): return self._b(o, lambda a, b: SInt(z3.simplify(a.z * b.z)))
    __rmul__ = __mul__
    def __neg__(self): return SInt(z3.simplify(-self.z))
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.z >= 0, self.z, -self.z))
    def __floordiv__(self, o): return self._b(o, lambda a, b: _idiv(a, b)[0])
    def __rfloordiv__(self, o): return self._b(o, lambda a, b: _idiv(b, a)[0])
    def __mod__(self, o): return self._b(o, lambda a, b: _idiv(a, b)[1])
    def __rmod__(self, o): return self._b(o, lambda a, b: _idiv(b, a)[1])
    def __divmod__(self, o): return self._b(o, lambda a, b: _idiv(a, b))

    def __truediv__(self, o):
        return self.to_rexpr() / (o.to_rexpr() if isinstance(o, SInt) else o)

    def __rtruediv__(self, o):
        return o / self.to_rexpr()

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = SInt(z3.IntVal(1))
            for _ in range(n):
                r = r * self
            return r
        return self.__index__() ** n

    def __rpow__(self, b): return b ** self.__index__()
    def __lshift__(self, o): return self * 2 ** (o if isinstance(o, int) else o.__index__())
    def __rshift__(self, o): return self // 2 ** (o if isinstance(o, int) else o.__index__())

    def __and__(self, o):
        if isinstance(o, int) and o == 1:
            return self % 2
        return self.__index__() & (o if isinstance(o, int) else o.__index__())

    def __lt__(self, o): return self._b(o, lambda a, b: SBool(a.z < b.z))
    def __le__(self, o): return self._b(o, lambda a, b: SBool(a.z <= b.z))
    def __gt__(self, o): return self._b(o, lambda a, b: SBool(a.z > b.z))
    def __ge__(self, o): return self._b(o, lambda a, b: SBool(a.z >= b.z))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, slice)):
            return False
        return self._b(o, lambda a, b: SBool(a.z == b.z))

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, slice)):
            return True
        return self._b(o, lambda a, b: SBool(a.z != b.z))

    def __bool__(self):
        return ctx().branch(self.z != 0)

    def concrete(self):
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        return None

    def __index__(self):
        """fork on the value: complete when finitely many values are possible"""
        c = ctx()
        v = self.concrete()
        if v is not None:
            return v
        tag = ("index", where())
        for _ in range(400):
            rk = c.replaying(tag)
            if rk is not None:
                k, val = rk[0]
                if k == "eq":
                    c.add(self.z == val)
                    return val
                if k == "only":
                    return val
                c.add(self.z != val)
                continue
            if c._check() != z3.sat:
                raise PathEnd("infeasible")
            val = self._small(c, c.solver.model())
            if c._check(self.z != val) == z3.unsat:
                c.taken.append((("only", val), [], tag))
                return val
            c.taken.append((("eq", val), [("ne", val)], tag))
            c.add(self.z == val)
            return val
        raise Unsupported("an integer with too many possible values was needed concretely")

    def _small(self, c, m):
        # smallest feasible |value| among a short list, then the model's (z3 is deterministic for equal inputs)
        for v in range(0, 9):
            if c._check(self.z == v) == z3.sat:
                return v
        return m.eval(self.z, model_completion=True).as_long()

    __int__ = __index__

    def __hash__(self):
        v = self.concrete()
        return hash(v if v is not None else self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return "SInt(%s)" % self.z

    def to_rexpr(self):
        v = self.concrete()
        if v is not None:
            return RExpr.const(v)
        name = "int:%s" % self.z
        e = RExpr.var(name)
        (m, _), = e.p.items()
        a = m[0][0]
        c = ctx()
        if a not in c.zvars:
            c.zvars[a] = z3.ToReal(self.z)
        return e

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self
    def item(self): return self
    def is_integer(self): return True


def _idiv(a, b):
    """python floor division and remainder"""
    bc = b.concrete()
    if bc is None:
        if bool(SBool(b.z == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bool(SBool(b.z > 0)):
            from . import loops
            if not loops.LOOP:
                c = ctx()
                key = (a.z.get_id(), b.z.get_id())
                if key not in c.divs:
                    c.fresh += 1
                    q, r = z3.Int("q!%d" % c.fresh), z3.Int("r!%d" % c.fresh)
                    c.add(z3.And(a.z == b.z * q + r, r >= 0, r < b.z, z3.Implies(a.z >= 0, q >= 0),
                                 z3.Implies(a.z >= b.z, q >= 1), z3.Implies(a.z < b.z, q <= 0)))
                    c.divs[key] = (q, r, a.z, b.z)
                return SInt(c.divs[key][0]), SInt(c.divs[key][1])
            return SInt(a.z / b.z), SInt(a.z % b.z)
        q = (-a.z) / (-b.z)
        return SInt(q), SInt(z3.simplify(a.z - b.z * q))
    if bc == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if bc > 0:
        return SInt(z3.simplify(a.z / b.z)), SInt(z3.simplify(a.z % b.z))
    q = (-a.z) / (-b.z)
    return SInt(z3.simplify(q)), SInt(z3.simplify(a.z - b.z * q))


def cmp_rexpr(a, b, op):
    if not isinstance(b, RExpr):          # +-inf
        if b > 0:
            return op in ("<", "<=", "!=")
        return op in (">", ">=", "!=")
    d = a - b
    if d.is_const():
        c = d.const_value()
        if isinstance(c, complex):
            if op in ("==", "!="):
                z = abs(c) < 1e-12
                return z if op == "==" else not z
            c = c.real
        if not isinstance(c, (int, Fraction)) and abs(c) < 1e-12:
            c = 0
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    k = ctx()
    if not d.is_real():
        if op not in ("==", "!="):
            raise Unsupported("ordering of complex symbolic values")
        if ring.is_zero(d):
            return op == "=="
        re, im = cmp_rexpr(d.real, RExpr({}), "=="), cmp_rexpr(d.imag, RExpr({}), "==")
        z = And(re, im)
        return z if op == "==" else Not(z)
    d = d.real
    if op in ("==", "!=") and ring.is_zero(d, 1e-12):
        return op == "=="
    # sign analysis: all atoms positive, all coefficients of one sign
    if k.pos or k.nn:
        known_pos = all(all(a in k.pos or (e % 2 == 0 and a in k.pos) for a, e in m) for m in d.p)
        known_nn = all(all(a in k.nn or (e > 0 and e % 2 == 0) for a, e in m) for m in d.p)
        if known_pos or known_nn:
            sg = {(1 if c > 0 else -1) for c in d.p.values()}
            if len(sg) == 1:
                s = sg.pop()
                if known_pos:
                    return {"<": s < 0, "<=": s < 0, ">": s > 0, ">=": s > 0, "==": False, "!=": True}[op]
                if s > 0 and op == ">=" or s < 0 and op == "<=":
                    return True
                if s > 0 and op == "<" or s < 0 and op == ">":
                    return False
    kn = k.known(d, op)
    if kn is not None:
        return kn
    z = k.zreal(d)
    zz = {"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[op]
    return SBool(zz, (d, op))


# ---------------------------------------------------------------- verification conditions

class VC:
    __slots__ = ("name", "status", "backend", "env", "detail", "path")

    def __init__(self, name, status, backend, env=None, detail="", path=None):
        self.name, self.status, self.backend, self.env, self.detail, self.path = \
            name, status, backend, env, detail, path


def prove_bool(name, cond):
    """obligation: the path condition implies cond"""
    c = ctx()
    if not isinstance(cond, SBool):
        import numpy as np
        if isinstance(cond, (np.bool_,)):
            cond = bool(cond)
        if isinstance(cond, (RExpr, SInt)):
            cond = cond != 0
        elif not isinstance(cond, bool):
            cond = bool(cond)
    if isinstance(cond, bool) or isinstance(cond.z, bool):
        val = cond if isinstance(cond, bool) else cond.z
        if val:
            return VC(name, "proved", "eval")
        # need a model of the path
        r = c._check()
        if r == z3.unsat:
            return VC(name, "proved", "z3", detail="path infeasible")
        env = c.model_env(c.solver.model()) if r == z3.sat else {}
        return VC(name, "refuted" if r == z3.sat else "unknown", "eval", env, "the condition is false on a feasible path")
    g = z3.simplify(z3.Not(cond.z))
    r = c._check(g)
    if r == z3.unsat:
        return VC(name, "proved", "z3")
    if r == z3.sat:
        m = c.solver.model()
        # prefer a small counterexample for integers
        env = c.model_env(m)
        small = _small_model(c, g)
        if small is not None:
            env = small
        return VC(name, "refuted", "z3", env, "counterexample from z3 for: %s" % str(cond.z)[:300])
    s = cvc5_check(c.pc + [g])
    if s == "unsat":
        return VC(name, "proved", "cvc5")
    return VC(name, "unknown", "z3+cvc5", None, "both solvers gave up on: %s" % str(cond.z)[:300])


def _small_model(c, g):
    ints = [z for n, z in c.ivars.items() if c.inputs[n][0] == "int"]
    if not ints:
        return None
    for b in (4, 16, 64):
        extra = [z3.And(z <= b, z >= -b) for z in ints]
        if c._check(g, *extra) == z3.sat:
            return c.model_env(c.solver.model())
    return None


def cvc5_check(facts, tlimit=10000):
    """second opinion through SMT-LIB text, in a child process (its own time limit is not always honoured)"""
    t = time.time()
    STATS["cvc5_queries"] += 1
    s = z3.Solver()
    s.add(*facts)
    text = s.to_smt2()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, _cvc5_run(text, tlimit).encode()[:4000])
        finally:
            os._exit(0)
    os.close(w)
    out = "unknown:timeout"
    try:
        if select.select([r], [], [], tlimit / 1000.0 + 2)[0]:
            out = os.read(r, 4096).decode() or "unknown:died"
        return out
    finally:
        os.close(r)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
        STATS["cvc5_s"] += time.time() - t


def _cvc5_run(text, tlimit):
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit", str(tlimit))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        out = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            r = str(cmd.invoke(slv, sm)).strip()
            if r in ("sat", "unsat", "unknown"):
                out = r
        return out
    except Exception as e:          # the second solver is optional
        return "unknown:%s" % e


def prove_zero(name, d, rng, scale=1.0, tol=1e-9):
    """obligation: the RExpr d is zero on this path"""
    c = ctx()
    t = time.time()
    if ring.is_zero(d, tol, scale):
        STATS["ring_s"] += time.time() - t
        return VC(name, "proved", "ring")
    STATS["ring_s"] += time.time() - t
    # numeric refutation first
    for _ in range(12):
        env = c.sample(rng)
        if env is None:
            break
        try:
            val = d.evalf(env)
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            continue
        if abs(val) > 1e-6 * max(1.0, scale):
            env = dict(env)
            for n, (k, x) in c.inputs.items():
                if k == "choice":
                    env[n] = x
            return VC(name, "refuted", "ring", env, "the two sides differ by %.6g at the sample; difference: %s"
                      % (abs(val), str(d)[:300]))
    # semantic: use the path condition
    zs = [c.zreal(d.real)] + ([c.zreal(d.imag)] if not d.is_real() else [])
    eps = z3.RealVal(Fraction(1, 10 ** 7))
    g = z3.Or([z3.Or(z > eps, z < -eps) for z in zs])
    r = c._check(g)
    if r == z3.unsat:
        return VC(name, "proved", "z3")
    if r == z3.sat:
        env = c.model_env(c.solver.model())
        return VC(name, "refuted", "z3", env, "counterexample from z3; difference: %s" % str(d)[:300])
    if cvc5_check(c.pc + [g]) == "unsat":
        return VC(name, "proved", "cvc5")
    return VC(name, "unknown", "ring+z3+cvc5", None, "undecided: %s" % str(d)[:300])


def explore(fn, max_paths=2000, deadline=None, timeout_ms=4000):
    """run fn(ctx) once per feasible path (depth first over recorded decisions).
    Yields (ctx, outcome, payload); outcome in ok, infeasible, unsupported, exception, budget."""
    stack = [()]
    n = 0
    while stack:
        if n >= max_paths or (deadline and time.time() > deadline):
            yield None, "budget", "%d paths explored, at least %d left" % (n, len(stack))
            return
        prefix = stack.pop()
        ring.reset()
        c = Ctx(prefix, deadline, timeout_ms)
        _CTX[0] = c
        n += 1
        try:
            try:
                fn(c)
                out, pay = "ok", None
            except PathEnd as e:
                out, pay = "infeasible", str(e)
            except Unsupported as e:
                out, pay = "unsupported", str(e)
            except Budget as e:
                out, pay = "budget", str(e)
            except ring.NotRing as e:
                out, pay = "unsupported", str(e)
            except z3.Z3Exception as e:
                out, pay = "unsupported", "z3: %s" % e
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:
                import traceback
                out, pay = "exception", (e, traceback.format_exc())
            # siblings
            base = []
            alts = []
            for k, others, tag in c.taken:
                for o in others:
                    alts.append(tuple(base) + ((o, tag),))
                base.append((k, tag))
            stack.extend(reversed(alts) if False else alts)
            yield c, out, pay
        finally:
            _CTX[0] = None

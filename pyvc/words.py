"""Symbolic small integers as tuples of bits, each bit a polynomial over the two-element field (algebraic normal form).
Sums, products, remainders modulo 2 and 4, halving and exclusive-or are computed exactly; an interval tells when the
two bits kept are the whole value."""
import time
import numpy as np
import z3
from .core import SInt, SBool, Unsupported, STATS, ctx, VC, prove_bool, where
from .symnp import ShadowNP, SymArray, to_sym, has_sym

K = 2                     # bits kept: everything is exact modulo 4
ZERO, ONE = frozenset(), frozenset([0])
VARS = []                 # variable index -> z3 Bool
NAMES = {}
LIMIT = 60000


def var(name):
    if name not in NAMES:
        NAMES[name] = len(VARS)
        VARS.append(z3.Bool(name))
    return frozenset([1 << NAMES[name]])


def xor(a, b): return a ^ b


def conj(a, b):
    if not a or not b:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    if len(a) * len(b) > LIMIT * 8:
        raise Unsupported("a bit polynomial got too large")
    out = set()
    for m in a:
        for n in b:
            t = m | n
            if t in out:
                out.remove(t)
            else:
                out.add(t)
    if len(out) > LIMIT:
        raise Unsupported("a bit polynomial got too large")
    return frozenset(out)


_Z = {}


def to_z3(b):
    if not b:
        return z3.BoolVal(False)
    if b == ONE:
        return z3.BoolVal(True)
    r = _Z.get(b)
    if r is None:
        terms = []
        neg = False
        for m in sorted(b):
            if m == 0:
                neg = True
                continue
            fs = [VARS[i] for i in range(m.bit_length()) if m >> i & 1]
            terms.append(fs[0] if len(fs) == 1 else z3.And(fs))
        r = terms[0]
        for t in terms[1:]:
            r = z3.Xor(r, t)
        if neg:
            r = z3.Not(r)
        if len(_Z) > 20000:
            _Z.clear()
        _Z[b] = r
    return r


def bits_of(n, k=K):
    return tuple(ONE if n >> i & 1 else ZERO for i in range(k))


class WBool(SBool):
    """the statement that bit polynomials vanish"""
    __slots__ = ("zero", "expected")

    def __init__(self, zero, expected=False):
        self.zero, self.expected = list(zero), expected
        self.rel = None

    @property
    def z(self):
        return z3.And([z3.Not(to_z3(b)) for b in self.zero])

    def __and__(self, o):
        if isinstance(o, WBool):
            return WBool(self.zero + o.zero, self.expected and o.expected)
        return SBool(z3.And(SBool._z(self), SBool._z(o)))
    __rand__ = __and__

    def __invert__(self):
        if len(self.zero) == 1:
            return WBool([xor(self.zero[0], ONE)])
        return SBool(z3.Not(self.z))

    def certified(self):
        """by certificates, then by a propositional solver; the name of the back end, or None"""
        rest = [b for b in self.zero if not in_ideal(b)]
        if not rest:
            return "anf"
        c = ctx()

        def compute():
            t = time.time()
            s = z3.SolverFor("QF_FD")
            s.set("timeout", c.timeout)
            s.add(c.pc)
            s.add(z3.Or([to_z3(b) for b in rest]))
            r = s.check() == z3.unsat
            STATS["z3_s"] += time.time() - t
            STATS["z3_queries"] += 1
            return r
        if any(not prop(f) for f in c.pc):
            return None
        return "sat" if c.recorded(("sat", where()), compute) else None

    def note(self, val=True):
        c = ctx()
        a = c.__dict__.setdefault("anf", [])
        if val:
            a.extend(b for b in self.zero if b not in a)
        elif len(self.zero) == 1:
            a.append(xor(self.zero[0], ONE))

    def __bool__(self):
        if self.expected and self.certified():
            return True
        r = ctx().branch(self.z)
        self.note(r)
        return r


def prop(f):
    """only propositional variables"""
    key = f.get_id()
    if key not in _PROP:
        _PROP[key] = (z3.is_bool(f) and (f.num_args() == 0 or f.decl().kind() in
                      (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_XOR, z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_IMPLIES))
                      and all(z3.is_bool(a) and prop(a) for a in f.children()), f)
    return _PROP[key][0]


_PROP = {}


def product(f, m):
    out = set()
    for t in f:
        t |= m
        if t in out:
            out.remove(t)
        else:
            out.add(t)
    return frozenset(out)


def in_ideal(g, rounds=2, maxrows=6000):
    """is g a combination of the assumed polynomials? (linear algebra over their multiples: a certificate)"""
    if not g:
        return True
    c = ctx()
    facts = c.__dict__.get("anf", [])
    cache = c.__dict__.setdefault("anf_cache", {})
    key = (g, len(facts))
    if key in cache:
        return cache[key]
    cache[key] = r = _in_ideal(g, facts, rounds, maxrows)
    return r


def _in_ideal(g, facts, rounds, maxrows):
    return (_in_span(g, facts, 1, 30000, False) or _in_span(g, facts, rounds, 30000, False)
            or _in_span(g, facts, rounds, maxrows, True))


def _in_span(g, facts, rounds, maxrows, full):
    # facts of one variable are substituted, the others multiplied by what is missing from the monomials of the goal
    if len(g) > 4000:
        return False
    basis = {}                    # leading monomial -> polynomial (reduced rows)

    def reduce(p):
        p = set(p)
        out = set()
        while p:
            l = max(p)
            q = basis.get(l)
            if q is None:
                out.add(l)
                p.discard(l)
            else:
                p ^= q
        return out
    rows = set()
    todo = set(g)
    done = set()
    rest = set(g)
    for _ in range(rounds):
        new = []
        for m in todo:
            for fi, f in enumerate(facts):
                for t in f:
                    if t and t & m == t:
                        for mult in ({m & ~t, m} if full else (m & ~t,)):
                            if (fi, mult) not in rows:
                                rows.add((fi, mult))
                                new.append(product(f, mult))
            if len(rows) > maxrows:
                return False
        done |= todo
        nxt = set()
        for p in new:
            nxt |= p
            q = set(p)
            while q:
                l = max(q)
                b = basis.get(l)
                if b is None:
                    basis[l] = q
                    break
                q ^= b
                q = set(q)
        rest = reduce(g)
        if not rest:
            return True
        todo = nxt - done
    return False


def sbool(b):
    if not b:
        return False
    if b == ONE:
        return True
    return WBool([xor(b, ONE)])      # "b is one" is "b + 1 vanishes"


class SWord(SInt):
    __slots__ = ("b", "lo", "hi")

    def __init__(self, b, lo, hi):
        self.b, self.lo, self.hi = b, lo, hi

    @property
    def z(self):
        self._need()
        return z3.Sum([z3.If(to_z3(x), z3.IntVal(1 << i), z3.IntVal(0)) for i, x in enumerate(self.b)])

    def _need(self):
        if self.lo < 0 or self.hi >= 1 << len(self.b):
            raise Unsupported("the whole value of a word with range [%s, %s]" % (self.lo, self.hi))

    @staticmethod
    def of(x):
        if isinstance(x, SWord):
            return x
        if isinstance(x, SBool):
            return None
        if isinstance(x, (bool, np.bool_)):
            x = int(x)
        if isinstance(x, (float, np.floating)) and x == int(x):
            x = int(x)
        if isinstance(x, (int, np.integer)):
            x = int(x)
            return SWord(bits_of(x), x, x)
        return None

    def _w(self, o, f):
        if isinstance(o, np.ndarray) and o.shape != ():
            out = np.empty(o.shape, dtype=object)
            for i, e in np.ndenumerate(o):
                out[i] = self._w(e, f)
            return out.view(SymArray)
        if isinstance(o, np.ndarray):
            o = o[()]
        y = SWord.of(o)
        if y is None:
            if isinstance(o, SInt):
                raise Unsupported("a word with a general integer")
            return NotImplemented
        return f(self, y)

    def concrete(self):
        if all(x in (ZERO, ONE) for x in self.b) and (self.lo == self.hi or 0 <= self.lo and self.hi < 1 << len(self.b)):
            return self.lo if self.lo == self.hi else sum((x == ONE) << i for i, x in enumerate(self.b))
        return None

    def __add__(self, o): return self._w(o, _add)
    __radd__ = __add__
    def __neg__(self): return _neg(self)
    def __sub__(self, o): return self._w(o, lambda a, b: _add(a, _neg(b)))
    def __rsub__(self, o): return self._w(o, lambda a, b: _add(b, _neg(a)))
    def __mul__(self, o): return self._w(o, _mul)
    __rmul__ = __mul__
    def __abs__(self):
        if self.lo >= 0:
            return self
        raise Unsupported("abs of a word")

    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and o in (2, 4):
            k = 1 if o == 2 else 2
            if len(self.b) < k:
                raise Unsupported("remainder modulo %d of a halved word" % o)
            if 0 <= self.lo and self.hi < o:
                return self
            b = self.b[:k] + (ZERO,) * (K - k)
            return _norm(SWord(b, 0, int(o) - 1))
        raise Unsupported("remainder of a word modulo %s" % o)

    def __floordiv__(self, o):
        if isinstance(o, (int, np.integer)) and o == 2:
            return _norm(SWord(self.b[1:], self.lo // 2, self.hi // 2))
        raise Unsupported("quotient of a word by %s" % o)

    def __rshift__(self, o):
        return self // 2 if o == 1 else self.__index__() >> o

    def __xor__(self, o):
        def f(a, b):
            a._need()
            b._need()
            n = max(len(a.b), len(b.b))
            x, y = a.b + (ZERO,) * (n - len(a.b)), b.b + (ZERO,) * (n - len(b.b))
            return _norm(SWord(tuple(xor(p, q) for p, q in zip(x, y)), 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1))
        return self._w(o, f)
    __rxor__ = __xor__

    def __and__(self, o):
        if isinstance(o, (int, np.integer)) and o == 1:
            return self % 2
        raise Unsupported("and of a word")

    def _cmp(self, o):
        """bits of the difference, or None when the ranges do not meet"""
        a, b = self, SWord.of(o)
        if a.hi < b.lo or b.hi < a.lo:
            return None
        a._need()
        b._need()
        n = max(len(a.b), len(b.b))
        x, y = a.b + (ZERO,) * (n - len(a.b)), b.b + (ZERO,) * (n - len(b.b))
        return [xor(p, q) for p, q in zip(x, y)]

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, slice)):
            return False

        def f(a, b):
            d = a._cmp(b)
            if d is None or ONE in d:
                return False
            d = [x for x in d if x]
            return WBool(d) if d else True
        return self._w(o, f)

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, np.ndarray):
            return ~r
        return (not r) if isinstance(r, bool) else r if r is NotImplemented else ~r

    def _ord(self, o, f):
        def g(a, b):
            if f(a.hi, b.lo) and f(a.lo, b.hi) and f(a.lo, b.lo) and f(a.hi, b.hi):
                return True
            if not (f(a.hi, b.lo) or f(a.lo, b.hi) or f(a.lo, b.lo) or f(a.hi, b.hi)):
                return False
            return f(a.__index__(), b.__index__())
        return self._w(o, g)

    def __lt__(self, o): return self._ord(o, lambda x, y: x < y)
    def __le__(self, o): return self._ord(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._ord(o, lambda x, y: x > y)
    def __ge__(self, o): return self._ord(o, lambda x, y: x >= y)

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        v = self.concrete()
        if v is not None:
            return v
        self._need()
        return sum(int(bool(sbool(x))) << i for i, x in enumerate(self.b))

    __int__ = __index__

    def __hash__(self): return hash(self.__index__())
    def __float__(self): return float(self.__index__())
    def __repr__(self): return "SWord(%s..%s)" % (self.lo, self.hi)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def is_integer(self): return True
    def to_rexpr(self): raise Unsupported("a word in real arithmetic")


def _norm(w):
    """a Python int when nothing symbolic is left and the value is certain"""
    v = w.concrete()
    return v if v is not None else w


def _add(a, b):
    n = min(len(a.b), len(b.b))
    c, out = ZERO, []
    for i in range(n):
        x, y = a.b[i], b.b[i]
        s = xor(x, y)
        out.append(xor(s, c))
        if i + 1 < n:
            c = xor(conj(x, y), conj(c, s)) if c else conj(x, y)
    return _norm(SWord(tuple(out), a.lo + b.lo, a.hi + b.hi))


def _neg(a):
    # two's complement: invert and add one
    n = len(a.b)
    inv = SWord(tuple(xor(x, ONE) for x in a.b), 0, (1 << n) - 1)
    r = SWord.of(_add(inv, SWord(bits_of(1, n), 1, 1)))
    return SWord(r.b, -a.hi, -a.lo)


def _mul(a, b):
    n = min(len(a.b), len(b.b))
    lo = min(x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi))
    hi = max(x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi))
    acc = [ZERO] * n
    for i in range(n):
        if not a.b[i]:
            continue
        c = ZERO
        for j in range(n - i):
            t = conj(a.b[i], b.b[j])
            x = acc[i + j]
            s = xor(x, t)
            acc[i + j] = xor(s, c)
            c = xor(conj(x, t), conj(c, s)) if c else conj(x, t)
    return _norm(SWord(tuple(acc), lo, hi))


def word(name, bits=1):
    b = tuple(var("%s.%d" % (name, i)) for i in range(bits)) + (ZERO,) * (K - bits)
    return SWord(b, 0, (1 << bits) - 1)


def equal(label, x, y):
    """obligation x == y"""
    if not isinstance(x, SWord):
        x, y = y, x
    x, y = SWord.of(x), SWord.of(y)
    if y is None:
        return prove_bool(label, False)
    if x.lo >= 0 and y.lo >= 0 and max(x.hi, y.hi) < 1 << min(len(x.b), len(y.b)) or x.lo == x.hi == y.lo == y.hi:
        if x.b[:len(y.b)] == y.b[:len(x.b)]:
            return VC(label, "proved", "anf")
        e = x == y
        w = e.certified() if isinstance(e, WBool) else None
        if w:
            return VC(label, "proved", w)
        return prove_bool(label, e)
    raise Unsupported("comparison of words that are not reduced")


class WordNP(ShadowNP):
    """numpy stand-in for modules whose integer arrays hold words"""

    def zeros(self, shape, dtype=None, order="C", **k):
        return to_sym(np.zeros(shape, int))

    empty = zeros

    def ones(self, shape, dtype=None, **k): return to_sym(np.ones(shape, int))
    def eye(self, n, *a, **k): return to_sym(np.eye(n, dtype=int))
    def identity(self, n, dtype=None): return to_sym(np.eye(n, dtype=int))

    def array(self, x, dtype=None, *a, **k):
        if isinstance(x, SymArray):
            return x.copy()
        a = np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x
        if a.dtype == object and not has_sym(a) or a.dtype.kind in "iufb":
            b = np.array(a.tolist()) if a.size else a
            if b.dtype.kind not in "iufb":
                return np.array(x, dtype)
            if b.dtype.kind == "f" and np.array_equal(b, np.round(b)):
                b = b.astype(int)
            return to_sym(b) if dtype is not None else b
        return to_sym(a).copy()

    def nonzero(self, x): return np.nonzero(np.array([bool(e != 0) for e in np.asarray(x, object).flat], dtype=bool).reshape(np.shape(x)))
    def asarray(self, x, dtype=None, *a, **k): return x if isinstance(x, SymArray) else self.array(x)
    def copy(self, x, *a, **k): return self.array(x)
    def append(self, a, b, axis=None): return to_sym(np.append(np.asarray(a, object), np.asarray(b, object), axis))
    def round(self, x, *a): return x if has_sym(x) else np.round(x, *a)
    round_ = round

    def bmat(self, rows):
        return to_sym(np.block([[np.asarray(x, dtype=object) for x in r] for r in rows]))

    def array_equal(self, a, b):
        if np.shape(a) != np.shape(b):
            return False
        r = []
        for x, y in zip(np.asarray(a, object).flat, np.asarray(b, object).flat):
            e = x == y
            if e is False or isinstance(e, np.bool_) and not e:
                return False
            if isinstance(e, SBool):
                r += e.zero
        return WBool(r, True) if r else True

    def bitwise_xor(self, a, b): return to_sym(a) ^ to_sym(b)
    def any(self, x, *a, **k): return any(bool(e) for e in np.asarray(x, object).flat)
    def diag(self, x): return to_sym(np.array([x[i, i] for i in range(len(x))], dtype=object)) if np.ndim(x) == 2 else np.diag(x)


    @property
    def linalg(self): return _Linalg()

    @linalg.setter
    def linalg(self, x): pass


class _Linalg:
    def __getattr__(self, n): return getattr(np.linalg, n)

    def multi_dot(self, ms):
        r = ms[0]
        for m in ms[1:]:
            r = np.dot(r, m)
        return r


WORDS = WordNP()

"""Exact/float-coefficient Laurent polynomials over registered atoms: the scalars the numeric code of pyGSTi is
executed on.  Every atom denotes a REAL number.  Atom kinds:

  var            an input
  def(p)         a name for a multi-term polynomial p, so that 1/p is the monomial def(p)^-1
  sqrt(p)        non-negative root; exponents are reduced with sqrt(p)^2 = p
  log(p) exp(p) sin(p) cos(p) uf(name, args)    uninterpreted, with derivative rules where they have one
"""
import math
from fractions import Fraction

PRUNE = 1e-14     # coefficients below this (floats only) are dropped while normalising

ATOMS = []        # id -> Atom
_INDEX = {}       # (kind, key) -> id


class Atom:
    __slots__ = ("id", "kind", "name", "arg", "args", "sign")

    def __init__(self, id, kind, name, arg=None, args=None):
        self.id, self.kind, self.name, self.arg, self.args = id, kind, name, arg, args

    def __repr__(self):
        return self.name


def _atom(kind, key, name, arg=None, args=None):
    k = (kind, key)
    if k in _INDEX:
        return _INDEX[k]
    a = Atom(len(ATOMS), kind, name, arg, args)
    ATOMS.append(a)
    _INDEX[k] = a.id
    return a.id


def reset():
    ATOMS.clear()
    _INDEX.clear()
    SPECIAL.clear()


SPECIAL = set()   # atom ids with rewriting rules (sqrt, sin)


class NotRing(Exception):
    pass


def is_num(x):
    return isinstance(x, (int, float, complex, Fraction)) or (hasattr(x, "dtype") and getattr(x, "shape", None) == ())


def num(x):
    """canonical coefficient: int/Fraction when exact, else float/complex"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if hasattr(x, "item") and not isinstance(x, (float, complex)):
        x = x.item()
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
    if isinstance(x, complex):
        if x.imag == 0:
            x = x.real
        else:
            return complex(x)
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise NotRing("non-finite number %r met a symbolic value" % (x,))
    if x == int(x) and abs(x) < 2**40:
        return int(x)
    y = x * 1024
    if y == int(y) and abs(y) < 2**30:
        return Fraction(int(y), 1024)
    return x


def _small(c):
    if isinstance(c, (int, Fraction)):
        return c == 0
    return abs(c) < PRUNE


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + (c if s == 1 else -c)
        if _small(n):
            r.pop(m, None)
        else:
            r[m] = n
    return r


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                r.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    if i < la:
        r.extend(a[i:])
    if j < lb:
        r.extend(b[j:])
    return tuple(r)


def _needs(m):
    for a, e in m:
        if a in SPECIAL:
            k = ATOMS[a].kind
            if k == "sqrt" and (e > 1 or e < 0):
                return True
            if k == "sin" and e > 1:
                return True
    return False


def _norm_mono(m):
    """rewrite one monomial with special atoms; returns a polynomial dict"""
    for idx, (a, e) in enumerate(m):
        if a in SPECIAL:
            at = ATOMS[a]
            rest = m[:idx] + m[idx + 1:]
            if at.kind == "sqrt" and (e > 1 or e < 0):
                k, r = divmod(e, 2)          # s^e = (s^2)^k * s^r, r in {0,1}
                base = at.arg.p
                if k < 0:
                    base = _inv_poly(base)
                    k = -k
                out = {rest: 1}
                if r:
                    out = _pmul(out, {((a, 1),): 1})
                for _ in range(k):
                    out = _pmul(out, base)
                return out
            if at.kind == "sin" and e > 1:
                c = _atom("cos", at.arg.key(), "cos(%s)" % at.arg, at.arg)
                out = {rest: 1}
                if e % 2:
                    out = _pmul(out, {((a, 1),): 1})
                for _ in range(e // 2):
                    out = _pmul(out, {(): 1, ((c, 2),): -1})
                return out
    return {m: 1}


def _pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    extra = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            c = c1 * c2
            if SPECIAL and _needs(m):
                extra.append((m, c))
                continue
            n = r.get(m)
            r[m] = c if n is None else n + c
    for m in [m for m, c in r.items() if _small(c)]:
        del r[m]
    for m, c in extra:
        r = _padd(r, {k: v * c for k, v in _norm_mono(m).items()})
    return r


def _inv_poly(p):
    """polynomial dict of 1/p (introduces a def atom for multi-term p)"""
    if not p:
        raise ZeroDivisionError("division by a symbolic value that is identically zero")
    if len(p) == 1:
        (m, c), = p.items()
        inv = tuple((a, -e) for a, e in m)
        if isinstance(c, int):
            c = Fraction(1, c)
        else:
            c = 1 / c
        if isinstance(c, Fraction) and c.denominator == 1:
            c = int(c)
        r = {inv: c}
        if SPECIAL and _needs(inv):
            r = {k: v * c for k, v in _norm_mono(inv).items()}
        return r
    # make the leading coefficient 1 so that proportional denominators share an atom; also pull out the common monomial
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items() if d.get(a, 0) != 0}
            for a, e in d.items():
                pass
    common = {a: e for a, e in (common or {}).items() if e != 0 and all((dict(m).get(a, 0)) >= e for m in p) and e > 0}
    cm = tuple(sorted(common.items()))
    neg = {}
    for m in p:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    shift = dict(cm)
    for a, e in neg.items():
        shift[a] = shift.get(a, 0) + e
    sh = tuple(sorted((a, e) for a, e in shift.items() if e))
    if sh:
        ish = tuple((a, -e) for a, e in sh)
        q = _pmul(p, {ish: 1})
    else:
        q = p
    if len(q) == 1:
        r = _inv_poly(q)
    else:
        lead = min(q)
        lc = q[lead]
        if isinstance(lc, (int, Fraction)):
            f = Fraction(1) / lc
            q = {m: (c * f if not isinstance(c * f, Fraction) or (c * f).denominator != 1 else int(c * f))
                 for m, c in q.items()}
        else:
            f = 1 / lc
            q = {m: c * f for m, c in q.items()}
        e = RExpr(q)
        d = _atom("def", e.key(), "def(%s)" % e, e)
        r = {((d, -1),): f}
    if sh:
        r = _pmul(r, {tuple((a, -e) for a, e in sh): 1})
    return r


LAZY_ABS = [False]       # absolute values as sqrt(x*x) instead of a case split (a unit asks for it)


class RExpr:
    __slots__ = ("p", "_k")
    __array_priority__ = 10000.0
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p
        self._k = None

    # -- construction
    @staticmethod
    def const(c):
        c = num(c)
        return RExpr({} if _small(c) else {(): c})

    @staticmethod
    def var(name):
        return RExpr({((_atom("var", name, name), 1),): 1})

    @staticmethod
    def fun(name, derivs):
        """an opaque differentiable function value with given partial derivatives {variable RExpr: RExpr}"""
        i = _atom("var", name, name)
        ATOMS[i].args = {}
        for x, d in derivs:
            (m, _), = x.p.items()
            ATOMS[i].args[m[0][0]] = d if isinstance(d, RExpr) else RExpr.const(d)
        return RExpr({((i, 1),): 1})

    @staticmethod
    def fn(kind, arg, name=None):
        if not isinstance(arg, RExpr):
            arg = RExpr.const(arg)
        i = _atom(kind, arg.key(), "%s(%s)" % (name or kind, arg), arg)
        if kind in ("sqrt", "sin"):
            SPECIAL.add(i)
        return RExpr({((i, 1),): 1})

    @staticmethod
    def uf(name, *args):
        args = tuple(a if isinstance(a, RExpr) else RExpr.const(a) for a in args)
        i = _atom("uf", (name,) + tuple(a.key() for a in args), "%s(%s)" % (name, ",".join(map(str, args))), None, args)
        return RExpr({((i, 1),): 1})

    # -- inspection
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, (round(c.real, 9), round(c.imag, 9)) if isinstance(c, complex)
                                     else (round(float(c), 9), 0.0)) for m, c in self.p.items())))
        return self._k

    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const_value(self):
        return self.p.get((), 0)

    def atoms(self):
        s = set()
        for m in self.p:
            for a, _ in m:
                s.add(a)
        return s

    def all_atoms(self):
        s, todo = set(), list(self.atoms())
        while todo:
            a = todo.pop()
            if a in s:
                continue
            s.add(a)
            at = ATOMS[a]
            if isinstance(at.args, dict):
                todo.extend(at.args)
                continue
            for x in ([at.arg] if at.arg is not None else []) + list(at.args or ()):
                todo.extend(x.atoms())
        return s

    def maxcoef(self):
        return max([abs(c) for c in self.p.values()], default=0.0)

    def __str__(self):
        if not self.p:
            return "0"
        out = []
        for m, c in sorted(self.p.items(), key=lambda t: str(t[0]))[:12]:
            cs = "%g" % float(c) if not isinstance(c, complex) else "(%g%+gj)" % (c.real, c.imag)
            out.append(cs + "".join("*" + ATOMS[a].name + ("" if e == 1 else "^%d" % e) for a, e in m))
        return " + ".join(out) + (" + ...(%d terms)" % len(self.p) if len(self.p) > 12 else "")

    __repr__ = __str__

    # -- arithmetic
    @staticmethod
    def _c(x):
        if isinstance(x, RExpr):
            return x
        if is_num(x):
            return RExpr.const(x)
        from .core import SInt, SBool
        if isinstance(x, SInt):
            return x.to_rexpr()
        if isinstance(x, SBool):
            return RExpr.const(1 if bool(x) else 0)
        return None

    def _bin(self, x, f, rev=False):
        import numpy as np
        if isinstance(x, np.ndarray) and x.shape != ():
            from .symnp import SymArray
            out = np.empty(x.shape, dtype=object)
            for i, e in np.ndenumerate(x):
                out[i] = f(self, RExpr._c(e)) if not rev else f(RExpr._c(e), self)
            return out.view(SymArray)
        if isinstance(x, np.ndarray):
            x = x[()]
        y = RExpr._c(x)
        if y is None:
            return NotImplemented
        return f(self, y) if not rev else f(y, self)

    def __add__(self, x): return self._bin(x, lambda a, b: RExpr(_padd(a.p, b.p)))
    def __radd__(self, x): return self._bin(x, lambda a, b: RExpr(_padd(a.p, b.p)))
    def __sub__(self, x): return self._bin(x, lambda a, b: RExpr(_padd(a.p, b.p, -1)))
    def __rsub__(self, x): return self._bin(x, lambda a, b: RExpr(_padd(a.p, b.p, -1)), True)
    def __mul__(self, x): return self._bin(x, lambda a, b: RExpr(_pmul(a.p, b.p)))
    def __rmul__(self, x): return self._bin(x, lambda a, b: RExpr(_pmul(a.p, b.p)))
    def __truediv__(self, x): return self._bin(x, _div)
    def __rtruediv__(self, x): return self._bin(x, _div, True)
    def __neg__(self): return RExpr({m: -c for m, c in self.p.items()})
    def __pos__(self): return self

    def __pow__(self, n):
        if isinstance(n, RExpr) and n.is_const():
            n = n.const_value()
        if hasattr(n, "item"):
            n = n.item()
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, int):
            r = RExpr({(): 1})
            b = self if n >= 0 else _div(RExpr({(): 1}), self)
            n = abs(n)
            while n:
                if n & 1:
                    r = r * b
                b = b * b if n > 1 else b
                n >>= 1
            return r
        if n == 0.5 or n == Fraction(1, 2):
            return self.sqrt()
        from .core import Unsupported
        raise Unsupported("symbolic power %r" % (n,))

    def __rpow__(self, b):
        from .core import Unsupported
        raise Unsupported("symbolic exponent")

    def conjugate(self):
        if not any(isinstance(c, complex) for c in self.p.values()):
            return self
        return RExpr({m: (c.conjugate() if isinstance(c, complex) else c) for m, c in self.p.items()})

    conj = conjugate

    @property
    def real(self):
        if not any(isinstance(c, complex) for c in self.p.values()):
            return self
        r = {m: (c.real if isinstance(c, complex) else c) for m, c in self.p.items()}
        return RExpr({m: num(c) for m, c in r.items() if not _small(c)})

    @property
    def imag(self):
        return RExpr({m: num(c.imag) for m, c in self.p.items() if isinstance(c, complex) and not _small(c.imag)})

    def is_real(self):
        return all(not isinstance(c, complex) or abs(c.imag) < 1e-12 for c in self.p.values())

    def sqrt(self):
        from .core import ctx, Unsupported
        if self.is_const():
            c = self.const_value()
            if isinstance(c, complex):
                import cmath
                return RExpr.const(cmath.sqrt(c))
            if c < 0:
                if c > -1e-12:
                    return RExpr({})
                raise Unsupported("sqrt of a negative constant")
            r = math.isqrt(c) if isinstance(c, int) else None
            if r is not None and r * r == c:
                return RExpr.const(r)
            return RExpr.const(math.sqrt(c))
        # pull perfect squares of atoms out of a monomial: sqrt(a^2 b) = |a| sqrt(b); only when sign is decided
        r = self.real
        return ctx().sqrt_atom(r)

    def log(self): return ctx_fn("log", self)
    def exp(self): return ctx_fn("exp", self)
    def sin(self): return RExpr.fn("sin", self) if not self.is_const() else RExpr.const(math.sin(self.const_value()))
    def cos(self): return RExpr.fn("cos", self) if not self.is_const() else RExpr.const(math.cos(self.const_value()))

    def __abs__(self):
        if self.is_const():
            return RExpr.const(abs(self.const_value()))
        if not self.is_real():
            return (self.real * self.real + self.imag * self.imag).sqrt()
        r = self.real
        if LAZY_ABS[0]:
            from .core import ctx
            e = RExpr.fn("sqrt", r * r)
            (m, _), = e.p.items()
            ctx().nn.add(m[0][0])
            return e
        return r if bool(r >= 0) else -r

    # -- comparisons (fork through SBool)
    def _cmp(self, x, op):
        from .core import cmp_rexpr
        import numpy as np
        if isinstance(x, np.ndarray) and x.shape != ():
            out = np.empty(x.shape, dtype=bool)
            for i, e in np.ndenumerate(x):
                out[i] = bool(cmp_rexpr(self, RExpr._c(e), op))
            return out
        y = RExpr._c(x) if not (isinstance(x, float) and x in (math.inf, -math.inf)) else x
        if y is None:
            return NotImplemented
        return cmp_rexpr(self, y, op)

    def __lt__(self, x): return self._cmp(x, "<")
    def __le__(self, x): return self._cmp(x, "<=")
    def __gt__(self, x): return self._cmp(x, ">")
    def __ge__(self, x): return self._cmp(x, ">=")

    def __eq__(self, x):
        if x is None or isinstance(x, (str, tuple, list)):
            return False
        return self._cmp(x, "==")

    def __ne__(self, x):
        if x is None or isinstance(x, (str, tuple, list)):
            return True
        return self._cmp(x, "!=")

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __float__(self):
        if self.is_const():
            c = self.const_value()
            if not isinstance(c, complex):
                return float(c)
        from .core import Unsupported, ctx
        if ctx() is not None and ctx().lenient_float:
            return math.nan        # only for log messages: a NaN that met a symbolic value again would raise NotRing
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return complex(self.const_value())
        from .core import Unsupported
        raise Unsupported("complex() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        from .core import Unsupported
        raise Unsupported("int() of a symbolic value")

    def __round__(self, n=None):
        from .core import Unsupported
        raise Unsupported("round() of a symbolic value")

    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # -- calculus
    def diff(self, var):
        """exact derivative with respect to variable atom id (chain rule through function atoms)"""
        res = RExpr({})
        for m, c in self.p.items():
            for idx, (a, e) in enumerate(m):
                da = atom_diff(a, var)
                if da is None:
                    continue
                rest = m[:idx] + (((a, e - 1),) if e != 1 else ()) + m[idx + 1:]
                t = RExpr(_pmul({rest: c * e}, {(): 1})) if not _needs(rest) else \
                    RExpr({k: v * c * e for k, v in _norm_mono(rest).items()})
                res = res + t * da
        return res

    def subs(self, env):
        """replace variable atoms (id -> number/RExpr)"""
        res = RExpr({})
        for m, c in self.p.items():
            t = RExpr({(): c})
            for a, e in m:
                at = ATOMS[a]
                if a in env:
                    b = env[a]
                    b = b if isinstance(b, RExpr) else RExpr.const(b)
                elif at.kind == "var":
                    b = RExpr({((a, 1),): 1})
                elif at.kind == "def":
                    b = at.arg.subs(env)
                else:
                    if at.kind == "uf":
                        b = RExpr.uf(at.name.split("(")[0], *[x.subs(env) for x in at.args])
                    else:
                        b = RExpr.fn(at.kind, at.arg.subs(env))
                t = t * (b ** e)
            res = res + t
        return res

    def evalf(self, env):
        """numeric value for env: variable name -> float"""
        tot = 0.0
        for m, c in self.p.items():
            t = complex(c)
            for a, e in m:
                t *= eval_atom(a, env) ** e
            tot += t
        return tot


def ctx_fn(kind, e):
    if e.is_const():
        return RExpr.const(getattr(math, kind)(e.const_value()))
    if kind == "exp":
        r = _exp_of_logs(e)
        if r is not None:
            return r
    return RExpr.fn(kind, e.real)


def _exp_of_logs(e):
    """exp(sum of integer multiples of logarithms [+ constant]) as a product (the arguments of logarithms are positive)"""
    r = RExpr.const(1)
    for m, c in e.p.items():
        if m == ():
            r = r * math.exp(c)
            continue
        if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != "log" or isinstance(c, complex) or c != int(c):
            return None
        x = ATOMS[m[0][0]].arg
        for _ in range(abs(int(c))):
            r = r * x if c > 0 else r / x
    return r


def eval_atom(a, env):
    at = ATOMS[a]
    if at.kind == "var":
        return env[at.name]
    if at.kind == "uf":
        raise KeyError(at.name)
    x = at.arg.evalf(env)
    if at.kind == "def":
        return x
    import cmath
    return getattr(cmath, at.kind)(x)


def _div(a, b):
    if b.is_const():
        c = b.const_value()
        if c == 0:
            from .core import ctx
            ctx().div_zero(b)
            raise ZeroDivisionError("symbolic division by zero")
        if isinstance(c, int):
            c = Fraction(1, c)
        else:
            c = 1 / c
        r = {}
        for m, x in a.p.items():
            y = x * c
            if isinstance(y, Fraction) and y.denominator == 1:
                y = int(y)
            r[m] = y
        return RExpr(r)
    from .core import ctx
    c = ctx()
    if c is not None:
        c.nonzero(b)
    if not b.is_real():
        n2 = b.real * b.real + b.imag * b.imag
        return RExpr(_pmul((a * b.conjugate()).p, _inv_poly(n2.p)))
    return RExpr(_pmul(a.p, _inv_poly(b.p)))


def atom_diff(a, var):
    if a == var:
        return RExpr({(): 1})
    at = ATOMS[a]
    if at.kind == "var":
        return at.args.get(var) if at.args else None
    if at.kind == "uf":
        for x in at.args:
            if var in x.all_atoms():
                from .core import Unsupported
                raise Unsupported("derivative of uninterpreted %s" % at.name)
        return None
    d = at.arg.diff(var)
    if not d.p:
        return None
    one = RExpr({(): 1})
    if at.kind == "def":
        return d
    if at.kind == "log":
        return _rawdiv(d, at.arg)
    if at.kind == "exp":
        return d * RExpr({((a, 1),): 1})
    if at.kind == "sin":
        return d * RExpr.fn("cos", at.arg)
    if at.kind == "cos":
        return -d * RExpr.fn("sin", at.arg)
    if at.kind == "sqrt":
        return _rawdiv(d, RExpr({((a, 1),): 2}))
    raise NotRing(at.kind)


def _rawdiv(a, b):
    return RExpr(_pmul(a.p, _inv_poly(b.p)))


def clear_defs(e, limit=6):
    """Expand def atoms: multiply by def^k until no negative def exponent is left, then substitute def -> polynomial.
    The result is zero iff e is zero wherever the denominators are nonzero."""
    for _ in range(limit):
        neg = {}
        for m in e.p:
            for a, x in m:
                if ATOMS[a].kind == "def":
                    neg[a] = min(neg.get(a, 0), x)
        if not neg:
            return e
        # the outermost (latest created) first
        a = max(neg)
        k = -neg[a] if neg[a] < 0 else 0
        out = {}
        base = ATOMS[a].arg.p
        powers = {0: {(): 1}}
        def power(n):
            if n not in powers:
                powers[n] = _pmul(power(n - 1), base)
            return powers[n]
        for m, c in e.p.items():
            d = dict(m)
            x = d.pop(a, 0) + k
            out = _padd(out, _pmul({tuple(sorted(d.items())): c}, power(x)))
        e = RExpr(out)
    return e


def is_zero(e, tol=1e-9, scale=None):
    """decide e == 0 as a ring identity with coefficient tolerance"""
    if not e.p:
        return True
    s = max(1.0, scale or 1.0)
    if all(abs(c) <= tol * s for c in e.p.values()):
        return True
    if any(ATOMS[a].kind == "def" for a in e.atoms()):
        e2 = clear_defs(e)
        if not e2.p:
            return True
        return all(abs(c) <= tol * s for c in e2.p.values())
    return False

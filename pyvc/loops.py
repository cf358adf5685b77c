"""Unbounded loops.

The functions named in a contract are taken from /repo's source on every run, by name, and their loops are given a
meaning that covers every iteration at once:

  comprehensions and list(range(..))   the element expression is evaluated once for an arbitrary index; the result is a
                                       list of symbolic length whose k-th element is that expression at index k
  for loops whose body only stores     "parallel" rule: the body runs once for an arbitrary element, the stores into
  into dictionaries                    dictionaries are kept as families of stores, and every local that the body assigns
                                       is unusable at the start of the body and after the loop
  while loops and other for loops      invariant rule: the contract supplies the invariant and how to forget the
                                       variables that the body assigns; obligations: it holds on entry, every iteration
                                       preserves it (and decreases the variant, when one is given)

What the extraction drops: decorators and docstrings.  Everything else is executed as written."""
import ast
import contextlib
import inspect
import textwrap
import types
import z3
import numpy as _np
from . import core
from .core import SInt, SBool, Unsupported, PathEnd, ctx, prove_bool, VC, And, Or, Not


# ---------------------------------------------------------------- helpers

def _fresh(name):
    c = ctx()
    c.fresh += 1
    return z3.Int("%s!%d" % (name, c.fresh))


def zint(x):
    s = SInt.lift(x)
    if s is None:
        raise Unsupported("an integer was expected, got %s" % type(x).__name__)
    return s.z


def subst(val, pairs):
    if isinstance(val, SInt):
        return SInt(z3.simplify(z3.substitute(val.z, *pairs)))
    if isinstance(val, SBool):
        return SBool(z3.substitute(val.z, *pairs)) if not isinstance(val.z, bool) else val
    if isinstance(val, slice):
        return slice(subst(val.start, pairs), subst(val.stop, pairs), subst(val.step, pairs))
    if isinstance(val, (tuple, list)):
        return type(val)(subst(x, pairs) for x in val)
    if isinstance(val, LazyList):
        return LazyList(subst(val.n, pairs), lambda k, g=val.get: subst(g(k), pairs))
    if val is None or isinstance(val, (int, float, str, bool, _np.integer)):
        return val
    raise Unsupported("a loop produces values of type %s" % type(val).__name__)


def merge(c, a, b):
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool):
        return SInt(z3.simplify(z3.If(c, zint(a), zint(b))))
    if isinstance(a, slice) and isinstance(b, slice):
        return slice(merge(c, a.start, b.start), merge(c, a.stop, b.stop), merge(c, a.step, b.step))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if a is None and b is None:
        return None
    return a if bool(SBool(c)) else b


def eq_val(a, b):
    """symbolic equality of values"""
    if isinstance(a, slice) and isinstance(b, slice):
        return And(eq_val(a.start, b.start), eq_val(a.stop, b.stop), eq_val(a.step, b.step))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and And(*[eq_val(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return a == b


class LazyList:
    """a list of symbolic length"""
    __array_ufunc__ = None

    def __init__(self, n, get):
        self.n = n if isinstance(n, SInt) else SInt(z3.IntVal(n))
        self.get = get

    @staticmethod
    def of(x):
        if isinstance(x, LazyList):
            return x
        if isinstance(x, range):
            return LazyList(len(x), lambda k: SInt.lift(x.start) + k * x.step)
        if isinstance(x, (list, tuple)):
            items = list(x)

            def get(k):
                c = k.concrete() if isinstance(k, SInt) else k
                if c is not None:
                    return items[c]
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = merge(zint(k) == j, items[j], r)
                return r
            return LazyList(len(items), get)
        raise Unsupported("iteration over %s" % type(x).__name__)

    def small(self):
        return self.n.concrete()

    def __sym_len__(self):
        return self.n

    def __len__(self):
        return self.n.__index__()

    def __bool__(self):
        return bool(self.n > 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("stepped slice of a symbolic list")
            a = 0 if k.start is None else k.start
            b = self.n if k.stop is None else k.stop
            a, b = _clip(a, self.n), _clip(b, self.n)
            m = s_max(b - a, 0)
            return LazyList(m, lambda i, g=self.get: g(a + i))
        if isinstance(k, int) and k < 0 or isinstance(k, SInt) and bool(k < 0):
            k = self.n + k
        k = SInt.lift(k)
        if k is None:
            raise TypeError("list indices must be integers")
        if not bool(And(k >= 0, k < self.n)):
            raise IndexError("list index out of range")
        return self.get(k)

    def __add__(self, o):
        o = LazyList.of(o)
        n1 = self.n
        if n1.concrete() == 0:
            return o
        if o.n.concrete() == 0:
            return self
        g1, g2 = self.get, o.get

        def get(k):
            k = SInt.lift(k)
            c = z3.simplify(k.z < n1.z)
            if z3.is_true(c):
                return g1(k)
            if z3.is_false(c):
                return g2(k - n1)
            if core.ctx().solver.check(z3.Not(c)) == z3.unsat:
                return g1(k)
            if core.ctx().solver.check(c) == z3.unsat:
                return g2(k - n1)
            return merge(c, g1(k), g2(k - n1))
        return LazyList(n1 + o.n, get)

    def __radd__(self, o):
        return LazyList.of(o) + self

    def __iadd__(self, o):
        r = self + o
        self.n, self.get = r.n, r.get
        return self

    def append(self, x):
        if LOOP and LOOP[-1][0] == "par":
            raise Unsupported("append inside a loop without an invariant")
        r = self + LazyList(1, lambda k: x)
        self.n, self.get = r.n, r.get

    def extend(self, xs):
        self.__iadd__(xs)

    def copy(self):
        return LazyList(self.n, self.get)

    def __eq__(self, o):
        if not isinstance(o, (LazyList, list, range)):
            return False
        o = LazyList.of(o)
        k = _fresh("q")
        e = eq_val(self.get(SInt(k)), o.get(SInt(k)))
        return SBool(z3.And(self.n.z == o.n.z, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n.z), SBool._z(e)))))

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic list")

    def __iter__(self):
        # reached only from code that is not instrumented
        for k in range(self.n.__index__()):
            yield self.get(SInt.lift(k))

    def __repr__(self):
        return "LazyList(%s)" % self.n


def _clip(a, n):
    a = SInt.lift(a)
    c = a.concrete()
    if c is not None and c >= 0:
        return s_min(a, n)
    return SInt(z3.simplify(z3.If(a.z < 0, z3.If(a.z + n.z < 0, z3.IntVal(0), a.z + n.z), z3.If(a.z > n.z, n.z, a.z))))


class SymDict:
    """dict written under loops: families of stores"""

    def __init__(self, init=()):
        self.fams = []         # (bound vars, domain condition, key, value)
        for k, v in dict(init).items():
            self[k] = v

    def __setitem__(self, k, v):
        bound, dom = [], []
        for kind, vs, d in LOOP:
            if kind != "par":
                raise Unsupported("a dictionary store inside a loop with an invariant")
            bound += vs
            dom += d
        self.fams.append((bound, z3.And(dom) if dom else z3.BoolVal(True), k, v))

    def update(self, o):
        if LOOP:
            raise Unsupported("dict.update inside a loop")
        if isinstance(o, SymDict):
            self.fams += o.fams
        else:
            for k, v in o.items():
                self[k] = v

    def writers(self):
        """(fresh copies of) the families: [(vars, domain, key, value)]"""
        out = []
        for bound, dom, k, v in self.fams:
            new = [_fresh("w") for _ in bound]
            pairs = list(zip(bound, new))
            out.append((new, z3.substitute(dom, *pairs) if pairs else dom,
                        subst(k, pairs) if pairs else k, subst(v, pairs) if pairs else v))
        return out

    def __getitem__(self, k):
        raise Unsupported("lookup in a symbolic dictionary")


LOOP = []       # stack of ("par", [vars], [conds]) / ("inv", [], [])


# ---------------------------------------------------------------- shadow builtins

class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def lazy(self):
        a, b, s = SInt.lift(self.a), SInt.lift(self.b), SInt.lift(self.s)
        sc = s.concrete()
        if sc is None:
            if bool(s == 0):
                raise ValueError("range() arg 3 must not be zero")
            n = (b - a + s - 1) // s if bool(s > 0) else (a - b - s - 1) // (-s)
        elif sc == 0:
            raise ValueError("range() arg 3 must not be zero")
        elif sc > 0:
            n = (b - a + (sc - 1)) // sc if sc != 1 else b - a
        else:
            n = (a - b + (-sc - 1)) // (-sc)
        return LazyList(s_max(n, 0), lambda k: a + s * k)

    def __sym_len__(self):
        return self.lazy().n

    def __iter__(self):
        return iter(self.lazy())

    def __len__(self):
        return len(self.lazy())

    def __getitem__(self, i):
        return self.lazy()[i]


def _issym(x):
    return isinstance(x, SInt) and x.concrete() is None


def s_range(*args):
    if not any(_issym(a) for a in args):
        return range(*[a.concrete() if isinstance(a, SInt) else a for a in args])
    a, b, s = (0, args[0], 1) if len(args) == 1 else (args + (1,))[:3]
    return SymRange(a, b, s)


def s_len(x):
    if isinstance(x, (LazyList, SymRange)):
        return x.__sym_len__()
    return len(x)


def s_list(x=()):
    if isinstance(x, SymRange):
        return x.lazy()
    if isinstance(x, LazyList):
        return x.copy()
    return list(x)


def s_max(*a):
    if len(a) == 2 and (isinstance(a[0], SInt) or isinstance(a[1], SInt)):
        x, y = zint(a[0]), zint(a[1])
        return SInt(z3.simplify(z3.If(y > x, y, x)))
    return max(*a)


def s_min(*a):
    if len(a) == 2 and (isinstance(a[0], SInt) or isinstance(a[1], SInt)):
        x, y = zint(a[0]), zint(a[1])
        return SInt(z3.simplify(z3.If(y < x, y, x)))
    return min(*a)


def s_isinstance(x, t):
    ts = tuple(_REAL.get(x, x) for x in (t if isinstance(t, tuple) else (t,)))
    if isinstance(x, SInt) and int in ts:
        return True
    if isinstance(x, LazyList) and list in ts:
        return True
    return isinstance(x, ts)


def s_int(x=0, *a):
    return x if isinstance(x, SInt) else int(x, *a)


def s_sum(x, *a):
    if isinstance(x, LazyList):
        raise Unsupported("sum over a symbolic list")
    return sum(x, *a)


BUILTINS = {"range": s_range, "len": s_len, "list": s_list, "max": s_max, "min": s_min, "isinstance": s_isinstance,
            "int": s_int, "sum": s_sum}
_REAL = {s_int: int, s_list: list, s_range: range}


# ---------------------------------------------------------------- the rules

def to_lazy(x):
    if isinstance(x, SymRange):
        return x.lazy()
    if isinstance(x, LazyList):
        return x
    return None


def comp_list(elt, it, kind):
    """[elt(x) for x in it]"""
    lz = to_lazy(it)
    if lz is None or lz.n.concrete() is not None:
        src = it if lz is None else [lz.get(SInt.lift(i)) for i in range(lz.n.concrete())]
        if kind == "dict":
            d = dict(elt(x) for x in src)
            return d
        return [elt(x) for x in src]
    if not bool(lz.n > 0):
        return SymDict() if kind == "dict" else LazyList(0, None)
    c = ctx()
    k = _fresh("k")
    dom = [k >= 0, k < lz.n.z]
    c.add(z3.And(dom))
    n0 = len(c.taken)
    LOOP.append(("par", [k], dom))
    try:
        val = elt(lz.get(SInt(k)))
    finally:
        LOOP.pop()
    if any(isinstance(t[0], int) and t[0] in (0, 1) for t in c.taken[n0:]):
        raise Unsupported("a decision inside a comprehension over a symbolic range")
    if kind == "dict":
        d = SymDict()
        d.fams.append(([k], z3.And(dom), val[0], val[1]))
        return d
    return LazyList(lz.n, lambda j: subst(val, [(k, zint(j))]))


class Poison:
    def _x(self, *a, **k):
        raise Unsupported("a local of a loop is used outside the iteration that assigns it")
    __getattr__ = __add__ = __radd__ = __sub__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __bool__ = _x
    __getitem__ = __iter__ = __len__ = __index__ = __call__ = __rmul__ = __rsub__ = __floordiv__ = _x
    __hash__ = None


POISON = Poison()


def par_loop(it):
    """for x in it, parallel rule"""
    lz = to_lazy(it)
    if lz is None:
        yield from it
        return
    if lz.n.concrete() is not None:
        for i in range(lz.n.concrete()):
            yield lz.get(SInt.lift(i))
        return
    if not bool(lz.n > 0):
        return
    c = ctx()
    k = _fresh("k")
    dom = [k >= 0, k < lz.n.z]
    c.add(z3.And(dom))
    n0 = len(c.taken)
    LOOP.append(("par", [k], dom))
    try:
        yield lz.get(SInt(k))
    finally:
        LOOP.pop()
    if any(isinstance(t[0], int) and not isinstance(t[0], bool) and t[0] in (0, 1) for t in c.taken[n0:]):
        raise Unsupported("a decision inside a parallel loop")


class InvLoop:
    """the invariant rule for one execution of a loop"""

    def __init__(self, spec, v, name):
        self.spec, self.v, self.name, self.state = spec, v, name, 0

    def top(self, names, vals):
        try:
            return self._top(names, vals)
        except Exception as e:
            raise Unsupported("the contract's invariant does not fit this loop: %s: %s" % (type(e).__name__, e))

    def _top(self, names, vals):
        env = dict(zip(names, vals))
        env = {k: (None if x is POISON else x) for k, x in env.items()}
        c = ctx()
        if self.state == 0:
            self.state = 1
            self.spec.entry(self.v, env)
            for lab, cond in self.spec.inv(self.v, env):
                self.v.check("%s: invariant '%s' holds on entry" % (self.name, lab), cond)
            new = self.spec.havoc(self.v, env)
            env = dict(env)
            env.update(new)
            for lab, cond in self.spec.inv(self.v, env):
                self.v.assume(cond)
            self.var0 = self.spec.variant(self.v, env)
            self.start = env
            return [env[n] for n in names]
        for lab, cond in self.spec.inv(self.v, env):
            self.v.check("%s: invariant '%s' is preserved" % (self.name, lab), cond)
        v1 = self.spec.variant(self.v, env)
        if v1 is not None:
            self.v.check("%s: the variant decreases" % self.name, And(v1 < self.var0, self.var0 >= 0))
        raise PathEnd("end of the arbitrary iteration")


class LoopSpec:
    """how a contract describes one loop of a function"""

    def entry(self, v, env):
        pass

    def inv(self, v, env):
        return []

    def havoc(self, v, env):
        return {}

    def variant(self, v, env):
        return None


# ---------------------------------------------------------------- source transformation

class Stores(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and f.attr in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "add"):
            if f.value.id not in self.names:
                self.names.append(f.value.id)
        self.generic_visit(n)

    def visit_Lambda(self, n):
        pass

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_ListComp(self, n):
        pass
    visit_DictComp = visit_SetComp = visit_GeneratorExp = visit_ListComp


def stored(nodes):
    s = Stores()
    for n in nodes:
        s.visit(n)
    return s.names


def stored_calls(nodes):
    s = Stores()
    s.visit_Name = lambda n: None
    for n in nodes:
        s.visit(n)
    return s.names


def _name(i, c=None):
    return ast.Name(i, c or ast.Load())


def _call(f, *a):
    return ast.Call(_name(f), list(a), [])


def _const(x):
    return ast.Constant(x)


class Rewrite(ast.NodeTransformer):
    def __init__(self, fname, invs):
        self.fname, self.invs = fname, invs
        self.nloop = 0
        self.inv_depth = 0

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].ifs:
            return n
        g = n.generators[0]
        return _call("__pyvc_comp", self._lam(g.target, n.elt), g.iter, _const("list"))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].ifs:
            return n
        g = n.generators[0]
        return _call("__pyvc_comp", self._lam(g.target, ast.Tuple([n.key, n.value], ast.Load())), g.iter, _const("dict"))

    def _lam(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        names = [e.id for e in target.elts]
        inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)
        return ast.Lambda(ast.arguments([], [ast.arg("__t")], None, [], [], None, []),
                          ast.Call(inner, [ast.Starred(_name("__t"), ast.Load())], []))

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys:
            return _call("__pyvc_dict")
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts:
            return _call("__pyvc_emptylist")
        return n

    def visit_For(self, n):
        idx = self.nloop
        self.nloop += 1
        spec = idx in self.invs
        names = stored(n.body)
        tnames = stored([n.target])
        self.generic_visit(n)
        if spec:
            # index-based loop with an invariant
            kv, lv, sv = "__k%d" % idx, "__l%d" % idx, "__s%d" % idx
            vs = [kv] + [x for x in names if x not in tnames]
            pre = [ast.Assign([_name(sv, ast.Store())], _call("__pyvc_lazy", n.iter)),
                   ast.Assign([_name(kv, ast.Store())], _const(0)),
                   ast.Assign([_name(lv, ast.Store())], _call("__pyvc_inv", _const(idx), _const(self.fname)))]
            top = self._top(lv, vs)
            test = ast.If(ast.UnaryOp(ast.Not(), ast.Compare(_name(kv), [ast.Lt()], [_call("len", _name(sv))])),
                          list(n.orelse) + [ast.Break()], [])
            get = ast.Assign([n.target], ast.Subscript(_name(sv), _name(kv), ast.Load()))
            inc = ast.AugAssign(_name(kv, ast.Store()), ast.Add(), _const(1))
            loop = ast.While(_const(True), top + [test, get, inc] + n.body, [])
            return self._guard(names, pre) + pre + [loop]
        muts = stored_calls(n.body)
        poison = [ast.If(_call("__pyvc_sym", _name("__it%d" % idx)),
                         [ast.Assign([_name(x, ast.Store())], _name("__pyvc_poison")) for x in names if x not in tnames and x not in muts]
                         or [ast.Pass()], [])]
        poison2 = [ast.If(_call("__pyvc_sym", _name("__it%d" % idx)),
                          [ast.Assign([_name(x, ast.Store())], _name("__pyvc_poison")) for x in names + tnames if x not in muts]
                          or [ast.Pass()], [])]
        pre = ast.Assign([_name("__it%d" % idx, ast.Store())], n.iter)
        n.iter = _call("__pyvc_par", _name("__it%d" % idx))
        n.body = poison + n.body
        return [pre, n] + poison2

    def _guard(self, names, pre):
        """every variable the loop assigns exists before the loop"""
        return [ast.Try([ast.Expr(_name(x))], [ast.ExceptHandler(_name("NameError"), None,
                         [ast.Assign([_name(x, ast.Store())], _name("__pyvc_poison"))])], [], []) for x in names]

    def _top(self, lv, vs):
        call = ast.Call(ast.Attribute(_name(lv), "top", ast.Load()),
                        [ast.List([_const(x) for x in vs], ast.Load()), ast.List([_name(x) for x in vs], ast.Load())], [])
        return [ast.Assign([ast.List([_name(x, ast.Store()) for x in vs], ast.Store())], call)]

    def visit_While(self, n):
        idx = self.nloop
        self.nloop += 1
        names = stored(n.body)
        self.generic_visit(n)
        if idx not in self.invs:
            return n
        lv = "__l%d" % idx
        pre = [ast.Assign([_name(lv, ast.Store())], _call("__pyvc_inv", _const(idx), _const(self.fname)))]
        top = self._top(lv, names)
        test = ast.If(ast.UnaryOp(ast.Not(), n.test), list(n.orelse) + [ast.Break()], [])
        return self._guard(names, pre) + pre + [ast.While(_const(True), top + [test] + n.body, [])]


def extract(func, fname, invs):
    """(code object namespace) the rewritten function"""
    f = inspect.unwrap(func)
    src = textwrap.dedent(inspect.getsource(f))
    tree = ast.parse(src)
    fd = tree.body[0]
    fd.decorator_list = []
    if fd.body and isinstance(fd.body[0], ast.Expr) and isinstance(fd.body[0].value, ast.Constant) \
            and isinstance(fd.body[0].value.value, str):
        fd.body = fd.body[1:] or [ast.Pass()]
    fd = Rewrite(fname, invs).visit(fd)
    tree.body = [fd]
    ast.fix_missing_locations(tree)
    return compile(tree, f.__code__.co_filename, "exec"), fd.name


@contextlib.contextmanager
def instrumented(targets, v=None):
    """targets: [(module name, function name, {loop number: LoopSpec})]"""
    import importlib
    undo = []
    LOOP.clear()
    extra = {}

    def inv(idx, fname):
        return InvLoop(extra[(fname, idx)], ctx().v, "%s loop %d" % (fname, idx))

    helpers = {"__pyvc_comp": comp_list, "__pyvc_par": par_loop, "__pyvc_poison": POISON, "__pyvc_dict": SymDict,
               "__pyvc_emptylist": lambda: LazyList(0, None), "__pyvc_inv": inv,
               "__pyvc_lazy": lambda x: to_lazy(x) or LazyList.of(list(x)),
               "__pyvc_sym": lambda x: to_lazy(x) is not None and to_lazy(x).n.concrete() is None}
    helpers.update(BUILTINS)
    try:
        for target in targets:
            modname, fname, specs = target[:3]
            mod = importlib.import_module(modname)
            for k, h in (target[3] if len(target) > 3 else {}).items():
                undo.append((mod, k, mod.__dict__.get(k, undo)))
                mod.__dict__[k] = h
            owner = mod
            if "." in fname:
                owner, fname = getattr(mod, fname.split(".")[0]), fname.split(".")[1]
            orig = owner.__dict__[fname] if owner is not mod else getattr(mod, fname)
            for i, s in (specs or {}).items():
                extra[(fname, i)] = s
            code, name = extract(orig, fname, set(specs or {}))
            for k, h in helpers.items():
                if (mod, k) not in [(m, kk) for m, kk, _ in undo]:
                    undo.append((mod, k, mod.__dict__.get(k, undo)))
                mod.__dict__[k] = h
            had = mod.__dict__.get(name)
            exec(code, mod.__dict__)
            new = mod.__dict__[name]
            if owner is mod:
                undo.append((mod, fname, orig))
            else:
                undo.append((owner, fname, orig))
                if had is None:
                    del mod.__dict__[name]
                else:
                    mod.__dict__[name] = had
                setattr(owner, fname, new)
            new.__defaults__ = inspect.unwrap(orig).__defaults__
            new.__kwdefaults__ = inspect.unwrap(orig).__kwdefaults__
        yield
    finally:
        for mod, k, old in reversed(undo):
            if isinstance(mod, type):
                setattr(mod, k, old)
            elif old is undo:
                mod.__dict__.pop(k, None)
            else:
                mod.__dict__[k] = old
        LOOP.clear()

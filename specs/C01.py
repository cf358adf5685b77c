"""C01: division of work among processors, slice arithmetic, gathering."""

LEVEL = "proof"
LEVEL_NOTE = ("The division rule, block and slice arithmetic are proved for all item counts, processor counts, ranks, blocks "
              "and slices (unbounded integers, loops by the parallel and the invariant rule). Gathering over several ranks, "
              "index-array runs, mpidot and parallel_apply are bounded: real functions run on up to 6 simulated ranks. "
              "Trusted: z3, the extraction in pyvc/loops.py, the simulated communicator.")
ASSUMPTIONS = ["items handed to the division are distinct and hashable",
               "MPI collectives mean what specs/fakempi.py does",
               "slices handed to length/shift/indices have explicit non-negative ends unless a size is given"]
import itertools
import numpy as np
from pyvc import core
from pyvc.core import ctx, z3
from pyvc.facade import unit, And, Or, Not, Implies
from pyvc.loops import LoopSpec, LazyList, SInt, zint, s_min
from specs import fakempi

MP, SL = "pygsti.tools.mpitools", "pygsti.tools.slicetools"


class NpStub:
    """numpy's part in the list functions: an array of indices is the list of its elements"""
    int64 = int
    ndarray = LazyList

    @staticmethod
    def array(x, dtype=None):
        return x.copy() if isinstance(x, LazyList) else np.array(x, dtype)


def ln(v, x):
    if isinstance(x, LazyList):
        return x.n
    return len(x)


BASE = [(MP, "distribute_indices_base", {})]


@unit("C01", "distribute_indices_base", funcs=["mpitools.distribute_indices_base"], instrument=BASE, shadow=False,
      cases=["split", "nosplit"], conc=150, exact=True, timeout_ms=8000)
def _(v, mode):
    from pygsti.tools import mpitools
    split = mode == "split"
    n = v.int("n", 0, upto=12)
    p = v.int("p", 1, upto=9)
    r = v.int("r", 0, p - 1)
    idx = v.positions(n)
    loc, owners = mpitools.distribute_indices_base(idx, p, r, split)
    L = ln(v, loc)
    if bool(n == 0):
        v.check("nothing to distribute", L == 0)
        return
    shared = bool(p >= n) and split
    # every element that a rank gets is a real item, in order and without gaps
    if bool(L > 0):
        k = v.int("k", 0, L - 1)
        x = loc[k]
        v.check("local items exist", And(x >= 0, x < n))
        v.eq("local items are consecutive", x, loc[0] + k)
        o = v.value_of("owner of a local item", owners, x, hint=r)
        v.check("an owner is a rank", And(o >= 0, o < p))
        if shared:
            v.check("the owner is the first rank that has the item", o <= r)
            v.check("with fewer items than ranks every rank has one item", L == 1)
        else:
            v.eq("the owner is the rank that has the item", o, r)
    else:
        v.check("no rank is idle when items are shared", Not(shared))
    # every item is owned, and its owner has it
    x = v.int("x", 0, n - 1)
    big = bool(p < n)
    if big:
        q, m = n // p, n % p
        hint = x // (q + 1) if bool(x < m * (q + 1)) else m + (x - m * (q + 1)) // q
    else:
        hint = None
    o = v.value_of("owner", owners, x, hint=hint)
    v.check("the owner of an item is a rank", And(o >= 0, o < p))
    loc2, _ = mpitools.distribute_indices_base(idx, p, o, split)
    v.check("the owner has items", ln(v, loc2) > 0)
    v.check("the owner has the item", And(loc2[0] <= x, x < loc2[0] + ln(v, loc2)))
    # two ranks: nothing is given twice, and the shares differ by at most one
    r2 = v.int("r2", 0, p - 1)
    loc3, _ = mpitools.distribute_indices_base(idx, p, r2, split)
    M = ln(v, loc3)
    v.check("shares differ by at most one", And(L - M <= 1, M - L <= 1))
    if bool(Not(r == r2)) and not shared and bool(And(L > 0, M > 0)):
        k2 = v.int("k2", 0, M - 1)
        k1 = v.int("k1", 0, L - 1)
        v.check("no item is given to two ranks", Not(loc[k1] == loc3[k2]))
    if not shared and bool(And(r < r2, L > 0, M > 0)):
        v.check("items are given out in the order of the ranks", loc[0] + L - 1 < loc3[0])
    if shared and bool(r < r2):
        v.check("ranks are given items in order", loc[0] <= loc3[0])


@unit("C01", "slice_up_range", funcs=["mpitools.slice_up_range", "mpitools.slice_up_slice"], shadow=False,
      instrument=[(MP, "slice_up_range", {}), (MP, "slice_up_slice", {}), (SL, "length", {})],
      conc=120, exact=True, timeout_ms=8000)
def _(v):
    from pygsti.tools import mpitools
    n = v.int("n", 0, upto=14)
    m = v.int("m", 1, upto=9)
    a = v.int("a", upto=20)
    direct = v.bool("direct")
    ret = mpitools.slice_up_range(n, m, a) if direct else mpitools.slice_up_slice(slice(a, a + n), m)
    v.eq("number of blocks", ln(v, ret), m)
    k = v.int("k", 0, m - 1)
    v.eq("blocks start where they must", ret[0].start, a)
    v.eq("blocks end where they must", ret[m - 1].stop, a + n)
    s = ret[k]
    v.check("blocks are unit-step slices", s.step is None)
    v.check("blocks are in order", s.stop >= s.start)
    if bool(k < m - 1):
        v.eq("blocks are adjacent", ret[k + 1].start, s.stop)
    q, b = n // m, s.stop - s.start
    v.check("block sizes differ by at most one", Or(b == q, b == q + 1))
    v.check("null slice", True)
    if not v.symbolic:
        z = mpitools.slice_up_slice(slice(None, None), m)
        v.check("null slice", len(z) == m and all(x.start == x.stop for x in z))


class StubComm:
    def __init__(self, p, r):
        self.p, self.r, self.splits = p, r, []

    def Get_size(self): return self.p
    def Get_rank(self): return self.r

    def Split(self, color, key):
        self.splits.append((color, key))
        return self


@unit("C01", "distribute_slice", funcs=["mpitools.distribute_slice", "mpitools.slice_up_slice"], shadow=False,
      instrument=BASE + [(MP, "slice_up_range", {}), (MP, "slice_up_slice", {}), (MP, "distribute_slice", {}),
                         (SL, "length", {})],
      cases=["split", "nosplit"], conc=150, exact=True, timeout_ms=8000)
def _(v, mode):
    from pygsti.tools import mpitools
    split = mode == "split"
    n = v.int("n", 0, upto=12)
    p = v.int("p", 1, upto=9)
    r = v.int("r", 0, p - 1)
    a = v.int("a", 0, upto=5)
    comm = StubComm(p, r)
    slices, loc, owners, lc = mpitools.distribute_slice(slice(a, a + n), comm, split)
    m = ln(v, slices)
    v.check("there is a block", m >= 1)
    v.check("not more blocks than ranks", m <= p)
    v.eq("the blocks start at the start", slices[0].start, a)
    v.eq("the blocks end at the end", slices[m - 1].stop, a + n)
    j = v.int("j", 0, m - 1)
    if bool(j < m - 1):
        v.eq("the blocks are adjacent", slices[j + 1].start, slices[j].stop)
    o = v.value_of("owner of a block", owners, j, hint=j)
    v.check("an owner is a rank", And(o >= 0, o < p))
    _, loc2, _, _ = mpitools.distribute_slice(slice(a, a + n), StubComm(p, o), split)
    v.check("the owner of a block computes it", And(loc2.start == slices[j].start, loc2.stop == slices[j].stop))
    if loc.start is None:
        v.check("a rank is idle only without sharing and with fewer items than ranks", And(not split, Or(p > n)))
        v.check("an idle rank has the null slice", loc.stop is None)
    else:
        v.check("the local block is inside the slice", And(loc.start >= a, loc.stop <= a + n))
    if split and bool(p > n):
        v.check("ranks that share a block share a communicator", And(len(comm.splits) == 1, lc is comm))
        c = comm.splits[0][0]
        v.check("the colour is the block's number", And(slices[c].start == loc.start, slices[c].stop == loc.stop))
        v.check("the key is the rank", comm.splits[0][1] == r)
    else:
        v.check("no communicator is split", And(len(comm.splits) == 0, lc is None))


class BaseContract:
    """the contract of distribute_indices_base (proved by the unit of that name) in place of its body: rank r has the
    items start(r)..stop(r)-1, ranks have them in order, the owner of x has x"""

    def __call__(self, indices, nprocs, rank, allow_split_comm=True):
        c = ctx()
        n, p, r = indices.n, zint(nprocs), SInt.lift(rank)
        S, T, O, I = (z3.Function(f, z3.IntSort(), z3.IntSort()) for f in ("start", "stop", "owner", "item"))
        if bool(n == 0):
            return [], {}
        if allow_split_comm and bool(SInt(p) >= n):
            c.add(z3.And(I(r.z) >= 0, I(r.z) < n.z))
            return LazyList(1, lambda k: SInt(I(r.z))), OwnersContract(self, n, p, O, None, None)
        return self.share(c, n, p, r.z, S, T), OwnersContract(self, n, p, O, S, T)

    def share(self, c, n, p, r, S, T):
        seen = c.__dict__.setdefault("ranks_seen", [])
        c.add(z3.And(S(r) >= 0, S(r) <= T(r), T(r) <= n.z))
        for q in seen:
            c.add(z3.Implies(z3.And(r < q, S(r) < T(r), S(q) < T(q)), T(r) <= S(q)))
            c.add(z3.Implies(z3.And(q < r, S(r) < T(r), S(q) < T(q)), T(q) <= S(r)))
        seen.append(r)
        return LazyList(SInt(z3.simplify(T(r) - S(r))), lambda k: SInt(S(r)) + k)


class OwnersContract:
    def __init__(self, b, n, p, O, S, T):
        self.b, self.n, self.p, self.O, self.S, self.T = b, n, p, O, S, T

    def lookup(self, x):
        x = zint(x)
        o = self.O(x)
        c = ctx()
        c.add(z3.And(o >= 0, o < self.p))
        if self.S is not None:
            c.add(z3.And(self.S(o) <= x, x < self.T(o)))
        return SInt(o)


MODULAR = [(MP, "distribute_indices", {}, {"distribute_indices_base": BaseContract()}), (MP, "distribute_for_dot", {})]


@unit("C01", "distribute_indices", funcs=["mpitools.distribute_indices", "mpitools.distribute_for_dot"], shadow=False,
      instrument=MODULAR, cases=["split", "nosplit"], conc=150, exact=True, timeout_ms=8000)
def _(v, mode):
    from pygsti.tools import mpitools
    split = mode == "split"
    n = v.int("n", 0, upto=12)
    p = v.int("p", 1, upto=9)
    r = v.int("r", 0, p - 1)
    comm = StubComm(p, r)
    idx = v.positions(n)
    loc, owners, lc = mpitools.distribute_indices(idx, comm, split)
    loc0, _ = mpitools.distribute_indices_base(idx, p, r, split)
    v.eq("same share as the rule gives", ln(v, loc), ln(v, loc0))
    if bool(ln(v, loc) > 0):
        k = v.int("k", 0, ln(v, loc) - 1)
        v.eq("same items as the rule gives", loc[k], loc0[k])
    if split and bool(And(p > n, n > 0)):
        v.check("the ranks with the same item share a communicator", And(len(comm.splits) == 1, lc is comm))
        v.eq("colour", comm.splits[0][0], loc[0])
        v.eq("key", comm.splits[0][1], r)
    else:
        v.check("no communicator is split", And(len(comm.splits) == 0, lc is None))
    one, _, none = mpitools.distribute_indices(idx, None, split)
    v.check("a single processor splits nothing", none is None)


@unit("C01", "distribute_for_dot", funcs=["mpitools.distribute_for_dot"], shadow=False, instrument=MODULAR,
      conc=100, exact=True, timeout_ms=8000)
def _(v):
    from pygsti.tools import mpitools
    n = v.int("n", 0, upto=12)
    p = v.int("p", 1, upto=9)
    r, r2 = v.int("r", 0, p - 1), v.int("r2", 0, p - 1)
    s = mpitools.distribute_for_dot(n, StubComm(p, r))
    s2 = mpitools.distribute_for_dot(n, StubComm(p, r2))
    v.check("a local column range lies inside the matrix", And(s.start >= 0, s.stop <= n, s.start <= s.stop))
    if bool(Not(r == r2)):
        v.check("column ranges are disjoint", Or(s.stop <= s2.start, s2.stop <= s.start, s.start == s.stop, s2.start == s2.stop))
    if bool(n > 0):
        x = v.int("x", 0, n - 1)
        _, owners = mpitools.distribute_indices_base(v.positions(n), p, r, False)
        o = v.value_of("owner of a column", owners, x)
        s3 = mpitools.distribute_for_dot(n, StubComm(p, o))
        v.check("every column belongs to some rank", And(s3.start <= x, x < s3.stop))


# ---------------------------------------------------------------- slices

SLI = [(SL, f, {}) for f in ("length", "shift", "intersect", "indices")]


def mem(x, a, b, s):
    """x in range(a, b, s) for s > 0, as a formula without quantifiers"""
    return And(x >= a, x < b, (x - a) % s == 0)


@unit("C01", "slice membership", funcs=["slicetools.length", "slicetools.shift", "slicetools.intersect", "slicetools.indices"],
      instrument=SLI, shadow=False, cases=[None, 1, 2, 3], thorough_cases=[5, 7], conc=150, exact=True, timeout_ms=8000)
def _slices(v, step):
    from pygsti.tools import slicetools
    st = step or 1
    a1, b1 = v.int("a1", 0, upto=12), v.int("b1", 0, upto=12)
    s1 = slice(a1, b1, step)
    ind = slicetools.indices(s1)
    L = slicetools.length(s1)
    v.eq("length is the number of indices", L, ln(v, ind))
    v.check("length is not negative", L >= 0)
    x = v.int("x", upto=15)
    if bool(L > 0):
        k = v.int("k", 0, L - 1)
        v.check("listed indices belong to the slice", mem(ind[k], a1, b1, st))
        v.eq("indices are listed in order", ind[k], a1 + k * st)
    if bool(mem(x, a1, b1, st)):
        v.eq("indices of the slice are listed", ind[(x - a1) // st], x)
    # shift
    off = v.int("off", 0, upto=6)
    s2 = slicetools.shift(s1, off)
    if bool(Or(a1 > 0, b1 > 0)):
        v.check("shift", And(s2.start == a1 + off, s2.stop == b1 + off, s2.step == step))
    v.eq("shift keeps the length", slicetools.length(s2), L)
    # intersection
    a2, b2 = v.int("a2", 0, upto=12), v.int("b2", 0, upto=12)
    if st > 1:
        v.assume((a1 - a2) % st == 0)        # precondition: slices of one lattice
    si = slicetools.intersect(s1, slice(a2, b2, step))
    got = mem(x, si.start, si.stop, st)
    want = And(mem(x, a1, b1, st), mem(x, a2, b2, st))
    v.check("an index of the intersection is in both", Implies(got, want))
    v.check("an index in both is in the intersection", Implies(want, got))
    v.check("length of the intersection is not negative", slicetools.length(si) >= 0)
    # open ends
    o1 = slicetools.intersect(slice(None, b1, step), slice(a2, b2, step))
    v.check("open start", And(o1.start == a2))
    v.check("open start keeps the smaller stop", Implies(mem(x, a2, b2, st), mem(x, o1.start, o1.stop, st) == (x < b1)))
    o2 = slicetools.intersect(slice(a2, b2, step), slice(a1, None, step))
    v.check("open stop", Implies(And(x >= a1, mem(x, a2, b2, st)), mem(x, o2.start, o2.stop, st)))
    v.check("open stop, converse", Implies(mem(x, o2.start, o2.stop, st), And(x >= a1, mem(x, a2, b2, st))))


@unit("C01", "indices with negative or missing ends", funcs=["slicetools.indices"], instrument=SLI, shadow=False,
      cases=[None, 1, 2], conc=150, exact=True)
def _(v, step):
    from pygsti.tools import slicetools
    n = v.int("n", 1, upto=10)
    a, b = v.int("a", -n, n), v.int("b", -n, n)
    form = v.choice("form", ["both", "start", "stop"])
    s = slice(None if form == "stop" else a, None if form == "start" else b, step)
    got = slicetools.indices(s, n)
    st = step or 1
    fix = lambda y: (y + n) if bool(y < 0) else y
    lo = 0 if s.start is None else fix(a)
    hi = n if s.stop is None else fix(b)
    x = v.int("x", 0, n - 1)
    if bool(mem(x, lo, hi, st)):
        v.eq("every index is listed", got[(x - lo) // st], x)
    if bool(ln(v, got) > 0):
        k = v.int("k", 0, ln(v, got) - 1)
        v.check("only indices are listed", mem(got[k], lo, hi, st))
    if not v.symbolic:
        v.check("same as python", got == list(range(*s.indices(n))))


@unit("C01", "list_to_slice", funcs=["slicetools.list_to_slice", "slicetools.as_array"],
      instrument=[(SL, "list_to_slice", {}, {"_np": NpStub}), (SL, "indices", {}), (SL, "as_array", {})], shadow=False,
      cases=[(True, True), (True, False), (False, True), (False, False)], conc=200, exact=True, timeout_ms=8000)
def _(v, case):
    from pygsti.tools import slicetools
    array_ok, contig = case
    n = v.int("n", 0, upto=4)
    kind = v.choice("kind", ["any", "arithmetic"])
    if kind == "any":
        lst = v.intlist("l", n, 0, upto=4)
    else:
        a, d = v.int("a", 0, upto=6), v.int("d", upto=3)
        lst = LazyList(n, lambda k: a + k * d) if v.symbolic else [a + k * d for k in range(n)]
        if bool(n > 0):
            v.assume(a + (n - 1) * d >= 0)
    try:
        s = slicetools.list_to_slice(lst, array_ok, contig)
    except ValueError:
        v.check("a list is refused only when arrays are not allowed", Not(array_ok))
        if kind == "arithmetic" and bool(n > 0):
            v.check("an increasing run is not refused", Not(d == 1) if contig else Not(d > 0))
        return
    if isinstance(s, slice):
        step = 1 if s.step is None else s.step
        if contig:
            v.check("contiguous", step == 1)
        if bool(n == 0):
            v.check("the empty list is the empty slice", s.stop <= s.start)
            return
        k = v.int("k", 0, n - 1)
        v.eq("k-th index of the slice", s.start + k * step, lst[k])
        if bool(n > 1):
            v.check("not a constant slice", Not(step == 0))
        if bool(step > 0):
            v.check("the slice has exactly the list's indices", And(s.start + (n - 1) * step < s.stop, s.start + n * step >= s.stop))
        else:
            v.check("the (descending) slice has exactly the list's indices",
                    And(s.start + (n - 1) * step > s.stop, s.start + n * step <= s.stop, s.stop >= 0))
    else:
        v.check("arrays only when allowed", array_ok)
        v.eq("same length", ln(v, s), n)
        k = v.int("k", 0, n - 1)
        v.eq("same elements", s[k], lst[k])


class DivideInv(LoopSpec):
    """after m rounds: m blocks of maxLen indices each, the next one starts at start + m*maxLen*step"""

    def entry(self, v, env):
        self.s, self.m = v.ghost

    def blk(self, k):
        s, st = self.s, self.s.step or 1
        return slice(s.start + k * self.m * st, s_min(s.start + k * self.m * st + self.m * st, s.stop), s.step)

    def inv(self, v, env):
        s, st = self.s, self.s.step or 1
        m = env["sub_slices"].n
        out = [("next start", env["sub_start"] == s.start + m * self.m * st),
               ("all blocks begin before the stop", Or(m == 0, s.start + (m - 1) * self.m * st < s.stop))]
        k = v.int("inv_k", 0)
        got = env["sub_slices"].get
        if bool(And(k < m)):
            g, w = got(k), self.blk(k)
            out.append(("blocks", And(g.start == w.start, g.stop == w.stop, g.step == w.step)))
        return out

    def havoc(self, v, env):
        m = v.int("rounds", 0)
        return {"sub_start": v.int("sub_start"), "sub_slices": LazyList(m, self.blk)}


@unit("C01", "divide", funcs=["slicetools.divide"], instrument=[(SL, "divide", {0: DivideInv()}), (SL, "length", {})],
      shadow=False, cases=[None, 1, 2, 3], conc=100, exact=True, timeout_ms=8000)
def _(v, step):
    from pygsti.tools import slicetools
    a, b = v.int("a", 0, upto=6), v.int("b", 0, upto=14)
    m = v.int("m", 1, upto=5)
    s = slice(a, b, step)
    v.ghost = (s, m)
    st = step or 1
    out = slicetools.divide(s, m)
    N = ln(v, out)
    L = slicetools.length(s)
    v.check("blocks cover the slice", N * m * st >= b - a)
    if bool(L == 0):
        v.check("no block for the empty slice", N == 0)
        return
    v.check("no superfluous block", (N - 1) * m * st < b - a)
    k = v.int("k", 0, N - 1)
    t = out[k]
    n = slicetools.length(t)
    v.check("blocks are not longer than allowed", And(n <= m, n >= 1))
    v.check("same step", t.step == step)
    v.eq("block starts", t.start, a + k * m * st)
    v.check("a block stops at the next one's start or at the end", Or(And(k < N - 1, t.stop == a + (k + 1) * m * st),
                                                                     And(k == N - 1, t.stop == b), t.stop == b))
    v.check("blocks stay inside", t.stop <= b)


# ---------------------------------------------------------------- gathering (several ranks at once, bounded)

@unit("C01", "gather", funcs=["mpitools.gather_slices", "mpitools.gather_slices_by_owner", "mpitools.gather_indices",
                              "matrixtools._fas", "matrixtools._findx", "matrixtools._findx_shape"],
      sym=False, cases=["slices", "by_owner", "indices", "slices2", "indices2", "inds"], conc=60, conc_s=25, shadow=False)
def _(v, kind):
    from pygsti.tools import mpitools
    p = v.int("p", 1, 4)
    two = kind.endswith("2") or v.bool("two")
    n, m = v.int("n", 1, 7), v.int("m", 1, 5)
    lead = v.choice("lead", [None, "slice", "array"]) if kind == "inds" else None
    kind = kind[:-1] if kind.endswith("2") else ("slices" if kind == "inds" else kind)
    shape = ((n, m) if lead is None else (3, n, m)) + ((2,) if lead is None and v.bool("extra") else ())
    full = np.arange(1.0, 1 + np.prod(shape)).reshape(shape)
    off = 0 if lead is None else 1
    inds = [] if lead is None else [slice(0, 2) if lead == "slice" else np.array([2, 0])]
    sel = [slice(None)] * len(shape)
    if lead:
        sel[0] = inds[0]
    buf = v.choice("buf", [None, 8, 16, 24, 40, 100, 1000])
    # cut axis (or axes) into pieces
    def pieces(size, tag):
        cuts = sorted(v.subset("cut" + tag, list(range(1, size))))
        b = [0] + cuts + [size]
        if kind != "indices":
            return [slice(x, y) for x, y in zip(b, b[1:])]
        perm = list(range(size))
        v_seed = v.int("perm" + tag, 0, 5039)
        rng = np.random.RandomState(v_seed)
        rng.shuffle(perm)
        if v.bool("asc" + tag):
            perm = sorted(perm)
        out = []
        for x, y in zip(b, b[1:]):
            q = perm[x:y]
            out.append(np.array(q) if not (q == list(range(q[0], q[-1] + 1)) and v.bool("asslice" + tag + str(x))) else slice(q[0], q[-1] + 1))
        return out
    A = pieces(n, "a")
    if two:
        items = list(itertools.product(A, pieces(m, "b")))
        axes = (0 + off, 1 + off)
    else:
        items = list(A)
        axes = 0 + off
    owners = {i: v.int("o%d" % i, 0, p - 1) for i in range(len(items))}

    def task(comm):
        r = comm.Get_rank()
        ar = np.full(shape, -1.0)
        for i, it in enumerate(items):
            if owners[i] == r:
                t = it if two else (it,)
                ix = [np.arange(s)[q] for s, q in zip(shape, sel)]
                for ax, q in zip((axes if two else (axes,)), t):
                    ix[ax] = np.arange(shape[ax])[q]
                ar[np.ix_(*ix)] = full[np.ix_(*ix)]
        if kind == "by_owner":
            mpitools.gather_slices_by_owner([items[i] for i in owners if owners[i] == r], ar, inds, axes, comm, buf)
        elif kind == "slices":
            mpitools.gather_slices(items, owners, ar, inds, axes, comm, buf)
        else:
            mpitools.gather_indices(items, owners, ar, inds, axes, comm, buf)
        return ar
    out = fakempi.run_world(p, task)
    want = np.full(shape, -1.0)
    ix = np.ix_(*[np.arange(s)[q] for s, q in zip(shape, sel)])
    want[ix] = full[ix]
    for r in range(p):
        v.eq("rank %s has the whole array" % ("0" if r == 0 else ">0"), out[r], want)


@unit("C01", "to_slice_list", funcs=["mpitools.gather_indices (index arrays)"], sym=False, conc=1, conc_s=60, shadow=False,
      cases=[1, 2, 3, 4], thorough_cases=[5])
def _(v, size):
    """all index arrays of this length over 0..4, two ranks"""
    from pygsti.tools import mpitools
    full = np.arange(1.0, 6.0)

    class C:
        def __init__(self, rank, log): self.rank, self.log = rank, log
        def Get_rank(self): return self.rank
        def Bcast(self, buf, root=0):
            if self.rank == root:
                self.log.append(buf.copy())
            else:
                buf[...] = self.log.pop(0)
    for lst in itertools.product(range(5), repeat=size):
        for mx in (None, 8, 16):
            log = []
            src = full.copy()
            mpitools.gather_indices([np.array(lst)], {0: 0}, src, [], 0, C(0, log), mx)
            dst = np.zeros(5)
            mpitools.gather_indices([np.array(lst)], {0: 0}, dst, [], 0, C(1, log), mx)
            want = np.zeros(5)
            want[list(lst)] = full[list(lst)]
            v.check("index array %s" % (sorted(set(lst)) == list(lst)), np.array_equal(dst, want) and not log,
                    "array %s, buffer %s: got %s" % (lst, mx, dst))


@unit("C01", "parallel_apply and mpidot", funcs=["mpitools.parallel_apply", "mpitools.mpidot", "mpitools.sum_across_procs"],
      sym=False, conc=60, conc_s=20, shadow=False)
def _(v):
    from pygsti.tools import mpitools
    p, n = v.int("p", 1, 6), v.int("n", 0, 8)
    items = list(range(10, 10 + n))
    out = fakempi.run_world(p, lambda c: mpitools.parallel_apply(lambda x: (x, x * x), items, c))
    for o in out:
        v.check("results in order", o == [(x, x * x) for x in items])
    k = v.int("k", 1, 7)
    A = np.arange(3.0 * k).reshape(3, k) + 1
    B = np.arange(2.0 * k).reshape(k, 2) - 3
    out = fakempi.run_world(p, lambda c: mpitools.mpidot(A, B, mpitools.distribute_for_dot(k, c), c))
    for o in out:
        v.eq("distributed product", o, A @ B)
    v.eq("serial product", mpitools.mpidot(A, B, mpitools.distribute_for_dot(k, None), None), A @ B)
    out = fakempi.run_world(p, lambda c: mpitools.sum_across_procs(c.Get_rank() + 1.0, c))
    for o in out:
        v.eq("sum", o, p * (p + 1) / 2)
    out = fakempi.run_world(p, lambda c: mpitools.distribute_indices(items, c))
    for loc, own, lc in out:
        for x in loc:
            v.check("the owner has the item", x in out[own[x]][0])
        if lc is not None:
            v.check("a shared communicator holds the ranks with the same items",
                    lc.Get_size() == sum(1 for q in out if q[0] == loc))
    v.check("all items are given out", set(x for q in out for x in q[0]) == set(items))

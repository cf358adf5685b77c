"""setup: does the machinery prove what holds and refute what does not?  (no pyGSTi code involved)"""
import os
import sys
import random
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import core, facade, loops, symnp     # noqa


def statuses(fn, instrument=None):
    u = facade.Unit("T", "t", fn, shadow=False, instrument=instrument)
    out = []
    for c, outcome, pay in core.explore(lambda c: run(c, fn, u), 200, None, 4000):
        if outcome not in ("ok", "infeasible"):
            out.append(outcome + ": " + str(pay)[-300:])
        if c is not None:
            out += [vc.status for vc in c.v.vcs]
    return out


def run(c, fn, u):
    v = facade.SymV(c, random.Random(1), u, "quick")
    c.v = v
    with facade.environment(u, v):
        fn(v)


MOD = types.ModuleType("pyvc_selftest_target")
SRC = '''
def chunks(n, m):
    base = n // m
    extra = n - base * m
    ret = [(base * i, base * i + base) for i in range(m)]
    return ret, extra

def total(n):
    s = 0
    i = 0
    while i < n:
        s = s + 2 * i
        i = i + 1
    return s
'''


def main():
    import linecache
    fn = "/tmp/pyvc_selftest_target.py"
    linecache.cache[fn] = (len(SRC), None, SRC.splitlines(True), fn)
    exec(compile(SRC, fn, "exec"), MOD.__dict__)
    sys.modules["pyvc_selftest_target"] = MOD
    MOD.__file__ = fn

    def good(v):
        x, y = v.real("x", 0.1), v.real("y")
        v.eq("square", (x + y) ** 2, x * x + 2 * x * y + y * y)
        v.eq("root", ((x * x) ** 0.5), x)
        v.eq("log derivative", v.diff(v.np.log(x), x), 1 / x)
        m = v.np.max([x, y]) if False else (x if x > y else y)
        v.check("max", m >= y)

    def bad(v):
        x, y = v.real("x", 0.1), v.real("y")
        v.eq("square", (x + y) ** 2, x * x + x * y + y * y)

    def bad2(v):
        x, y = v.real("x", 0.1), v.real("y")
        v.check("order", x > y)

    def lp(v):
        n, m = v.int("n", 0), v.int("m", 1)
        ret, extra = MOD.chunks(n, m)
        k = v.int("k", 0, m - 1)
        v.check("adjacent", ret[k][1] == ret[k][0] + n // m)
        v.check("rest", core.And(extra >= 0, extra < m))

    def lpbad(v):
        n, m = v.int("n", 0), v.int("m", 1)
        ret, extra = MOD.chunks(n, m)
        v.check("all covered", ret[m - 1][1] == n)

    class Inv(loops.LoopSpec):
        def inv(self, v, env):
            return [("sum", env["s"] == env["i"] * (env["i"] - 1)), ("bound", core.And(env["i"] >= 0, env["i"] <= self.n))]

        def havoc(self, v, env):
            return {"s": v.int("s"), "i": v.int("i")}

        def variant(self, v, env):
            return self.n - env["i"]
    inv = Inv()

    def wl(v):
        n = v.int("n", 0)
        inv.n = n
        v.eq("closed form", MOD.total(n), n * (n - 1))

    def wlbad(v):
        n = v.int("n", 0)
        inv.n = n
        v.eq("closed form", MOD.total(n), n * n)
    ins = [("pyvc_selftest_target", "chunks", {}), ("pyvc_selftest_target", "total", {0: inv})]
    bad_count = 0
    for name, f, want, i in (("good", good, True, None), ("bad", bad, False, None), ("bad2", bad2, False, None),
                             ("loop", lp, True, ins), ("loop bad", lpbad, False, ins), ("while", wl, True, ins),
                             ("while bad", wlbad, False, ins)):
        st = statuses(f, i)
        ok = st and (all(x == "proved" for x in st) if want else any(x == "refuted" for x in st))
        if not ok:
            bad_count += 1
            print("selftest %s: %s" % (name, st))
    print("selftest: %s" % ("ok" if not bad_count else "%d failed" % bad_count))
    return 1 if bad_count else 0


if __name__ == "__main__":
    sys.exit(main())

"""A communicator for several ranks in one process: one thread per rank, collective calls meet at a barrier.
Trusted: it implements the MPI meaning of Bcast / allgather / allreduce / Split."""
import sys
import threading
import types
import numpy as np


class _Shared:
    def __init__(self, n):
        self.n = n
        self.bar = threading.Barrier(n, timeout=20)
        self.slots = [None] * n


class Comm:
    def __init__(self, shared, rank):
        self.s, self.rank = shared, rank

    def Get_size(self): return self.s.n
    def Get_rank(self): return self.rank

    @property
    def size(self): return self.s.n

    @property
    def rank_(self): return self.rank

    def _exchange(self, x):
        self.s.slots[self.rank] = x
        self.s.bar.wait()
        r = list(self.s.slots)
        self.s.bar.wait()
        return r

    def allgather(self, x):
        return self._exchange(x)

    def gather(self, x, root=0):
        r = self._exchange(x)
        return r if self.rank == root else None

    def bcast(self, x, root=0):
        return self._exchange(x)[root]

    def Bcast(self, buf, root=0):
        r = self._exchange((buf.shape, np.array(buf, copy=True) if self.rank == root else None))
        shapes = {x[0] for x in r}
        assert len(shapes) == 1, "Bcast of buffers of different shapes: %s" % shapes
        if self.rank != root:
            assert buf.dtype == r[root][1].dtype, "Bcast into a buffer of another type"
            buf[...] = r[root][1]

    def allreduce(self, x, op=None):
        r = self._exchange(x)
        t = r[0]
        for y in r[1:]:
            t = t + y
        return t

    def Allreduce(self, a, b, op=None):
        r = self._exchange(np.array(a, copy=True))
        b[...] = sum(r)

    def Barrier(self):
        self.s.bar.wait()
    barrier = Barrier

    def Split(self, color=0, key=0):
        r = self._exchange((color, key, self.rank))
        mine = sorted((k, rk) for c, k, rk in r if c == color)
        ranks = [rk for _, rk in mine]
        if ranks[0] == self.rank:
            sh = _Shared(len(ranks))
        else:
            sh = None
        allsh = self._exchange(sh)
        return Comm(allsh[ranks[0]], ranks.index(self.rank))


def run_world(n, fn):
    """[fn(comm) for every rank], run together"""
    if "mpi4py" not in sys.modules:
        m, mpi = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
        mpi.SUM, mpi.Comm = "sum", Comm
        m.MPI = mpi
        sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = m, mpi
    sh = _Shared(n)
    out, err = [None] * n, [None] * n

    def go(r):
        try:
            out[r] = fn(Comm(sh, r))
        except threading.BrokenBarrierError:
            pass
        except BaseException as e:
            err[r] = e
            sh.bar.abort()
    ts = [threading.Thread(target=go, args=(r,)) for r in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in err:
        if e is not None:
            raise e
    return out

"""C11: data sets keep exactly the counts they are given."""

LEVEL = "proof"
LEVEL_NOTE = ("Every count is an arbitrary real number and, in the time units, every time stamp too: what the real code stores, merges, slices and "
              "derives is proved equal to a reference table of (outcome, time, count) entries.  The tables' shapes (up to three circuits, four "
              "outcomes, four entries a row) and the histories (each of 17 operations, then pairs of them, for each collision action; a third of them in the quick tier) are enumerated; "
              "longer random histories, pickling, files and sampling are bounded runs.")
ASSUMPTIONS = ["counts are stored in single precision: exactness is claimed of numbers representable there",
               "static data sets are not edited through their rows; a row's entries are in time order where a query needs time order",
               "numpy's concatenate, insert, nonzero and equal have their documented meaning"]
import collections
import copy
import io
import itertools
import os
import pickle
import tempfile
import warnings
import numpy as np
import pygsti
import pygsti.objects.dataset as dsm
import pygsti.objects.multidataset as mdm
import pygsti.construction.datasetconstruction as dcm
from pygsti.objects.dataset import DataSet
from pygsti.objects.multidataset import MultiDataSet
from pygsti.objects.circuit import Circuit
from pyvc.core import SInt, SBool
from pyvc.ring import RExpr
from pyvc.facade import unit

P = "C11"
K = "pygsti.objects.dataset.DataSet."
R = "pygsti.objects.dataset.DataSetRow."
M = "pygsti.objects.multidataset.MultiDataSet."
D = "pygsti.construction.datasetconstruction."
OD = collections.OrderedDict


def sfloat(x):
    return x if isinstance(x, (RExpr, SInt, SBool)) else float(x)


X = {(dsm, "float"): sfloat, (dcm, "float"): sfloat}
A, B, C = Circuit(("Gx",)), Circuit(("Gx", "Gy")), Circuit([("Gx", 0), ("Gcnot", 0, 1)], line_labels=(0, 1))
CIRCS = (A, B, C)


# ------------------------------------------------------------------ the reference: a table of entries

def tup(o):
    return (o,) if isinstance(o, str) else tuple(o)


class Ref:
    def __init__(self, action="aggregate", outs=()):
        self.action, self.rows, self.outs, self.aux = action, OD(), [tup(o) for o in outs], {}

    def copy(self):
        r = Ref(self.action, self.outs)
        r.rows = OD((c, list(x)) for c, x in self.rows.items())
        r.aux = copy.deepcopy(self.aux)
        return r

    def see(self, outs):
        for o in outs:
            if tup(o) not in self.outs:
                self.outs.append(tup(o))

    def name(self, c):
        i, t = 0, c
        while self.action == "keepseparate" and t in self.rows:
            i += 1
            t = Circuit(list(c) + ["#%d" % i], line_labels=c.line_labels)
        return t

    def series(self, c, outs, times, reps=None, overwrite=True, zeros=True, aux=None):
        self.see(outs)
        ent = [(tup(o), t, n) for o, t, n in zip(outs, times, [1] * len(outs) if reps is None else reps)]
        if not zeros:
            ent = [e for e in ent if e[2] != 0]
        c = self.name(c)
        self.rows[c] = ent if overwrite or c not in self.rows else self.rows[c] + ent
        if aux is not None:
            self.aux[c] = dict(aux)

    def counts(self, c, d, zeros=True, aux=None, action=None):
        outs = list(d) if isinstance(d, OD) else sorted(d)
        c = self.name(c)
        old = self.rows.get(c)
        if (action or self.action) == "aggregate" and old is not None:
            t = int(max(e[1] for e in old)) + 1 if old else 0
            self.series(c, outs, [t] * len(outs), [d[o] for o in outs], False, zeros, aux)
        else:
            self.series(c, outs, [0] * len(outs), [d[o] for o in outs], True, zeros, aux)

    def remove(self, cs):
        for c in cs:
            self.rows.pop(c, None)
            self.aux.pop(c, None)

    def process(self, f, aggregate):
        rows, aux = OD(), {}
        for c, x in self.rows.items():
            d = f(c)
            if d is None:
                continue
            if aggregate and d in rows:
                rows[d] = rows[d] + x
                aux[d].update(self.aux.get(c, {}))
            else:
                rows[d] = x
                aux[d] = dict(self.aux.get(c, {}))
        self.rows, self.aux = rows, aux

    def rename(self, m):
        m = {tup(a): tup(b) for a, b in m.items()}
        self.outs = [m.get(o, o) for o in self.outs]
        self.rows = OD((c, [(m.get(o, o), t, n) for o, t, n in x]) for c, x in self.rows.items())

    def merged(self, m):
        """for every row, new outcome -> total and (time, new outcome) -> total"""
        back = {tup(o): tup(k) for k, os_ in m.items() for o in os_}
        r = Ref(self.action, sorted(tup(k) for k in m))
        for c, x in self.rows.items():
            r.rows[c] = [(back[o], t, n) for o, t, n in x]
        return r


def tot(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def same(v, lab, ds, ref, entries=True, outs=True, aux=True):
    """the data set is the table: entries, counts, totals, of rows got by key and by iteration; asked twice (caches)"""
    v.check(lab + ": circuits", list(ds.keys()) == list(ref.rows) and list(ds) == list(ref.rows) and len(ds) == len(ref.rows),
            (list(ds.keys()), list(ref.rows)))
    if outs:
        v.check(lab + ": outcome labels", list(ds.get_outcome_labels()) == ref.outs, (ds.get_outcome_labels(), ref.outs))
    for (c, x), row2, (c3, row3) in zip(ref.rows.items(), ds.values(), ds.items()):
        if c not in ds:
            v.check(lab + ": circuit present", False, c.str)
            continue
        row = ds[c]
        v.check(lab + ": items in order", c3 == c, (c3, c))
        for w, r in (("", row), (" by value", row2), (" by item", row3)):
            got = list(r)
            if entries:
                v.check(lab + ": outcomes of a row" + w, [g[0] for g in got] == [e[0] for e in x], (c.str, got, x))
                if len(got) == len(x):
                    v.eq(lab + ": times of a row" + w, [g[1] for g in got], [e[1] for e in x])
                    v.eq(lab + ": counts of a row's entries" + w, [g[2] for g in got], [e[2] for e in x])
            for again in (0, 1):
                cn = r.counts
                exp = {o: tot(e[2] for e in x if e[0] == o) for o in OD((e[0], 1) for e in x)}
                v.check(lab + ": outcomes counted" + w, set(cn) == set(exp) if entries else set(cn) >= set(exp) - {None},
                        (c.str, cn, exp))
                for o in cn:
                    v.eq(lab + ": counts" + w, cn[o], exp.get(o, 0))
                    if len(o) == 1:
                        v.eq(lab + ": count by label" + w, r[o[0]], exp.get(o, 0))
            v.eq(lab + ": total" + w, r.total, tot(e[2] for e in x))
        allc = row.allcounts
        v.check(lab + ": all counts list every outcome", list(allc) == list(ds.get_outcome_labels()), (allc,))
        v.eq(lab + ": all counts", [allc[o] for o in allc], [tot(e[2] for e in x if e[0] == o) for o in allc])
        if aux:
            v.check(lab + ": auxiliary information", dict(row.aux) == ref.aux.get(c, {}), (c.str, dict(row.aux), ref.aux.get(c, {})))


# ------------------------------------------------------------------ histories

def op_counts(ds, ref, n):
    d = OD([("1", n[0]), (("0",), n[1])])
    ds.add_count_dict(A, d)
    ref.counts(A, d)


def op_counts2(ds, ref, n):
    d = {"2": n[2], "0": n[3]}
    ds.add_count_dict(B, d, aux={"k": 1})
    ref.counts(B, d, aux={"k": 1})


def op_counts3(ds, ref, n):
    d = {("0", "1"): n[4], ("1", "1"): n[1]}
    ds.add_count_dict(C, d)
    ref.counts(C, d)


def op_set(ds, ref, n):
    d = {"0": n[5]}
    ds[A] = d
    keep, ref.action = ref.action, "overwrite"
    ref.counts(A, d)
    ref.action = keep


def op_append(ds, ref, n):
    a = (["0", "1", "0"], [2, 2, 5], [n[0], n[2], n[4]])
    ds.add_raw_series_data(A, *a, overwriteExisting=False, aux={"s": [1]})
    ref.series(A, *a, overwrite=False, aux={"s": [1]})


def op_replace(ds, ref, n):
    a = (["3", ("1",)], [1.5, 7], [n[3], n[5]])
    ds.add_raw_series_data(B, *a)
    ref.series(B, *a)


def op_norep(ds, ref, n):
    a = (["0", "1", "0"], [1, 1, 3])
    ds.add_raw_series_data(B, *a, overwriteExisting=False)
    ref.series(B, *a, overwrite=False)


def op_norep_nozero(ds, ref, n):
    a = (["1", "1", "0"], [1, 2, 3])
    ds.add_raw_series_data(A, *a, recordZeroCnts=False)
    ref.series(A, *a)


def op_zero(ds, ref, n):
    a = (["4", "1"], [0, 0], [0, 2])
    ds.add_raw_series_data(C, *a, recordZeroCnts=False)
    ref.series(C, *a, zeros=False)


def op_build(ds, ref, n):
    ds.build_repetition_counts()


def op_lists(ds, ref, n):
    ds.add_series_data(C, [OD([("1", n[0]), ("0", n[1])]), {"1": n[2], "0": n[3]}], [0, 4], overwriteExisting=False)
    ref.series(C, ["1", "0", "0", "1"], [0, 0, 4, 4], [n[0], n[1], n[3], n[2]], overwrite=False)


def op_del(ds, ref, n):
    if A in ds:
        del ds[A]
    ref.remove([A])


def op_remove(ds, ref, n):
    ds.remove([B, B, A], missingAction="ignore")
    ref.remove([B, A])


def op_rename(ds, ref, n):
    m = {"0": "1", "1": "0"}
    ds.rename_outcome_labels(m)
    ref.rename(m)


def fproc(c):
    return A if c == B else c


def op_process(ds, ref, n):
    ds.process_circuits(fproc, aggregate=True)
    ref.process(fproc, True)


def fdrop(c):
    return None if c == A else Circuit(("Gz",)) if c == B else c


def op_drop(ds, ref, n):
    ds.process_circuits(fdrop)
    ref.process(fdrop, False)


def op_other(ds, ref, n):
    o, r = DataSet(), Ref()
    for f in (op_counts, op_counts3, op_norep_nozero):
        f(o, r, n)
    o.done_adding_data()
    ds.add_counts_from_dataset(o)
    for c, x in r.rows.items():
        ref.series(c, [e[0] for e in x], [e[1] for e in x], [e[2] for e in x], overwrite=False)
    same(Quiet(), "", o, r)


class Quiet:
    def check(self, lab, cond, detail=""): pass
    def eq(self, *a, **k): pass


OPS = [op_counts, op_counts2, op_counts3, op_set, op_append, op_replace, op_norep, op_norep_nozero, op_zero, op_build, op_lists, op_del,
       op_remove, op_rename, op_process, op_drop, op_other]


def copies(ds, ref):
    """data sets made from this one, each with the table it must keep"""
    for name, f in (("copy", lambda: ds.copy()), ("nonstatic copy", lambda: ds.copy_nonstatic()),
                    ("truncation", lambda: ds.truncate(list(ref.rows))), ("slice", lambda: ds.time_slice(-1, 1000))):
        yield name, f(), ref.copy()


HF = [K + f for f in ("__init__", "add_count_dict", "add_raw_series_data", "add_series_data", "set_row", "__setitem__", "__delitem__", "remove",
                      "_remove", "process_circuits", "rename_outcome_labels", "build_repetition_counts", "add_series_from_dataset",
                      "_keepseparate_update_circuit", "add_auxiliary_info", "update_ol", "get_row", "keys", "items", "values", "copy",
                      "copy_nonstatic", "truncate", "time_slice", "done_adding_data", "get_outcome_labels")] + \
     [R + f for f in ("counts", "allcounts", "total", "_get_counts", "__getitem__", "__iter__")]


@unit(P, "a history of additions, replacements and removals", cases=[(act, i) for act in ("aggregate", "overwrite", "keepseparate") for i in range(len(OPS))],
      extra=X, conc=1, budget=120, funcs=HF)
def history(v, case):
    act, i = case
    n = [v.real("n%d" % j, lo=1) for j in range(6)]
    for (ia, a), (ib, b) in itertools.product(enumerate(OPS), enumerate(OPS)):
        if v.tier == "quick" and (i + ia + ib) % 3 != {"aggregate": 0, "overwrite": 1, "keepseparate": 2}[act]:
            continue
        ds, ref = DataSet(collisionAction=act), Ref(act)
        for f in (OPS[i], a, b):
            if f in (op_process, op_drop) and act == "keepseparate":
                continue        # tags of processed circuits are the processor's affair
            f(ds, ref, n)
        same(v, "after the operations", ds, ref)
        ds.done_adding_data()
        same(v, "once static", ds, ref)


@unit(P, "what is made from a data set is its own", cases=[(act, st, i) for act in ("aggregate", "keepseparate") for st in (False, True) for i in range(len(OPS))
                                                              if act == "aggregate" or OPS[i] not in (op_process, op_drop)],
      extra=X, conc=1, budget=120, funcs=HF)
def sharing(v, case):
    act, st, i = case
    n = [v.real("n%d" % j, lo=1) for j in range(6)]
    later = [op_counts, op_append, op_replace, op_zero, op_drop, op_rename, op_counts2]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for ia, a in enumerate(OPS):
            if v.tier == "quick" and (i + ia + st) % 2 != (act == "aggregate"):
                continue
            if act == "keepseparate" and (a in (op_process, op_drop) or OPS[i] in (op_process, op_drop)):
                continue
            ds, ref = DataSet(collisionAction=act), Ref(act)
            for f in (op_counts2, OPS[i], a):
                f(ds, ref, n)
            if st:
                ds.done_adding_data()
            tmp = list(copies(ds, ref))
            for name, d, r in tmp:
                tr = name in ("truncation", "slice")
                if name == "truncation":
                    r.outs = list(d.get_outcome_labels())
                    v.check("a truncation's outcomes are those of its circuits", set(r.outs) >= {e[0] for x in r.rows.values() for e in x} and
                            set(r.outs) <= set(ref.outs), (r.outs, ref.outs))
                same(v, "made by " + name, d, r, aux=not tr)
            # change what was made; the original and the other ones must not notice
            for k, (name, d, r) in enumerate(tmp):
                if not d.bStatic:
                    if name == "truncation":
                        r.aux = {c: dict(d.auxInfo[c]) for c in d if d.auxInfo[c]}
                    r.action = d.collisionAction
                    for f in later:
                        if not (f is op_drop and act == "keepseparate"):
                            f(d, r, n[::-1])
                    for c in list(d)[:1]:
                        d.add_auxiliary_info(c, {"new": k})
                        r.aux[c] = {"new": k}
                        if d.repData is not None and len(d[c]):
                            d[c].scale(3)
                            r.rows[c] = [(o, t, 3 * m) for o, t, m in r.rows[c]]
                    same(v, "changed " + name, d, r, aux=name != "slice")
                same(v, "the original, after changing a " + name, ds, ref)
            if not st:
                for f in later:
                    if not (f is op_drop and act == "keepseparate"):
                        f(ds, ref, n[::-1])
                same(v, "the original, changed", ds, ref)
                for name, d, r in tmp:
                    same(v, "a " + name + ", after changing the original", d, r, aux=name not in ("truncation", "slice"))


# ------------------------------------------------------------------ queries

SHAPES = [((0, 0),), ((0, 0, 1), (0, 1)), ((0, 1, 1, 3), ()), ((2,), (0, 2, 2), (0,))]


def table(v, shape, reps=True, times=False, norep=False):
    """one circuit per row; entries at (increasing) times; outcomes cycle"""
    ds, ref = DataSet(), Ref()
    k = 0
    for c, row in zip(CIRCS, shape):
        outs = [str((k + j) % 3) for j in range(len(row))]
        cnt = None if norep else [v.real("n%d" % (k + j), lo=1) for j in range(len(row))]
        ds.add_raw_series_data(c, outs, list(row), cnt)
        ref.series(c, outs, list(row), cnt)
        k += len(row)
    return ds, ref


@unit(P, "queries of a row", cases=[(s, nr, st) for s in range(len(SHAPES)) for nr in (False, True) for st in (False, True)], extra=X, conc=4,
      funcs=[R + f for f in ("get_times", "get_timeseries_for_outcomes", "get_timeseries", "get_reps_timeseries", "get_number_of_times",
                             "counts_at_time", "_get_single_count", "timeseries", "fraction", "fractions", "as_dict", "__contains__", "outcomes",
                             "get_meantimestep", "has_constant_totalcounts", "get_totalcounts_per_timestep", "__setitem__", "scale", "__len__")])
def queries(v, case):
    s, nr, st = case
    ds, ref = table(v, SHAPES[s], norep=nr)
    if st:
        ds.done_adding_data()
    for c, x in ref.rows.items():
        row = ds[c]
        ts = sorted(set(e[1] for e in x))
        at = [[e for e in x if e[1] == t] for t in ts]
        v.check("times", list(row.get_times()) == ts and row.get_number_of_times() == len(ts), (row.get_times(), ts))
        v.check("entries", len(row) == len(x) and row.outcomes == [e[0] for e in x], "")
        t1, ser = row.get_timeseries()
        v.check("series times", list(t1) == ts and len(ser) == len(ts), (t1, ts))
        for d, es in zip(ser, at):
            v.check("series outcomes", set(d) == {e[0] for e in es}, (d, es))
            for o in d:
                v.eq("series counts", d[o], tot(e[2] for e in es if e[0] == o))
        t2, so = row.get_timeseries_for_outcomes()
        v.check("series by outcome: times", list(t2) == ts and set(so) == set(ds.get_outcome_labels()), (t2, so))
        for o in so:
            v.eq("series by outcome: counts", so[o], [tot(e[2] for e in es if e[0] == o) for es in at])
        t3, rp = row.get_reps_timeseries()
        v.check("totals: times", list(t3) == ts, (t3, ts))
        if len(rp) == len(ts):
            v.eq("totals in time", rp, [tot(e[2] for e in es) for es in at])
        for t, es in zip(ts + [17], at + [[]]):
            cn = row.counts_at_time(t)
            v.check("counts at a time: outcomes", set(cn) == {e[0] for e in es}, (cn, es))
            for o in cn:
                v.eq("counts at a time", cn[o], tot(e[2] for e in es if e[0] == o))
                v.eq("single count at a time", row._get_single_count(o, t), cn[o])
        for o in ds.get_outcome_labels() + ["all"]:
            sel = [[e for e in es if o == "all" or e[0] == o] for es in at]
            t4, cn = row.timeseries(o)
            keep = [(t, es) for t, es in zip(ts, sel) if es]
            v.check("time series of an outcome: times", [float(t) for t in t4] == [t for t, _ in keep], (o, t4, keep))
            if len(cn) == len(keep):
                v.eq("time series of an outcome", list(cn), [tot(e[2] for e in es) for _, es in keep])
            for req in ([], [0], [1], [0, 1], [0, 1, 3], [-1, 2], [0, 2, 5], [0.5, 1.5, 3, 4], ts):
                t5, cn = row.timeseries(o, req)
                v.check("requested times", [float(t) for t in t5] == [float(t) for t in req], (o, req, t5))
                if len(cn) == len(req):
                    v.eq("counts at the requested times", list(cn), [tot(e[2] for t, es in zip(ts, sel) if t == q for e in es) for q in req])
        if x:
            total = tot(e[2] for e in x)
            fr = row.fractions
            for o in ds.get_outcome_labels():
                mine = tot(e[2] for e in x if e[0] == o)
                v.eq("fraction", row.fraction(o) * total, mine)
                v.eq("fractions", fr.get(o, 0) * total, mine)
                v.eq("single count", row._get_single_count(o), mine)
                v.check("contains the outcomes present", (o in row) == (o in [e[0] for e in x]), o)
            v.raises("unknown outcome", KeyError, lambda: row["nope"])
            for j, e in enumerate(x):
                g = row[j]
                v.check("entry by index", g[0] == e[0] and g[1] == e[1], (g, e))
                v.eq("entry by index: count", g[2], e[2])
            if not st:
                r2 = ref.copy()
                new = (ref.outs[-1], x[0][1], 1 if nr else v.real("z" + c.str, lo=1))
                row[0] = new
                r2.rows[c][0] = new
                same(v, "after setting an entry", ds, r2)
                row[0] = x[0][:2] if nr else x[0]
                same(v, "after setting it back", ds, ref)
                if not nr:
                    row.scale(5)
                    r2 = ref.copy()
                    r2.rows[c] = [(o, t, 5 * m) for o, t, m in x]
                    same(v, "after scaling a row", ds, r2)
                    for j, e in enumerate(x):
                        row[j] = e
        if len(ts) > 1:
            v.eq("mean time step", row.get_meantimestep() * (len(ts) - 1), ts[-1] - ts[0])


@unit(P, "constant totals", cases=[(a, nr) for a in range(4) for nr in (False, True)], extra=X, conc=6,
      funcs=[K + f for f in ("has_constant_totalcounts", "has_constant_totalcounts_pertime", "totalcounts_pertime", "has_trivial_timedependence",
                             "get_meantimestep")] + [R + "has_constant_totalcounts", R + "get_totalcounts_per_timestep"])
def constant(v, case):
    a, nr = case
    shape = [((0, 0), (0, 0)), ((0, 1), (0, 1)), ((0, 0, 2, 2), (1, 1)), ((0, 0, 1), (0, 0))][a]
    ds, ref = DataSet(), Ref()
    k = 0
    for c, row in zip(CIRCS, shape):
        outs = ["01"[j % 2] for j in range(len(row))]
        cnt = None if nr else [v.real("n%d" % (k + j), lo=1) if v.symbolic else v.choice("n%d" % (k + j), [1, 2]) for j in range(len(row))]
        ds.add_raw_series_data(c, outs, list(row), cnt)
        ref.series(c, outs, list(row), cnt)
        k += len(row)
    per, tots = [], []
    for c, x in ref.rows.items():
        ts = sorted(set(e[1] for e in x))
        per.append([tot(e[2] for e in x if e[1] == t) for t in ts])
        tots.append(tot(e[2] for e in x))
    rowsame = [all(bool(p == q[0]) for p in q) for q in per]
    for c, q, s in zip(ref.rows, per, rowsame):
        v.check("constant in time", ds[c].has_constant_totalcounts() == s, (c.str, q))
        if s:
            v.eq("the constant", ds[c].get_totalcounts_per_timestep(), q[0])
        else:
            v.raises("no constant in time", AssertionError, lambda: ds[c].get_totalcounts_per_timestep())
    every = all(rowsame) and all(bool(q[0] == per[0][0]) for q in per)
    v.check("constant per time over circuits", ds.has_constant_totalcounts_pertime() == every, per)
    if every:
        v.eq("the constant per time", ds.totalcounts_pertime(), per[0][0])
    else:
        v.raises("no constant per time", (ValueError, AssertionError), lambda: ds.totalcounts_pertime())
    v.check("constant per circuit", bool(ds.has_constant_totalcounts()) == all(bool(t == tots[0]) for t in tots), tots)
    v.check("trivial times", bool(ds.has_trivial_timedependence()) == all(t == 0 for r in shape for t in r), shape)


@unit(P, "degrees of freedom", cases=list(range(len(SHAPES))), sym=False, conc=2, funcs=[K + "get_degrees_of_freedom", K + "get_gate_labels"])
def dof(v, s):
    ds, ref = table(v, SHAPES[s])
    n = len(ref.outs)
    for sub in (None, list(ref.rows)[:1], list(ref.rows)[1:]):
        cs = list(ref.rows) if sub is None else sub
        for agg in (True, False):
            groups = [[e[0] for e in ref.rows[c] if agg or e[1] == t] for c in cs for t in ([0] if agg else sorted(set(e[1] for e in ref.rows[c])))]
            groups = [set(g) for g in groups if g]
            v.check("present outcomes", ds.get_degrees_of_freedom(sub, aggregate_times=agg) == sum(len(g) - 1 for g in groups), (sub, agg))
            v.check("all outcomes", ds.get_degrees_of_freedom(sub, "all_outcomes-1", agg) == sum(n - 1 for g in groups), (sub, agg))
    v.check("gate labels", [str(l) for l in ds.get_gate_labels()] == list(OD((str(l), 1) for c in ref.rows for l in c if l.name.startswith("G"))), "")


@unit(P, "times are told apart exactly", cases=[2, 3], extra=X, conc=40, funcs=[R + "counts_at_time", K + "time_slice", R + "_get_counts"])
def times(v, n):
    """time stamps are arbitrary increasing numbers, or one large base plus small steps"""
    t = [v.real("t%d" % i) for i in range(n)]
    for a, b in zip(t, t[1:]):
        v.assume(a + 1e-3 <= b)
    cnt = [v.real("n%d" % i, lo=1) for i in range(n)]
    outs = ["0", "1", "0"][:n]
    for base in (0, 10 ** 6):
        ts = [base + x for x in t]
        for reps in (cnt, None):
            ds, ref = DataSet(), Ref()
            ds.add_raw_series_data(A, outs, ts, reps)
            ref.series(A, outs, ts, reps)
            for i in range(n):
                cn = ds[A].counts_at_time(ts[i])
                v.check("only what was seen at that time", list(cn) == [tup(outs[i])], (i, cn))
                v.eq("its count", list(cn.values()), [1 if reps is None else cnt[i]])


@unit(P, "time slices", cases=[(s, nr, agg) for s in range(len(SHAPES)) for nr in (False, True) for agg in (None, 0, 2.5)], extra=X, conc=4,
      funcs=[K + "time_slice"])
def slices(v, case):
    s, nr, agg = case
    ds, ref = table(v, SHAPES[s], norep=nr)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for a, b in itertools.product((-1, 0, 0.5, 1, 3), (0, 0.5, 1, 2, 3, 3.5)):
            sl = ds.time_slice(a, b, agg)
            r = Ref("aggregate", ref.outs)
            for c, x in ref.rows.items():
                r.rows[c] = [(o, t if agg is None else agg, n) for o, t, n in x if a <= t < b]
            same(v, "slice", sl, r, entries=agg is None, aux=False)
            v.check("static", sl.bStatic, "")
            for c, x in r.rows.items():
                if agg is not None:
                    v.check("all at the given time", set(map(float, sl[c].time)) <= {float(agg)}, "")
    same(v, "the original", ds, ref)


@unit(P, "slices at arbitrary times", cases=[1, 2], extra=X, conc=60, budget=60, funcs=[K + "time_slice"])
def slices_sym(v, n):
    t = [v.real("t%d" % i) for i in range(n)]
    a, b = v.real("a"), v.real("b")
    cnt = [v.real("n%d" % i, lo=1) for i in range(n)]
    ds, ref = DataSet(), Ref()
    ds.add_raw_series_data(A, ["0", "1"][:n], t, cnt)
    ref.series(A, ["0", "1"][:n], t, cnt)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sl = ds.time_slice(a, b)
    r = Ref("aggregate", ref.outs)
    r.rows[A] = [e for e in ref.rows[A] if a <= e[1] and e[1] < b]
    same(v, "slice", sl, r, aux=False)


# ------------------------------------------------------------------ truncation, merging, marginals

@unit(P, "truncation", cases=[(s, st) for s in range(len(SHAPES)) for st in (False, True)], extra=X, conc=3, funcs=[K + "truncate", K + "copy_nonstatic"])
def truncation(v, case):
    s, st = case
    ds, ref = table(v, SHAPES[s])
    if st:
        ds.done_adding_data()
    ghost = Circuit(("Gq",))
    have = list(ref.rows)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for keep in [p for r in range(len(have) + 1) for p in itertools.permutations(have, r)] + [have + have[:1]]:
            for act in ("raise", "warn", "ignore"):
                for ask in ([list(keep)] if act == "raise" else [list(keep), [ghost] + list(keep), list(keep) + [("Gq",)]]):
                    tr = ds.truncate(ask, act)
                    r = Ref("aggregate", tr.get_outcome_labels())
                    for c in keep:
                        r.rows[c] = list(ref.rows[c])
                    v.check("outcomes of the kept circuits", set(r.outs) == {e[0] for x in r.rows.values() for e in x}, (r.outs,))
                    same(v, "truncated", tr, r, aux=False)
                    cp = tr.copy_nonstatic()
                    same(v, "truncated and copied", cp, r, aux=False)
                    r2 = r.copy()
                    cp.add_count_dict(A, {"9": 4, "0": 2})
                    r2.counts(A, {"9": 4, "0": 2})
                    same(v, "truncated, copied and added to", cp, r2, aux=False)
                    tr2 = tr.truncate(list(r.rows)[:1])
                    r3 = Ref("aggregate", tr2.get_outcome_labels())
                    for c in list(r.rows)[:1]:
                        r3.rows[c] = list(ref.rows[c])
                    same(v, "truncated twice", tr2, r3, aux=False)
            v.raises("a missing circuit", KeyError, lambda: ds.truncate(list(keep) + [ghost]))
    v.raises("a bad action", ValueError, lambda: ds.truncate([ghost], "what"))
    same(v, "the original", ds, ref)


MERGES = [{"e": ["0", "2"], "d": ["1"]}, {"x": ["0", "1", "2", "7"]}, {"0": ["2"], "1": ["0"], "2": ["1"]}, {("a", "b"): ["1", "2"], ("a", "c"): [("0",)]}]


@unit(P, "merged outcomes", cases=[(s, m, nr) for s in range(len(SHAPES)) for m in range(len(MERGES)) for nr in (False, True)], extra=X, conc=2,
      funcs=[K + "merge_outcomes", D + "merge_outcomes"])
def merging(v, case):
    s, m, nr = case
    ds, ref = table(v, SHAPES[s], norep=nr)
    r = ref.merged(MERGES[m])
    for st in (False, True):
        if st:
            ds.done_adding_data()
        for zeros in (True, False):
            for name, f in (("method", ds.merge_outcomes), ("function", lambda *a: dcm.merge_outcomes(ds, *a))):
                got = f(MERGES[m], zeros)
                same(v, "merged by the " + name, got, r, entries=False, outs=False, aux=False)
                v.check("new outcomes of the " + name, sorted(got.get_outcome_labels()) == r.outs, (got.get_outcome_labels(), r.outs))
                for c, x in r.rows.items():
                    ts = sorted(set(e[1] for e in x))
                    v.check("times kept by the " + name, list(got[c].get_times()) == ts, (c.str, got[c].get_times(), ts))
                    for t in ts:
                        cn = got[c].counts_at_time(t)
                        exp = {e[0]: 1 for e in x if e[1] == t}
                        v.check("outcomes at a time, by the " + name, set(cn) == (set(r.outs) if zeros else set(exp)), (cn, exp))
                        for o in cn:
                            v.eq("merged counts at a time, by the " + name, cn[o], tot(e[2] for e in x if e[1] == t and e[0] == o))
    if m == 0:
        v.raises("directives missing", ValueError, lambda: ds.merge_outcomes({"e": ["0"]}))
        v.raises("directives missing (function)", ValueError, lambda: dcm.merge_outcomes(ds, {"e": ["0"]}))
    same(v, "the original", ds, ref)


@unit(P, "marginal counts of some qubits", cases=[(k, z) for k in ((0,), (1,), (0, 1), (1, 0)) for z in (True, False)], extra=X, conc=3,
      funcs=[D + "filter_dataset", D + "create_merge_dict", D + "create_qubit_merge_dict"])
def marginals(v, case):
    keep, zeros = case
    bits = ["00", "01", "10", "11"]
    circ = [Circuit([("Gx", 0), ("Gy", 1)], line_labels=(0, 1)), Circuit([("Gx", 0), ("Gz", 1)], line_labels=(0, 1)),
            Circuit([("Gy", 1), ("Gcnot", 0, 1)], line_labels=(0, 1))]
    ds, n = DataSet(), {}
    for i, c in enumerate(circ):
        for b in bits:
            n[i, b] = v.real("n%d%s" % (i, b), lo=1)
        ds.add_count_dict(c, {b: n[i, b] for b in bits if not (i == 1 and b == "10")})
    n[1, "10"] = 0
    md = dcm.create_qubit_merge_dict(2, keep)
    v.check("each outcome goes to its kept digits", all("".join(b[q] for q in keep) == k for k, bs in md.items() for b in bs) and
            sorted(b for bs in md.values() for b in bs) == bits, md)
    m = ds.merge_outcomes(md, zeros)
    for i, c in enumerate(circ):
        for k in md:
            v.eq("marginal counts", m[c][k], tot(n[i, b] for b in md[k]))
        v.eq("total kept", m[c].total, tot(n[i, b] for b in bits))
    if keep == (0, 1) or keep == (1, 0):
        f = dcm.filter_dataset(ds, keep, recordZeroCnts=zeros, filtercircuits=False)
        for i, c in enumerate(circ):
            for k in md:
                v.eq("filtered counts", f[c][k], tot(n[i, b] for b in md[k]))
    else:
        f = dcm.filter_dataset(ds, keep, recordZeroCnts=zeros)
        groups = OD()
        for i, c in enumerate(circ):
            d = pygsti.construction.filter_circuit(c, keep)
            if d is not None:
                groups.setdefault(d, []).append(i)
        v.check("filtered circuits", list(f.keys()) == list(groups), (list(f.keys()), list(groups)))
        for d, idx in groups.items():
            for k in md:
                v.eq("aggregated marginal counts", f[d][k], tot(n[i, b] for b in md[k] for i in idx))
    v.eq("the original", [ds[c][b] for c in circ for b in bits[:2]], [n[i, b] for i in range(3) for b in bits[:2]])


@unit(P, "trimming to one number of times", cases=[(nr, act) for nr in (False, True) for act in ("aggregate", "overwrite", "keepseparate")], extra=X, conc=3,
      funcs=[D + "trim_to_constant_numtimesteps"])
def trimming(v, case):
    nr, act = case
    ds, ref = DataSet(collisionAction=act), Ref(act)
    for c, row in zip(CIRCS, ((0, 0, 1, 4), (2, 3, 3, 5), (1, 6))):
        outs = ["0", "1", "0", "1"][:len(row)]
        cnt = None if nr else [v.real("n%s%d" % (c.str, j), lo=1) for j in range(len(row))]
        ds.add_raw_series_data(c, outs, list(row), cnt, aux={"c": [1]})
        ref.series(c, outs, list(row), cnt, aux={"c": [1]})
    for st in (False, True):
        if st:
            ds.done_adding_data()
        got = dcm.trim_to_constant_numtimesteps(ds)
        r = ref.copy()
        for c, x in r.rows.items():
            first = sorted(set(e[1] for e in x))[:2]
            r.rows[c] = sorted([e for e in x if e[1] in first], key=lambda e: e[:2][::-1])
        same(v, "trimmed", got, r)
        same(v, "the original", ds, ref)


# ------------------------------------------------------------------ multi-data sets

def pair(v, kind):
    """two static data sets with the same circuits"""
    ds1, r1, ds2, r2 = DataSet(), Ref(), DataSet(), Ref()
    a = [v.real("a%d" % i, lo=1) for i in range(8)]
    b = [v.real("b%d" % i, lo=1) for i in range(8)]
    one = [0] * 2

    def put(ds, r, c, outs, ts, n, aux=None):
        ds.add_raw_series_data(c, outs, ts, n, aux=aux)
        r.series(c, outs, ts, n, aux=aux)
    put(ds1, r1, A, ["0", "1"], one, a[:2], {"f": [1]})
    put(ds1, r1, B, ["1", "0"], [0, 1], a[2:4])
    put(ds1, r1, C, ["2"], [3], a[4:5])
    if kind == "same":
        put(ds2, r2, A, ["0", "1"], [1, 1], b[:2], {"g": 2})
        put(ds2, r2, B, ["0", "2"], [0, 2], b[2:4])
        put(ds2, r2, C, ["1"], [0], b[4:5])
    elif kind == "longer":
        put(ds2, r2, A, ["0", "1", "2", "0"], [0, 0, 0, 2], b[:4])
        put(ds2, r2, B, ["1"], [0], b[4:5], {"g": 2})
        put(ds2, r2, C, ["0", "1", "2"], [0, 1, 3], b[5:8])
    elif kind == "order":
        put(ds2, r2, C, ["1", "9"], [0, 0], b[:2])
        put(ds2, r2, A, ["1", "0"], [0, 0], b[2:4])
        put(ds2, r2, B, ["9"], [4], b[4:5])
    elif kind == "norep":
        put(ds2, r2, A, ["0", "1"], [1, 1], None)
        put(ds2, r2, B, ["0", "2"], [0, 2], None)
        put(ds2, r2, C, ["1"], [0], None)
    elif kind == "norep longer":
        put(ds2, r2, A, ["0", "1", "0"], [1, 1, 1], None)
        put(ds2, r2, B, ["0"], [0], None)
        put(ds2, r2, C, ["5"], [0], None)
    ds1.done_adding_data()
    ds2.done_adding_data()
    return ds1, r1, ds2, r2


def holds(v, lab, ds, ref):
    """the same counts at the same times (a multi-data set may pad rows with zero counts)"""
    v.check(lab + ": circuits", set(ds.keys()) == set(ref.rows), "")
    for c, x in ref.rows.items():
        row = ds[c]
        cn = row.counts
        for o in set(cn) | {e[0] for e in x}:
            v.eq(lab + ": counts", cn.get(o, 0), tot(e[2] for e in x if e[0] == o))
        v.eq(lab + ": total", row.total, tot(e[2] for e in x))
        for t in sorted(set(e[1] for e in x)):
            ct = row.counts_at_time(t)
            for o in set(ct) | {e[0] for e in x if e[1] == t}:
                v.eq(lab + ": counts at a time", ct.get(o, 0), tot(e[2] for e in x if e[1] == t and e[0] == o))


KINDS = ("same", "longer", "order", "norep", "norep longer")


@unit(P, "multi-data sets", cases=[(k, flip) for k in KINDS for flip in (False, True)], extra=X, conc=3,
      funcs=[M + f for f in ("__init__", "add_dataset", "__getitem__", "items", "values", "keys", "get_datasets_aggregate", "copy", "get_outcome_labels")])
def multi(v, case):
    kind, flip = case
    ds1, r1, ds2, r2 = pair(v, kind)
    if flip:
        ds1, r1, ds2, r2 = ds2, r2, ds1, r1
    m = MultiDataSet()
    m["one"] = ds1
    view = m["one"]
    c1 = m.copy()
    m.add_dataset("two", ds2)
    m.add_dataset("three", ds1)
    v.check("names", m.keys() == ["one", "two", "three"] and len(m) == 3 and "two" in m and "four" not in m, "")
    for nm, r in (("one", r1), ("two", r2), ("three", r1)):
        holds(v, "got by name", m[nm], r)
    for (nm, d), d2, r in zip(m.items(), m.values(), (r1, r2, r1)):
        holds(v, "got by iteration", d, r)
        holds(v, "got by value", d2, r)
    holds(v, "a view taken before", view, r1)
    holds(v, "a copy taken before", c1["one"], r1)
    v.check("the copy has its own names", c1.keys() == ["one"], c1.keys())
    same(v, "the first data set", ds1, r1)
    same(v, "the second data set", ds2, r2)
    for c in r1.rows:
        want = dict(r1.aux.get(c, {}))
        want.update(r2.aux.get(c, {}))
        v.check("auxiliary information of both", dict(m.auxInfo[c]) == want, (dict(m.auxInfo[c]), want))
        v.check("auxiliary information of the earlier copy", dict(c1.auxInfo[c]) == r1.aux.get(c, {}), "")
    for names, rs in ((("one", "two"), (r1, r2)), (("two",), (r2,)), (("one", "two", "three"), (r1, r2, r1))):
        agg = m.get_datasets_aggregate(*names)
        r = Ref()
        for c in r1.rows:
            r.rows[c] = [e for q in rs for e in q.rows[c]]
        holds(v, "aggregate", agg, r)
        for c in r.rows:
            pairs = [(o, t) for o, t, _ in agg[c]]
            v.check("aggregate has one entry for an outcome and time, in time order",
                    len(set(pairs)) == len(pairs) and [float(p[1]) for p in pairs] == sorted(float(p[1]) for p in pairs), pairs)
    v.raises("no such data set", ValueError, lambda: m.get_datasets_aggregate("zzz"))
    c2 = m.copy()
    c2.add_auxiliary_info(A, {"mine": 1})
    c2["four"] = ds2
    v.check("a copy's additions are its own", m.keys() == ["one", "two", "three"] and "mine" not in m.auxInfo[A], "")
    for nm, r in (("one", r1), ("two", r2), ("three", r1), ("four", r2)):
        holds(v, "in a copy", c2[nm], r)
    bad = DataSet()
    bad.add_count_dict(A, {"0": 1})
    v.raises("only static ones", ValueError, lambda: m.add_dataset("bad", bad))
    bad.done_adding_data()
    v.raises("only the same circuits", ValueError, lambda: m.add_dataset("bad", bad))


@unit(P, "zero counts in an aggregate", extra=X, conc=3, funcs=[M + "get_datasets_aggregate"])
def multi_zero(v):
    ds, r = DataSet(), Ref()
    ds.add_raw_series_data(A, ["0", "1"], [0, 0], [1, 0])
    r.series(A, ["0", "1"], [0, 0], [1, 0])
    ds.add_raw_series_data(B, [], [], [])
    r.series(B, [], [], [])
    ds.done_adding_data()
    e = DataSet()
    n = v.real("n", lo=1)
    e.add_raw_series_data(A, ["0", "1"], [1, 1], [0, n])
    e.add_raw_series_data(B, [], [], [])
    q = Ref()
    q.series(A, ["0", "1"], [1, 1], [0, n])
    q.series(B, [], [])
    e.done_adding_data()
    m = MultiDataSet()
    m["a"] = ds
    m["b"] = e
    holds(v, "one", m.get_datasets_aggregate("a"), r)
    r.rows[A] = r.rows[A] + q.rows[A]
    holds(v, "two", m.get_datasets_aggregate("a", "b"), r)


# ------------------------------------------------------------------ bounded: long histories, pickles, files, sampling

def rand_ds(v, nops, act):
    ds, ref = DataSet(collisionAction=act), Ref(act)
    for _ in range(nops):
        f = OPS[int(v.rng.integers(len(OPS)))] if hasattr(v.rng, "integers") else OPS[v.rng.randrange(len(OPS))]
        if f in (op_process, op_drop) and act == "keepseparate":
            continue
        n = [int(x) for x in (v.rng.integers(1, 50, 6) if hasattr(v.rng, "integers") else [v.rng.randrange(1, 50) for _ in range(6)])]
        f(ds, ref, n)
    return ds, ref


def through_file(ds, ext):
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "x" + ext)
        ds.save(fn)
        return type(ds)(fileToLoadFrom=fn)


@unit(P, "long histories, pickles and files", cases=["aggregate", "overwrite", "keepseparate"], sym=False, conc=12,
      funcs=[K + f for f in ("__getstate__", "__setstate__", "save", "load")] + HF)
def files(v, act):
    ds, ref = rand_ds(v, 9, act)
    same(v, "long history", ds, ref)
    for st in (False, True):
        if st:
            ds.done_adding_data()
        for name, f in (("pickle", lambda: pickle.loads(pickle.dumps(ds))), ("file", lambda: through_file(ds, ".bin")),
                        ("compressed file", lambda: through_file(ds, ".gz")), ("deep copy", lambda: copy.deepcopy(ds))):
            got = f()
            v.check(name + ": kind", got.bStatic == ds.bStatic and got.collisionAction == ds.collisionAction and got.comment == ds.comment, "")
            same(v, name, got, ref)
            r = ref.copy()
            if not st:
                for g in (op_counts, op_append, op_counts2):
                    g(got, r, [1, 2, 3, 4, 5, 6])
                same(v, name + ", added to", got, r)
            else:
                same(v, name + ", copied", got.copy_nonstatic(), r)
                same(v, name + ", merged", got.merge_outcomes({str(o): [o] for o in ref.outs}), ref.merged({str(o): [o] for o in ref.outs}),
                     entries=False, outs=False, aux=False) if ref.outs else None
            same(v, "the original", ds, ref)
    norep, rn = DataSet(comment="hi"), Ref()
    op_norep(norep, rn, [])
    for st in (False, True):
        if st:
            norep.done_adding_data()
        for f in (lambda: pickle.loads(pickle.dumps(norep)), lambda: through_file(norep, ".bin"), lambda: norep.copy()):
            got = f()
            same(v, "no repetitions", got, rn)
            v.check("comment", got.comment == "hi", got.comment)
    e = MultiDataSet()
    for f in (lambda: pickle.loads(pickle.dumps(e)), lambda: through_file(e, ".bin"), lambda: e.copy()):
        m = f()
        m["x"] = ds if ds.bStatic else norep
        same(v, "added to an empty multi-data set", m["x"], ref, aux=False)
    ds1, r1, ds2, r2 = pair(v, v.choice("kind", list(KINDS)))
    m = MultiDataSet(comment="c")
    m["one"] = ds1
    for f in (lambda: pickle.loads(pickle.dumps(m)), lambda: through_file(m, ".bin"), lambda: through_file(m, ".gz"), lambda: copy.deepcopy(m)):
        g = f()
        g["two"] = ds2
        holds(v, "multi-data set read back", g["one"], r1)
        holds(v, "multi-data set read back and added to", g["two"], r2)
        v.check("comment", g.comment == "c", g.comment)


@unit(P, "simulated data", cases=["none", "clip", "round", "multinomial", "binomial"], sym=False, conc=3, funcs=[D + "generate_fake_data"])
def fake(v, err):
    from pygsti.construction import std1Q_XYI as std
    mdl = std.target_model().depolarize(op_noise=0.05, spam_noise=0.02)
    cs = [Circuit(()), A, B, Circuit(("Gx", "Gx", "Gy"))]
    seed = int(v.rng.integers(1000)) if hasattr(v.rng, "integers") else v.rng.randrange(1000)
    for N in (50, [10, 20, 30, 40]):
        per = N if isinstance(N, list) else [N] * 4
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = dcm.generate_fake_data(mdl, cs, N, err, seed=seed)
            again = dcm.generate_fake_data(mdl, cs, N, err, seed=seed)
            back = dcm.generate_fake_data(ds, cs, N, err, seed=seed)
            mapm = mdl.copy()
            mapm.set_simtype("map")
            timed = dcm.generate_fake_data(mapm, cs, N, err, seed=seed, times=[0, 1.5])
            alias = dcm.generate_fake_data(mdl, [Circuit(("Gxx",))], 20, "none", aliasDict={"Gxx": ("Gx", "Gx")})
        v.check("circuits", list(ds.keys()) == cs and list(timed.keys()) == cs, "")
        for c, n in zip(cs, per):
            p = mdl.probs(c)
            v.check("outcomes", set(ds[c].allcounts) == set(p), "")
            for o in p:
                x = ds[c].counts.get(o, 0)
                v.check("same seed, same data", x == again[c].counts.get(o, 0), "")
                if err in ("none", "clip"):
                    v.eq("expected counts", x, n * p[o], tol=1e-5)
                    v.eq("expected counts of the data", back[c].counts.get(o, 0), x, tol=1e-5)
                elif err == "round":
                    v.eq("rounded counts", x, round(n * p[o]))
                else:
                    v.check("whole numbers", x == int(x) and 0 <= x <= n, x)
            if err != "round":
                v.eq("total", ds[c].total, n, tol=1e-5)
                v.eq("total at each time", [tot(timed[c].counts_at_time(t).values()) for t in (0, 1.5)], [n, n], tol=1e-5)
        pa = mdl.probs(Circuit(("Gx", "Gx")))
        for o in pa:
            v.eq("aliases", alias[Circuit(("Gxx",))].counts.get(o, 0), 20 * pa[o], tol=1e-5)
    src, ref = table(v, SHAPES[0])
    cp = dcm.generate_fake_data(src, list(ref.rows), None, "none")
    src.add_count_dict(B, {"new": 3})
    v.check("simulated from data: labels of its own", list(cp.get_outcome_labels()) == ref.outs, (cp.get_outcome_labels(), ref.outs))

"""C10: circuits and data survive being written to text and read back."""

LEVEL = "exploration"
LEVEL_NOTE = ("Bounded: every label, layer, circuit, data table and list from the listed menus (all their combinations up to the stated sizes) is "
              "written and read back; both parsers are run on every string. Nothing here is counted as proved: the parsers are recursive "
              "string scanners with no contract in reach of the verifier.")
ASSUMPTIONS = ["names follow the documented grammar (G, I, M, rho prefixes; lower case letters, digits, underscores); label arguments are strings; "
               "times have at most six decimals; circuit labels are unnamed and their state space labels are those of their layers",
               "compound layers with arguments are outside the grammar and are not written"]
import itertools
import os
import random
import tempfile
import warnings
import numpy as np
import pygsti
import pygsti.io as io
import pygsti.objects.circuit as circ_mod
from pygsti.objects.circuit import Circuit
from pygsti.objects import DataSet, MultiDataSet
from pygsti.objects.label import Label as L, CircuitLabel, LabelTupTup
from pygsti.io.circuitparser import slowcircuitparser as slow
try:
    from pygsti.io.circuitparser import fastcircuitparser as fast
except ImportError:
    fast = None
from pyvc.facade import unit

P = "C10"
CI = "pygsti.objects.circuit."
LB = "pygsti.objects.label."
SP = "pygsti.io.circuitparser.slowcircuitparser."
FP = "pygsti.io.circuitparser.fastcircuitparser."
ST = "pygsti.io.stdinput.StdInputParser."
WR = "pygsti.io.writers."
LD = "pygsti.io.loaders."
PARSERS = [("slow", slow)] + ([("fast", fast)] if fast is not None else [])


def sig(l):
    """everything a label says, its time included"""
    if isinstance(l, CircuitLabel):
        return ("C", l.name, l.sslbls, l.reps, float(l.time), tuple(sig(c) for c in l.components))
    if type(l).__name__.startswith("LabelTupTup"):
        return ("L", tuple(l.args), float(l.time), tuple(sig(c) for c in l.components))
    return ("S", str(l.name), tuple(l.args), l.sslbls, float(l.time))


def outcome(parse, s, sub=True, integer=True):
    try:
        ls, lines = parse(s, sub, integer)
    except ValueError:
        return "refused"
    return tuple(sig(x if isinstance(x, L) else L(x)) for x in ls), None if lines is None else tuple(lines)


NAMES = ["Gx", "Gcnot", "Gx_1", "G9", "Iz", "G"]
SSL = [None, (0,), (1, 0), ("Q0",), ("q2", "3"), ("12",), ("a_b", "Qx", "7")]
ARGS = [None, ("0.5",), ("a", "b/2"), ("Q1_x",)]
TIMES = [0.0, 1.0, 0.25, 0.000001, 123456.5, 100.0]


def simple_labels():
    out = []
    for n, s, a, t in itertools.product(NAMES[:4], SSL, ARGS, TIMES[:4]):
        out.append(L(n, s, t, a))
    for n, t in itertools.product(NAMES, TIMES):
        out.append(L(n, None, t))
        out.append(L(n, (0, 1), t))
    return out


SMALL = [L("Gx"), L("Gx", 0), L("Gy", 2, 0.5), L("Gz", (1, 0), 0.0, ("0.3",)), L("Iz", 0, 0.25), L("Gi", None, 2.0)]
NAMED = [L("Gx"), L("Gx", "Q0"), L("Gy", "b_1", 0.5), L("Gz", ("Q1", "Q0"), 0.0, ("a/2", "3")), L("Iz", "Q0", 0.25), L("Gi", None, 2.0)]


def sslbls_of(ls):
    return L(ls).sslbls


def sub(ls, n, time=None):
    return CircuitLabel("", ls, sslbls_of(ls), n, time)


def layers(SMALL=SMALL):
    out = list(SMALL)
    out.append(L(()))
    for k in (2, 3):
        for c in itertools.product(SMALL[:5], repeat=k):
            out.append(L(c))
    subs = []
    base = SMALL[:5] + [L((SMALL[1], SMALL[2])), L(())]
    for c in base:
        for n in (1, 2, 3, 10):
            subs.append(sub([c], n))
    for c in itertools.product(base, repeat=2):
        for n in (1, 2):
            subs.append(sub(c, n))
    subs.append(sub([sub([SMALL[0], SMALL[1]], 2), SMALL[2]], 3))
    subs.append(sub([sub([sub([SMALL[1]], 2)], 2)], 2))
    out += subs
    for s in subs[::3]:
        for l in SMALL[1:3]:
            out.append(L((s, l)))
            out.append(L((l, s)))
    out.append(L((subs[2], subs[5], subs[9])))
    return out


def circuits_of(v):
    """circuits of the menus with the line labels that can go with them"""
    for i, names in enumerate((SMALL, NAMED)):
        yield from circuits_from(names, ("Qz", "c") if i else (7, 40))


def circuits_from(SMALL, more):
    lay = layers(SMALL)
    rng = random.Random(11)
    seqs = [()] + [(l,) for l in lay] + [(a, b) for a in SMALL for b in lay[:7] + lay[-4:]]
    for _ in range(400):
        seqs.append(tuple(rng.choice(lay) for _ in range(rng.randint(2, 5))))
    for p, m in ((L("rho0"), L("Mdefault")), (L("rho"), L("M_1", SMALL[3].sslbls))):
        for s in ((), (SMALL[1],), (SMALL[0], lay[8])):
            seqs.append((p,) + s)
            seqs.append(s + (m,))
            seqs.append((p,) + s + (m,))
    for i, s in enumerate(seqs):
        yield s, "auto"
        expl = sorted(circ_mod._accumulate_explicit_sslbls(tuple(itertools.chain(*[l.expand_subcircuits() for l in s]))), key=str)
        if i % 2 == 0:
            yield s, tuple(expl) + more
        if i % 5 == 0:
            yield s, tuple(reversed(expl)) + more[:1]
        if i % 7 == 0 and not expl:
            yield s, ()
            yield s, ("*",)


# ------------------------------------------------------------------ labels and circuits

@unit(P, "labels are read back", sym=False, exact=True,
      funcs=[LB + n + ".__str__" for n in ("LabelTup", "LabelStr", "LabelTupTup", "CircuitLabel", "LabelTupWithArgs")]
      + [SP + n for n in ("parse_circuit", "_get_next_lbls", "_get_next_simple_lbl", "_parse_exponent")] + [FP + n for n in ("parse_circuit", "get_next_lbls", "get_next_simple_lbl", "parse_exponent")])
def labels(v):
    for name, mod in PARSERS:
        for l in simple_labels():
            v.check("simple label (%s)" % name, outcome(mod.parse_circuit, str(l)) == ((sig(l),), None), "%s -> %s" % (str(l), outcome(mod.parse_circuit, str(l))))
        for l in layers() + layers(NAMED):
            s = circ_mod._opSeqToStr((l,), None)
            v.check("layer (%s)" % name, outcome(mod.parse_circuit, s) == ((sig(l),), None), "%s -> %s" % (s, outcome(mod.parse_circuit, s)))


@unit(P, "circuits are read back", sym=False, exact=True,
      funcs=[CI + n for n in ("Circuit.__init__", "Circuit.str", "Circuit.__add__", "Circuit.repeat", "_opSeqToStr", "Circuit.copy", "Circuit.done_editing")])
def circuits(v):
    def back(c, expand, what):
        s = c.str
        for how, d in (("stringrep", lambda: Circuit(None, stringrep=s, expand_subcircuits=expand)), ("constructor", lambda: Circuit(s, expand_subcircuits=expand))):
            try:
                d = d()
            except ValueError as e:
                v.check("circuit string is accepted", False, "%s: %s: %s" % (what, s, e))
                return
            v.check("circuit equals what was written", d == c and d.line_labels == c.line_labels and tuple(map(sig, d.layertup)) == tuple(map(sig, c.layertup)) and d.str == s,
                    "%s (%s): %s -> %s %s" % (what, how, s, d.tup, c.tup))
    n = 0
    for s, lines in circuits_of(v):
        for expand in (False, True):
            c = Circuit(s, lines, expand_subcircuits=expand)
            back(c, expand, "built")
            if n % 3 == 0:
                e = Circuit(s, lines, expand_subcircuits=expand, editable=True)
                try:
                    d = Circuit(None, stringrep=e.str, editable=True, expand_subcircuits=expand)
                    v.check("circuit equals what was written", d == e, "editable %s" % e.str)
                except ValueError as err:
                    v.check("circuit string is accepted", False, "editable: %s: %s" % (e.str, err))
                e.done_editing()
                back(e, expand, "done editing")
        n += 1


@unit(P, "derived circuits are read back", sym=False, exact=True, funcs=[CI + "Circuit." + n for n in ("__add__", "repeat", "copy", "clear", "insert_layer", "set_labels", "str", "__getitem__", "append_circuit", "map_state_space_labels", "reorder_lines", "replace_layer_with_layer", "replace_gatename", "serialize", "parallelize", "reverse", "delete_layers", "line_labels")])
def derived(v):
    def back(c, what, expand=True):
        s = c.str
        try:
            d = Circuit(None, stringrep=s, expand_subcircuits=expand)
        except ValueError as e:
            v.check("string of a derived circuit is accepted", False, "%s: %s: %s" % (what, s, e))
            return
        v.check("string of a derived circuit gives it back", d == c, "%s: %s -> %s, is %s" % (what, s, d.tup, c.tup))
    menu = [Circuit(s, lines) for s, lines in list(circuits_of(v))[::29]]
    menu = [c for c in menu if not any(str(l.name).startswith(("rho", "M")) for l in c.layertup)][:45]
    menu += [Circuit("(Gx:0Gy:1)^2Gz:0"), Circuit("{}@(0,1)"), Circuit("{}"), Circuit("Gx*Gy"), Circuit("[Gx:0Gy:1]@(0,1,2)")]
    for a in menu:
        for b in menu[::3]:
            back(a + b, "sum")
        for k in (0, 1, 2, 3):
            back(a * k, "power")
            if k == 0 or a.line_labels == ("*",) or (len(a) and L(a.layertup).sslbls == a.line_labels):
                back(a.repeat(k, expand=False), "unexpanded power", False)
        back(a.copy(), "copy")
        if len(a) > 1:
            back(a[1:], "slice")
            back(a[0:1], "slice")
        back(a.serialize(), "serialize")
        back(a.map_state_space_labels({l: ("q%s" % l if l != "*" else l) for l in a.line_labels}), "map lines")
        back(a, "itself")
        e = a.copy(editable=True)
        if e.line_labels != ("*",):
            e.insert_idling_lines(None, ["Qnew"])
            back(e.copy(editable=False), "idling line")
        e = a.copy(editable=True)
        e.insert_layer(L("Gn"), 0) if e.line_labels == ("*",) else e.insert_layer(L("Gn", e.line_labels[:1]), 0) if len(e.line_labels) else None
        back(e, "editable after insertion")
        back(e.copy(editable=False), "after insertion")
        e.str = e.str
        e.reverse()
        back(e, "editable whose string was set")
        e.done_editing()
        back(e, "after editing")
        f = a.copy()
        f.line_labels = tuple(f.line_labels) + ("Qmore",) if f.line_labels != ("*",) else f.line_labels
        back(f, "more lines")


# ------------------------------------------------------------------ grammar

PIECES = ["Gx", "Gy:0", "G:Q1:2", "Iz;0.5:0", "!0.5", "!", "{}", "(", ")", "[", "]", "^2", "^0", "^", "*", "rho0", "Mdef", "@(0,1)", "@()", "@", " ", ":", ";", "x", "(Gx)^3", "[Gy:0Gz:1]", "{", "#", "S<a>"]


@unit(P, "parsers agree", sym=False, exact=True, funcs=[SP + "parse_circuit", FP + "parse_circuit", "pygsti.io.circuitparser.CircuitParser.parse"])
def agree(v):
    if fast is None:
        return
    rng = random.Random(5)
    strs = ["".join(c) for k in (1, 2, 3) for c in itertools.product(PIECES, repeat=k)]
    strs += ["".join(rng.choice(PIECES) for _ in range(rng.randint(4, 9))) for _ in range(15000)]
    for s in strs:
        if s.count("@") > 1:
            continue
        for a in ((True, True), (False, True), (True, False), (False, False)):
            x, y = outcome2(slow.parse_circuit, s, *a), outcome2(fast.parse_circuit, s, *a)
            v.check("both parsers read the same", x == y, "%r %s: slow %s, fast %s" % (s, a, x, y))


def outcome2(parse, s, *a):
    try:
        return outcome(parse, s, *a)
    except (IndexError, OverflowError, AssertionError, TypeError) as e:
        return type(e).__name__


GRAMMAR = [("Gx", (("Gx",),), None), ("GxGy", (("Gx",), ("Gy",)), None), ("Gx*Gy", (("Gx",), ("Gy",)), None), ("Gx^3", (("Gx",),) * 3, None),
           ("Gx:0^2Gy:1", (("Gx", 0), ("Gx", 0), ("Gy", 1)), None), ("(GxGy)^2", (("Gx",), ("Gy",)) * 2, None), ("(Gx(Gy)^2)^2", (("Gx",), ("Gy",), ("Gy",)) * 2, None),
           ("{}", (), None), ("{}@(0,1)", (), (0, 1)), ("Gx:0@(0,Q1)", (("Gx", 0),), (0, "Q1")), ("{}@(Q0)", (), ("Q0",)), ("{}^5Gx", (("Gx",),), None), ("[]", ((),), None), ("[]^2Gx", ((), (), ("Gx",)), None),
           ("[Gx:0Gy:1]Gz:2", ((("Gx", 0), ("Gy", 1)), ("Gz", 2)), None), ("[Gx:0]", (("Gx", 0),), None), ("rho0GxMdef", (("rho0",), ("Gx",), ("Mdef",)), None),
           ("Gx(Gy)^0Gz", (("Gx",), ("Gz",)), None), ("(Gx)^1", (("Gx",),), None), ("GxGx:Q0:q1", (("Gx",), ("Gx", "Q0", "q1")), None)]


@unit(P, "grammar", sym=False, exact=True, funcs=[SP + "parse_circuit", FP + "parse_circuit", CI + "Circuit.__init__"])
def grammar(v):
    def t(l):
        return tuple(map(t, l.components)) if type(l).__name__ == "LabelTupTup" else (str(l.name),) + tuple(l.sslbls or ())
    for name, mod in PARSERS:
        for s, ls, lines in GRAMMAR:
            got, lin = mod.parse_circuit(s, False, True)
            v.check("what a string means (%s)" % name, tuple(map(t, got)) == ls and (None if lin is None else tuple(lin)) == lines, "%s -> %s" % (s, got))
            c = Circuit(s)
            v.check("what a string means (circuit)", tuple(map(t, c.layertup)) == ls, "%s -> %s" % (s, c.layertup))


# ------------------------------------------------------------------ files

COUNTS = [0, 1, 17, 100, 999999, 1234567, 16777216, 2.5, 0.125, 1234.0625]
OUTC = [("0",), ("1",), ("00",), ("+",), ("0", "1"), ("m0", "x", "11")]
AUX = [None, {"a": 1}, {"s": "x # y", "t": (1, 2)}, {"k": "two  spaces"}, {"nl": "a\nb", "f": 0.1}, {3: [1, "'"]}]


def some_circuits(n, seed):
    rng = random.Random(seed)
    pool = [Circuit(s, lines) for s, lines in list(circuits_of(None))[3::17]] + [Circuit("(GxGy)^4"), Circuit("{}"), Circuit("Gx:0@(0,1)"), Circuit("Gx:0")]
    out = []
    while len(out) < n:
        c = rng.choice(pool)
        if c not in out:
            out.append(c)
    return out


def rows_of(ds):
    out = []
    for k in ds.keys():
        r = ds[k]
        out.append((k, k.line_labels, list(map(tuple, r.outcomes)), list(map(float, r.time)), [1.0] * len(r.time) if r.reps is None else list(map(float, r.reps)), dict(r.aux)))
    return out


def totals_of(ds):
    return [(k, k.line_labels, {tuple(o): float(c) for o, c in ds[k].counts.items()}, dict(ds[k].aux)) for k in ds.keys()]


def compare(v, label, got, exp, what):
    v.check(label, got == exp, "" if got == exp else "%s: read %s, wrote %s" % ((what,) + next(((g, e) for g, e in itertools.zip_longest(got, exp) if g != e), (got, exp))))


class Scratch:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix="c10_")
        self.n = 0
        return self

    def file(self):
        self.n += 1
        return os.path.join(self.d.name, "f%d.txt" % self.n)

    def __exit__(self, *a):
        self.d.cleanup()


@unit(P, "data sets are read back", sym=False, exact=True,
      funcs=[WR + "write_dataset", WR + "_outcome_to_str", LD + "load_dataset"] + [ST + n for n in ("parse_datafile", "parse_dataline", "_fillDataCountDict", "_extractLabelsFromColLabels")])
def datasets(v):
    rng = random.Random(3)
    with Scratch() as tmp:
        for trial in range(60 if v.tier == "quick" else 200):
            keep = trial % 3 == 2
            outs = rng.sample(OUTC, rng.randint(1, len(OUTC)))
            ds = DataSet(outcomeLabels=outs, collisionAction="keepseparate" if keep else "aggregate", comment=None if trial % 4 else "one\n# two")
            cs = some_circuits(rng.randint(1, 8), trial)
            for c in cs:
                for _ in range(rng.randint(1, 3) if keep else 1):
                    full = trial % 2 == 0
                    cnt = {o: rng.choice(COUNTS) for o in outs if full or rng.random() < 0.7}
                    if not cnt:
                        cnt = {outs[0]: 5}
                    ds.add_count_dict(c, cnt, aux=rng.choice(AUX))
            ds.done_adding_data()
            exp = totals_of(ds)
            for fixed, kw in ((True, {}), (False, {}), (False, {"withTimes": False})):
                f = tmp.file()
                io.write_dataset(f, ds, fixedColumnMode=fixed, **kw)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = io.load_dataset(f, collisionAction=ds.collisionAction, ignoreZeroCountLines=False, verbosity=0)
                compare(v, "data set equals what was written", totals_of(got), exp, "trial %d fixed=%s %s" % (trial, fixed, kw))
                if fixed:
                    v.check("outcome labels are kept in order", list(map(tuple, got.get_outcome_labels())) == list(map(tuple, ds.get_outcome_labels())), "trial %d" % trial)
            order = list(outs)
            rng.shuffle(order)
            some = list(ds.keys())[::2]
            f = tmp.file()
            io.write_dataset(f, ds, some, outcomeLabelOrder=[o[0] if len(o) == 1 else o for o in order])
            got = io.load_dataset(f, collisionAction=ds.collisionAction, ignoreZeroCountLines=False, verbosity=0)
            if not keep:
                compare(v, "given circuits and outcome order", totals_of(got), [e for e in exp if e[0] in some], "trial %d" % trial)
            v.check("outcome labels are kept in order", list(map(tuple, got.get_outcome_labels())) == order, "trial %d" % trial)


@unit(P, "time-stamped data sets are read back", sym=False, exact=True, funcs=[WR + "write_dataset", ST + "parse_datafile"])
def timed(v):
    rng = random.Random(4)
    TM = [0, 0.5, 1, 2.25, 1000000.5, 1605800000.125, 1e-7, 3.141592653589793]
    with Scratch() as tmp:
        for trial in range(60 if v.tier == "quick" else 200):
            keep = trial % 3 == 2
            outs = rng.sample(OUTC, rng.randint(1, 4))
            ds = DataSet(outcomeLabels=outs, collisionAction="keepseparate" if keep else "aggregate")
            reps = trial % 2 == 0
            for c in some_circuits(rng.randint(1, 6), trial):
                for _ in range(rng.randint(1, 2) if keep else 1):
                    n = rng.randint(1, 6)
                    ts = sorted(rng.choice(TM) for _ in range(n))
                    ds.add_raw_series_data(c, [rng.choice(outs) for _ in range(n)], ts, [rng.choice([1, 2, 40, 1000000, 1234567, 2.5]) for _ in range(n)] if reps else None, aux=rng.choice(AUX))
            ds.done_adding_data()
            exp = rows_of(ds)
            for kw in ({"withTimes": True}, {}):
                if not kw and ds.has_trivial_timedependence():
                    continue
                f = tmp.file()
                io.write_dataset(f, ds, fixedColumnMode=False, **kw)
                got = io.load_dataset(f, collisionAction=ds.collisionAction, verbosity=0)
                compare(v, "time-stamped data equal what was written", rows_of(got), exp, "trial %d" % trial)


@unit(P, "multi data sets are read back", sym=False, exact=True,
      funcs=[WR + "write_multidataset", LD + "load_multidataset"] + [ST + n for n in ("parse_multidatafile", "_fillMultiDataCountDicts", "_extractLabelsFromMultiDataColLabels")])
def multi(v):
    rng = random.Random(6)
    from pygsti.io.stdinput import StdInputParser
    with Scratch() as tmp:
        for trial in range(50 if v.tier == "quick" else 150):
            keep = trial % 3 == 2
            ca = "keepseparate" if keep else "aggregate"
            cs = some_circuits(rng.randint(1, 6), trial)
            times = [rng.randint(1, 2) if keep else 1 for _ in cs]
            outs = rng.sample([o for o in OUTC], rng.randint(1, 4))
            mds = MultiDataSet(comment=None if trial % 4 else "note")
            labels = ["ds1", "DS_b", "x"][:rng.randint(1, 3)]
            for lab in labels:
                ds = DataSet(outcomeLabels=outs, collisionAction=ca)
                for c, t in zip(cs, times):
                    for _ in range(t):
                        ds.add_count_dict(c, {o: rng.choice([k for k in COUNTS if k == 0 or k >= 1]) for o in outs if trial % 2 or rng.random() < 0.7} or {outs[0]: 3})
                ds.done_adding_data()
                mds.add_dataset(lab, ds)
            for c in mds[labels[0]].keys():
                a = rng.choice(AUX)
                if a is not None:
                    mds.add_auxiliary_info(c, a)
            f = tmp.file()
            io.write_multidataset(f, mds)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = StdInputParser().parse_multidatafile(f, False, collisionAction=ca, ignoreZeroCountLines=False)
            v.check("data sets of a multi data set", list(got.keys()) == labels, str(list(got.keys())))
            for lab in labels:
                compare(v, "multi data set equals what was written", [r[:3] for r in totals_of(got[lab])], [r[:3] for r in totals_of(mds[lab])], "trial %d %s" % (trial, lab))
            compare(v, "auxiliary information is kept", [(k, got.auxInfo[k]) for k in mds[labels[0]].keys()], [(k, mds.auxInfo[k]) for k in mds[labels[0]].keys()], "trial %d" % trial)
            if not any(all(sum(mds[l][c].counts.values()) == 0 for l in labels) for c in mds[labels[0]].keys()):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    again = io.load_multidataset(f, collisionAction=ca, verbosity=0)
                for lab in labels:
                    compare(v, "multi data set equals what was written", [r[:3] for r in totals_of(again[lab])], [r[:3] for r in totals_of(mds[lab])], "loader, trial %d %s" % (trial, lab))


@unit(P, "circuit lists are read back", sym=False, exact=True, funcs=[WR + "write_circuit_list", WR + "write_empty_dataset", LD + "load_circuit_list", LD + "load_circuit_dict", ST + "parse_stringfile", ST + "parse_dictfile", ST + "parse_dictline"])
def lists(v):
    with Scratch() as tmp:
        for trial in range(40):
            cs = some_circuits(1 + trial % 9, trial)
            f = tmp.file()
            io.write_circuit_list(f, cs, None if trial % 2 else "a header")
            got = io.load_circuit_list(f)
            v.check("circuit list equals what was written", [(c, c.line_labels) for c in got] == [(c, c.line_labels) for c in cs], "trial %d" % trial)
            v.check("raw strings", io.load_circuit_list(f, readRawStrings=True) == [c.str for c in cs], "trial %d" % trial)
            f = tmp.file()
            with open(f, "w") as out:
                for i, c in enumerate(cs):
                    out.write("c%d  %s\n" % (i, c.str))
            d = io.load_circuit_dict(f)
            v.check("circuit dictionary equals what was written", [(k, c.tup) for k, c in d.items()] == [("c%d" % i, c.tup) for i, c in enumerate(cs)], "trial %d" % trial)
            f = tmp.file()
            io.write_empty_dataset(f, cs, "## Columns = 0 count, 1 count")
            ds = io.load_dataset(f, ignoreZeroCountLines=False, verbosity=0)
            v.check("template lists the circuits with no counts", list(ds.keys()) == cs and all(set(ds[c].counts.values()) <= {0.0} for c in cs), "trial %d" % trial)
        with Scratch() as t2:
            f = t2.file()
            io.write_circuit_list(f, [])
            v.check("empty list", io.load_circuit_list(f) == [])

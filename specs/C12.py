"""C12: serialisation and copying of objects round-trips."""

LEVEL = "exploration"
LEVEL_NOTE = ("Bounded: every value of the listed menus (all nestings to the stated depth) and every listed library object is encoded, decoded, pickled "
              "and copied, and compared with the original by content and type; copies are then changed through every public mutator listed and the "
              "original compared with its content before. Nothing here is counted as proved: the codecs work by reflection on types, outside the verifier's reach.")
ASSUMPTIONS = ["json, msgpack, pickle and base64 are the installed ones; integers handed to MessagePack have at most 64 bits",
               "subclasses of numpy arrays, named tuples, numpy strings and functions without an importable name are outside what the codecs accept"]
import collections
import copy
import io as stdio
import itertools
import pickle
import random
import uuid
import warnings
import numpy as np
import pygsti
import pygsti.objects as po
from pygsti.io import json as pjson, jsoncodec
try:
    from pygsti.io import msgpack as pmsg
except ImportError:
    pmsg = None
from pygsti.objects.circuit import Circuit, CompressedCircuit
from pygsti.objects.label import Label as L, CircuitLabel
from pygsti.objects import DataSet, MultiDataSet
from pyvc.facade import unit

P = "C12"
JC = "pygsti.io.jsoncodec."
O = "pygsti.objects."


def text(c):
    def f(x):
        s = stdio.StringIO() if c is pjson else stdio.BytesIO()
        c.dump(x, s)
        s.seek(0)
        return c.load(s)
    return f


CODECS = [("json", lambda x: pjson.loads(pjson.dumps(x))), ("json file", text(pjson))]
if pmsg is not None:
    CODECS += [("msgpack", lambda x: pmsg.loads(pmsg.dumps(x))), ("msgpack file", text(pmsg))]
PICKLES = [("pickle %d" % k, lambda x, k=k: pickle.loads(pickle.dumps(x, k))) for k in (2, pickle.HIGHEST_PROTOCOL)]
COPIES = [("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy)]


# ------------------------------------------------------------------ content of an object

def cont(x, depth=0):
    """content of a value, comparable with =="""
    assert depth < 40
    d = depth + 1
    t = type(x).__name__
    if isinstance(x, L):
        if isinstance(x, CircuitLabel):
            return (t, x.name, x.sslbls, x.reps, float(x.time), tuple(cont(c, d) for c in x.components))
        if t.startswith("LabelTupTup"):
            return (t, tuple(x.args), float(x.time), tuple(cont(c, d) for c in x.components))
        return (t, x.name, x.sslbls, tuple(x.args), float(x.time), tuple(x) if isinstance(x, tuple) else x.name)
    if isinstance(x, Circuit):
        return (t, cont(x.layertup, d), x.line_labels, x.str, x.name, x._static, cont(x.auxinfo, d))
    if isinstance(x, CompressedCircuit):
        return (t, cont(x.expand(), d))
    if isinstance(x, DataSet):
        return (t, x.bStatic, x.collisionAction, x.comment, [tuple(o) for o in x.get_outcome_labels()],
                [(cont(k, d), [tuple(o) for o in r.outcomes], [float(q) for q in r.time], None if r.reps is None else [float(q) for q in r.reps], cont(dict(r.aux), d)) for k, r in ((k, x[k]) for k in x.keys())])
    if isinstance(x, MultiDataSet):
        return (t, None if x.comment is None else x.comment.replace(" copy", ""), [(k, cont(x[k], d)) for k in x.keys()], [(cont(k, d), cont(a, d)) for k, a in x.auxInfo.items()], dict(x.collisionActions))
    if isinstance(x, po.Basis):
        return (t, x.name, x.size, x.dim, tuple(x.labels), x.real, [cont(np.asarray(e.todense() if hasattr(e, "todense") else e), d) for e in x.elements])
    if isinstance(x, po.Model):
        return modelcont(x)
    if isinstance(x, po.modelmember.ModelMember):
        return membercont(x)
    if isinstance(x, np.ndarray):
        return (t, str(x.dtype.descr if x.dtype.names else x.dtype.str), x.shape, x.tobytes() if not x.dtype.hasobject else [cont(e, d) for e in x.ravel()])
    if isinstance(x, np.generic):
        return (t, x.tobytes())
    if isinstance(x, float):
        return (t, repr(x))
    if isinstance(x, complex):
        return (t, repr(x.real), repr(x.imag))
    if isinstance(x, (collections.Counter,)):
        return (t, sorted(((cont(k, d), c) for k, c in x.items()), key=repr))
    if isinstance(x, dict):
        it = [(cont(k, d), cont(e, d)) for k, e in x.items()]
        extra = {k: e for k, e in getattr(x, "__dict__", {}).items() if k not in ("parent",)}
        return (t, it, cont(extra, d) if extra else None)
    if isinstance(x, (list, tuple)):
        extra = getattr(x, "__dict__", None)
        return (t, [cont(e, d) for e in x], [(k, cont(e, d)) for k, e in sorted(extra.items()) if k not in ("highmag_termrep_cache", "circuitsetup_cache")] if extra else None)
    if isinstance(x, (set, frozenset)):
        return (t, sorted((cont(e, d) for e in x), key=repr))
    if isinstance(x, (str, bytes, int, bool, type(None), uuid.UUID, slice, range)):
        return (t, x if not isinstance(x, slice) else (cont(x.start, d), cont(x.stop, d), cont(x.step, d)))
    if isinstance(x, type) or callable(x) and hasattr(x, "__name__") and not hasattr(x, "__dict__"):
        return ("named", x.__module__, x.__name__)
    if type(x).__name__ == "function":
        return ("named", x.__module__, x.__name__)
    if t == "FASTPolynomial":
        return (t, x.max_num_vars, cont(dict(sorted(x.coeffs.items(), key=repr)), d))
    if hasattr(x, "__dict__"):
        return (t, [(k, cont(e, d)) for k, e in sorted(x.__dict__.items()) if not callable(e) and k not in ("uuid", "parent", "_parent")])
    return (t, repr(x))


def dense(m):
    a = m.todense()
    return np.asarray(a.todense() if hasattr(a, "todense") else a)


def membercont(m):
    t = type(m).__name__
    out = [t, m.dim, m._evotype, str(m.gpindices), m.num_params()]
    if m.num_params():
        try:
            out.append((np.round(m.to_vector(), 12) + 0.0).tolist())
        except ValueError:  # members that only hold parameters as part of a POVM or instrument
            out.append(None)
    if isinstance(m, dict):
        out.append([(cont(k), membercont(e)) for k, e in m.items()])
    else:
        try:
            out.append((np.round(dense(m), 9) + 0.0).tolist())
        except (NotImplementedError, AttributeError):
            out.append(None)
        if m._evotype in ("densitymx", "statevec"):
            rep = m._rep
            out.append(type(rep).__name__)
    return tuple(map(str, out))


def modelcont(m):
    out = [type(m).__name__, m.dim, m._evotype, str(m.simtype), cont(m.basis), str(m.state_space_labels.labels), m.num_params(), m.to_vector().tobytes()]
    for nm in ("preps", "povms", "operations", "instruments", "factories"):
        if hasattr(m, nm) and isinstance(m, po.ExplicitOpModel):
            out.append([(cont(k), membercont(e)) for k, e in getattr(m, nm).items()])
    for nm in ("prep_blks", "povm_blks", "operation_blks", "instrument_blks"):
        if hasattr(m, nm):
            out.append([(b, [(cont(k), membercont(e)) for k, e in d.items()]) for b, d in getattr(m, nm).items()])
    if hasattr(m, "default_gauge_group"):
        out.append(type(m.default_gauge_group).__name__)
    return tuple(map(str, out))


def first_difference(a, b, path=""):
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, path + "/%d" % i)
    return "%s: got %s, original %s" % (path, str(a)[:160], str(b)[:160])


def roundtrip(v, what, x, ways, content=cont):
    before = content(x)
    for name, f in ways:
        try:
            y = f(x)
        except Exception as e:
            v.check("%s: round trip works" % name, False, "%s: %s: %s" % (what, type(e).__name__, str(e)[:200]))
            continue
        got = content(y)
        v.check("%s: equal and of the same type" % name, type(y) is type(x) and got == before, "" if got == before else "%s at %s" % (what, first_difference(got, before)))
        if type(x).__eq__ is not object.__eq__ and not isinstance(x, (np.ndarray, np.generic, float, complex)) and isinstance(x, (L, Circuit, po.Basis)):
            v.check("%s: compares as equal" % name, bool(y == x) and bool(x == y), what)
            if getattr(x, "_static", True) and not (isinstance(x, po.Basis) and type(x).__hash__ is None):
                v.check("%s: same hash" % name, hash(y) == hash(x), what)
        v.check("%s: the original is untouched" % name, content(x) == before, what)


# ------------------------------------------------------------------ plain values

def some_function(x):
    return x


def scalars():
    yield from (None, True, False, 0, 1, -3, 2**62, -2**63, 0.0, -0.0, 1.5, 1e-320, 1e308, 0.1, float("inf"), float("-inf"), float("nan"),
                1j, complex(-0.0, 2.5), complex(1.25, -0.0), complex(float("inf"), float("nan")), "", "a", "\u00e9\u4e2d", "__tuple__", "@#\n\t\"'\\", b"", b"ab\xff\x00")
    for dt in ("?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "c8", "c16", "g", "G"):
        for val in (0, 1, 3):
            yield np.dtype(dt).type(val)
    for z in (np.float64("nan"), np.float64(-0.0), np.float32("inf"), np.complex128(complex(-0.0, 1)), np.complex64(2 - 3j), np.int64(-2**63), np.uint64(2**64 - 1)):
        yield z
    yield from (slice(None), slice(1, 9, 2), slice(None, -1), slice(np.int64(2), 5), range(0), range(5), range(7, -3, -2), uuid.UUID(int=7), uuid.UUID(int=2**128 - 1))
    yield from (Circuit, L, CircuitLabel, DataSet, pygsti.tools.basistools.change_basis, pygsti.construction.circuit_list, collections.namedtuple)


def arrays():
    rng = np.random.RandomState(1)
    for dt in ("?", "i1", "u2", "i4", ">i4", "i8", "f2", "f4", ">f8", "f8", "c8", "c16", ">c16", "S3", "U4", ">U2", "M8[D]", "m8[s]", "V3", "g"):
        for sh in ((), (0,), (1,), (5,), (2, 3), (0, 3), (3, 0, 2), (2, 1, 2, 2)):
            n = int(np.prod(sh))
            raw = rng.randint(0, 2 if dt == "?" else 100, size=n)
            a = raw.astype(dt) if not dt.startswith("V") else np.frombuffer(rng.bytes(3 * n), dt) if n else np.zeros(0, dt)
            a = np.array(a).reshape(sh)
            yield a
            if a.ndim > 1:
                yield np.asfortranarray(a)
                yield a.T
                yield a[::-1, 1:]
    yield np.array([np.nan, np.inf, -np.inf, -0.0, 5e-324])
    yield np.array([complex(np.nan, -0.0), complex(-np.inf, 1)])
    for dt in ([("a", "<i4"), ("b", "<f8")], [("x", ">c16", (2, 3)), ("s", "U3")], [("o", [("p", "u1"), ("q", [("r", "f4", (2,))])]), ("z", "S2")], [(("title", "nm"), "i2")]):
        a = np.zeros((2, 2), dtype=dt)
        raw = np.frombuffer(bytes([65, 0, 0, 0]) * (a.nbytes // 4 + 1), "u1")[:a.nbytes]
        yield np.frombuffer(raw.tobytes(), dtype=dt).reshape(2, 2).copy()


def hashables():
    return [None, True, 3, 2.5, 1j, "s", b"b", (1, "a"), ((), (2.0,)), np.int64(4), np.float32(0.5), uuid.UUID(int=3), L("Gx", 0), L("Gx"), Circuit("Gx:0Gy:1"), np.complex64(1j), L((L("Gx", 0), L("Gy", 1)))]


def containers(items, rng):
    for a in items:
        yield (a,)
        yield [a]
        yield {"k": a}
        yield collections.OrderedDict([(1, a), ("z", [a])])
    hs = hashables()
    for h in hs:
        yield {h}
        yield {h: h}
        yield collections.OrderedDict([(h, 1)])
        yield collections.Counter([h, h, "x"])
    yield from ((), [], {}, set(), collections.OrderedDict(), collections.Counter())
    yield set(hs)
    yield {h: [i] for i, h in enumerate(hs)}
    yield collections.OrderedDict(reversed([(h, (i,)) for i, h in enumerate(hs)]))

    def grow(k):
        if k == 0:
            return rng.choice(items)
        n = rng.randint(0, 3)
        kind = rng.randint(0, 5)
        if kind == 0:
            return tuple(grow(k - 1) for _ in range(n))
        if kind == 1:
            return [grow(k - 1) for _ in range(n)]
        if kind == 2:
            return {rng.choice(hs): grow(k - 1) for _ in range(n)}
        if kind == 3:
            return collections.OrderedDict((rng.choice(hs), grow(k - 1)) for _ in range(n))
        if kind == 4:
            return collections.Counter({rng.choice(hs): rng.randint(-1, 4) for _ in range(n)})
        return set(rng.sample(hs, n))
    for _ in range(1500):
        yield grow(rng.randint(1, 5))


@unit(P, "plain values", sym=False, exact=True, conc=1, funcs=[JC + n for n in ("encode_obj", "encode_std_obj", "decode_obj", "decode_std_obj", "decode_std_base", "tostr", "tobin")]
      + ["pygsti.io.json." + n for n in ("dumps", "dump", "loads", "load", "PygstiJSONEncoder.encode")] + ["pygsti.io.msgpack." + n for n in ("dumps", "dump", "loads", "load")])
def plain(v):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sc, ar = list(scalars()), list(arrays())
        for x in sc + ar:
            roundtrip(v, repr(x)[:80], x, CODECS)
        for x in containers(sc + ar[::17], random.Random(4)):
            roundtrip(v, repr(x)[:80], x, CODECS[::2])
        y = pjson.loads(pjson.dumps(np.arange(3.0)))
        y[0] = 5.0
        v.check("decoded arrays can be changed", y[0] == 5.0)
        for bad in (np.array([object()]), np.array([None, 1]), np.zeros(2, dtype=[("a", "O")])):
            for name, f in CODECS:
                try:
                    f(bad)
                    ok = False
                except TypeError:
                    ok = True
                v.check("%s: object arrays are refused" % name, ok, str(bad))


# ------------------------------------------------------------------ library objects

def labels():
    t = [0.0, 0.5]
    for tm in t:
        for n, s, a in itertools.product(("Gx", "Iz"), (None, (0,), (1, 0), ("Q0",)), (None, ("0.5",), (0.25, "b"))):
            yield L(n, s, tm, a)
    base = [L("Gx", 0), L("Gy", 1, 0.5), L("Gz", 2, 0.0, ("0.3",)), L("Gi", None, 2.0)]
    yield L(())
    for k in (2, 3):
        for c in itertools.permutations(base, k):
            yield L(c)
            yield L(c, time=7.0)
            yield L(c, args=(0.5, "x"))
            yield CircuitLabel("", c, L(c).sslbls, 3)
            yield CircuitLabel("name", c, (0, 1, 2), 1, 9.0)
    yield CircuitLabel("", (CircuitLabel("", base[:2], (0, 1), 2), base[0]), (0, 1), 4)
    yield L((base[0], CircuitLabel("", base[1:3], (1, 2), 2)))


def circuits():
    for c in (Circuit("{}"), Circuit("{}@(0,1)"), Circuit("Gx"), Circuit("Gx:0Gy:1@(0,1,2)"), Circuit("[Gx:0Gy:1]^3[]Gz:2"),
              Circuit("(Gx:0Gy:1)^3", expand_subcircuits=False), Circuit("rho0(GxGy)^2Mdefault"), Circuit("Gx;0.5;q:0!0.25Gy:1!2"), Circuit(["Gx", ("Gy", 0)], name="nm"),
              Circuit(("Gx",) * 60), Circuit(("Gx", "Gy") * 40)):
        yield c
        e = c.copy(editable=True)
        e._name = "ed"
        yield e
    c = Circuit("GxGy")
    c.auxinfo["k"] = [1, (2, "x")]
    yield c


def datasets():
    ds = DataSet(outcomeLabels=["0", "1"], comment="note")
    yield ds
    for static in (False, True):
        for keep in (False, True):
            ds = DataSet(outcomeLabels=[("0",), ("1",), ("a", "b")], collisionAction="keepseparate" if keep else "aggregate", comment="# c\n# d")
            for c in ("Gx", "Gy:0@(0,1)", "{}"):
                for k in range(2 if keep else 1):
                    ds.add_count_dict(Circuit(c), {("0",): 3, ("1",): 4.5, ("a", "b"): k}, aux={"x": [1, (2,)]})
            if static:
                ds.done_adding_data()
            yield ds
        ds = DataSet(outcomeLabels=["0", "1"])
        for i, c in enumerate(("Gx", "GxGy")):
            ds.add_raw_series_data(Circuit(c), ["0", "1", "0"], [0.0, 0.5 + i, 2.0], None if static else [1, 20, 3], aux={"i": i})
        if static:
            ds.done_adding_data()
        yield ds


def multidatasets():
    mds = MultiDataSet(comment="hello")
    for k, nm in enumerate(("A", "B")):
        ds = DataSet(outcomeLabels=["0", "1"])
        for i, c in enumerate(("Gx", "GxGy", "{}")):
            ds.add_count_dict(Circuit(c), {"0": 3 + i, "1": k})
        ds.done_adding_data()
        mds.add_dataset(nm, ds)
    mds.add_auxiliary_info(Circuit("Gx"), {"z": [1]})
    yield mds


def bases():
    for nm, d in (("pp", 4), ("gm", 4), ("std", 4), ("qt", 9), ("gm", 9), ("pp", 16), ("std", [4, 1]), ("gm", [4, 4, 1])):
        yield po.Basis.cast(nm, d)
    yield po.ExplicitBasis([np.eye(2), np.diag([1, -1])], ["a", "b"], "mine", "my basis")
    yield po.basis.TensorProdBasis([("pp", 4), ("gm", 9)])
    yield po.basis.DirectSumBasis([po.BuiltinBasis("pp", 4), po.BuiltinBasis("gm", 9)])
    yield po.basis.EmbeddedBasis(po.BuiltinBasis("pp", 4), po.StateSpaceLabels(["Q0", "Q1"]), ("Q1",))


def sparse_bases():
    for nm, d in (("pp", 4), ("gm", 9), ("std", 4)):
        yield po.BuiltinBasis(nm, d, True)
        b = po.BuiltinBasis(nm, d, True)
        b.elements
        yield b


def structures():
    from pygsti.construction import make_lsgst_structs
    C = Circuit
    yield from make_lsgst_structs(["Gx", "Gy"], [C("{}"), C("Gx")], [C("{}"), C("Gy")], [C("Gx"), C("GxGy")], [1, 4])
    s = make_lsgst_structs(["Gx"], [C("{}"), C("Gx")], [C("{}")], [C("Gx")], [1, 2], fidPairs=[(0, 0)])[-1]
    s.add_unindexed([C("GyGyGy")])
    yield s


def smalls():
    from pygsti.objects.labeldicts import OutcomeLabelDict, StateSpaceLabels
    from pygsti.tools.nameddict import NamedDict
    yield OutcomeLabelDict([(("0",), 90), ("1", 10), (("a", "b"), 3)])
    yield OutcomeLabelDict()
    yield StateSpaceLabels(["Q0", "Q1"])
    yield StateSpaceLabels([("Q0", "Q1"), ("L0",)], [(4, 4), (1,)])
    yield StateSpaceLabels([0, 1])
    yield StateSpaceLabels([0, 1], evotype="statevec")
    yield NamedDict("Outcome", "category", "float64", [("a", 1), (L("Gx", 0), 2.5)])
    yield NamedDict()
    from pygsti.objects.polynomial import FASTPolynomial
    yield FASTPolynomial({(): 2.0, (0, 1): 3.0, (2, 2): -1j})
    yield FASTPolynomial({(3,): 0.5}, 7)
    yield FASTPolynomial({})


BOTH = CODECS[::2] + PICKLES


def kinds(what, things, funcs, ways=BOTH, content=cont):
    @unit(P, what, sym=False, exact=True, conc=1, funcs=funcs)
    def go(v):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for x in things():
                roundtrip(v, "%s %s" % (type(x).__name__, str(x)[:60]), x, ways, content)
    return go


kinds("labels", labels, [O + "label." + c + "." + m for c in ("LabelTup", "LabelStr", "LabelTupTup", "CircuitLabel", "LabelTupWithArgs", "LabelTupTupWithArgs") for m in ("__reduce__", "__pygsti_reduce__", "__new__")], BOTH + COPIES)
kinds("circuits", circuits, [O + "circuit.Circuit." + m for m in ("__init__", "copy")] + [O + "circuit.CompressedCircuit." + m for m in ("__getstate__", "__setstate__", "expand")], BOTH + COPIES)
kinds("circuits, copied", circuits, [O + "circuit.Circuit.copy"], [("copy", lambda c: c.copy(editable=not c._static))], lambda c: cont(c)[:4])
kinds("data sets", datasets, [O + "dataset.DataSet." + m for m in ("__getstate__", "__setstate__", "copy", "copy_nonstatic")], BOTH + COPIES)
kinds("multi data sets", multidatasets, [O + "multidataset.MultiDataSet." + m for m in ("__getstate__", "__setstate__", "copy")], BOTH + COPIES + [("copy", lambda m: m.copy())])
kinds("bases", bases, [O + "basis.Basis", O + "basis.BuiltinBasis"], BOTH + COPIES)
kinds("sparse bases", sparse_bases, [O + "basis.Basis", O + "basis.BuiltinBasis"], PICKLES + COPIES)
kinds("circuit structures", structures, [O + "circuitstructure.LsGermsStructure.copy", O + "circuitstructure.CircuitPlaquette.__getstate__"], BOTH + COPIES + [("copy", lambda s: s.copy())])
kinds("small containers", smalls, [O + "labeldicts.OutcomeLabelDict", O + "labeldicts.StateSpaceLabels", "pygsti.tools.nameddict.NamedDict", O + "polynomial.Polynomial"], BOTH + COPIES)


# ------------------------------------------------------------------ models

def models():
    from pygsti.construction import std1Q_XYI
    build = pygsti.construction.build_localnoise_model
    rng = np.random.RandomState(3)

    def off(m):
        w = m.to_vector()
        if len(w):
            m.from_vector(w + 0.01 * rng.randn(len(w)))
        return m
    for t in ("full", "TP", "static", "CPTP", "H+S", "H+S+A", "S", "GLND", "H+S terms", "CPTP terms", "static unitary"):
        m = std1Q_XYI.target_model()
        m.set_all_parameterizations(t)
        yield t, off(m)
    yield "standard H+S terms", off(std1Q_XYI.target_model("H+S terms"))
    E0 = np.diag([1, 0, 0, 1.0]) / 2
    E0[0, 3] = E0[3, 0] = .5
    E1 = E0.copy()
    E1[0, 3] = E1[3, 0] = -.5
    m = std1Q_XYI.target_model()
    m.instruments["Iz"] = po.Instrument({"a": E0, "b": E1})
    yield "instrument", off(m)
    m = std1Q_XYI.target_model("TP")
    m.instruments["Iz"] = po.TPInstrument({"a": E0, "b": E1})
    yield "TP instrument", off(m)
    m = std1Q_XYI.target_model()
    m.set_simtype("map")
    yield "map", off(m)
    for t in ("full", "TP", "CPTP", "H+S", "static"):
        yield "local noise, %s" % t, off(build(2, ["Gx", "Gy", "Gcnot"], parameterization=t, geometry="line"))
    yield "local noise, independent", off(build(2, ["Gx", "Gy", "Gcnot"], parameterization="TP", geometry="line", independent_gates=True, ensure_composed_gates=True))
    for er in ("gates", "errorgens"):
        yield "cloud noise, %s" % er, off(pygsti.construction.build_cloudnoise_model_from_hops_and_weights(
            2, ["Gx", "Gy", "Gcnot"], geometry="line", errcomp_type=er, maxIdleWeight=1, maxhops=0, extraWeight1Hops=0, extraGateWeight=0, parameterization="H+S"))


def circuits_of(m):
    if isinstance(m, po.ExplicitOpModel):
        cs = [Circuit(()), Circuit(("Gx",)), Circuit(("Gi", "Gx", "Gy", "Gx"))]
        if m.instruments:
            cs.append(Circuit(("Gx", "Iz", "Gy")))
        return cs
    return [Circuit("{}@(0,1)"), Circuit("Gx:0@(0,1)"), Circuit("[Gx:0Gy:1]Gcnot:0:1[Gy:0]@(0,1)")]


def behaviour(m):
    return [{k: round(float(p), 9) + 0.0 for k, p in m.probs(c).items()} for c in circuits_of(m)]


@unit(P, "models", sym=False, exact=True, conc=1, weight=3, cases=[{"k": k} for k in range(4)],
      funcs=[O + "model.Model.copy", O + "model.OpModel.copy", O + "explicitmodel.ExplicitOpModel.__setstate__", O + "implicitmodel.ImplicitOpModel.__setstate__", O + "modelmember.ModelChild.__getstate__",
             O + "modelmember.ModelMember.copy", O + "orderedmemberdict.OrderedMemberDict.__reduce__", O + "orderedmemberdict.OrderedMemberDict.__pygsti_reduce__"])
def model_roundtrip(v, k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, (name, m) in enumerate(models()):
            if i % 4 != k:
                continue
            before, probs = cont(m), behaviour(m)
            rng = np.random.RandomState(i)
            other = m.to_vector() + 0.01 * rng.randn(m.num_params())
            twin = m.copy()
            twin.from_vector(other)
            changed, changed_probs = cont(twin), behaviour(twin)
            for way, f in BOTH + COPIES[1:] + [("copy", lambda x: x.copy())]:
                try:
                    y = f(m)
                except Exception as e:
                    v.check("%s: round trip works" % way, False, "%s: %s: %s" % (name, type(e).__name__, str(e)[:200]))
                    continue
                got = cont(y)
                v.check("%s: same type, members, parameters and settings" % way, got == before, "%s at %s" % (name, first_difference(got, before)) if got != before else "")
                v.check("%s: same probabilities" % way, behaviour(y) == probs, name)
                for mem in y._iter_parameterized_objs():
                    v.check("%s: the members belong to the copy" % way, mem[1].parent is y, "%s %s" % (name, mem[0]))
                if m.num_params():
                    y.from_vector(other)
                    v.check("%s: same model for other parameters" % way, cont(y) == changed and behaviour(y) == changed_probs, name)
                elif isinstance(y, po.ExplicitOpModel) and m.get_simtype() == "matrix" and m._evotype == "densitymx":
                    y.operations["Gx"] = np.diag([1.0, -1, -1, 1])
                v.check("%s: the original is untouched" % way, cont(m) == before and behaviour(m) == probs, name)
                if isinstance(y, po.ExplicitOpModel) and m._evotype == "densitymx":
                    y = f(m)
                    del y.operations["Gy"]
                    y.operations["Gnew"] = np.eye(4)
                    y.preps["rho1"] = np.array([1.0, 0, 0, -1]) / np.sqrt(2)
                    y.set_simtype("map")
                    y.to_vector()
                    v.check("%s: adding and removing members of the copy leaves the original" % way, cont(m) == before and behaviour(m) == probs, name)
                    z = f(m)
                    zc = cont(z)
                    saved = m.to_vector()
                    if m.num_params():
                        m.from_vector(other)
                        v.check("%s: the copy is unaffected by changes of the original" % way, cont(z) == zc, name)
                        m.from_vector(saved)
            assert cont(m) == before


def members():
    for name, m in models():
        if isinstance(m, po.ExplicitOpModel):
            for d in (m.preps, m.povms, m.operations, m.instruments):
                yield from d.values()
        else:
            for blks in (m.prep_blks, m.povm_blks, m.operation_blks):
                for d in blks.values():
                    yield from d.values()


@unit(P, "model members", sym=False, exact=True, conc=1, funcs=[O + "modelmember.ModelMember.copy", O + "modelmember.ModelMember._copy_gpindices", O + "modelmember.ModelChild.copy"])
def member_roundtrip(v):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for m in members():
            before = membercont(m)
            for way, f in BOTH + [("copy", lambda x: x.copy())]:
                try:
                    y = f(m)
                except Exception as e:
                    v.check("%s: round trip works" % way, False, "%s: %s: %s" % (type(m).__name__, type(e).__name__, str(e)[:200]))
                    continue
                got = membercont(y)
                v.check("%s: same member" % way, type(y) is type(m) and got == before, "%s at %s" % (type(m).__name__, first_difference(got, before)) if got != before else "")
                v.check("%s: no parent" % way, y.parent is None)
                if m.num_params():
                    try:
                        w = m.to_vector()
                    except ValueError:
                        continue
                    y.from_vector(w + 0.02)
                    v.check("%s: the original is untouched" % way, membercont(m) == before, type(m).__name__)


# ------------------------------------------------------------------ changing copies

def edits_of_circuits():
    yield "clear", lambda c: c.clear()
    yield "insert layer", lambda c: c.insert_layer(L("Gq", 0), 0)
    yield "insert labels", lambda c: c.insert_labels_into_layers([L("Gq", 0)], 1)
    yield "set item", lambda c: c.__setitem__((0, 0), [])
    yield "set layer", lambda c: c.set_labels(L("Gq", 0), 0)
    yield "delete layer", lambda c: c.delete_layers([0])
    yield "delete line", lambda c: c.delete_lines([1], delete_straddlers=True)
    yield "idle layers", lambda c: c.insert_idling_layers(0, 2)
    yield "idle lines", lambda c: c.insert_idling_lines(None, ["new"] if isinstance(c.line_labels[0], str) else [7])
    yield "append", lambda c: c.append_circuit(Circuit("Gz:0@(0,1,2)"))
    yield "tensor", lambda c: c.tensor_circuit(Circuit("Gz:9@(9)"))
    yield "replace gate", lambda c: c.replace_gatename_inplace("Gx", "Gnew")
    yield "map lines", lambda c: c.map_state_space_labels_inplace({0: 10, 1: 11, 2: 12})
    yield "reorder lines", lambda c: c.reorder_lines([2, 1, 0])
    yield "reverse", lambda c: c.reverse()
    yield "clear labels", lambda c: c.clear_labels(0)
    yield "line labels", lambda c: setattr(c, "line_labels", (2, 1, 0, 5))
    yield "insert lines", lambda c: c.insert_labels_as_lines([L("Gq"), L("Gr")], line_labels=[8])


@unit(P, "changing copies of circuits", sym=False, exact=True, conc=1, funcs=[O + "circuit.Circuit.copy"])
def circuit_copies(v):
    for txt in ("[Gx:0Gy:1][Gx:1]Gcnot:1:2[]@(0,1,2)", "[Gx:0Gy:1]Gx:2@(0,1,2)"):
        for static in (True, False):
            c = Circuit(txt, editable=not static)
            before = cont(c)[:4]
            for name, edit in edits_of_circuits():
                for way, f in (("copy", lambda x: x.copy(editable=True)), ("deepcopy", copy.deepcopy), ("pickle", PICKLES[1][1]), ("json", CODECS[0][1])):
                    if static and way != "copy":
                        continue
                    e = f(c)
                    try:
                        edit(e)
                    except Exception as ex:
                        v.check("edits of copies work", False, "%s %s: %s %s" % (name, way, type(ex).__name__, ex))
                        continue
                    v.check("editing a copy leaves the original", cont(c)[:4] == before, "%s of %s" % (name, way))
                    if not static:
                        o, e2 = Circuit(txt, editable=True), None
                        e2 = f(o)
                        edit(o)
                        v.check("editing the original leaves the copy", cont(e2)[1:3] == before[1:3], "%s of %s" % (name, way))


@unit(P, "changing copies of data", sym=False, exact=True, conc=1, funcs=[O + "dataset.DataSet." + n for n in ("copy", "copy_nonstatic", "done_adding_data")] + [O + "multidataset.MultiDataSet.copy"])
def data_copies(v):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")

        def change(d):
            d.add_count_dict(Circuit("Gnew"), {("0",): 7, ("zz",): 1}, aux={"n": 1})
            d.add_count_dict(Circuit("Gx"), {("1",): 70})
            d.rename_outcome_labels({"0": "renamed"})
            for k in list(d.keys()):
                d.auxInfo[k]["edited"] = 5

        def change_series(d):
            d.add_raw_series_data(Circuit("Gnew"), ["0", "new"], [0.0, 1.0], [2, 3] if d.repData is not None else None)
            d.add_raw_series_data(Circuit("Gx"), ["1"], [9.0], [2] if d.repData is not None else None)
            d.rename_outcome_labels({"0": "renamed"})
        for i, ds in enumerate(datasets()):
            before = cont(ds)
            ways = [("copy", lambda d: d.copy()), ("deepcopy", copy.deepcopy), ("pickle", PICKLES[1][1]), ("json", CODECS[0][1]), ("copy_nonstatic", lambda d: d.copy_nonstatic())]
            for way, f in ways:
                y = f(ds)
                v.check("copies hold the same data", cont(y)[2:] == before[2:], "%s of data set %d: %s" % (way, i, first_difference(cont(y)[2:], before[2:]) if cont(y)[2:] != before[2:] else ""))
                v.check("copies are static as the original is", y.bStatic == (ds.bStatic if way != "copy_nonstatic" else False), way)
                if not y.bStatic:
                    (change_series if len(ds.keys()) == 2 else change)(y)
                    v.check("changing a copy leaves the original", cont(ds) == before, "%s of data set %d: %s" % (way, i, first_difference(cont(ds), before) if cont(ds) != before else ""))
                    y.done_adding_data()
                    v.check("changing a copy leaves the original", cont(ds) == before, "%s, done_adding_data, of data set %d" % (way, i))
                elif y is not ds:  # (a static data set is its own copy)
                    for k in y.keys():
                        y.auxInfo[k]["edited"] = 5
                    v.check("changing a copy leaves the original", cont(ds) == before, "%s, auxiliary information, of data set %d" % (way, i))
        for mds in multidatasets():
            before = cont(mds)
            for way, f in [("copy", lambda m: m.copy()), ("deepcopy", copy.deepcopy), ("pickle", PICKLES[1][1]), ("json", CODECS[0][1])]:
                y = f(mds)
                v.check("copies hold the same data", cont(y) == before, way)
                ds = DataSet(outcomeLabels=["0", "1", "2"])
                for c in ("Gx", "GxGy", "{}"):
                    ds.add_count_dict(Circuit(c), {"2": 5, "0": 1})
                ds.done_adding_data()
                y.add_dataset("C", ds)
                y.add_auxiliary_info(Circuit("Gx"), {"z": [2]})
                y.auxInfo[Circuit("GxGy")]["w"] = 1
                v.check("changing a copy leaves the original", cont(mds) == before, "%s: %s" % (way, first_difference(cont(mds), before) if cont(mds) != before else ""))


@unit(P, "changing other copies", sym=False, exact=True, conc=1, funcs=[O + "circuitstructure.LsGermsStructure.copy", O + "labeldicts.OutcomeLabelDict.copy", O + "labeldicts.StateSpaceLabels.copy", O + "polynomial.FASTPolynomial.copy"])
def other_copies(v):
    from pygsti.objects.labeldicts import OutcomeLabelDict, StateSpaceLabels
    from pygsti.objects.polynomial import FASTPolynomial
    C = Circuit
    ways = [("copy", lambda x: x.copy()), ("deepcopy", copy.deepcopy), ("pickle", PICKLES[1][1]), ("json", CODECS[0][1])]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s in structures():
            before = cont(s)
            for way, f in ways:
                y = f(s)
                v.check("structures: copies have the same content", cont(y) == before, way)
                y.add_unindexed([C("GqGq")])
                for k in list(y._plaquettes):
                    y._plaquettes[k].elements.append((9, 9, C("Gq")))
                    break
                y.aliases = {"Gx": C("Gq")}
                v.check("structures: changing a copy leaves the original", cont(s) == before, way)
        for x, edits in ((OutcomeLabelDict([(("0",), 90), ("1", 10)]), [lambda y: y.__setitem__("0", 1), lambda y: y.__setitem__(("a", "b"), 1), lambda y: y.clear()]),
                         (FASTPolynomial({(): 2.0, (0, 1): 3.0}), [lambda y: y.scale(2.0), lambda y: y.__iadd__(FASTPolynomial({(1,): 2.0})), lambda y: y.mapvec_indices_inplace(np.array([5, 6]))]),
                         (StateSpaceLabels(["Q0", "Q1"]), [lambda y: y.reduce_dims_densitymx_to_state()]),
                         (po.ExplicitBasis([np.eye(2), np.diag([1, -1])], ["a", "b"], "mine", "my basis"), [lambda y: y.elements[0].__imul__(2.0)])):
            before = cont(x)
            for way, f in ways:
                if way == "copy" and not hasattr(x, "copy"):
                    continue
                for e in edits:
                    y = f(x)
                    v.check("%s: copies have the same content" % type(x).__name__, cont(y) == before, "%s %s" % (way, first_difference(cont(y), before) if cont(y) != before else ""))
                    e(y)
                    v.check("%s: changing a copy leaves the original" % type(x).__name__, cont(x) == before, way)


# ------------------------------------------------------------------ evaluation trees

@unit(P, "evaluation trees", sym=False, exact=True, conc=1, funcs=[O + "evaltree.EvalTree._copyBase", O + "matrixevaltree.MatrixEvalTree.copy", O + "mapevaltree.MapEvalTree.copy", O + "termevaltree.TermEvalTree.copy"])
def trees(v):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from pygsti.construction import std1Q_XYI
        cs = [Circuit(()), Circuit(("Gx",)), Circuit(("Gx", "Gy")), Circuit(("Gx", "Gy", "Gx")), Circuit(("Gx", "Gy") * 3), Circuit(("Gx", "Gy"))]
        for sim in ("matrix", "map", "termorder"):
            m = std1Q_XYI.target_model("H+S terms" if sim == "termorder" else "full")
            m.set_simtype(sim)
            w = m.to_vector()
            m.from_vector(w + 0.01 * np.arange(len(w)) / len(w))
            for parts in (None, 2):
                tree, lookup, outcomes = m.bulk_evaltree(cs, minSubtrees=parts, verbosity=0)
                before = cont(tree)

                def values(t):
                    if sim == "termorder":
                        t = copy.deepcopy(t)  # preparing a tree stores the paths of the current model in it
                        m.bulk_prep_probs(t)
                    p = np.zeros(t.num_final_elements(), "d")
                    m.bulk_fill_probs(p, t)
                    return np.round(p, 10).tolist()
                first = values(tree)
                before = cont(tree)
                for way, f in PICKLES[1:] + COPIES[1:] + [("copy", lambda x: x.copy())]:
                    y = f(tree)
                    got = cont(y)
                    v.check("%s: same evaluation tree" % way, type(y) is type(tree) and got == before, "%s %s: %s" % (sim, parts, first_difference(got, before)) if got != before else "")
                    v.check("%s: same results" % way, values(y) == first, "%s %s" % (sim, parts))
                    if parts is None and sim != "termorder":
                        y.split(lookup, numSubTrees=2)
                    del y[-1]
                    y.myFinalElsToParentFinalElsMap = None
                    v.check("%s: the original is untouched" % way, cont(tree) == before and values(tree) == first, "%s %s" % (sim, parts))

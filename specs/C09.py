"""C09: circuit editing operations mean what their definition on lists of layers means."""

LEVEL = "exploration"
LEVEL_NOTE = ("Bounded: every circuit of up to three layers over three lines from a menu of ten layers (idle, single, parallel, two-qubit, global, "
              "with arguments, with times, sub-circuits), static and editable, and every argument listed, is run through the real operations and "
              "compared with a reference on lists of layers written from the documentation.  Nothing here is counted as proved.")
ASSUMPTIONS = ["the order of components within a layer, and what a global gate means after lines are added, are unspecified",
               "a refusal (AssertionError, ValueError) is demanded only where the documentation states it"]
import itertools
import warnings
import pygsti
from pygsti.objects.circuit import Circuit, CompressedCircuit
from pygsti.objects.label import Label, CircuitLabel
from pygsti.construction import circuitconstruction as cc
from pyvc.facade import unit

P = "C09"
K = "pygsti.objects.circuit.Circuit."
LINES = (0, 1, 2)
L = Label


# ------------------------------------------------------------------ the reference: lists of layers of components

def key(l):
    if isinstance(l, CircuitLabel):
        return ("sub", l.name, tuple(tuple(comps(x)) for x in l.components), None if l.sslbls is None else tuple(l.sslbls), l.reps, l.time)
    return (l.name, None if l.sslbls is None else tuple(l.sslbls), tuple(l.args), l.time)


def comps(layer):
    """sorted component keys of a layer label"""
    if isinstance(layer, (list, tuple)) and not isinstance(layer, Label):
        return sorted((k for x in layer for k in comps(x)), key=repr)
    if isinstance(layer, CircuitLabel) or layer.issimple():
        return [key(layer)]
    return sorted((key(x) for x in layer.components), key=repr)


def lay(c):
    return [comps(x) for x in c.layertup]


def ref(layers):
    return [comps(x) for x in layers]


def of(c):
    return tuple(c.line_labels), lay(c)


def srt(layers):
    return [sorted(x, key=repr) for x in layers]


def lines_of(k):
    return k[3] if k[0] == "sub" else k[1]


def on(k, lines):
    s = lines_of(k)
    return set(lines) if s is None else set(s)


def projections(layers, lines):
    """what each line sees, in order: two circuits do the same with the same gates iff these agree"""
    out = {l: [] for l in lines}
    for x in layers:
        for k in x:
            for l in on(k, lines):
                out.setdefault(l, []).append(k)
    return out


def expanded(layers):
    """sub-circuits replaced by their layers; all sub-circuits of a layer start together"""
    out = []
    for x in layers:
        parts = []
        for k in x:
            if k[0] == "sub":
                body = expanded([list(y) for y in k[2]])
                parts.append(body * k[4])
            else:
                parts.append([[k]])
        n = max([len(p) for p in parts], default=1)
        for i in range(max(n, 1)):
            out.append([k for p in parts if i < len(p) for k in p[i]])
    return out


def collide(layers, lines):
    for x in layers:
        seen = []
        for k in x:
            seen.extend(on(k, lines))
        if len(seen) != len(set(seen)):
            return True
    return False


# ------------------------------------------------------------------ the circuits

def menu(p):
    """layers with names that tell the position they were made for"""
    g = lambda n, *a, **k: L("G%s%d" % (n, p), *a, **k)
    return [[], [g("a", 0)], [g("a", 1), g("b", 0)], [g("c", (1, 0))], [g("c", (2, 1)), g("b", 0)], [g("a", 2)], [g("i")],
            [g("r", 0, None, (0.5,)), g("b", 2, 1.5)], [g("a", 0), g("a", 1), g("a", 2)], [g("r", (0, 2), None, ("x", 2))]]


M = len(menu(0))
INDEX = [t for n in range(4) for t in itertools.product(range(M), repeat=n)]
SHORT = [t for t in INDEX if len(t) <= 2]
SOME = SHORT + [t for t in INDEX if len(t) == 3 and (t[0] * 31 + t[1] * 7 + t[2]) % 9 == 0]


def layers_for(t):
    return [menu(p)[i] for p, i in enumerate(t)]


def shape(layers):
    """as the user writes them: single gates bare, others as a list"""
    return [x[0] if len(x) == 1 else L(x) for x in layers]


def build(layers, editable, lines=LINES):
    return Circuit(shape(layers), lines, editable=editable)


def both(ts=SOME, globals_=True):
    for t in ts:
        if not globals_ and 6 in t:
            continue
        for e in (False, True):
            ls = layers_for(t)
            yield t, e, ls, build(ls, e)


def ck(v, label, got, exp, what=""):
    if got == exp:
        v.check(label, True)
    else:
        v.check(label, False, "%s: got %r, expected %r" % (what, got, exp))


def state(c):
    return of(c), c._static, c.str if c._static else None


def refuses(v, label, fn, *exc):
    try:
        fn()
    except (exc or (AssertionError, ValueError)):
        return v.check(label, True)
    v.check(label, False, "accepted")


# ------------------------------------------------------------------ units

@unit(P, "construction, copies and equality", sym=False, conc=1, conc_s=120, funcs=[K + n for n in (
    "__init__", "copy", "done_editing", "__eq__", "__hash__", "__len__", "__iter__", "tup", "layertup", "line_labels")])
def construction(v):
    for t in INDEX:
        ls = layers_for(t)
        exp = (LINES, ref(ls))
        s, e = build(ls, False), build(ls, True)
        for c, n in ((s, "static"), (e, "editable"), (Circuit([list(x) for x in ls], LINES), "lists"), (Circuit([tuple(x) for x in ls], LINES, editable=True), "tuples"),
                     (Circuit(shape(ls), num_lines=3), "num_lines"), (s.copy(), "copy"), (e.copy(), "copy"), (s.copy(editable=True), "copy"), (e.copy(editable=False), "copy")):
            ck(v, "a circuit holds the layers it is given (%s)" % n, of(c), exp, t)
            ck(v, "its length is their number", (len(c), c.num_layers(), c.number_of_lines(), c.width()), (len(t), len(t), 3, 3))
        f = e.copy()
        f.done_editing()
        ck(v, "done_editing keeps the circuit", of(f), exp)
        v.check("equal circuits are equal and hash equally", s == f and hash(s) == hash(f) and not (s != f), t)
        ck(v, "iteration gives the layers", [comps(x) for x in s], exp[1])
        v.check("other line labels make another circuit", s != build(ls, False, (0, 1, 2, 3)) and s != build(ls, False, (2, 1, 0)), t)
        if t:
            g = e.copy()
            g.set_labels(L("Gnew", 1), 0) if 6 not in t[:1] else g.clear_labels(0)
            ck(v, "editing a copy leaves the original alone", of(e), exp)
            h = s.copy(editable=True)
            h.delete_layers(0)
            h.insert_layer(L("Gnew", 0), 0)
            ck(v, "editing an editable copy leaves a static circuit alone", of(s), exp)
            v.check("and its hash", hash(s) == hash(f), t)
    seen = {}
    for t in SHORT:
        c = build(layers_for(t), False)
        d = seen.setdefault(c, t)
        v.check("different circuits are different keys", d == t, (d, t))
    for t in SHORT[:60]:
        c = build(layers_for(t), False)
        for u in SHORT[:60]:
            d = build(layers_for(u), False)
            ck(v, "circuits are equal only if their layers are", c == d, t == u, (t, u))
    for lines, ls in (("auto", [L("Gx", 0), L("Gy", 2)]), ("auto", [L("Gx")]), (("*",), [L("Gx")])):
        c = Circuit(ls, lines)
        ck(v, "line labels are found", c.line_labels, (0, 2) if len(ls) == 2 else ("*",))
    refuses(v, "lines that are used must be given", lambda: Circuit([L("Gx", 0), L("Gy", 2)], (0, 1)))


def picks(n):
    out = [None] + list(range(n)) + [slice(a, b) for a in range(n + 1) for b in range(a, n + 1)] + [slice(None), slice(None, None, -1), slice(-1, None)]
    return out + [list(x) for k in (1, 2) for x in itertools.permutations(range(n), k)] + [(0,) * min(n, 2)]


LPICKS = [None, 0, 2, (0, 1), [1, 2], (0, 2), (0, 1, 2), slice(None), slice(0, 2)]


def indices(p, n):
    return list(range(n)) if p is None else list(range(*p.indices(n))) if isinstance(p, slice) else [p] if isinstance(p, int) else list(p)


def linelist(p):
    return LINES if p is None else tuple(range(*p.indices(3))) if isinstance(p, slice) else (p,) if isinstance(p, int) else tuple(p)


@unit(P, "reading regions", sym=False, conc=1, conc_s=150, weight=2, funcs=[K + n for n in ("get_labels", "__getitem__", "get_layer", "get_layer_label", "_proc_layers_arg", "_proc_lines_arg")])
def reading(v):
    for t, e, ls, c in both(SHORT + [(4, 7, 2), (8, 6, 3), (3, 0, 9), (2, 4, 8)]):
        before = state(c)
        for pl in picks(len(t)):
            for ql in LPICKS:
                ii, qq = indices(pl, len(t)), linelist(ql)
                for strict in (True, False):
                    exp = []
                    for i in ii:
                        exp.append(sorted((k for k in comps(ls[i]) if (on(k, LINES) <= set(qq) if strict else on(k, LINES) & set(qq))), key=repr))
                    got = c.get_labels(pl, ql, strict)
                    if isinstance(pl, int):
                        ck(v, "a layer's part", comps(got), exp[0], (t, pl, ql, strict))
                    else:
                        ck(v, "a region's layers", lay(got), exp, (t, e, pl, ql, strict))
                        if strict:
                            ck(v, "a region's lines", tuple(got.line_labels), qq, (t, pl, ql))
                        v.check("a region is as editable as the circuit", got._static == c._static)
                if isinstance(pl, tuple):
                    continue          # a tuple is (layers, lines)
                if ql is None:
                    g = c[pl] if pl is not None else c[:]
                else:
                    g = c[pl, ql]
                ck(v, "indexing means the same", comps(g) if isinstance(pl, int) else of(g), comps(c.get_labels(pl, ql)) if isinstance(pl, int) else of(c.get_labels(pl, ql)), (t, pl, ql))
        for j in range(len(t)):
            ck(v, "get_layer", comps(list(c.get_layer(j))), comps(ls[j]), (t, j))
            ck(v, "get_layer_label", comps(c.get_layer_label(j)), comps(ls[j]), (t, j))
            idle = comps(ls[j])
            used = set().union(*[on(k, LINES) for k in idle]) if idle else set()
            idle = sorted(idle + [("I", (l,), (), 0) for l in LINES if l not in used], key=repr)
            drop = lambda ks: sorted(((k[0], k[1], k[2]) for k in ks), key=repr)
            ck(v, "get_layer_with_idles", drop(comps(list(c.get_layer_with_idles(j)))), drop(idle), (t, j))
            ck(v, "get_layer_label_with_idles", drop(comps(c.get_layer_label_with_idles(j))), drop(idle), (t, j))
        ck(v, "reading changes nothing", state(c), before)


NEW = [(), L("Gn", 0), L([L("Gn", 1), L("Gm", 0)]), L("Gn", (0, 1)), L("Gn", 0, 2.5), L("Gn", (1, 0), None, (0.25,)), L("Gn")]


def written(layer, lines, add, all_lines):
    """components of a layer after the part on `lines` is replaced; None if a gate straddles"""
    out = []
    for k in layer:
        s = on(k, LINES)
        if not s & set(lines):
            out.append(k)
        elif not s <= set(lines):
            return None
    for k in comps(add if isinstance(add, Label) else L(add)):
        out.append((k[0], tuple(lines), k[2], k[3]) if k[1] is None and not all_lines else k)
    return sorted(out, key=repr)


@unit(P, "writing regions", sym=False, conc=1, conc_s=200, weight=2, funcs=[K + n for n in ("set_labels", "__setitem__", "_clear_labels", "clear_labels")])
def writing(v):
    for t, e, ls, c0 in both(SHORT + [(4, 7, 2), (8, 6, 3), (3, 0, 9)]):
        if not e:
            for fn in (lambda: c0.set_labels(L("Gx", 0), 0), lambda: c0.clear_labels(None, 0), lambda: c0.insert_layer(L("Gx", 0), 0), lambda: c0.clear()):
                if t:
                    refuses(v, "a static circuit is not edited", fn, AssertionError)
            ck(v, "and stays as it is", of(c0), (LINES, ref(ls)))
            continue
        n = len(t)
        base = ref(ls)
        for j in range(n):
            for ql in (None, 0, (0, 1), [0, 1, 2]):
                qq = linelist(ql)
                for new in NEW:
                    if ql == 0 and set(L(new).sslbls or ()) - {0}:
                        continue
                    exp = written(base[j], qq, new, ql is None)
                    c = c0.copy()
                    if exp is None:
                        refuses(v, "straddling gates are not overwritten", lambda: c.set_labels(new, j, ql))
                        continue
                    c.set_labels(new, j, ql)
                    ck(v, "set_labels replaces the part of a layer", of(c), (LINES, base[:j] + [exp] + base[j + 1:]), (t, j, ql, new))
                    c = c0.copy()
                    if ql is None:
                        c[j] = new
                    else:
                        c[j, ql] = new
                    ck(v, "so does assignment", lay(c), base[:j] + [exp] + base[j + 1:], (t, j, ql, new))
            if 6 not in t:
                c = c0.copy()
                c.set_labels(L("Gn", 5), j)
                ck(v, "new lines are added", of(c), (LINES + (5,), base[:j] + [comps(L("Gn", 5))] + base[j + 1:]), (t, j))
            refuses(v, "labels outside the lines are refused", lambda: c0.copy().set_labels(L("Gn", 2), j, (0, 1)))
        for pl in [p for p in picks(n) if not isinstance(p, int)]:
            ii = indices(pl, n)
            if len(set(ii)) != len(ii) or pl is None:
                continue
            for ql in (None, 0, (0, 1)):
                qq = linelist(ql)
                news = [L("Gn%d" % k, 0) if k % 2 == 0 else L(()) for k in range(len(ii))]
                exp, bad = list(base), False
                for i, x in zip(ii, news):
                    w = written(base[i], qq, x, ql is None)
                    bad = bad or w is None
                    exp[i] = w
                c = c0.copy()
                if bad:
                    refuses(v, "straddling gates are not overwritten", lambda: c.set_labels(news, pl, ql))
                    continue
                c.set_labels(news, pl, ql)
                ck(v, "set_labels replaces a region", of(c), (LINES, exp), (t, pl, ql))
                if ql is None:
                    c = c0.copy()
                    c.set_labels(Circuit(news, LINES), pl)
                    ck(v, "set_labels takes a circuit", of(c), (LINES, exp), (t, pl))
                refuses(v, "a block of another width is refused", lambda: c0.copy().set_labels(news + [L(())], pl, ql), AssertionError) if ii else None
                c = c0.copy()
                c.clear_labels(pl, ql, clear_straddlers=True)
                ck(v, "clear_labels", of(c), (LINES, [[k for k in x if i not in ii or not on(k, LINES) & set(qq)] for i, x in enumerate(base)]), (t, pl, ql))
        c = c0.copy()
        news = [L("Gn%d" % k, 1) for k in range(n + 2)]
        c.set_labels(news)
        ck(v, "all layers may be replaced, by more", of(c), (LINES, ref(news)), t)
        c.clear()
        ck(v, "clear leaves no layers", lay(c), [])
        for q in LINES:
            c = c0.copy()
            c.replace_with_idling_line(q)
            ck(v, "replace_with_idling_line", of(c), (LINES, [[k for k in x if q not in on(k, LINES)] for x in base]), (t, q))


@unit(P, "inserting layers", sym=False, conc=1, conc_s=150, weight=2, funcs=[K + n for n in (
    "insert_idling_layers", "append_idling_layers", "insert_labels_into_layers", "insert_layer", "insert_circuit", "append_circuit", "prefix_circuit", "replace_layer_with_circuit")])
def inserting(v):
    for t, e, ls, c0 in both(SOME):
        if not e:
            continue
        n, base = len(t), ref(ls)
        for b in [None] + list(range(n + 1)) + list(range(-n, 0)):
            at = n if b is None else b if b >= 0 else n + b
            for num in (0, 1, 2):
                c = c0.copy()
                c.insert_idling_layers(b, num)
                ck(v, "idle layers are inserted", of(c), (LINES, base[:at] + [[]] * num + base[at:]), (t, b, num))
                for qq in ((0,), (0, 1), (1, 2), LINES):
                    bad = any(on(k, LINES) & set(qq) and not on(k, LINES) <= set(qq) for x in base[at:] for k in x)
                    c = c0.copy()
                    if bad:
                        refuses(v, "straddled blocks are not shifted", lambda: c.insert_idling_layers(b, num, qq)) if num else None
                        continue
                    c.insert_idling_layers(b, num, qq)
                    inn = [[k for k in x if on(k, LINES) <= set(qq)] for x in base]
                    out = [[k for k in x if not on(k, LINES) <= set(qq)] for x in base]
                    m = [[] for _ in range(n + num)]
                    for i in range(n):
                        m[i] += out[i]
                        m[i if i < at else i + num] += inn[i]
                    ck(v, "idle layers are inserted on some lines", of(c), (LINES, srt(m)), (t, b, num, qq))
            for news in ([], [L("Gn", 0)], [L([L("Gn", 1), L("Gm", 2)]), L(())], Circuit([L("Gn", 0), L("Gm", (0, 2))], LINES), [L("Gn")]):
                c = c0.copy()
                c.insert_labels_into_layers(news, b)
                ck(v, "layers are inserted", of(c), (LINES, base[:at] + ref(news) + base[at:]), (t, b, news))
            c = c0.copy()
            if not any(on(k, LINES) & {0} and not on(k, LINES) <= {0} for x in base[at:] for k in x):
                c.insert_labels_into_layers([L("Gn", 0)], b, (0,))
                m = [[] for _ in range(n + 1)]
                for i, x in enumerate(base):
                    for k in x:
                        m[i + 1 if i >= at and on(k, LINES) <= {0} else i].append(k)
                m[at] += comps(L("Gn", 0))
                ck(v, "labels are inserted on one line", of(c), (LINES, srt(m)), (t, b))
        for j in range(n + 1):
            c = c0.copy()
            c.insert_layer(L([L("Gn", 1), L("Gm", 0)]), j)
            ck(v, "a layer is inserted", of(c), (LINES, base[:j] + [comps(L([L("Gn", 1), L("Gm", 0)]))] + base[j:]), (t, j))
            for other in ([[], [L("Gn", (0, 1))]], [[L("Gn", 0), L("Gm", 2)]], []):
                for lines in (LINES, (2, 1, 0), (0, 1, 2, 7)):
                    o = build(other, False, lines)
                    c = c0.copy()
                    c.insert_circuit(o, j)
                    ck(v, "a circuit is inserted", of(c), (LINES, base[:j] + ref(other) + base[j:]), (t, j, other, lines))
                    ck(v, "the inserted circuit is unchanged", of(o), (lines, ref(other)))
                    if j < n:
                        for jj in (j, j - n):
                            c = c0.copy()
                            c.replace_layer_with_circuit(o, jj)
                            if lines != (0, 1, 2, 7):
                                ck(v, "a layer is replaced by a circuit", of(c), (LINES, base[:j] + ref(other) + base[j + 1:]), (t, jj, other))
            refuses(v, "lines in use must exist", lambda: c0.copy().insert_circuit(Circuit([L("Gn", 7)], (7,)), j), AssertionError)
        o = build([[L("Gn", (0, 1))], [L("Gm", 2)]], False)
        c = c0.copy()
        c.append_circuit(o)
        ck(v, "append_circuit", of(c), (LINES, base + lay(o)), t)
        c = c0.copy()
        c.prefix_circuit(o)
        ck(v, "prefix_circuit", of(c), (LINES, lay(o) + base), t)
        c.append_idling_layers(2)
        ck(v, "append_idling_layers", lay(c), lay(o) + base + [[], []], t)
        c.reverse()
        ck(v, "reverse", lay(c), [[], []] + base[::-1] + lay(o)[::-1], t)


@unit(P, "inserting lines and tensoring", sym=False, conc=1, conc_s=100, funcs=[K + n for n in (
    "insert_idling_lines", "append_idling_lines", "insert_labels_as_lines", "append_labels_as_lines", "tensor_circuit", "reorder_lines")])
def lines(v):
    others = [[], [[L("Gn", 5)]], [[L("Gn", (6, 5))], []], [[], [L("Gn", 5), L("Gm", 6, 0.5)], [L("Gq", (5, 6), None, (1.0,))]]]
    for t, e, ls, c0 in both(SOME, globals_=False):
        n, base = len(t), ref(ls)
        if not e:
            s = state(c0)
            for fn in (lambda: c0.append_idling_lines((9,)), lambda: c0.reorder_lines((2, 1, 0)), lambda: c0.delete_idling_lines(), lambda: c0.tensor_circuit(Circuit([], (7,)))):
                refuses(v, "a static circuit is not edited", fn, AssertionError)
            ck(v, "and stays as it is", state(c0), s)
            continue
        for b, i in ((None, 3), (0, 0), (1, 1), (2, 2)):
            c = c0.copy()
            c.insert_idling_lines(b, (7, 8))
            ck(v, "idle lines are inserted", of(c), (LINES[:i] + (7, 8) + LINES[i:], base), (t, b))
            for o in others:
                for at in [None] + list(range(n + 2)):
                    if (len(t) > 2 and len(o) > 2):
                        continue
                    a = at or 0
                    for as_circuit in (True, False):
                        c = c0.copy()
                        if as_circuit:
                            oc, kw, ol = build(o, False, (5, 6)), {}, (5, 6)
                        else:
                            oc, kw, ol = shape(o), {"line_labels": (6, 5)}, (6, 5)
                        c.insert_labels_as_lines(oc, at, b, **kw)
                        m = [list(x) for x in base] + [[] for _ in range(max(0, a + len(o) - n))]
                        for k, x in enumerate(ref(o)):
                            m[a + k] += x
                        ck(v, "labels are inserted as lines", of(c), (LINES[:i] + ol + LINES[i:], srt(m)), (t, at, b, o))
        c = c0.copy()
        c.append_idling_lines((7,))
        ck(v, "idle lines are appended", of(c), (LINES + (7,), base))
        refuses(v, "lines that exist are not inserted", lambda: c0.copy().append_labels_as_lines([L("Gn", 1)]), ValueError)
        for o in others:
            for order in (None, (6, 0, 5, 2, 1), [5, 6, 0, 1, 2]):
                for oe in (False, True):
                    oc = build(o, oe, (5, 6))
                    c = c0.copy()
                    c.tensor_circuit(oc, order)
                    m = [list(x) for x in base] + [[] for _ in range(len(o) - n)]
                    for k, x in enumerate(ref(o)):
                        m[k] += x
                    ck(v, "tensor_circuit", of(c), (LINES + (5, 6) if order is None else tuple(order), srt(m)), (t, o, order))
                    ck(v, "the other circuit is unchanged", of(oc), ((5, 6), ref(o)))
                    if oe and len(c) and len(oc):
                        c.clear_labels(0, clear_straddlers=True)
                        ck(v, "and shares nothing", of(oc), ((5, 6), ref(o)))
        c = c0.copy()
        c.reorder_lines((2, 0, 1))
        ck(v, "reorder_lines", of(c), ((2, 0, 1), base), t)
        refuses(v, "reordering keeps lines", lambda: c0.copy().reorder_lines((2, 0)), AssertionError)


@unit(P, "deleting", sym=False, conc=1, conc_s=100, funcs=[K + n for n in ("delete_layers", "delete_lines", "__delitem__", "delete_idle_layers", "delete_idling_lines", "line_labels")])
def deleting(v):
    for t, e, ls, c0 in both(SOME):
        n, base = len(t), ref(ls)
        if not e:
            s = state(c0)
            for fn in (lambda: c0.delete_layers(0), lambda: c0.delete_lines(0), lambda: c0.delete_idle_layers(), lambda: c0.reverse()):
                refuses(v, "a static circuit is not edited", fn, AssertionError)
            ck(v, "and stays as it is", state(c0), s)
            continue
        for pl in picks(n):
            ii = indices(pl, n)
            if len(set(ii)) != len(ii):
                continue
            exp = [x for i, x in enumerate(base) if i not in ii]
            c = c0.copy()
            c.delete_layers(pl)
            ck(v, "delete_layers", of(c), (LINES, exp), (t, pl))
            if pl is not None and not isinstance(pl, tuple):
                c = c0.copy()
                del c[pl]
                ck(v, "del c[layers]", of(c), (LINES, exp), (t, pl))
        for ql in (0, 1, (0, 1), [2, 0], (0, 1, 2)):
            qq = linelist(ql)
            expl = tuple(l for l in LINES if l not in qq)
            strad = any(k[1] is not None and set(k[1]) & set(qq) and not set(k[1]) <= set(qq) for x in base for k in x)
            exp = [[k for k in x if k[1] is None or not set(k[1]) & set(qq)] for x in base]
            c = c0.copy()
            c.delete_lines(ql, delete_straddlers=True)
            ck(v, "delete_lines", of(c), (expl, exp), (t, ql))
            c = c0.copy()
            del c[None, ql]
            ck(v, "del c[:,lines]", of(c), (expl, exp), (t, ql))
            c = c0.copy()
            if strad:
                refuses(v, "straddling gates are not deleted silently", lambda: c.delete_lines(ql), ValueError)
            else:
                c.delete_lines(ql)
                ck(v, "delete_lines without straddlers", of(c), (expl, exp), (t, ql))
        c = c0.copy()
        ch = c.delete_idle_layers()
        ck(v, "delete_idle_layers", (of(c), bool(ch)), ((LINES, [x for x in base if x]), any(not x for x in base)), t)
        glob = any(k[1] is None for x in base for k in x)
        used = set().union(*[set(k[1] or LINES) for x in base for k in x]) if base else set()
        c = c0.copy()
        c.delete_idling_lines()
        ck(v, "delete_idling_lines", of(c), (LINES if glob else tuple(l for l in LINES if l in used), base), t)
        c = c0.copy()
        c.line_labels = LINES + (4,)
        ck(v, "setting more line labels adds idle lines", of(c), (LINES + (4,), base), t)


@unit(P, "questions", sym=False, conc=1, conc_s=100, funcs=[K + n for n in (
    "is_line_idling", "get_idling_lines", "depth", "size", "width", "nQgate_count", "twoQgate_count", "multiQgate_count", "__contains__")])
def questions(v):
    for t, e, ls, c in both(INDEX):
        base = ref(ls)
        s = state(c)
        ks = [k for x in base for k in x]
        used = set().union(*[on(k, LINES) for k in ks]) if ks else set()
        for q in LINES:
            ck(v, "is_line_idling", bool(c.is_line_idling(q)), q not in used, (t, e, q))
        ck(v, "get_idling_lines", tuple(c.get_idling_lines()), tuple(l for l in LINES if l not in used), (t, e))
        if any(k[1] is None for k in ks):
            idle = [L(k[0]) for k in ks if k[1] is None]
            rest = [k for k in ks if k[1] is not None]
            used2 = set().union(*[on(k, LINES) for k in rest]) if rest else set()
            ck(v, "idle layers don't count", tuple(c.get_idling_lines(idle)), tuple(l for l in LINES if l not in used2), (t, e))
            ck(v, "idle layers don't count", [bool(c.is_line_idling(q, idle)) for q in LINES], [q not in used2 for q in LINES], (t, e))
        ck(v, "depth", (c.depth(), c.num_layers(), c.width()), (len(t), len(t), 3), (t, e))
        ck(v, "size", c.size(), sum(len(on(k, LINES)) for k in ks), (t, e))
        for nq in (1, 2, 3):
            ck(v, "gates on n qubits", c.nQgate_count(nq), sum(k[1] is not None and len(k[1]) == nq for k in ks), (t, e, nq))
        ck(v, "two-qubit gates", (c.twoQgate_count(), c.multiQgate_count()), (sum(k[1] is not None and len(k[1]) == 2 for k in ks), sum(k[1] is not None and len(k[1]) > 1 for k in ks)), (t, e))
        ck(v, "asking changes nothing", state(c), s)
        if not e:
            for x in ls:
                v.check("a circuit contains its layers", L(x if len(x) != 1 else x[0]) in c, t)
            v.check("and no others", L("Gzz", 0) not in c and L([L("Ga0", 0), L("Gzz", 1)]) not in c, t)


@unit(P, "serializing and parallelizing", sym=False, conc=1, conc_s=150, funcs=[K + n for n in ("serialize", "parallelize")])
def serial(v):
    for t, e, ls, c in both(INDEX):
        base = ref(ls)
        s = state(c)
        pr = projections(base, LINES)
        out = c.serialize()
        ck(v, "serialize keeps gates and their order", projections(lay(out), LINES), pr, (t, e))
        v.check("serialize puts one gate into each layer", all(len(x) <= 1 for x in lay(out)), (t, e))
        ck(v, "and keeps idle layers and lines", (len(out), tuple(out.line_labels)), (sum(max(1, len(x)) for x in base), LINES), (t, e))
        for brk in (True, False):
            for adj in (True, False):
                for src, nm in ((c, "circuit"), (out, "serial circuit")):
                    p = src.parallelize(can_break_labels=brk, adjacent_only=adj)
                    ck(v, "parallelize keeps gates and their order (%s)" % nm, projections(lay(p), LINES), pr, (t, e, brk, adj))
                    v.check("without collisions", not collide(lay(p), LINES), (t, e, brk, adj))
                    v.check("in no more layers", len(p) <= len(src), (t, e, brk, adj))
                    ck(v, "and keeps lines", tuple(p.line_labels), LINES)
                    if adj:
                        order = [k for x in lay(src) for k in x]
                        pos = {k: i for i, x in enumerate(lay(p)) for k in x}
                        lays = [[pos[k] for k in x] for x in lay(src) if x]
                        v.check("adjacent_only moves nothing past a later layer", all(max(a) <= min(b) if not brk else min(a) <= max(b) for a, b in zip(lays, lays[1:])), (t, e, brk))
                if not adj and brk:
                    free, deepest = {l: 0 for l in LINES}, 0
                    for x in base:
                        for k in x:
                            d = max([free[l] for l in on(k, LINES)])
                            for l in on(k, LINES):
                                free[l] = d + 1
                            deepest = max(deepest, d + 1)
                    ck(v, "parallelize reaches the least depth", len(c.parallelize()), deepest, (t, e))
        ck(v, "the circuit is unchanged", state(c), s)


@unit(P, "compressing depth", sym=False, conc=1, conc_s=150, weight=2, funcs=[K + n for n in ("compress_depth", "combine_oneQgates", "shift_gates_forward", "delete_idle_layers")])
def compressing(v):
    for t, e, ls, c0 in both(INDEX):
        if not e:
            continue
        base = ref(ls)
        pr = projections(base, LINES)
        for what in ("shift_gates_forward", "compress_depth"):
            c = c0.copy()
            r = getattr(c, what)()
            ck(v, "%s keeps gates and their order" % what, projections(lay(c), LINES), pr, t)
            v.check("without collisions", not collide(lay(c), LINES), t)
            if what == "compress_depth":
                v.check("no idle layers stay", all(lay(c)), t)
                v.check("no gate could move further", all(on(k, LINES) & set().union(*[on(q, LINES) for q in a]) for a, b in zip(lay(c), lay(c)[1:]) for k in b), t)
            else:
                ck(v, "shift_gates_forward tells whether it changed anything", bool(r), lay(c) != base, t)
    # gates from the group of permutations of three things; a relation is a product
    S3 = list(itertools.permutations(range(3)))
    mul = lambda a, b: tuple(b[a[i]] for i in range(3))   # a first
    name = {g: "P" + "".join(map(str, g)) for g in S3[1:]}
    rel = {(name[a], name[b]): name.get(mul(a, b)) for a in S3[1:] for b in S3[1:]}
    val = {n: g for g, n in name.items()}

    def normal(layers, lines):
        out = {}
        for l, ks in projections(layers, lines).items():
            seq, acc = [], S3[0]
            for k in ks:
                if k[0] in val and not k[2] and k[1] is not None and len(k[1]) == 1:
                    acc = mul(acc, val[k[0]])
                else:
                    seq += [acc, k]
                    acc = S3[0]
            out[l] = seq + [acc]
        return out
    rng = v.rng
    for trial in range(3000):
        names = list(val) if trial % 2 else [name[(1, 0, 2)]] if trial % 4 else [name[(1, 2, 0)], name[(2, 0, 1)]]
        n = rng.randrange(1, 7)
        layers = []
        for _ in range(n):
            free, layer = list(LINES), []
            rng.shuffle(free)
            if rng.random() < 0.1:
                layer = [L("Gi")]
                free = []
            while free:
                q = free.pop()
                x = rng.random()
                if x < 0.35:
                    layer.append(L(rng.choice(names), q))
                elif x < 0.5 and free:
                    layer.append(L("Gcnot", (q, free.pop())))
                elif x < 0.6:
                    layer.append(L(rng.choice(names), q, None, (0.5,)))
                elif x < 0.65:
                    layer.append(L("Gt", q))
            layers.append(layer)
        part = rel if trial % 3 else {k: r for i, (k, r) in enumerate(rel.items()) if i % 2}
        for what in ("combine_oneQgates", "compress_depth"):
            c = build(layers, True)
            getattr(c, what)(part)
            ck(v, "%s keeps the product of one-qubit gates" % what, normal(lay(c), LINES), normal(ref(layers), LINES), layers)
            v.check("without collisions", not collide(lay(c), LINES), layers)
            v.check("and adds no gates", sum(map(len, lay(c))) <= sum(map(len, ref(layers))), layers)


class unexpanded:
    """circuits keep sub-circuits by default"""
    def __enter__(self):
        self.old, Circuit.default_expand_subcircuits = Circuit.default_expand_subcircuits, False
    def __exit__(self, *a):
        Circuit.default_expand_subcircuits = self.old


def sub(layers, lines, reps=1, name=""):
    return CircuitLabel(name, tuple(shape(layers)), lines, reps)


@unit(P, "sub-circuits", sym=False, conc=1, conc_s=100, funcs=[K + n for n in ("expand_subcircuits", "factorize_repetitions", "as_label", "repeat", "depth")])
def subcircuits(v):
    inner = [[[L("Ga", 0)], [L("Gb", 0)]], [[L("Gc", (0, 1))], [], [L("Ga", 1)]], [[L("Ga", 0), L("Gb", 1)]]]
    other = [[[L("Gd", 2)], [L("Gf", 2)], [L("Gd", 2)]], [[L("Gd", 2)]]]
    tops = []
    for i, a in enumerate(inner):
        for r in (1, 2, 3):
            s = sub(a, (0, 1), r)
            tops += [[[s]], [[L("Gx", 0)], [s], [L("Gy", (0, 2))]], [[s, L("Gx", 2)]], [[s], [s]]]
            for b in other:
                for q in (1, 2):
                    tops += [[[s, sub(b, (2,), q)], [L("Gz", 1)]], [[sub([[s], [L("Gw", 1)]], (0, 1), q)], [L("Gz", 2)]]]
    for top in tops:
        base = ref(top)
        exp = srt(expanded(base))
        for e in (False, True):
            c = Circuit(shape(top), LINES, editable=e, expand_subcircuits=False)
            ck(v, "sub-circuits are kept when asked to", of(c), (LINES, base), top)
            ck(v, "depth counts the layers within", c.depth(), len(exp), top)
            x = Circuit(shape(top), LINES, editable=e)
            ck(v, "sub-circuits are expanded otherwise", of(x), (LINES, exp), top)
            with unexpanded():
                z = c.serialize()
            ck(v, "serialize keeps sub-circuits whole", projections(lay(z), LINES), projections(base, LINES), top)
            v.check("serialize separates sub-circuits", all(len(x) <= 1 for x in lay(z)), top)
        c = Circuit(shape(top), LINES, editable=True, expand_subcircuits=False)
        c.expand_subcircuits()
        ck(v, "expand_subcircuits", of(c), (LINES, exp), top)
        m = Circuit(shape(top), LINES, editable=True, expand_subcircuits=False)
        m.map_state_space_labels_inplace({0: "a", 1: "b", 2: "c"})
        m.expand_subcircuits()
        ren = lambda k: (k[0], tuple("abc"[q] for q in k[1])) + k[2:]
        ck(v, "mapping lines reaches into sub-circuits", of(m), (("a", "b", "c"), srt([[ren(k) for k in x] for x in exp])), top)
        m = Circuit(shape(top), LINES, editable=True, expand_subcircuits=False)
        m.map_names_inplace({"Ga": "Gnew"})
        m.expand_subcircuits()
        ren = lambda k: ("Gnew" if k[0] == "Ga" else k[0],) + k[1:]
        ck(v, "mapping names reaches into sub-circuits", of(m), (LINES, srt([[ren(k) for k in x] for x in exp])), top)
    for t in SHORT + [(1, 1, 1), (2, 2, 0), (0, 0, 0), (8, 8, 1)]:
        ls = [menu(0)[i] for i in t]
        for reps in ((1,) * len(t), (2,) * len(t), (3, 1, 2)[:len(t)]):
            layers = [x for x, r in zip(ls, reps) for _ in range(r)]
            c = build(layers, True)
            c.factorize_repetitions()
            groups = [k for k, _ in itertools.groupby(ref(layers))]
            ck(v, "repeated layers become one", len(c), len(groups), (t, reps))
            ck(v, "depth is kept", c.depth(), len(layers), (t, reps))
            c.expand_subcircuits()
            ck(v, "factorize_repetitions is undone by expansion", of(c), (LINES, ref(layers)), (t, reps))
        c = build(ls, False)
        for r in (1, 2, 4):
            ck(v, "a circuit as a label expands to itself", of(Circuit([c.as_label(r)], LINES)), (LINES, ref(ls) * r), (t, r)) if 6 not in t else None


@unit(P, "sums and powers", sym=False, conc=1, conc_s=100, funcs=[K + n for n in ("__add__", "__mul__", "__pow__", "repeat")] + ["pygsti.objects.circuit.CompressedCircuit"])
def sums(v):
    for t in SOME[::2]:
        a = build(layers_for(t), False)
        for r in (0, 1, 2, 5):
            for c in (a * r, a ** r, a.repeat(r), a.copy(editable=True) * r):
                ck(v, "a power repeats the layers", of(c), (LINES, lay(a) * r), (t, r))
            x = Circuit(a.repeat(r, expand=False).layertup, LINES)
            ck(v, "an unexpanded power expands to it", of(x), (LINES, lay(a) * r), (t, r)) if 6 not in t else None
            if 6 not in t:
                v.check("and is one layer", len(a.repeat(r, expand=False)) == 1 or r < 2 or not t, (t, r))
        for u in SHORT[::11]:
            for lines, expl in ((LINES, LINES), ((2, 1, 0, 4), LINES + (4,))):
                for ea, eb in ((False, False), (True, False), (False, True)):
                    x = build(layers_for(t), ea)
                    b = build(layers_for(u), eb, lines)
                    s = x + b
                    ck(v, "a sum has the layers of both", of(s), (expl, lay(a) + lay(b)), (t, u))
                    v.check("a sum is editable if one of them is", s._static == (not ea and not eb))
                    ck(v, "the summands are unchanged", (of(x), of(b)), (of(a), (lines, ref(layers_for(u)))), (t, u))
    words = tuple(("".join("".join(v.rng.choice("abcd") for _ in range(v.rng.choice((1, 1, 2, 3)))) * v.rng.choice((1, 2, 3, 3, 8)) for _ in range(v.rng.randrange(1, 7))), 1)
                  for _ in range(400))
    for pat, n in (("ab", 40), ("aab", 15), ("a", 100), ("abcd" * 6 + "a" * 30, 2), ("ab" * 15 + "c" + "d" * 9, 1), ("abcde", 3), ("", 0), ("abcdefgh" * 3 + "ab", 1), ("ab" * 10, 1)) + words:
        ls = [L("G" + ch, 0) if ch != "b" else L([L("Gb", 0), L("Gc", 1)]) for ch in pat * n]
        c = Circuit(ls, (0, 1))
        for k in (20, 5, 1):
            for per in (20, 3, 1):
                z = CompressedCircuit(c, k, per)
                d = z.expand()
                ck(v, "a compressed circuit expands to itself", (of(d), d == c, hash(d) == hash(c)), (of(c), True, True), (pat, n, k, per))


@unit(P, "replacing and mapping", sym=False, conc=1, conc_s=150, funcs=[K + n for n in (
    "replace_gatename", "replace_gatename_inplace", "replace_layer", "replace_layers_with_aliases", "map_names_inplace", "map_state_space_labels", "map_state_space_labels_inplace",
    "change_gate_library")])
def replacing(v):
    for t, e, ls, c0 in both(SOME):
        base = ref(ls)
        s = state(c0)
        names = sorted({k[0] for x in base for k in x})
        for n in names + ["Gabsent"]:
            exp = (LINES, srt([[("Gnew",) + k[1:] if k[0] == n else k for k in x] for x in base]))
            ck(v, "replace_gatename", of(c0.replace_gatename(n, "Gnew")), exp, (t, e, n))
            if e:
                c = c0.copy()
                c.replace_gatename_inplace(n, "Gnew")
                ck(v, "replace_gatename_inplace", of(c), exp, (t, n))
                for mp in ({n: "Gnew"}, lambda x: "Gnew" if x == n else x):
                    c = c0.copy()
                    c.map_names_inplace(mp)
                    ck(v, "map_names_inplace", of(c), exp, (t, n))
        if names and e:
            perm = dict(zip(names, names[1:] + names[:1]))
            c = c0.copy()
            c.map_names_inplace(perm)
            ck(v, "names are mapped simultaneously", of(c), (LINES, srt([[(perm[k[0]],) + k[1:] for k in x] for x in base])), t)
        for mp in ({0: 1, 1: 2, 2: 0}, {0: "a", 1: "b", 2: "c"}, {0: 2, 1: 1, 2: 0}):
            ren = lambda k: (k[0], None if k[1] is None else tuple(mp[q] for q in k[1])) + k[2:]
            exp = (tuple(mp[q] for q in LINES), srt([[ren(k) for k in x] for x in base]))
            for f in (mp, lambda q: mp[q]):
                r = c0.map_state_space_labels(f)
                ck(v, "map_state_space_labels", of(r), exp, (t, e, mp))
                if e:
                    c = c0.copy()
                    c.map_state_space_labels_inplace(f)
                    ck(v, "map_state_space_labels_inplace", of(c), exp, (t, mp))
        for i, x in enumerate(ls):
            old = shape([x])[0]
            for new in (L("Gnew", 1), L([L("Gnew", 0), L("Gb%d" % i, 2)])):
                exp = [comps(new) if y == base[i] else y for y in base]
                ck(v, "replace_layer", of(c0.replace_layer(old, new)), (LINES, exp), (t, e, i))
            for al in ([], [[L("Gnew", 1)], []], [x, x], [[L("Gnew", 0)], x]):
                alias = build(al, False)
                r = c0.replace_layers_with_aliases({old: alias})
                ck(v, "replace_layers_with_aliases", of(r), (LINES, [z for y in base for z in (ref(al) if y == base[i] else [y])]), (t, e, i, al))
            if not e:
                r = cc.translate_circuit(c0, {old: (L("Gnew", 1), old)})
                ck(v, "translate_circuit", of(r), (LINES, [z for y in base for z in ([comps(L("Gnew", 1)), y] if y == base[i] else [y])]), (t, i))
                r = cc.translate_circuit_list([c0, c0], {old: (L("Gnew", 1), old)})[1]
                ck(v, "translate_circuit_list", of(r), (LINES, [z for y in base for z in ([comps(L("Gnew", 1)), y] if y == base[i] else [y])]), (t, i))
        ck(v, "the circuit is unchanged", state(c0), s)
        if e and 6 not in t:
            ks = [k for x in ls for k in x]
            for dc in (False, True):
                for part in (False, True):
                    comp = {}
                    for j, k in enumerate(ks):
                        if part and j % 2:
                            continue
                        comp[k] = Circuit([L("H%s" % k.name, k.sslbls), L("K%s" % k.name, k.sslbls[0])][:1 + j % 2], k.sslbls, editable=False)
                    c = c0.copy()
                    if part and len(ks) > 1:
                        refuses(v, "gates without a compilation are refused", lambda: c0.copy().change_gate_library(comp), ValueError)
                    c.change_gate_library(comp, allow_unchanged_gates=True, depth_compression=dc)
                    flat = [[z] for x in ls for k in x for z in ([key(y) for y in comp[k].layertup] if k in comp else [key(k)])]
                    ck(v, "change_gate_library replaces each gate where it stands", projections(lay(c), LINES), projections(flat, LINES), (t, part, dc))
                    v.check("without collisions", not collide(lay(c), LINES), t)


@unit(P, "manipulating circuits by rules", sym=False, conc=1, conc_s=60, funcs=["pygsti.construction.circuitconstruction.manipulate_circuit", "pygsti.construction.circuitconstruction.manipulate_circuit_list",
                                                                            "pygsti.construction.circuitconstruction.filter_circuits"])
def rules(v):
    A, B, C, D = [L("G" + x, 0) for x in "abcd"]
    for n in range(6):
        for w in itertools.product((A, B, C), repeat=n):
            c = Circuit(w, (0,))
            r = cc.manipulate_circuit(c, [((A,), (B, C))], (0,))
            ck(v, "single labels are replaced", [x for x in r], [y for x in w for y in ((B, C) if x == A else (x,))], w)
            r = cc.manipulate_circuit(c, [((A, B), (A, D))], (0,))
            ck(v, "labels after another are replaced", list(r), [D if x == B and i and w[i - 1] == A else x for i, x in enumerate(w)], w)
            r = cc.manipulate_circuit(c, [((B, A), (D, A))], (0,))
            ck(v, "labels before another are replaced", list(r), [D if x == B and i + 1 < n and w[i + 1] == A else x for i, x in enumerate(w)], w)
            v.check("no rules change nothing", cc.manipulate_circuit(c, None) is c)
            r = cc.manipulate_circuit_list([c, c], [((A,), (B,)), ((B,), (A,))], (0,))
            ck(v, "rules apply simultaneously", list(r[1]), [B if x == A else A if x == B else x for x in w], w)
    for t in INDEX:
        ls = layers_for(t)
        base, c = ref(ls), build(ls, False)
        for keep, new in (((0,), None), ((1, 2), None), ((0, 1), ("a", "b")), ((2, 1, 0), (0, 1, 2)), ((0, 2), (5, 6))):
            r = cc.filter_circuit(c, keep, new)
            mp = dict(zip(keep, new or keep))
            if any(k[1] is not None and set(k[1]) & set(keep) and not set(k[1]) <= set(keep) for x in base for k in x):
                v.check("no circuit if a gate straddles the kept lines", r is None and cc.filter_circuits([c], keep, new) == [None] and cc.filter_circuits([c], keep, new, drop=True) == [], (t, keep))
                continue
            exp = srt([[(k[0], None if k[1] is None else tuple(mp[q] for q in k[1])) + k[2:] for k in x if k[1] is None or set(k[1]) <= set(keep)] for x in base])
            ck(v, "filter_circuit keeps what is on the lines", of(r), (tuple(new or keep), exp), (t, keep, new))
            r = cc.filter_circuit(c, keep, new, idle=None)
            ck(v, "and may leave out idle layers", lay(r), [x for x in exp if x], (t, keep, new))
            r = cc.filter_circuits([c], keep, new, idle=None, drop=True)
            ck(v, "and idle circuits", len(r), int(any(exp) or not t), (t, keep, new))
            ck(v, "the circuit is unchanged", of(c), (LINES, base))

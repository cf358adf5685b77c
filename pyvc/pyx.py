"""Mechanical extraction of a Cython function as Python text, redone from the source on every run.

What the extraction drops: C types in parameter lists, `cdef` declarations without a value, casts `<T>`, decorators,
docstring-free print statements, free() and the address-of operator. malloc(n * sizeof(T)) becomes a fresh store whose
cells must be written before they are read. Machine integers become mathematical ones. Everything else is the text of the
function as it stands."""
import re
import os


class CArr(dict):
    """the memory malloc(n * sizeof(T)) returns: reading an unwritten cell or touching one outside is an error"""
    def __init__(self, n):
        self.n = n
    def __setitem__(self, k, x):
        if not 0 <= k < self.n:
            raise IndexError("write to cell %r of %r allocated" % (k, self.n))
        dict.__setitem__(self, k, x)
    def __missing__(self, k):
        raise IndexError("read of uninitialised memory at %r" % (k,))


class ExtractError(Exception):
    pass


def split_top(s, sep=","):
    out, depth, cur, q = [], 0, "", None
    for ch in s:
        if q:
            cur += ch
            if ch == q:
                q = None
            continue
        if ch in "'\"":
            q = ch
        if ch in "([{":
            depth += 1
        if ch in ")]}":
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def top_eq(s):
    depth = 0
    for i, ch in enumerate(s):
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        elif ch == "=" and depth == 0 and s[i + 1:i + 2] != "=" and s[i - 1:i] not in "<>!=":
            return i
    return -1


CAST = re.compile(r"<\s*(?:double complex|long long|unsigned long long|double|INT|UINT|int|long|complex|void)\s*\**\s*>")
MALLOC = re.compile(r"\bmalloc\s*\(")


def fix_malloc(s):
    while True:
        m = MALLOC.search(s)
        if not m:
            return s
        d, i = 1, m.end()
        while d:
            d += {"(": 1, ")": -1}.get(s[i], 0)
            i += 1
        size = s[m.end():i - 1]
        k = size.rfind("* sizeof") if "* sizeof" in size else size.rfind("*sizeof")
        if k < 0:
            raise ExtractError("malloc(%s)" % size)
        s = s[:m.start()] + "CArr(%s)" % size[:k].strip() + s[i:]


def param(p):
    p = p.strip()
    i = top_eq(p)
    default = p[i:] if i >= 0 else ""
    decl = p[:i] if i >= 0 else p
    decl = re.sub(r"\[.*\]", "", decl)
    m = re.search(r"(\**\w+)\s*(not None|or None)?\s*$", decl)
    return m.group(1).lstrip("*") + default


def body_line(line):
    ind = line[:len(line) - len(line.lstrip())]
    s = line.strip()
    if s.startswith("#") or not s:
        return line
    if s.startswith("print"):
        return ind + "pass"
    s = fix_malloc(CAST.sub("", s))
    s = re.sub(r"(?<![\w)\]])&(?=\w)", "", s)
    if re.match(r"free\s*\(", s):
        return ind + "pass"
    if s.startswith("cdef "):
        s = s.split("#")[0].rstrip().rstrip(";")
        parts = split_top(s[5:])
        res = []
        for k, p in enumerate(parts):
            i = top_eq(p)
            if i < 0:
                continue
            lhs = re.sub(r"\[.*\]", "", p[:i])
            name = re.search(r"(\w+)\s*$", lhs).group(1)
            res.append("%s = %s" % (name, p[i + 1:].strip()))
        return ind + ("; ".join(res) if res else "pass")
    return ind + s


def extract(path, name):
    text = open(path).read().split("\n")
    start = None
    for n, l in enumerate(text):
        if re.match(r"(def|cdef|cpdef)\b.*\b%s\s*\(" % re.escape(name), l):
            start = n
    if start is None:
        raise ExtractError("%s not found in %s" % (name, os.path.basename(path)))
    hdr, n = "", start
    while True:
        hdr += text[n].split("#")[0].rstrip() + " "
        n += 1
        if hdr.count("(") == hdr.count(")") and hdr.rstrip().endswith(":"):
            break
    i = hdr.index(name) + len(name)
    j = hdr.rindex(")")
    args = ", ".join(param(p) for p in split_top(hdr[hdr.index("(", i) + 1:j]))
    out = ["def %s(%s):" % (name, args)]
    while n < len(text) and (not text[n].strip() or text[n][0] in " \t#"):
        if text[n].strip() and text[n][0] != "#":
            out.append(body_line(text[n]))
        n += 1
    return "\n".join(out) + "\n"


def load(path, names, extra):
    """compile the named functions in one namespace"""
    ns = {"CArr": CArr}
    ns.update(extra)
    for name in names:
        src = extract(path, name)
        exec(compile(src, path + ":" + name, "exec"), ns)
    return ns

"""P18: indexing and slicing: every sequence up to a length, every index and pair of bounds around and beyond both ends."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P18", rule="one sequence with one index or one pair of bounds; non-trivial = distinct (sequence, index, result)",
             assumptions=["a negative start of a slice is clipped to the start of the sequence, as the code deliberately does", "fractional positions are truncated towards zero", "NaN as a bound is outside of the promise"])
EXE = c.build("plain")
ASAN = c.build("asan")
INF = float("inf")


def num(x):
    return "zinf" if x == INF else "-zinf" if x == -INF else mc.fmt(x)


PRE = "var zinf = 1e300 * 1e300; var s; var t; var i; var e = 0; def id(x) { return x; } class Z { init() { this.s = nil; } at(i) { return this.s[i]; } cut(a, b) { return this.s[a:b]; } } var z = Z(); var zd = {};\n"
LIM = 1 << 40


def pos(x):
    return LIM if x >= LIM else -LIM if x <= -LIM else int(x)


def index(n, x):
    i = pos(x)
    i = i + n if i < 0 else i
    return i if 0 <= i < n else None


def cut(seq, a, b):
    n = len(seq)
    a = 0 if a is None else max(pos(a), 0)
    b = n if b is None else pos(b)
    b = b + n if b < 0 else min(b, n)
    return seq[a:b] if a < b else seq[:0]


def show(seq):
    return '"%s"' % seq if isinstance(seq, str) else "[" + ", ".join(map(mc.fmt, seq)) + "]"


def out(seq):
    return seq if isinstance(seq, str) else show(seq)


def seqs(n):
    return ["abcdefghijkl"[:n], list(range(10, 10 + n))]


def xs(n):
    v = list(range(-n - 2, n + 3))
    return v + [x + d for x in v for d in (0.5, -0.25)] + [1e10, -1e10, 2147483647, 2147483648, -2147483648, -2147483649, 4294967296, 4294967297, -4294967295, 1e300, -1e300, INF, -INF, -0.0, 255, 256, 65536]


def indexing(sh, item):
    w = mc.worker(EXE)
    items = []
    n, form = item
    for seq in seqs(n):
        kind = type(seq).__name__
        S = show(seq)
        for x in xs(n):
            i = index(n, x)
            X = num(x)
            pre, ex = {"lit": ("", "%s[%s]" % (S, X)), "var": ("s = %s; " % S, "s[%s]" % X), "both": ("s = %s; i = %s; " % (S, X), "s[i]"), "expr": ("s = %s; i = %s; " % (S, X), "id(s)[id(i)]"), "attr": ("z.s = %s; " % S, "z.s[%s]" % X),
                       "method": ("z.s = %s; " % S, "z.at(%s)" % X), "dict": ("zd['k'] = %s; " % S, "zd['k'][%s]" % X), "local": ("", "(def (a, b) => a[b])(%s, %s)" % (S, X)), "nested": ("s = [[%s]]; " % S, "s[-1][0][%s]" % X)}[form]
            key = "%s:%s:%d:%s" % (form, kind, n, X)
            if i is None:
                items.append((key, pre + "print(%s);" % ex, fails(out="")))
            else:
                items.append((key, pre + "print(%s);" % ex, "%s\n" % (seq[i] if isinstance(seq, str) else mc.fmt(seq[i]))))
            if kind == "list" and form in ("var", "both", "expr", "attr", "dict", "nested"):
                tgt = ex
                after = {"attr": "z.s", "dict": "zd['k']", "nested": "s[0][0]"}.get(form, "s")
                for op, f in (("=", lambda v: 7), ("+=", lambda v: v + 7), ("-=", lambda v: v - 7), ("*=", lambda v: v * 7), ("/=", lambda v: v / 7)):
                    k2 = "set%s:%s" % (op, key)
                    if form == "expr" and op != "=":
                        continue
                    if i is None:
                        items.append((k2, pre + "%s %s 7;" % (tgt, op), fails(out="")))
                        items.append(("after:" + k2, "print(%s);" % after, out(seq) + "\n"))
                    else:
                        new = list(seq)
                        new[i] = f(new[i])
                        items.append((k2, pre + "%s %s 7; print(%s);" % (tgt, op, after), out(new) + "\n"))
            elif kind == "str" and form in ("var", "attr"):
                items.append(("strset:" + key, pre + "%s = 'q';" % ex, fails(out="")))
                items.append(("after:strset:" + key, "print(%s);" % ("z.s" if form == "attr" else "s"), seq + "\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


FORMS = ["lit", "var", "both", "expr", "attr", "method", "dict", "local", "nested"]
c.explore("index", indexing, [(n, f) for n in range(c.pick(9, 12)) for f in FORMS])


def slicing(sh, item):
    w = mc.worker(EXE)
    items = []
    n, form, part = item
    bounds = [None] + list(range(-n - 2, n + 3)) + [0.5, 1.75, -0.5, -1.5, n - 0.5, 1e10, -1e10, 2147483647, 2147483648, -2147483648, -2147483649, 4294967297, INF, -INF]
    T = lambda x: "" if x is None else num(x)
    for seq in seqs(n)[part:part + 1]:
        kind = type(seq).__name__
        S = show(seq)
        for a in bounds:
            for b in bounds:
                if a is None and b is None:
                    continue
                r = cut(seq, a, b)
                sl = "%s:%s" % (T(a), T(b))
                pre, ex = {"lit": ("", "%s[%s]" % (S, sl)), "var": ("s = %s; " % S, "s[%s]" % sl), "expr": ("s = %s; var a = %s; var b = %s; " % (S, num(a or 0), num(b or 0)), "id(s)[%s:%s]" % ("" if a is None else "id(a)", "" if b is None else "b - 0")),
                           "attr": ("z.s = %s; " % S, "z.s[%s]" % sl), "nested": ("s = [[%s]]; " % S, "s[0:1][0][0][%s]" % sl)}[form]
                key = "slice:%s:%s:%d:%s" % (form, kind, n, sl)
                if kind == "str":
                    items.append((key, pre + "t = %s; print(t); print(t.len()); print(t == '%s');" % (ex, r), "%s\n%d\ntrue\n" % (r, len(r))))
                elif form == "lit":
                    items.append((key, "t = %s; print(t); print(t.len()); t.push(1); print(t);" % ex, "%s\n%d\n%s\n" % (out(r), len(r), out(r + [1]))))
                else:
                    # changing the slice does not change the source, nor the other way round
                    src = {"attr": "z.s", "nested": "s[0][0]"}.get(form, "s")
                    code = pre + "t = %s; print(t); " % ex
                    exp = [out(r)]
                    if r:
                        code += "t[0] = 99; t.push(98); print(t); print(%s); " % src
                        exp += [out([99] + r[1:] + [98]), out(seq)]
                    else:
                        code += "t.push(98); print(%s); " % src
                        exp += [out(seq)]
                    if n:
                        code += "t = %s; %s[%d] = 55; %s.push(44); print(t); " % (ex, src, n - 1, src)
                        exp += [out(r)]
                    items.append((key, code, "".join(x + "\n" for x in exp)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


c.explore("slice", slicing, [(n, f, k) for n in range(c.pick(9, 12)) for f in ("lit", "var", "expr", "attr", "nested") for k in (0, 1)])


def twice(sh, item):
    """a slice of a slice, an index of a slice"""
    w = mc.worker(EXE)
    items = []
    n, a = item
    B = [None] + list(range(-n - 1, n + 2))
    T = lambda x: "" if x is None else str(x)
    for seq in seqs(n):
        code, exp = ["s = %s;" % show(seq)], []
        for b in B:
            if a is None and b is None:
                continue
            r = cut(seq, a, b)
            for x in B:
                for y in B:
                    if x is None and y is None:
                        continue
                    code.append("print(s[%s:%s][%s:%s]);" % (T(a), T(b), T(x), T(y)))
                    exp.append(out(cut(r, x, y)))
                if x is not None and index(len(r), x) is not None:
                    v = r[index(len(r), x)]
                    code.append("print(s[%s:%s][%d]);" % (T(a), T(b), x))
                    exp.append(v if isinstance(v, str) else mc.fmt(v))
                if len(code) > 20:
                    items.append(("twice:%s:%d" % (type(seq).__name__, len(items)), " ".join(code), "".join(e + "\n" for e in exp)))
                    code, exp = code[:1], []
        items.append(("twice:%s:%d" % (type(seq).__name__, len(items)), " ".join(code), "".join(e + "\n" for e in exp)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


c.explore("twice", twice, [(n, a) for n in range(c.pick(6, 8)) for a in [None] + list(range(-n - 1, n + 2))])


# ---------------------------------------------------------------- kinds that are no index, and values that are no sequence
KINDS = ["nil", "true", "false", "'a'", "'0'", "[]", "[0]", "{}", "set()", "id", "Z", "z", "Success(0)", "1 == 1"]


def kinds(sh, item):
    w = mc.worker(EXE)
    items = []
    for ex in item:
        items.append(("kind:" + ex, 's = "abc"; t = [1, 2, 3]; %s' % ex, fails(out="")))
        items.append(("after:kind:" + ex, "print(s); print(t);", "abc\n[1, 2, 3]\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800)


bad = ["print(%s[%s]);" % (v, k) for v in "st" for k in KINDS] + ["t[%s] = 1;" % k for k in KINDS] + ["t[%s] += 1;" % k for k in KINDS] + ["print(%s[%s:%s]);" % (v, a, b) for v in "st" for k in KINDS for a, b in ((k, "1"), ("1", k), (k, ""), ("", k), (k, k))]
bad += ["print(%s[0]);" % v for v in KINDS if v not in ("'a'", "'0'", "[0]")] + ["print(%s[0:1]);" % v for v in KINDS if v not in ("'a'", "'0'", "[0]", "[]")] + ["%s[0] = 1;" % v for v in ("nil", "true", "1", "s", "id", "Z", "z", "set(1)", "Success(0)", "[]")] + ["s[0] += 'x';", "s[0:1] = 'x';"]
c.explore("kinds", kinds, mc.chunks([b for b in bad if b != "s[0:1] = 'x';"], 60))


# ---------------------------------------------------------------- long sequences: positions around the widths of bytes and words
def long(sh, item):
    w = mc.worker(EXE)
    items = []
    for n in item:
        P = sorted({p for q in (0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, n - 1, n) for p in (q, -q, q - 1, q + 1) if abs(p) <= n + 2})
        mk = "t = []; for (var i = 0; i < %d; i += 1) { t.push(i); } s = 'x'.repeat(%d) + 'y'; s = s[1:]; " % (n, n)
        seq = list(range(n))
        st = ("x" * n + "y")[1:]
        code, exp = [mk], []
        for p in P:
            i = index(n, p)
            if i is not None:
                code.append("print(t[%d]); print(s[%d]);" % (p, p))
                exp += [str(seq[i]), st[i]]
            else:
                items.append(("long:%d:%d" % (n, p), mk + "t[%d];" % p, fails(out="")))
                items.append(("after:long:%d:%d" % (n, p), "s[%d];" % p, fails(out="")))
        items.append(("longget:%d" % n, " ".join(code), "".join(e + "\n" for e in exp)))
        for a in P:
            code, exp = [mk], []
            for b in P:
                r, q = cut(seq, a, b), cut(st, a, b)
                code.append("zd = t[%d:%d]; print(zd.len()); print(s[%d:%d].len());" % (a, b, a, b))
                exp += [str(len(r)), str(len(q))]
                if r:
                    code.append("print(zd[0]); print(zd[-1]);")
                    exp += [str(r[0]), str(r[-1])]
                if len(code) > 20:
                    items.append(("longcut:%d:%d:%d" % (n, a, b), " ".join(code), "".join(e + "\n" for e in exp)))
                    code, exp = [mk], []
            items.append(("longcut:%d:%d" % (n, a), " ".join(code), "".join(e + "\n" for e in exp)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


c.explore("long", long, mc.chunks([255, 256, 257, 300] + c.pick([], [32768, 65536, 65537]), 1))


def asan(sh, item):
    global EXE
    EXE, keep = ASAN, EXE
    n, f = item
    indexing(sh, (n, f))
    for k in (0, 1):
        slicing(sh, (n, "var", k))
    EXE = keep


c.explore("asan", asan, [(n, "var") for n in range(4)])
c.bounds = dict(lengths="0..%d" % (c.pick(9, 12) - 1), positions="every integer from two before the start to two beyond the end, halves, quarters, and around 2^31, 2^32 and infinity", forms=len(FORMS))
c.finish()

"""P13: lists: every sequence of operations up to a depth, from lists of every length around the growth steps, against a Python list."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, hist
from hist import ERR

c = mc.Check("P13", rule="a history of list operations run in lockstep with a plain sequence; non-trivial = distinct (last operation, expected result and content)",
             assumptions=["fractional positions are left undecided"])
EXE = c.build("plain")
PRE = """var l; var m; var o = [90, 91];
def zS() { print(l); print(m); print(l.len()); var s = ''; for (var i = 0; i < l.len(); i += 1) { s += l[i].toString() + ';' + (l[i] == l[i - l.len()]).toString() + ' '; } print(s); print(l.toString() + l.join('|')); print(o); }
"""


def txt(l):
    return "[" + ", ".join(map(str, l)) + "]"


# state: (l, m, same, o): the list, the other variable, whether both name one list
def show(s):
    l, m, same, o = s
    return "zS();", "%s\n%s\n%d\n%s\n%s%s\n%s\n" % (txt(l), txt(m), len(l), "".join("%d;true " % x for x in l), txt(l), "|".join(map(str, l)), txt(o))


def mut(f):
    """an operation that changes the list l names"""
    def g(s):
        l, m, same, o = s
        l = list(l)
        try:
            r = f(l)
        except IndexError:
            return ERR
        l = tuple(l)
        return (l, l if same else m, same, o), r
    return g


def new(f):
    """an operation that makes l another list"""
    def g(s):
        l, m, same, o = s
        return (tuple(f(list(l))), m, False, o), None
    return g


def look(f):
    return lambda s: (s, f(list(s[0])))


def ix(l, p):
    if p < 0:
        p += len(l)
    if not 0 <= p < len(l):
        raise IndexError
    return p


def push(v):
    def f(l):
        l.append(v)
        return "nil"
    return f


def insert(v, p):
    def f(l):
        q = p + len(l) + 1 if p < 0 else p
        if not 0 <= q <= len(l):
            raise IndexError
        l.insert(q, v)
        return "nil"
    return f


def pop(p=None):
    def f(l):
        if not l:
            raise IndexError
        return str(l.pop() if p is None else l.pop(ix(l, p)))
    return f


def remove(v):
    def f(l):
        if v not in l:
            raise IndexError
        l.remove(v)
        return "nil"
    return f


def setat(p, v):
    def f(l):
        l[ix(l, p)] = v
        return "nil"
    return f


def addat(p, v):
    def f(l):
        l[ix(l, p)] += v
        return "nil"
    return f


def extend(x):
    def f(l):
        l.extend(l if x is None else x)
        return "nil"
    return f


def rev(l):
    l.reverse()
    return "nil"


def get(p):
    return mut(lambda l: str(l[ix(l, p)]))


def bound(l, a, b):
    n = len(l)
    a = 0 if a is None or a < 0 else a
    b = n if b is None or b > n else b + n if b < 0 else b
    return l[a:b] if 0 <= a < b else []


def splice(i, n, items):
    return lambda l: txt(bound(l, None, i) + items + (bound(l, i, None) if n == 0 else bound(l, i + n, None)))


def swap(s):
    l, m, same, o = s
    return (m, l, same, o), None


T = lambda b: "true" if b else "false"
POS = [-9, -8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 7, 8, 9, 4294967296, -4294967297]
OPS = [("push", "l.push(7)", mut(push(7))), ("pop", "l.pop()", mut(pop())), ("popm", "m.pop()", None), ("pushm", "m.push(6)", None), ("rev", "l.reverse()", mut(rev)), ("exts", "l.extend(l)", mut(extend(None))), ("ext2", "l.extend(o)", mut(extend([90, 91]))), ("ext0", "l.extend([])", mut(extend([]))),
       ("plus", "l = l + [8]", new(lambda l: l + [8])), ("dbl", "l = l + l", new(lambda l: l + l)), ("copy", "l = l.copy()", new(lambda l: l)), ("deep", "l = l.deepCopy()", new(lambda l: l)), ("alias", "m = l", lambda s: ((s[0], s[0], True, s[3]), None)), ("swap", "zSwap()", swap), ("lit", "l = []", new(lambda l: [])), ("peq", "l += [3]", new(lambda l: l + [3])),
       ("sort", "l.sort()", mut(lambda l: (l.sort(), "nil")[1])), ("bad1", "l.push()", lambda s: ERR), ("bad2", "l['a']", lambda s: ERR), ("bad3", "l[nil] = 1", lambda s: ERR), ("bad4", "l.insert(1)", lambda s: ERR), ("bad5", "l.extend(1)", lambda s: ERR), ("bad6", "l.pop('a')", lambda s: ERR), ("bad7", "l + 1", lambda s: ERR), ("bad8", "l.nosuch()", lambda s: ERR)]
OPS += [("insert%d" % p, "l.insert(5, %d)" % p, mut(insert(5, p))) for p in POS]
OPS += [("pop%d" % p, "l.pop(%d)" % p, mut(pop(p))) for p in POS]
OPS += [("set%d" % p, "l[%d] = 4" % p, mut(setat(p, 4))) for p in POS]
OPS += [("add%d" % p, "l[%d] += 10" % p, mut(addat(p, 10))) for p in (-4, -1, 0, 2, 3)]
OPS += [("get%d" % p, "l[%d]" % p, get(p)) for p in POS]
OPS += [("remove%d" % v, "l.remove(%d)" % v, mut(remove(v))) for v in (0, 1, 2, 5, 7, 99)]
OPS += [("has%d" % v, "l.contains(%d)" % v, look(lambda l, v=v: T(v in l))) for v in (0, 2, 5, 7, 99)]
SB = [(None, 2), (1, None), (None, -1), (-1, None), (0, 0), (2, 1), (1, 3), (0, 9), (3, 99), (99, 100), (1, -1), (0, -9)]
OPS += [("slice%s_%s" % p, "l = l[%s:%s]" % tuple("" if x is None else x for x in p), new(lambda l, p=p: bound(l, *p))) for p in SB]
OPS += [("splice%d_%d_%d" % (i, n, len(x)), "l.splice(%d, %d, %s)" % (i, n, txt(x)), look(splice(i, n, x))) for i in (0, 1, 3) for n in (0, 1, 9) for x in ([], [70, 71])]


def popm(s):
    l, m, same, o = s
    if not m:
        return ERR
    return ((m[:-1] if same else l, m[:-1], same, o), str(m[-1]))


def pushm(s):
    l, m, same, o = s
    m = m + (6,)
    return ((m if same else l, m, same, o), "nil")


OPS = [(n, t, popm if n == "popm" else pushm if n == "pushm" else f) for n, t, f in OPS]
PRE += "def zSwap() { var t = l; l = m; m = t; }\n"
LENS = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 32, 33]
SMALL = [0, 1, 3, 8]
# a smaller alphabet for the deeper histories
DEEPN = ["push", "pop", "popm", "rev", "exts", "plus", "alias", "copy", "insert0", "insert-1", "insert2", "pop0", "pop-2", "set0", "set-1", "remove1", "remove5", "slice1_None", "slice1_-1", "swap"]
DEEP = [o for o in OPS if o[0] in DEEPN]


def init(n):
    l = tuple(range(n))
    return ("len%d" % n, "l = %s; m = l;\n" % txt(l), (l, l, True, (90, 91)))


def part(sh, item):
    n, i, depth, deep = item
    w = mc.worker(EXE)
    hist.histories(sh, w, PRE, init(n), DEEP if deep else OPS, depth, show, first=[i])


c.explore("two", part, [(n, i, 2, False) for n in LENS for i in range(len(OPS))])
c.explore("deep", part, [(n, i, c.pick(4, 5), True) for n in SMALL for i in range(len(DEEP))])
if not c.quick:
    c.explore("three", part, [(n, i, 3, False) for n in SMALL for i in range(len(OPS))])
# long growth: every length up to a bound, built by each way of growing, then taken apart by each way of shrinking
GROW = [("push", "l.push(%d)"), ("insert0", "l.insert(%d, 0)"), ("insertmid", "l.insert(%d, (l.len() / 2) - ((l.len() %% 2) / 2))"), ("insertend", "l.insert(%d, -1)"), ("extend", "l.extend([%d])"), ("plus", "l = l + [%d]")]
SHRINK = [("pop", "l.pop()"), ("pop0", "l.pop(0)"), ("pop1", "l.pop(-1)"), ("remove", "l.remove(l[l.len() - 1])"), ("remove0", "l.remove(l[0])"), ("slice", "l = l[1:]"), ("slice1", "l = l[:-1]")]


def growth(sh, item):
    w = mc.worker(EXE)
    items = []
    for n in item:
        for gn, g in GROW:
            l = []
            for k in range(n):
                if gn == "insert0":
                    l.insert(0, k)
                elif gn == "insertmid":
                    l.insert(len(l) // 2, k)
                else:
                    l.append(k)
            for sn, s in SHRINK:
                src = "l = []; for (var i = 0; i < %d; i += 1) { %s; } print(l); var z = ''; " % (n, g.replace("%d", "i").replace("%%", "%"))
                src += "while (l.len() > 0) { z += l[0].toString() + ',' + l[l.len() - 1].toString() + ' '; %s; } print(z); print(l);" % s
                out, k = "", list(l)
                while k:
                    out += "%d,%d " % (k[0], k[-1])
                    k = k[1:] if sn in ("pop0", "remove0", "slice") else k[:-1]
                items.append(("growth:%d:%s:%s" % (n, gn, sn), src, txt(l) + "\n" + out + "\n[]\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0)


c.explore("growth", growth, mc.chunks(range(0, c.pick(70, 300)), 4))


# ---------------------------------------------------------------- writing while iterating and nested lists, multi-dimensional assignment
def nested(sh, item):
    w = mc.worker(EXE)
    items = []
    for a, b, k, v in item:
        l = [[0, 1], [2, 3], [4]]
        ok = True
        try:
            l[ix(l, a)][ix(l[ix(l, a)], b)]
        except IndexError:
            ok = False
        for op in ("=", "+="):
            src = "l = [[0, 1], [2, 3], [4]]; m = l[%d]; " % (a if -3 <= a < 3 else 0)
            code = "l[%d][%d] %s 7; print(l); print(m);" % (a, b, op)
            if ok:
                x = [list(r) for r in l]
                i = ix(x, a)
                j = ix(x[i], b)
                x[i][j] = 7 if op == "=" else x[i][j] + 7
                t = "[" + ", ".join(txt(r) for r in x) + "]"
                items.append(("nested:%d:%d:%s" % (a, b, op), src + code, t + "\n" + txt(x[i]) + "\n"))
            else:
                items.append(("nested:%d:%d:%s" % (a, b, op), src + code, mc.fails(out="")))
                items.append(("nestedafter:%d:%d:%s" % (a, b, op), "print(l);", "[[0, 1], [2, 3], [4]]\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0)


c.explore("nested", nested, mc.chunks([(a, b, 0, 0) for a in range(-5, 6) for b in range(-4, 5)], 99))

# ---------------------------------------------------------------- every method once, at every size
def sizes(sh, item):
    w = mc.worker(EXE)
    items = []
    for n in item:
        base = list(range(n))
        mk = "l = []; for (var i = 0; i < %d; i += 1) { l.push(i); } " % n
        pos = sorted(set(x for x in (0, 1, n // 2, n - 2, n - 1) if 0 <= x < n))
        K = lambda name, src, *out: items.append(("size:%s:%d" % (name, n), mk + src, "".join(o + "\n" for o in out)))
        T = lambda b: "true" if b else "false"
        K("reverse", "l.reverse(); print(l);", txt(base[::-1]))
        K("extend", "m = [7]; m.extend(l); print(m); l.extend(l); print(l.len()); print(l == m[1:] + m[1:]);", txt([7] + base), str(2 * n), "true")
        K("concat", "print((l + l).len()); print(l + [9]); print([9] + l); print(l.len());", str(2 * n), txt(base + [9]), txt([9] + base), str(n))
        K("copy", "m = l.copy(); m.push(1); print(m); print(l == m); m.pop(); print(l == m); m = l.deepCopy(); print(m == l); print(m.len());", txt(base + [1]), "false", "true", "true", str(n))
        K("find", "print(l.contains(%d)); print(l.contains(%d)); print(l.contains(-1)); print(l.contains(%d));" % (n - 1, n, n // 2), T(n > 0), "false", "false", T(n > 0))
        for p in pos:
            b = list(base)
            r = b.pop(p)
            K("pop%d" % p, "print(l.pop(%d)); print(l); print(l.len());" % p, str(r), txt(b), str(n - 1))
            K("popn%d" % p, "print(l.pop(%d)); print(l);" % (p - n), str(r), txt(b))
            K("remove%d" % p, "print(l.remove(%d)); print(l);" % p, "nil", txt(b))
            K("set%d" % p, "l[%d] = -5; print(l); l[%d] += 1; print(l[%d]); print(l.len());" % (p, p - n, p), txt(base[:p] + [-5] + base[p + 1:]), "-4", str(n))
            K("slice%d" % p, "print(l[%d:]); print(l[:%d]); print(l[%d:%d]); print(l.len());" % (p, p, p // 2, p), txt(base[p:]), txt(base[:p]), txt(base[p // 2:p]), str(n))
            K("for%d" % p, "var z = 0; for (var i = 0; i < l.len(); i += 1) { if (i == %d) { l.push(-9); } z += l[i]; } print(z);" % p, str(sum(base) - 9))
        for p in pos + [n]:
            b = list(base)
            b.insert(p, -3)
            K("insert%d" % p, "l.insert(-3, %d); print(l); print(l.len());" % p, txt(b), str(n + 1))
            K("insertn%d" % p, "l.insert(-3, %d); print(l);" % (p - n - 1), txt(b))
        items += [("size:bad:%s:%d" % (x, n), mk + x, mc.fails(out="")) for x in ("print(l[%d]);" % n, "print(l[%d]);" % (-n - 1), "l.pop(%d);" % n, "l.pop(%d);" % (-n - 1), "l.insert(1, %d);" % (n + 1), "l.insert(1, %d);" % (-n - 2), "l.remove(%d);" % n, "l[%d] = 1;" % n)]
        K("mapped", "print(l.map(def (x) => x + 1)); print(l.filter(def (x) => x %% 2 == 0).len()); print(l.reduce(def (a, x) => a + x, 0)); print(l.map(def (x) => [x]).len());" .replace("%%", "%"), txt([x + 1 for x in base]), str((n + 1) // 2), str(sum(base)), str(n))
        K("dup", "m = l.map(def (x) => x % 3); print(m.unique().len()); if (m.len() > 0) { m.remove(0); } print(m); print(m.contains(0));", str(min(n, 3)), txt([x % 3 for x in base][1:]), T(n > 3))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=300)


NSIZE = sorted(set(list(range(c.pick(40, 200))) + [x + y for x in (64, 128, 200, 256, 512, 1000, 1024) for y in (-1, 0, 1, 2)]))
c.explore("sizes", sizes, mc.chunks(NSIZE, 2))
c.bounds = dict(operations=len(OPS), depth=c.pick(2, 3), deep_operations=len(DEEP), deep_depth=c.pick(4, 5), initial_lengths=LENS, growth=c.pick(70, 300), positions=POS)
c.finish()

"""P16: sorting and the functional methods: all lists over a small alphabet, all permutations, long structured lists, all callbacks of a family."""
import os, sys, itertools as it, functools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P16", rule="a method applied to a list with a callback, compared with its definition; non-trivial = distinct (method, expected result)",
             assumptions=["the order of unique() is not part of the promise; find() and findIndex() ranges lie inside the list"])
EXE = c.build("plain")
ASAN = c.build("asan")


def lit(x):
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(lit, x)) + "]"
    if isinstance(x, str):
        return '"%s"' % x.replace("\0", "\\x00")
    return mc.fmt(x) if not (isinstance(x, float) and abs(x) == float("inf")) else ("zinf" if x > 0 else "-zinf")


def show(x):
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(show, x)) + "]"
    return '"%s"' % x if isinstance(x, str) else mc.fmt(x)


PRE = """var zinf = 1e300 * 1e300; var l; var m; var n; var t; var log;
def zGen(kind, n) { var l = []; for (var i = 0; i < n; i += 1) {
  if (kind == 0) { l.push(i); } else if (kind == 1) { l.push(n - i); } else if (kind == 2) { l.push(7); } else if (kind == 3) { l.push(i < n / 2 ? i : n - i); } else if (kind == 4) { l.push(i % 5); }
  else if (kind == 5) { l.push((i * 7919) % 1009); } else if (kind == 6) { l.push(i % 2 == 0 ? i : -i); } else if (kind == 7) { l.push(i == 0 ? n : i); } else { l.push(i == n - 1 ? -1 : i); } } return l; }
def zCheck(l, m) { // l is ordered and holds what m holds
  var e = 0; for (var i = 1; i < l.len(); i += 1) { if (l[i - 1] > l[i]) { e += 1; } } var c = {}; for (var i = 0; i < m.len(); i += 1) { c[m[i]] = c.get(m[i], 0) + 1; } for (var i = 0; i < l.len(); i += 1) { c[l[i]] = c.get(l[i], 0) - 1; }
  c.forEach(def (k, v) => { if (v != 0) { e += 1; } }); print(e == 0 and l.len() == m.len()); }
"""


def sortnum(sh, item):
    w = mc.worker(EXE)
    items = []
    for l in item:
        if "\0" in repr(l) or any(isinstance(x, str) and "\0" in x for x in l):
            items.append(("sort:%r" % (l,), "l = %s; print(l.sort()); print(%s == l); print(l.len());" % (lit(l), lit(sorted(l))), "nil\ntrue\n%d\n" % len(l)))
            continue
        items.append(("sort:%r" % (l,), "l = %s; m = l; print(l.sort()); print(l); print(m);" % lit(l), "nil\n" + show(sorted(l)) + "\n" + show(sorted(l)) + "\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0)


def lists():
    for n in range(0, c.pick(8, 9) + 1):
        yield from it.product((0, 1, 2), repeat=n)
    for n in range(0, c.pick(6, 7) + 1):
        yield from it.product((-1, 0, 0.5, 3, float("inf"), -float("inf")), repeat=n)
    for n in range(0, c.pick(8, 9) + 1):
        yield from it.permutations(range(n))
    # numbers that differ by little, or only beyond the range of smaller types
    for vals in ((16777216, 16777217, 16777218), (2147483647, 2147483648, -2147483648, -2147483649), (4294967295, 4294967296, 4294967297, 0), (9007199254740991, 9007199254740992, 9007199254740990), (0.25, 0.5, 0.75, 0), (1e-9, 2e-9, -1e-9), (1e300, 1.5e300, -1e300, 1e299), (5e-324, 1e-323, 0, -5e-324), (0.1, 0.101, 0.11), (-1, -1.5, -2)):
        for n in range(0, c.pick(5, 6) + 1):
            yield from it.product(vals, repeat=n)


def slists():
    for n in range(0, c.pick(6, 7) + 1):
        yield from it.product(("", "a", "b", "ab", "B"), repeat=n)
    for n in range(0, 4):
        yield from it.product(("a", "aa", "a\0b", "a\0a", "a\0", "\x7f"), repeat=n)


c.explore("sort", sortnum, mc.chunks(lists(), 1500))
c.explore("strings", sortnum, mc.chunks(slists(), 1500))


# ---------------------------------------------------------------- sortFunc
CMPS = [("def (a, b) => a - b", lambda a, b: a - b), ("def (a, b) => b - a", lambda a, b: b - a), ("def (a, b) => (a % 2) - (b % 2)", lambda a, b: a % 2 - b % 2), ("def (a, b) => 0", lambda a, b: 0), ("def (a, b) => a > b ? 1 : (a < b ? -1 : 0)", lambda a, b: (a > b) - (a < b)), ("zcmp", lambda a, b: a - b), ("zo.cmp", lambda a, b: b - a)]
CPRE = PRE + "def zcmp(a, b) { return a - b; } class ZO { var d = -1; cmp(a, b) { return (a - b) * this.d; } } var zo = ZO();\n"


def sortfunc(sh, item):
    w = mc.worker(EXE)
    items = []
    for l in item:
        for i, (t, f) in enumerate(CMPS):
            # any order that the comparison admits: check pairwise order and that nothing was lost
            src = "l = %s; m = l; n = l.copy(); print(l.sortFunc(%s)); var f = %s; var e = 0; for (var i = 1; i < l.len(); i += 1) { if (f(l[i - 1], l[i]) > 0) { e += 1; } } print(e); print(m == l); var c = l.copy(); c.sort(); n.sort(); print(c == n); %s" % (
                lit(l), t, t, "print(l);" if i in (0, 1) else "")
            items.append(("sortFunc:%d:%r" % (i, l), src, "nil\n0\ntrue\ntrue\n" + (show(sorted(l, reverse=i == 1)) + "\n" if i in (0, 1) else "")))
    mc.session(sh, w, items, prelude=CPRE, flags=0)


def flists():
    for n in range(0, c.pick(6, 7) + 1):
        yield from it.product((0, 1, 2), repeat=n)
    for n in range(4, c.pick(6, 7) + 1):
        yield from it.permutations(range(n))


c.explore("sortfunc", sortfunc, mc.chunks(flists(), 60))


def long(sh, item):
    w = mc.worker(EXE)
    items = []
    for kind, n in item:
        items.append(("long:%d:%d" % (kind, n), "l = zGen(%d, %d); m = l.copy(); l.sort(); zCheck(l, m);" % (kind, n), "true\n"))
        items.append(("longstr:%d:%d" % (kind, n), "l = zGen(%d, %d).map(def (x) => (500000 + x).toString()); m = l.copy(); l.sort(); t = l.map(def (x) => x.toNumber().unwrap()); zCheck(t, m.map(def (x) => x.toNumber().unwrap()));" % (kind, n), "true\n"))
        if n <= 1500:
            items.append(("longfunc:%d:%d" % (kind, n), "l = zGen(%d, %d); m = l.copy(); l.sortFunc(def (a, b) => a - b); zCheck(l, m);" % (kind, n), "true\n"))
            items.append(("longuniq:%d:%d" % (kind, n), "l = zGen(%d, %d); m = l.unique(); t = set(); for (var i = 0; i < l.len(); i += 1) { t.add(l[i]); } print(m.len() == t.len()); print(t.containsAll(m)); m.sort(); var e = 0; for (var i = 1; i < m.len(); i += 1) { if (m[i] == m[i - 1]) { e += 1; } } print(e);" % (kind, n), "true\ntrue\n0\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, timeout=120)


NS = c.pick(list(range(8, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 400, 700, 1500], list(range(8, 300)) + [350, 400, 511, 512, 513, 700, 1023, 1024, 1025, 1500, 3000, 6000])
c.explore("long", long, mc.chunks([(k, n) for n in reversed(NS) for k in range(9)], 1))


def bytes_(sh, item):
    """texts that differ in one byte, every two bytes, at several places"""
    w = mc.worker(EXE)
    part = lambda k: "def zp%d() { return [%s]; }" % (k, ", ".join('"\\x%02x"' % i for i in range(64 * k, 64 * k + 64)))
    pre = "".join(part(k) for k in range(4)) + " var zb = zp0(); zb.extend(zp1()); zb.extend(zp2()); zb.extend(zp3());"
    items = []
    for i in item:
        for p, q in (("", ""), ("k", ""), ("", "z"), ("long prefix, longer than a word ", "y")):
            src = "for (var i = 0; i < 256; i += 1) { const l = ['%s' + zb[i] + '%s', '%s' + zb[%d] + '%s']; const a = l[i < %d ? 0 : 1]; l.sort(); if (l[0] != a and i != %d) { print(i); } } print('done');" % (p, q, p, i, q, i, i)
            items.append(("bytes:%d:%s" % (i, p), src, "done\n"))
    mc.session(sh, w, items, prelude=pre, flags=0, n=100)


c.explore("bytes", bytes_, mc.chunks(range(256), 16))


def refused(sh, item):
    w = mc.worker(EXE)
    items = []
    for l in item:
        items.append(("refuse:" + l, "l = %s; l.sort(); print('no');" % l, fails(out="")))
        items.append(("after:" + l, "print(l == %s);" % l, "true\n"))
    items += [("badargs:" + t, "l = [2, 1]; l.%s; print('no');" % t, fails(out="")) for t in ("sort(1)", "sortFunc()", "sortFunc(1)", "map()", "map(1)", "filter(1)", "reduce(1)", "reduce()", "forEach(1)", "find()", "find(1)", "findIndex(1)", "unique(1)", "reverse(1)", "map(def (a, b) => a)", "forEach(def () => 1)", "reduce(def (a) => a)", "sortFunc(def (a) => a)", "sortFunc(def (a, b) => 'x')", "sortFunc(def (a, b) => nil)")]
    # nothing to call for an empty or one element list
    mc.session(sh, w, items, prelude=PRE, flags=0)


c.explore("refused", refused, [["[1, 'a']", "['a', 1]", "[nil]", "[[1], [2]]", "[true, false]", "[1, nil, 2]", "['b', 'a', nil]", "[set(1)]", "[{}]"]])


def nans(sh, item):
    """A value that compares with nothing leaves the order open, but nothing may be lost, doubled or read past the end."""
    w = mc.worker(ASAN)
    items, FS = [], ("a - b", "1", "-1", "b * 0 - znan")
    for l in item:
        nn = sum(x is None for x in l)
        rest = sorted(x for x in l if x is not None)
        src = "[" + ", ".join("znan" if x is None else str(x) for x in l) + "]"
        chk = "n = 0; m = []; l.forEach(def (x) => { if (x != x) { n += 1; } else { m.push(x); } }); m.sort(); print(n); print(m); "
        items.append(("nan:" + src, "l = %s; l.sort(); " % src + chk + "".join("l = %s; l.sortFunc(def (a, b) => %s); %s" % (src, f, chk) for f in FS), "%d\n%s\n" % (nn, show(rest)) * (1 + len(FS))))
    mc.session(sh, w, items, prelude=PRE + "var znan = 0 / 0;\n", n=200)


c.explore("nans", nans, mc.chunks([t for n in range(1, c.pick(6, 7)) for t in it.product((None, 1, 2, 3, -1) if n < 6 else (None, 1, 2), repeat=n) if None in t], 1500))
# ---------------------------------------------------------------- map, filter, reduce, forEach, find, findIndex, splice, unique over all lists
CB1 = [("def (x) => x", lambda x: x), ("def (x) => x * 2 + 1", lambda x: x * 2 + 1), ("def (x) => x % 2", lambda x: x % 2), ("def (x) => x > 1", lambda x: x > 1), ("def (x) => nil", lambda x: None), ("def (x) => true", lambda x: True), ("zone", lambda x: x == 2), ("zo.m", lambda x: x + 5), ("def (x, y=7) => x * y", lambda x: x * 7), ("def (...a) => a.len()", lambda x: 1), ("zmk(2)", lambda x: x == 2)]
FPRE = PRE + "def zone(x) { return x == 2; } class ZO { var d = 5; m(x) { return x + this.d; } } var zo = ZO(); def zmk(k) { return def (x) => x == k; } var log = [];\n"
V = lambda x: "nil" if x is None else ("true" if x else "false") if isinstance(x, bool) else mc.fmt(x) if not isinstance(x, list) else "[" + ", ".join(map(V, x)) + "]"


def functional(sh, item):
    w = mc.worker(EXE)
    items = []
    for l in item:
        l = list(l)
        L = lit(l)
        K = lambda k, src, out: items.append(("%s:%r" % (k, l), src, "".join(o + "\n" for o in out)))
        for i, (t, f) in enumerate(CB1):
            K("map%d" % i, "l = %s; print(l.map(%s)); print(l);" % (L, t), [V([f(x) for x in l]), V(l)])
            K("filter%d" % i, "l = %s; print(l.filter(%s)); print(l);" % (L, t), [V([x for x in l if f(x)]), V(l)])
            K("find%d" % i, "l = %s; print(l.find(%s)); print(l.findIndex(%s));" % (L, t, t), [V(next((x for x in l if f(x)), None)), V(next((k for k, x in enumerate(l) if f(x)), None))])
        K("filter", "l = %s; print(l.filter());" % L, [V([x for x in l if x])])
        for a in range(len(l) + 1):
            K("finda%d" % a, "l = %s; print(l.find(zone, %d)); print(l.findIndex(zone, %d));" % (L, a, a), [V(next((x for x in l[a:] if x == 2), None)), V(next((k for k in range(a, len(l)) if l[k] == 2), None))])
            for b in range(a, len(l) + 1):
                K("find%d-%d" % (a, b), "l = %s; print(l.find(zone, %d, %d)); print(l.findIndex(zone, %d, %d));" % (L, a, b, a, b), [V(next((x for x in l[a:b] if x == 2), None)), V(next((k for k in range(a, b) if l[k] == 2), None))])
        K("each", "l = %s; log = []; print(l.forEach(def (x) => { log.push(x); })); print(log); log = []; l.map(def (x) => log.push(x)); print(log); log = []; l.filter(def (x) => log.push(x)); print(log); log = []; l.reduce(def (a, x) => log.push(x)); print(log); log = []; l.find(def (x) => log.push(x)); print(log);" % L, ["nil"] + [V(l)] * 5)
        K("reduce", "l = %s; print(l.reduce(def (a, x) => a + x)); print(l.reduce(def (a, x) => a * 3 + x, 1)); print(l.reduce(def (a, x) => a + x.toString(), 's')); print(l.reduce(def (a, x) => [a, x], nil));" % L,
          [V(sum(l)), V(functools.reduce(lambda a, x: a * 3 + x, l, 1)), "s" + "".join(map(str, l)), V(functools.reduce(lambda a, x: [a, x], l, None))])
        K("unique", "l = %s; var u = l.unique(); u.sort(); print(u); print(l);" % L, [V(sorted(set(l))), V(l)])
        K("rev", "l = %s; l.reverse(); print(l);" % L, [V(l[::-1])])
        K("chain", "l = %s; print(l.map(def (x) => x + 1).filter(def (x) => x != 2).reduce(def (a, x) => a + x)); print(l.map(def (x) => l.map(def (y) => x * 3 + y)));" % L, [V(sum(x + 1 for x in l if x != 1)), V([[x * 3 + y for y in l] for x in l])])
        # an error in the k-th call ends the script after k - 1 calls and leaves the list alone
        for k in range(len(l)):
            for m in ("map(def (x) => { if (log.len() == %d) { nil.x; } log.push(x); return x; })" % k, "forEach(def (x) => { if (log.len() == %d) { nil + 1; } log.push(x); })" % k, "filter(def (x) => { if (log.len() == %d) { [][0]; } log.push(x); })" % k, "reduce(def (a, x) => { if (log.len() == %d) { log['a']; } log.push(x); })" % k, "find(def (x) => { if (log.len() == %d) { zNo(); } log.push(x); })" % k):
                items.append(("raise:%r:%s" % (l, m), "l = %s; log = []; print(l.%s);" % (L, m), fails(out="")))
                items.append(("after:%r:%s" % (l, m), "print(l); print(log);", V(l) + "\n" + V(l[:k]) + "\n"))
    mc.session(sh, w, items, prelude=FPRE, flags=0, n=1800)


c.explore("functional", functional, mc.chunks([t for n in range(0, c.pick(6, 7) + 1) for t in it.product((0, 1, 2, 3) if n < 5 else (0, 1, 2), repeat=n)], 10))


def dicts(sh, item):
    w = mc.worker(EXE)
    items = []
    for n, k in item:
        items.append(("dforeach:%d:%d" % (n, k), "m = {}; for (var i = 0; i < %d; i += 1) { m[i] = i * i; } var e = 0; log = []; print(m.forEach(def (k, v) => { log.push(k); if (v != k * k) { e += 1; } })); log.sort(); print(log); print(e); print(log.len() == m.len());" % n, "nil\n%s\n0\ntrue\n" % V(list(range(n)))))
        if k < n:
            items.append(("draise:%d:%d" % (n, k), "m = {}; for (var i = 0; i < %d; i += 1) { m[i] = i; } log = []; m.forEach(def (a, b) => { if (log.len() == %d) { nil.x; } log.push(a); });" % (n, k), fails(out="")))
            items.append(("after:%d:%d" % (n, k), "print(m.len()); print(log.len());", "%d\n%d\n" % (n, k)))
    mc.session(sh, w, items, prelude=FPRE, flags=0)


c.explore("dicts", dicts, mc.chunks([(n, k) for n in range(20) for k in range(n + 1)], 60))
c.bounds = dict(sort_lists="0..%d elements over 3 values, 0..%d over 6, permutations up to %d" % (c.pick(8, 9), c.pick(6, 7), c.pick(8, 9)), long_lists=NS, callbacks=len(CB1) + len(CMPS), functional_length=c.pick(6, 7))
c.finish()

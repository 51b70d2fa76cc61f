"""P19: copies: every nesting of containers up to a depth, each way of copying or sharing it, then mutations of every part on both sides in lockstep with a model heap."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P19", rule="one structure, one way of copying it, and mutations of every part on both sides; non-trivial = distinct (structure, copy, observed history)",
             assumptions=["two places of a structure that share one part may or may not share it in a deep copy", "a deep copy copies lists, dictionaries, sets and instances; classes, functions, Results and native objects are shared"])
EXE = c.build("plain")
ASAN = c.build("asan")
PRE = """class ZB { private r; init(p, r) { this.p = p; this.r = r; } getr() { return this.r; } setr(v) { this.r = v; } }
class ZI < ZB { var kv = 3; }
def zs(v) { var t = type(v); var r = '';
  if (t == 'list') { for (var i = 0; i < v.len(); i += 1) { r += zs(v[i]) + ','; } return '[' + r + ']'; }
  if (t == 'dict') { const ks = ['a', 'b', 'c', 'd']; for (var i = 0; i < 4; i += 1) { if (v.exists(ks[i])) { r += ks[i] + zs(v[ks[i]]); } } return '{' + r + '}' + v.len().toString(); }
  if (t == 'set') { for (var i = 0; i < 10; i += 1) { if (v.contains(i)) { r += i.toString(); } } return 's' + r + '/' + v.len().toString(); }
  if (t == 'ZI') { r = '<' + zs(v.p) + '|' + zs(v.getr()); if (v.hasAttribute('q')) { r += '|' + zs(v.q); } return r + '>'; }
  return v.toString(); }
def id(x) { return x; } def pack(...a) { return a; } class ZH {} var zh = ZH(); var x; var y; var t; var zn; var h;
def znest(n, k) { var l = k == 0 ? [] : {}; for (var i = 0; i < n; i += 1) { l = k == 0 ? [l] : k == 1 ? {'a': l} : ZI(l, 0); } return l; }
"""


class N:
    """a container of the model"""

    def __init__(self, kind, slots):
        self.k, self.s = kind, slots            # L: list of values; D: dict; S: set; I: dict of p, r, q


def mk(t):
    if isinstance(t, int):
        return t
    k = t[0]
    if k == "S":
        return N("S", {1, 2})
    v = [mk(x) for x in t[1:]]
    return N("L", v) if k == "L" else N("D", dict(zip("ab", v))) if k == "D" else N("I", dict(zip("pr", v)))


def code(t):
    if isinstance(t, int):
        return str(t)
    k = t[0]
    if k == "S":
        return "set(1, 2)"
    v = [code(x) for x in t[1:]]
    return "[" + ", ".join(v) + "]" if k == "L" else "{" + ", ".join("'%s': %s" % x for x in zip("ab", v)) + "}" if k == "D" else "ZI(%s)" % ", ".join(v)


def show(v):
    if not isinstance(v, N):
        return str(v)
    if v.k == "L":
        return "[" + "".join(show(x) + "," for x in v.s) + "]"
    if v.k == "D":
        return "{" + "".join(k + show(v.s[k]) for k in "abcd" if k in v.s) + "}%d" % len(v.s)
    if v.k == "S":
        return "s" + "".join(str(i) for i in range(10) if i in v.s) + "/%d" % len(v.s)
    return "<" + show(v.s["p"]) + "|" + show(v.s["r"]) + ("|" + show(v.s["q"]) if "q" in v.s else "") + ">"


def shallow(v):
    return N(v.k, list(v.s) if v.k == "L" else set(v.s) if v.k == "S" else dict(v.s))


def deep(v):
    if not isinstance(v, N):
        return v
    return N(v.k, [deep(x) for x in v.s] if v.k == "L" else set(v.s) if v.k == "S" else {k: deep(x) for k, x in v.s.items()})


def parts(t, path):
    """(access path, subtree) of every container, innermost first"""
    if isinstance(t, int):
        return
    if t[0] != "S":
        for i, x in enumerate(t[1:]):
            yield from parts(x, path + [(t[0], i)])
    yield path, t


def expr(base, path):
    for k, i in path:
        base += "[%d]" % i if k == "L" else "['%s']" % "ab"[i] if k == "D" else (".p" if i == 0 else ".getr()")
    return base


def node(v, path):
    for k, i in path:
        v = v.s[i] if k == "L" else v.s["ab"[i]] if k == "D" else v.s["pr"[i]]
    return v


def mutations(kind, e, k):
    """(text, change on a node)"""
    def setk(key, v):
        return lambda n: n.s.__setitem__(key, v)
    if kind == "L":
        return [("%s.push(%d);" % (e, k), lambda n: n.s.append(k)), ("%s.insert(%d, 0); %s.pop(0);" % (e, k, e), lambda n: None)]
    if kind == "D":
        return [("%s['c'] = %d;" % (e, k), setk("c", k)), ("%s['d'] = 1; %s.remove('d');" % (e, e), lambda n: None)]
    if kind == "S":
        return [("%s.add(%d);" % (e, k % 10), lambda n: n.s.add(k % 10)), ("if (%s.contains(1)) { %s.remove(1); }" % (e, e), lambda n: n.s.discard(1))]
    return [("%s.q = %d;" % (e, k), setk("q", k))]


def overwrite(kind, e, k):
    def setk(key, v):
        return lambda n: n.s.__setitem__(key, v)
    if kind == "L":
        return [("%s[0] = %d;" % (e, k), setk(0, k)), ("%s[-1] = %d;" % (e, k), setk(-1, k))]
    if kind == "D":
        return [("%s['a'] = %d;" % (e, k), setk("a", k)), ("%s['b'] += 0;" % e if False else "%s['b'] = %d;" % (e, k), setk("b", k))]
    if kind == "I":
        return [("%s.p = %d;" % (e, k), setk("p", k)), ("%s.setr(%d);" % (e, k), setk("r", k))]
    return []


COPIES = {"copy": ("x.copy()", shallow), "deep": ("x.deepCopy()", deep), "assign": ("x", lambda v: v)}
SHARES = ["id(x)", "[x][0]", "{'a': x}['a']", "ZI(x, 0).p", "ZI(0, x).getr()", "pack(1, x)[1]", "(def () => x)()", "Success(x).unwrap()", "[1, x][-1]", "(def (a=1, b=x) => b)(2)", "true ? x : 1", "nil or x", "true and x", "[x].copy()[0]", "{'a': x}.copy()['a']", "ZI(x, 0).copy().p", "ZI(0, x).copy().getr()", "[x][0:][0]", "[x].map(id)[0]", "{'a': x}.merge({})['a']", "[[x]].reduce(def (a, b) => b, 0)[0]"]


def history(t, how, first, mk=mk):
    text, f = COPIES[how] if how in COPIES else (how, lambda v: v)
    X = mk(t)
    Y = f(X)
    src = ["x = %s; y = %s; print(zs(x)); print(zs(y));" % (code(t), text)]
    out = [show(X), show(Y)]
    if how in COPIES and how != "assign":
        src.append("print(x == y); print(type(x) == type(y));")
        # instances are equal only to themselves
        eq = (lambda a: not isinstance(a, N) or a.k != "I" and (a.k == "S" or all(map(eq, a.s if a.k == "L" else a.s.values()))))
        if how == "deep":
            out += ["true" if eq(X) else "false", "true"]
        else:
            out += ["true" if t[0] != "I" else "false", "true"]
    n = 3
    sides = [("x", X), ("y", Y)] if first == 0 else [("y", Y), ("x", X)]
    for phase in (mutations, overwrite):
        for path, sub in parts(t, []):
            for base, root in sides:
                for i, (m, g) in enumerate(phase(sub[0], expr(base, path), n)):
                    g(node(root, path))
                    src.append(m)
                    n += 1
                src.append("print(zs(x) + ' ' + zs(y));")
                out.append(show(X) + " " + show(Y))
        # an overwritten slot cuts its subtree off: innermost first keeps the paths valid
    return " ".join(src), "".join(o + "\n" for o in out)


def copies(sh, item):
    w = mc.worker(EXE)
    items = []
    for t in item:
        for how in COPIES:
            if t[0] == "S" and how != "assign":
                continue
            for first in (0, 1):
                s, o = history(t, how, first)
                items.append(("%s:%d:%s" % (how, first, code(t)), s, o))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=600, by_source=True)


LEAF = [1]
D1 = LEAF + [("L", 1, 2), ("D", 1, 2), ("S",), ("I", 1, 2)]
D2 = D1 + [(k, a, b) for k in "LDI" for a in D1 for b in D1 if not (a == 1 and b == 1)]
D3 = [(k, a, b) for k in "LDI" for a in D2 for b in D2]
D3q = [(k, a, b) for k in "LDI" for a in D2 for b in D1] + [(k, a, b) for k in "LDI" for a in D1 for b in D2 if b not in D1]
D4 = [(k, (j, a, 1), b) for k in "LDI" for j in "LDI" for a in D2 if a not in D1 for b in (1, ("S",))] + [(k, 1, (j, 1, (i, a, b))) for k in "LDI" for j in "LDI" for i in "LDI" for a in D1 for b in D1]
c.explore("copies", copies, mc.chunks([t for t in c.pick(D3q, D3) + D4 if not isinstance(t, int)], c.pick(40, 150)))


def shares(sh, item):
    w = mc.worker(EXE)
    items = []
    for t in item:
        for how in SHARES:
            s, o = history(t, how, 0)
            items.append(("share:%s:%s" % (how, code(t)), s, o))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=600, by_source=True)


c.explore("shares", shares, mc.chunks([t for t in D2 if not isinstance(t, int)], 8))


# ---------------------------------------------------------------- copies of parts, copies of copies, parameters, and one part in two places
def chains(sh, item):
    w = mc.worker(EXE)
    items = []
    for t, seq in item:
        X = mk(t)
        vals = [X]
        src = ["x = %s; h = [x];" % code(t)]
        for m in seq:
            vals.append({"copy": shallow, "deep": deep}[m](vals[-1]))
            src.append("h.push(h[-1].%s());" % ("copy" if m == "copy" else "deepCopy"))
        out = []
        n = 3
        for i in range(len(vals)):
            for path, sub in parts(t, []):
                for m, g in mutations(sub[0], expr("h[%d]" % i, path), n):
                    g(node(vals[i], path))
                    src.append(m)
                    n += 1
            src.append("for (var i = 0; i < h.len(); i += 1) { print(zs(h[i])); }")
            out += [show(v) for v in vals]
        items.append(("chain:%s:%s" % (code(t), seq), " ".join(src), "".join(o + "\n" for o in out)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=600, by_source=True)


c.explore("chains", chains, mc.chunks([(t, seq) for t in D2 if not isinstance(t, int) and t[0] != "S" for n in (2, 3) for seq in it.product(("copy", "deep"), repeat=n)], 60))


def shared(sh, item):
    """one part in two places: a deep copy is apart from the original, a shallow one shares the part"""
    w = mc.worker(EXE)
    items = []
    for k, p in item:
        C = code(p)
        holder = {"L": "[t, t]", "D": "{'a': t, 'b': t}", "I": "ZI(t, t)", "LL": "[[t], t]", "LD": "[{'a': t}, t]", "DI": "{'a': ZI(t, 0), 'b': t}", "II": "ZI(ZI(0, t), t)"}[k]
        paths = {"L": ("[0]", "[1]"), "D": ("['a']", "['b']"), "I": (".p", ".getr()"), "LL": ("[0][0]", "[1]"), "LD": ("[0]['a']", "[1]"), "DI": ("['a'].p", "['b']"), "II": (".p.getr()", ".getr()")}[k]
        T = mk(p)
        for pth in paths:
            for how in ("copy", "deep"):
                for side in "xy":
                    T = mk(p)
                    m, g = mutations(p[0], side + pth, 7)[0]
                    before = show(T)
                    src = "t = %s; x = %s; y = x.%s(); %s print(zs(t));" % (C, holder, "copy" if how == "copy" else "deepCopy", m)
                    g(T)
                    after = show(T)
                    if how == "copy" or side == "x":
                        out = [after]
                        src += " print(zs(x%s)); print(zs(x%s)); print(zs(y%s)); print(zs(y%s));" % (paths + paths)
                        out += [after, after] + ([after, after] if how == "copy" else [before, before])
                    else:
                        out = [before]
                        src += " print(zs(x%s)); print(zs(x%s)); print(zs(y%s));" % (paths + (pth,))
                        out += [before, before, after]
                    items.append(("shared:%s:%s:%s:%s%s" % (k, C, how, side, pth), src, "".join(o + "\n" for o in out)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=600, by_source=True)


c.explore("shared", shared, mc.chunks([(k, p) for k in ("L", "D", "I", "LL", "LD", "DI", "II") for p in D2 if not isinstance(p, int)], 60))


# ---------------------------------------------------------------- containers of every size and after removals; deep nestings; cycles
def sizes(sh, item):
    w = mc.worker(EXE)
    items = []
    for n, r in item:
        for how in ("copy", "deepCopy"):
            left = [i for i in range(n) if r == 0 or i % r]
            s = "x = []; for (var i = 0; i < %d; i += 1) { x.push(i); } y = x.%s(); print(x == y); y.push(1); print(x.len()); print(y.len()); x.push(2); x[0] = -1; print(y[0]); print(y[-1]);" % (n, how)
            items.append(("size:list:%d:%s" % (n, how), s, "true\n%d\n%d\n%s\n1\n" % (n, n + 1, 0 if n else 1)) if r == 0 else ("skip", "", ""))
            s = "x = {}; for (var i = 0; i < %d; i += 1) { x[i] = [i]; } for (var i = 0; i < %d; i += %d) { x.remove(i); } y = x.%s(); print(x == y); print(y.len()); y['z'] = 1; print(x.exists('z')); for (var i = 0; i < %d; i += 1) { if (y.exists(i)) { if (y[i] != [i]) { print('bad'); } y[i].push(0); } } var e = 0; for (var i = 0; i < %d; i += 1) { if (x.exists(i)) { e += x[i].len(); } } print(e);" % (n, n if r else 0, r or 1, how, n, n)
            items.append(("size:dict:%d:%d:%s" % (n, r, how), s, "true\n%d\nfalse\n%d\n" % (len(left), len(left) * (2 if how == "copy" else 1))))
            s = "t = set(); for (var i = 0; i < %d; i += 1) { t.add(i); } for (var i = 0; i < %d; i += %d) { t.remove(i); } x = [t]; y = x.%s(); print(x == y); y[0].add('z'); print(t.contains('z')); var e = 0; for (var i = 0; i < %d; i += 1) { if (y[0].contains(i)) { e += 1; } } print(e); print(y[0].len());" % (n, n if r else 0, r or 1, how, n)
            items.append(("size:set:%d:%d:%s" % (n, r, how), s, "true\n%s\n%d\n%d\n" % ("true" if how == "copy" else "false", len(left), len(left) + 1)))
            s = "x = ZI(1, 2); for (var i = 0; i < %d; i += 1) { x.setAttribute('k' + i.toString(), [i]); } y = x.%s(); y.zz = 1; print(x.hasAttribute('zz')); var e = 0; for (var i = 0; i < %d; i += 1) { if (y.getAttribute('k' + i.toString()) == [i]) { e += 1; } y.getAttribute('k' + i.toString()).push(1); } print(e); for (var i = 0; i < %d; i += 1) { e += x.getAttribute('k' + i.toString()).len(); } print(e); print(y.isInstance(ZB)); print(y.kv); print(y.getr());" % (n, how, n, n)
            items.append(("size:inst:%d:%s" % (n, how), s, "false\n%d\n%d\ntrue\n3\n2\n" % (n, n + n * (2 if how == "copy" else 1))) if r == 0 else ("skip", "", ""))
    mc.session(sh, w, [i for i in items if i[0] != "skip"], prelude=PRE, flags=0, n=600, by_source=True)


c.explore("sizes", sizes, mc.chunks([(n, r) for n in list(range(c.pick(40, 150))) + [255, 256, 257, 1000] for r in (0, 1, 2, 3)], 12))


def nests(sh, item):
    w = mc.worker(EXE)
    items = []
    for n in item:
        for k in (0, 1, 2):
            acc = "[0]" if k == 0 else "['a']" if k == 1 else ".p"
            s = "x = znest(%d, %d); y = x.deepCopy(); t = x; h = y; zn = 0; while (type(t) != 'list' or t.len() > 0 and type(t) == 'list') { if (type(t) == 'dict' and t.len() == 0) { break; } if (type(t) == 'number') { break; } t = t%s; h = h%s; zn += 1; } print(zn); print(type(t) == type(h)); %s" % (
                n, k, acc, acc, "h.push(1); print(t.len());" if k == 0 else "h['z'] = 1; print(t.len());")
            out = "%d\ntrue\n0\n" % n
            items.append(("nest:%d:%d" % (n, k), s, out))
            items.append(("nestc:%d:%d" % (n, k), "x = znest(%d, %d); y = x.copy(); print(zs(type(x) == type(y)));" % (n, k), "true\n"))
    for key, mkc in (("self", "x = []; x.push(x);"), ("selfd", "x = {}; x['a'] = x;"), ("selfi", "x = ZI(1, 2); x.p = x;"), ("selfr", "x = ZI(1, 2); x.setr(x);"), ("mutual", "x = []; y = [x]; x.push(y);"), ("mixed", "x = [{'a': ZI(1, 2)}]; x[0]['a'].p = x;"), ("deep0", "x = znest(20000, 0);"), ("deep1", "x = znest(20000, 1);"), ("deep2", "x = znest(20000, 2);"), ("twice", "x = []; y = [x, x]; x.push(y); x.push(y);")):
        items.append(("cycle:" + key, mkc + " print('a'); x.deepCopy(); print('b');", fails(out="a\n")))
        items.append(("after:cycle:" + key, "print(type(x) == type(x.copy()));", "true\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=600, by_source=True)


c.explore("nests", nests, [[n] for n in list(range(1, 20)) + [50, 100, 500, 1000, 2000]])


# ---------------------------------------------------------------- the same with a collection at every allocation, under the address sanitiser
def gcs(sh, item):
    w = mc.worker(ASAN)
    items = []
    for t in item:
        for how in ("copy", "deep"):
            if t[0] == "S":
                continue
            s, o = history(t, how, 0)
            items.append(("gc:%s:%s" % (how, code(t)), s, o))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=20, gc=(1, 0, 0), by_source=True)


# ---------------------------------------------------------------- entries of every kind at every place of a wider structure
WPRE = """
def zf() { return 1; } class P { init() { this.v = [1]; } } enum En { a }
class W0 { } class W { %s init(l) { var x = l.copy(); while (x.len() < 12) { x.push(nil); } %s } privs() { return [%s]; } }
def zE(k) { return [nil, false, 7, 's', [1], {'a': 1}, set(1), P(), zf, P, 0, '', [], {}, En, [nil], {'n': nil}, [P()], {'p': P()}, [[P()]]][k]; }
def zShow(x) { const t = type(x); if (t == 'P') { return 'P' + zShow(x.v); } if (t == 'list') { var s = '['; x.forEach(def (y) => { s += zShow(y) + ','; }); return s + ']'; }
  if (t == 'dict') { var s = '{'; const k = x.keys(); k.sort(); k.forEach(def (y) => { s += y + ':' + zShow(x[y]) + ','; }); return s + '}'; } return t + '{}'.format(x); }
def zPoke(x) { const t = type(x); if (t == 'P') { x.v.push(2); x.w = 1; } if (t == 'list') { x.forEach(def (y) => { zPoke(y); }); x.push('new'); } if (t == 'dict') { x.keys().forEach(def (y) => { zPoke(x[y]); }); x['new'] = 1; } if (t == 'set') { x.add('new'); } }
def zMake(c, l) { if (c == 0) { return l.copy(); } if (c == 1) { const d = {}; for (var i = 0; i < l.len(); i += 1) { d['k{}'.format(i)] = l[i]; } return d; }
  if (c == 2) { const o = W0(); for (var i = 0; i < l.len(); i += 1) { o.setAttribute('a{}'.format(i), l[i]); } return o; } return W(l); }
def zList(c, o, n) { if (c == 0) { return o; } if (c == 3) { const l = []; const p = o.privs(); for (var i = 0; i < n; i += 1) { l.push(p[i]); } return l; }
  const l = []; for (var i = 0; i < n; i += 1) { l.push(c == 1 ? o['k{}'.format(i)] : o.getAttribute('a{}'.format(i))); } return l; }
def zCount(c, o) { if (c < 2) { return o.len(); } return o.getAttributes()['attributes'].len(); }
def zTry(c, n, at, k, other, deep) { const l = []; for (var i = 0; i < n; i += 1) { l.push(zE(i == at ? k : other)); } const o = zMake(c, l); const before = zShow(l); const q = deep ? o.deepCopy() : o.copy();
  const m = zList(c, q, n); if (type(q) != type(o) or m.len() != n or zCount(c, q) != zCount(c, o) or zShow(m) != before) { print('{} {} {} {} {}: {} is not {}'.format(c, n, at, k, other, zShow(m), before)); return; }
  for (var i = 0; i < n; i += 1) { if (not deep and m[i] != l[i]) { print('{} {} {} {} {}: not shared'.format(c, n, at, k, other)); return; } }
  m.forEach(def (y) => { zPoke(y); }); const after = zShow(l); const poked = zShow(m);
  if (deep ? after != before : after != poked) { print('{} {} {} {} {}: {} afterwards {}'.format(c, n, at, k, other, before, after)); } }
""" % (" ".join("private p%d;" % i for i in range(12)), " ".join("this.p%d = x[%d];" % (i, i) for i in range(12)), ", ".join("this.p%d" % i for i in range(12)))


def wide(sh, item):
    items = []
    for cont, n, deep in item:
        for other in (2, 0, 4, 7, 5):
            items.append(("wide:%d:%d:%s:%d" % (cont, n, deep, other), "for (var i = 0; i < %d; i += 1) { for (var k = 0; k < 20; k += 1) { zTry(%d, %d, i, k, %d, %s); } } print('done');" % (n, cont, n, other, deep), "done\n"))
    mc.session(sh, mc.worker(EXE), items, prelude=WPRE, flags=0, n=10)


c.explore("wide", wide, [[(k, n, d)] for n in range(1, c.pick(12, 13)) for k in range(4) for d in ("true", "false")] + [[(k, n, d)] for n in c.pick((20,), (16, 17, 20, 33, 40)) for k in range(3) for d in ("true", "false")])


c.explore("gc", gcs, mc.chunks([t for t in (D2 if c.quick else D3q) if not isinstance(t, int)], 10))
bad = ["%s.%s(1);" % (v, m) for v in ("[]", "{}", "ZI(1, 2)") for m in ("copy", "deepCopy")]
c.explore("bad", lambda sh, item: mc.session(sh, mc.worker(EXE), [("bad:" + b, "print(" + b[:-1] + ");", fails(out="")) for b in item], prelude=PRE, flags=0), [bad])
c.bounds = dict(structures="all trees of lists, dicts, sets and instances with two slots up to depth 3 (%s) and selected shapes of depth 4" % c.pick("one slot of depth 2, one of depth 1", "both slots of depth 2"), routes=len(SHARES) + 3, sizes="0..%d and 255, 256, 257, 1000" % (c.pick(40, 150) - 1))
c.finish()

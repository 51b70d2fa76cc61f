"""P15: sets: every sequence of operations up to a depth over colliding and other members, from tables of every fill state, against a Python set."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, hist, hashes
from hist import ERR

c = mc.Check("P15", rule="a history of set operations run in lockstep with a mathematical set; non-trivial = distinct (last operation, expected result and content)",
             assumptions=["the order of values() and of the printed form is not part of the promise"])
EXE = c.build("plain")
W = hashes.hash_num(hashes.colliding(1, 31)[0]) & 31
COLL = hashes.colliding(3, 31)
CS = hashes.colliding(1, 31, W, "str")[0]
KEYS = [str(k) for k in COLL] + ["'%s'" % CS, "nil", "true", "0", "'0'", "''", "false", "-0.5", "'a\\x00b'"]
FILL = ["'f%d'" % i for i in range(64)]
PRE = """var d = set(); var m = d; var zU = [%s]; var zF = []; for (var i = 0; i < 64; i += 1) { zF.push('f' + i.toString()); }
def zOne(d) { var ks = d.values(); var s = '{} {} {}'.format(d.len(), ks.len(), d.toBool() ? 1 : 0);
  for (var i = 0; i < zU.len(); i += 1) { s += ' {}{}{}'.format(d.contains(zU[i]) ? 1 : 0, ks.contains(zU[i]) ? 1 : 0, d.containsAll([zU[i], zU[i]]) ? 1 : 0); }
  var n = 0; for (var i = 0; i < 64; i += 1) { if (d.contains(zF[i])) { n += i + 1; } } s += ' ' + n.toString(); print(s); print(d.containsAll(ks)); print(d.containsAll(zU)); }
def zS() { zOne(d); zOne(m); print(d == m); }
def zSwap() { var t = d; d = m; m = t; }
""" % ", ".join(KEYS)
T = lambda b: "true" if b else "false"


def one(d):
    return "%d %d %d" % (len(d), len(d), 1 if d else 0) + "".join(" %d%d%d" % (k in d, k in d, k in d) for k in KEYS) + " %d\ntrue\n%s" % (sum(i + 1 for i, f in enumerate(FILL) if f in d), T(all(k in d for k in KEYS)))


def show(s):
    return "zS();", "%s\n%s\n%s\n" % (one(s[0]), one(s[1]), T(s[0] == s[1]))


def mut(f):
    def g(s):
        d = f(s[0])
        if d is ERR:
            return ERR
        return (d, d if s[2] else s[1], s[2]), "nil"
    return g


def add(k):
    return mut(lambda d: d | {k})


def rem(k):
    return mut(lambda d: d - {k} if k in d else ERR)


ERRS = ["d.add([1])", "d.add({})", "d.add(set())", "d.add(zS)", "d.remove('none')", "d.remove([1])", "d.remove(nil, 1)", "d.add()", "d.contains()", "set([1])", "set({})", "set(1, set())", "d.containsAll(1)", "d[0]", "d.len(1)", "d + d"]
OPS = []
for i, k in enumerate(KEYS):
    OPS += [("add%d" % i, "d.add(%s)" % k, add(k)), ("rem%d" % i, "d.remove(%s)" % k, rem(k))]
SMALL = list(OPS[:8])
OPS += [("has%d" % i, "d.contains(%s)" % k, lambda s, k=k: (s, T(k in s[0]))) for i, k in enumerate(KEYS[:6])]
fs = frozenset
OPS += [("hasl", "d.contains([1])", lambda s: (s, "false")), ("alias", "m = d", lambda s: ((s[0], s[0], True), None)), ("swap", "zSwap()", lambda s: ((s[1], s[0], s[2]), None)), ("lit0", "d = set()", lambda s: ((fs(), s[1], False), None)),
        ("lit3", "d = set(%s, %s, %s, %s)" % (KEYS[0], KEYS[1], KEYS[0], KEYS[3]), lambda s: ((fs((KEYS[0], KEYS[1], KEYS[3])), s[1], False), None)), ("addm", "m.add(%s)" % KEYS[2], lambda s: ((s[0] | {KEYS[2]} if s[2] else s[0], s[1] | {KEYS[2]}, s[2]), "nil")), ("all", "d.containsAll(m.values())", lambda s: (s, T(s[1] <= s[0]))), ("all0", "d.containsAll([])", lambda s: (s, "true"))]
OPS += [("bad%d" % i, e, lambda s: ERR) for i, e in enumerate(ERRS)]
DEEP = SMALL + [o for o in OPS if o[0] in ("add4", "rem4", "alias", "swap", "addm", "lit0")]


def init(n, r):
    st = fs(FILL[i] for i in range(r, n))
    return ("fill%d-%d" % (n, r), "d = set(); m = d;\nfor (var i = 0; i < %d; i += 1) { d.add(zF[i]); } for (var i = 0; i < %d; i += 1) { d.remove(zF[i]); }\n" % (n, r), (st, st, True))


def part(sh, item):
    n, r, i, depth, which = item
    hist.histories(sh, mc.worker(EXE), PRE, init(n, r), [OPS, DEEP, SMALL][which], depth, show, first=[i])


INITS = [(0, 0), (1, 0), (2, 2), (4, 0), (5, 0), (5, 5), (6, 0), (6, 5), (7, 0), (11, 0), (11, 9), (12, 0), (13, 0), (13, 11), (23, 0), (24, 0), (25, 22), (48, 46)]
c.explore("two", part, [(n, r, i, 2, 0) for n, r in INITS for i in range(len(OPS))])
c.explore("deep", part, [(n, r, i, c.pick(4, 5), 1) for n, r in ((0, 0), (5, 0), (6, 6), (3, 0)) for i in range(len(DEEP))])
c.explore("collide", part, [(n, r, i, c.pick(6, 8), 2) for n, r in ((0, 0), (4, 0)) for i in range(len(SMALL))])
if not c.quick:
    c.explore("three", part, [(n, r, i, 3, 0) for n, r in ((0, 0), (5, 0), (12, 10)) for i in range(len(OPS))])
KINDS = ["i", "'k' + i.toString()", "i * 8", "i / 7", "i * 65536", "-i"]


def bulk(sh, item):
    w = mc.worker(EXE)
    items = []
    for n, a, b, k in item:
        key = KINDS[k]
        src = """d = set(); for (var i = 0; i < %d; i += 1) { d.add(%s); } var e = 0; print(d.len()); for (var i = %d; i < %d; i += 1) { d.remove(%s); } print(d.len()); print(d.values().len());
for (var i = 0; i < %d; i += 1) { if (d.contains(%s) != (i < %d or i >= %d)) { e += 1; } } print(e); for (var i = %d; i < %d; i += 1) { d.add(%s); d.add(%s); } print(d.len()); print(d.values().len());
for (var i = 0; i < %d; i += 1) { if (not d.contains(%s)) { e += 1; } } print(e); for (var i = %d; i >= 0; i -= 1) { d.remove(%s); } print(d.len()); print(d); print(d == set());
""" % (n, key, a, b, key, n, key, a, b, a, n + 3, key, key, n + 3, key, n + 2, key)
        items.append(("bulk:%d:%d:%d:%s" % (n, a, b, key), src, "%d\n%d\n%d\n0\n%d\n%d\n0\n0\n{}\ntrue\n" % (n, n - (b - a), n - (b - a), n + 3, n + 3)))
    mc.session(sh, w, items, prelude="var d;", flags=0, n=200)


NB = sorted(set(list(range(c.pick(50, 200))) + [x + y for x in (96, 128, 192, 256, 384, 512, 768, 1024) for y in (-1, 0, 1)]))
c.explore("bulk", bulk, mc.chunks([(n, a, b, k) for n in NB for k in range(len(KINDS)) for a in sorted({0, 1, n // 2}) if a <= n for b in sorted({a, n // 2, n - 1, n}) if a <= b <= n], 60))


def within(sh, item):
    """every place in a list that a missing value can have, and what values() gives"""
    w = mc.worker(EXE)
    items = []
    for n, k in item:
        key = KINDS[k]
        src = """d = set(); for (var i = 0; i < %d; i += 1) { d.add(%s); } var e = 0; var l = []; for (var i = 0; i < %d; i += 1) { l.push(%s); } if (not d.containsAll(l)) { e += 1; }
for (var p = 0; p < l.len(); p += 1) { var o = l[p]; l[p] = 'none'; if (d.containsAll(l)) { e += 1; } l[p] = o; d.remove(o); if (d.containsAll(l) or d.values().len() != l.len() - 1 or d.values().contains(o)) { e += 1; } d.add(o); if (not d.containsAll(l)) { e += 1; } }
var v = d.values(); for (var p = 0; p < l.len(); p += 1) { if (not v.contains(l[p])) { e += 1; } } print(e); print(v.len());""" % (n, key, n, key)
        items.append(("within:%d:%s" % (n, key), src, "0\n%d\n" % n))
    mc.session(sh, w, items, prelude="var d;", flags=0, n=100)


c.explore("within", within, mc.chunks([(n, k) for n in list(range(0, 40)) + [63, 64, 65, 90, 96, 97, 100, 101, c.pick(128, 300)] for k in range(len(KINDS))], 12))


def churn(sh, item):
    w = mc.worker(EXE)
    items = []
    for win, n, k in item:
        key = KINDS[k]
        src = "d = set(); var e = 0; for (var i = 0; i < %d; i += 1) { d.add(%s); if (i >= %d) { var j = i; i = j - %d; d.remove(%s); i = j; } if (d.len() > %d) { e += 1; } } print(d.len()); for (var i = 0; i < %d; i += 1) { if (d.contains(%s) != (i >= %d)) { e += 1; } } print(e);" % (n, key, win, win, key, win, n, key, n - win)
        items.append(("churn:%d:%d:%s" % (win, n, key), src, "%d\n0\n" % min(win, n)))
    mc.session(sh, w, items, prelude="var d;", flags=0, n=100)


c.explore("churn", churn, mc.chunks([(wn, n, k) for wn in range(1, 20) for n in (wn, wn + 1, 50, c.pick(200, 2000)) if n >= wn for k in range(len(KINDS))], 20))
c.bounds = dict(members=KEYS, operations=len(OPS), depth=c.pick(2, 3), deep_operations=len(DEEP), deep_depth=c.pick(4, 5), collision_depth=c.pick(6, 8), fills=INITS, bulk_sizes=NB)
c.finish()

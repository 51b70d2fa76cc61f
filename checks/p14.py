"""P14: dictionaries: every sequence of operations up to a depth over colliding and other keys, from tables of every fill state, against a Python dict."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, hist, hashes
from hist import ERR

c = mc.Check("P14", rule="a history of dictionary operations run in lockstep with a plain map; non-trivial = distinct (last operation, expected result and content)",
             assumptions=["the order of keys() and of the printed form is not part of the promise"])
EXE = c.build("plain")
W = hashes.hash_num(hashes.colliding(1, 31)[0]) & 31
COLL = hashes.colliding(3, 31)           # three numbers in one slot of every table up to 32 slots
CS = hashes.colliding(1, 31, W, "str")[0]  # a string in the same slot
KEYS = [str(k) for k in COLL] + ["'%s'" % CS, "nil", "true", "0", "'0'", "''", "false", "-0.5", "'a\\x00b'"]
FILL = ["'f%d'" % i for i in range(64)]
PRE = """var d = {}; var m = d; var zU = [%s]; var zF = []; for (var i = 0; i < 64; i += 1) { zF.push('f' + i.toString()); }
def zOne(d) { var ks = d.keys(); var s = '{} {} {}'.format(d.len(), ks.len(), d ? 1 : 0);
  for (var i = 0; i < zU.len(); i += 1) { s += ' {}{}{}'.format(d.exists(zU[i]) ? 1 : 0, d.get(zU[i], '-'), ks.contains(zU[i]) ? 1 : 0); }
  var n = 0; for (var i = 0; i < 64; i += 1) { if (d.exists(zF[i])) { n += 1 + d[zF[i]]; } } print(s + ' ' + n.toString()); }
def zS() { zOne(d); zOne(m); print(d == m); }
def zSwap() { var t = d; d = m; m = t; }
""" % ", ".join(KEYS)


def one(d):
    return "%d %d %d" % (len(d), len(d), 1 if d else 0) + "".join(" %d%s%d" % (k in d, d.get(k, "-"), k in d) for k in KEYS) + " %d" % sum(1 + d[f] for f in FILL if f in d)


def show(s):
    d, m, same = dict(s[0]), dict(s[1]), s[2]
    return "zS();", "%s\n%s\n%s\n" % (one(d), one(m), "true" if d == m else "false")


def mut(f):
    def g(s):
        d = dict(s[0])
        r = f(d)
        if r is ERR:
            return ERR
        t = tuple(d.items())
        return (t, t if s[2] else s[1], s[2]), r
    return g


def setk(k, v):
    def f(d):
        d[k] = v
        return "nil"
    return f


def rem(k):
    def f(d):
        if k not in d:
            return ERR
        del d[k]
        return "nil"
    return f


def get(k):
    return mut(lambda d: str(d[k]) if k in d else ERR)


def add(k):
    def f(d):
        if k not in d:
            return ERR
        d[k] += 5
        return "nil"
    return f


T = lambda b: "true" if b else "false"
ERRS = ["d[[1]]", "d[[1]] = 1", "d[{}]", "d.get([1])", "d.exists({})", "d.remove([1])", "d.remove(set())", "{[1]: 1}", "d.get()", "d.remove()", "d.exists()", "d[zS] = 1", "d.keys(1)", "d.merge(1)", "d['none'] += 1", "d.len(1)"]
OPS = []
for i, k in enumerate(KEYS):
    OPS += [("set%d" % i, "d[%s] = %d" % (k, i), mut(setk(k, i))), ("rem%d" % i, "d.remove(%s)" % k, mut(rem(k)))]
SMALL = list(OPS[:8])  # set and remove of the four colliding keys
for i, k in enumerate(KEYS[:6]):
    OPS += [("get%d" % i, "d[%s]" % k, get(k)), ("add%d" % i, "d[%s] += 5" % k, mut(add(k))), ("setb%d" % i, "d[%s] = 77" % k, mut(setk(k, 77)))]
OPS += [("copy", "d = d.copy()", lambda s: ((s[0], s[1], False), None)), ("deep", "d = d.deepCopy()", lambda s: ((s[0], s[1], False), None)), ("alias", "m = d", lambda s: ((s[0], s[0], True), None)), ("swap", "zSwap()", lambda s: ((s[1], s[0], s[2]), None)),
        ("lit0", "d = {}", lambda s: (((), s[1], False), None)), ("lit2", "d = {%s: 1, %s: 2, %s: 3}" % (KEYS[0], KEYS[1], KEYS[0]), lambda s: (((KEYS[0], 3), (KEYS[1], 2)), s[1], False) and (((( KEYS[0], 3), (KEYS[1], 2)), s[1], False), None)),
        ("merge", "d = d.merge(m)", lambda s: ((tuple({**dict(s[0]), **dict(s[1])}.items()), s[1], False), None)), ("merge2", "d = m.merge({%s: 9, 'f0': 1})" % KEYS[1], lambda s: ((tuple({**dict(s[1]), KEYS[1]: 9, "'f0'": 1}.items()), s[1], False), None)),
        ("self", "d = d.merge(d)", lambda s: ((s[0], s[1], False), None))]
OPS += [("bad%d" % i, e, lambda s: ERR) for i, e in enumerate(ERRS)]
DEEP = SMALL + [o for o in OPS if o[0] in ("set4", "rem4", "copy", "alias", "swap")]


def init(n, r):
    """n filler keys put in, the first r of them taken out again"""
    st = tuple((FILL[i], i) for i in range(r, n))
    return ("fill%d-%d" % (n, r), "d = {}; m = d;\nfor (var i = 0; i < %d; i += 1) { d[zF[i]] = i; } for (var i = 0; i < %d; i += 1) { d.remove(zF[i]); }\n" % (n, r), (st, st, True))


def part(sh, item):
    n, r, i, depth, which = item
    w = mc.worker(EXE)
    hist.histories(sh, w, PRE, init(n, r), [OPS, DEEP, SMALL][which], depth, show, first=[i])


INITS = [(0, 0), (1, 0), (2, 2), (4, 0), (5, 0), (5, 5), (6, 0), (6, 5), (7, 0), (11, 0), (11, 9), (12, 0), (13, 0), (13, 11), (23, 0), (24, 0), (25, 22), (48, 46)]
c.explore("two", part, [(n, r, i, 2, 0) for n, r in INITS for i in range(len(OPS))])
c.explore("deep", part, [(n, r, i, c.pick(4, 6), 1) for n, r in ((0, 0), (5, 0), (6, 6), (3, 0)) for i in range(len(DEEP))])
c.explore("collide", part, [(n, r, i, c.pick(6, 8), 2) for n, r in ((0, 0), (4, 0)) for i in range(len(SMALL))])
if not c.quick:
    c.explore("three", part, [(n, r, i, 3, 0) for n, r in ((0, 0), (5, 0), (12, 10)) for i in range(len(OPS))])
# ---------------------------------------------------------------- bulk histories: insert n, remove [a, b), insert [c, n + e), at every size
KINDS = ["i", "'k' + i.toString()", "i * 8", "i / 7", "i * 65536", "-i"]


def bulk(sh, item):
    w = mc.worker(EXE)
    items = []
    for n, a, b, k in item:
        key = KINDS[k]
        src = """d = {}; for (var i = 0; i < %d; i += 1) { d[%s] = i; } var e = 0; for (var i = 0; i < %d; i += 1) { if (d[%s] != i) { e += 1; } } print(d.len()); print(e);
for (var i = %d; i < %d; i += 1) { d.remove(%s); } print(d.len()); print(d.keys().len());
for (var i = 0; i < %d; i += 1) { if (d.exists(%s) != (i < %d or i >= %d)) { e += 1; } else if (d.exists(%s) and d[%s] != i) { e += 1; } } print(e);
for (var i = %d; i < %d; i += 1) { d[%s] = 2 * i; } print(d.len()); print(d.keys().len()); for (var i = 0; i < %d; i += 1) { if (d[%s] != (i < %d ? i : 2 * i)) { e += 1; } } print(e);
var c = d.copy(); print(c == d); for (var i = %d; i >= 0; i -= 1) { if (not d.exists(%s)) { continue; } d.remove(%s); } print(d.len()); print(d); print(c.len());
""" % (n, key, n, key, a, b, key, n, key, a, b, key, key, a, n + 3, key, n + 3, key, a, n + 3, key, key)
        items.append(("bulk:%d:%d:%d:%s" % (n, a, b, key), src, "%d\n0\n%d\n%d\n0\n%d\n%d\n0\ntrue\n0\n{}\n%d\n" % (n, n - (b - a), n - (b - a), n + 3, n + 3, n + 3)))
    mc.session(sh, w, items, prelude="var d;", flags=0, n=200)


NB = sorted(set(list(range(c.pick(50, 200))) + [x + y for x in (96, 128, 192, 256, 384, 512, 768, 1024) for y in (-1, 0, 1)]))
c.explore("bulk", bulk, mc.chunks([(n, a, b, k) for n in NB for k in range(len(KINDS)) for a in sorted({0, 1, n // 2}) if a <= n for b in sorted({a, n // 2, n - 1, n}) if a <= b <= n], 60))


# ---------------------------------------------------------------- bulk of one value: entries that hold nil, false and the like are entries too
def same(sh, item):
    w = mc.worker(EXE)
    items = []
    for n, v, k in item:
        key = KINDS[k]
        src = """d = {}; var e = 0; for (var i = 0; i < %d; i += 1) { d[%s] = %s; } print(d.len()); for (var i = 0; i < %d; i += 1) { if (not d.exists(%s) or d[%s] != %s or d.get(%s) != %s or d.get(%s, 'other') != %s) { e += 1; } } print(e); print(d.exists('none') or d.get('none', 'other') != 'other' or d.get('none') != nil);
for (var i = 0; i < %d; i += 2) { d.remove(%s); } print(d.len()); for (var i = 0; i < %d; i += 1) { d[%s] = %s; } print(d.len()); print(d.keys().len()); print(d == d.copy());
var t = 0; d.forEach(def (x, y) => { if (y == %s) { t += 1; } }); print(t);""" % (n, key, v, n, key, key, v, key, v, key, v, n, key, n, key, v, v)
        items.append(("same:%d:%s:%s" % (n, v, key), src, "%d\n0\nfalse\n%d\n%d\n%d\ntrue\n%d\n" % (n, n // 2, n, n, n)))
    mc.session(sh, w, items, prelude="var d;", flags=0, n=100)


c.explore("same", same, mc.chunks([(n, v, k) for n in NB for k in range(len(KINDS)) for v in ("nil", "false", "true", "0", "''")], 40))


# ---------------------------------------------------------------- churn: a window of keys moving on, over and over
def churn(sh, item):
    w = mc.worker(EXE)
    items = []
    for win, n, k in item:
        key = KINDS[k]
        src = "d = {}; var e = 0; for (var i = 0; i < %d; i += 1) { d[%s] = i; if (i >= %d) { var j = i; i = j - %d; d.remove(%s); i = j; } if (d.len() > %d) { e += 1; } } print(d.len()); for (var i = %d; i < %d; i += 1) { if (d.exists(%s) != (i >= %d)) { e += 1; } } print(e);" % (n, key, win, win, key, win + 1, 0, n, key, n - win)
        items.append(("churn:%d:%d:%s" % (win, n, key), src, "%d\n0\n" % min(win, n)))
    mc.session(sh, w, items, prelude="var d;", flags=0, n=100)


c.explore("churn", churn, mc.chunks([(wn, n, k) for wn in range(1, 20) for n in (wn, wn + 1, 50, c.pick(200, 2000)) if n >= wn for k in range(len(KINDS))], 20))


# ---------------------------------------------------------------- forEach and toObj visit every pair once; nested writes
def visits(sh, item):
    w = mc.worker(EXE)
    items = []
    for n, r in item:
        src = "d = {}; for (var i = 0; i < %d; i += 1) { d['k' + i.toString()] = i; } for (var i = 0; i < %d; i += 1) { d.remove('k' + i.toString()); } var n = 0; var s = 0; var e = 0; d.forEach(def (k, v) => { n += 1; s += v; if (k != 'k' + v.toString()) { e += 1; } }); print(n); print(s); print(e); class O { } var o = d.toObj(O()); for (var i = 0; i < %d; i += 1) { if (o.getAttribute('k' + i.toString(), -1) != (i < %d ? -1 : i)) { e += 1; } } print(e);" % (n, r, n, r)
        items.append(("visit:%d:%d" % (n, r), src, "%d\n%d\n0\n0\n" % (n - r, sum(range(r, n)))))
        src = "d = {'a': {'b': %d}, 'l': [%d]}; m = d['a']; d['a']['b'] += 1; d['a'][%d] = 3; d['l'][0] = 9; d['l'].push(1); print(m['b']); print(m[%d]); print(d['l']); d['a'] = 5; print(m.len()); print(d['a']);" % (n, r, n, n)
        items.append(("nested:%d:%d" % (n, r), src, "%d\n3\n[9, 1]\n2\n5\n" % (n + 1)))
    mc.session(sh, w, items, prelude="var d; var m;", flags=0, n=100)


c.explore("visits", visits, mc.chunks([(n, r) for n in list(range(0, 30)) + [64, 96, 97, 100, 128, 192, 193, 200] for r in sorted(set(list(range(0, n + 1, 1 if n < 30 else 16)) + [n]))], 40))
c.bounds = dict(keys=KEYS, operations=len(OPS), depth=c.pick(2, 3), deep_operations=len(DEEP), deep_depth=c.pick(4, 6), collision_depth=c.pick(6, 8), fills=INITS, bulk_sizes=NB)
c.finish()

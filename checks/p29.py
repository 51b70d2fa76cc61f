"""P29: Results: every contained value in every nesting through every chain of result methods and callbacks up to a depth, in lockstep with a model; every Result a built-in gives."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, sigs
from mc import fails

c = mc.Check("P29", rule="one chain of result operations run; non-trivial = distinct chains",
             assumptions=["Error() takes text only"])
EXE = c.build("plain")
ASAN = c.build("asan")

# ---------------------------------------------------------------- chains
# A model value is ("v", i): the i-th plain value, ("S", x) / ("E", text) results, ("l", x) a list holding x, ("t", text)
PLAIN = ["nil", "true", "false", "0", "-1.5", "''", "'some text'", "[]", "zL", "{'k': [1]}", "set(1, 2)", "zF", "ZK", "zI", "zI.m", "ZE", "print", "zNaN", "Success", "'x\\x00y'"]
NV = len(PLAIN)
TEXTS = ["''", "'e'", "'a\\x00b'", "'{} %s %d'"]
PRE = """var zL = [1, [2]]; def zF() { return 1; } class ZK { var n = 0; m(x=1) { return x; } id(x) { return x; } suc(x) { return Success(x); } } var zI = ZK(); enum ZE { a, b }
var zNaN = 1e300 * 1e300 - 1e300 * 1e300; var zV; var zT; var r; var zN; var zC = [];
zV = [%s]; zT = [%s];
def zSame(a, b) { return type(a) == type(b) and (a == b or (a != a and b != b)); }
def zId(x) { return x; } def zSuc(x) { return Success(x); } def zNest(x) { return Success(Success(x)); } def zList(x) { return [x]; } def zErr(x) { return Error('made'); } def zTxt(x) { return 'text'; }
def zMatch(x) { return Success(x).match(zId, zBad); } def zBad(x) { print('wrong branch'); return 'wrong'; } def zNone(x) { } def zMk(n) { return def (x) => [n, x]; }
def zBox(x) { zC.push(x); return zC.pop(); } def zRec(n) { if (n == 0) { return Success(1); } return zRec(n - 1).match(def (x) => Success(x + 1), zBad); }
def zChk(x, p) { var i = 0; while (i < p.len()) {
    const q = p[i];
    if (q == 'S') { if (type(x) != 'result' or !x_ok(x)) { return 'no success at {}'.format(i); } x = x.unwrap(); }
    else if (q == 'L') { if (type(x) != 'list' or x.len() != 1) { return 'no list at {}'.format(i); } x = x[0]; }
    else if (q == 'E') { if (type(x) != 'result' or x_ok(x)) { return 'no error at {}'.format(i); } x = x.unwrapError(); }
    i += 1; } return x; }
def x_ok(x) { return x.success(); }
def zIs(x, p, v) { const y = zChk(x, p); if (not zSame(y, v)) { print('at', p, 'found', y, 'instead of', v); } }
""" % (", ".join(PLAIN), ", ".join(TEXTS))
PRE = PRE.replace("!x_ok", "not x_ok")


def path(x):
    p = ""
    while x[0] in "SLE":
        p += x[0]
        if x[0] == "E":
            x = ("t", x[1])
            break
        x = x[1]
    return p, ("zV[%d]" % x[1] if x[0] == "v" else x[1])


# callbacks: (text, fn); the model function gets a model value and gives one (or None: runtime error)
def is_text(x):
    return x[0] == "t" or (x[0] == "v" and PLAIN[x[1]][0] == "'")


def texp(x):
    return x[1] if x[0] == "t" else PLAIN[x[1]]


CB = [("zId", lambda x: x), ("zSuc", lambda x: ("S", x)), ("zList", lambda x: ("L", x)), ("zErr", lambda x: ("E", "'made'")), ("def (x) => Success([x])", lambda x: ("S", ("L", x))), ("zI.id", lambda x: x), ("zI.suc", lambda x: ("S", x)),
      ("zNest", lambda x: ("S", ("S", x))), ("zTxt", lambda x: ("t", "'text'")), ("zMatch", lambda x: x), ("zNone", lambda x: ("v", 0)), ("def (x, y=2) => x", lambda x: x), ("Success", lambda x: ("S", x)),
      ("Error", lambda x: ("E", texp(x)) if is_text(x) else None), ("zBox", lambda x: x), ("def (x) => { var q = [1, 2]; q.forEach(def (z) => { z; }); return x; }", lambda x: x),
      ("def () => 1", lambda x: None), ("def (x, y) => 1", lambda x: None), ("nil", lambda x: None), ("5", lambda x: None), ("zL", lambda x: None), ("def (x) => x.unwrap()", lambda x: x[1] if x[0] == "S" else None),
      ("def (x) => nil.zz", lambda x: None), ("def (x) => { return x.match(zId, zId); }", lambda x: x[1] if x[0] == "S" else ("t", x[1]) if x[0] == "E" else None)]
BASIC = 10
NEVER = "zBad"


def wrap_err(y):
    """matchWrap of an error: Error() of what the callback gave"""
    return None if y is None else ("E", texp(y)) if is_text(y) else None


def ops(n):
    """name, code of the expression given the code of the receiver, model"""
    o = [("unwrap", "{}.unwrap()", lambda x: x[1] if x[0] == "S" else None),
         ("unwrapError", "{}.unwrapError()", lambda x: ("t", x[1]) if x[0] == "E" else None),
         ("Success", "Success({})", lambda x: ("S", x)),
         ("list", "[{}]", lambda x: ("L", x)),
         ("first", "{}[0]", lambda x: x[1] if x[0] == "L" else ("SKIP",))]
    for t, f in CB[:n]:
        def m(x, f=f):
            return f(x[1]) if x[0] == "S" else f(("t", x[1])) if x[0] == "E" else None
        o.append(("match:" + t, "{}.match(%s, %s)" % (t, t), m))

        def mw(x, f=f):
            if x[0] == "S":
                y = f(x[1])
                return None if y is None else ("S", y)
            return wrap_err(f(("t", x[1]))) if x[0] == "E" else None
        o.append(("matchWrap:" + t, "{}.matchWrap(%s, %s)" % (t, t), mw))

        def me(x, f=f):
            return x[1] if x[0] == "S" else f(("t", x[1])) if x[0] == "E" else None
        o.append(("matchError:" + t, "{}.matchError(%s)" % t, me))

        def ms(x, f=f):
            return f(x[1]) if x[0] == "S" else ("t", "'wrong'") if x[0] == "E" else None
        o.append(("match-left:" + t, "{}.match(%s, def (e) => 'wrong')" % t, ms))
    return o


def chains(sh, item):
    exe, inits, depth, first, ncb, gc = item
    O = ops(ncb)
    items = []

    def rec(key, code, x, d):
        p, v = path(x)
        items.append((key, "zIs(%s, '%s', %s);" % (code, p, v), ""))
        if d == depth:
            return
        for i, (n, t, f) in enumerate(O):
            if d == 0 and i not in first:
                continue
            y = f(x) if x[0] in "SEL" or n in ("Success", "list") else None
            if y == ("SKIP",):
                continue
            if y is None:
                if x[0] in "SE":       # (plain values have other properties)
                    items.append((key + "." + n, "print('never', %s);" % t.replace("{}", code), fails(mc.RUNTIME)))
                    items.append(("after:" + key + "." + n, "zIs(%s, '%s', %s);" % (code, p, v), ""))
                continue
            rec(key + "." + n, t.replace("{}", code), y, d + 1)

    for key, code, x in inits:
        rec(key, code, x, 0)
    for part in mc.chunks(items, 60000):
        mc.session(sh, mc.worker(exe), part, prelude=PRE, n=500, flags=0, gc=gc)
        if len(sh.violations) > 3:
            return


INIT = [("S%d" % i, "Success(zV[%d])" % i, ("S", ("v", i))) for i in range(NV)] + [("E%d" % i, "Error(%s)" % t, ("E", t)) for i, t in enumerate(TEXTS)]
NEST = [("SS", "Success(Success(zV[8]))", ("S", ("S", ("v", 8)))), ("SE", "Success(Error('in'))", ("S", ("E", "'in'"))), ("SLS", "Success([Success(zV[6])])", ("S", ("L", ("S", ("v", 6))))), ("num", "'x'.toNumber().matchError(zSuc)", ("S", ("t", "\"Can not convert 'x' to number\"")))]
NOPS = len(ops(len(CB)))
gs = [(EXE, INIT + NEST, 2, [i], len(CB), (0, 0, 0)) for i in range(NOPS)]
gs += [(EXE, [x], c.pick(3, 4), [i], BASIC if not c.quick else 6, (0, 0, 0)) for x in [INIT[8], INIT[NV + 1]] + NEST[:3] for i in range(len(ops(BASIC if not c.quick else 6)))]
gs += [(ASAN, INIT[:9] + INIT[NV:NV + 2] + NEST, c.pick(1, 2), [i], len(CB), (1, 0, 0)) for i in range(NOPS)]
c.explore("chains", chains, gs)
c.bounds["chains"] = "%d contained values, %d errors, %d nestings; chains of 2 operations out of %d, chains of %d out of fewer; collection at every allocation for chains of %d" % (NV, len(TEXTS), len(NEST), NOPS, c.pick(3, 4), c.pick(1, 2))


# ---------------------------------------------------------------- argument counts, printing, places a result can be kept
def forms(sh, item):
    items = []
    for recv in ("Success(1)", "Error('e')"):
        for m, n in (("unwrap", 0), ("unwrapError", 0), ("success", 0), ("match", 2), ("matchWrap", 2), ("matchError", 1)):
            for k in range(0, 6):
                if k != n:
                    items.append(("args:%s.%s/%d" % (recv, m, k), "%s.%s(%s);" % (recv, m, ", ".join(["zId"] * k)), fails(mc.RUNTIME)))
                    items.append(("after:args:%s.%s/%d" % (recv, m, k), "print(Success(5).unwrap());", "5\n"))
        for k in (0, 2, 3):
            items.append(("ctor:%s/%d" % (recv[0], k), "%s(%s);" % (recv.split("(")[0], ", ".join(["'e'"] * k)), fails(mc.RUNTIME)))
    for i, v in enumerate(PLAIN):
        if v[0] != "'":
            items.append(("error-of:" + v, "Error(zV[%d]);" % i, fails(mc.RUNTIME)))
        for t, places in (("Success", ["const q = Success(%s); zIs(q, 'S', %s);", "var q = [Success(%s)]; zIs(q, 'LS', %s);", "const q = {'a': Success(%s)}; zIs(q['a'], 'S', %s);", "def ff() { return Success(%s); } zIs(ff(), 'S', %s);",
                                       "zI.n = Success(%s); zIs(zI.n, 'S', %s);", "var q = Success(%s); q = q; def ff() { return q; } zIs(ff(), 'S', %s);", "def ff(a) { return def () => a; } zIs(ff(Success(%s))(), 'S', %s);",
                                       "for (var i = 0; i < 3; i += 1) { var q = Success(%s); zIs(q, 'S', %s); zIs(q, 'S', q.unwrap()); }", "const q = Success(%s); const w = q.unwrap(); const v = q.unwrap(); zIs(q, 'S', %s); zIs([w], 'L', v);",
                                       "var q = Success(%s); zIs([q.success(), q.success()][0], '', true); zIs(q, 'S', %s);"]),):
            for j, p in enumerate(places):
                items.append(("place:%s:%d" % (v, j), p % ("zV[%d]" % i, "zV[%d]" % i), ""))
    items.append(("shared", "var q = [1]; var a = Success(q); q.push(2); print(a.unwrap()); a.unwrap().push(3); print(q); a.match(def (x) => { x.push(4); }, zBad); print(q);", "[1, 2]\n[1, 2, 3]\n[1, 2, 3, 4]\n"))
    for v, t in (("Success(1)", "<Result Suc>"), ("Error('e')", "<Result Err>"), ("Success(Error('e'))", "<Result Suc>"), ("'1'.toNumber()", "<Result Suc>"), ("'x'.toNumber()", "<Result Err>")):
        items.append(("print:" + v, "print(%s); print([%s]); print(type(%s));" % (v, v, v), "%s\n[%s]\nresult\n" % (t, t)))
    for d in list(range(0, 40)) + [500, 2000]:
        items.append(("rec:%d" % d, "print(zRec(%d).unwrap());" % d, "%d\n" % (d + 1)))
        nest = "var q = 'core'; for (var i = 0; i < %d; i += 1) { q = Success(q); } var n = 0; while (type(q) == 'result') { q = q.unwrap(); n += 1; } print(n, q);" % d
        items.append(("nest:%d" % d, "def ff() { %s } ff();" % nest.replace("print(n, q)", "print('{} {}'.format(n, q))"), "%d core\n" % d))
        items.append(("chain:%d" % d, "def ff() { var q = Success(0); for (var i = 0; i < %d; i += 1) { q = q.matchWrap(def (x) => x + 1, zBad); } print(q.unwrap()); } ff();" % d, "%d\n" % d))
        items.append(("errchain:%d" % d, "def ff() { var q = Error('e'); for (var i = 0; i < %d; i += 1) { q = q.matchWrap(zBad, def (x) => x + 'e'); } print(q.unwrapError().len()); } ff();" % d, "%d\n" % (d + 1)))
    # what the callbacks do around the match: returns, breaks, errors, nested matches at every depth
    for a, b in it.product(("Success(1)", "Error('e')"), repeat=2):
        sa, sb = a[0] == "S", b[0] == "S"
        items.append(("nested:%s%s" % (a[0], b[0]), "print(%s.match(def (x) => %s.match(def (y) => 'ss' , def (y) => 'se'), def (x) => %s.match(def (y) => 'es', def (y) => 'ee')));" % (a, b, b), ("s" if sa else "e") + ("s" if sb else "e") + "\n"))
        items.append(("inloop:%s%s" % (a[0], b[0]), "var o = []; [%s, %s].forEach(def (q) => { q.match(def (x) => { o.push('s'); }, def (x) => { o.push('e'); }); }); print(o.join(''));" % (a, b), ("s" if sa else "e") + ("s" if sb else "e") + "\n"))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0)
    mc.session(sh, mc.worker(ASAN), [x for x in items if ":500" not in x[0] and ":2000" not in x[0]], prelude=PRE, flags=0, gc=(4, 7, 0))


c.explore("forms", forms, [0])


# ---------------------------------------------------------------- every Result a built-in gives is one or the other, and an error has a text
def builtins(sh, item):
    part, of = item
    w = mc.worker(EXE, cwd_files={"in.txt": "l1\nl2\n", ".env": "A=1\n"})
    pre = sigs.DEFS + """def zR(f) { const r = f; if (type(r) == 'result') { if (r.success()) { const v = r.unwrap(); if (r.match(def (x) => 1, def (x) => 2) != 1) { print('match'); } }
    else { if (type(r.unwrapError()) != 'string') { print('error is no text'); } if (r.match(def (x) => 1, def (x) => type(x)) != 'string') { print('match'); } } } }\n"""
    items = []
    for recv, name, p, s in list(sigs.calls())[part::of]:
        if recv in ("Process", "socket", "Socket", "HTTP", "Env", "FFI") or name in ("setCWD", "exit", "sleep", "input", "kill", "chown", "fatal", "fatalln", "collect"):
            continue
        for a in sigs.arg_tuples(s):
            kinds = [sigs.KIND[v] for v in a]
            if sigs.matches(s, kinds) is False:
                continue
            items.append(("builtin:%s%s(%s)" % (p, name, ", ".join(a)), "zR(%s%s(%s));" % (p, name, ", ".join(a))))
    for ch in mc.chunks(items, 400):
        w.reset_cwd()
        for k in range(0, len(ch), 200):
            q = ch[k:k + 200]
            r = mc.run_confirm(w, srcs=[("case.du", pre)] + [("case.du", s) for _, s in q], flags=16 | 512 | 2, timeout=60)
            outs = r.out.split(b"\x1e")
            sh.evals += len(q)
            sh.transitions += len(q)
            for j, (key, s) in enumerate(q):
                o = outs[j + 1] if j + 1 < len(outs) else b""
                sh.state(key)
                if b"error is no text" in o or b"match\n" == o[-6:]:
                    sh.violate(key, "%s: %r" % (s, o[-200:]))


c.explore("builtins", builtins, [(i, 64) for i in range(64)])
c.finish()

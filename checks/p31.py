"""P31: sessions: several sources in one interpreter, every kind of failure at every place between every mix of definitions and uses, in lockstep with a reference interpreter that keeps its globals; and the dictu program itself, as file, -c and REPL."""
import os, sys, itertools as it, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref, build

c = mc.Check("P31", rule="one sequence of sources run; non-trivial = distinct sequences of outputs and statuses",
             assumptions=["what an importer sees of a module whose run failed is unspecified", "the REPL echoes its input lines and prompts when its input is not a terminal"])
EXE = c.build("plain")
ASAN = c.build("asan")
FILES = {"f.txt": "l1\nl2\n", "ok.du": "var n = 0; def get() { n += 1; return n; }", "bad.du": "var x = 1; var ;", "fail.du": "def ff(x) { var y = x; return nil.zz; } var z = [1]; ff(z);", "badfail.du": "import 'bad.du';", "failfail.du": "def ff(x) { import 'fail.du'; } ff(1);"}
# both sides define the same; what the reference does not know (modules, files, natives written in Dictu) has an equivalent
PRE = ("import 'ok.du' as M; ", "var Mn = 0; def Mget() { Mn += 1; return Mn; } ")
SETUP = """var a = 1; var l = [1, 2]; var g = nil; var h = nil; var keep = nil; var o = nil;
def f(x) { return x + 1; } def rec(n) { if (n == 0) { return 0; } return 1 + rec(n - 1); } def fact(n) { return n < 2 ? 1 : n * fact(n - 1); }
class K { var s = 's'; init(n) { this.n = n; this.l = [n]; } m() { return this.n; } static st(x) { return x + 'st'; } inc() { this.n += 1; return this; } } class L < K { m() { return super.m() * 10; } } trait T { t() { return 't'; } } class U { use T; }
var i = K(4); enum E { p, q = 'Q' }
{ var n = 100; keep = def () => { n += 1; return n; }; }
def mk(n) { return [def () => { n += 1; return n; }, def () => n]; } var two = mk(5);
"""
PROBE = ["print(a); print(f(2)); print(rec(20)); print(fact(6)); { var x = 1; var y = [x, 2]; { var z = def () => { x += 1; return x; }; print(z() + z()); } print(x); }",
         "print(i.m()); i.n += 1; print(i.inc().m()); print(L(3).m()); print(K.st('x')); print(K(7).l); print(U().t()); print(E.q); print(E.p); print(K.s);",
         "print(keep()); print(keep()); print(two[0]()); print(two[1]()); l.push(l.len()); print(l.len()); print(g == nil ? 'no g' : g()); print(h == nil ? 'no h' : h()); print(g == nil ? 'no g' : g()); for (var q = 0; q < 2; q += 1) { print(q); }",
         "def f2(x, y=5) { return x + y; } print(f2(1)); class K2 < K { m() { return 'k2' + super.m().toString(); } } print(K2(6).m()); a = a + 1; switch (a) { case 2: { print('two'); } case 3: { print('three'); } default: { print('more'); } } var fs = []; for (var q = 0; q < 3; q += 1) { var w = q; fs.push(def () => w); } print(fs[0]() + fs[1]() + fs[2]());"]
PROBE[1] = PROBE[1].replace("print(K.st('x'))", "print(K.st('x')); print(%s)")
FAILS = [("nil.zz;", None), ("nil();", None), ("f(1, 2, 3);", None), ("nosuch;", None), ("nosuch = 1;", None), ("1 + 'a';", None), ("[1][5];", None), ("{'a': 1}['b'];" if False else "l['x'];", None), ("K.nosuch;", None), ("K();", None), ("i.nosuch();", None), ("Success(1).unwrapError();", None),
         ("Error('e').unwrap();", None), ("l.nosuch();", None), ("'a'.format(nil, nil, nil).nosuch;", "nil.zz;"), ("assert(false);", "nil.zz;"), ("import 'fail.du';", "nil.zz;"), ("import 'failfail.du';", "nil.zz;"), ("import 'nosuch.du';", "nil.zz;"), ("from 'ok.du' import nosuch;", "nil.zz;"),
         ("rec(-1);", "nil.zz;"), ("[1, 2].forEach(def (x) => { nil.zz; });", "nil.zz;"), ("[3, 1, 2].sortFunc(def (x, y) => { return nil.zz; });", "nil.zz;"), ("[1].map(def (x) => [2].map(def (y) => y.zz));", "nil.zz;"), ("[1, 2].reduce(def (x, y) => nil());", "nil.zz;"), ("{'k': 1}.forEach(def (k, v) => nil.zz);" if False else "Success(1).match(def (x) => nil.zz, def (x) => nil.zz);", "nil.zz;"),
         ("with ('f.txt', 'r') { file.readLine(); nil.zz; }", "nil.zz;"), ("with ('nosuch', 'r') { }", "nil.zz;"), ("with ('f.txt', 'r') { file.write('x'); }", "nil.zz;"), ("f(1, 2, nil.zz);", None), ("[1, [2, nil.zz]];", None), ("print(f(f(nil.zz)));", None), ("i.n = nil.zz;", None), ("a = nil.zz;", None), ("a += nil.zz;", None), ("l[0] = nil.zz;", None),
         ("var [qa, qb] = [1];", "nil.zz;"), ("f(*[1, 2, 3]);" if False else "f();", None), ("class Q9 { var v = nil.zz; }", None), ("class Q8 < nil { }" if False else "class Q8 < a { }", "nil.zz;"), ("enum Q7 { a, b = nil.zz }", None), ("class Q6 { use K; }", "nil.zz;"), ("K.st();", None), ("i.init();", None), ("JSON9.x;", "nil.zz;"), ("'x'.nosuch();", "nil.zz;"), ("(def (x) => x)();", None), ("nil.zz ? 1 : 2;", None), ("if (nil.zz) { }", None), ("while (nil.zz) { }", None),
         ("switch (nil.zz) { case 1: { } }", None), ("for (var z = nil.zz; z < 2; z += 1) { }", None), ("i?.nosuch;", "nil.zz;"), ("i.setAttribute(1, 2);", "nil.zz;"), ("set([1]);", "nil.zz;"), ("{[1]: 2};" if False else "-'a';", None)]
CFAILS = ["import 'bad.du';", "import 'badfail.du';"]
# {C} is what is captured, {F} the failure
BODY = "var n = 1; var m = [n]; g = def () => { n += 1; return n; }; h = def () => { n += 10; m.push(n); return m.len() + n; }; n = 50; {F} n = 1000; print('never');"
BODY2 = "var x0 = 1; var x1 = 2; { var y0 = 3; g = def () => { x1 += y0; return x1; }; { var z0 = 4; h = def () => { z0 += x1; return z0; }; y0 = 30; {F} } }"
BODY3 = "a += 1; l.push(9); i.n = 77; {F} a = 1000;"
BODY4 = "class Loc { init() { this.q = 5; } m() { return this.q; } } var lo = Loc(); g = lo.m; o = lo; h = def () => lo.m() + o.m(); {F}"
BODIES = [BODY, BODY2, BODY3, BODY4]
LOCS = {"top": "{ {B} }", "fn": "def t1(p, q) { var r = p; {B} } t1(1, 2);", "fn2": "def t1(p) { {B} } def t2(p) { var z = 1; t1(z); z = 2; } def t3() { var y = [1]; t2(y); } t3();", "if": "if (a) { {B} }", "for": "for (var j = 0; j < 3; j += 1) { var k0 = j; if (j == 1) { {B} } }", "while": "var w = 0; while (true) { w += 1; if (w > 2) { {B} } }",
        "switch": "switch (1) { case 1: { {B} } default: { } }", "method": "class Q1 { m(p) { var e = p; {B} } } Q1().m(3);", "init": "class Q2 { init(p) { this.p = p; {B} } } o = Q2(1);", "static": "class Q3 { static m(p) { {B} } } Q3.m(1);", "super": "class Q4 { m() { {B} } } class Q5 < Q4 { m() { var k0 = 1; super.m(); } } Q5().m();", "closure": "def t1() { var e = 1; return def (p) => { e += p; {B} }; } t1()(2);",
        "arg": "f((def () => { {B} })());", "list": "o = [1, 2, (def () => { {B} })(), 3];", "dict": "o = {'a': 1, 'b': (def () => { {B} })()};", "attr": "i.zz = (def () => { {B} })();", "or": "false or (def () => { {B} })();", "default": "def t1(p=(def () => { {B} })()) { } t1();", "ternary": "true ? (def () => { {B} })() : 1;", "cond": "while ((def () => { {B} })()) { }", "unop": "-(def () => { {B} })();", "binop": "1 + (def () => { {B} })();",
        "deep": "def dd(k) { var loc = [k]; if (k == 0) { {B} } dd(k - 1); loc.push(1); } dd(40);", "trait": "trait Q { m() { {B} } } class Qt { use Q; } Qt().m();", "call": "class Qc { init() { this.fn = def () => { {B} }; } } Qc().fn();"}
REAL = {"each": ("[1].forEach(def (x) => { {B} });", "(def (x) => { {B} })(1);"), "map": ("[1, 2].map(def (x) => { {B} return x; });", "(def (x) => { {B} })(1);"), "sort": ("[2, 1].sortFunc(def (x, y) => { {B} return 0; });", "(def (x) => { {B} })(1);"), "match": ("Success(1).match(def (x) => { {B} }, def (x) => 1);", "(def (x) => { {B} })(1);"), "dicteach": ("def te() { const d = {'a': 1}; d.forEach(def (k, v) => { {B} }); } te();", "(def (x) => { {B} })(1);"),
        "with": ("with ('f.txt', 'r') { var ln = file.readLine(); {B} }", "{ var ln = 1; {B} }"), "withfn": ("def t1() { with ('f.txt', 'r') { with ('f.txt', 'r') { {B} } } } t1();", "def t1() { { { {B} } } } t1();"), "mapmap": ("[1].map(def (x) => [2].map(def (y) => { {B} }));", "(def (x) => { {B} })(1);")}
for k, v in LOCS.items():
    REAL[k] = (v, v)
COMPILE = ["var ;", "a = ;", "{ var x = 1; ", "def q(", "def q(p) { return p", "class Q { m() { var ; } }", "class Q { m() { class R { n() { def s() { x y; } } } } }", "print('never'", "'unfinished", "break;", "continue;", "return 1;", "{ const x = 1; x = 2; }", "{ var x = 1; var x = 2; }", "this.x;", "super.m();", "1 = 2;", "f(1) = 2;", "\\", "var x = 0x;", "import Nosuch;", "def q(p, p) { }", "def q(p=1, r) { }", "switch (1) { case 1: }", "def q() { def r() { def s() { for (;;) { with ('f.txt', 'r') { while (true) { var } } } } } }",
           "class Q { init() { return 5; } }", "enum Q { a b }", "abstract Q { }", "trait Q { init() { } }" if False else "class Q { m( }", "var [x, y] = ;", "if (true) { } else", "for (var z = 0; z < 2 { }", "{ var z1 = 1; def zz() { var z2 = 2; def zzz() { z1 = z2; ", "[1, 2", "{'a': }", "f(1, , 2);", "@A class", "}", ")", "def q() { return def () => { return def () => { nil..x; }; }; }", "g = def () => { var u = 1; return def () => { u += 1; ) }; };", "a = 5; l.push(1); $", "%s" % ("a" * 3 + " " + "b" * 3), "1.2.3;", "'\\x5';", "def q() { %s }" % " ".join("var v%d = 1;" % i for i in range(260)), "print(%s);" % ", ".join(["1"] * 300)]


def expected(seq, repl=False):
    """[(real source, reference source, rc or None)] -> outputs and statuses"""
    I = ref.Interp(100000)
    outs, rcs = [], []
    for real, rs, rc in seq:
        n = len(I.out)
        st = I.run(rs) if rs is not None else "compile"
        rcs.append(rc or {"ok": "0", "runtime": "2", "compile": "1"}[st])
        outs.append("".join(I.out[n:]))
    return outs, rcs


def judge(sh, w, key, seq, gc=(0, 0, 0), flags=0, exp=None):
    e = exp or expected(seq)
    r = mc.run_confirm(w, srcs=[("case.du", s) for s, _, _ in seq], gc=gc, flags=flags | 16)
    outs = [x.decode("utf-8", "replace") for x in r.out.split(b"\x1e")][:-1]
    sh.evals += 1
    sh.transitions += len(seq)
    sh.state((key, tuple(outs), tuple(r.rcs)))
    if r.crash or outs != e[0] or r.rcs != e[1]:
        j = next((j for j in range(len(seq)) if j >= len(outs) or j >= len(r.rcs) or outs[j] != e[0][j] or r.rcs[j] != e[1][j]), len(seq) - 1)
        sh.violate(key, "%s: source %d of %d: %s\n    expected rc=%s %r\n    observed rc=%s %r %s" % (key, j + 1, len(seq), seq[j][0][:300], e[1][j], e[0][j], r.rcs[j] if j < len(r.rcs) else "-", outs[j] if j < len(outs) else "-", r.crash or ""), program=[s for s, _, _ in seq])


def probes(n=None):
    out = [(p % "M.get()" if "%s" in p else p, p % "Mget()" if "%s" in p else p, None) for p in PROBE]
    return out if n is None else out[n:n + 1]


START = [(PRE[0] + SETUP, PRE[1] + SETUP, None)]


def src(loc, body, fail):
    r, rf = REAL[loc]
    f, ff = fail
    return (r.replace("{B}", BODIES[body]).replace("{F}", f), rf.replace("{B}", BODIES[body]).replace("{F}", ff or f), "2")


ONCE = ("import 'fail.du';", "import 'failfail.du';", "import 'badfail.du';")


def again(fail, loc, b, one):
    """the second time; a module whose run failed is not run again"""
    return src(loc, b, FAILS[0]) if fail[0] in ONCE else one


def singles(sh, item):
    """a failure of every kind at every place, between probes; then defined anew"""
    exe, loc, gc = item
    w = mc.worker(exe, cwd_files=FILES)
    for b in range(len(BODIES)):
        for fail in FAILS + [(x, "nil.zz;") for x in CFAILS]:
            one = src(loc, b, fail)
            if fail[0] in CFAILS:
                one = one[:2] + ("1",)
            judge(sh, w, "single:%s:%d:%s" % (loc, b, fail[0]), START + [one] + probes() + [again(fail, loc, b, one)] + probes(2) + probes(0), gc)
            if len(sh.violations) > 3:
                return


gs = [(EXE, loc, (0, 0, 0)) for loc in REAL] + [(ASAN, loc, (5, 250, 0) if c.quick else (1, 0, 0)) for loc in (list(REAL) if not c.quick else list(REAL)[::3])]
c.explore("singles", singles, gs)


def pairs(sh, item):
    exe, l1, gc = item
    w = mc.worker(exe, cwd_files=FILES)
    for b1 in (0, 1, 3):
        for l2 in REAL:
            for b2 in (0, 1):
                for f1, f2 in ((0, 0),) if c.quick else ((0, 0), (20, 0), (21, 16), (0, 26)):
                    judge(sh, w, "pair:%s%d:%s%d:%d%d" % (l1, b1, l2, b2, f1, f2), START + [src(l1, b1, FAILS[f1])] + probes(2) + [src(l2, b2, FAILS[f2])] + probes(2) + probes(0) + probes(3), gc)
        if len(sh.violations) > 3:
            return


c.explore("pairs", pairs, [(EXE, loc, (0, 0, 0)) for loc in REAL])


def compile_errors(sh, item):
    """sources that do not compile have no effect at all; every one of them, and every two, in and out of REPL mode"""
    exe, x, gc = item
    w = mc.worker(exe, cwd_files=FILES)
    hidden = "a = 99; print('never'); var c9 = 1; const c8 = 2; class K { m() { return 'wrong'; } } def f(x) { return 'wrong'; } "
    for flags in (0, 8):
        for y in [None] + (COMPILE if not c.quick else COMPILE[::3]):
            for pre in (hidden, "def outer() { var cap = 1; def inner() { cap += 1; ", ""):
                seq = START + [(pre + x, None, "1")] + probes(0) + ([(hidden + y, None, "1")] if y else []) + probes(2) + [("const c8 = 5; var c9 = 6; c9 = 7; { print(c8 + c9); }" if not flags else "var c8 = 5; var c9 = 6; c9 = 7; c8 = 6; print(c8 + c9);", "print(%d);" % (12 if not flags else 13), None)] + probes(1) + probes(3)
                judge(sh, w, "compile:%d:%s:%s:%s" % (flags, pre[:10], x[:60], (y or "")[:60]), seq, gc, flags)
        if len(sh.violations) > 3:
            return


c.explore("compile_errors", compile_errors, [(EXE, x, (0, 0, 0)) for x in COMPILE] + [(ASAN, x, (1, 0, 0) if not c.quick else (5, 300, 0)) for x in (COMPILE if not c.quick else COMPILE[::4])])


def repeated(sh, item):
    """the same failure many times does not use anything up"""
    loc, = item
    w = mc.worker(EXE, cwd_files=FILES)
    for fail in ([FAILS[0], FAILS[21], FAILS[26], (CFAILS[0], "nil.zz;")] if c.quick else FAILS + [(x, "nil.zz;") for x in CFAILS]):
        one = src(loc, 0, fail)
        if fail[0] in ONCE:
            continue
        if fail[0] in CFAILS:
            one = one[:2] + ("1",)
        n = c.pick(40, 300)
        base = expected(START + probes()[0:1] + [one] + probes()[2:3])
        seq = START + probes()[0:1] + [one] * n + probes()[2:3]
        exp = (base[0][:2] + [base[0][2]] * n + base[0][3:], base[1][:2] + [base[1][2]] * n + base[1][3:])
        judge(sh, w, "repeat:%s:%s" % (loc, fail[0]), seq, exp=exp)


c.explore("repeated", repeated, [(loc,) for loc in REAL])
c.bounds.update(singles="%d places x %d captures x %d failures" % (len(REAL), len(BODIES), len(FAILS) + len(CFAILS)), pairs="every two places x captures x a few failures", compile="%d sources that do not compile, alone and in pairs, REPL mode and not" % len(COMPILE), repeated="each place, up to %d times" % c.pick(40, 300))

# ---------------------------------------------------------------- all short histories of definitions, uses and failures
ALPHA = [("var a = 10;", None, None), ("a += 1; print(a);", None, None), ("print(a);", None, None), ("a = 'text'; nil.zz; a = 5;", None, None), ("def f(x) { return x * 2; }", None, None), ("print(f(4));", None, None), ("def f(x) { var y = x; g = def () => { y += 1; return y; }; nil.zz; } f(7);", None, None),
         ("print(g == nil ? 'none' : g());", None, None), ("class K { init(n) { this.n = n * 100; } m() { return this.n; } }", None, None), ("print(K(2).m());", None, None), ("print(i.m()); i.n = 5;", None, None), ("i = K(9); i.m(); nil.zz;", None, None), ("class K { init(n) { nil.zz; } } K(1);", None, None),
         ("class M2 < K { m() { return super.m() + 1; } } print(M2(1).m());", None, None), ("a = 3; var ;", None, "1"), ("{ var x = 1; def q() { x += 1; ", None, "1"), ("var fresh = 1;", None, None), ("print(isDefined('fresh'));" if False else "fresh += 1; print(fresh);", None, None), ("import 'fail.du'; nil.zz;", "nil.zz;", "2"), ("import 'bad.du';", "nil.zz;", "1"), ("print(M.get());", "print(Mget());", None),
         ("[1, 2].forEach(def (x) => { a = x; nil.zz; });", "a = 1; nil.zz;", "2"), ("h = g; g = nil;", None, None), ("print(h == nil ? 'none' : h());", None, None), ("rec(-1);", "nil.zz;", "2")]


def histories(sh, item):
    exe, first, depth, gc = item
    w = mc.worker(exe, cwd_files=FILES)
    for n in range(0, depth):
        for rest in it.product(range(len(ALPHA)), repeat=n):
            seq = START + [(s, (r or s) if rc != "1" or r else None, rc) for s, r, rc in [ALPHA[k] for k in (first,) + rest]]
            judge(sh, w, "history:%s" % ",".join(map(str, (first,) + rest)), seq, gc)
            if len(sh.violations) > 3:
                return


c.explore("histories", histories, [(EXE, k, c.pick(3, 4), (0, 0, 0)) for k in range(len(ALPHA))] + [(ASAN, k, 2, (4, c.pick(29, 1), 0)) for k in range(len(ALPHA))])
c.bounds["histories"] = "all sequences of up to %d sources out of %d" % (c.pick(3, 4), len(ALPHA))


# ---------------------------------------------------------------- the REPL's echo
def echo(sh, item):
    vals = [("1", "1"), ("-2.5", "-2.5"), ("'text'", "text"), ("nil", None), ("true", "true"), ("[1, 'a']", "[1, \"a\"]"), ("1 + 1", "2"), ("f(1)", "2"), ("(def () => nil)()", None), ("i.m()", "4"), ("l", "[1, 2]"), ("a", "1"), ("a == 1 ? 'y' : 'n'", "y"), ("not a", "false"), ("'x' + 'y'", "xy"), ("l[1]", "2"), ("E.q", "Q"), ("K.st('z')", "zst"), ("nil or 3", "3"), ("g", None), ("a += 1", "2"), ("i.n += 1", None), ("l[0] = 5", None), ("[]", "[]"), ("(3)", "3"), ("a = 7", None), ("5 == 5", "true"), ("a.toString()", "1"), ("i.n = 4", None)]
    w = mc.worker(EXE, cwd_files=FILES)
    for (x, ex), (y, ey) in it.product(vals, repeat=2):
        if ("a" in (x[:1], y[:1])) and ("=" in x.replace("==", "") or "=" in y.replace("==", "")) and x != y and x[:1] + y[:1] == "aa":
            continue
        for wrap, shown in (("%s; %s;", True), ("{ %s; %s; }", True), ("if (true) { %s; } else { } %s;", True), ("def ff() { %s; %s; } ff();", False), ("(def () => { %s; %s; })();", False), ("for (var zz = 0; zz < 1; zz += 1) { %s; %s; }", True), ("class Q { m() { %s; %s; } } Q().m();", False)):
            code = wrap % (x, y)
            keep = []
            for v, e in ((x, ex), (y, ey)):
                keep.append(e)
            # values that the first statement changes
            if x == "a += 1" or x == "a = 7":
                if y in ("a", "a.toString()", "a == 1 ? 'y' : 'n'", "not a", "a += 1", "a = 7"):
                    continue
            if "l[0] = 5" in (x, y) and "l" in (x, y):
                continue
            if x in ("i.n += 1",) and y == "i.m()":
                continue
            r = mc.run_confirm(w, srcs=[("repl", PRE[0].replace("import 'ok.du' as M; ", "") + SETUP), ("repl", code), ("repl", "print(_);")], flags=8 | 16)
            outs = r.out.split(b"\x1e")
            want = "".join(e + "\n" for e in keep if e is not None) if shown else ""
            last = [e for e in keep if e is not None]
            sh.evals += 1
            sh.transitions += 2
            sh.state((x, y, wrap))
            bad = r.crash or r.rcs[:2] != ["0", "0"] or outs[1].decode() != want or (shown and last and (r.rcs[2] != "0" or outs[2].decode() != last[-1] + "\n"))
            if bad:
                sh.violate("echo:" + code, "%s: expected %r, observed %s" % (code, want, [o.decode() for o in outs]))
                if len(sh.violations) > 3:
                    return


c.explore("echo", echo, [0])

# ---------------------------------------------------------------- the dictu program
CLI = build.build_cli()


def run_cli(d, args, stdin=b""):
    p = subprocess.run([CLI] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=dict(PATH="/usr/bin:/bin", HOME=d, LANG="C.UTF-8"), timeout=60)
    return p.returncode, p.stdout, p.stderr


SOURCES = [("print(1);", 0, "1\n"), ("print(1); print('a' + 'b');", 0, "1\nab\n"), ("", 0, ""), ("// nothing", 0, ""), ("print(1); nil.zz; print(2);", 70, "1\n"), ("print(1); var ;", 65, ""), ("def f() { nil.zz; } print(3); f();", 70, "3\n"), ("{", 65, ""), ("import System; print(4); System.exit(3); print(5);", 3, "4\n"), ("import System; System.exit(0);", 0, ""), ("import 'ok.du' as M; print(M.get());", 0, "1\n"),
           ("import 'bad.du';", 65, ""), ("import 'fail.du';", 70, ""), ("import 'nosuch.du';", 70, ""), ("import System; print(System.argv.len());", 0, "1\n"), ("assert(true); print(1);", 0, "1\n"), ("assert(false);", 70, ""), ("print('x'); def f(n) { return f(n + 1); } f(0);", 70, "x\n"), ("import System; def f() { System.exit(9); } [1].forEach(def (x) => { f(); });", 9, "")]


def cli(sh, item):
    kind, part = item
    d = tempfile.mkdtemp(dir=mc.run_dir())
    for k, v in FILES.items():
        with open(os.path.join(d, k), "w") as f:
            f.write(v)

    def want(key, args, stdin, rc, out, exact=True):
        r = run_cli(d, args, stdin)
        sh.evals += 1
        sh.transitions += 1
        sh.state((key, r[0], r[1]))
        o = r[1].decode("utf-8", "replace")
        if r[0] != rc or o != out or (rc in (65, 70, 74)) != bool(r[2].strip()):
            sh.violate("cli:" + key, "dictu %s < %r: expected status %d %r, observed status %d %r, stderr %r" % (" ".join(args), stdin[:200], rc, out, r[0], o, r[2][:200]))
    if kind == "file":
        for k, (s, rc, out) in enumerate(SOURCES):
            for end in ("", "\n", "\n\n// end", " "):
                with open(os.path.join(d, "m.du"), "w") as f:
                    f.write(s + end)
                want("file:%s" % s, ["m.du"], b"", rc, out)
                want("abs:%s" % s, [os.path.join(d, "m.du")], b"", rc, out)
                want("dash:%s" % s, ["--", "m.du"], b"", rc, out)
                if end == "" and "argv" not in s:
                    want("cmd:%s" % s, ["-c", s], b"", rc, out)
                if end == "" and "argv" not in s and "import '" not in s:
                    want("cmdfile:%s" % s, ["-c", s, "m.du"], b"", rc, out)
        want("missing", ["nosuch.du"], b"", 74, "")
        want("directory", ["."], b"", 74, "")
        for n in list(range(0, 30)) + [255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 200000]:
            with open(os.path.join(d, "m.du"), "w") as f:
                f.write("print(1);" + " " * n)
            want("size:%d" % n, ["m.du"], b"", 0, "1\n")
            with open(os.path.join(d, "m.du"), "w") as f:
                f.write("print('%s');" % ("y" * n))
            want("text:%d" % n, ["m.du"], b"", 0, "y" * n + "\n")
    else:
        # each line of input is a statement; a statement goes on while its braces are open
        stm = [("var a = 1;", ""), ("a + 1;", "2\n"), ("a;", "1\n"), ("print('x');", "x\n"), ("nil.zz;", ""), ("var ;", ""), ("def f() { return 5; }", ""), ("def f() {\nreturn 5;\n}", ""), ("if (true) {\n  if (true) {\n    print('in');\n  }\n}", "in\n"), ("print('{');", "{\n"), ("print(\"}{\");", "}{\n"), ("print('it\\'s {');", "it's {\n"), ("class K {\n m() {\n return 'k';\n }\n}", ""),
               ("var t = 'two\nlines';", ""), ("", ""), ("print('two\nlines');", "two\nlines\n"), ("}", ""), ("const q = {\n'a': 1\n};", ""), ("7; 8;", "7\n8\n"), ("print('\\\\');", "\\\n"), ("9; // it's { \"", "9\n"), ("6; /* it's {\n'' } */ 7;", "6\n7\n"), ("// }", ""), ("8 / 2; //*", "4\n")]
        banner = None
        for n in (1, 2, 3) if not c.quick else (1, 2):
            for seq in it.product(range(len(stm)), repeat=n):
                if hash(tuple(seq)) % 4 != part:
                    continue
                if any(stm[k][0].startswith("a") and 0 not in seq[:j] for j, k in enumerate(seq)):
                    continue
                if sum(stm[k][0] in ("const q = {\n'a': 1\n};",) for k in seq) > 1:
                    pass
                inp = "".join(stm[k][0] + "\n" for k in seq)
                rc, out, err = run_cli(d, [], inp.encode())
                o = out.decode("utf-8", "replace")
                if banner is None:
                    banner = o[:o.index("\n") + 1]
                exp = banner
                for k in seq:
                    ls = stm[k][0].split("\n")
                    exp += ">>> " + "\n... ".join(ls) + "\n" + stm[k][1]
                sh.evals += 1
                sh.transitions += n
                sh.state((seq, o, rc))
                errs = sum(stm[k][0] in ("nil.zz;", "var ;", "}") for k in seq)
                if rc != 0 or o.rstrip() != (exp + ">>>").rstrip() or bool(err.strip()) != (errs > 0):
                    sh.violate("repl:%s" % (seq,), "input %r: expected %r, observed status %d %r, stderr %r" % (inp, exp, rc, o, err[-300:]))
                    if len(sh.violations) > 3:
                        return
        for n in (0, 1, 100, 1000, 4000, 4096, 8192, 70000):
            rc, out, err = run_cli(d, [], b"print('" + b"y" * n + b"');\nprint(2);\n")
            sh.evals += 1
            if rc != 0 or b"\n" + b"y" * n + b"\n" not in out or b"\n2\n" not in out:
                sh.violate("repl:long:%d" % n, "a line of %d characters: status %d %r" % (n, rc, out[-100:]))
        # long statements, deep ones, and long sessions (longer than the history that is kept)
        for n in range(part, c.pick(130, 400), 4 if not c.quick else 12):
            for key, inp, exp in (("lines", "var q = [\n" + "".join("%d,\n" % k for k in range(n)) + "-1];\nprint(q.len());\n", None), ("block", "{ var q = 0;\n" + "".join("q += %d;\n" % k for k in range(n)) + "print(q); }\n", "%d\n" % (n * (n - 1) // 2)),
                                  ("deep", "{\n" * n + "print(%d);\n" % n + "}\n" * n, "%d\n" % n if n < 200 else None), ("session", "var q = 0;\n" + "".join("q += %d;\n" % k for k in range(n)) + "print(q);\n", "%d\n" % (n * (n - 1) // 2)), ("comment", "/* {\n" * 0 + "print('%s'); // %s\n" % ("{" * n, "'" * n), "{" * n + "\n"), ("quotes", "print('%s');\n" % ("\\'" * n), "'" * n + "\n"), ("slashes", "print('%s');\n" % ("\\\\" * n), "\\" * n + "\n")):
                if exp is None:
                    continue
                rc, out, err = run_cli(d, [], inp.encode())
                o = out.decode("utf-8", "replace")
                sh.evals += 1
                sh.transitions += inp.count("\n")
                sh.state((key, n))
                if rc != 0 or err.strip() or "\n" + exp not in o or not o.rstrip().endswith(">>>"):
                    sh.violate("repl:%s:%d" % (key, n), "input %r: status %d %r, stderr %r" % (inp[:200], rc, o[-200:], err[-300:]))
        # input that ends inside a statement
        for s in ("def f() {", "print('a", "{ {", "var x = 1; {"):
            rc, out, err = run_cli(d, [], s.encode())
            sh.evals += 1
            if rc not in (0,):
                sh.violate("repl:eof:" + s, "status %d %r %r" % (rc, out[-100:], err[-100:]))
    shutil.rmtree(d)


c.explore("program", cli, [("file", 0)] + [("repl", p) for p in range(4)])
c.finish()

"""P02: control flow, by enumeration of nestings of statements x exits x condition vectors against the reference interpreter."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

c = mc.Check("P02", rule="a program per (nesting of control statements, exit statement, placement of locals and captures), run over every vector of branch conditions; "
             "non-trivial = a distinct (status, trace) of the reference")
EXE = c.build("plain")

PRE = """var cs = []; var ci = 0; var fs = [];
def c() { ci += 1; return ci <= cs.len() and cs[ci - 1]; }
def t(a) { print(a); }
"""
# kind -> (opening text, closing text, is loop, locals it introduces itself)
OPEN = {
    "block": ("{", "}", False, None),
    "if": ("if (c()) {", "}", False, None),
    "else": ("if (c()) { t('then'); } else {", "}", False, None),
    "elseif": ("if (c()) { t('then'); } else if (c()) {", "} else { t('else'); }", False, None),
    "while": ("while (c()) {", "}", True, None),
    "loop": ("while { if (not c()) { break; }", "}", True, None),
    "for": ("for (var i{d} = 0; i{d} < 2; i{d} += 1) {", "}", True, "i{d}"),
    "forc": ("for (var i{d} = 0; c(); i{d} += 1) {", "}", True, "i{d}"),
    "forbare": ("for (;c();) {", "}", True, None),
    "case": ("switch (c()) { case true: {", "} case false: { t('f'); } }", False, None),
    "case2": ("switch (ci) { case 1, 3: {", "} default: { t('dflt'); } }", False, None),
    "default": ("switch (c()) { case 7, 8: { t('no'); } default: {", "} }", False, None),
}
EXITS = ["", "break;", "continue;", "return {v};", "if (c()) { break; }", "if (c()) { continue; }", "if (c()) { return {v}; }", "if (c()) { var z = 1; break; } else { var y = 2; continue; }"]


def build(chain, exit_, caps, after, inloop0=False):
    """Nested program text; every level declares a local, optionally captured, and traces all of them before and after its inner statement."""
    if ("break" in exit_ or "continue" in exit_) and not any(OPEN[k][2] for k in chain):
        return None
    names = []

    def rec(d):
        v = "v%d" % d
        names_here = names[:]
        cap = "fs.push(def () => %s);" % v if caps & (1 << d) else ""
        head = "var %s = %d; %s" % (v, 10 * (d + 1), cap)
        names.append(v)
        tr = "t([%s]);" % ", ".join("'%d'" % d if i == 0 else n for i, n in enumerate(["x"] + names))
        if d == len(chain):
            ex = exit_.replace("{v}", v)
            s = head + tr + (ex if not after else "") + "%s += 1;" % v + (ex if after else "") + tr
        else:
            o, cl, loop, lv = OPEN[chain[d]]
            o, lv = o.replace("{d}", str(d)), lv and lv.replace("{d}", str(d))
            pre = tr
            if lv:
                names.append(lv)
            body = rec(d + 1)
            if lv:
                names.remove(lv)
            s = head + pre + "\n" + o + body + cl + "\n" + "%s += 1;" % v + tr
        names[:] = names_here
        return s
    return rec(0)


def vectors(n):
    return it.product(("true", "false"), repeat=n)


def driver(body, n):
    calls = "".join("cs = [%s]; ci = 0; fs = []; t(run()); for (var q = 0; q < fs.len(); q += 1) { t(fs[q]()); }\n" % ", ".join(v) for v in vectors(n))
    return PRE + "def run() {\n" + body + "\n}\n" + "def go() {\n" + calls + "}\ngo();"


def part(sh, item):
    w = mc.worker(EXE)
    mc.diff_programs(sh, w, [x if isinstance(x, tuple) else (x, x) for x in item], skip_budget=True, steps=30000)


KINDS = list(OPEN)


def nests(depth, caps, n):
    for d in range(1, depth + 1):
        for ch in it.product(KINDS, repeat=d):
            for e in EXITS:
                for cp in caps(d):
                    for after in ((False, True) if e else (False,)):
                        b = build(ch, e, cp, after)
                        if b is not None:
                            yield "nest:%s:%s:%d:%d" % ("/".join(ch), e, cp, after), driver(b, n)


if c.quick:
    c.explore("nest2", part, mc.chunks(nests(2, lambda d: range(1 << (d + 1)), 4), 200))
    c.explore("nest3", part, mc.chunks((p for p in nests(3, lambda d: (0, 15), 3) if p[0].count("/") == 2), 200))
else:
    c.explore("nest3", part, mc.chunks(nests(3, lambda d: range(1 << (d + 1)), 4), 200))
    c.explore("nest4", part, mc.chunks((p for p in nests(4, lambda d: (0,), 3) if p[0].count("/") == 3), 200))


# ---------------------------------------------------------------- the same at top level (one vector per program, no return)
def toplevel(depth, n):
    for d in range(1, depth + 1):
        for ch in it.product(KINDS, repeat=d):
            for e in EXITS:
                if "return" in e:
                    continue
                for cp in (0, (2 << d) - 1):
                    b = build(ch, e, cp, True)
                    if b is None:
                        continue
                    for v in vectors(n):
                        tail = "for (var q = 0; q < fs.len(); q += 1) { t(fs[q]()); }"
                        yield "top:%s:%s:%d:%s" % ("/".join(ch), e, cp, "".join(x[0] for x in v)), PRE + "cs = [%s];" % ", ".join(v) + "\n{" + b + "}\n" + tail
                        if v == ("true",) * n:
                            yield "topg:%s:%s:%d:%s" % ("/".join(ch), e, cp, "".join(x[0] for x in v)), PRE + "cs = [%s];" % ", ".join(v) + "\n" + b + "\n" + tail


c.explore("top", part, mc.chunks(toplevel(c.pick(2, 2), c.pick(2, 4)), 400))

# ---------------------------------------------------------------- statements of every form inside loops with exits
FORMS = ["1;", "var k = 5;", "var k = [1, 2]; k[0] += 3;", "var [p, q] = [1, 2]; t(p + q);", "var k = 1; k -= 2 - 3;", "def g() { return v; } t(g());", "def g(a, b=2) { return a + b + v; } t(g(1));",
         "def g(...a) { return a; } t(g(1, v));", "var g = def (a) => a + v; t(g(1));", "enum E { A, B } t(E.B);", "enum E { A = 4, B = 'x' } t(E.A);", "enum E { A, B, C, D, F } t(E.F);",
         "class K { init(var a) {} m() { return this.a + v; } } t(K(2).m());", "class K { var a = 3; const b = 4; } t(K.a + K.b);", "class K { private z; init() { this.z = v; } g() { return this.z; } } t(K().g());",
         "class K { static s() { return 6; } } t(K.s());", "class K { m() { return 1; } } class L < K { m() { return super.m() + v; } } t(L().m());", "trait T { m() { return 8; } } class K { use T; } t(K().m());",
         "abstract class K { abstract m() } class L < K { m() { return 9; } } t(L().m());", "var d = {'a': 1, 'b': v}; d['a'] += 1; t(d['a']);", "var l = [1, 2, 3]; t(l[1:]); t(l[:1]); t(l[0:2]);",
         "class K { init() { this.f = 1; } } var o = K(); o.f += v; t(o.f);", "var o = nil; t(o?.x);", "t(v == 10 ? 'y' : 'n');", "t(v and 1 or 2);", "switch (v) { case 10, 11: { t('s'); } default: { t('d'); } }",
         "t([v, [v], {'z': v}]);", "def g(a, b) { return a - b; } t(g(...[5, v]));", "t('abc'[1]);", "var s = 'x'; s += 'y'; t(s);", "if (v > 10) { t('gt'); }", "var a = 1; { var b = 2; a += b; fs.push(def () => a + b); }",
         "for (var k = 0; k < 2; k += 1) { if (k == 1) { continue; } t(k); }", "while { break; }", "var k = 3; while (k > 0) { k -= 1; if (k == 1) break; } t(k);", "[v];", "t(-v); t(not v);",
         "var x1 = 1; var x2 = 2; var x3 = x1 + x2; t(x3 ** 2);", "class K { m(a=1, b=v) { return a + b; } } t(K().m());", "var o = [def () => v]; t(o[0]());", "t(not (v != 10));", "class K {} K.z = v; t(K.z); K.z = 2;",
         "@A class K { m() { return v; } } t(K().m());", "var [p, q, r] = ['a', v, nil]; t([p, q, r]);", "def g() { for (var k = 0; k < 3; k += 1) { if (k == 1) { return k + v; } } } t(g());",
         "var a = 1; var b = 2; [a, b] = [b, a]; t([a, b]);", "t(v & 3); t(v | 3); t(v ^ 3);", "fs.push(def () => def () => v);", "class K { init(private a) {} g() { return this.a; } } t(K(v).g());", "t(v % 3); t(v / 4);"]
LOOPS = ["while (c()) { %s }", "while { %s }", "for (var i = 0; i < 3; i += 1) { %s }", "for (var i = 0; c(); i += 1) { %s }", "for (;;) { %s }", "for (var i = 0; i < 2; i += 1) { while (c()) { %s } t(i); }",
         "for (var i = 0; i < 3; i += 1) { if (c()) { %s } t(i); }", "for (var i = 0; i < 3; i += 1) { switch (i) { case 0, 2: { %s } default: { t('d'); } } }"]
LEX = ["F break;", "break; F", "F continue;", "if (c()) { F break; } t('n');", "if (c()) { F continue; } t('n');", "F if (c()) { break; } F2", "if (c()) { break; } F if (ci > 3) { return v; } F2", "if (not c()) { break; } F t('after');",
       "F if (c()) { break; } var w = 7; fs.push(def () => w); if (c()) { continue; } if (ci > 4) { break; } t(w);"]


def forms():
    for f in FORMS:
        for l in LOOPS:
            for e in LEX:
                f2 = "{ %s }" % f
                body = "var v = 10; var u = 20; " + l % (e.replace("F2", f2).replace("F", f)) + " t([v, u]); var w = 30; t([v, u, w]); return w;"
                if "while {" in l or ";;" in l:
                    if "break" not in e:
                        continue
                yield "form:%s:%s:%s" % (f, l, e), driver(body, 3 if c.quick else 4)
    # two forms in a row in one loop
    for f, g in it.product(FORMS, repeat=2):
        if c.quick and (FORMS.index(f) * 7 + FORMS.index(g)) % 3:
            pass
        body = "var v = 10; for (var i = 0; i < 3; i += 1) { { %s } { %s } if (c()) { break; } t(i); } t(v); return v;" % (f, g)
        yield "form2:%s:%s" % (f, g), driver(body, 2)


c.explore("forms", part, mc.chunks(forms(), 150))


# ---------------------------------------------------------------- sibling statements: slots are reused correctly
def siblings():
    ones = [(k, build((k,), e, cp, True)) for k in KINDS for e in ("", "if (c()) { break; }", "if (c()) { continue; }") for cp in (0, 3) if build((k,), e, cp, True)]
    for (k1, b1), (k2, b2) in it.product(ones, repeat=2):
        yield driver("var o = 1; { %s } var m = 2; { %s } t([o, m]);" % (b1, b2), 3)
        if not c.quick:
            yield driver("var o = 1; for (var j = 0; j < 2; j += 1) { { %s } var m = 2; { %s } t([o, m]); } return o;" % (b1, b2), 4)


c.explore("siblings", part, mc.chunks(siblings(), 150))


# ---------------------------------------------------------------- for clauses, switch shapes, scoping of names
def misc():
    inits = ["", "var i = 0", "i = 1"]
    conds = ["", "i < 3", "c()", "i < 3 and c()"]
    incs = ["", "i += 1", "t(i)", "i = i + 2"]
    bodies = ["t(i); if (i > 4) { break; } i += 1;", "fs.push(def () => i); i += 1; if (i > 3) { break; }", "if (i == 1) { i += 1; continue; } t(i); i += 1; if (i > 5) { return i; }", "t(i); i += 1; if (i > 3) break;",
              "var i = 9; t(i); break;", "{ var i = 7; t(i); } i += 1; if (i > 2) break;"]
    for a, b, x, bd in it.product(inits, conds, incs, bodies):
        yield driver("var i = 0; for (%s; %s; %s) { %s } t(i); return 'e';" % (a, b, x, bd), 3)
        yield PRE + "cs = [true, true]; var i = 0; for (%s; %s; %s) { %s } t(i);" % (a, b, x, bd.replace("return i;", "break;"))
    # switch: all case lists over small values, subject values, default or not, matching order, side effects of case expressions
    vals = ["1", "2", "'a'", "nil", "true", "1.5"]
    for s in vals + ["3", "s()", "[1]"]:
        for c1 in it.chain(it.permutations(vals, 1), it.permutations(vals, 2)):
            for c2 in it.permutations(vals, 1):
                for dfl in ("", "default: { t('d'); }"):
                    sw = "switch (%s) { case %s: { var z = 1; t('A'); t(z); } case %s: { var y = 2; var x = 3; t('B'); t(x); } %s }" % (s, ", ".join(c1), c2[0], dfl)
                    yield "def s() { print('s'); return 2; } def t(x) { print(x); } def run() { var a = 1; %s var b = 2; t([a, b]); } run(); { var k = 5; %s t(k); }" % (sw, sw)
    for n in range(1, 9):
        for s in range(0, n + 2):
            for dfl in ("", "default: { t('d'); }"):
                sw = "switch (%d) { %s %s }" % (s, " ".join("case %d: { t(%d); var l = %d; }" % (i, i, i) for i in range(n)), dfl)
                yield "def t(x) { print(x); } def run() { var a = 7; %s t(a); } run(); for (var i = 0; i < 2; i += 1) { %s t(i); }" % (sw, sw)
                sw2 = "switch (%d) { %s %s }" % (s, "case " + ", ".join(str(i) for i in range(n)) + ": { t('m'); if (i == 0) { continue; } break; }", dfl)
                yield "def t(x) { print(x); } def run() { var a = 7; for (var i = 0; i < 3; i += 1) { %s t(i); } t(a); } run();" % sw2
    # names are not visible outside their block
    for decl in ["var z = 1;", "const z = 1;", "def z() { return 1; }", "class z {}", "enum z { A }", "var [z, y] = [1, 2];", "for (var z = 0; z < 1; z += 1) {}"]:
        for ctx in ["{ %s }", "if (true) { %s }", "while (true) { %s break; }", "for (var i = 0; i < 1; i += 1) { %s }", "switch (1) { case 1: { %s } }", "def q() { %s } q();", "{ { %s } }", "if (false) {} else { %s }"]:
            for use in ["print(z);", "z = 2;", "z += 1;", "print(z());", "def r() { return z; } print(r());", "var z = 5; print(z);", "{ var z = 6; print(z); }"]:
                for outer in ["", "var z = 100;"]:
                    s = outer + ctx % decl + use
                    yield "print('go');" + s
                    yield "print('go'); def f() { " + s + " } f();"
                    yield "print('go'); { " + s + " }"
    # exits outside of where they are allowed
    for s in ["break;", "continue;", "return;", "return 1;"]:
        for ctx in ["%s", "{ %s }", "if (true) { %s }", "def f() { %s } f();", "def f() { while (true) { def g() { %s } g(); break; } } f();", "while (true) { def g() { %s } g(); break; }", "class A { init() { %s } } A();",
                    "class A { m() { %s } } print(A().m());", "switch (1) { case 1: { %s } }", "for (var i = 0; i < 2; i += 1) { print(i); %s }", "class A { init() { for (var i = 0; i < 2; i += 1) { print(i); %s } } } A();",
                    "def f() { for (var i = 0; i < 2; i += 1) { switch (i) { case 0: { %s } } print(i); } } print(f());", "while (true) { %s break; }"]:
            if ctx == "while (true) { %s break; }" and s == "continue;":
                continue
            yield "print('go');" + ctx % s + "print('end');"


def misc_(sh, item):
    mc.diff_programs(sh, mc.worker(EXE), [(x, x) for x in item], skip_budget=True, steps=30000)


c.explore("misc", misc_, mc.chunks(misc(), 300))

# ---------------------------------------------------------------- loops with exits around every instruction operand (the compiler patches break by walking the code)
def operands(n):
    """(name, text before the loop, text inside it, texts around the function) for operand value n."""
    js = lambda f, m=n: ", ".join(f(i) for i in range(m))
    pad = "x = 0; " + "".join("x = %d; " % (1000 + i) for i in range(max(0, n - 8)))
    yield "list", "", "var l = [%s]; n += l.len();" % js(lambda i: "true"), "", ""
    yield "dict", "", "var l = {%s}; n += l.len();" % js(lambda i: "%d: 1" % i, min(n, 120)), "", ""
    if 0 < n <= 100:
        yield "destructure", "", "var [%s] = [%s]; n += v%d;" % (js(lambda i: "v%d" % i), js(str), n - 1), "", ""
        yield "destructure-assign", "".join("var v%d; " % i for i in range(n)), "[%s] = [%s]; n += v%d;" % (js(lambda i: "v%d" % i), js(str), n - 1), "", ""
        yield "captures", "".join("var v%d = %d; " % (i, i) for i in range(n)), "var g = def () => { v%d += 1; return [%s]; }; n += g()[%d];" % (n - 1, js(lambda i: "v%d" % i), n - 1), "", ""
    if 0 < n <= 240:
        yield "destructure-big", "var l = [%s];" % js(lambda i: "nil"), "var [%s] = l; n += 1;" % js(lambda i: "v%d" % i), "", ""
        yield "slot", "".join("var v%d = nil; " % i for i in range(n)) + "v%d = 0;" % (n - 1), "v%d = v%d + 1; v%d += 1; n += v%d; var g = def () => v%d;" % ((n - 1,) * 5), "", ""
        yield "slot-capture", "".join("var v%d = nil; " % i for i in range(n)) + "v%d = 0;" % (n - 1), "var g = def () => { v%d += 1; return v%d; }; n += g();" % ((n - 1,) * 2), "", ""
    yield "call", "", "n += g(%s).len();" % js(lambda i: "nil"), "def g(...a) { return a; }", ""
    yield "invoke", "", "n += k.m(%s).len(); n += K.s(%s).len(); n += K(%s).m().len();" % ((js(lambda i: "0", min(n, 60)),) * 3), "class K { init(...a) {} m(...a) { return a; } static s(...a) { return a; } } var k = K();", ""
    yield "cases", "", "switch (i == 1) { case %s: { n += 1; } default: { n += 100; } }" % (js(lambda i: "true" if i == n - 1 else "nil") or "7"), "", ""
    yield "filler", "", "n += i; " * n, "", ""
    if n <= 230:
        yield "constant", "var x = 0; " + pad, "n += 7777; var z = 'tag'; n += z.len();", "", ""
        yield "names", "var x = 0; " + pad, "glob += 1; n += glob; n += k.attr; k.attr += 1; n += k.meth(1); k.attr = 5;", "var glob = 1; class K { var attr = 3; meth(a) { return a; } } var k = K();", ""
        yield "defs", "var x = 0; " + pad, "class C { var a = 1; b() { return 2; } static c() { return 3; } } enum E { A, B } def h(a, b=2) { return a + b; } n += C().b() + C.c() + C.a + E.B + h(1);", "", ""


def operandprog(shape, n):
    for name, pre, body, head, tail in operands(n):
        loops = {"for": "for (var i = 0; i < 4; i += 1) { %s if (i == 1) { continue; } if (i == 2) { break; } n += 10000; }", "while": "var i = 0 - 1; while (i < 4) { i += 1; %s if (i == 1) { continue; } if (i == 2) { break; } n += 10000; }"}
        yield (name, n, shape), "%s def f() { var n = 0; %s %s return n; } print(f()); print('end'); %s" % (head, pre, loops[shape] % body, tail)


def operandwork(sh, item):
    shape, n = item
    mc.diff_programs(sh, mc.worker(EXE), list(operandprog(shape, n)))


c.explore("operands", operandwork, [(s, n) for s in ("for", "while") for n in range(0, 251)])
c.bounds = dict(nesting=c.pick(3, 4), condition_vector=c.pick("3-4", "3-4"), statement_forms=len(FORMS), loop_shapes=len(LOOPS), exit_shapes=len(LEX))
c.assumptions.append("programs the reference does not finish within its step budget (genuinely endless loops) are left out; their number is in parts.*.skipped_by_budget")
c.finish()

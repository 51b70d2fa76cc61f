"""P04: constants, by enumeration of declarations x contexts x attempts to change them, and of mixes of constant and assignable names."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

c = mc.Check("P04", rule="a program per (kind of constant, context, way of changing it); an illegal change must be refused before it takes effect, everything else must do what the reference says; "
             "non-trivial = a distinct expected outcome")
EXE = c.build("plain")

DECL = {"plain": "const X = 1;", "second": "const w0 = 0, X = 1;", "first": "const X = 1, w0 = 0;", "unpack": "const [w0, X] = [0, 1];", "unpack0": "const [X, w0] = [1, 0];"}
ATTEMPT = ["X = 2;", "X += 2;", "X -= 2;", "X *= 2;", "X /= 2;", "X &= 2;", "X |= 2;", "X ^= 3;", "print(X = 2);", "if (X = 2) {}", "var q = X = 2;", "id(X = 2);", "X = X;", "[id(X += 1)];", "var y = 0; y = X = 5;",
           "return X = 2;", "(def () => X = 2)();", "(def (a = X = 2) => a)();", "while (X = 0) {}", "for (X = 2; false;) {}", "for (var i = 0; i < 1; i += X = 3) { i = 2; }", "switch (X = 2) { case 2: {} }",
           "{'k': X = 2};", "true ? X = 2 : nil;", "not (X = 2);", "nil or (X = 2);", "var [p, q] = [X = 2, 3];", "[X, o] = [2, 3];", "[o, X] = [2, 3];", "X = def () => 1;", "X = nil;", "X = [X];"]
REDECL = ["var X = 2;", "const X = 2;", "var o2, X = 2;", "var [X, o3] = [2, 3];", "const [o3, X] = [2, 3];", "def X() { return 2; }", "class X {}", "trait X {}", "abstract class X {}", "enum X { A }"]
# contexts wrap the attempt; "fn" tells that a return statement is possible there
CTX = {"same": ("%s", 0), "block": ("{ %s }", 0), "if": ("if (true) { %s }", 0), "else": ("if (false) {} else { %s }", 0), "while": ("while (true) { %s break; }", 0), "for": ("for (var i = 0; i < 1; i += 1) { %s }", 0),
       "case": ("switch (1) { case 1: { %s } }", 0), "fn": ("def f() { %s } f();", 1), "fn2": ("def f() { def g() { %s } g(); } f();", 1), "fn3": ("def f() { def g() { def h() { %s } h(); } g(); } f();", 1),
       "arrow": ("(def () => { %s })();", 1), "method": ("class K { m() { %s } } K().m();", 1), "init": ("class K { init() { this.z = 1; %s } } K();", 0), "static": ("class K { static m() { %s } } K.m();", 1),
       "fnblock": ("def f() { { %s } } f();", 1), "blockfn": ("{ def f() { %s } f(); }", 1), "twice": ("def f() { print(X); { var t = 0; %s } } f(); f();", 1), "deepblock": ("{ var a0 = 9; { var b0 = 8; { %s } } }", 0)}
PRE = "def id(x) { return x; } var o = 0;\n"


def judge_illegal(sh, w, key, src):
    """the program must be refused (compile error before anything runs, or runtime error) and the constant must never be seen changed"""
    r = mc.run_confirm(w, srcs=src, timeout=10.0)
    sh.evals += 1
    sh.transitions += 1
    sh.state((tuple(r.rcs), r.out))
    sh.sample(dict(program=src, outcome=r.brief()))
    t = r.text
    ok = r.crash is None and r.exit == -1 and (r.rcs == ["1"] and t == "" or r.rcs == ["2"] and "changed" not in t)
    if not ok:
        sh.violate(key, "accepted: %s\n    observed %r (%s)%s" % (src, t[:300], r.brief(), mc.crash_note(r)), program=src, observed=t)


def illegal(sh, item):
    w = mc.worker(EXE)
    for key, src in item:
        judge_illegal(sh, w, key, src)


SEE = "if (X != 1) { print('changed'); }"


def illegal_items():
    for (dn, d), at, (cn, (cx, ret)) in it.product(DECL.items(), ATTEMPT, CTX.items()):
        if "return" in at and not ret:
            continue
        use = cx % at
        yield "g:%s:%s:%s" % (dn, cn, at), PRE + d + " " + use + " " + SEE
        yield "l:%s:%s:%s" % (dn, cn, at), PRE + "def run() { " + d + " " + use + " " + SEE + " } run();"
        yield "b:%s:%s:%s" % (dn, cn, at), PRE + "{ var z0 = 7; " + d + " " + use + " " + SEE + " }"
        yield "c:%s:%s:%s" % (dn, cn, at), PRE + "def run() { " + d + " def inner() { " + use + " } inner(); " + SEE + " } run();"
        yield "m:%s:%s:%s" % (dn, cn, at), PRE + "class Q { m() { " + d + " " + use + " " + SEE + " } } Q().m();"
    # the same constant declared again in its own scope
    for (dn, d), at in it.product(DECL.items(), REDECL):
        yield "redecl:l:%s:%s" % (dn, at), "def run() { " + d + " " + at + " " + SEE + " } run();"
        yield "redecl:b:%s:%s" % (dn, at), "{ var z0 = 7; " + d + " " + at + " " + SEE + " }"
        yield "redecl:c:%s:%s" % (dn, at), "def run() { var y = 1; return def () => { " + d + " " + at + " " + SEE + " }; } run()();"
    for at in REDECL:
        yield "redecl:g:%s" % at, DECL["plain"] + " " + at + " " + SEE
    # a function compiled before the constant's declaration and called after it
    for at in ["X = 2;", "X += 2;", "id(X = 2);", "return X = 2;"]:
        yield "late:fn:%s" % at, PRE + "def f() { %s } const X = 1; f(); %s" % (at, SEE)
        yield "late:method:%s" % at, PRE + "class K { m() { %s } } const X = 1; K().m(); %s" % (at, SEE)
        yield "late:arrow:%s" % at, PRE + "var f = def () => { %s }; const X = 1; f(); %s" % (at, SEE)
    # class constants
    for sup in ("", "B"):
        for acc, at in it.product(["K", "L", "k.c()", "(K)"], ["{0}.X = 2;", "{0}.X += 1;", "{0}.X = {0}.X;", "print({0}.X = 2);"]):
            tgt = acc
            see = "if (K.X != 1 or K().X != 1) { print('changed'); }"
            src = "class B { } class K%s { var y = 0; const X = 1; const Z = 3; c() { return K; } static s() { %s } m() { %s } } var k = K(); var L = K; " % (" < B" if sup else "", at.format("K"), at.format("K"))
            yield "class:%s:%s:%s" % (sup, acc, at), src + at.format(tgt) + see
            yield "classfn:%s:%s:%s" % (sup, acc, at), src + "def f() { %s } f(); %s" % (at.format(tgt), see)
            yield "classstatic:%s:%s:%s" % (sup, acc, at), src + "K.s(); " + see
            yield "classmethod:%s:%s:%s" % (sup, acc, at), src + "k.m(); " + see


c.explore("illegal", illegal, mc.chunks(illegal_items(), 300))


# ---------------------------------------------------------------- legal programs
def legal_items():
    shadow = ["var X = 5; {0} print(X);", "def g(X) {{ {0} return X; }} print(g(5));", "for (var X = 5; X < 6; X += 1) {{ print(X); }}", "{{ var X = 5; {0} print(X); }}", "def g() {{ var X = 5; {0} return X; }} print(g());",
              "def g(X=5) {{ {0} return X; }} print(g()); print(g(6));", "def g(...X) {{ {0} return X; }} print(g(5));", "var [X, y] = [5, 6]; {0} print(X);", "var f = def (X) => X = 5; print(f(4));",
              "class K {{ init(var X) {{ {0} }} }} print(K(3).X);", "{{ def g() {{ var X = 5; def h() {{ {0} return X; }} return h(); }} print(g()); }}"]
    ops = ["X = 7;", "X += 7;", "X = X;", "X *= 2;", "X = [X];"]
    for (dn, d), s, at in it.product(DECL.items(), shadow, ops):
        body = s.format(at)
        for where, p in (("fn", "%s def run() { %s print(X); } run(); print(X);"), ("block", "%s { %s print(X); } print(X);"), ("closure", "def run() { %s def in() { %s print(X); } in(); print(X); } run();")):
            yield "shadow:%s:%s:%s:%s" % (dn, where, s, at), p % (d, body)
    # the scope of the constant has ended; its slot and its name are free again
    for d in DECL.values():
        for at in ops + ["X -= 1;"]:
            yield "ended:" + d + at, "var X = 10; { %s print(X); } %s print(X);" % (d, at)
            yield "ended:fn:" + d + at, "def run() { var X = 10; { %s print(X); } %s print(X); } run();" % (d, at)
            yield "ended:cap:" + d + at, "def run() { var fs = []; var X = 10; { %s fs.push(def () => X); } %s fs.push(def () => X); { var X = 50; %s print(X); } print(fs[0]()); print(fs[1]()); } run();" % (d, at, at)
            yield "ended:loop:" + d + at, "for (var i = 0; i < 3; i += 1) { %s print(X); { var X = i; %s print(X); } }" % (d, at)
            yield "slot:" + d + at, "def run() { { %s var z = 3; z = 4; print(z); } var X = 9; var y = 8; %s y = 3; print([X, y]); } run();" % (d, at)
            yield "otherfn:" + d + at, "def f() { %s return X; } def g() { var X = 4; %s return X; } print(f()); print(g()); print(f());" % (d, at)
    # constants hold references: their contents may change
    for v, at in [("[1, 2]", "X[0] = 5;"), ("[1, 2]", "X[1] += 5;"), ("[1]", "X.push(3);"), ("{'a': 1}", "X['a'] = 2;"), ("{'a': 1}", "X['b'] = 2;"), ("{'a': 1}", "X['a'] *= 2;"), ("Box(1)", "X.v = 2;"), ("Box(1)", "X.v += 2;"), ("Box([1])", "X.v[0] = 2;")]:
        for cx in ["%s", "{ %s }", "def f() { %s } f();", "def f() { def g() { %s } g(); } f();"]:
            e = "print(X.v);" if "Box" in v else "print(X.len()); print(X[%s]);" % ("'a'" if "{" in v else "0")
            yield "contents:%s:%s:%s" % (v, at, cx), "class Box { init(var v) {} } const X = %s; %s %s" % (v, cx % at, e)
            yield "contentsl:%s:%s:%s" % (v, at, cx), "class Box { init(var v) {} } def run() { const X = %s; %s %s } run();" % (v, cx % at, e)
    # class members next to constants, subclass and instance members of the same name
    for at in ["k.X = 2;", "L.X = 2;", "K.Y = 5;", "k.Y = 5;", "K.Q = 4;", "k.X += 1;", "var X = 3; X = 4;"]:
        yield "classlegal:" + at, "class K { const X = 1; var Y = 2; } class L < K {} var k = K(); %s print(K.X); print(K().X); print(k.X); print(K.Y); print(L.X);" % at
    # names resembling the constant
    for n in ["Xx", "xX", "x", "_X", "X_", "X1", "XX"]:
        for at in ["%s = 2;", "%s += 2;"]:
            for p in ("%s", "def f() { %s } f();", "{ %s }"):
                yield "resemble:%s:%s:%s" % (n, at, p), "const X = 1; var %s = 5; %s print(%s); print(X);" % (n, p % (at % n), n)
                yield "resemblel:%s:%s:%s" % (n, at, p), "def run() { const X = 1; var %s = 5; %s print(%s); print(X); } run();" % (n, p % (at % n), n)


def legal(sh, item):
    mc.diff_programs(sh, mc.worker(EXE), item)


c.explore("legal", legal, mc.chunks(legal_items(), 150))

# ---------------------------------------------------------------- every mix of constant and assignable variables, each assigned from each depth
def mix_items():
    names = "abcd"
    for n in range(1, 5):
        for kinds in it.product(("var", "const"), repeat=n):
            for target in range(n):
                for depth in range(0, 4):
                    for order in it.permutations(range(n)) if n <= 3 or not c.quick else [tuple(range(n)), tuple(reversed(range(n)))]:
                        decl = " ".join("%s %s = %d;" % (k, names[i], i + 1) for i, k in enumerate(kinds))
                        reads = "print([%s]);" % ", ".join(names[i] for i in order)
                        asg = "%s = 50; %s" % (names[target], reads)
                        body = reads + " " + asg
                        for i in range(depth):
                            body = "def f%d() { %s } f%d();" % (i, body, i)
                        key = "mix:%s:%d:%d:%s" % (",".join(kinds), target, depth, order)
                        leg = kinds[target] == "var"
                        yield leg, key, "def run() { %s %s } run();" % (decl, body)
                        yield leg, "g" + key, "%s %s" % (decl, body)
                        if depth:
                            # the intermediate functions capture other variables first
                            b2 = asg
                            for i in range(depth):
                                b2 = "def f%d() { print(%s); %s } f%d();" % (i, names[order[i % n]], b2, i)
                            yield leg, "i" + key, "def run() { %s %s } run();" % (decl, b2)


def mix(sh, item):
    w = mc.worker(EXE)
    mc.diff_programs(sh, w, [(k, s) for l, k, s in item if l], batch_ok=20)
    for l, k, s in item:
        if not l:
            judge_illegal(sh, w, k, s)


c.explore("mix", mix, mc.chunks(mix_items(), 300))
c.bounds = dict(declarations=len(DECL), attempts=len(ATTEMPT), contexts=len(CTX), mix_variables=4, mix_depth=3)
c.finish()

"""P03: closures and scope, by enumeration of all small scope trees against the reference interpreter."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

c = mc.Check("P03", rule="a program per tree of declarations, captures, reads, writes, blocks, loops and functions; non-trivial = a distinct (status, trace) of the reference")
EXE = c.build("plain")

LEAF = ["var x = %d;", "x += %d;", "print(x);", "fs.push(def () => x);", "fs.push(def () => { x += 100; return x; });", "print(fs[fs.len() - 1]());", "print(fs[0]());"]
COMP = ["{ %s }", "def g%d() { %s } g%d();", "fs.push(def () => { %s return 'r'; });", "for (var i = 0; i < 2; i += 1) { %s }", "def g%d(x) { %s } g%d(7);", "while { %s break; }"]


def forests(n, depth):
    """all forests with exactly n nodes (leaf indices 0.., compound (kind, forest))"""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for head in trees(first, depth):
            for rest in forests(n - first, depth):
                yield (head,) + rest


def trees(n, depth):
    if n == 1:
        for i in range(len(LEAF)):
            yield i
    elif depth > 0:
        for k in range(len(COMP)):
            for f in forests(n - 1, depth - 1):
                yield (k, f)


def text(f, ctr):
    out = []
    for t in f:
        ctr[0] += 1
        n = ctr[0]
        if isinstance(t, int):
            s = LEAF[t]
            out.append(s % n if "%d" in s else s)
        else:
            s = COMP[t[0]]
            inner = text(t[1], ctr)
            out.append(s.replace("%d", str(n)).replace("%s", inner))
    return " ".join(out)


TAIL = "for (var q = 0; q < fs.len(); q += 1) { print(fs[q]()); } for (var q = 0; q < fs.len(); q += 1) { print(fs[q]()); }"


def tree_items(n, depth, where):
    for f in forests(n, depth):
        b = text(f, [0])
        # a program that never captures or nests says nothing about closures
        if "def" not in b and "{" not in b:
            continue
        if "fn" in where:
            yield "fn:" + b, "var fs = []; def run() { var x = 1; %s print(x); } run(); %s" % (b, TAIL)
        if "param" in where:
            yield "param:" + b, "var fs = []; def run(y, x) { { %s } print(x); } run(5, 1); %s" % (b, TAIL)
        if "top" in where:
            yield "top:" + b, "var fs = []; var x = 1; %s print(x); %s" % (b, TAIL)
        if "block" in where:
            yield "block:" + b, "var fs = []; { var x = 1; { %s } print(x); } %s" % (b, TAIL)


def part(sh, item):
    mc.diff_programs(sh, mc.worker(EXE), item, skip_budget=True, steps=30000)


for n, d, where in ([(1, 1, "fn param top block"), (2, 2, "fn param top block"), (3, 3, "fn param top block"), (4, 3, "fn")] if c.quick else
                    [(1, 1, "fn param top block"), (2, 2, "fn param top block"), (3, 3, "fn param top block"), (4, 3, "fn param top block")]):
    c.explore("trees%d" % n, part, mc.chunks(tree_items(n, d, where.split()), 1000))
if not c.quick:
    LEAF = LEAF[:1] + LEAF[2:6]
    COMP = [COMP[0], COMP[1], COMP[2], COMP[3]]
    c.explore("trees5", part, mc.chunks(tree_items(5, 3, ["fn"]), 2000))


# ---------------------------------------------------------------- capture order over several variables and partial scope exits
def order_items():
    names = "abcd"
    for perm in it.permutations(range(4)):
        for close in it.product((0, 1), repeat=3):       # a block opens before the i+1-th variable
            for writer in range(4):
                for late in (0, 1):
                    b = "var a = 1; "
                    opened = 0
                    for i in range(1, 4):
                        if close[i - 1]:
                            b += "{ "
                            opened += 1
                        b += "var %s = %d; " % (names[i], i + 1)
                    for v in perm:
                        b += "fs.push(def () => ['%s', %s]); " % (names[v], names[v])
                    b += "fs.push(def () => { %s += 10; return %s; }); " % (names[writer], names[writer])
                    b += "fs.push(def () => { %s *= 2; return [%s]; }); " % (names[perm[0]], ", ".join(names[v] for v in perm))
                    if late:
                        b += "%s = %s + 5; " % (names[perm[0]], names[perm[1]])
                    b += "} " * opened + "var e = 50; var f = 60; a += 3; fs.push(def () => [a, e, f]); "
                    yield "order:%s:%s:%d:%d" % (perm, close, writer, late), "var fs = []; def run() { %s print([a, e, f]); } run(); print('--'); %s" % (b, TAIL)
                    yield "orderblock:%s:%s:%d:%d" % (perm, close, writer, late), "var fs = []; { %s print([a, e, f]); } %s" % (b, TAIL)
    # reading order inside one closure, with subsets, decides the upvalue indices
    for r in range(1, 5):
        for sub in it.permutations(range(4), r):
            for sub2 in it.permutations(range(4), 2):
                b = "var a = 1; var b = 2; var c = 3; var d = 4; "
                e1 = ", ".join(names[v] for v in sub)
                e2 = ", ".join(names[v] for v in sub2)
                yield "idx:%s:%s" % (sub, sub2), ("var fs = []; def run() { %s fs.push(def () => { def in() { %s += 7; return [%s]; } return [in(), %s]; }); fs.push(def () => [%s]); %s += 20; } run(); %s" %
                                                  (b, names[sub[0]], e1, e2, e2, names[sub2[1]], TAIL))


c.explore("order", part, mc.chunks(order_items(), 300))


# ---------------------------------------------------------------- capture through intermediate functions
def depth_items():
    for depth in range(1, 6):
        for own in it.product((0, 1, 2), repeat=depth):      # 0: nothing, 1: reads x itself, 2: shadows x
            for kind in range(3):
                open_, close = "", ""
                for i, o in enumerate(own):
                    extra = {0: "", 1: "x += 1; ", 2: "var x = %d; " % (100 * (i + 1))}[o]
                    if kind == 0:
                        open_ += "def f%d() { %s" % (i, extra)
                        close = " print(x); return f%d; }" % (i + 1) + close if i < depth - 1 else " x += 1; print(x); }" + close
                    elif kind == 1:
                        open_ += "return def () => { %s" % extra
                        close = " };" + close
                    else:
                        open_ += "class K%d { m() { %s" % (i, extra)
                        close = (" return K%d; " % (i + 1) if i < depth - 1 else " x += 1; return x; ") + "} }" + close
                if kind == 0:
                    prog = "def run() { var y = 0; var x = 1; %s%s print(x); return f0; } var f = run();" % (open_, close)
                    prog += " f = f();" * (depth - 1) + " f(); f();"
                elif kind == 1:
                    prog = "def run() { var y = 0; var x = 1; %s x += 1; print(x); return x;%s } var f = run();" % (open_, close)
                    prog += " f = f();" * (depth - 1) + " print(f()); print(f());"
                else:
                    prog = "def run() { var y = 0; var x = 1; %s%s return K0; } var k = run();" % (open_, close)
                    prog += " k = k().m();" * (depth - 1) + " print(k().m()); print(k().m());"
                yield "depth:%s:%d" % (own, kind), prog
    # recursion: every activation has its own variables
    for n in range(0, 7):
        for order in ("fs.push(def () => [n, x]); if (n > 0) { rec(n - 1); } x += 1;", "if (n > 0) { rec(n - 1); } fs.push(def () => [n, x]); x += 1;", "fs.push(def () => [n, x]); x += 1; if (n > 0) { return rec(n - 1); }",
                      "for (var i = 0; i < 2; i += 1) { fs.push(def () => [n, i, x]); if (n > 0) { rec(n - 2); } x += 1; }"):
            yield "rec:%d:%s" % (n, order), "var fs = []; def rec(n) { var x = n * 10; %s } rec(%d); %s" % (order, n, TAIL)
            yield "reclocal:%d:%s" % (n, order), "var fs = []; def run() { def rec(n) { var x = n * 10; %s } rec(%d); } run(); %s" % (order, n, TAIL)
    # names: every pair of declaration forms of the same name in nested scopes, used from inside
    decls = ["var x = {0};", "const x = {0};", "def x() {{ return {0}; }}", "class x {{ init() {{ this.v = {0}; }} }}", "enum x {{ A = {0} }}", "var [x, y] = [{0}, 0];"]
    uses = ["print(x);", "print(x == nil);", "print(x());", "print(x.A);", "print(x().v);", "def u() { return x; } print(u() == x);", "x = 9; print(x);"]
    for d1, d2, u, where in it.product(decls, decls, uses, range(4)):
        if "print(x);" in u and ("def x" in d1 + d2 or "class" in d1 + d2 or "enum" in d1 + d2):
            continue
        a, b = d1.format(1), d2.format(2)
        p = ["%s { %s %s } %s" % (a, b, u, u), "%s def f() { %s %s } f(); %s" % (a, b, u, u), "def f() { %s { %s %s } %s } f();" % (a, b, u, u), "def f() { %s def g() { %s %s } g(); %s } f();" % (a, b, u, u)][where]
        yield "names:%d:%s:%s:%s" % (where, d1, d2, u), p
    # parameters and defaults referring to outer and earlier names
    for sig, call in it.product(["x", "y=x", "x=x", "x=5", "y, x=y", "...x", "x, y=x"], ["", "3", "3, 4"]):
        for body in ["return x;", "x += 1; return x;", "var g = def () => x; x = 8; return g();", "{ var x = 6; } return x;", "def g(x) { return x; } return [g(2), x];"]:
            yield "params:%s:%s:%s" % (sig, call, body), "var x = 1; def f(%s) { %s } print(f(%s)); print(x);" % (sig, body, call)
            yield "paramsl:%s:%s:%s" % (sig, call, body), "def run() { var x = 1; def f(%s) { %s } print(f(%s)); print(x); } run();" % (sig, body, call)
    # many captured variables in one closure: every count up to the limit
    for n in list(range(1, 60)) + [100, 127, 128, 200, 249]:
        vs = "".join("var v%d = %d; " % (i, i % 7) for i in range(n))
        yield "many:%d" % n, "def run() { %s var f = def () => { v0 += 1; return [%s]; }; v%d = 77; return f; } var f = run(); print(f()); print(f());" % (vs, ", ".join("v%d" % i for i in range(min(n, 120) - 1, -1, -1)), n - 1)


c.explore("depth", part, mc.chunks(depth_items(), 200))

# ---------------------------------------------------------------- which variables of which level, in which order
VARS = {"a0": 0, "a1": 0, "a2": 0, "b0": 1, "b1": 1, "b2": 1, "c0": 2, "c1": 2, "c2": 2}


def level_items(deep):
    """functions inside of one another: the middle ones use some outer variables first, the innermost a sequence of variables of all of them"""
    outer = ["a0", "a1", "a2"]
    for r in range(0, 4 if deep else 3):
        for first in it.permutations(outer, r):
            u1 = "".join("%s += 10; " % v for v in first)
            # two levels below the one that declares
            for n in range(1, 6 if deep else 4):
                for ops in it.permutations(outer + ["b0", "b1", "b2"], n):
                    u2 = "".join("%s += %d; " % (v, 100 * (i + 1)) for i, v in enumerate(ops))
                    key = "levels:%s:%s" % (first, ops)
                    decl0, decl1 = "var a0 = 1; var a1 = 2; var a2 = 3; ", "var b0 = 4; var b1 = 5; var b2 = 6; "
                    A, Bv = "print([a0, a1, a2]); ", "print([b0, b1, b2]); "
                    yield key, "def f0() { %sdef f1() { %s%sdef f2() { %sreturn [%s]; } print(f2()); %s} f1(); f1(); %s} f0(); f0();" % (decl0, decl1, u1, u2, ", ".join(ops), Bv, A)
                    yield key + ":late", "def f0() { %sdef f1() { %sdef f2() { %sreturn [%s]; } %sprint(f2()); %sreturn f2; } var g = f1(); var h = f1(); print(g()); print(h()); %sreturn [g, h]; } var r = f0(); print(r[0]()); print(r[1]()); print(r[0]());" % (decl0, decl1, u2, ", ".join(ops), u1, Bv, A)
                    yield key + ":this", "class C { init() { this.v = 7; } m() { %sconst k = def (b0, b1, b2) => { %sthis.v += 1; const f2 = def () => { this.v += 1000; %sreturn [this.v, %s]; }; print(f2()); %sreturn f2; }; const g = k(4, 5, 6); print(g()); %sreturn g; } } const c = C(); const g = c.m(); print(g()); print(c.v); const h = C().m(); print(h()); print(g());" % (decl0, u1, u2, ", ".join(ops), Bv, A)
    # three levels below: what the two functions in between capture, and in which order
    mids = ["a0", "a1", "b0", "b1"]
    for r in (0, 1):
        for first in it.permutations(["a0", "a1"], r):
            for s in range(0, 3):
                for second in it.permutations(mids, s):
                    for ops in it.permutations(mids + ["c0", "c1"], 3 if deep else 2):
                        u1 = "".join("%s += 10; " % v for v in first)
                        u2 = "".join("%s += 100; " % v for v in second)
                        u3 = "".join("%s += %d; " % (v, 1000 * (i + 1)) for i, v in enumerate(ops))
                        yield "levels3:%s:%s:%s" % (first, second, ops), "def f0() { var a0 = 1; var a1 = 2; def f1() { var b0 = 3; var b1 = 4; %sdef f2() { var c0 = 5; var c1 = 6; %sdef f3() { %sreturn [%s]; } print(f3()); print([c0, c1]); return f3; } const g = f2(); print(g()); print([b0, b1]); return g; } const g = f1(); print(g()); print([a0, a1]); return g; } const g = f0(); print(g()); print(g());" % (u1, u2, u3, ", ".join(ops))


c.explore("levels", part, mc.chunks(level_items(not c.quick), 300))

# ---------------------------------------------------------------- leaving a loop body early, with captured and other variables in any order
LOOPS = {"for": "for (var i = 0; i < 3; i += 1) { %s }", "while": "var i = 0 - 1; while (i < 2) { i += 1; %s }", "forever": "var i = 0 - 1; while { i += 1; if (i == 3) { break; } %s }", "nested": "for (var j = 0; j < 2; j += 1) { var o = j; fs.push(def () => { o += 1; return o; }); for (var i = 0; i < 3; i += 1) { %s } var p = 5; fs.push(def () => [o, p]); }"}


def exit_items(deep):
    for n in range(1, 5 if deep else 4):
        for body in it.product("uc{", repeat=n):
            if body[-1] == "{":
                continue
            b = ""
            for k, e in enumerate(body):
                b += "{ " if e == "{" else "var v%d = i * 10 + %d; " % (k, k) + ("fs.push(def () => { v%d += 100; return v%d; }); " % (k, k) if e == "c" else "")
            for ex in ("continue;", "break;", "return 'r';"):
                for cond in ("if (i == 1) { %s }", "if (i != 1) { %s } else { fs.push(def () => i); }", "{ %s }", "if (i == 0) { %s } if (i == 1) { %s }"):
                    for pre in ("", "var w = i; ", "var w = i; fs.push(def () => { w += 7; return w; }); ", "var w = i; fs.push(def () => w); var y = 4; "):
                        leave = cond.replace("%s", pre + ex)
                        full = b + leave + " var tail = 'tail'; fs.push(def () => [tail, i]); " + "} " * body.count("{")
                        for name, loop in LOOPS.items():
                            if not deep and name == "forever" and n > 2:
                                continue
                            yield "exit:%s:%s:%s:%s:%s" % (name, "".join(body), ex, cond, pre), "var fs = []; def run() { var before = 'b'; %s var z1 = 'z1'; var z2 = 'z2'; var z3 = 'z3'; print([before, z1, z2, z3]); } print(run()); %s" % (loop % full, TAIL)


c.explore("exits", part, mc.chunks(exit_items(not c.quick), 300))
c.bounds = dict(nodes=c.pick(4, 5), depth=3, capture_depth=5, variables=4)
c.finish()

"""P06: classes, by enumeration of hierarchies x member kinds per level x access routes against the reference interpreter."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P06", rule="a program per (hierarchy, member placement, access route); non-trivial = a distinct (status, output) of the reference")
EXE = c.build("plain")


def part(sh, item):
    mc.diff_programs(sh, mc.worker(EXE), item)


MEM = {"-": "", "m": "m(...a) { return ['%s', 'm', a, this.toString()]; }", "p": "private m(...a) { return ['%s', 'p', a]; }", "s": "static m(...a) { return ['%s', 's', a]; }",
       "v": "var m = ['%s', 'v'];", "c": "const m = ['%s', 'c'];", "f": "var m = def (...a) => ['%s', 'f', a];",
       "T": "use T%s;", "o": "m(x=1, y=2) { return ['%s', 'o', x, y]; }", "u": "m(...a) { return ['%s', 'u', super.m(...a)]; }"}
ROUTES_OUT = ["print(i.m(1, 2));", "print(i.m());", "print(i.m);", "var b = i.m; print(b(3));", "print((i.m)(4));", "print(C.m(5));", "print(C.m);", "print(B.m);", "print(B.m(7));", "print(A.m); print(B().m(6)); print(A().m(5));",
              "print(i.hasAttribute('m')); print(A().hasAttribute('m')); print(B().hasAttribute('m'));", "print(i.getAttribute('m', 'none') == nil); var g = i.getAttribute('m', 'none'); print(g == 'none' ? 'none' : type(g));",
              "i.m = 'set'; print(i.m); print(C().m == 'set');", "i.m = def (...a) => ['fld', a]; print(i.m(8)); print((i.m)(9));",
              "C.m = 'cls'; print(C.m); print(i.m); print(B.m);", "A.m = 'acls'; print(A.m); print(C.m); print(i.m);", "print(i?.m(1)); print(i?.m);", "print(i.m(...[1, 2, 3]));", "var l = [i]; print(l[0].m(1));", "i.setAttribute('m', 'sa'); print(i.m);"]
ROUTES_IN = ["this.m(1)", "this.m", "(this.m)(2)", "super.m(3)", "super.m", "(super.m)(4)", "C.m(5)", "C.m", "A.m(6)", "(def () => this.m(7))()", "(def () => super.m(8))()", "this.m(...[1, 2])", "super.m(...[1, 2])", "[this.m, 1][0]", "other.m(9)"]


def cls(n, sup, kind, extra=""):
    body = MEM[kind]
    if "%s" in body:
        body = body % n
    return "class %s%s { %s %s }" % (n, " < " + sup if sup else "", extra, body)


def hier():
    kinds = ["-", "m", "p", "s", "v", "c", "f", "T", "o", "u"]
    pre = "".join("trait T%s { m(...a) { return ['T%s', a, this.toString()]; } }\n" % (n, n) for n in "ABC")
    for ks in it.product(kinds, repeat=3):
        if ks[0] == "u":
            continue
        if c.quick and sum(k in "ovf" for k in ks) > 1:
            continue
        base = pre + cls("A", "", ks[0]) + "\n" + cls("B", "A", ks[1]) + "\n"
        for ri, r in enumerate(ROUTES_OUT):
            yield "out:%s:%d" % ("".join(ks), ri), base + cls("C", "B", ks[2]) + "\nvar i = C();\n" + r
        for ri, r in enumerate(ROUTES_IN):
            for lvl in range(3):
                if lvl == 0 and "super" in r:
                    continue
                ex = "go(other) { var loc = 1; var r = %s; print(loc); return r; }" % r
                src = pre + "".join(cls("ABC"[j], " AB"[j].strip(), ks[j], ex if j == lvl else "") + "\n" for j in range(3))
                for who in ("C",) if c.quick and lvl != 1 else ("C", "B") if lvl < 2 else ("C",):
                    yield "in:%s:%d:%d:%s" % ("".join(ks), ri, lvl, who), src + "var i = %s();\nprint(i.go(C()));" % who


c.explore("hierarchies", part, mc.chunks(hier(), 400))


# ---------------------------------------------------------------- traits and abstract classes
def traits():
    tr = {"1": "trait T1 { m() { return 'T1m'; } n() { return 'T1n' + this.m(); } static st() { return 'T1s'; } }", "2": "trait T2 { m() { return 'T2m'; } k() { return 'T2k'; } }",
          "3": "trait T3 { init() { this.x = 'T3x'; } m() { return 'T3m' + this.x; } private pv() { return 'T3p'; } callpv() { return this.pv(); } }"}
    calls = ["i.m()", "i.n()", "i.k()", "i.st()", "C.st()", "i.x", "i.pv()", "i.callpv()", "i.own()"]
    mems = ["m() { return 'Cm'; }", "use T1;", "use T2;", "use T3;", "use T1, T2;", "use T2, T1;", "init() { this.x = 'Cx'; }", "own() { return this.m() + 'own'; }"]
    sups = ["", "class B { m() { return 'Bm'; } k() { return 'Bk'; } init() { this.x = 'Bx'; } }", "class B { use T1; }", "class B { use T2; m() { return 'Bm'; } }"]
    for s in sups:
        for n in range(0, 4 if c.quick else 5):
            for ms in it.permutations(mems, n):
                src = "\n".join(tr.values()) + "\n" + s + "\nclass C%s { %s }\nvar i = C();\n" % (" < B" if s else "", " ".join(ms))
                if n < 3 or not c.quick:
                    for call in calls:
                        yield "trait:%s:%s:%s" % (sups.index(s), ms, call), src + "print(%s);" % call
                else:
                    yield "trait:%s:%s" % (sups.index(s), ms), src + "".join("print(%s); " % x for x in ("i.m()", "i.k()", "i.n()") if ("T1" in str(ms) or "T1" in s or x == "i.m()" or (x == "i.k()" and ("T2" in str(ms)))) and x != "i.n()" or (x == "i.n()" and "T1" in str(ms) + s) or (x == "i.m()"))
    # misuse
    for bad in ["trait T { }  print(T());", "trait T { } class C < T { }", "class X { } class C { use X; }", "class C { use Nope; }", "var T = 5; class C { use T; }", "abstract class X { } class C { use X; }", "trait T { m() { return 1; } } trait U { use T; n() { return this.m() + 1; } } class C { use U; } print(C().n());",
                "trait T { m() { return super.m(); } } class B { m() { return 1; } } class C < B { use T; } print(C().m());", "use T;", "trait T { var x = 5; const y = 6; } class C { use T; } print(C().x);", "trait T { var x = 5; } print(T.x);", "trait T { static s() { return 5; } } print(T.s());",
                "def f() { trait T { m() { return 7; } } class C { use T; } return C(); } print(f().m());", "class C { use T; } trait T { m() { } }", "def f(t) { class C { use t; } return C(); } trait T1 { m() { return 1; } } trait T2 { m() { return 2; } } print(f(T1).m()); print(f(T2).m()); print(f(5));",
                "trait T { init(var a, private b=3) { } sum() { return this.a + this.b; } } class C { use T; } print(C(4).a); print(C(4).sum());"]:
        yield "traitmis:" + bad, "print('s'); " + bad + " print('e');"


c.explore("traits", part, mc.chunks(traits(), 400))


def abstracts():
    ab = ["", "abstract x()", "abstract y(a)", "abstract x() abstract y(a)"]
    im = ["", "x() { return '%sx'; }", "y(a) { return '%sy' + a; }", "x() { return '%sx'; } y(a) { return '%sy' + a; }", "static x() { return '%sx'; }", "var x = 5;", "private x() { return '%sx'; }", "z() { return this.x() + this.y('z'); }", "use T;"]
    f = lambda s, n: s.replace("%s", n)
    t = "trait T { x() { return 'Tx'; } y(a) { return 'Ty' + a; } }\n"
    kinds = ["", "abstract "]
    for a0, i0, k1, a1, i1 in it.product(ab, im, kinds, ab, im):
        if a1 and not k1:
            continue
        if c.quick and a1 and a0:
            continue
        if "private" in i0 or ("private" in i1 and k1):
            if a0 or a1:
                continue
        for i2 in im if not c.quick else im[:5] + im[7:]:
            src = t + "abstract class A { %s %s }\n%sclass B < A { %s %s }\nprint('B');\nclass C < B { %s }\nprint('C');\n" % (a0, f(i0, "A"), k1, a1, f(i1, "B"), f(i2, "C"))
            key = "abs:%s|%s|%s|%s|%s|%s" % (a0, i0, k1, a1, i1, i2)
            yield key, src + "var i = C(); print(i.isInstance(A)); %s print('made');" % ("print(i.x());" if "x()" in i0 + i1 + i2 + a0 + a1 else "")
            if i2 in ("", im[3]):
                yield key + ":y", src + "var i = C(); print(i.y('q')); print(i.z());"
                yield key + ":B", src + "var i = B(); print('madeB'); print(i.x());"
                yield key + ":A", src + "var i = A(); print('madeA');"
    for bad in ["class C { abstract x() }", "abstract class A { abstract x() { return 1; } }", "abstract class A { abstract x() } class C < A { x; }", "abstract class A { abstract static x() }", "abstract class A { init() { this.v = 1; } get() { return this.v; } } class C < A { } print(C().get());",
                "abstract class A { static s() { return 4; } } print(A.s());", "abstract class A { var q = 5; } print(A.q); A.q = 6; print(A.q);", "abstract class A { abstract x() } A.x();", "abstract class A { abstract x() y() { return this.x(); } } class B < A { x() { return 'bx'; } } print(B().y()); class C < B { x() { return super.x() + 'c'; } } print(C().y());",
                "abstract class A { abstract x() } class B < A { x() { return super.x(); } } print(B().x());", "abstract class A { private x() { } }", "abstract class A { private v; }", "def f() { abstract class A { abstract x() } class B < A { x() { return 3; } } return B(); } print(f().x());",
                "def f() { abstract class A { abstract x() } class B < A { } return B(); } print('q'); print(f());"]:
        yield "absmis:" + bad, "print('s'); " + bad + " print('e');"


c.explore("abstract", part, mc.chunks(abstracts(), 400))


# ---------------------------------------------------------------- privacy
def privacy():
    decl = {"field": "private v; init() { this.v = 5; }", "late": "init() { this.v = 5; } private v;", "param": "init(private v=5) { }", "method": "private v() { return 5; }", "sm": "private static v() { return 5; }", "pub": "init() { this.v = 5; }", "both": "private v; init() { this.v = 5; } setpub() { this.w = this.v; }",
            "two": "private v; private w; init() { this.w = 6; this.v = 5; }", "shadow": "private v; init() { this.v = 5; } v() { return 'm'; }"}
    inner = ["this.v", "this.v()", "K.v", "K.v()", "o.v", "o.v()", "(this).v", "(def () => this.v)()", "(def () => { return def () => this.v; })()()", "[this.v][0]", "this.v + 1", "this.v == 5 ? this.v : 0", "this?.v", "self.v"]
    outer = ["i.v", "i.v()", "K.v", "K.v()", "i?.v", "i.hasAttribute('v')", "i.getAttribute('v', 'no')", "i.inner()", "[i][0].v", "(i.v)()"]
    writes = ["i.v = 9; print(i.v);", "i.set(9); print(i.inner());", "i.add(2); print(i.inner());", "i.v = 9; print(i.inner());", "i.setAttribute('v', 8); print(i.v); print(i.inner());", "i.v += 1;"]
    subs = ["", " class S < K { sub() { return this.v; } }", " class S < K { private v; sub() { this.v = 7; return this.v; } }", " class S < K { init() { super.init(); this.v = 8; } sub() { return this.v; } }"]
    for dk, d in decl.items():
        for r in inner:
            src = "class K { %s inner() { var self = this; var o = K(); return %s; } set(x) { this.v = x; } add(x) { this.v += x; } }" % (d, r)
            yield "priv:%s:%s" % (dk, r), src + " var i = K(); print(i.inner());"
            for s in subs[1:]:
                yield "privs:%s:%s:%d" % (dk, r, subs.index(s)), src + s + " var i = S(); print(i.inner()); print(i.sub()); print(i.inner());"
        src = "class K { %s inner() { return this.v; } set(x) { this.v = x; } add(x) { this.v += x; } mul(x) { this.v *= x; this.v -= 1; this.v /= 2; this.v |= 1; this.v &= 7; this.v ^= 2; return this.v; } }" % d
        for r in outer:
            for s in subs:
                yield "privo:%s:%s:%d" % (dk, r, subs.index(s)), src + s + " var i = %s(); print(%s);" % ("S" if s else "K", r)
        for w in writes + ["print(i.mul(6));"]:
            for s in subs:
                yield "privw:%s:%s:%d" % (dk, w, subs.index(s)), src + s + " var i = %s(); " % ("S" if s else "K") + w
    # other classes around
    for r in ["this.v", "o.v", "o.inner()", "K.v"]:
        yield "privx:" + r, "class K { private v; init() { this.v = 1; } inner() { return this.v; } } class L { init() { this.v = 2; } go(o) { return %s; } } print(L().go(K()));" % r
        yield "privn:" + r, "class K { private v; init() { this.v = 1; } inner() { class L { init() { this.v = 2; } go(o) { return %s; } } return L(); } get() { return this.v; } } print(K().inner().go(K())); print(K().get());" % r
        yield "privn2:" + r, "class K { private v; init() { this.v = 1; } inner() { class L { private v; init() { this.v = 2; } go(o) { return %s; } } return L(); } get() { return this.v; } } print(K().inner().go(K())); print(K().get()); print(K().v);" % r


c.explore("privacy", part, mc.chunks(privacy(), 300))


# ---------------------------------------------------------------- super chains, this capture, class variables, dynamic classes
def dyn():
    # every subset of a depth-d chain overriding, each override calling super or not, called through each member of the chain
    d = c.pick(4, 5)
    for ks in it.product("-ms", repeat=d - 1):
        for k0 in "-m":
            ks2 = (k0,) + ks
            src = "".join("class K%d%s { %s }\n" % (j, " < K%d" % (j - 1) if j else "", {"-": "", "m": "m(x) { return ['m%d', x]; } init(x) { this.tag%d = x; }" % (j, j), "s": "m(x) { var r = super.m([x]); return ['s%d', r]; } init(x) { super.init(x + 1); this.tag%d = x; }" % (j, j)}[k]) for j, k in enumerate(ks2))
            for t in range(d):
                has = any(k != "-" for k in ks2[:t + 1])
                tags = " ".join("print(i.hasAttribute('tag%d') ? i.tag%d : 'none');" % (j, j) for j in range(d))
                yield "superchain:%s:%d" % ("".join(ks2), t), src + "var i = K%d(%s); print(i.m(7)); %s" % (t, "1" if has else "", tags)
    # isInstance and superclass identity: every forest on 4 classes
    for par in it.product(*[range(-1, j) for j in range(c.pick(4, 5))]):
        src = "".join("class K%d%s { }\n" % (j, " < K%d" % p if p >= 0 else "") for j, p in enumerate(par))
        n = len(par)
        yield "isinst:%s" % (par,), src + "var ks = [%s];\nfor (var a = 0; a < %d; a += 1) { for (var b = 0; b < %d; b += 1) { print(ks[a]().isInstance(ks[b])); } print(ks[a]()._class == ks[a]); print(ks[a]._name); }" % (", ".join("K%d" % j for j in range(n)), n, n)
    # this captured by functions in methods, at every nesting
    for k in ["this.x", "this", "this.get()", "(def () => this.x)()", "[this.x, this.get()]"]:
        for w in ["return def () => {0};", "var f = def () => {{ return {0}; }}; return f;", "def f() {{ def g() {{ return {0}; }} return g(); }} return f;", "return def (x=1) => {{ return [x, {0}]; }};", "var s = this; return def () => s.x;",
                  "class L {{ init() {{ this.x = 'inner'; }} go() {{ return {0}; }} get() {{ return 'iget'; }} }} var l = L(); return def () => [l.go(), {0}];"]:
            yield "capture:%s:%s" % (k, w), "class K { init(x) { this.x = x; } mk() { %s } get() { return 'get' + this.x; } toString() { return 'K!' + this.x; } } var f = K('1').mk(); var g = K('2').mk(); print(f()); print(g()); print(f());" % w.format(k)
    # class variables and constants across a hierarchy: every sequence of two writes through every holder, then all reads
    ws = ["A.v = %d;", "B.v = %d;", "C.v = %d;", "a.v = %d;", "b.v = %d;", "c.v = %d;", "c.v += %d;", "b.v += %d;", "A.v += %d;"]
    reads = " ".join("print(%s.v);" % x for x in "ABCabc")
    for dv in it.product(["", "var v = 1;", "const v = 2;"], repeat=3):
        for w in it.product(range(len(ws)), repeat=2):
            if not any(dv):
                continue
            yield "cv:%s:%s" % (dv, w), "class A { %s } class B < A { %s } class C < B { %s } var a = A(); var b = B(); var c = C(); %s %s" % (dv + (ws[w[0]] % 10 + " " + ws[w[1]] % 20, reads if dv[0] else "print(C.v); print(c.v);"))
    # class creation at run time
    for s in ["def mk(n) { class K { init() { this.n = n; } m() { return [n, this.n]; } } return K; } var K1 = mk(1); var K2 = mk(2); var i = K1(); print(i.m()); print(K2().m()); print(K1 == K2); print(i.isInstance(K1)); print(i.isInstance(K2));",
              "def mk(sup) { class K < sup { m() { return 'k' + super.m(); } } return K; } class A { m() { return 'a'; } } var B = mk(A); var C = mk(B); print(C().m()); print(C().isInstance(A)); print(B().isInstance(C));",
              "class A { m() { return 'a'; } } class K < [A, 5][0] { } print(K().m()); class L < [A, 5][1] { }", "class K < nil { }", "class K < 5 { }", "class K < K { }", "var A = 5; class K < A { }", "class A { } class K < A() { }", "class A { m() { return 1; } } class A { m() { return 2; } } print(A().m());",
              "class A { m() { return 1; } } var i = A(); class A { m() { return 2; } } print(i.m()); print(i.isInstance(A)); class B < A { } print(B().m());", "{ class A { m() { return 3; } } { class B < A { m() { return super.m() + 1; } } print(B().m()); } print(A().m()); }",
              "class A { m() { class B { m() { return 'inner'; } } return B().m(); } n() { return this.m() + 'n'; } } print(A().n());", "class P { m() { return 'p'; } } class A < P { m() { class B { m() { return 'inner'; } } return B().m() + super.m(); } } print(A().m());",
              "class P { m() { return 'p'; } } class Q { m() { return 'q'; } } class A < P { m() { class B < Q { m() { return 'b' + super.m(); } } return B().m() + super.m(); } n() { return super.m(); } } print(A().m()); print(A().n());",
              "class A { m() { return super.m(); } }", "super.m();", "this.x;", "print(this);", "def f() { return this; }", "class A { static s() { return this; } }", "class A { static s() { return super.s(); } }", "class A { static s() { def g() { return this; } return g(); } }", "class A { s() { } static t() { return 5; } u() { return this.s; } } print(A.t()); print(type(A().u()));",
              "class A { init() { return 5; } }", "class A { init() { return; } } print(type(A()));", "class A { init() { def f() { return 5; } this.x = f(); } } print(A().x);", "class A { init() { if (true) { return; } this.x = 1; } } print(A().hasAttribute('x'));", "class A { init(x) { this.x = x; } } var a = A(1); var b = a.init(2); print(a.x); print(a == b);",
              "class A { } A.x = 5; print(A.x); print(A().x);", "class A { } var a = A(); a.y = 1; a.z = [a.y]; a.y += 5; print(a.y); print(a.z); print(a.q);", "class A { } A().x;", "class A { } A.x;", "class A { } A.x();", "class A { } A().x();", "class A { m() { } } A.m();", "var a = 5; a.x = 1;", "nil.x;", "'s'.x;", "[1].x;", "class A { m() { return 1; } } A().m = 5; print(A().m());",
              "class A { m() { return 1; } } var a = A(); a.m = def () => 2; print(a.m()); print((a.m)());", "class A { init() { this.f = def (x) => x + 1; } } print(A().f(1)); print(A().f(1, 2));", "class A { init() { this.f = B; } } class B { init(x) { this.x = x; } } print(A().f(3).x);",
              "class A { toString() { return 'custom'; } } print(A().toString());", "class A { isInstance(x) { return 'over'; } } print(A().isInstance(A));", "class A { } print(A().isInstance(5));", "class A { } print(A().isInstance());", "class A { m(a) { return a; } } print(A().m());", "class A { m() { return A; } } print(A().m()().m() == A);",
              "class A { init(n) { this.n = n; if (n > 0) { this.c = A(n - 1); } } sum() { return this.n + (this.n > 0 ? this.c.sum() : 0); } } print(A(5).sum());", "class A { m() { return this; } v() { return 3; } } print(A().m().m().v());", "const A = 5; class A { } print(A);", "class A { } A = 5; print(A);",
              "class Outer { mk() { class In { init(var o) { } get() { return this.o; } } return In(this); } } var o = Outer(); print(o.mk().get() == o);", "class A { var x = [1]; } var a = A(); var b = A(); a.x.push(2); print(b.x); print(A.x);", "class A { var x = 1; m() { return this.x; } n() { return A.x; } set() { A.x = 9; this.x = 8; } } var a = A(); a.set(); print(a.m()); print(a.n()); print(A().m());",
              "class A { const X = 1; } A.X = 2;", "class A { const X = 1; m() { A.X = 2; } } A().m();", "class A { const X = 1; m() { this.X = 2; return this.X; } } print(A().m()); print(A.X);", "class A { const X = 1; } class B < A { var X = 2; } B.X = 3; print(B.X); print(A.X);", "class A { const X = 1; } class B < A { } B.X = 3; print(B.X); print(A.X);",
              "class A { var f = def () => 5; g() { return A.f; } } print(A.g); ", "class A { var f = def () => 5; g() { return A.f; } } print(A().g()());", "class A { var a = 1; var b = A; }", "var g = 2; class A { var a = g + 1; const b = [g]; m() { return [A.a, this.b]; } } print(A().m());"]:
        yield "dyn:" + s, "print('s'); " + s + " print('e');"
        if not s.startswith(("super", "this", "print(this", "const A")):
            yield "dynfn:" + s, "def main() { var q = 'q'; print('s'); " + s + " print(q); } main();"


c.explore("dynamic", part, mc.chunks(dyn(), 300))
# ---------------------------------------------------------------- where an attribute is looked up
def resolution():
    """One name, at every level of a chain of three classes and on the instance (publicly, privately), read, called and updated from everywhere."""
    kinds = {"-": "", "v": "var x = def (...a) => ['{0}v', a];", "n": "var x = {1};", "c": "const x = {1};", "m": "x(...a) {{ return ['{0}m', a]; }}", "p": "private x;", "q": "private x(...a) {{ return ['{0}q', a]; }}", "s": "static x(...a) {{ return ['{0}s', a]; }}"}
    acts = ["print(type(this.x));", "print(this.x());", "print(this.x(1, ...[2]));", "this.x += 5; print(this.x);", "this.x = 7; print(this.x);", "this.x = def (...a) => ['set', a]; print(this.x(1));", "print(this.hasAttribute('x'));",
            "this.x |= 8; print(this.x);", "print((this.x)(3));", "print(this?.x == nil);", "return def () => this.x;"]
    outs = ["print(type(i.x));", "print(i.x());", "i.x += 5; print(i.x);", "i.x = 7; print(i.x);", "i.x = def (...a) => ['out', a]; print(i.x(4));", "print(i.hasAttribute('x'));"]
    for ks in it.product(kinds, repeat=3):
        if c.quick and sum(k in "vqs" for k in ks) > 1:
            continue
        cl = ""
        for j, k in enumerate(ks):
            cl += "class %s%s { %s %s }\n" % ("ABC"[j], " < " + "ABC"[j - 1] if j else "", kinds[k].format("ABC"[j], 10 ** j), " ".join("%s%d() { %s }" % ("abc"[j], q, a) for q, a in enumerate(acts)))
        for first in [""] + ["i.%s4();" % l for l in "abc"] + ["i.%s5();" % l for l in "abc"] + ["i.x = 3;", "i.setAttribute('x', 4);"]:
            if c.quick and first in ("i.a4();", "i.a5();", "i.b5();", "i.setAttribute('x', 4);"):
                continue
            for q in range(len(acts)):
                if c.quick and q in (6, 7, 8, 9, 10) and first:
                    continue
                for l in "abc":
                    if q == 10:
                        yield "res:%s:%s:%s%d" % ("".join(ks), first, l, q), cl + "var i = C(); %s var f = i.%s%d(); print(type(f()));" % (first, l, q)
                    else:
                        yield "res:%s:%s:%s%d" % ("".join(ks), first, l, q), cl + "var i = C(); %s i.%s%d(); print(type(i.x));" % (first, l, q)
            for o in outs:
                yield "reso:%s:%s:%s" % ("".join(ks), first, o), cl + "var i = C(); %s %s i.c1();" % (first, o)


c.explore("resolution", part, mc.chunks(resolution(), 400))


# ---------------------------------------------------------------- a variable that hides the name of the class around it
def hidden():
    vals = ["[1, 2]", "'abc'", "{'a': 1}", "5", "nil", "true", "D()", "D", "K", "K()", "def (x=0) => x", "E"]
    calls = ["K.push(3)", "K.len()", "K.get('a')", "K.toString()", "K.st()", "K.m(1)", "K.init()", "K.isInstance(D)", "K.B()", "K.nope()", "K.len(...[])", "K.push(...[4])", "K.x", "K(1)"]
    forms = ["m(%N) { return %C; } t() { return this.m(%V); }", "m() { var %N = %V; return %C; } t() { return this.m(); }", "m(%N=%V) { return %C; } t() { return this.m(); }", "m(%N) { return (def () => %C)(); } t() { return this.m(%V); }",
             "static m(%N) { return %C; } t() { return K.m(%V); }", "m(...%N) { return %C; } t() { return this.m(%V); }", "m() { for (var %N = %V; true; ) { return %C; } } t() { return this.m(); }"]
    for v, cc, f in it.product(vals, calls, forms):
        if "K" in v and ("var %N" in f or "%N=" in f):
            continue
        yield "hid:%s:%s:%d" % (v, cc, forms.index(f)), [
            "class D { st() { return 'dst'; } m(x) { return ['dm', x]; } static B() { return 'sb'; } } enum E { A, B = 5 } class K { st() { return 'kst'; } static B() { return 'kb'; } len() { return 'klen'; } "
            + f.replace("%C", cc.replace("K", n)).replace("%N", n).replace("%V", v) + " } var r = K().t(); print(type(r)); print(type(r) == 'function' ? 0 : r);" for n in ("K", "Hide")]


def hide(sh, items):
    w = mc.worker(EXE)
    for k, (a, b) in items:
        ra, rb = mc.run_confirm(w, srcs=a, flags=2), mc.run_confirm(w, srcs=b, flags=2)
        sh.evals += 2
        sh.transitions += 2
        sh.state((ra.rcs, ra.out))
        if ra.crash or rb.crash or (ra.rcs, ra.out) != (rb.rcs, rb.out):
            sh.violate(k, "%s\n    gives %r (%s), the same with another name %r (%s)\n    %s" % (a, ra.text[:300], ra.brief(), rb.text[:300], rb.brief(), b), program=a, renamed=b)


c.explore("hidden", hide, mc.chunks(hidden(), 100))
# ---- sizes: deep chains of classes, classes of many members, traits and obligations ----
def chain_srcs(d, own):
    """classes C0 .. Cd, each extending the one before; what is defined where follows from the number alone"""
    srcs = []
    for a in range(0, d + 1, 16):
        t = ""
        for i in range(a, min(d + 1, a + 16)):
            m = "m() { return %s'%d,'; } " % ("super.m() + " if i else "", i) if own or i % 5 == 0 else ""
            t += "%sclass C%d%s { %s%sown%d() { return %d + this.n; } static st%d() { return -%d; } var v%d = %d; const k%d = 'c%d'; %s%s}\n" % (
                "abstract " if 1 <= i < d else "", i, " < C%d" % (i - 1) if i else "", "init(n) { this.n = n; this.log = [%d]; } " % i if i == 0 else "init(n) { super.init(n); this.log.push(%d); } " % i if own or i % 4 == 1 else "",
                m, i, i, i, i, i, i, i, i, "abstract ab() " if i == 1 and d > 1 else "", "ab() { return 'done'; } " if i == d and d > 1 else "")
        srcs.append(t)
    return srcs


def chain_want(d, own):
    ms = [i for i in range(d + 1) if own or i % 5 == 0]
    inits = [i for i in range(d + 1) if own or i == 0 or i % 4 == 1]
    return ms, inits


def sizes(sh, item):
    w = mc.worker(EXE)
    for what, n, own in item:
        if what == "chain":
            srcs = chain_srcs(n, own)
            ms, inits = chain_want(n, own)
            tests = ["const o = C%d(1000); print(o.m()); print(o.log); print(%s);" % (n, "o.ab()" if n > 1 else "'done'")]
            want = "".join("%d," % i for i in ms) + "\n[%s]\ndone\n" % ", ".join(map(str, inits))
            for i in range(n + 1):
                tests.append("print([o.own%d(), o.v%d, C%d.v%d, C%d.k%d, C%d.st%d(), o.isInstance(C%d), C%d(1)%s]);" % (i, i, n, i, n, i, n, i, i, i if i != 1 and n > 1 or i == n else 0, ".own%d()" % (i if i != 1 and n > 1 and (i == 0 or i == n) else 0)) if i in (0, n) and n != 1
                             else "print([o.own%d(), o.v%d, C%d.v%d, C%d.k%d, C%d.st%d(), o.isInstance(C%d)]);" % (i, i, n, i, n, i, n, i, i))
                want += "[%d, %d, %d, \"c%d\", %s, true%s]\n" % (1000 + i, i, i, i, "-%d" % i, ", %d" % (i + 1) if i in (0, n) and n != 1 else "")
        else:
            ids = list(range(n))
            over = [i for i in ids if i % 3 == 0] if own else []
            if what == "methods":
                body, use, sub = lambda i, v: "m%d(x) { return [%d, x, this.me]; }" % (i, v), lambda i: "o.m%d(7)" % i, True
                res = lambda v: '[%d, 7, "I"]' % v
            elif what == "private":
                body, use, sub = lambda i, v: "private p%d(x) { return [%d, x, this.me]; } g%d() { return this.p%d(7); }" % (i, v, i, i), lambda i: "o.g%d()" % i, False
                res = lambda v: '[%d, 7, "I"]' % v
            elif what == "variables":
                body, use, sub = lambda i, v: "var v%d = %d;" % (i, v), lambda i: "[o.v%d, D.v%d]" % (i, i), True
                res = lambda v: "[%d, %d]" % (v, v)
            elif what == "constants":
                body, use, sub = lambda i, v: "const c%d = %d;" % (i, v), lambda i: "[o.c%d, D.c%d]" % (i, i), True
                res = lambda v: "[%d, %d]" % (v, v)
            elif what == "static":
                body, use, sub = lambda i, v: "static s%d() { return %d; }" % (i, v), lambda i: "D.s%d()" % i, True
                res = lambda v: "%d" % v
            elif what == "attributes":
                body, use, sub = lambda i, v: "this.a%d = %d;" % (i, v), lambda i: "o.a%d" % i, True
                res = lambda v: "%d" % v
            elif what == "privateattrs":
                body, use, sub = lambda i, v: "private a%d;" % i, lambda i: "o.get%d()" % i, False
                res = lambda v: "[%d, %d]" % (v, v + 1)
            elif what == "traits":
                body, use, sub = lambda i, v: "use T%d;" % i, lambda i: "o.t%d()" % i, False
                res = lambda v: '[%d, "I"]' % v
            over = over if sub else []
            names = "".join
            if what == "attributes":
                srcs = ["class B { init() { this.me = 'I'; %s } }" % names(body(i, i) for i in ids), "class D < B { init() { super.init(); %s } }" % names(body(i, 500 + i) for i in over)]
            elif what == "privateattrs":
                srcs = ["class D { %s init() { this.me = 'I'; %s } %s }" % (names(body(i, i) for i in ids), names("this.a%d = %d;" % (i, i) for i in ids), names("get%d() { const x = this.a%d; this.a%d = x + 1; return [x, this.a%d]; }" % (i, i, i, i) for i in ids))]
            elif what == "traits":
                srcs = ["".join("trait T%d { t%d() { return [%d, this.me]; } same() { return %d; } }" % (i, i, i, i) for i in ids[a:a + 30]) for a in range(0, n, 30)]
                srcs += ["class D { %s init() { this.me = 'I'; } }" % names(body(i, i) for i in ids)]
            elif what == "private":                                  # (private methods are not inherited)
                srcs = ["class D { init() { this.me = 'I'; } %s }" % names(body(i, i) for i in ids)]
            else:
                srcs = ["class B { init() { this.me = 'I'; } %s }" % names(body(i, i) for i in ids), "class D < B { %s }" % names(body(i, 500 + i) for i in over)]
            tests = ["const o = D();"] + ["print(%s);" % use(i) for i in ids] + (["print(o.same());"] if what == "traits" else [])
            want = "".join(res(500 + i if i in over else i) + "\n" for i in ids) + ("%d\n" % (n - 1) if what == "traits" else "")
        srcs += ["".join(tests[a:a + 20]) for a in range(0, len(tests), 20)]
        r = mc.run_confirm(w, srcs=[("case.du", x) for x in srcs])
        sh.evals += 1
        sh.transitions += len(tests)
        sh.state((what, n, own))
        if r.crash or r.rcs != ["0"] * len(srcs) or r.text != want:
            bad = [(x, y) for x, y in zip(r.text.split("\n"), want.split("\n")) if x != y][:1]
            sh.violate("sizes:%s:%d:%d" % (what, n, own), "%s\n  observed, expected: %r (%s)" % ("\n".join(srcs)[:1500], bad, r.brief()), files={"case%d.du" % i: x for i, x in enumerate(srcs)})


def owed(sh, item):
    """n abstract methods, all but one or two of them defined, directly or spread over a chain"""
    items = []
    for n in item:
        for miss in sorted({-1, 0, 1, n // 2, n - 2, n - 1}):
            if miss < -1 or miss >= n:
                continue
            for how in (0, 1, 2):
                k = [i for i in range(n) if i != miss]
                d = lambda l: "".join("m%d() { return %d; } " % (i, i) for i in l)
                base = "abstract class A { %s }" % "".join("abstract m%d() " % i for i in range(n))
                src = base + [" class D < A { %s }" % d(k), " abstract class M < A { %s } class D < M { %s }" % (d(k[::2]), d(k[1::2])), " trait T { %s } class D < A { use T; %s }" % (d(k[::2]), d(k[1::2]))][how]
                src += " const o = D(); print('made'); print([%s]);" % ", ".join("o.m%d()" % i for i in range(0, n, max(1, n // 5)))
                items.append(("owed:%d:%d:%d" % (n, miss, how), "{ " + src + " }", fails(out="") if miss >= 0 else "made\n[%s]\n" % ", ".join(str(i) for i in range(0, n, max(1, n // 5)))))
    mc.session(sh, mc.worker(EXE), items, flags=0)


NSZ = sorted(set(range(1, c.pick(20, 62))) | {31, 32, 33, 48, 49, 50, 60})
c.explore("sizes", sizes, mc.chunks([("chain", n, own) for n in sorted(set(range(1, c.pick(40, 130))) | {63, 64, 65, 100, 127, 128, 129, 200}) for own in (1, 0)] + [(k, n, own) for n in NSZ for k in ("methods", "private", "variables", "constants", "static", "attributes", "privateattrs", "traits") for own in (0, 1) if not (own and k in ("private", "privateattrs", "traits"))], 12))
c.explore("owed", owed, mc.chunks(range(1, c.pick(40, 60)), 6))
c.bounds = dict(levels=3, member_kinds=10, routes=len(ROUTES_OUT) + len(ROUTES_IN), super_chain=c.pick(4, 5), forests=c.pick(4, 5))
c.finish()

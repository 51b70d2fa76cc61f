"""P05: calls, by enumeration of signatures x callable kinds x argument lists x call contexts against the reference interpreter."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

c = mc.Check("P05", rule="a program per (signature, callable kind, argument list, call context); non-trivial = a distinct (status, bound parameters) of the reference")
EXE = c.build("plain")


def sigs(maxr, maxo):
    for r in range(maxr + 1):
        for o in range(maxo + 1):
            yield r, o, False
        yield r, 0, True


def params(r, o, v, style):
    ps = ["p%d" % i for i in range(r)]
    for i in range(o):
        prev = (ps[-1].split("=")[0] if ps else "5")
        d = {"const": "%d" % (90 + i), "prev": "[%s]" % prev, "call": "df(%d)" % i, "expr": "%d - 1 - 1" % (50 + i), "fn": "def () => %s" % prev, "glob": "gl"}[style]
        ps.append("o%d=%s" % (i, d))
    if v:
        ps.append("...rest")
    return ", ".join(ps)


def names(r, o, v):
    return ["p%d" % i for i in range(r)] + ["o%d" % i for i in range(o)] + (["rest"] if v else [])


def body(r, o, v, style):
    n = names(r, o, v)
    shown = [("%s == nil ? nil : %s" % (x, x)) if False else x for x in n]
    if style == "fn" and o:
        pre = "".join("if (type(%s) == 'function') { %s = %s(); } " % (x, x, x) for x in n if x.startswith("o"))
    else:
        pre = ""
    return "var l0 = 70; %s print([%s]); { var l1 = 71; l0 += l1; } return [%s];" % (pre, ", ".join(["'in'"] + shown), ", ".join(["l0"] + n))


def kind_table(ps, bd):
    """kind -> (definitions, callee expression)"""
    init_bd = bd.replace("return [", "this.got = [")
    tb = "print(this.toString()); " + bd        # a method also shows its receiver
    return {
        "fn": ("def f(%s) { %s }" % (ps, bd), "f"),
        "arrow": ("var f = def (%s) => { %s };" % (ps, bd), "f"),
        "direct": ("", "(def (%s) => { %s })" % (ps, bd)),
        "elem": ("var fl = [0, def (%s) => { %s }];" % (ps, bd), "fl[1]"),
        "dictv": ("var fd = {'k': def (%s) => { %s }};" % (ps, bd), "fd['k']"),
        "ret": ("def mk() { return def (%s) => { %s }; }" % (ps, bd), "mk()"),
        "method": ("class K { m(%s) { %s } } var k = K();" % (ps, tb), "k.m"),
        "methodnew": ("class K { m(%s) { %s } }" % (ps, tb), "K().m"),
        "bound": ("class K { m(%s) { %s } } var b = K().m;" % (ps, tb), "b"),
        "boundelem": ("class K { m(%s) { %s } } var b = [K().m];" % (ps, tb), "b[0]"),
        "field": ("class K { init() { this.f = def (%s) => { %s }; } } var k = K();" % (ps, bd), "k.f"),
        "fieldp": ("class K { init() { this.f = def (%s) => { %s }; } } var k = K();" % (ps, bd), "(k.f)"),
        "static": ("class K { static m(%s) { %s } }" % (ps, bd), "K.m"),
        "inherited": ("class B { m(%s) { %s } } class K < B { } var k = K();" % (ps, tb), "k.m"),
        "trait": ("trait T { m(%s) { %s } } class K { use T; } var k = K();" % (ps, tb), "k.m"),
        "chain": ("class K { m(%s) { %s } } var k = K();" % (ps, tb), "k?.m"),
        "init": ("class K { init(%s) { %s } }" % (ps, init_bd), "K"),
        "initinh": ("class B { init(%s) { %s } } class K < B { }" % (ps, init_bd), "K"),
        "enumfn": ("enum E { F = def (%s) => { %s } }" % (ps, bd), "E.F"),
        "private": ("class K { private m(%s) { %s } go(ARGS) { CALLPRIV } }" % (ps, tb), None),
        "this": ("class K { m(%s) { %s } }" % (ps, tb), None),
        "super": ("class B { m(%s) { %s } }" % (ps, tb), None),
        "supinit": ("class B { init(%s) { %s } }" % (ps, init_bd), None),
        "local": ("def f(%s) { %s }" % (ps, bd), "LOCAL"),
        "upvalue": ("def f(%s) { %s }" % (ps, bd), "UP"),
    }


def arglists(maxn):
    """all argument lists: n plain arguments, or m plain ones and an unpacked list of the rest"""
    for n in range(maxn + 1):
        yield ", ".join(str(10 + i) for i in range(n))
    for m in range(0, maxn + 1):
        for k in range(0, maxn + 1 - m):
            plain = [str(10 + i) for i in range(m)]
            yield ", ".join(plain + ["...[%s]" % ", ".join(str(10 + m + i) for i in range(k))])


def whole(kd, callee, kind, args):
    """-> (definitions, call expression)"""
    if kind == "private":
        return kd.replace("go(ARGS) { CALLPRIV }", "go() { return this.m(%s); }" % args), "K().go()"
    if kind == "this":
        return kd.replace("class K {", "class K { go() { var q = 3; var r = this.m(%s); print(q); return r; }" % args), "K().go()"
    if kind == "super":
        return kd + " class K < B { m() { return 'wrong'; } go() { var q = 3; var r = super.m(%s); print(q); return r; } }" % args, "K().go()"
    if kind == "supinit":
        return kd + " class K < B { init() { var q = 3; super.init(%s); print(q); } }" % args, "K()"
    if callee == "LOCAL":
        return "def go() { var q = 1; %s var w = 2; var r = f(%s); print([q, w]); return r; }" % (kd, args), "go()"
    if callee == "UP":
        return "def go() { var q = 1; %s def in() { var w = 2; var r = f(%s); print([q, w]); return r; } return in(); }" % (kd, args), "go()"
    return kd, "%s(%s)" % (callee, args)


CONTEXTS = ["print({0}{g});", "var a = 1; var r = {0}{g}; var b = 2; print([a, r, b]);", "print([1, {0}{g}, 2]);", "{0}; print('done');", "def z(x, y, z) {{ return [x, y, z]; }} print(z(7, {0}{g}, 8));",
            "{{ var a = 1; {{ var b = 2; print(['x', {0}{g}, a, b]); }} print(a); }}", "def h(u, v=6) {{ var w = 5; var r = {0}{g}; return [u, v, w, r]; }} print(h(1));",
            "for (var i = 0; i < 2; i += 1) {{ var j = i * 2; var r = {0}{g}; print([i, j, r]); }}", "def t() {{ return {0}{g}; }} print(t());", "print(({0}{g} == 1) + 'x' == nil);", "print({0}{g} == nil ? 1 : [2, 3]);",
            "print(z3(...[1, {0}{g}, 3]));"]
PRE = "var gl = 33; def df(x) { print('d' + x.toString()); return 40 + x; } def z3(a, b, c) { return [a, b, c]; }\n"


def items(maxr, maxo, maxn, styles, ctxs):
    for (r, o, v), st in it.product(sigs(maxr, maxo), styles):
        if not o and st != styles[0]:
            continue
        kt = kind_table(params(r, o, v, st), body(r, o, v, st))
        for kind, (kd, callee) in kt.items():
            if "init" in kind and v:
                continue
            for args in arglists(maxn):
                if st == "call" and args.count(",") + (args != "") > r and "..." not in args:
                    pass
                for ci in ctxs:
                    d, call = whole(kd, callee, kind, args)
                    got = ".got" if kind in ("init", "initinh", "supinit") else ""
                    yield "%d/%d/%d:%s:%s:(%s):%d" % (r, o, v, st, kind, args, ci), PRE + d + "\n" + CONTEXTS[ci].format(call, g=got)


def part(sh, item):
    mc.diff_programs(sh, mc.worker(EXE), item)


c.explore("signatures", part, mc.chunks(items(c.pick(2, 3), 2, c.pick(4, 6), ["const"], [1, 2]), 400))
c.explore("defaults", part, mc.chunks(it.chain(items(1, c.pick(2, 3), 4, ["prev", "expr", "fn", "glob", "call"], [1]), items(1, c.pick(4, 5), c.pick(3, 6), ["prev", "call", "fn"], [1]) if not c.quick else items(0, 4, 3, ["prev", "call", "fn"], [1])), 400))
c.explore("contexts", part, mc.chunks(items(1, 1, 2, ["const"], range(len(CONTEXTS))), 400))


# ---------------------------------------------------------------- unpack expressions of every kind, nested calls, returns
def more():
    pre = "def f(...a) { return a; } def g(a, b) { return [a, b]; } def h(a, b=7) { return [a, b]; } class K { m(...a) { return a; } n(a, b=7) { return [a, b]; } init(var a=1, var b=2) {} } var k = K(); var l0 = []; var l1 = [1]; var l2 = [1, 2]; var l3 = [1, 2, 3]; def id(x) { return x; }\n"
    vals = ["l0", "l1", "l2", "l3", "[...]", "nil", "5", "'ab'", "{'a': 1}", "id(l2)", "[l1, l2]", "l3[1:]", "l2 + l1", "true ? l2 : l1"]
    for fn in ["f", "g", "h", "k.m", "k.n", "K", "(k.m)", "id", "nil", "5", "print"]:
        for v in vals:
            for lead in ["", "9, ", "9, 8, "]:
                e = "%s(%s...%s)" % (fn, lead, v)
                s = "var r = %s; " % e + ("print([r.a, r.b]);" if fn == "K" else "print(r);" if fn != "print" else "")
                yield "unpack:" + e, pre + s + " print(l3); print(l2);"
                yield "unpackfn:" + e, pre + "def run() { var q = 4; " + s + " print(q); print(l3); } run();"
    # large argument lists
    for n in [0, 1, 2, 8, 9, 31, 64, 127, 128, 200, 250]:
        a = ", ".join(str(i % 10) for i in range(n))
        p = ", ".join("p%d" % i for i in range(n))
        yield "many:%d" % n, "def f(...a) { return [a.len(), a]; } print(f(%s));" % a
        yield "manyu:%d" % n, "def f(...a) { return [a.len(), a]; } print(f(...[%s]));" % a
        if 0 < n < 250:
            yield "manyp:%d" % n, "def f(%s) { var z = 1; return [p0, p%d, z]; } print(f(%s));" % (p, n - 1, a)
            yield "manypu:%d" % n, "def f(%s) { var z = 1; return [p0, p%d, z]; } print(f(...[%s]));" % (p, n - 1, a)
            yield "manyshort:%d" % n, "def f(%s) { return p0; } print(f(%s));" % (p, ", ".join(["1"] * (n - 1)))
            yield "manyo:%d" % n, "def f(%s) { var z = 1; return [p0, p%d, z]; } print(f()); print(f(7));" % (", ".join("p%d=%d" % (i, i % 9) for i in range(n)), n - 1) if n < 100 else "print(1);"
        if n < 30:
            for k in range(0, n + 2):
                for o in range(0, n + 1):
                    if n <= 9:
                        ps = ["p%d" % i for i in range(n - o)] + ["p%d=%d" % (i, 100 + i) for i in range(n - o, n)]
                        yield "opt:%d:%d:%d" % (n, o, k), "def f(%s) { var z = 1; return [%s]; } print(f(%s));" % (", ".join(ps), ", ".join(["z"] + ["p%d" % i for i in range(n)]), ", ".join(str(i) for i in range(k)))
    # return values: every way of leaving a body, in every kind of function
    outs = ["", "return;", "return 5;", "return nil;", "return [1];", "{ return 5; }", "if (x) { return 5; }", "if (not x) { return 5; }", "if (x) { return 5; } else { return 6; }", "while (x) { return 5; }", "for (;;) { return 5; }",
            "{ var y = 1; { var z = 2; return [y, z]; } }", "switch (x) { case true: { return 5; } }", "x; 5;", "var q = [x]; return q;", "def g() { return 5; } g();", "def g() { return 5; } return g();", "return def () => 5;"]
    for o in outs:
        for x in ("true", "false"):
            yield "ret:fn:%s:%s" % (o, x), "def f(x) { %s } var a = 1; var r = f(%s); %s print(a);" % (o, x, "print(r());" if "=> 5" in o else "print(r);")
            yield "ret:m:%s:%s" % (o, x), "class K { m(x) { %s } static s(x) { %s } } var r = K().m(%s); %s r = K.s(%s); %s" % (o, o, x, "print(r());" if "=> 5" in o else "print(r);", x, "print(r());" if "=> 5" in o else "print(r);")
            yield "ret:init:%s:%s" % (o, x), "class K { init(x) { this.v = 3; %s } } var r = K(%s); print(r.v);" % (o, x)
            yield "ret:arrow:%s:%s" % (o, x), "var f = def (x) => { %s }; var r = f(%s); %s" % (o, x, "print(r());" if "=> 5" in o else "print(r);")
    # constructors with var/private parameters in every order
    kinds = ["{n}", "var {n}", "private {n}", "{n}=5{i}", "var {n}=5{i}", "private {n}=5{i}"]
    for n in (1, 2, 3):
        for ks in it.product(kinds, repeat=n):
            if any("=" in a and "=" not in b for a, b in zip(ks, ks[1:])):
                continue
            ps = [k.format(n="abc"[i], i=i) for i, k in enumerate(ks)]
            g = []
            for i, k in enumerate(ks):
                nm = "abc"[i]
                g.append(nm if k.startswith("{n}") else "this." + nm)
            pub = ["abc"[i] for i, k in enumerate(ks) if k.startswith("var")]
            for cnt in range(0, n + 2):
                yield "ctor:%s:%d" % (ks, cnt), "class K { init(%s) { var z = 8; this.seen = [%s, z]; } get() { return this.seen; } } var k = K(%s); print(k.get()); print([%s]);" % (
                    ", ".join(ps), ", ".join(g), ", ".join(str(i + 1) for i in range(cnt)), ", ".join("k." + p for p in pub) or "0")
    # classes without a constructor of their own, bound methods and functions of every other kind, with 0..9 arguments in both forms
    for pre2, callee in [("class K { }", "K"), ("class K { m() { return 1; } }", "K"), ("class B { } class K < B { }", "K"), ("class B { init(...a) { this.a = a; } }".replace("...a", "a") + " class K < B { }", "K"), ("abstract class B { } class K < B { }", "K"),
                         ("trait T { m() { return 1; } } class K { use T; }", "K"), ("class K { init() { } }", "K"), ("class K { m(...a) { return [this.isInstance(K), a]; } } var b = K().m;", "b"), ("class K { m() { return this.isInstance(K); } } var b = K().m;", "b"),
                         ("class K { m(a, b=2) { return [this.isInstance(K), a, b]; } } var b = [K().m];", "b[0]"), ("class K { static m(...a) { return a; } }", "K.m"), ("class P { m(a=1, b=2, c=3, d=4) { return [a, b, c, d, this.isInstance(K)]; } } class K < P { m(...a) { var s = super.m; return s(...a); } }", "K().m")]:
        for n in range(0, 10):
            for a in (", ".join(str(i + 1) for i in range(n)), "...[%s]" % ", ".join(str(i + 1) for i in range(n))):
                for ctx in ("var r = %s; print(type(r)); print('e');", "def go() { var x = 1; var r = %s; print([x, type(r)]); return r; } var z = go(); print(type(z) == 'list' ? z : 0);", "print(['a', type(%s), 'b']);"):
                    yield "plain:%s:%s:%s" % (pre2, a, ctx), pre2 + " " + ctx % ("%s(%s)" % (callee, a))
    # non-callables
    for v in ["nil", "true", "5", "'s'", "[1]", "{'a': 1}", "K()", "E", "T", "A", "K().v", "E.B"]:
        for a in ["", "1", "1, 2", "...[1]"]:
            yield "noncall:%s(%s)" % (v, a), "class K { init() { this.v = 3; } } enum E { B } trait T {} abstract class A {} print('x'); var q = %s; print(q(%s));" % (v, a)


c.explore("more", part, mc.chunks(more(), 150))


# ---- many parameters and arguments ----
def sized(ns):
    for n in ns:
        for r, o, v in ((n, 0, False), (0, n, False), (n // 2, n - n // 2, False), (n, 0, True)):
            if o > 110 or r and o > 64:
                continue                                             # (more constants than a function may have)
            kt = kind_table(params(r, o, v, "const"), body(r, o, v, "const"))
            for kind, (kd, callee) in kt.items():
                if "init" in kind and v:
                    continue
                cts = sorted({max(0, r - 1), r, r + o // 2, r + o, r + o + 1, r + o + 3})
                for a in cts:
                    args = [", ".join(str(10 + i) for i in range(a))]
                    if kind in ("fn", "method", "init", "super", "static"):
                        args += [", ".join([str(10 + i) for i in range(m)] + ["...[%s]" % ", ".join(str(10 + i) for i in range(m, a))]) for m in sorted({0, a // 2, a})]
                    for x in args:
                        d, call = whole(kd, callee, kind, x)
                        got = ".got" if kind in ("init", "initinh", "supinit") else ""
                        yield "sized:%d/%d/%d:%s:%d:%d" % (r, o, v, kind, a, x.count("...")), PRE + d + "\n" + CONTEXTS[2].format(call, g=got)


SZ = sorted(set(c.pick(list(range(4, 40, 5)), list(range(4, 120)))) | {7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 220})
c.explore("sizes", part, mc.chunks(sized(SZ), 60))
c.bounds = dict(sized="up to 220 parameters and arguments", required=c.pick(2, 3), optional=c.pick(2, 3), arguments=c.pick(4, 6), callable_kinds=25, contexts=len(CONTEXTS))
c.finish()

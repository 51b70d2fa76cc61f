"""P30: enums: every member list up to a size with every mix of automatic and explicit values, declared in every kind of scope, read by every route, on the real VM against a model."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P30", rule="one enum declared and read; non-trivial = distinct (member list, scope, route)",
             assumptions=["a name declared twice in an enum is left open", "a member called like an enum method can only be read, not called"])
EXE = c.build("plain")
ASAN = c.build("asan")
PRE = """import 'en.du' as ZMod; var zL = [1, [2]]; def zF() { return 7; } class ZK { m() { return 8; } static s() { return 9; } } enum ZE { p, q } enum Top { a, b = 'x' } var zN; var zN2; var zI = ZK(); var zB = zI.m;
def zSame(a, b) { return type(a) == type(b) and (a == b or (a != a and b != b)); }
def zIs(k, a, b) { if (not zSame(a, b)) { print('{}: {} instead of {}'.format(k, a, b)); } }
def zAll(e, names, vals) { const d = e.values(); zIs('count', d.len(), names.len()); for (var i = 0; i < names.len(); i += 1) { zIs(names[i], d[names[i]], vals[i]); } }
"""
FILES = {"en.du": "enum Far { x, y = 'why', z } def far() { return Far; }"}

# explicit values: text, and the text to compare with
VALS = ["5", "-1", "0.5", "'str'", "nil", "true", "1 + 1", "zL", "zF", "ZK", "zI", "zB", "zF()", "ZE.q", "ZE", "ZMod.Far.y", "'a' + 'b'", "Success(3).unwrap()", "zL[1]", "{'k': 1}['k']", "(false or 4)", "(1 > 0 ? 'y' : 'n')", "(def (x, y=4) => x + y)(1)", "[3, 2, 1].copy()[2]"]
SMALL = ["5", "'str'", "zL", "1 + 1", "zF()", "ZE.q"]
NAMES = ["a", "b", "c", "d", "e"]


def decl(name, mem, vals, trail=False):
    return "enum %s { %s%s }" % (name, ", ".join(n if v is None else "%s = %s" % (n, v) for n, v in zip(mem, vals)), "," if trail else "")


def expect(vals):
    return [str(i) if v is None else v for i, v in enumerate(vals)]


# {D} the declaration, {X} checks that use the enum called En
SCOPES = {
    "top": "{D} {X}", "block": "{ var u0 = 'u'; {D} var u1 = 'w'; {X} zIs('u', [u0, u1], ['u', 'w']); }", "if": "if (true) { {D} {X} }",
    "fn": "def ff(p) { {D} {X} return [p, En]; } zIs('p', ff(4)[0], 4); ff(5);", "lambda": "(def () => { {D} {X} })();", "method": "class Kk { m() { var q = 1; {D} {X} zIs('this', this.q(), 2); zIs('q', q, 1); } q() { return 2; } } Kk().m();",
    "for": "for (var i = 0; i < 3; i += 1) { var pre = i; {D} {X} zIs('i', pre, i); if (i == 1) { continue; } zIs('i', i == 0 or i == 2, true); }", "while": "var w = 0; while (w < 2) { w += 1; {D} {X} if (w == 2) { break; } }",
    "switch": "switch (1) { case 1: { {D} {X} } default: { print('default'); } }", "with": "with ('f.txt', 'r') { {D} {X} zIs('file', file.readLine(), 'l1'); }",
    "closure": "def gg() { var l0 = 1; {D} var l1 = 2; return [def () => En, l0, l1]; } { const t = gg(); const En = t[0](); {X} zIs('l', [t[1], t[2]], [1, 2]); }",
    "capture": "def gg() { {D} def hh() { {X} return En; } hh(); return hh; } gg()();", "twice": "enum En { other, a = 'old' } {D} {X}", "shadow": "{ enum En { other, a = 'old' } { {D} {X} } zIs('outer', En.a, 'old'); }",
    "nested": "for (var i = 0; i < 2; i += 1) { (def () => { if (true) { {D} {X} } })(); }", "arg": "{ {D} (def (En) => { {X} })(En); }", "attr": "{ {D} zI.en = En; } { const En = zI.en; {X} }", "list": "{ {D} zN = [En, 1]; } { const En = zN[0]; {X} }", "alias": "{D} var Other = En; { const En = Other; {X} }",
}


def checks(names, vals):
    names = names[:len(vals)]
    exp = expect(vals)
    x = ["zIs('%s', En.%s, %s);" % (n, n, e) for n, e in zip(names, exp)]
    x.append("zAll(En, [%s], [%s]);" % (", ".join("'%s'" % n for n in names), ", ".join(exp)))
    x.append("zIs('type', type(En), 'enum'); zIs('same', En, En);")
    for n, e in zip(names, exp):
        x.append("zIs('sum', [En.%s, 1], [%s, 1]);" % (n, e))
        if e in ("zF", "ZK", "zB"):
            x.append("zIs('call', %s, %s);" % (("En.%s()" % n, e + "()") if e != "ZK" else ("type(En.%s())" % n, "'ZK'")))
    return " ".join(x)


def lists(sh, item):
    scopes, size, vals, exe, gc = item
    items = []
    for vs in it.product([None] + vals, repeat=size):
        for trail in ((False, True) if size < 3 else (False,)):
            for sc in scopes:
                items.append(("enum:%s:%s%s" % (sc, decl("En", NAMES, vs), trail), SCOPES[sc].replace("{D}", decl("En", NAMES, vs, trail and size > 0)).replace("{X}", checks(NAMES, vs)), ""))
    for part in mc.chunks(items, 20000):
        mc.session(sh, mc.worker(exe, cwd_files=dict(FILES, **{"f.txt": "l1\n"})), part, prelude=PRE, n=60, flags=512 | 2, by_source=True, gc=gc)
        if len(sh.violations) > 3:
            return


gs = []
for sc in SCOPES:
    gs += [([sc], 0, [], EXE, (0, 0, 0)), ([sc], 1, VALS, EXE, (0, 0, 0)), ([sc], 2, VALS, EXE, (0, 0, 0)), ([sc], 3, SMALL, EXE, (0, 0, 0)), ([sc], 2, SMALL, ASAN, (1, 0, 0))]
    gs += [([sc], 4, SMALL[:c.pick(2, 5)], EXE, (0, 0, 0)), ([sc], 5, SMALL[1:c.pick(2, 4)], EXE, (0, 0, 0))]
    gs.append(([sc], 3, VALS, EXE, (0, 0, 0)))
c.explore("lists", lists, gs)
c.bounds["lists"] = "0-5 members, automatic or one of %d explicit values (all mixes to size 3, fewer values beyond), in %d scopes" % (len(VALS), len(SCOPES))


# ---------------------------------------------------------------- nothing changes an enum; what is not there is an error
def misuse(sh, item):
    items = []
    for sc in SCOPES:
        for d, names in (("enum En { a, b = 'x' }", "ab"), ("enum En { }", "")):
            def prog(x):
                return SCOPES[sc].replace("{D}", d).replace("{X}", x)
            bad = ["En.nosuch;", "En.nosuch();", "En.a = 1;", "En.b += 'y';", "En.new = 1;", "En.a -= 1;", "En.a();", "En.b(1);", "En['a'];", "En['a'] = 1;", "En();", "En.values(1);", "En.a.b;", "En + 1;", "En.values = 1;", "En.copy();", "for (var q in En) { }" if False else "En.len();", "En?.nosuch;"]
            for b in bad:
                k = "misuse:%s:%s:%s" % (sc, names, b)
                items.append((k, prog(b + " print('never');"), fails(mc.RUNTIME)))
                items.append(("after:" + k, SCOPES[sc].replace("{D}", "enum En { a, b = 'x' }").replace("{X}", checks("ab", [None, "'x'"])), ""))
    # declared at the top and attacked from elsewhere: members keep their values
    keep = "zAll(Top, ['a', 'b'], [0, 'x']); zIs('a', Top.a, 0); zIs('b', Top.b, 'x');"
    items.append(("keep:decl", "enum Top { a, b = 'x' } " + keep, ""))
    for code in ("Top.a = 5;", "def f() { Top.b = 1; } f();", "Top.c = 1;", "var t = Top; t.a = 3;", "class Q { m() { Top.a += 1; } } Q().m();", "[Top][0].a = 1;"):
        items.append(("keep:" + code, code, fails(mc.RUNTIME)))
        items.append(("after:keep:" + code, keep, ""))
    for code in ("const d = Top.values(); d['a'] = 9; d.remove('b'); d['c'] = 1;", "var x = Top.a; x += 5;", "enum Top2 { a = Top.b, c = Top.a } zIs('x', [Top2.a, Top2.c], ['x', 0]);", "var q = Top; q = nil;"):
        items.append(("keep:" + code[:12], "def ff() { %s } ff(); %s" % (code, keep), ""))
    # errors while the members are evaluated leave nothing behind
    for code in ("enum Er { a, b = nil.x, c }", "def ff() { enum Er { a = 1, b = zF().x } } ff();", "{ enum Er { a = [1, 2].foo() } }"):
        items.append(("err:" + code, code, fails(mc.RUNTIME)))
        items.append(("after:err:" + code, "enum Er { a, b } zAll(Er, ['a', 'b'], [0, 1]);", ""))
    for code in ("enum", "enum A", "enum A {", "enum { a }", "enum A { 1 }", "enum A { a = }", "enum A { a b }", "enum A { a, , b }", "enum A { , }", "enum A { a: 1 }", "enum A { 'a' }", "enum A { a };;;x y", "const enum A { a }", "enum A { a = 1 = 2 }", "enum A { this }",
                 "{ enum A { a } enum A { b } }", "def f(A) { enum A { a } }", "{ var A = 1; enum A { a } }", "{ enum A { a = 1, b = A.a } }"):
        items.append(("syntax:" + code, code, fails(mc.COMPILE)))
        items.append(("after:syntax:" + code, "enum A { a } zIs('a', A.a, 0);", ""))
    # the value of a member is computed once, when declared, in order
    items.append(("order", "var o = []; def n(x) { o.push(x); return x; } enum O { a = n(3), b, c = n(1), d = n(2) } zIs('o', o, [3, 1, 2]); O.a; O.values(); zIs('o', o, [3, 1, 2]); zAll(O, ['a', 'b', 'c', 'd'], [3, 1, 1, 2]);", ""))
    items.append(("loopvals", "var es = []; for (var i = 0; i < 4; i += 1) { enum L { a = i, b, c = i * 10 } es.push(L); } for (var i = 0; i < 4; i += 1) { zAll(es[i], ['a', 'b', 'c'], [i, 1, i * 10]); zIs('eq', es[i] == es[0], i == 0); }", ""))
    items.append(("locals", "def ff(p, q) { var x = p; enum L { a = x, b = q, c = p + q } var y = q; return [L, x, y]; } { const t = ff(2, 3); zAll(t[0], ['a', 'b', 'c'], [2, 3, 5]); zIs('xy', [t[1], t[2]], [2, 3]); }", ""))
    items.append(("upvalue", "def ff() { var x = 1; enum L { get = def () => x, inc = def () => { x += 1; } } return L; } { const l = ff(); const m = ff(); l.inc(); l.inc(); zIs('x', [l.get(), m.get()], [3, 1]); }", ""))
    items.append(("selfref", "enum Z { get = def () => Z.b, b = 'later' } zIs('b', Z.get(), 'later');", ""))
    items.append(("nested", "enum Z { in = ZE, m = ZMod.far } zIs('in', Z.in.q, 1); zIs('far', Z.m().y, 'why'); zIs('values', Z.in.values().len(), 2);", ""))
    items.append(("switch", "def w(x) { switch (x) { case ZE.p: { return 'p'; } case ZE.q: { return 'q'; } default: { return 'd'; } } } zIs('w', [w(0), w(ZE.q), w(2)], ['p', 'q', 'd']);", ""))
    items.append(("method-name", "enum Z { values, len } zIs('v', Z.values, 0); zIs('d', Z.values().len(), 2); zIs('d', Z.values()['values'], 0); zIs('l', Z.len, 1);", ""))
    items.append(("import", "from 'en.du' import Far; zAll(Far, ['x', 'y', 'z'], [0, 'why', 2]); zIs('same', Far == ZMod.Far, true); zIs('f', ZMod.far() == Far, true);", ""))
    items.append(("print", "print(ZE); print([ZE]); print({'e': ZE});", "<Enum ZE>\n[<Enum ZE>]\n{\"e\": <Enum ZE>}\n"))
    f = dict(FILES, **{"f.txt": "l1\n"})
    mc.session(sh, mc.worker(EXE, cwd_files=f), items, prelude=PRE, n=60)
    mc.session(sh, mc.worker(ASAN, cwd_files=f), items, prelude=PRE, n=60, gc=(4, 5, 0))


c.explore("misuse", misuse, [0])


# ---------------------------------------------------------------- sizes
def attr_sizes(sh, item):
    """every member read by name, for every number of members that fits; beyond, a compile error and never a wrong value"""
    w = mc.worker(EXE)
    for n in range(0, 140):
        for kind in (0, 1, 2):
            d = "enum En { %s }" % ", ".join("n%d" % i if kind == 0 else "n%d = %s" % (i, "zN" if kind == 2 else 500 + i) for i in range(n))
            for scope in ("%s zN2 = En;", "def ff() { %s return En; } zN2 = ff();"):
                srcs = [("case.du", "var zN = 'v'; var zN2 = nil;"), ("case.du", scope % d)] + [("case.du", "print(zN2.n%d);" % i) for i in range(n)] + [("case.du", "var zT = zN2.values(); print(zT.len()); for (var i = 0; i < %d; i += 1) { if (not zT.exists('n' + i.toString()) or zT['n' + i.toString()] != %s) { print(i); } }" % (n, ("i", "i + 500", "'v'")[kind]))] + [("case.du", "zN2.n%d;" % n)]
                r = mc.run_confirm(w, srcs=srcs)
                sh.evals += 1
                sh.transitions += n + 1
                sh.state((n, kind, scope, r.text))
                exp = "".join("%s\n" % (i if kind == 0 else 500 + i if kind == 1 else "v") for i in range(n)) + "%d\n" % n
                limit = 2 * n + 3 > 256 if kind != 2 else n + 3 > 256
                if r.crash or (r.rcs[1] == "1" and not limit) or (r.rcs[1] == "0" and (r.text != exp or r.rcs[2:] != ["0"] * (n + 1) + ["2"])) or r.rcs[1] == "2":
                    sh.violate("attrs:%d:%d:%s" % (n, kind, scope[:3]), "%s: %s" % (d[:200], r.brief()))
                    return


c.explore("attr_sizes", attr_sizes, [0])
c.finish()

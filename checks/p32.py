"""P32: sizes. Every size of every kind of program part, from nothing to beyond what the compiler accepts, and every kind of recursion at every depth
near its end; small sizes and large ones must behave the same, the limit must be a clean one, and the interpreter must go on afterwards."""
import os, sys, re, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

c = mc.Check("P32", rule="one program of one family and size, or one recursion to one depth; non-trivial = distinct (family, size, status, output)",
             assumptions=["the sizes accepted today are the least that must be accepted; more may be", "the C stack has its usual 8 MB"])
EXE = c.build("plain")
ASAN = c.build("asan")
R = range
J = lambda f, n, sep=" ": sep.join(f(k) for k in R(n))
L = lambda *a: "".join(str(x) + "\n" for x in a)


def fn(body, args="", call=""):
    return "def f(%s) { %s } print(f(%s));" % (args, body, call)


def tri(n):
    return n * (n - 1) // 2


# family -> (source of size n, output of size n, sizes, the largest size that must be accepted)
FAM = {}


def fam(name, gen, out, ns, most):
    FAM[name] = (gen, out, ns, most)


num = lambda x: L(mc.fmt(x))
# constants of one function: numbers, texts, both, in every kind of function
fam("consts-top", lambda n: "var s = 0; " + J(lambda k: "s += %d;" % (k + 1000), n) + " print(s);", lambda n: num(tri(n) + 1000 * n), R(0, 300), 253)
fam("consts-fn", lambda n: fn("var s = 0; " + J(lambda k: "s += %d;" % (k + 1000), n) + " return s;"), lambda n: num(tri(n) + 1000 * n), R(0, 300), 255)
fam("consts-text", lambda n: fn("var s = ''; " + J(lambda k: "s += 'a%d';" % k, n) + " return s;"), lambda n: L(J(lambda k: "a%d" % k, n, "")), R(0, 300), 255)
fam("consts-mixed", lambda n: fn("var s = ''; var t = 0; " + J(lambda k: "s += 'b%d';" % k if k % 2 else "t += %d;" % k, n) + " return s + t.toString();"), lambda n: L(J(lambda k: "b%d" % k if k % 2 else "", n, "") + str(sum(R(0, n, 2)))), R(0, 300), 253)
fam("consts-names", lambda n: fn("var s = []; " + J(lambda k: "s.m%d;" % k if False else "g%d = %d;" % (k, k), 0) + J(lambda k: "if (false) { noname%d; }" % k, n) + " return s;"), lambda n: L("[]"), R(0, 300), 256)
fam("consts-lambda", lambda n: fn("var s = 0; " + J(lambda k: "s += (def () => %d)();" % k, n) + " return s;"), lambda n: num(tri(n)), R(0, 300), 255)
fam("consts-method", lambda n: "class C { m() { var s = 0; " + J(lambda k: "s += %d;" % (k + 1000), n) + " return s; } } print(C().m());", lambda n: num(tri(n) + 1000 * n), R(0, 300), 255)
fam("consts-init", lambda n: "class C { init() { this.s = 0; " + J(lambda k: "this.s += %d;" % (k + 1000), n) + " } } print(C().s);", lambda n: num(tri(n) + 1000 * n), R(0, 300), 254)
fam("consts-block-after", lambda n: "var s = 0; if (false) { " + J(lambda k: "s += %d;" % (k + 1000), n) + " } else { s = 'ok'; } print(s);", lambda n: L("ok"), R(0, 300), 252)
# locals, upvalues, parameters, arguments
fam("locals-fn", lambda n: fn(J(lambda k: "var v%d = %d;" % (k, k % 7), n) + " return [%s].len() == %d and %s;" % (J(lambda k: "v%d" % k, min(n, 200), ", "), min(n, 200), " and ".join("v%d == %d" % (k, k % 7) for k in sorted({0, n // 2, n - 1} if n else {})) or "true")), lambda n: L("true"), list(R(0, 60)) , 59)
fam("locals-sum", lambda n: fn("var one = 1; " + J(lambda k: "var v%d = one;" % k, n) + " one = 0; " + J(lambda k: "one += v%d;" % k, n) + " return one;"), lambda n: num(n), R(0, 300), 254)
fam("locals-block", lambda n: "{ var one = 1; " + J(lambda k: "var v%d = one;" % k, n) + " one = 0; " + J(lambda k: "one += v%d;" % k, n) + " print(one); }", lambda n: num(n), R(0, 300), 254)
fam("locals-scopes", lambda n: fn("var s = 0; var one = 1; " + J(lambda k: "{ var a = one; var b = a + one; s += b; }", n) + " return s;"), lambda n: num(2 * n), R(0, 400), 399)
fam("locals-nested", lambda n: fn("var s = 0; var v = 1; " + J(lambda k: "{ var v%d = v; s += v%d;" % (k, k), n) + " }" * n + " return s;"), lambda n: num(n), R(0, 300), 253)
fam("locals-method", lambda n: "class C { m(p) { " + J(lambda k: "var v%d = p;" % k, n) + " p = 0; " + J(lambda k: "p += v%d;" % k, n) + " return p; } } print(C().m(3));", lambda n: num(3 * n), R(0, 300), 254)
fam("upvalues", lambda n: fn("var one = 1; " + J(lambda k: "var v%d = one;" % k, n) + " return (def () => { var s = one - 1; " + J(lambda k: "v%d += one; s += v%d;" % (k, k), n) + " return s; })();"), lambda n: num(2 * n), R(0, 300), 254)
fam("upvalues-deep", lambda n: fn("var one = 1; " + J(lambda k: "var v%d = one;" % k, n) + " return (def () => { return (def () => { var s = one - 1; " + J(lambda k: "s += v%d;" % k, n) + " return s; })(); })();"), lambda n: num(n), R(0, 300), 254)
fam("upvalues-two", lambda n: fn("var one = 1; " + J(lambda k: "var v%d = one;" % k, min(n, 200)) + " return (def () => { " + J(lambda k: "var w%d = one;" % k, max(n - 200, 0)) + " return (def () => { var s = one - 1; " + J(lambda k: ("s += v%d;" % k) if k < 200 else "s += w%d;" % (k - 200), n) + " return s; })(); })();"), lambda n: num(n), list(R(190, 300)), 255)
fam("closures", lambda n: fn("var s = 0; " + J(lambda k: "var f%d = def () => { s += 1; };" % k, n) + J(lambda k: "f%d();" % k, n) + " return s;"), lambda n: num(n), R(0, 300), 254)
fam("params", lambda n: fn("return 0 " + J(lambda k: "+ p%d" % k, n) + ";", J(lambda k: "p%d" % k, n, ", "), J(lambda k: "i", n, ", ")).replace("def f", "var i = 2; def f"), lambda n: num(2 * n), R(0, 300), 255)
fam("params-method", lambda n: "var i = 2; class C { m(" + J(lambda k: "p%d" % k, n, ", ") + ") { return 0 " + J(lambda k: "+ p%d" % k, n) + "; } } print(C().m(" + J(lambda k: "i", n, ", ") + "));", lambda n: num(2 * n), R(0, 300), 255)
fam("params-init", lambda n: "var i = 2; class C { init(" + J(lambda k: "p%d" % k, n, ", ") + ") { this.s = 0 " + J(lambda k: "+ p%d" % k, n) + "; } } print(C(" + J(lambda k: "i", n, ", ") + ").s);", lambda n: num(2 * n), R(0, 300), 254)
fam("params-private", lambda n: "var i = 2; class C { init(" + J(lambda k: "private p%d" % k, n, ", ") + ") { } m() { return 0 " + J(lambda k: "+ this.p%d" % k, n) + "; } } print(C(" + J(lambda k: "i", n, ", ") + ").m());", lambda n: num(2 * n), R(0, 300), 255)
fam("params-var", lambda n: "var i = 2; class C { init(" + J(lambda k: "var p%d" % k, n, ", ") + ") { } m() { return 0 " + J(lambda k: "+ this.p%d" % k, n) + "; } } print(C(" + J(lambda k: "i", n, ", ") + ").m());", lambda n: num(2 * n), R(0, 300), 255)
fam("params-default", lambda n: fn("return 0 " + J(lambda k: "+ p%d" % k, n) + ";", J(lambda k: "p%d=i" % k, n, ", ")).replace("def f", "var i = 2; def f"), lambda n: num(2 * n), R(0, 300), 254)
fam("params-half", lambda n: fn("return 0 " + J(lambda k: "+ p%d" % k, n) + ";", J(lambda k: "p%d" % k if k < n // 2 else "p%d=i" % k, n, ", "), J(lambda k: "j", n * 3 // 4, ", ")).replace("def f", "var i = 2; var j = 1; def f"), lambda n: num(n * 3 // 4 + 2 * (n - n * 3 // 4)), R(0, 300), 254)
fam("args-variadic", lambda n: "var i = 2; def f(...p) { return p.len() * 1000 + p.reduce(def (a, b) => a + b); } print(f(0, %s));" % J(lambda k: "i", n, ", ") if n else "print(1000);", lambda n: num((n + 1) * 1000 + 2 * n) if n else L(1000), R(0, 300), 254)
fam("args-print", lambda n: "var i = 2; print(%s);" % J(lambda k: "i", n, ", "), lambda n: L(*["2"] * n) if n else "\n", R(0, 300), 255)
fam("args-unpack", lambda n: "def f(...p) { return p.len(); } def g(l, m) { var s = []; for (var k = 0; k < l; k += 1) { s.push(k); } return f(...s); } print(%s);" % ("g(%d, 0)" % n), lambda n: num(n), R(0, 300), 299)
# literals
fam("list", lambda n: "var i = 3; var l = [%s]; print(l.len()); var s = 0; for (var k = 0; k < l.len(); k += 1) { s += l[k]; } print(s);" % J(lambda k: "i", n, ", "), lambda n: L(n, 3 * n), R(0, 300), 255)
fam("list-numbers", lambda n: fn("return [%s];" % J(str, n, ", ")), lambda n: L("[" + J(str, n, ", ") + "]"), R(0, 300), 255)
fam("dict", lambda n: fn("var d = {%s}; return d.len();" % J(lambda k: "'k%d': true" % k, n, ", ")), lambda n: num(n), R(0, 300), 255)
fam("dict-values", lambda n: fn("var d = {%s}; var s = 0; d.keys().forEach(def (k) => { s += d[k] == k + 'v' ? 1 : 1000; }); return s;" % J(lambda k: "'k%d': 'k%dv'" % (k, k), n, ", ")), lambda n: num(n), R(0, 300), 126)
fam("set", lambda n: "var i = 3; print(set(%s).len());" % J(lambda k: "i + %d" % k if k < 120 else "i", n, ", "), lambda n: num(min(n, 120)), R(0, 300), 255)
fam("destructure", lambda n: "var l = []; for (var k = 0; k < %d; k += 1) { l.push(k); } { var [%s] = l; var s = 0; %s print(s); }" % (n, J(lambda k: "v%d" % k, n, ", "), J(lambda k: "s += v%d;" % k, n)) if n else "print(0);", lambda n: num(tri(n)), R(0, 300), 254)
fam("destructure-global", lambda n: "var l = []; for (var k = 0; k < %d; k += 1) { l.push(k); } var [%s] = l; print(w%d);" % (n, J(lambda k: "w%d" % k, n, ", "), n - 1) if n else "print(-1);", lambda n: num(n - 1), R(0, 300), 250)
fam("format", lambda n: "var i = 3; print('%s'.format(%s));" % ("{}" * n, J(lambda k: "i", n, ", ")) if n else "print('');", lambda n: L("3" * n), R(0, 300), 255)
fam("text", lambda n: "print('%s'.len()); print('%s');" % ("y" * n, "y" * n), lambda n: L(n, "y" * n), list(R(0, 300)) + [1023, 1024, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 1000000], 1000000)
fam("text-escapes", lambda n: "print('%s');" % ("\\t\\\\\\'" * n), lambda n: L("\t\\'" * n), list(R(0, 300)) + [4096, 65535, 65536, 100000], 100000)
fam("text-lines", lambda n: "print('%s'); nil.zz;" % ("\n" * n), lambda n: L("\n" * n), list(R(0, 100)) + [255, 256, 65535, 65536, 70000], 70000)
fam("name", lambda n: "var a%s = 5; { var b%s = a%s; print(b%s); } class C { m%s() { return 'm'; } } print(C().m%s());" % (("y" * n,) * 6), lambda n: L(5, "m"), list(R(0, 300)) + [4095, 4096, 65535, 65536, 100000], 100000)
fam("digits", lambda n: "print(%s == %s); print(0.%s1 < 1);" % ("0" * n + "1", "1", "0" * n), lambda n: L("true", "true"), list(R(0, 100)) + [255, 256, 1000, 4096, 65536], 65536)
fam("comment", lambda n: "print(1); /* %s */ print(2); // %s\nprint(3);" % ("c" * n, "c" * n), lambda n: L(1, 2, 3), list(R(0, 100)) + [65535, 65536, 1000000], 1000000)
fam("statements", lambda n: "var n = 0; " + "{ var b = true; b; } " * n + " print(n);", lambda n: L(0), list(R(0, 50)) + [1000, 10000, 50000], 50000)
fam("lines", lambda n: "var n = 0;" + "\n" * n + " print(n); " + "\n" * n, lambda n: L(0), list(R(0, 50)) + [255, 256, 65535, 65536, 200000], 200000)
fam("functions-session", lambda n: fn("var s = 0; " + J(lambda k: "{ def g%d() { return %d; } s += g%d(); }" % (k, k, k), n) + " return s;"), lambda n: num(tri(n)), R(0, 300), 255)
# nesting
NEST = list(R(0, 300)) + [400, 500, 600, 700, 800, 900, 1000, 2000, 5000, 20000]
fam("nest-paren", lambda n: "print(%s1%s);" % ("(" * n, ")" * n), lambda n: L(1), NEST, 1000)
fam("nest-unary", lambda n: "print(%strue);" % ("not " * n), lambda n: L("false" if n % 2 else "true"), NEST, 1000)
fam("nest-minus", lambda n: "var i = 1; print(%si);" % ("- " * n), lambda n: L(-1 if n % 2 else 1), NEST, 1000)
NEST = [n for n in NEST if n < 4000]
fam("nest-list", lambda n: "print(%s1%s);" % ("[" * n, "]" * n), lambda n: L("[" * n + "1" + "]" * n), NEST, 1000)
fam("nest-dict", lambda n: "print(%s1%s);" % ("{'a': " * n, "}" * n), lambda n: L('{"a": ' * n + "1" + "}" * n), NEST, 254)
fam("nest-call", lambda n: "def f(x) { return x + 1; } print(%s0%s);" % ("f(" * n, ")" * n), lambda n: L(n), NEST, 1000)
fam("nest-call2", lambda n: "def f(x, y) { return x + y; } var i = 1; print(%s0%s);" % ("f(i, " * n, ")" * n), lambda n: L(n), NEST, 1000)
fam("nest-index", lambda n: "var l = [0]; l[0] = 0; print(%s0%s);" % ("l[" * n, "]" * n), lambda n: L(0), NEST, 1000)
fam("nest-ternary", lambda n: "var i = 1; print(%si%s);" % ("i ? " * n, " : 0" * n), lambda n: L(1), NEST, 253)
fam("nest-ternary2", lambda n: "var i = 1; var o = 0; print(%si);" % ("o ? o : " * n), lambda n: L(1), NEST, 1000)
fam("nest-block", lambda n: "var i = 0; %si += 1;%s print(i);" % ("{ " * n, " }" * n), lambda n: L(1), NEST, 1000)
fam("nest-if", lambda n: "var i = 1; %sprint(i);%s" % ("if (i) { " * n, " }" * n), lambda n: L(1), NEST, 1000)
fam("nest-else", lambda n: "var i = 1; var o = 0; %s { print(i); }" % ("if (o) { } else " * n), lambda n: L(1), NEST, 1000)
fam("nest-while", lambda n: "var i = 0; %si += 1;%s print(i);" % ("while (true) { " * n, " break; }" * n), lambda n: L(1), NEST, 1000)
fam("nest-for", lambda n: "var i = 0; %si += 1;%s print(i);" % ("for (var k = 0; k < 1; k += 1) { " * n, " }" * n), lambda n: L(1), list(R(0, 130)), 84)
fam("nest-fn", lambda n: "%sreturn 7;%s print(f());" % ("def f() { " * n, " }" + " return f(); }" * (n - 1)), lambda n: L(7), list(R(1, 200)) + [1000], 199)
fam("nest-lambda", lambda n: "var i = 3; print(%si%s);" % ("(def () => " * n, ")()" * n), lambda n: L(3), list(R(0, 200)) + [1000], 199)
fam("nest-capture", lambda n: "def o(v) { return %sv%s; } print(o(4));" % ("(def () => " * n, ")()" * n), lambda n: L(4), list(R(0, 200)) + [1000], 199)
fam("nest-class", lambda n: "%s%s print('ok');" % ("class C { m() { " * n, " } }" * n), lambda n: L("ok"), list(R(0, 100)), 99)
fam("nest-switch", lambda n: "var i = 1; %sprint(i);%s" % ("switch (i) { case 1: { " * n, " } }" * n), lambda n: L(1), list(R(0, 150)), 149)
# chains
CH = list(R(0, 260)) + [500, 1000, 3000]
fam("chain-plus", lambda n: "var i = 1; print(0%s);" % (" + i" * n), lambda n: L(n), CH + [20000, 65535], 65535)
fam("chain-and", lambda n: "var i = 1; print(i%s);" % (" and i" * n), lambda n: L(1), CH, 3000)
fam("chain-or", lambda n: "var i = 1; var o = false; print(o%s or i);" % (" or o" * n), lambda n: L(1), CH, 3000)
fam("chain-call", lambda n: "class C { init() { this.n = 0; } m() { this.n += 1; return this; } } print(C()%s.n);" % (".m()" * n), lambda n: L(n), CH + [10000], 10000)
fam("chain-attr", lambda n: "class C { } var i = C(); i.x = i; i.v = 5; print(i%s.v);" % (".x" * n), lambda n: L(5), CH + [10000], 10000)
fam("chain-index", lambda n: "var z = 0; var l = [5]; l.push(l); var o = 1; print(l%s[z]);" % ("[o]" * n), lambda n: L(5), CH + [10000], 10000)
fam("chain-opt", lambda n: "class C { m() { return this; } v() { return 6; } } var i = C(); print(i%s?.v());" % ("?.m()" * n), lambda n: L(6), CH[:200], 199)
fam("chain-assign", lambda n: "var a = 0; var b = 0; %s9; print(a + b);" % ("a = b = " * n), lambda n: L(18 if n else 0), list(R(0, 200)), 199)
fam("chain-elseif", lambda n: "var i = %d; %s { print('none'); }" % (n - 1, J(lambda k: "if (i == %d) { print(%d); } else " % (k, k), n)), lambda n: L(n - 1) if n else L("none"), list(R(0, 140)), 126)
fam("chain-concat", lambda n: "var t = 'ab'; print(t%s);" % (" + t" * n), lambda n: L("ab" * (n + 1)), CH + [20000], 20000)
fam("chain-semi", lambda n: "var i = 0; %s print(i);" % ("i += true ? 1 : 1; " if False else "i = i; ") * 1 if False else "var i = 0; var o = 1; %s print(i);" % ("i += o; " * n), lambda n: L(n), CH + [30000], 30000)
# jumps
JUMP = list(R(0, 20)) + [1000, 4000] + list(R(8100, 8300)) + list(R(10900, 10980)) + list(R(13050, 13160)) + [16000, 20000, 21800, 21900, 30000]
JUMP2 = list(R(0, 20)) + [1000, 2000, 4000, 6000, 7000] + list(R(7250, 7330)) + list(R(8150, 8230)) + [9000, 9400, 10000, 12000, 20000]
S = "n += b; "
for nm, t, out in (("if", "if (b) { {S} } else { n = 1000000; } return n;", 1), ("if-not", "if (not b) { {S} } return n;", 0), ("else", "if (not b) { n = 1000000; } else { {S} } return n;", 1), ("else-not", "if (b) { n += b; } else { {S} } return n;", None), ("while", "while (n < b) { {S} if (n == n - n) { n = b; } } return n;", 1), ("while-not", "while (not b) { {S} } return n;", 0),
                   ("while-two", "var k = b - b; while (k < b + b) { k += b; {S} } return n;", 2), ("for", "for (var k = b - b; k < b + b; k += b) { {S} } return n;", 2), ("while-break", "while (b) { {S} break; } return n;", 1), ("while-breakfirst", "while (b) { if (b) { break; } {S} } return n;", 0), ("while-continue", "var k = b - b; while (k < b + b) { k += b; if (k == b) { continue; } {S} } return n;", 1),
                   ("switch", "switch (b) { case b: { {S} } default: { n = 1000000; } } return n;", 1), ("switch-not", "switch (b) { case n: { {S} } default: { n = b; } } return n;", None), ("switch-default", "switch (b) { case n: { n = 1000000; } default: { {S} } } return n;", 1), ("switch-two", "switch (b) { case n: { {S} } case b: { n = b; } default: { {S} } } return n;", None),
                   ("fn", "var k = b; {S} return n;", 1), ("lambda", "var k = def () => { {S} return n; }; return k();", 1)):
    fam("jump-" + nm, (lambda t: lambda n: "def f(b) { var n = b - b; %s } print(f(1));" % t.replace("{S}", S * n))(t), (lambda out: lambda n: L(1 if out is None else (1 if False else out * n)) if True else None)(out), JUMP2 if True else JUMP, {"fn": 20000, "lambda": 20000, "while": 8187, "while-continue": 8187, "while-two": 8189, "for": 8189, "while-breakfirst": 8189, "while-not": 8190, "while-break": 8190, "switch-two": 8190}.get(nm, 8191))
FAM["jump-while"] = (FAM["jump-while"][0], lambda n: L(n), [x for x in FAM["jump-while"][2] if x], 8187)
fam("jump-ternary", lambda n: "def f(b) { return b ? b%s : b; } print(f(1)); def g(b) { return not b ? b : b%s; } print(g(1));" % (" + b" * n, " + b" * n), lambda n: L(n + 1, n + 1), JUMP2 + list(R(21700, 21900, 20)), 21840)
fam("jump-and", lambda n: "def f(b) { return b and b%s; } print(f(1)); def g(b) { return not b or b%s; } print(g(1));" % (" + b" * n, " + b" * n), lambda n: L(n + 1, n + 1), JUMP2 + list(R(21700, 21900, 20)), 21840)
fam("jump-cond", lambda n: "def f(b) { var n = b - b; while (n%s < b + b) { n += b; } return n; } print(f(1));" % (" + b" * n + " - b" * n), lambda n: L(2), [x // 2 for x in JUMP2], 10000)
fam("jump-incr", lambda n: "def f(b) { var n = b - b; for (var k = b; k < b + b + b; k += b%s) { n += b; } return n; } print(f(1));" % (" + b" * n + " - b" * n), lambda n: L(2), [x // 2 for x in JUMP2], 10000)
# switches, classes, enums
fam("switch-cases", lambda n: "def f(i) { switch (i) { %s default: { return 'none'; } } } print(f(%d)); print(f(0)); print(f(-1));" % (J(lambda k: "case %d: { return i; }" % k, n), n - 1), lambda n: L(n - 1 if n else "none", 0 if n else "none", "none"), list(R(1, 300)), 254)
fam("switch-bool", lambda n: "def f(i, o) { switch (i) { %s default: { return 'none'; } } } print(f(1, 0)); print(f(0, 0));" % ("case o: { return i; } " * n), lambda n: L("none", 0 if n else "none"), list(R(1, 300)), 256)
fam("switch-values", lambda n: "def f(i, o) { switch (i) { case %s: { return 'yes'; } default: { return 'none'; } } } print(f(1, 0)); print(f(0, 0)); print(f(2, 0));" % ", ".join(["o"] * (n - 1) + ["o + 1"]), lambda n: L("yes", "yes" if n > 1 else "none", "none"), list(R(1, 300)), 256)
fam("methods", lambda n: "class C { %s } %s" % (J(lambda k: "m%d() { return '%d!'; }" % (k, k), n), "print(C().m%d()); print(C().m%d());" % (0, n - 1) if n else "print(C().isInstance(C));" if False else "print(1);"), lambda n: L("0!", "%d!" % (n - 1)) if n else L(1), R(0, 300), 127)
fam("statics", lambda n: "class C { %s } %s" % (J(lambda k: "static m%d() { return '%d!'; }" % (k, k), n), "print(C.m%d()); print(C.m%d());" % (0, n - 1) if n else "print(1);"), lambda n: L("0!", "%d!" % (n - 1)) if n else L(1), R(0, 300), 127)
fam("fields", lambda n: "class C { %s } %s" % (J(lambda k: "var m%d = true;" % k, n), "print(C.m%d); print(C().m%d);" % (0, n - 1) if n else "print(1);"), lambda n: L("true", "true") if n else L(1), R(0, 300), 254)
fam("class-constants", lambda n: "class C { %s } %s" % (J(lambda k: "const m%d = false;" % k, n), "print(C.m%d); print(C().m%d);" % (0, n - 1) if n else "print(1);"), lambda n: L("false", "false") if n else L(1), R(0, 300), 254)
fam("privates", lambda n: "class C { %s v() { return %s; } } print(C().v());" % (J(lambda k: "private m%d() { return 1; }" % k, n), J(lambda k: "this.m%d()" % k, n, " + ") or "0"), lambda n: L(n), R(0, 200), 126)
fam("abstracts", lambda n: "abstract class A { %s } class C < A { %s } print(1);" % (J(lambda k: "abstract m%d()" % k, n), J(lambda k: "m%d() { return 1; }" % k, n)), lambda n: L(1), R(0, 150), 84)
fam("traits", lambda n: "%s class C { %s } %s" % (J(lambda k: "trait T%d { t%d() { return 'x'; } }" % (k, k), n), J(lambda k: "use T%d;" % k, n), "print(C().t0() + C().t%d());" % (n - 1) if n else "print('xx');"), lambda n: L("xx"), R(0, 150), 84)
fam("enum", lambda n: "enum E { %s } print(E.values().len()); %s" % (J(lambda k: "m%d" % k, n, ", "), "print(E.m0 + E.m%d);" % (n - 1) if n else "print(0);"), lambda n: L(n, max(n - 1, 0)), R(0, 300), 126)
fam("annotations", lambda n: "%s class C { } print(C.classAnnotations.len());" % J(lambda k: "@A%d" % k, n), lambda n: L(n), R(1, 130), 129)
fam("inherit", lambda n: "class C0 { m() { return 1; } } %s print(C%d().m()); print(C%d().isInstance(C0));" % (J(lambda k: "class C%d < C%d { m() { return super.m() + 1; } }" % (k + 1, k), n), n, n), lambda n: L(n + 1, "true"), R(0, 90), 89)
fam("imports", lambda n: "%s print(%s);" % (J(lambda k: "import 'm%d.du' as M%d;" % (k, k), n), J(lambda k: "M%d.v" % k, n, " + ") or "0"), lambda n: num(tri(n)), R(0, 100), 99)
fam("import-names", lambda n: "from 'many.du' import %s; print(%s);" % (J(lambda k: "v%d" % k, n, ", "), J(lambda k: "v%d" % k, n, " + ")), lambda n: num(tri(n)), R(1, 200), 120)
FILES = {"m%d.du" % k: "var v = %d;" % k for k in R(100)}
FILES["many.du"] = " ".join("var v%d = %d;" % (k, k) for k in R(120))
# values nested in each other, made by loops
DEEP = list(R(0, 60)) + [100, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 10000, 50000]
MK = {"list": ("[]", "[v]", "v[0]"), "dict": ("{}", "{'k': v}", "v['k']"), "inst": ("C()", "C(v)", "v.n"), "mixed": ("[]", "[{'a': v}]", "v[0]['a']"), "closure": ("def () => 0", "wrap(v)", "v()"), "bound": ("C()", "C(v.m)", "v.n()"), "result": ("Success(0)", "Success(v)", "v.unwrap()")}
for nm, (zero, one, down) in MK.items():
    fam("deep-" + nm, (lambda zero, one, down: lambda n: "class C { init(n=nil) { this.n = n; } m() { return this; } } def wrap(v) { return def () => v; } var v = %s; var e = v; for (var k = 0; k < %d; k += 1) { v = %s; } var w = v; for (var k = 0; k < %d; k += 1) { v = %s; } print(%s);" % (zero, n, one, n, down, "v == e" if "bound" not in one and ".m" not in one else "type(v)"))(zero, one, down), (lambda o: lambda n: L("C" if o else "true"))(".m" in one), DEEP, 50000)
fam("deep-equal", lambda n: "def mk(n) { var v = []; for (var k = 0; k < n; k += 1) { v = [v]; } return v; } print(mk(%d) == mk(%d)); print(mk(%d) == mk(%d)); print(mk(%d) != mk(%d));" % (n, n, n, n + 1, n, n), lambda n: L("true", "false", "false"), DEEP, 50000)
fam("deep-equal-dict", lambda n: "def mk(n) { var v = {}; for (var k = 0; k < n; k += 1) { v = {'a': v}; } return v; } print(mk(%d) == mk(%d)); print(mk(%d) == mk(%d)); print([mk(%d)].contains(mk(%d)));" % (n, n, n, n + 1, n, n), lambda n: L("true", "false", "true"), DEEP, 50000)
fam("deep-print", lambda n: "var v = []; for (var k = 0; k < %d; k += 1) { v = [v]; } print(v); print(v.toString().len()); print('{}'.format(v).len());" % n, lambda n: L("[" * (n + 1) + "]" * (n + 1), 2 * n + 2, 2 * n + 2), list(R(0, 60)) + [100, 255, 256, 257, 1000, 4000], 4000)
fam("deep-json", lambda n: "import JSON; var v = []; for (var k = 0; k < %d; k += 1) { v = [v]; } var s = JSON.stringify(v).unwrap(); print(s.len()); print(JSON.parse(s).unwrap() == v);" % n, lambda n: L(2 * n + 2, "true"), list(R(0, 60)) + [100, 255, 256, 257, 500, 510], 510)
fam("deep-copy", lambda n: "var v = [1]; for (var k = 0; k < %d; k += 1) { v = [v]; } var w = v.deepCopy(); print(v == w); for (var k = 0; k < %d; k += 1) { v = v[0]; w = w[0]; } v.push(2); print(w.len());" % (n, n), lambda n: L("true", 1), list(R(0, 60)) + [100, 255, 256, 257, 1000], 1000)
STOPS = {"text-lines", "deep-print", "deep-json", "deep-copy"}


def expected_ok(fam_, n, rc, out):
    return (rc == "2" if fam_ == "text-lines" else rc == "0") and out == FAM[fam_][1](n)


PROBE = "{ var x = [1, 2]; x.push(3); def pf(n) { return n < 2 ? 1 : n * pf(n - 1); } class PC { m() { return x.len(); } } print(pf(5) + PC().m()); }"
PROBE_OUT = "123\n"


def sizes(sh, item):
    exe, name, part, parts, gc = item
    gen, out, ns, most = FAM[name]
    w = mc.worker(exe, cwd_files=FILES if "import" in name else None)
    ns = sorted(set(ns))
    if gc[0] or exe == ASAN:
        ns = [n for n in ns if n < 5000]
        if c.quick:
            ns = [n for j, n in enumerate(ns) if j % 9 == 0]
    ns = ns[part::parts]
    status = {}
    todo = [(n, gen(n)) for n in ns]

    def judge(n, s, rc, o, crash, err):
        sh.evals += 1
        sh.transitions += 1
        sh.state((name, n, rc, o))
        status[n] = rc
        if crash:
            return "crash: %s %s" % (crash, err[-200:])
        if rc == "1":
            if o:
                return "does not compile, yet printed %r" % o[:100]
            if n <= most:
                return "does not compile: %r" % err[-200:]
        elif not expected_ok(name, n, rc, o) and not (rc == "2" and n > most and name == "import-names"):  # (that file has no more names)
            return "expected %r, observed status %s %r %r" % (out(n)[:200], rc, o[:200], err[-200:])
    while todo:
        chunk, total = [], 0
        while todo and len(chunk) < 60 and total < 400000:
            total += len(todo[0][1])
            chunk.append(todo.pop(0))
        srcs = []
        for n, s in chunk:
            srcs += [("case.du", s), ("case.du", PROBE)]
        r = mc.run_confirm(w, srcs=srcs, gc=gc, flags=16, timeout=120)
        outs = [x.decode("utf-8", "replace") for x in r.out.split(b"\x1e")]
        bad = r.crash or len(r.rcs) != len(srcs)
        for j, (n, s) in enumerate(chunk):
            if not bad:
                m = judge(n, s, r.rcs[2 * j], outs[2 * j], None, "")
                if not m and (r.rcs[2 * j + 1] != "0" or outs[2 * j + 1] != PROBE_OUT):
                    m = "afterwards: status %s %r" % (r.rcs[2 * j + 1], outs[2 * j + 1])
                if not m:
                    continue
            # alone
            q = mc.run_confirm(w, srcs=[("case.du", s), ("case.du", PROBE)], gc=gc, flags=16, timeout=120)
            o = [x.decode("utf-8", "replace") for x in q.out.split(b"\x1e")]
            m = judge(n, s, q.rcs[0] if q.rcs else "-", o[0], q.crash, q.etext)
            if not m and (len(q.rcs) < 2 or q.rcs[1] != "0" or o[1] != PROBE_OUT):
                m = "afterwards: %s %r" % (q.rcs[1:], o[1:])
            if not m and not bad:
                m = "only after other sources: %s" % m
            if m:
                sh.violate("%s:%d" % (name, n), "%s of size %d: %s\n    %s" % (name, n, m, s[:300]), program=[s[:100000], PROBE])
                if len(sh.violations) > 3:
                    return
    acc = [n for n in status if status[n] not in ("1",)]
    rej = [n for n in status if status[n] == "1"]
    if acc and rej and min(rej) < max(acc):
        sh.violate("%s:order" % name, "%s: size %d does not compile but %d does" % (name, min(rej), max(acc)))


heavy = lambda nm: 4 if nm.startswith(("jump", "deep", "chain", "nest")) else 1
todo = [(EXE, nm, p, heavy(nm), (0, 0, 0)) for nm in FAM for p in R(heavy(nm))]
todo += [(ASAN, nm, 0, 1, (0, 0, 0)) for nm in FAM if not (c.quick and nm.startswith("deep"))]
if not c.quick:
    todo += [(ASAN, nm, p, 4, (4, 50, 3)) for nm in FAM for p in R(4)]
c.explore("sizes", sizes, todo)
c.bounds["sizes"] = "%d families of programs, each of every size up to about 300 and chosen larger ones" % len(FAM)

# ---------------------------------------------------------------- recursion
# {P}: locals, {U}: their uses; each defines rec(n) giving n
KIND = {"function": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + rec(n - 1); }",
        "tail": "def rec(n, s=0) { g += 1; {P} if (n == 0) { return s + {U}; } return rec(n - 1, s + 1); }",
        "method": "class C { m(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + this.m(n - 1); } } var ci = C(); def rec(n) { return ci.m(n); }",
        "static": "class C { static m(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + C.m(n - 1); } } def rec(n) { return C.m(n); }",
        "bound": "class C { m(n) { g += 1; {P} if (n == 0) { return {U}; } var k = this.m; return 1 + k(n - 1); } } var ci = C(); def rec(n) { return ci.m(n); }",
        "init": "class C { init(n) { g += 1; {P} if (n == 0) { this.v = {U}; } else { this.v = 1 + C(n - 1).v; } } } def rec(n) { return C(n).v; }",
        "private": "class C { m(n) { return this.p(n); } private p(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + this.p(n - 1); } } var ci = C(); def rec(n) { return ci.m(n); }",
        "super": "class B { m(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + this.m(n - 1); } } class C < B { m(n) { return super.m(n); } } var ci = C(); def rec(n) { return ci.m(n); }",
        "trait": "trait T { m(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + this.m(n - 1); } } class C { use T; } var ci = C(); def rec(n) { return ci.m(n); }",
        "mutual": "def ra(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + rb(n - 1); } def rb(n) { if (n == 0) { return 0; } return 1 + ra(n - 1); } def rec(n) { return ra(n); }",
        "closure": "def mk() { var self = nil; self = def (n) => { g += 1; {P} if (n == 0) { return {U}; } return 1 + self(n - 1); }; return self; } var rc0 = mk(); def rec(n) { return rc0(n); }",
        "fresh": "def rec(n) { g += 1; {P} var k = n; var h = def () => { k += 0; return k == 0 ? {U} : 1 + rec(k - 1); }; return h(); }",
        "block": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } while (true) { for (var k = n; k != 0; k -= 1) { switch (1) { case 1: { return 1 + rec(n - 1); } } } } }",
        "variadic": "def rec(...a) { g += 1; {P} if (a[0] == 0) { return {U}; } return 1 + rec(a[0] - 1, 0, 0); }",
        "unpack": "def rec(n, a=0, b=0) { g += 1; {P} if (n == 0) { return {U}; } var l = [n - 1, 0, 0]; return 1 + rec(...l); }",
        "default": "def rec(n, a=1, b=0) { g += 1; {P} if (n == 0) { return {U}; } return a + rec(n - 1); }",
        "list": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } return [1, 2, rec(n - 1)][2] + 1; }",
        "args": "def id(a, b, c) { return c; } def rec(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + id(n, n, rec(n - 1)); }",
        "map": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } return [n - 1].map(def (x) => rec(x))[0] + 1; }",
        "reduce": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } return [n - 1, 1].reduce(def (s, x) => s == nil ? x : (x == n - 1 ? s + x : s + x), rec(n - 1) - n + 1); }",
        "sort": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } var r = 0; [2, 1].sortFunc(def (x, y) => { if (r == 0) { r = 1 + rec(n - 1); } return 0; }); return r; }",
        "match": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } return Success(n - 1).match(def (x) => rec(x), def (x) => 0) + 1; }",
        "each": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } var r = 0; [n - 1].forEach(def (x) => { r = rec(x); }); return r + 1; }",
        "with": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } var r = 0; if (n > 0 and n < 200) { with ('f.txt', 'r') { r = rec(n - 1); } } else { r = rec(n - 1); } return r + 1; }",
        "import": "def rec(n) { g += 1; {P} if (n == 0) { return {U}; } return 1 + rec(n - 1); }"}
LOCALS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 31, 32, 33, 50, 64, 80, 100, 127, 128, 129, 150, 200, 220, 240, 245]
LEAST = 12000  # stack slots that must be usable


def recursion(sh, item):
    exe, kind, nl, gc = item
    w = mc.worker(exe, cwd_files={"f.txt": "l1\n"})
    n1 = min(nl, 40)
    p = " ".join("var v%d = %s;" % (k, "g - g" if k == 0 else "v0") for k in R(nl))
    u = "v0 + v%d" % (nl - 1) if nl else "0"
    base = "var g = 0; " + KIND[kind].replace("{P}", p).replace("{U}", u)

    def run(srcs):
        r = mc.run_confirm(w, srcs=[("case.du", s) for s in srcs], gc=gc, flags=16, timeout=120)
        sh.evals += 1
        sh.transitions += len(srcs)
        outs = [x.decode("utf-8", "replace") for x in r.out.split(b"\x1e")]
        if r.crash or len(r.rcs) != len(srcs):
            sh.violate("recursion:%s:%d" % (kind, nl), "recursion by %s with %d locals: %s %s after %d sources of %d: %s" % (kind, nl, r.crash, r.etext[-300:], len(r.rcs), len(srcs), srcs[min(len(r.rcs), len(srcs) - 1)][:100]), program=srcs)
            return None
        return r, outs
    # where does it end?
    q = run([base, PROBE, "rec(10000000);", "print(g);", PROBE, "print(rec(20));", "g = 0; rec(-1);", "print(g);", PROBE, "print(rec(20));"])
    if q is None:
        return
    r, o = q
    want = ["0", "0", "2", "0", "0", "0", "2", "0", "0", "0"]
    if r.rcs != want or o[1] != PROBE_OUT or o[4] != PROBE_OUT or o[5] != "20\n" or o[8] != PROBE_OUT or o[9] != "20\n" or o[3] != o[7]:
        sh.violate("recursion:%s:%d" % (kind, nl), "recursion by %s with %d locals: expected an error and then the usual, statuses %s outputs %s" % (kind, nl, r.rcs, o), program=[base])
        return
    top = int(o[3]) if kind != "mutual" else 2 * int(o[3])
    sh.state((kind, nl, top))
    per = nl + 16 + (20 if kind in ("map", "reduce", "sort", "match", "each", "block", "list", "args", "with", "variadic", "unpack", "fresh", "super") else 0)
    if top * per < LEAST:
        sh.violate("recursion:%s:%d:least" % (kind, nl), "recursion by %s with %d locals ends after %d calls" % (kind, nl, top), program=[base])
    # all small depths, in one session
    small = list(R(0, min(c.pick(130, 1000), top - 5 if kind != "with" else top // 2)))
    q = run([base] + ["print(rec(%d));" % d for d in small])
    if q is None:
        return
    sh.state((kind, nl, "small"))
    for d in small:
        if q[0].rcs[d + 1] != "0" or q[1][d + 1] != "%d\n" % d:
            sh.violate("recursion:%s:%d:%d" % (kind, nl, d), "recursion by %s with %d locals to depth %d: status %s %r" % (kind, nl, d, q[0].rcs[d + 1], q[1][d + 1]), program=[base, "print(rec(%d));" % d])
            return
    depths = set() | {d + e for d in (2 ** k for k in R(c.pick(11, 7), 16)) for e in (-1, 0, 1) if 0 <= d + e < top - 5} | {top // 3, top // 2}
    near = list(R(max(top - c.pick(4, 40), 0), top + c.pick(4, 40)))
    ok = {}
    for d in sorted(depths) + near:
        q = None
        srcs = [base, "print(rec(%d));" % d, PROBE, "print(rec(%d));" % min(d, 3)]
        q = run(srcs)
        if q is None:
            return
        r, o = q
        ok[d] = r.rcs[1] == "0"
        sh.state((kind, nl, d, r.rcs[1], o[1]))
        if r.rcs not in (["0"] * 4, ["0", "2", "0", "0"]) or o[2] != PROBE_OUT or o[3] != "%d\n" % min(d, 3) or o[1] != ("%s\n" % mc.fmt(d) if ok[d] else "") or (not ok[d] and d in depths):
            sh.violate("recursion:%s:%d:%d" % (kind, nl, d), "recursion by %s with %d locals to depth %d: statuses %s outputs %s" % (kind, nl, d, r.rcs, [x[:100] for x in o]), program=srcs)
            return
    if any(ok[d] for d in ok if any(not ok[e] for e in ok if e < d)):
        sh.violate("recursion:%s:%d:order" % (kind, nl), "recursion by %s with %d locals: %s" % (kind, nl, sorted(ok.items())[-14:]))


c.explore("recursion", recursion, [(EXE, k, nl, (0, 0, 0)) for k in KIND for nl in LOCALS] + [(ASAN, k, nl, (0, 0, 0)) for k in KIND for nl in (LOCALS if not c.quick else LOCALS[::7])])
c.bounds["recursion"] = "%d kinds of recursion x %d numbers of locals x depths around the limit, powers of two and all small ones" % (len(KIND), len(LOCALS))


def pushed(sh, item):
    """a call with a large number of values on the stack already, and lists of any length unpacked as arguments"""
    exe, = item
    w = mc.worker(exe)
    mk = "def mk(n) { var l = []; for (var k = 0; k < n; k += 1) { l.push(k); } return l; } def va(...p) { return p.len(); } def two(a, b) { return a + b; } class C { m(...p) { return p.len(); } static s(...p) { return p.len(); } } class D < C { m(...p) { return super.m(...p); } } def down(d, l) { if (d == 0) { return va(...l); } return down(d - 1, l); } "
    for n in list(R(0, 40)) + [254, 255, 256, 257, 300, 1000, 5000, 10000, 15000, 15300, 15340, 15358, 15359, 15360, 15361, 15362, 15400, 16000, 16383, 16384, 16385, 17000, 65535, 65536, 100000, 300000]:
        for call, out in (("va(...mk({N}))", 0), ("va(1, ...mk({N}))", 1), ("C().m(...mk({N}))", 0), ("C.s(...mk({N}))", 0), ("D().m(...mk({N}))", 0), ("down(100, mk({N}))", 0), ("down(1000, mk({N}))", 0), ("'{}'.format(mk({N})).len() > 0 ? {N} : 0", 0), ("mk({N}).len()", 0)):
            src = mk + "print(%s);" % call.replace("{N}", str(n))
            r = mc.run_confirm(w, srcs=[("case.du", src), ("case.du", PROBE)], flags=16)
            o = [x.decode() for x in r.out.split(b"\x1e")]
            sh.evals += 1
            sh.transitions += 2
            sh.state((n, call, tuple(r.rcs)))
            one = "%d\n" % (n + out)
            if r.crash or r.rcs not in (["0", "0"], ["2", "0"]) or o[1] != PROBE_OUT or o[0] not in (one if r.rcs[0] == "0" else "", ) and not (n + out > 99999999) or (r.rcs[0] == "2" and (n < 1000 or "..." not in call and "down" not in call)):
                sh.violate("pushed:%s:%d" % (call, n), "%s with %d: %s statuses %s outputs %s %s" % (call, n, r.crash, r.rcs, o, r.etext[-200:]), program=[src, PROBE])
                if len(sh.violations) > 3:
                    return


c.explore("pushed", pushed, [(EXE,), (ASAN,)])


def growth(sh, item):
    """one interpreter, ever more globals, functions, classes, names and instances"""
    exe, = item
    w = mc.worker(exe)
    srcs, exp = [], []
    for b in R(c.pick(60, 400)):
        srcs.append(("case.du", " ".join("var gv%d_%d = %d;" % (b, k, b * 40 + k) for k in R(40)) + " def gf%d() { return gv%d_7; } class GC%d { m() { return gf%d() + 1; } } var gi%d = GC%d();" % ((b,) * 6)))
        exp.append("")
        srcs.append(("case.du", "print(gv%d_39); print(gf%d()); print(gi%d.m()); print(gv0_0);" % (b, b // 2, b // 3)))
        exp.append(L(b * 40 + 39, (b // 2) * 40 + 7, (b // 3) * 40 + 8, 0))
    r = mc.run_confirm(w, srcs=srcs, flags=16, timeout=300)
    o = [x.decode() for x in r.out.split(b"\x1e")]
    sh.evals += 1
    sh.transitions += len(srcs)
    for j, e in enumerate(exp):
        sh.state((j, e))
        if r.crash or len(o) <= j or o[j] != e or r.rcs[j] != "0":
            sh.violate("growth:%d" % j, "source %d of a growing session: %s %r expected %r" % (j, r.crash, o[j:j + 1], e), program=[s for _, s in srcs[:j + 1]])
            return


c.explore("growth", growth, [(EXE,), (ASAN,)])
c.finish()

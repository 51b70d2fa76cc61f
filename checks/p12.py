"""P12: equality, truthiness, ordering and type names: all pairs of values of every kind, by every route that compares."""
import os, sys, itertools as it, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P12", rule="a pair of values compared by one route, or a value tested by one route; non-trivial = distinct (route, expected outcome, kinds)",
             assumptions=["two values are equal exactly when their labels are: the label is the value itself for data and a name for what has an identity"])
EXE = c.build("plain")
PRE = """import Math; import Queue; import Buffer;
class zA { var v = 1; m() { return 1; } } class zB < zA { } trait zT { t() { return 1; } } enum zE { x, y } enum zE2 { x }
def zf() { return 1; } def zg() { return 1; } var zh = def () => 1; def zmk() { return def () => 1; }
var za = zA(); var za2 = zA(); var zb = zB(); var zc1 = zmk(); var zc2 = zmk(); var zl = [1, 2]; var zl2 = zl; var zd = {'a': 1}; var zs = set(1); var zinf = 1e300 * 1e300; var znan = zinf - zinf;
var zbm = za.m; var zr = Success(1); var zrs = Success(1); var zre = Error('e'); var zq = Queue.new(); var zq2 = Queue.new(); var zemp = {'k': 1}; zemp.remove('k'); var zse = set('k'); zse.remove('k'); var zpop = [1]; zpop.pop();
var zd3 = {}; for (var i = 0; i < 40; i += 1) { zd3[i] = i; } for (var i = 3; i < 40; i += 1) { zd3.remove(i); }
var zs3 = set(); for (var i = 0; i < 40; i += 1) { zs3.add(i); } for (var i = 3; i < 40; i += 1) { zs3.remove(i); }
var zfile; with ('zfile', 'w') { zfile = file; }
var zlong = 'x'.repeat(300);
"""
# (expression, label, type name, truthy)
N = lambda e, v: (e, ("n", v), "number", v != 0)
S = lambda e, v: (e, ("s", v), "string", v != "")
V = [("nil", "nil", "nil", False), ("true", "true", "bool", True), ("false", "false", "bool", False), ("1 == 1", "true", "bool", True), ("not nil", "true", "bool", True), ("nil == false", "false", "bool", False),
     N("0", 0.0), N("-0", 0.0), N("1 - 1", 0.0), N("0 * -1", 0.0), N("1", 1.0), N("0.5 + 0.5", 1.0), N("2 / 2", 1.0), N("-1", -1.0), N("0.1 + 0.2", 0.1 + 0.2), N("0.3", 0.3), N("3", 3.0), N("'3'.toNumber().unwrap()", 3.0), N("'abc'.len()", 3.0), N("0x3", 3.0),
     N("1 | 2", 3.0), N("Math.abs(-3)", 3.0), N("zinf", math.inf), N("-zinf", -math.inf), N("4294967296", 4294967296.0), N("65536 * 65536", 4294967296.0), N("9007199254740993", 9007199254740992.0), N("9007199254740992", 9007199254740992.0), N("5e-324", 5e-324),
     S("''", ""), S("'abc'[1:1]", ""), S("'a'", "a"), S("'abc'[0]", "a"), S("'A'.lower()", "a"), S("'ab'[0:1]", "a"), S("'ab'", "ab"), S("'a' + 'b'", "ab"), S("'{}{}'.format('a', 'b')", "ab"), S("['a', 'b'].join('')", "ab"), S("'xabx'.split('x')[1]", "ab"),
     S("'a\\x00b'", "a\0b"), S("'a\\x00' + 'b'", "a\0b"), S("'a\\x00c'", "a\0c"), S("'a\\x00'", "a\0"), S("zlong", "x" * 300), S("'x'.repeat(150) + 'x'.repeat(150)", "x" * 300), S("'x'.repeat(299) + 'y'", "x" * 299 + "y"), S("'1'", "1"), S("(1).toString()", "1"), S("'true'", "true"), S("true.toString()", "true"), S("'nil'", "nil"), S("'[1]'", "[1]"), S("r'a\\n'", "a\\n"), S("'\\n'", "\n"),
     ("[]", "[]", "list", False), ("zpop", "[]", "list", False), ("[1, 2]", "[1,2]", "list", True), ("zl", "[1,2]", "list", True), ("zl2", "[1,2]", "list", True), ("zl.copy()", "[1,2]", "list", True), ("[1] + [2]", "[1,2]", "list", True), ("[1, 2, 3][0:2]", "[1,2]", "list", True), ("[2, 1]", "[2,1]", "list", True), ("[1]", "[1]", "list", True), ("['1']", "['1']", "list", True), ("[[]]", "[[]]", "list", True), ("[nil]", "[nil]", "list", True), ("[0]", "[0]", "list", True), ("[-0]", "[0]", "list", True), ("[[1, 2]]", "[[1,2]]", "list", True), ("[zl]", "[[1,2]]", "list", True), ("[za]", "[za]", "list", True), ("[za2]", "[za2]", "list", True), ("[zd]", "[{a}]", "list", True), ("[{'a': 1}]", "[{a}]", "list", True), ("[set(1)]", "[s1]", "list", True), ("[zs]", "[s1]", "list", True),
     ("{}", "{}", "dict", False), ("zemp", "{}", "dict", False), ("zd", "{a}", "dict", True), ("{'a': 1}", "{a}", "dict", True), ("{'a': 2}", "{a2}", "dict", True), ("{'b': 1}", "{b}", "dict", True), ("zd.copy()", "{a}", "dict", True), ("{'a': 1, 'b': 2}", "{ab}", "dict", True), ("{'b': 2, 'a': 1}", "{ab}", "dict", True), ("{0: 0, 1: 1, 2: 2}", "{012}", "dict", True), ("zd3", "{012}", "dict", True), ("{'a': nil}", "{an}", "dict", True), ("{1: 1}", "{1}", "dict", True), ("{'1': 1}", "{'1'}", "dict", True), ("{'a': [1, 2]}", "{al}", "dict", True), ("{'a': zl}", "{al}", "dict", True), ("{nil: 1}", "{nil}", "dict", True), ("{true: 1}", "{true}", "dict", True), ("{'a': false}", "{af}", "dict", True),
     ("set()", "s", "set", False), ("zse", "s", "set", False), ("set(1)", "s1", "set", True), ("zs", "s1", "set", True), ("set(1, 1)", "s1", "set", True), ("set(2)", "s2", "set", True), ("set('1')", "s'1'", "set", True), ("set(0, 1, 2)", "s012", "set", True), ("set(2, 1, 0)", "s012", "set", True), ("zs3", "s012", "set", True), ("set(0, 1)", "s01", "set", True), ("set(nil)", "snil", "set", True), ("set(true)", "strue", "set", True), ("set(false)", "sfalse", "set", True), ("set('')", "s''", "set", True),
     ("zf", "zf", "function", True), ("zg", "zg", "function", True), ("zh", "zh", "function", True), ("zc1", "zc1", "function", True), ("zc2", "zc2", "function", True), ("zA", "zA", "class", True), ("zB", "zB", "class", True), ("zT", "zT", "trait", True), ("zE", "zE", "enum", True), ("zE2", "zE2", "enum", True), ("zE.x", ("n", 0.0), "number", False), ("zE.y", ("n", 1.0), "number", True),
     ("za", "za", "zA", True), ("za2", "za2", "zA", True), ("zb", "zb", "zB", True), ("za.copy()", None, "zA", True), ("zA()", None, "zA", True), ("print", "print", "native", True), ("zbm", "zbm", "method", True), ("Math", "Math", "module", True), ("Queue", "Queue", "module", True), ("zr", "zr", "result", True), ("zrs", "zrs", "result", True), ("zre", "zre", "result", False), ("zfile", "zfile", "file", True), ("zq", "zq", "unknown", True), ("zq2", "zq2", "unknown", True)]
HASHABLE = {"nil", "bool", "number", "string"}


def labels(i, j):
    a, b = V[i][1], V[j][1]
    if a is None or b is None:
        return i == j
    return a == b


B = lambda x: "true" if x else "false"
n = len(V)


def pairs(sh, item):
    w = mc.worker(EXE, cwd_files={})
    pre = PRE + "var zV = [%s];\n" % ", ".join(v[0] for v in V[:120]) + "".join("zV.push(%s);\n" % v[0] for v in V[120:]) + """
def zsw(a, b) { switch (a) { case b: { return true; } default: { return false; } } }
def zsw2(a, b) { switch (a) { case 'zz-none', b: { return true; } } return false; }
"""
    items = []
    for i in item:
        for j in range(n):
            e = labels(i, j)
            x, y = "zV[%d]" % i, "zV[%d]" % j
            routes = [("==", "%s == %s" % (x, y), e), ("!=", "%s != %s" % (x, y), not e), ("switch", "zsw(%s, %s)" % (x, y), e), ("switch2", "zsw2(%s, %s)" % (x, y), e), ("contains", "[%s].contains(%s)" % (y, x), e), ("contains2", "[za, nil, %s].contains(%s)" % (y, x), e or x == "za" or V[i][1] in ("za", "nil")),
                      ("listeq", "[%s] == [%s]" % (x, y), e), ("listne", "[1, %s] != [1, %s]" % (x, y), not e), ("dicteq", "{'k': %s} == {'k': %s}" % (x, y), e), ("nested", "[{'k': [%s]}] == [{'k': [%s]}]" % (x, y), e), ("not", "not (%s == %s)" % (x, y), not e), ("ifeq", "(%s == %s) ? true : false" % (x, y), e)]
            if V[i][2] in HASHABLE and V[j][2] in HASHABLE:
                routes += [("set", "set(%s).contains(%s)" % (y, x), e), ("dictkey", "{%s: 1}.exists(%s)" % (y, x), e), ("dictget", "{%s: 1}.get(%s, 0)" % (y, x), "1" if e else "0"), ("setlen", "set(%s, %s).len()" % (x, y), "1" if e else "2"), ("dictlen", "{%s: 1, %s: 2}.len()" % (x, y), "1" if e else "2"),
                           ("unique", "[%s, %s].unique().len()" % (x, y), "1" if e else "2"), ("seteq", "set(%s) == set(%s)" % (x, y), e), ("dkeq", "{%s: 1} == {%s: 1}" % (x, y), e), ("dremove", "{%s: 7}.get(%s, 'no')" % (x, y), "7" if e else "no"), ("many", "set(0, 1, 2, 3, 4, 'q', 'r', 's', true, nil, %s).contains(%s)" % (y, x), e or V[i][1] in (("n", 0.0), ("n", 1.0), ("n", 2.0), ("n", 3.0), ("n", 4.0), "true", "nil"))]
            for name, expr, want in routes:
                items.append(mc.P("%s:%s:%s" % (name, V[i][0], V[j][0]), expr, want if isinstance(want, str) else B(want)))
            # with the literal expressions themselves
            items.append(mc.P("lit:%s:%s" % (V[i][0], V[j][0]), "(%s) == (%s)" % (V[i][0], V[j][0]), B(e and not (i == j and V[i][1] is None))))
            if V[i][2] == "number" and V[j][2] == "number":
                a, b = V[i][1][1], V[j][1][1]
                for op, v in (("<", a < b), (">", a > b), ("<=", a <= b), (">=", a >= b)):
                    items.append(mc.P("%s:%s:%s" % (op, V[i][0], V[j][0]), "%s %s %s" % (x, op, y), B(v)))
    mc.session(sh, w, items, prelude=pre, flags=0, n=1500)


c.explore("pairs", pairs, mc.chunks(range(n), 3))


def unary(sh, item):
    w = mc.worker(EXE, cwd_files={})
    items = []
    for expr, _, ty, truth in item:
        T = B(truth)
        K = lambda name, code, want: items.append(("%s:%s" % (name, expr), code, want + "\n"))
        K("notnot", "print(not not (%s));" % expr, T)
        K("not", "print(not (%s));" % expr, B(not truth))
        K("if", "if (%s) { print('true'); } else { print('false'); }" % expr, T)
        K("tern", "print((%s) ? 'true' : 'false');" % expr, T)
        K("while", "var zz = 'false'; while (%s) { zz = 'true'; break; } print(zz);" % expr, T)
        K("for", "var zz = 'false'; for (; %s;) { zz = 'true'; break; } print(zz);" % expr, T)
        K("and", "print(((%s) and 'R') == 'R');" % expr, T)
        K("or", "print(((%s) or 'R') == 'R');" % expr, B(not truth))
        K("andor", "print((%s) and true or false);" % expr, T)
        K("type", "print(type(%s));" % expr, ty)
        K("var", "var zx = %s; var zy = zx; print(zx == zy); print(zx != zy);" % expr, "true\nfalse")
        K("call", "def zid(x) { return x; } var zx = %s; print(zid(zx) == zx); print([zx][0] == zx); print({'k': zx}['k'] == zx);" % expr, "true\ntrue\ntrue")
        K("assertt", "assert(%s); print('ok');" % expr, "ok") if truth else items.append(("assertf:" + expr, "assert(%s); print('no');" % expr, fails(out="")))
        if ty in ("nil", "number", "string", "list", "dict", "set"):
            K("toBool", "print((%s).toBool());" % expr, T)
    # NaN is equal to nothing, not even itself
    for o in ("znan", "0", "1", "zinf", "'a'", "nil", "znan + 1"):
        items += [mc.P("nan==" + o, "znan == %s" % o, "false"), mc.P("nan!=" + o, "znan != %s" % o, "true"), mc.P("==nan" + o, "%s == znan" % o, "false"), mc.P("nanlist" + o, "[znan] == [%s]" % o, "false")]
        if o[0] not in "'n":
            items += [mc.P("nan%s%s" % (op, o), "znan %s %s" % (op, o), "false") for op in ("<", ">")]
    mc.session(sh, w, items, prelude=PRE, flags=0)


c.explore("truth", unary, mc.chunks(V, 20))

# containers that were filled and then emptied down to some size, by every way of removing
MAX = c.pick(40, 140)
HOLES = {  # kind: (fill, removal of element number x, length, the same values made directly)
    "dict": ("var a = {}; for (var i = 0; i < n; i += 1) { a[i] = i * 2; }", "a.remove(x);", "var b = {}; for (var i = k; i < n; i += 1) { b[i] = i * 2; }"),
    "dictstr": ("var a = {}; for (var i = 0; i < n; i += 1) { a['k{}'.format(i)] = i; }", "a.remove('k{}'.format(x));", "var b = {}; for (var i = n - 1; i >= k; i -= 1) { b['k{}'.format(i)] = i; }"),
    "set": ("var a = set(); for (var i = 0; i < n; i += 1) { a.add(i); }", "a.remove(x);", "var b = set(); for (var i = k; i < n; i += 1) { b.add(i); }"),
    "setstr": ("var a = set(); for (var i = 0; i < n; i += 1) { a.add('k{}'.format(i)); }", "a.remove('k{}'.format(x));", "var b = set(); for (var i = n - 1; i >= k; i -= 1) { b.add('k{}'.format(i)); }"),
    "list": ("var a = []; for (var i = 0; i < n; i += 1) { a.push(i); }", "a.remove(x);", "var b = []; for (var i = k; i < n; i += 1) { b.push(i); }"),
    "listpop": ("var a = []; for (var i = 0; i < n; i += 1) { a.push(i); }", "a.pop(0);", "var b = []; for (var i = k; i < n; i += 1) { b.push(i); }"),
}


def holes(sh, item):
    w = mc.worker(EXE, cwd_files={})
    items = []
    for kind, nn in item:
        fill, rem, fresh = HOLES[kind]
        for k in range(nn + 1):
            for order in (("up", "down") if kind[:4] != "list" else ("up",)):
                rm = "for (var x = 0; x < k; x += 1) { %s }" % rem if order == "up" else "for (var x = k - 1; x >= 0; x -= 1) { %s }" % rem
                m = nn - k
                t = B(m > 0)
                src = "{ var n = %d; var k = %d; %s %s %s print(a.len()); print(a ? true : false); print(not a); print(a.toBool()); if (a) { print('if'); } else { print('else'); } var w = 0; while (a) { w = 1; break; } print(w); print((a or 'R') == 'R'); print((a and 'R') == 'R');" % (nn, k, fill, rm, fresh)
                src += " print(a == b); print(b == a); print(a != b); print([a] == [b]); print(a.copy() == b); print(a.copy() ? true : false); }"
                want = [str(m), t, B(m == 0), t, "if" if m else "else", "1" if m else "0", B(m == 0), t, "true", "true", "false", "true", "true", t]
                if kind[:3] == "set":     # sets cannot be copied
                    src = src.replace(" print(a.copy() == b); print(a.copy() ? true : false); }", " }")
                    want = want[:-2]
                items.append(("%s:%d-%d:%s" % (kind, nn, k, order), src, "\n".join(want) + "\n"))
    mc.session(sh, w, items, flags=0, n=200)


c.explore("emptied", holes, mc.chunks([(k, i) for i in range(MAX + 1) for k in HOLES], 6))
# ---- large containers that differ in one place ----
def differ(sh, item):
    """containers nested n deep, or holding n things, equal to their rebuilt selves and unequal to every one with a single place changed"""
    w = mc.worker(EXE)
    pre = """
def zWrap(kind, x, a, b) { if (kind == 0) { return [a, x, b]; } if (kind == 1) { return {'p': a, 'x': x, 'q': b}; } if (kind == 2) { return [a, [b], x]; } return {1: a, 2: [x, b], 3: 3}; }
def zNest(kind, n, at, side) { var x = at == 0 ? [9] : [8]; for (var i = 1; i <= n; i += 1) { x = zWrap(kind == 4 ? i % 4 : kind, x, i == at and side == 0 ? 5 : 4, i == at and side == 1 ? 5 : 4); } return x; }
def zWide(kind, n, at) { if (kind == 0) { var l = []; for (var i = 0; i < n; i += 1) { l.push(i == at ? -1 : i); } return l; }
  if (kind == 1) { var d = {}; for (var i = 0; i < n; i += 1) { d[i] = i == at ? -1 : 1; } return d; }
  if (kind == 2) { var d = {}; for (var i = 0; i < n; i += 1) { d[i == at ? -1 : i] = 1; } return d; }
  if (kind == 3) { var d = set(); for (var i = 0; i < n; i += 1) { d.add(i == at ? -1 : i); } return d; }
  if (kind == 4) { var d = {}; for (var i = 0; i < n; i += 1) { d['k{}'.format(i)] = [i == at ? nil : false]; } return d; }
  if (kind == 5) { var l = []; for (var i = 0; i < n; i += 1) { l.push({'a': [i, i == at]}); } return l; }
  var t = ''; for (var i = 0; i < n; i += 1) { t += i == at ? '.' : 'x'; } return t; }
"""
    items = []
    for what, kind, n, ks in item:
        if what == "deep":
            src = "const a = zNest(%d, %d, -1, 0); if (a != zNest(%d, %d, -1, 0)) { print('differs from itself'); } for (var i = %d; i <= %d; i += %d) { for (var j = 0; j < 2; j += 1) { const b = zNest(%d, %d, i, j); if (a == b or b == a or not (a != b)) { print('equal at {} {}'.format(i, j)); } } }" % (kind, n, kind, n, ks[0], ks[1], ks[2], kind, n)
        else:
            src = "const a = zWide(%d, %d, -1); if (a != zWide(%d, %d, -1)) { print('differs from itself'); } for (var i = %d; i < %d; i += %d) { const b = zWide(%d, %d, i); if (a == b or b == a or not (a != b)) { print('equal at {}'.format(i)); } }" % (kind, n, kind, n, ks[0], ks[1], ks[2], kind, n)
        items.append(("differ:%s:%d:%d:%d" % (what, kind, n, ks[0]), "{ " + src + " } print('done');", "done\n"))
    mc.session(sh, w, items, prelude=pre, flags=0, n=20)


DEEPS = [("deep", k, n, (0, n, 1)) for n in range(c.pick(70, 140)) for k in range(5)] + [("deep", k, n, (a, a + 19 if a + 19 < n else n, 1)) for n in (126, 127, 128, 129, 130, 255, 256, 257, 258) for k in range(5) for a in range(0, n, 20)] + [("deep", k, 1000, (0, 1000, 50)) for k in range(5)]
WIDES = [("wide", k, n, (0, n, 1)) for n in range(c.pick(70, 200)) for k in range(7)] + [("wide", k, n, (a, min(n, a + 40), 1)) for n in (96, 97, 127, 128, 129, 192, 193, 255, 256, 257, 258, 385, 513) for k in range(7) for a in range(0, n, 40)]
c.explore("differ", differ, mc.chunks(DEEPS + WIDES, 12))


def ordering(sh, item):
    """the order of texts that differ in one byte, or that one of them goes on for: every two bytes, at several places, by every operator"""
    w = mc.worker(EXE)
    part = lambda k: "def zp%d() { return [%s]; }" % (k, ", ".join('"\\x%02x"' % i for i in range(64 * k, 64 * k + 64)))
    pre = "".join(part(k) for k in range(4)) + " var zb = zp0(); zb.extend(zp1()); zb.extend(zp2()); zb.extend(zp3());"
    items = []
    for i in item:
        for p, q, r in (("", "", ""), ("k", "", ""), ("", "z", "a"), ("", "a", "z"), ("long prefix, longer than a word ", "y", ""), ("p", "", "a much longer rest, after the byte that decides")):
            src = "for (var i = 0; i < 256; i += 1) { const a = '%s' + zb[i] + '%s'; const b = '%s' + zb[%d] + '%s'; const lt = i != %d ? i < %d : %s; const gt = i != %d ? i > %d : %s; if ((a < b) != lt or (a > b) != gt or (a <= b) == gt or (a >= b) == lt or (b < a) != gt or (b > a) != lt or (a == b) == (lt or gt)) { print(i); } } print('done');" % (p, q, p, i, r, i, i, str(q < r).lower(), i, i, str(q > r).lower())
            items.append(("ordering:%d:%s:%s" % (i, p, q), src, "done\n"))
    mc.session(sh, w, items, prelude=pre, flags=0, n=100)


c.explore("ordering", ordering, mc.chunks(range(256), 16))


c.bounds = dict(values=n, pairs=n * n, routes=22, emptied="all containers of up to %d entries reduced to every smaller size" % MAX)
c.finish()

"""P01: expressions, by enumeration of expression programs against the reference interpreter."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

c = mc.Check("P01", rule="a program per (expression tree, operand supply, context); non-trivial = a distinct (status, output) of the reference")
EXE = c.build("plain")
ARITH = ["+", "-", "*", "/", "%", "**"]
ALLB = ARITH + ["&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "and", "or"]
NAMES = "abcd"
VALS = {"a": "7", "b": "3", "c": "2", "d": "5"}


def shapes(n):
    """all full binary trees with n leaves"""
    if n == 1:
        yield 0
        return
    for k in range(1, n):
        for l in shapes(k):
            for r in shapes(n - k):
                yield (l, r)


def render(t, ops, leaves, top=True):
    if t == 0:
        return next(leaves)
    l = render(t[0], ops, leaves, False)
    o = next(ops)
    r = render(t[1], ops, leaves, False)
    s = "%s %s %s" % (l, o, r)
    return s if top else "(" + s + ")"


def exprs(n, ops, flat_only=False):
    """all flat (precedence-decided) and all parenthesised expressions over n leaves"""
    for o in it.product(ops, repeat=n - 1):
        yield lambda lv, o=o: " ".join(x for p in zip(lv, o + ("",)) for x in p if x)
        if not flat_only and n > 2:
            for s in shapes(n):
                yield lambda lv, o=o, s=s: render(s, iter(o), iter(lv))


def leafmodes(n):
    return it.product((0, 1), repeat=n)


def numeric(n, ops, flat_only, ctxs):
    for e in exprs(n, ops, flat_only):
        for m in leafmodes(n):
            names = NAMES[:n]
            text = e([VALS[x] if lit else x for x, lit in zip(names, m)])
            for ctx in ctxs:
                yield text, names, ctx


def in_ctx(text, names, ctx):
    if ctx == "param":
        return "print((def (%s) => %s)(%s));" % (", ".join(names), text, ", ".join(VALS[n] for n in names))
    if ctx == "local":
        return "".join("var %s = %s;" % (n, VALS[n]) for n in names) + "print(%s);" % text
    if ctx == "upvalue":
        return "print((def (%s) => (def () => %s)())(%s));" % (", ".join(names), text, ", ".join(VALS[n] for n in names))
    raise ValueError(ctx)


def part_numeric(sh, item):
    w = mc.worker(EXE)
    mc.diff_programs(sh, w, [("%s:%s" % (ctx, t), in_ctx(t, n, ctx)) for t, n, ctx in item], batch_ok=30)


items = []
items += list(numeric(2, ALLB, False, ("param", "local", "upvalue")))
items += list(numeric(3, ARITH + ["==", "<", "and", "|"] if c.quick else ALLB, False, ("param", "upvalue") if c.quick else ("param", "local", "upvalue")))
items += list(numeric(4, ["+", "-", "*", "**"] if c.quick else ARITH + ["<", "or"], False, ("param",)))
if c.quick:
    items += list(numeric(4, ["-", "/", "%", "<", "or"], True, ("param",)))
else:
    items += list(numeric(4, ALLB, True, ("upvalue",)))
c.explore("numeric", part_numeric, mc.chunks(items, 600))

# ---------------------------------------------------------------- prefixed operands
PREF = ["", "-", "not ", "- -", "not not ", "-(", "not ("]


def prefixed(n, ops, prefs, modes):
    for e in exprs(n, ops, True):
        for ps in it.product(prefs, repeat=n):
            for m in modes(n):
                lv = []
                for x, p, lit in zip(NAMES, ps, m):
                    v = VALS[x] if lit else x
                    lv.append(p + v + (")" if p.endswith("(") else ""))
                yield e(lv), NAMES[:n], "param"


items = list(prefixed(2, ALLB, PREF, leafmodes))
items += list(prefixed(3, ARITH if c.quick else ALLB, ["", "-"], leafmodes))
items += [("%s%s" % (p, x), "", "param") for p in PREF[:5] for x in ("true", "false", "nil", "0", "1", "'a'", "''", "[]", "[0]", "true or true", "false and 1", "true == false",
                                                         "true.toString()", "'ab'[0]", "[1][0]", "[true][0]")]
items += [("%s%s%s" % (p, q, x), "", "param") for p in PREF[:5] for q in PREF[:5] for x in ("true", "false", "1", "1 + 2", "true and false", "def () => true", "def () => 5")]
c.explore("prefix", part_numeric, mc.chunks(items, 400))

# ---------------------------------------------------------------- all operator x kind x kind x supply
KINDS = ["nil", "true", "false", "0", "2", "-1.5", "''", "'a'", "'ab'", "[]", "[1]", "[2, 'x']", "{}", "{'k': 1}", "f0"]
SUP = ["lit", "local", "global", "upvalue", "field", "elem", "dictval", "call"]
PRE = "def f0() { return 1; } def id(x) { return x; } class Box { init(var v) {} }\n"


def supply(kind, mode, n):
    """-> (setup at top level, setup in function, expression)"""
    v = "v%d" % n
    if mode == "lit":
        return "", "", kind
    if mode == "global":
        return "var %s = %s;" % (v, kind), "", v
    if mode == "local":
        return "", "var %s = %s;" % (v, kind), v
    if mode == "upvalue":
        return "", "UP var %s = %s;" % (v, kind), v
    if mode == "field":
        return "", "var %s = Box(%s);" % (v, kind), v + ".v"
    if mode == "elem":
        return "", "var %s = [9, %s];" % (v, kind), v + "[1]"
    if mode == "dictval":
        return "", "var %s = {'z': %s};" % (v, kind), v + "['z']"
    return "", "", "id(%s)" % kind


def binprog(op, k1, k2, s1, s2):
    g1, l1, e1 = supply(k1, s1, 1)
    g2, l2, e2 = supply(k2, s2, 2)
    up = "UP" in l1 or "UP" in l2
    l1, l2 = l1.replace("UP ", ""), l2.replace("UP ", "")
    body = "return %s %s %s;" % (e1, op, e2)
    if up:
        body = "def inner() { %s } return inner();" % body
    return PRE + g1 + g2 + "\ndef t() { %s %s %s }\nprint(t());" % (l1, l2, body)


def part_single(sh, item):
    w = mc.worker(EXE)
    mc.diff_programs(sh, w, [x if isinstance(x, tuple) else (x, x) for x in item])


def kinds_items():
    for op in ALLB:
        for k1, k2 in it.product(KINDS, repeat=2):
            # f0 is printed with an address only as an operand of and/or
            if op in ("and", "or") and "f0" in (k1, k2):
                continue
            for s1, s2 in ([("lit", "lit"), ("local", "upvalue"), ("call", "global")] if c.quick else it.product(SUP, repeat=2)):
                yield "kinds:%s:%s:%s:%s:%s" % (op, k1, k2, s1, s2), binprog(op, k1, k2, s1, s2)
    # every supply pair on a few non-commutative cases
    for op, k1, k2 in [("-", "7", "2"), ("**", "2", "5"), ("+", "'a'", "'b'"), ("+", "[1]", "[2]"), ("<", "1", "2"), ("and", "1", "2"), ("or", "0", "2"), ("%", "7", "3"),
                       ("/", "7", "2"), ("==", "'a'", "'a'"), ("!=", "[1]", "[1]"), (">=", "2", "2"), ("|", "4", "1")]:
        for s1, s2 in it.product(SUP, repeat=2):
            yield "supply:%s:%s:%s" % (op, s1, s2), binprog(op, k1, k2, s1, s2)


c.explore("kinds", part_single, mc.chunks(kinds_items(), 500))

# ---------------------------------------------------------------- evaluation order and short circuits
TRACE = "def t(n, v) { print('e' + n.toString()); return v; }\n"
LEAF = ["nil", "0", "3", "[5, 6]"]


def order_items():
    n3 = ["and", "or", "==", "+", "?"]
    for o1, o2 in it.product(n3, repeat=2):
        for vs in it.product(LEAF[:3], repeat=4):
            t = ["t(%d, %s)" % (i, v) for i, v in enumerate(vs)]

            def j(o, a, b):
                return "%s ? %s : t(9, 8)" % (a, b) if o == "?" else "%s %s %s" % (a, o, b)
            for s in ("(%s)" % j(o1, t[0], t[1]) + (" ? %s : %s" % (t[2], t[3]) if o2 == "?" else " %s %s" % (o2, t[2])),
                      j(o1, t[0], "(%s)" % j(o2, t[1], t[2])), "not (%s)" % j(o1, t[0], t[1]) + (" ? %s : %s" % (t[2], t[3]) if o2 == "?" else " %s %s" % (o2, t[2])),
                      j(o1, t[0], j(o2, t[1], t[2]))):
                yield TRACE + "print(%s);" % s
    forms = ["[{0}, {1}, {2}]", "({{{0}: {1}, 7: {2}}})[{3} - {3} + 7]", "f({0}, {1}, {2})", "({0} - {1}) * ({2} + {3})", "[9, 8, 7, 6][{0} * 0 + {1} * 0]",
             "[[1, 2], [3, 4]][{0} * 0][{1} * 0 + 1]", "f(f({0}, {1}, {2}), {3}, 0)", "[1, 2, 3][{0} * 0:{1}]", "o.m({0}, {1})", "o?.m({0}, {1})", "n?.m({0}, {1})", "n?.v",
             "o?.v", "{0} < {1}", "{0} ** {1} ** {2}", "{0} - {1} - {2} - {3}", "f(...[{0}, {1}, {2}])", "f({0}, ...[{1}, {2}])", "o.w = {0}", "o.v += {0}", "l[{0} * 0] = {1}", "l[{0} * 0] += {1}",
             "d[{0}] = {1}", "x = {0} + {1}", "x += {0}", "g({0}).v", "g({0}).v += {1}", "g({0}).l[{1} * 0] *= {2}"]
    pre = TRACE + "class C { init(var v) { this.l = [4, 5]; } m(a, b) { return [a, b, this.v]; } }\ndef f(a, b, c) { return [a, b, c]; } var o = C(1); def g(q) { print('g'); o.v = q; return o; } var n = nil; var l = [1, 2]; var d = {}; var x = 10;\n"
    for fm in forms:
        for vs in it.product(["2", "3"], repeat=4):
            ex = fm.format(*["t(%d, %s)" % (i, v) for i, v in enumerate(vs)])
            yield pre + "print(%s); print(o.v); print(o.l); print(l); print(d); print(x);" % ex
            yield pre + "def h() { var x = 20; var l = [7]; print(%s); print(x); print(l); return def () => [x, l]; } print(h()()); print(x);" % ex


c.explore("order", part_single, mc.chunks(order_items(), 300))

# ---------------------------------------------------------------- compound assignment on every target
TARGETS = {
    "local": ("var x = {0};", "x"), "upvalue": ("UP var x = {0};", "x"), "field": ("var o = B({0});", "o.v"), "elem": ("var l = [9, {0}];", "l[1]"), "negelem": ("var l = [{0}, 8];", "l[-2]"),
    "dict": ("var d = {{'k': {0}}};", "d['k']"), "dictnum": ("var d = {{1: {0}}};", "d[1]"), "global": ("gx = {0};", "gx"), "nested": ("var o = B([{0}]);", "o.v[0]"),
    "nestfield": ("var l = [B({0})];", "l[0].v"), "this": ("var o = B({0});", "THIS"), "priv": ("var o = B({0});", "PRIV"),
}


def compound_items():
    pre = "var gx = nil; var trace = []; def id(x) {{ trace.push(1); return x; }} class B {{ private p; init(var v) {{ this.p = v; }} th(r) {{ this.v {op} r; return this.v; }} pr(r) {{ this.p {op} r; return this.p; }} get() {{ return [this.v, this.p]; }} }}\n"
    vals = ["7", "2", "'s'", "[1]", "nil", "0", "-3"]
    for (name, (setup, tgt)), op, a, b in it.product(TARGETS.items(), ["=", "+=", "-=", "*=", "/=", "&=", "|=", "^="], vals, vals):
        for rhs in (["{0}", "id({0})"] if c.quick else ["{0}", "id({0})", "({0})", "w", "true ? {0} : 1"]):
            r = rhs.format(b)
            p = pre.format(op=op)
            s = setup.format(a)
            up = s.startswith("UP ")
            s = s.replace("UP ", "")
            if tgt == "THIS":
                body = "print(o.th(%s)); print(o.get());" % r
            elif tgt == "PRIV":
                body = "print(o.pr(%s)); print(o.get());" % r
            else:
                body = "print(%s %s %s); print(%s);" % (tgt, op, r, tgt)
            if up:
                body = "def inner() { %s } inner(); print(x);" % body
            yield "compound:%s:%s:%s:%s:%s" % (name, op, a, b, rhs), p + "def run() { var q = 1; var w = %s; %s %s print(q); print(w); }\nrun(); print(trace);" % (b, s, body)


c.explore("compound", part_single, mc.chunks(compound_items(), 300))

# ---------------------------------------------------------------- constant and local slots
TEMPL = ["x - 2 - 3", "2 - x - 3", "2 - 3 - x", "-x - 2", "x * (2 - 3)", "2 ** 3 ** x", "x == 2 ? 3 - 1 : 4 - 2", "'a' + 'b'", "x < 2 and 3 - 1", "not x == 2", "-2 - -3", "[x - 1, 2 - 1][1]",
         "x % 3 - 2", "1 + x + 1 + 1", "-(2 - 3)", "x - 2 * 3"]


def slot_items():
    for n in range(0, 252, 1):
        for t in TEMPL:
            kc = "".join("%d;" % i for i in range(n))
            # n earlier constants in the same function
            yield "consts:%d:%s" % (n, t), "def f(x) { %s return %s; }\nprint(f(7)); print(f(2));" % (kc, t)
    for n in range(0, 254, 1 if not c.quick else 3):
        for t in TEMPL[:8] if c.quick else TEMPL:
            kl = "".join("var v%d = nil;" % i for i in range(n))
            yield "locals:%d:%s" % (n, t), "def f(x) { %s var y = x; y += 1; { var x = y; return [%s, y, %s]; } }\nprint(f(7)); print(f(2));" % (kl if n < 253 else kl[:0], t, "v%d" % (n - 1) if 0 < n < 253 else "1")


def part_slots(sh, item):
    w = mc.worker(EXE)
    mc.diff_programs(sh, w, item)


c.explore("slots", part_slots, mc.chunks(slot_items(), 60))

# ---------------------------------------------------------------- positions an expression can stand in
POS = ["print({0});", "var r = {0}; print(r);", "def f() {{ return {0}; }} print(f());", "print([{0}]);", "print({{'k': {0}}});", "print(id({0}));", "if ({0}) {{ print(1); }} else {{ print(2); }}",
       "{0}; print(a);", "print([{0}, {0}]);", "print(id({0}) == id({0}));", "var l = [1, 2]; l[0] = {0}; print(l);", "var o = Box(1); o.v = {0}; print(o.v);", "print((def () => {0})());",
       "switch ({0}) {{ case 1, 7: {{ print('s'); }} default: {{ print('d'); }} }}", "for (var i = {0}; i != nil; i = nil) {{ print(i); }}", "print(({0}));", "print('x' + ({0}).toString());",
       "class K {{ init() {{ this.v = {0}; }} }} print(K().v);", "class K {{ var v = {0}; }} print(K.v);", "print(nil == {0});", "var n = 0; while ({0}) {{ n += 1; if (n == 2) break; }} print(n);",
       "print(id(...[{0}]));", "def g(p={0}) {{ return p; }} print(g());", "enum E {{ A = {0} }} print(E.A);"]
EX = ["a", "7", "a + 1", "a - 2 - 3", "-a", "not a", "a and 0", "a or 0", "a ? 1 : 2", "a == 7", "[a][0]", "id(a)", "bx.v", "'s'", "'s'[0]", "nil", "true", "(a)", "a < 1", "2 * 3 - 1", "bx.m()", "a ** 2", "id(id(a))",
      "(def (z) => z + 1)(a)", "[1, a][0:1]", "{'q': a}['q']", "bx?.v", "nl?.v", "a != 7 or a == 7", "1 < a and a < 9"]


def pos_items():
    pre = "def id(x) { return x; } class Box { init(var v) {} m() { return [this.v]; } } "
    decl = "var a = 7; var bx = Box(4); var nl = nil; "
    for p, e in it.product(POS, EX):
        if ("enum" in p or "class K { var" in p.replace("{{", "{")) and False:
            continue
        yield "pos:%s:%s:top" % (p, e), pre + decl + p.format(e)
        yield "pos:%s:%s:block" % (p, e), pre + "{ " + decl + p.format(e) + " }"
        yield "pos:%s:%s:fn" % (p, e), pre + "def run() { " + decl + p.format(e) + " } run();"
        yield "pos:%s:%s:closure" % (p, e), pre + "def run() { " + decl + "def in() { " + p.format(e) + " } in(); } run();"


c.explore("positions", part_single, mc.chunks(pos_items(), 300))

# ---------------------------------------------------------------- optional chaining: only nil ends a chain, whatever else the receiver is
# a value is (text when printed, what its members are); the members of the object lead to values of every kind
CH = {"nil": ("nil", "nil"), "zero": ("0", "number"), "empty": ("", "string"), "no": ("false", "bool"), "yes": ("true", "bool"), "list": ("[]", "list"), "dict": ("{}", "dict"), "set": ("{}", "set"), "err": (None, "result"), "one": ("1", "number"), "text": ("ab", "string"), "full": ("[0]", "list"), "self": (None, "O")}
CHPRE = """class O { init() { this.nil_ = nil; this.zero = 0; this.empty = ''; this.no = false; this.yes = true; this.list = []; this.dict = {}; this.set_ = set(); this.err = Error('e'); this.one = 1; this.text = 'ab'; this.full = [0]; this.self = this; }
  get(k) { return this.getAttribute(k); } }
var o = O(); var log = 0; def arg(x) { log += 1; return x; }
"""
NATIVE = {"toString": lambda k: CH[k][0] if CH[k][1] in ("number", "bool", "list", "dict", "set", "nil") else None, "toBool": lambda k: {"zero": "false", "empty": "false", "list": "false", "dict": "false", "set": "false", "nil": "false"}.get(k, "true") if CH[k][1] in ("number", "string", "list", "dict", "set", "nil") else None,
          "len": lambda k: {"empty": "0", "list": "0", "dict": "0", "set": "0", "text": "2", "full": "1"}.get(k), "success": lambda k: "false" if k == "err" else None}
attr = lambda k: {"nil": "nil_", "set": "set_"}.get(k, k)


def chain_items():
    links = (".", "?.")
    finals = [None] + list(NATIVE)
    for k in CH:
        for how in ("attr", "get", "arg"):
            for l1 in links:
                first = {"attr": "o%s%s" % (l1, attr(k)), "get": "o%sget('%s')" % (l1, attr(k)), "arg": "o%sget(arg('%s'))" % (l1, attr(k))}[how]
                calls = 1 if how == "arg" else 0
                for fin in finals:
                    for l2 in links:
                        if fin is None:
                            # one more step of an object, after what ends in nil or in the object itself
                            for l3 in links if k in ("nil", "self") else ():
                                src = "%s%sget(arg('one'))%stoString()" % (first, l2, l3)
                                if k == "self":
                                    yield src, "1", calls + 1
                                elif l2 == "." or l3 == ".":
                                    yield src, False if l2 == "." else "nil", calls      # nil has a toString of its own
                                else:
                                    yield src, "nil", calls
                            continue
                        src = "%s%s%s()" % (first, l2, fin)
                        if k == "nil" and l2 == "?.":
                            yield src, "nil", calls
                            continue
                        if k == "nil":
                            want = NATIVE[fin](k)
                            yield src, want if want is not None else False, calls
                            continue
                        if fin == "toString" and CH[k][0] is None or CH[k][1] == "O":
                            continue
                        want = NATIVE[fin](k)
                        yield src, want if want is not None else False, calls
    # a receiver that is no object at all
    for e, k in (("nil", "nil"), ("0", "zero"), ("''", "empty"), ("false", "no"), ("[]", "list"), ("{}", "dict"), ("set()", "set"), ("Error('e')", "err"), ("true", "yes"), ("1", "one"), ("'ab'", "text"), ("[0]", "full")):
        for fin in NATIVE:
            if fin == "toString" and CH[k][0] is None:
                continue
            want = "nil" if k == "nil" else NATIVE[fin](k)
            yield "(%s)?.%s()" % (e, fin), want if want is not None else False, 0


def chains(sh, item):
    items = []
    for src, want, calls in item:
        for form in ("print(%s);", "def f() { return %s; } print(f());", "var v = %s; print(v);", "def f(p) { var q = 1; p = %s; return p; } print(f(2));"):
            code = "log = 0; " + form % src
            items.append(("chain:" + form % src, code + " print(log);", mc.fails(out="") if want is False else "%s\n%d\n" % (want, calls)))
    mc.session(sh, mc.worker(EXE), items, prelude=CHPRE, flags=0)


c.explore("chains", chains, mc.chunks(dict.fromkeys(chain_items()), 300))
c.bounds = dict(leaves=4, prefixes=2, constants=251, locals=252, supply_modes=len(SUP), kinds=len(KINDS))
c.finish()

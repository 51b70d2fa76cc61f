"""P37: reflection. All small class hierarchies x members x ways to set them: what attribute natives, methods(), toDict(), annotations, Object and Inspect report
against what direct access sees."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, hist
from mc import fails

c = mc.Check("P37", rule="one class hierarchy with its members, one history of attribute changes, or one chain of calls; non-trivial = distinct (hierarchy, reports)",
             assumptions=["the order of reported names is unspecified", "toDict's names of its parts are public_variables, constants and public_methods"])
EXE = c.build("plain")
PRE = """import Object; import Inspect;
def show(v) { const t = type(v); if (t == 'method' or t == 'function') { return '()' + v(); } return '{}'.format(v); }
def names(l) { return l.sort() == nil ? l.join(',') : l.join(','); }
def sorted(l) { const x = l.copy(); x.sort(); return x.join(','); }
def dict(d) { const k = d.keys(); k.sort(); var s = ''; k.forEach(def (x) => { s += x + '=' + show(d[x]) + ','; }); return s; }
def deep(d) { if (d == nil) { return 'nil'; } if (type(d) != 'dict') { return '{}'.format(d); } const k = d.keys(); k.sort(); var s = '{'; k.forEach(def (x) => { s += x + '=' + deep(d[x]) + ','; }); return s + '}'; }
"""
KINDS = ["none", "var", "const", "method", "static", "private"]
SETS = ["no", "init", "privinit", "param", "privparam", "outside", "setAttribute", "inside"]


def member(kind, cls):
    return {"none": "", "var": "var n = '%s.var'; " % cls, "const": "const n = '%s.const'; " % cls, "method": "n() { return '%s.method'; } " % cls, "static": "static n() { return '%s.static'; } " % cls,
            "private": "private n() { return '%s.private'; } " % cls}[kind]


def hierarchy(chain, how):
    """source of classes and of the instance o; attributes of o; the last class"""
    src, prev = "", None
    for i, k in enumerate(chain):
        cls = "KLMN"[i]
        body = member(k, cls)
        if i == len(chain) - 1:
            body = {"privinit": "private n; ", "inside": ""}.get(how, "") + body
            body += {"no": "", "init": "init() { this.n = 'own'; } ", "privinit": "init() { this.n = 'own'; } ", "param": "init(var n) { } ", "privparam": "init(private n) { } ", "outside": "", "setAttribute": "", "inside": "put() { this.n = 'own'; } "}[how]
        src += "class %s%s { %sother() { return 1; } } " % (cls, " < " + prev if prev else "", body)
        prev = cls
    src += "const o = %s(%s); " % (prev, "'own'" if how in ("param", "privparam") else "")
    src += {"outside": "o.n = 'own'; ", "setAttribute": "o.setAttribute('n', 'own'); ", "inside": "o.put(); "}.get(how, "")
    return src, prev


def direct(chain, how):
    """what o.n is, or None if it is refused"""
    if how in ("init", "param", "outside", "setAttribute", "inside"):
        return "own"
    for i in range(len(chain) - 1, -1, -1):
        if chain[i] in ("method", "static"):
            return "()%s.%s" % ("KLMN"[i], chain[i])
    for i in range(len(chain) - 1, -1, -1):
        if chain[i] in ("var", "const"):
            return "%s.%s" % ("KLMN"[i], chain[i])
    return None


def shapes(sh, item):
    w = mc.worker(EXE)
    items = []
    n, first = item
    for rest in it.product(KINDS, repeat=n - 1):
        chain = (KINDS[first],) + rest
        for how in SETS:
            src, last = hierarchy(chain, how)
            d = direct(chain, how)
            key = "%s:%s" % (",".join(chain), how)
            wrap = lambda s: "def f() { %s%s} f();" % (src, s)
            items.append(("direct:" + key, wrap("print(show(o.n)); "), d + "\n" if d is not None else fails(mc.RUNTIME, "")))
            items.append(("get:" + key, wrap("print(o.hasAttribute('n')); print(show(o.getAttribute('n'))); print(show(o.getAttribute('n', 'dflt'))); print(o.hasAttribute('zz')); print(o.getAttribute('zz')); print(o.getAttribute('zz', 7)); "
                                             "print(o.hasAttribute('other')); print(o.getAttribute('other')()); print(o.hasAttribute('')); print(o.getAttribute('_name')); print(o.hasAttribute('_class')); print(o.getAttribute('_class') == o._class); "),
                          "%s\n%s\n%s\nfalse\nnil\n7\ntrue\n1\nfalse\n%s\ntrue\ntrue\n" % (str(d is not None).lower(), d if d is not None else "nil", d if d is not None else "dflt", last)))
            fields = sorted(set(["_name"] + (["n"] if set(chain) & {"var", "const"} else [])))
            attrs = sorted(["_class"] + (["n"] if how in ("init", "param", "outside", "setAttribute", "inside") else []))
            meth = sorted(set(["other"] + (["n"] if set(chain) & {"method", "static"} else []) + (["init"] if how in ("init", "privinit", "param", "privparam") else []) + (["put"] if how == "inside" else [])))
            items.append(("list:" + key, wrap("const a = o.getAttributes(); print(sorted(a.keys())); print(sorted(a['fields'])); print(sorted(a['attributes'])); print(sorted(a['methods'])); print(sorted(o.methods())); print(sorted(%s.methods())); print(sorted(o._class.methods())); " % last),
                          "attributes,fields,methods\n%s\n%s\n" % (",".join(fields), ",".join(attrs)) + (",".join(meth) + "\n") * 4))
            if how in ("no", "init"):
                var, const = {}, {"_name": last}
                for i in range(len(chain) - 1, -1, -1):
                    if chain[i] in ("var",):
                        var.setdefault("n", "KLMN"[i] + ".var")
                    if chain[i] == "const":
                        const.setdefault("n", "KLMN"[i] + ".const")
                sd = lambda x: "".join("%s=%s," % kv for kv in sorted(x.items()))
                items.append(("dict:" + key, wrap("const a = %s.toDict(); print(sorted(a.keys())); print(dict(a['public_variables'])); print(dict(a['constants'])); print(sorted(a['public_methods'])); " % last),
                              "constants,public_methods,public_variables\n%s\n%s\n%s\n" % (sd(var), sd(const), ",".join(meth))))
            # changing through either way is seen through the other
            items.append(("change:" + key, wrap("print(o.setAttribute('n', 'new')); print(o.n); print(o.getAttribute('n')); o.n = 'newer'; print(o.getAttribute('n')); print(o.hasAttribute('n')); o.n += '!'; print(o.getAttribute('n')); const p = o.copy(); p.setAttribute('n', 1); print(o.n); print(p.n); "),
                          "nil\nnew\nnew\nnewer\ntrue\nnewer!\nnewer!\n1\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("shapes", shapes, [(n, f) for n in range(1, c.pick(4, 5)) for f in range(len(KINDS))])

# ---------------------------------------------------------------- histories
HPRE = PRE + """
class H { var v = 'cv'; const k = 'ck'; private p; init() { this.p = 'pp'; } m() { return 'mm'; } setP(x) { this.p = x; } getP() { return this.p; } setA(x) { this.a = x; } }
var o; var q;
"""
NAMES = ["a", "b", "v", "k", "m", "p", "x y", ""]


def hop(name, code, f):
    return (name, code, f)


def histories(sh, item):
    w = mc.worker(EXE)
    ops = []

    def setter(who, n, val, code):
        def f(s):
            t = dict(s[who])
            t[n] = val
            return tuple(tuple(sorted(t.items())) if i == who else s[i] for i in range(3)), None
        return (code, code, f)
    k = 0
    for n in ("a", "v", "p", "m"):
        k += 1
        ops.append(setter(0, n, str(k), "o.%s = %d" % (n, k)))
        ops.append(setter(0, n, "s%d" % k, "o.setAttribute('%s', 's%d')" % (n, k)))
    ops.append(setter(0, "x y", "xy", "o.setAttribute('x y', 'xy')"))
    ops.append(setter(0, "", "e", "o.setAttribute('', 'e')"))
    ops.append(setter(0, "a", "in", "o.setA('in')"))
    ops.append(setter(2, "p", "priv", "o.setP('priv')"))

    def copyop(s):
        return (s[0], s[0], s[2]), None
    ops.append(("q = o.copy()", "q = o.copy()", copyop))
    ops.append(setter(1, "a", "qa", "q.setAttribute('a', 'qa')"))

    def show(s):
        code = "[o, q].forEach(def (i) => { " + "".join("print('{} {} {}'.format(i.hasAttribute(%r), i.getAttribute(%r, 'd'), i.getAttribute(%r)));" % (n, n, n) for n in ("a", "b", "v", "k", "p", "x y", "")) + \
               "print('{} {}'.format(i.hasAttribute('m'), type(i.getAttribute('m')) == 'method' ? 'mm' : i.getAttribute('m'))); print(sorted(i.getAttributes()['attributes'])); print(i.m()); }); print(o.getP());"
        out = ""
        for who in (0, 1):
            a = dict(s[who])
            for n in ("a", "b", "v", "k", "p", "x y", ""):
                v = a.get(n, {"v": "cv", "k": "ck"}.get(n))
                out += "%s %s %s\n" % (("true", v, v) if v is not None else ("false", "d", "nil"))
            out += "true %s\n%s\nmm\n" % (a.get("m", "mm"), ",".join(sorted(["_class"] + list(a))))
        return code, out + dict(s[2])["p"] + "\n"
    # sorted() prints names joined, the empty name first
    hist.histories(sh, w, HPRE, ("H", "o = H(); q = H(); ", ((), (), (("p", "pp"),))), ops, c.pick(3, 4), show, first=[item])


c.explore("histories", histories, range(14))


# ---- many attributes, names of any length ----
def sizes(sh, item):
    items = []
    for n, k in item:
        key = ["'a{}'.format(%s)", "'name of an attribute {}'.format(%s)", "'x'.repeat(%s)"][k]
        kx = lambda v: key % v
        src = "class S { init() { this.first = -1; } get(n) { return this.getAttribute(n); } } const o = S(); const q = S(); var e = 0; for (var i = 0; i < %d; i += 1) { o.setAttribute(%s, i); if (o.getAttribute(%s) != i) { e += 1; } }" % (n, kx("i"), kx("i"))
        src += "for (var i = 0; i < %d; i += 1) { if (o.get(%s) != i or not o.hasAttribute(%s) or o.getAttribute(%s, 'd') != i or q.hasAttribute(%s) or q.getAttribute(%s, 'd') != 'd') { e += 1; } }" % (n, kx("i"), kx("i"), kx("i"), kx("i"), kx("i"))
        src += "for (var i = %d; i < %d; i += 1) { if (o.hasAttribute(%s)) { e += 1; } }" % (n, n + 20, kx("i"))
        src += "for (var i = 0; i < %d; i += 3) { o.setAttribute(%s, [i]); } const c = o.copy(); const d = o.deepCopy(); for (var i = 0; i < %d; i += 1) { const w = i %% 3 == 0 ? [i] : i; if (o.getAttribute(%s) != w or c.getAttribute(%s) != w or d.getAttribute(%s) != w) { e += 1; } }" % (n, kx("i"), n, kx("i"), kx("i"), kx("i"))
        src += "const l = o.getAttributes()['attributes']; print(l.len()); const t = set(); l.forEach(def (x) => { t.add(x); }); print(t.len()); for (var i = 0; i < %d; i += 1) { if (not t.contains(%s)) { e += 1; } } print(o.first); c.setAttribute('only', 1); print(o.hasAttribute('only')); print(e);" % (n, kx("i"))
        want = n + 2
        items.append(("many:%d:%d" % (n, k), "def f() { %s } f();" % src, "%d\n%d\n-1\nfalse\n0\n" % (want, want)))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True)


c.explore("many", sizes, mc.chunks([(n, k) for n in sorted(set(range(c.pick(80, 300))) | {95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 384, 385, 513, 769, 1025}) for k in range(3)], 20))


def misuse(sh, item):
    w = mc.worker(EXE)
    items = []
    for call in ["hasAttribute()", "hasAttribute(1)", "hasAttribute(nil)", "hasAttribute('a', 'b')", "hasAttribute(['a'])", "getAttribute()", "getAttribute(1)", "getAttribute(nil, 1)", "getAttribute('a', 1, 2)", "getAttributes(1)", "setAttribute()", "setAttribute('a')", "setAttribute(1, 2)", "setAttribute(nil, 2)", "setAttribute('a', 1, 2)", "methods(1)", "toString(1)"]:
        items.append(("misuse", "def f() { class A { } const o = A(); print(1); o.%s; print(2); } f();" % call, fails(mc.RUNTIME, "1\n")))
    for call in ["methods(1)", "toDict(1)", "toString(1)", "hasAttribute('a')", "getAttribute('a')"]:
        items.append(("misuse", "def f() { class A { } print(1); A.%s; print(2); } f();" % call, fails(mc.RUNTIME, "1\n")))
    # a class's own method of the same name is the one that is called
    for m in ("hasAttribute", "getAttribute", "methods", "setAttribute", "getAttributes", "toString"):
        items.append(("own", "def f() { class A { %s(x) { return 'own' + x; } } print(A().%s('!')); } f();" % (m, m), "own!\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("misuse", misuse, [0])

# ---------------------------------------------------------------- annotations
AN = [(), ("X",), ("Y(1)",), ("X", "Y(1)"), ("X('s')", "Z([1, 2])", "Y({'k': true})")]
VAL = {"X": ("X", "nil"), "Y(1)": ("Y", "1"), "X('s')": ("X", "s"), "Z([1, 2])": ("Z", "[1, 2]"), "Y({'k': true})": ("Y", "{k=true,}")}


def ann(a):
    return "{" + "".join("%s=%s," % kv for kv in sorted(dict(VAL[x] for x in a).items())) + "}"


def merged(*ds):
    d = {}
    for x in ds:
        d.update(x)
    return d


def annotations(sh, item):
    w = mc.worker(EXE)
    items = []

    def at(a):
        return "".join("@%s " % x for x in a)

    def sd(d):
        return "{" + "".join("%s=%s," % kv for kv in sorted(d.items())) + "}" if d else None

    def allow(d):
        return ["nil", "{}"] if not d else [sd(d)]
    for kind in range(3):
        for a, b in it.product(AN, repeat=2):
            A0 = AN[item]
            if kind == 0:
                # class
                src = "%sclass A { } %sclass B < A { } " % (at(a), at(b)) if item == 0 else "%sclass A { } %sclass B < A { } %sclass C < B { } " % (at(a), at(A0), at(b))
                da, db = dict(VAL[x] for x in a), merged(dict(VAL[x] for x in a), dict(VAL[x] for x in A0) if item else {}, dict(VAL[x] for x in b))
                parts = [("A", "classAnnotations", da), ("C" if item else "B", "classAnnotations", db)]
            elif kind == 1:
                src = "class A { %sm() { } %sn() { } } class B < A { %sm() { } } class C < A { m() { } %so() { } } " % (at(a), at(b), at(A0), at(b))
                ma = {k: ann(v) for k, v in (("m", a), ("n", b)) if v}
                mb = merged(ma, {"m": ann(A0)} if A0 else {})
                mcc = merged(ma, {"o": ann(b)} if b else {})
                parts = [("A", "methodAnnotations", ma), ("B", "methodAnnotations", mb), ("C", "methodAnnotations", mcc)]
            else:
                src = "class A { %svar m = 1; %sconst n = 2; var u = 1; } class B < A { %svar m = 3; } class C < A { %sconst o = 4; p() { } } " % (at(a), at(b), at(A0), at(b))
                ma = {k: ann(v) for k, v in (("m", a), ("n", b)) if v}
                parts = [("A", "fieldAnnotations", ma), ("B", "fieldAnnotations", merged(ma, {"m": ann(A0)} if A0 else {})), ("C", "fieldAnnotations", merged(ma, {"o": ann(b)} if b else {}))]
            for cls, attr, d in parts:
                for who in ("%s.%s" % (cls, attr), "%s()._class.%s" % (cls, attr)):
                    items.append(("%s:%s" % (attr, src), "def f() { %sprint(deep(%s)); } f();" % (src, who), [x + "\n" for x in allow(d)]))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("annotations", annotations, range(len(AN)))

# ---------------------------------------------------------------- Object
MOD = """import Object;
class InMod { init(x) { this.x = x; } }
const notClass = 5;
def ref(n) { return Object.getClassRef(n); }
def make(n, x) { return Object.createFrom(n, x); }
"""
OPRE = PRE + """
import 'm.du' as M;
class P0 { who() { return 'P0'; } }
class P1 { init(a) { this.a = a; } who() { return 'P1' + '{}'.format(this.a); } }
class P2 < P1 { init(a, b = 'def') { super.init(a); this.b = b; } who() { return super.who() + '{}'.format(this.b); } }
class V { init(l) { this.n = l.len(); } who() { return 'V' + this.n.toString(); } }
abstract class Ab { abstract who() }
trait Tr { t() { return 1; } }
enum En { a, b }
class Bad { init() { this.x = nil + 1; } }
def fun() { return 3; }
var num = 4; var str = 'P0'; const cst = P0; var alias = P1;
class Shadow { }
def through(n) { return Object.getClassRef(n); }
class Wr { static ref(n) { return Object.getClassRef(n); } make(n, ...a) { return Object.createFrom(n, ...a); } }
"""


def objects(sh, item):
    w = mc.worker(EXE, cwd_files={"m.du": MOD})
    items = []
    refs = ["Object.getClassRef(%s)", "through(%s)", "Wr.ref(%s)", "(def (n) => Object.getClassRef(n))(%s)", "[%s].map(def (n) => Object.getClassRef(n))[0]"]
    for r in refs:
        for cls in ("P0", "P1", "P2", "Bad", "Wr", "Ab", "V"):
            items.append(("ref", "const r = %s; print(r.success()); print(r.unwrap() == %s); print('{}'.format(r.unwrap()) == '{}'.format(%s));" % (r % ("'%s'" % cls), cls, cls), "true\ntrue\ntrue\n"))
        for n, cls in (("cst", "P0"), ("alias", "P1")):
            items.append(("ref", "print(%s.unwrap() == %s);" % (r % ("'%s'" % n), cls), "true\n"))
        for n in ("En", "fun", "num", "str", "nope", "", "InMod", "M", "Object", "P0 ", "p0", "this", "P0\\x00", "x" * 300, "\u00e9"):
            items.append(("noref", "const r = %s; print(r.success());" % (r % ("'%s'" % n)), "false\n"))
    items.append(("mod", "print(M.ref('InMod').unwrap() == M.InMod); print(M.ref('P0').success()); print(M.ref('notClass').success()); print(M.make('InMod', 4).unwrap().x); print(M.make('P0', 1).success());", "true\nfalse\nfalse\n4\nfalse\n"))
    makes = ["Object.createFrom(%s)", "(def (a) => a)(Object.createFrom(%s))", "Wr().make(%s)"]
    for m in makes:
        for args, want in (("'P0'", "P0"), ("'P1', 1", "P11"), ("'P1', nil", "P1nil"), ("'P1', [1, 2]", "P1[1, 2]"), ("'P2', 1", "P11def"), ("'P2', 1, 2", "P112"), ("'V', [1, 2]", "V2"), ("'V', [1, 2, 3]", "V3"), ("'alias', 2", "P12"), ("'cst'", "P0")):
            items.append(("make", "const r = %s; print(r.success()); print(r.unwrap().who());" % (m % args), "true\n%s\n" % want))
        for args in ("'nope'", "'En'", "'fun'", "'num'", "''", "'nope', 1, 2, 3"):
            items.append(("nomake", "const r = %s; print(r.success()); print(type(r.unwrapError()));" % (m % args), "false\nstring\n"))
        for args in ("'P1'", "'P1', 1, 2", "'P2'", "'Bad'", "'Ab'", "'Tr'", "1", "nil", "['P0']"):
            items.append(("badmake", "print(1); %s; print(2);" % (m % args), fails(mc.RUNTIME, "1\n")))
    for call in ("getClassRef()", "getClassRef(1)", "getClassRef(nil)", "getClassRef('P0', 1)", "createFrom()", "hash()", "hash(1, 2)"):
        items.append(("misuse", "print(1); Object.%s; print(2);" % call, fails(mc.RUNTIME, "1\n")))
    vals = ["nil", "true", "false", "0", "1", "-1", "1.5", "''", "'a'", "'b'", "'ab'", "num", "En.a + 2", "l1", "l2", "d1", "d2", "o1", "o2", "P0", "P1", "fun"]
    pre = "const l1 = [1]; const l2 = [1]; const d1 = {}; const d2 = {}; const o1 = P0(); const o2 = P0();"
    same = {("'ab'", "'ab'")}
    for a in vals:
        items.append(("hash", "def f() { %s print(Object.hash(%s) == Object.hash(%s)); print(type(Object.hash(%s))); } f();" % (pre, a, a, a), "true\nstring\n"))
        for b in vals:
            if a < b:
                items.append(("hash", "def f() { %s print(Object.hash(%s) == Object.hash(%s)); } f();" % (pre, a, b), "false\n"))
    items.append(("hash", "print(Object.hash('a' + 'b') == Object.hash('ab')); print(Object.hash(1 + 2) == Object.hash(3)); var x = [1]; const h = Object.hash(x); x.push(2); print(Object.hash(x) == h);", "true\ntrue\ntrue\n"))
    for v, t in (("1", "1"), ("'a'", '"a"'), ("nil", "null"), ("true", "true"), ("[1, 'b', nil]", '[1, "b", null]'), ("{}", "{}"), ("[]", "[]"), ("{'a': [1]}", '{"a": [1]}')):
        items.append(("pretty", "print(Object.prettyPrint(%s));" % v, [t + "\nnil\n", t.replace(", ", ",").replace(": ", ":") + "\nnil\n"]))
    items.append(("pretty", "Object.prettyPrint({'a': [1, 2]}, 2);", '{\n  "a": [\n    1,\n    2\n  ]\n}\n'))
    mc.session(sh, w, items, prelude=OPRE, flags=0, by_source=True)


c.explore("objects", objects, [0])

# ---------------------------------------------------------------- Inspect: all chains of calls
IMOD = "import Inspect;\ndef call(f) {\n\n  return f();\n}\ndef here() {\n  return Inspect.getFile() + ' ' + Inspect.getFile(1);\n}\n"
CALLS = ["fn", "method", "static", "init", "lambda", "closure", "module", "bound"]


def inspect(sh, item):
    w = mc.worker(EXE, cwd_files={"im.du": IMOD})
    for chain in ([] if item < 0 else [CALLS[item]] + list(r) for d in range(c.pick(3, 4)) for r in it.product(CALLS, repeat=d)):
        # f0 is the innermost; f_k calls f_{k-1} on a line of its own
        lines = ["import Inspect; import 'im.du' as IM;", "def report() {", "  print(Inspect.getFrameCount());", "  for (var i = 0; i <= Inspect.getFrameCount(); i += 1) {", "    print(Inspect.getLine(i).toString() + ' ' + Inspect.getFile(i));", "  }", "  return 0;", "}"]
        where = [(5, "case.du")]
        prev = "report()"
        for k, kind in enumerate(chain):
            n = "f%d" % k
            lines.append("// %s" % n)
            if kind == "fn":
                lines += ["def %s() {" % n, "  return %s;" % prev, "}"]
                where.append((len(lines) - 1, "case.du"))
                prev = n + "()"
            elif kind in ("method", "bound"):
                lines += ["class C%d {" % k, "  run() {", "    const x = 1;", "    return %s;" % prev, "  }", "}"]
                where.append((len(lines) - 2, "case.du"))
                if kind == "bound":
                    lines.append("const b%d = C%d().run;" % (k, k))
                    prev = "b%d()" % k
                else:
                    prev = "C%d().run()" % k
            elif kind == "static":
                lines += ["class C%d {" % k, "  static run() { return %s; }" % prev, "}"]
                where.append((len(lines) - 1, "case.du"))
                prev = "C%d.run()" % k
            elif kind == "init":
                lines += ["class C%d {" % k, "  init() {", "    %s;" % prev, "  }", "}"]
                where.append((len(lines) - 2, "case.du"))
                prev = "C%d()" % k
            elif kind == "lambda":
                lines += ["const %s = def () => %s;" % (n, prev)]
                where.append((len(lines), "case.du"))
                prev = n + "()"
            elif kind == "closure":
                lines += ["def mk%d(a) {" % k, "  return def () => {", "    a += 1;", "    return %s;" % prev, "  };", "}", "const %s = mk%d(1);" % (n, k)]
                where.append((len(lines) - 3, "case.du"))
                prev = n + "()"
            else:
                lines += ["const %s = def () => %s;" % (n, prev)]
                where.append((len(lines), "case.du"))
                where.append((4, "im.du"))
                prev = "IM.call(%s)" % n
        lines.append("%s;" % prev)
        where.append((len(lines), "case.du"))
        lines.append("print(Inspect.getFrameCount());")
        r = mc.run_confirm(w, srcs=[("case.du", "\n".join(lines) + "\n")])
        # a module may be named by its path
        got = [x.rsplit("/", 1)[-1] if " " not in x else x.split(" ")[0] + " " + os.path.basename(x.split(" ", 1)[1]) for x in r.out.decode("latin-1").split("\n")]
        want = ["%d" % (len(where) - 1)] + ["%d %s" % x for x in where] + ["0", ""]
        sh.evals += 1
        sh.transitions += len(where)
        sh.state(tuple(chain))
        if got != want or not r.ok:
            sh.violate("chain:" + ",".join(chain), "calls %s: expected %s, observed %s %s" % (chain, want, got, r.brief()[:300]), program="\n".join(lines))
            return
    if item < 0:
        items = [("inspect", "def f() { return Inspect.getLine(%d); } def g() { return f(); } print(1); g(); print(2);" % k, fails(mc.RUNTIME, "1\n") if not 0 <= k <= 2 else "1\n2\n") for k in (-1000, -2, -1, 0, 1, 2, 3, 4, 100, 100000)]
        items += [("inspect", "def f() { return Inspect.getFile(%d); } def g() { return f(); } print(1); g(); print(2);" % k, fails(mc.RUNTIME, "1\n") if not 0 <= k <= 2 else "1\n2\n") for k in (-1000, -2, -1, 0, 1, 2, 3, 4, 100, 100000)]
        for call in ("getLine('a')", "getLine(nil)", "getLine(0, 1)", "getLine(0/0)", "getLine(1/0)", "getLine(-1/0)", "getLine(10000000000)", "getLine(4294967296)", "getFile('a')", "getFile(0, 1)", "getFile(0/0)", "getFile(1/0)", "getFile(4294967296)", "getFrameCount(1)"):
            items.append(("misuse", "print(1); Inspect.%s; print(2);" % call, fails(mc.RUNTIME, "1\n")))
        mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("inspect", inspect, range(-1, len(CALLS)))
# ---------------------------------------------------------------- values that look like nothing are values
def falsy(sh, item):
    items = []
    for v, sv in (("nil", "nil"), ("false", "false"), ("0", "0"), ("''", ""), ("[]", "[]"), ("{}", "{}"), ("set()", "{}"), ("5", "5"), ("'d'", "d")):
        for name, src in (("attribute", "class A { init() { this.n = %s; } } const o = A();"), ("param", "class A { init(var n) { } } const o = A(%s);"), ("outside", "class A { } const o = A(); o.n = %s;"), ("setAttribute", "class A { } const o = A(); o.setAttribute('n', %s);"), ("overwritten", "class A { init() { this.n = 1; } } const o = A(); o.n = %s;"),
                          ("variable", "class A { var n = %s; } const o = A();"), ("constant", "class A { const n = %s; } const o = A();"), ("inherited variable", "class B { var n = %s; } class A < B { } const o = A();"), ("inherited constant", "class B { const n = %s; } class A < B { } const o = A();"),
                          ("far variable", "class C { var n = %s; } class B < C { } class A < B { } const o = A();"), ("hiding variable", "class B { var n = 3; } class A < B { var n = %s; } const o = A();"), ("hiding constant", "class B { const n = 3; } class A < B { const n = %s; } const o = A();"),
                          ("over method", "class A { n() { return 1; } } const o = A(); o.n = %s;"), ("over variable", "class A { var n = 3; } const o = A(); o.n = %s;"), ("class", "class A { var n = 3; } A.n = %s; const o = A();"), ("new on class", "class A { } A.n = %s; const o = A();")):
            def_ = src % v
            w = sv + "\n"
            items.append(("falsy:%s:%s" % (name, v), "def f() { %s print(o.n); print(o.getAttribute('n')); print(o.getAttribute('n', 'dd')); print(o.hasAttribute('n')); print(o.getAttribute('m', 'dd')); print(o?.n); print(o.copy().n); print(type(o.n) == type(%s)); print(o.getAttribute('n') == %s); } f();" % (def_, v, v), w * 3 + "true\ndd\n" + w * 2 + "true\ntrue\n"))
        for name, src in (("default", "nil"), ("default", "false"), ("default", "0"), ("default", "''"), ("default", "'x'")):
            items.append(("default:%s" % src, "def f() { class A { } const o = A(); print(o.getAttribute('n', %s) == %s); print(o.getAttribute('n')); } f();" % (src, src), "true\nnil\n"))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True)


c.explore("falsy", falsy, [0])

# ---------------------------------------------------------------- sizes: classes of many members, many annotations, deep calls
def members(sh, item):
    items = []
    for n in item:
        for what in ("methods", "variables", "constants", "mixed"):
            mem = [("m%d" % i, "m") if what == "methods" or what == "mixed" and i % 3 == 0 else ("v%d" % i, "v") if what == "variables" or what == "mixed" and i % 3 == 1 else ("c%d" % i, "c") for i in range(n)]
            cut = n // 2
            part = lambda l: " ".join({"m": "%s() { return '%s'; }", "v": "var %s = '%s';", "c": "const %s = '%s';"}[k] % (x, x) for x, k in l)
            d = {k: "".join("%s=%s," % (x, "()" + x if False else x) for x, y in sorted(mem) if y == k) for k in "mvc"}
            src = "class A { %s } class B < A { %s } const a = B.toDict(); print(sorted(a['public_methods'])); print(dict(a['public_variables'])); print(dict(a['constants'])); const o = B(); print(sorted(o.methods())); const l = o.getAttributes(); print(sorted(l['fields']));" % (part(mem[:cut]), part(mem[cut:]))
            ms = ",".join(sorted(x for x, y in mem if y == "m"))
            want = "%s\n%s\n%s\n%s\n%s\n" % (ms, d["v"], "".join("%s=%s," % (x, x) for x in sorted(["_name"] + [x for x, y in mem if y == "c"])).replace("_name=_name", "_name=B"), ms, ",".join(sorted(["_name"] + [x for x, y in mem if y in "vc"])))
            items.append(("members:%s:%d" % (what, n), "def f() { %s } f();" % src, want))
        src = "%sclass A { %svar v = 1; %sm() { } } " % tuple(" ".join("@%s%d(%d)" % (k, i, i) for i in range(n)) + " " for k in "CFM") if n else ""
        if n and n <= 60:
            want = "".join("{%s}\n" % "".join("%s=%d," % x for x in sorted(("%s%d" % (k, i), i) for i in range(n))) for k in "CFM")
            items.append(("annotations:%d" % n, "def f() { %sprint(deep(A.classAnnotations)); print(deep(A.fieldAnnotations['v'])); print(deep(A.methodAnnotations['m'])); } f();" % src, want))
    for n in item:
        for m in (n, 4 * n, 6 * n):
            items.append(("frames:%d" % m, "def r(n) { return n == 0 ? Inspect.getFrameCount() : r(n - 1); } print(r(%d) - r(0)); print(Inspect.getFrameCount());\ndef q(n) {\n if (n == 0) { return [Inspect.getLine(), Inspect.getLine(1), Inspect.getLine(%d), Inspect.getLine(%d)]; }\n const x = q(n - 1);\n return x;\n}\nprint(q(%d)); print(Inspect.getFrameCount());" % (m, m // 2, m, m),
                          "%d\n0\n[3, %d, %d, %d]\n0\n" % (m, 4 if m else 7, 4 if m and m // 2 else 3 if m // 2 == 0 and m else 3, 4 if m else 3)))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True)


c.explore("members", members, mc.chunks(range(c.pick(60, 80)), 5))
c.bounds = {"classes in a chain": c.pick(3, 4), "ways to set": len(SETS), "attribute operations": c.pick(3, 4), "calls in a chain": c.pick(3, 4)}
c.finish()

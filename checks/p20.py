"""P20: printed forms: every container shape and every element text length around the sizes of the formatting buffers, by every route, under the address sanitiser."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P20", rule="one value rendered by one or more routes; non-trivial = distinct (value, text)",
             assumptions=["the order of a dictionary or set is that of its table: any order is accepted", "a container inside of itself is abbreviated, as is one nested more than 4096 levels deep"])
EXE = c.build("plain")
ASAN = c.build("asan")
PRE = "import IO; var s; var t; var x; def rep(n) { return 'q'.repeat(n); } def one(a, b) { print(a == b[0] or a == b[1]); if (a != b[0] and a != b[1]) { print(a); } }\n"
Q = lambda n: "q" * n


# ---------------------------------------------------------------- element lengths
def lens(sh, item):
    w = mc.worker(ASAN)
    items = []
    kind, combos = item
    for L in combos:
        a = ["rep(%d)" % n if n > 12 else '"%s"' % Q(n) for n in L]
        e = ['"%s"' % Q(n) for n in L]
        key = "%s:%s" % (kind, ",".join(map(str, L)))
        if kind == "list":
            items.append((key, "s = [%s]; print(s); print(s.toString().len());" % ", ".join(a), "[%s]\n%d\n" % (", ".join(e), sum(map(len, e)) + 2 * len(e) - (2 if e else 0) + 2)))
        elif kind == "mixed":                       # numbers and nested lists between the strings
            items.append((key, "s = [%s]; print(s);" % ", ".join(x for y in a for x in ("1.5", y, "[%s]" % y)), "[%s]\n" % ", ".join(x for y in e for x in ("1.5", y, "[%s]" % y))))
        elif kind == "key":                         # one entry: key and value lengths
            items.append((key, "s = {%s: %s}; print(s); print(s.toString().len()); s = {%s: [%s]}; print(s);" % (a[0], a[1], a[0], a[1]), "{%s: %s}\n%d\n{%s: [%s]}\n" % (e[0], e[1], len(e[0]) + len(e[1]) + 4, e[0], e[1])))
        elif kind == "dict2":
            f = ["\"a%s\": %s" % (Q(L[0]), e[1]), "\"b%s\": %s" % (Q(L[2]), e[3])]
            items.append((key, "s = {'a' + rep(%d): %s, 'b' + rep(%d): %s}; print(s);" % (L[0], a[1], L[2], a[3]), [", ".join(p).join("{}") + "\n" for p in it.permutations(f)]))
        elif kind == "dict3":
            f = ["%d: %s" % (i, x) for i, x in enumerate(e)]
            items.append((key, "s = {}; %s print(s);" % " ".join("s[%d] = %s;" % (i, x) for i, x in enumerate(a)), [", ".join(p).join("{}") + "\n" for p in it.permutations(f)]))
        elif kind == "set":
            f = ['"%s%s"' % ("abc"[i], Q(n)) for i, n in enumerate(L)]
            items.append((key, "s = set(%s); print(s);" % ", ".join("'%s' + rep(%d)" % ("abc"[i], n) for i, n in enumerate(L)), [", ".join(p).join("{}") + "\n" for p in it.permutations(f)]))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1200, by_source=True)


R = range(c.pick(120, 260))
E = sorted(set(list(range(0, 4)) + list(range(18, 28, 2)) + list(range(40, 58)) + list(range(90, 112)) + [150, 206, 212, 218, 300]))
E3 = [0, 1, 20, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 93, 95, 96, 97, 98, 99, 100, 101, 102, 104, 106, 150, 205, 206, 212, 318]
E4 = [0, 10, 21, 36, 40, 41, 42, 43, 44, 45, 46, 48, 50, 97, 100, 103] if c.quick else E3
for kind, combos in (("list", [()] + [(n,) for n in range(700)] + list(it.product(R, repeat=2)) + list(it.product(E3, repeat=3))), ("mixed", [(n,) for n in range(400)] + list(it.product(E, repeat=2))), ("key", list(it.product(R, repeat=2)) + [(n, 5) for n in range(700)] + [(5, n) for n in range(700)]),
                     ("dict2", list(it.product(E4, repeat=4))), ("dict3", list(it.product(E3, repeat=3))), ("set", [(n,) for n in range(700)] + list(it.product(R, repeat=2)) + list(it.product(E3, repeat=3)))):
    c.explore("len-" + kind, lens, [(kind, ch) for ch in mc.chunks(combos, 1200)])


def counts(sh, item):
    """many elements of one length"""
    w = mc.worker(ASAN)
    items = []
    for n, m in item:
        items.append(("n-list:%d:%d" % (n, m), "s = []; for (var i = 0; i < %d; i += 1) { s.push(rep(%d)); } print(s);" % (n, m), "[%s]\n" % ", ".join(['"%s"' % Q(m)] * n)))
        items.append(("n-num:%d:%d" % (n, m), "s = []; for (var i = 0; i < %d; i += 1) { s.push(%s); } print(s);" % (n, "7" * min(m, 15) or "0"), "[%s]\n" % ", ".join(["7" * min(m, 15) or "0"] * n)))
        # every entry, exactly once, whatever the order; keys() names them
        ks = "".join(": %s" % ('"%s"' % Q(m)))
        items.append(("n-dict:%d:%d" % (n, m), "s = {}; for (var i = 0; i < %d; i += 1) { s[i] = rep(%d); } t = s.toString(); var e = 0; for (var i = 0; i < %d; i += 1) { var k = i.toString() + ': \"' + rep(%d) + '\"'; if (t.contains('{' + k) or t.contains(' ' + k)) { e += 1; } } print(e); print(t.len()); print(t.count(', ')); print(t.endsWith('\"}') or %d == 0);" % (n, m, n, m, n),
                      "%d\n%d\n%d\ntrue\n" % (n, 2 + sum(len(str(i)) + 4 + m for i in range(n)) + 2 * max(0, n - 1), max(0, n - 1))))
        items.append(("n-set:%d:%d" % (n, m), "s = set(); for (var i = 0; i < %d; i += 1) { s.add(i.toString() + rep(%d)); } t = s.toString(); var e = 0; for (var i = 0; i < %d; i += 1) { var k = '\"' + i.toString() + rep(%d) + '\"'; if (t.contains('{' + k) or t.contains(' ' + k)) { e += 1; } } print(e); print(t.len()); print(t.count(', '));" % (n, m, n, m),
                      "%d\n%d\n%d\n" % (n, 2 + sum(len(str(i)) + 2 + m for i in range(n)) + 2 * max(0, n - 1), max(0, n - 1))))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1200, by_source=True)


c.explore("counts", counts, mc.chunks([(n, m) for n in list(range(30)) + c.pick([40, 63, 64, 65], list(range(30, 140, 3))) for m in range(c.pick(60, 120))], 300))


def removals(sh, item):
    """what is printed after removals is what is left"""
    w = mc.worker(ASAN)
    items = []
    for n, rm in item:
        left = [i for i in range(n) if i not in rm]
        perm = list(it.permutations(left)) if len(left) < 6 else None
        rr = " ".join("s.remove(%d);" % i for i in rm)
        if perm:
            items.append(("rm-dict:%d:%r" % (n, rm), "s = {}; for (var i = 0; i < %d; i += 1) { s[i] = i; } %s print(s);" % (n, rr), ["{" + ", ".join("%d: %d" % (i, i) for i in p) + "}\n" for p in perm]))
            items.append(("rm-set:%d:%r" % (n, rm), "s = set(); for (var i = 0; i < %d; i += 1) { s.add(i); } %s print(s);" % (n, rr), ["{" + ", ".join(map(str, p)) + "}\n" for p in perm]))
            items.append(("rm-dict2:%d:%r" % (n, rm), "s = {}; for (var i = 0; i < %d; i += 1) { s[i] = [s.len()]; } %s print(s.toString());" % (n, rr), ["{" + ", ".join("%d: [%d]" % (i, i) for i in p) + "}\n" for p in perm]))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1200, by_source=True)


c.explore("removals", removals, mc.chunks([(n, rm) for n in range(0, c.pick(8, 9)) for k in range(max(0, n - 5), n + 1) for rm in it.permutations(range(n), k) if k <= 3 or list(rm) == sorted(rm)], 100))


# ---------------------------------------------------------------- shapes and routes
SC = [("nil", "nil"), ("true", "true"), ("1.5", "1.5"), ('""', '""'), ('"a b"', '"a b"'), ("[]", "[]"), ("{}", "{}"), ("set()", "{}")]


def shapes(d):
    out = list(SC)
    if d:
        sub = shapes(d - 1)
        out += [("[%s]" % a, "[%s]" % b) for a, b in sub] + [("{'k': %s}" % a, '{"k": %s}' % b) for a, b in sub] + [("{1: %s}" % a, "{1: %s}" % b) for a, b in sub]
        pair = sub if d < 2 else sub[::3]
        out += [("[%s, %s]" % (a, x), "[%s, %s]" % (b, y)) for a, b in pair for x, y in pair]
        out += [("set(%s)" % a, "{%s}" % b) for a, b in SC[:5]]
    return out


NAMED = [("def %s() {} s = %s;", "<fn %s>"), ("class %s {} s = %s;", "<Cls %s>"), ("trait %s {} s = %s;", "<Trait %s>"), ("class %s {} s = %s();", "<%s instance>"), ("enum %s { A } s = %s;", "<Enum %s>"), ("class %s < ZB {} s = %s();", "<%s instance>"), ("abstract class %s {} s = %s;", "<Cls %s>")]
OTHER = [("s = print;", "<fn native>"), ("s = ZB().m;", "<Bound Method m>"), ("s = ZB.st;", None), ("s = Success(1);", "<Result Suc>"), ("s = Success('x');", "<Result Suc>"), ("s = Error('x');", "<Result Err>"), ("s = IO;", "<Module IO>"), ("s = def () => 1;", None)]
ROUTES = [("print", "print(%s);", "%s\n"), ("println", "IO.println(%s);", "%s\n"), ("ioprint", "IO.print(%s);", "%s"), ("format", "print('<{}>'.format(%s));", "<%s>\n"), ("join", "print([%s].join('-'));", "%s\n"), ("join2", "print([1, %s, 2].join('-'));", "1-%s-2\n"), ("two", "print(%s, 1);", "%s\n1\n"), ("inlist", "print([%s]);", "[%s]\n"), ("indict", "print({0: %s});", "{0: %s}\n"), ("tostr", "print(%s.toString());", "%s\n"), ("tostrlen", "print(%s.toString().len());", None)]
HASTOSTR = ("nil", "true", "false", "[", "{", "set", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-")


def routes(sh, item):
    w = mc.worker(EXE)
    items = []
    for src, text in item:
        pre = "s = %s;" % src
        isstr = text.startswith('"')
        for r, t, f in ROUTES:
            if isstr and r not in ("inlist", "indict") and r.startswith("tostr"):
                continue
            txt = text[1:-1] if isstr and r not in ("inlist", "indict") else text
            items.append(("%s:%s" % (r, src), pre + t % "s", (f % txt) if f else "%d\n" % len(text)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1200, by_source=True)


SH = shapes(2) + ([] if c.quick else [("[%s]" % a, "[%s]" % b) for a, b in shapes(2)])
c.explore("routes", routes, mc.chunks(SH, 150))


def named(sh, item):
    w = mc.worker(ASAN)
    items = []
    for n in item:
        for i, (src, text) in enumerate(NAMED):
            nm = "Z" + "n" * (n - 1) + str(i)
            nm = nm[:n] if n > 1 else "Z"
            nm = ("ZABCDEFG"[i + 1] + nm[1:]) if n > 1 else "ABCDEFGH"[i]
            for r, t, f in ROUTES:
                if r.startswith("tostr") and ("fn" in text or "Enum" in text):
                    continue
                items.append(("%s:%d:%d" % (r, n, i), src.replace("%s", nm) + " " + t % "s", (f % (text % nm)) if f else "%d\n" % len(text % nm)))
        # methods
        m = "m" * n
        items.append(("bound:%d" % n, "class Q%d { %s() {} } s = Q%d().%s; print(s); print([s, s]);" % (n, m, n, m), "<Bound Method %s>\n[<Bound Method %s>, <Bound Method %s>]\n" % (m, m, m)))
        items.append(("fnlist:%d" % n, "def f%s() {} print([f%s, {1: f%s}]);" % (m, m, m), "[<fn f%s>, {1: <fn f%s>}]\n" % (m, m)))
    mc.session(sh, w, items, prelude=PRE + "class ZB { m() {} }\n", flags=0, n=300, by_source=True)


c.explore("named", named, mc.chunks(list(range(1, c.pick(70, 140))) + [200, 255, 256, 300], 8))


def other(sh, item):
    w = mc.worker(EXE)
    items = []
    for src, text in OTHER:
        if text:
            for r, t, f in ROUTES:
                if not r.startswith("tostr"):
                    items.append(("other:%s:%s" % (r, src), src + " " + t % "s", f % text))
    for m, k, ctor in (("Queue", "Queue", "Queue.new().unwrap()"), ("Queue", "Queue", "Queue.newWithSize(3).unwrap()"), ("Stack", "Stack", "Stack.new().unwrap()"), ("Buffer", "Buffer", "Buffer.new(3).unwrap()")):
        for r, t, f in ROUTES:
            if not r.startswith("tostr") and "Size" not in ctor:
                items.append(("abstract:%s:%s" % (r, k), "import %s; s = %s; " % (m, CT[k]) + t % "s", f % ("<%s>" % k)))
    for n in range(1, 80):
        p = "f" * n
        for r, t, f in ROUTES:
            if not r.startswith("tostr"):
                items.append(("file:%s:%d" % (r, n), "with('%s', 'w') { s = file; } " % p + t % "s", f % ("<File %s>" % p)))
    for src, text in (("s = []; s.push(s);", "[[...]]"), ("s = [1]; s.push(s); s.push(2);", "[1, [...], 2]"), ("s = {}; s['a'] = s;", '{"a": {...}}'), ("s = []; t = [s]; s.push(t);", "[[[...]]]"), ("s = {}; t = [s]; s['a'] = t;", '{"a": [{...}]}'), ("s = []; t = {'b': s}; s.push(t); s.push(t);", '[{"b": [...]}, {"b": [...]}]'), ("t = [1]; s = [t, t];", "[[1], [1]]"), ("t = {}; s = [t, [t, t]];", "[{}, [{}, {}]]")):
        for r, t, f in ROUTES:
            if r == "inlist" and "..." in text:
                f = "[%s]\n"
            items.append(("cyclic:%s:%s" % (r, src), src + " " + t % "s", (f % text) if f else "%d\n" % len(text)))
    for v in ("a\0b", "\0", "\0\0", "a\0", "\xff\xfe", "\x7f\x01", "a\nb", "\t", "'", "{}", "[1]", "%s", "%d%n", "\\"):
        lit = '"' + "".join("\\x%02x" % ord(ch) for ch in v) + '"'
        enc = lambda s: s.encode("latin-1")
        for src, text in (("s = %s;" % lit, v), ("s = [%s];" % lit, '["%s"]' % v), ("s = [[%s], 1];" % lit, '[["%s"], 1]' % v), ("s = {%s: 1};" % lit, '{"%s": 1}' % v), ("s = {1: %s};" % lit, '{1: "%s"}' % v), ("s = set(%s);" % lit, '{"%s"}' % v), ("s = {1: [%s, {2: %s}]};" % (lit, lit), '{1: ["%s", {2: "%s"}]}' % (v, v))):
            for r, t, f in ROUTES:
                if text == v and (r.startswith("tostr") or r in ("inlist", "indict")):
                    continue
                items.append(("bytes:%s:%r:%s" % (r, v, src), src + " " + t % "s", enc((f % text) if f else "%d\n" % len(text))))
    mc.session(sh, w, items, prelude=PRE + "class ZB { m() {} }\n", flags=0, n=600, by_source=True)


CT = dict(Queue="Queue.new()", Stack="Stack.new()", Buffer="Buffer.new(3).unwrap()")
c.explore("other", other, [0])


# ---------------------------------------------------------------- cycles: a chain of n containers whose last one leads back to the k-th
def cycles(sh, item):
    w = mc.worker(EXE)
    items = []
    for n, k, kinds in item:
        src = "def mk() { var c = []; for (var i = 0; i < %d; i += 1) { if ('%s'[i %% %d] == 'd') { c.push({}); } else { c.push([i]); } } for (var i = 0; i < %d; i += 1) { var n = c[i + 1 < %d ? i + 1 : %d]; if (type(c[i]) == 'list') { c[i].push(n); } else { c[i][9] = n; } } return c[0]; } s = mk();" % (n, kinds, len(kinds), n, n, k)
        text = "{...}" if kinds[k % len(kinds)] == "d" else "[...]"
        for i in reversed(range(n)):
            text = "{9: %s}" % text if kinds[i % len(kinds)] == "d" else "[%d, %s]" % (i, text)
        for r, t, f in ROUTES:
            if r != "inlist" and r != "indict":
                items.append(("cycle:%d:%d:%s:%s" % (n, k, kinds, r), src + " " + t % "s", (f % text) if f else "%d\n" % len(text)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=300)


c.explore("cycles", cycles, mc.chunks([(n, k, kinds) for n in list(range(1, 30)) + c.pick([50, 200], [50, 100, 200, 500, 1000]) for k in (range(n) if n < 30 else (0, 1, n // 2, n - 1)) for kinds in ("l", "d", "ld", "lld")], 60))


# ---------------------------------------------------------------- printError, and the echo of a session's expressions
def errs(sh, item):
    w = mc.worker(EXE)
    for part in mc.chunks(item, 600):
        r = mc.run_confirm(w, srcs=[("case.du", PRE)] + [("case.du", "s = %s; printError(s);" % a) for a, b in part], flags=0)
        want = "".join((b[1:-1] if b.startswith('"') else b) + "\n" for a, b in part).encode()
        sh.evals += len(part)
        for a, b in part:
            sh.state(("err", b))
        if r.crash or r.err != want or r.out:
            i = next((i for i, (x, y) in enumerate(zip(r.err.split(b"\n"), want.split(b"\n"))) if x != y), 0)
            sh.violate("printError:%s" % part[min(i, len(part) - 1)][0], "printError of %s: %r" % (part[min(i, len(part) - 1)][0], r.err.split(b"\n")[i][:300]), program=part[min(i, len(part) - 1)][0])
            return


c.explore("printError", errs, mc.chunks(SH, 600))


def repl(sh, item):
    w = mc.worker(EXE)
    items = []
    for a, b in item:
        txt = b[1:-1] if b.startswith('"') else b
        items.append(("repl:%s" % a, "%s;" % ("(%s)" % a), "" if a == "nil" else txt + "\n"))
        items.append(("assign:%s" % a, "s = %s; nil; var zz = 1; print(1);" % a, "1\n"))
        items.append(("repl2:%s" % a, "s = %s; [s]; s;" % a, "[%s]\n" % b + ("" if a == "nil" else txt + "\n")))
    mc.session(sh, w, items, prelude=PRE, flags=8, n=600, by_source=True)


c.explore("repl", repl, mc.chunks([x for x in SH if not x[0].startswith("{")], 600))
c.bounds = dict(lengths="all pairs of element text lengths below %d; triples and quadruples around the buffer sizes" % len(R), counts="0..%d elements of every length below %d" % (29, c.pick(60, 120)), shapes=len(SH), routes=len(ROUTES) + 2)
c.finish()

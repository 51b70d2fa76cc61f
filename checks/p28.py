"""P28: modules: every import graph up to a size, with every import form and every way to fail, on the real VM against a model of modules with one namespace each."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, sigs

c = mc.Check("P28", rule="one graph of modules run; non-trivial = distinct graphs of which a module was run",
             assumptions=["a main program that is imported by name is a module of its own", "at top level the names of the global functions cannot be bound", "what an importer sees of a module whose run failed is unspecified"])
EXE = c.build("plain")
ASAN = c.build("asan")


class Fail(Exception):
    """status: "1" a module does not compile, "2" runtime error"""

    def __init__(self, rc):
        self.rc = rc


class Model:
    """mods: name -> ops (or "missing" / "syntax"); ops are tuples (form, target)."""

    def __init__(self, mods):
        self.mods, self.env, self.out, self.budget = mods, {}, [], 400

    def load(self, t):
        if t in self.env:
            return
        b = self.mods[t]
        if b == "missing":
            raise Fail("2")
        self.env[t] = {}
        if b == "syntax":
            raise Fail("1")
        self.body(t, b)

    def call(self, f):
        kind, m = f
        self.budget -= 1
        if self.budget < 0:
            raise Fail("loop")
        e = self.env[m]
        if kind == "f":
            e["n"] += 1
            return "%s%d" % (e["v"], e["n"])
        if kind == "g":      # imports the module's lazy target when called
            t = lazy(m)
            self.load(t)
            return "g" + m + self.get(t, "v")
        raise AssertionError

    def get(self, m, k):
        if k not in self.env[m]:
            raise Fail("2")
        return self.env[m][k]

    def body(self, m, ops):
        e = self.env[m]
        p = self.out.append
        p("+" + m)
        e["v"], e["n"], e["f"], e["g"], e["K"] = m, 0, ("f", m), ("g", m), m
        for form, t in ops:
            if form == "P":
                self.load(t)
            elif form == "A":
                self.load(t)
                e["T" + t] = t
                p("A" + self.get(t, "v") + str(self.get(t, "n")) + self.call(self.get(t, "f")))
            elif form == "F":
                self.load(t)
                v, f = self.get(t, "v"), self.get(t, "f")
                e["v"], e["f"] = v, f
                p("F" + v + self.call(f))
            elif form == "N":
                self.load(t)
                late = self.get(t, "late")
                e["late"] = late
                p("N" + late)
            elif form == "L":
                self.load(t)
                p("L" + self.get(t, "v") + e["v"] + self.call(self.get(t, "f")))
            elif form == "B":
                self.load(t)
                v, n = self.get(t, "v"), self.get(t, "n")
                p("B%s%dq%s" % (v, n, e["v"] if False else "") + "1")
            elif form == "K":
                self.load(t)
                k = self.get(t, "K")
                e["K"] = k
                p("K" + e["v"] + "-" + self.get(k, "v"))
            elif form == "G":
                self.load(t)
                p("G" + self.call(self.get(t, "g")))
            elif form == "R":
                raise Fail("2")
            else:
                raise AssertionError(form)
        p("%s%s%d" % (m, e["v"], e["n"]))
        e["late"] = "late" + m
        p("-" + m)


def lazy(m):
    return {"m": "a", "a": "b", "b": "c", "c": "a"}[m]


def code(m, ops):
    if ops == "syntax":
        return "print('never'); var ;"
    s = "print('+%s'); var v = '%s'; var n = 0; def f() { n += 1; return '{}{}'.format(v, n); }\n" % (m, m)
    s += "def g() { import '%s.du' as Z; return 'g%s' + Z.v; } class K { o() { return v; } }\n" % (lazy(m), m)
    for i, (form, t) in enumerate(ops):
        q = "'%s.du'" % t
        if form == "P":
            s += "import %s;\n" % q
        elif form == "A":
            s += "import %s as T%s; print('A' + T%s.v + T%s.n.toString() + T%s.f());\n" % (q, t, t, t, t)
        elif form == "F":
            s += "from %s import v, f; print('F' + v + f());\n" % q
        elif form == "N":
            s += "from %s import late; print('N' + late);\n" % q
        elif form == "L":
            s += "def l%d() { var y = 'y'; import %s as Z; var x = v; return 'L' + Z.v + x + Z.f(); } print(l%d());\n" % (i, q, i)
        elif form == "B":
            s += "if (true) { var q = 1; from %s import v, n; print('B{}{}q{}'.format(v, n, q)); }\n" % q
        elif form == "K":
            s += "from %s import K; class D%d < K { d() { return 'K' + v + '-' + this.o(); } } print(D%d().d());\n" % (q, i, i)
        elif form == "G":
            s += "import %s as T%s; print('G' + T%s.g());\n" % (q, t, t)
        elif form == "R":
            s += "def r%d() { [1, 2].forEach(def (x) => { nil.zz; }); } r%d();\n" % (i, i)
    return s + "print('{}{}{}'.format('%s', v, n)); var late = 'late%s'; print('-%s');\n" % (m, m, m)


# a second program of the same session sees the modules as the first left them
AGAIN = "import 'a.du' as A; print('again' + A.v + A.n.toString() + A.late); print(__file__);"


def write(w, mods, have):
    for k, b in mods.items():
        if k == "m":
            continue
        p = os.path.join(w.cwd, k + ".du")
        if have.get(k) == b:
            continue
        have[k] = b
        if b == "missing":
            if os.path.exists(p):
                os.unlink(p)
            continue
        with open(p, "w") as f:
            f.write(code(k, b))


_have = {}


def one(sh, exe, mods, gc=(0, 0, 0)):
    w = mc.worker(exe)
    have = _have.setdefault(exe, {})
    md = Model(mods)
    rcs = ["0"]
    try:
        md.env["m"] = {}
        md.body("m", mods["m"])
        again = "a" in md.env or mods["a"] not in ("missing", "syntax")
        if again:
            k = len(md.out)
            try:
                md.load("a")
                md.out.append("againa%s" % md.env["a"]["n"] if md.env["a"]["v"] == "a" else "again%s%s" % (md.env["a"]["v"], md.env["a"]["n"]))
                md.out[-1] += md.env["a"]["late"]
                md.out.append("case.du")
                rcs.append("0")
            except Fail as x:
                rcs.append(x.rc)
                if x.rc == "loop":
                    return
        else:
            rcs = ["0"]
    except Fail as x:
        rcs = [x.rc]
        again = False
        if x.rc == "loop":
            return
    write(w, mods, have)
    srcs = [("case.du", code("m", mods["m"]))]
    if again:
        srcs.append(("case.du", AGAIN))
    r = mc.run_confirm(w, srcs=srcs, gc=gc)
    sh.evals += 1
    sh.transitions += len(md.out)
    sh.state((tuple(md.out), tuple(rcs)))
    sh.counts["rc" + rcs[0]] += 1
    exp = "".join(x + "\n" for x in md.out)
    if r.crash or r.text != exp or r.rcs != rcs:
        sh.violate("graph:" + repr(mods), "modules %s: expected rc=%s %r, got rc=%s %s %r" % (mods, rcs, exp, r.rcs, r.crash or "", r.text),
                   files={k: code(k, b) for k, b in mods.items() if b != "missing"})


FORMS = "PAFNLBKG"


def bodies(forms, targets, lo, hi):
    st = [(f, t) for f in forms for t in targets]
    for n in range(lo, hi + 1):
        yield from it.product(st, repeat=n)


def graphs(sh, item):
    exe, main, a_bodies, b_bodies, c_bodies, gc = item
    for a, b, cc in it.product(a_bodies, b_bodies, c_bodies):
        one(sh, exe, dict(m=main, a=a, b=b, c=cc), gc)
        if len(sh.violations) > 3:
            return


LEAF = [()]
FAILS = [(), "missing", "syntax", (("R", "a"),), (("P", "a"), ("R", "a")), (("A", "b"),), (("N", "a"),)]
A1 = list(bodies(FORMS, "abc", 0, 1))
B1 = list(bodies(FORMS, "ac", 0, 1))
gs = []
# one main statement after another, one statement in a and in b, leaf c
for mn in bodies(FORMS, "ab", 1, 2):
    if len(mn) == 2 and c.quick and mn[0][1] == "b" and mn[1][1] == "b":
        continue
    gs.append((EXE, mn, A1 if c.pick(len(mn) == 1, True) else A1[:1] + A1[1::2], B1 if c.pick(len(mn) == 1, True) else B1[:1] + B1[1::2], LEAF, (0, 0, 0)))
# a with two statements
for mn in bodies("AFG", "a", 1, 1):
    for i, a in enumerate(bodies(FORMS, "bc", 2, 2)):
        gs.append((EXE, mn, [a], B1, LEAF, (0, 0, 0)))
# failing modules at every place
for mn in bodies("PAFLG", "abc", 1, 2):
    if c.quick and len(mn) == 2 and mn[0][0] not in "PL":
        continue
    gs.append((EXE, mn, [(), (("P", "c"),), (("F", "c"),), (("L", "b"),), (("G", "b"),), "syntax"], [(), (("A", "c"),), (("L", "c"),), "missing", (("R", "a"),)], FAILS, (0, 0, 0)))
# with a collection at every allocation, under AddressSanitizer
for mn in bodies(FORMS, "ab", 1, 1):
    gs.append((ASAN, mn, A1 if not c.quick else A1[:1] + A1[1::3], B1[:1] + B1[1::2], [(), "syntax", (("R", "a"),)], (1, 0, 0)))
if not c.quick:
    for mn in bodies(FORMS, "ab", 1, 1):
        gs += [(EXE, mn, [a], B1, list(bodies(FORMS, "ab", 1, 1)), (0, 0, 0)) for a in A1]
    for mn in bodies("PAFG", "ab", 3, 3):
        gs.append((EXE, mn, A1[:1] + A1[1::2], B1[:1] + B1[1::2], LEAF, (0, 0, 0)))
c.explore("graphs", graphs, gs)
c.bounds.update(graphs="main of 1-%d import statements, modules a, b of 0-1 (a also 2), c, in %d forms (plain, as, from, from in a block, in a function, subclass of an imported class, a function that imports when called, a name defined last); cycles and self imports included; missing, uncompilable and failing modules at each place" % (c.pick(2, 3), len(FORMS)))


# ---------------------------------------------------------------- which file a path names
TREE = ["a.du", "s/a.du", "s/t/a.du", "s/b.du", "dictu_modules/a.du", "dictu_modules/p.du", "dictu_modules/s/q.du", "s/dictu_modules/z.du", "x y.du", "noext"]


def paths(sh, item):
    """from every module of a tree import every path of up to four components; which file runs, once per file, __file__ and later relative imports"""
    frm, cwd, firsts, depth = item
    w = mc.worker(EXE, cwd_files={"ln": ("link", "s"), "la.du": ("link", "s/a.du"), "dir.du": None})
    root = os.path.realpath(w.cwd)
    for p in TREE + [frm]:
        fp = os.path.join(root, p)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "w") as f:
            f.write("print('@' + __file__);")
    base = os.path.dirname(os.path.realpath(os.path.join(root, frm)))
    comps = [".", "..", "s", "t", "a.du", "q.du", "b.du", "p.du", "z.du", "ln", "la.du", "dir.du", "", "x y.du", "noext", "dictu_modules"]
    for first in firsts:
        srcs, exp = [], []
        for n in range(0, depth):
            for rest in it.product(comps, repeat=n):
                for pre in ("", root + "/"):
                    p = pre + "/".join((first,) + rest)
                    t = None
                    for d in (base, os.path.join(root, cwd, "dictu_modules")):
                        q = p if p.startswith("/") else d + "/" + p
                        try:
                            os.stat(q)
                            t = os.path.realpath(q)
                            break
                        except OSError:
                            continue
                    srcs.append((frm if cwd == "." else os.path.join(root, frm), "import '%s';" % p))
                    exp.append(t)
        for k in range(0, len(srcs), 1500):
            part = srcs[k:k + 1500]
            pre = [("case.du" if cwd == "." else os.path.join(root, "case.du"), "import System; System.setCWD('%s');" % os.path.join(root, cwd))]
            r = mc.run_confirm(w, srcs=pre + part, flags=16, timeout=60)
            outs = r.out.split(b"\x1e")
            seen = set()
            for j, ((nm, s), t) in enumerate(zip(part, exp[k:k + 1500])):
                rc = r.rcs[j + 1] if j + 1 < len(r.rcs) else None
                o = outs[j + 1].decode() if j + 1 < len(outs) else ""
                if t is None or os.path.isdir(t):
                    want = ("2", "")
                else:
                    want = ("0", "" if t in seen else "@" + t + "\n")
                    seen.add(t)
                sh.evals += 1
                sh.transitions += 1
                sh.state((frm, s.replace(root, ''), want[0], t and t.replace(root, '')))
                if r.crash or (rc, o) != want:
                    sh.violate("path:%s:%s:%s" % (frm, cwd, s.replace(root, "")), "%s in %s (cwd %s): expected rc=%s %r, got rc=%s %r %s" % (s, frm, cwd, want[0], want[1], rc, o, r.crash or ""))
                    if len(sh.violations) > 3:
                        return


FROMS = [("m.du", "."), ("s/m.du", "."), ("s/t/m.du", "."), ("s/m.du", "s"), ("m.du", "s/t")]
FIRST = [".", "..", "s", "t", "a.du", "p.du", "ln", "la.du", "dir.du", "", "q.du", "x y.du", "noext", "dictu_modules"]
c.explore("paths", paths, [(f, d, [x], c.pick(3, 4)) for f, d in FROMS for x in FIRST])


# ---------------------------------------------------------------- a module of many names; built-in modules
def many(sh, item):
    """from a module of k names import any number of them at any place; they are those values"""
    items = []
    w = mc.worker(EXE, cwd_files={"big.du": "".join("var n%d = %d;" % (i, i) for i in range(100)) + "def f() { return n3; }"})
    cnt = [0]
    for n in list(range(1, 13)) + [40, 79]:
        for st in (0, 1, 7):
            for step in (1, -1, 3):
                names = [(st + step * i) % 97 for i in range(n)]
                if len(set(names)) < n:
                    continue
                lst = ", ".join("n%d" % i for i in names)
                val = "[" + ", ".join(map(str, names)) + "]"
                if n <= 40:
                    items.append(("many:top:%d:%d:%d" % (n, st, step), "from 'big.du' import %s; print([%s]);" % (lst, lst), val + "\n"))
                    items.append(("many:fn:%d:%d:%d" % (n, st, step), "def f() { var pre = 'pre'; from 'big.du' import %s; var post = 'post'; return [[%s], pre, post]; } print(f());" % (lst, lst), '[%s, "pre", "post"]\n' % val))
                    items.append(("many:cap:%d:%d:%d" % (n, st, step), "def f() { from 'big.du' import %s; return def () => [%s]; } print(f()());" % (lst, lst), val + "\n"))
                    items.append(("many:loop:%d:%d:%d" % (n, st, step), "for (var i = 0; i < 3; i += 1) { from 'big.du' import %s; if (i == 1) { continue; } print([%s]); if (i == 2) { break; } }" % (lst, lst), val + "\n" + val + "\n"))
                items.append(("many:bad:%d:%d:%d" % (n, st, step), "from 'big.du' import %s, nosuch; print('no');" % lst, mc.fails(mc.RUNTIME)))
                items.append(("after:many:bad:%d:%d:%d" % (n, st, step), "def f() { from 'big.du' import n5, n1; return [n5, n1]; } print(f());", "[5, 1]\n"))
    mc.session(sh, w, items, flags=0)


c.explore("many", many, [0])


def builtin(sh, item):
    items = []
    w = mc.worker(EXE, cwd_files={"u.du": "".join("import %s as2;" % m if False else "import %s;\n" % m for m in NAMES) + "def get(n) { return [%s][n]; }" % ", ".join(NAMES)})
    cap = "var cap;\n"
    for i, m in enumerate(NAMES):
        forms = ["import %s; print(%s);", "def f() { import %s; return %s; } print(f());", "{ var a = 1; import %s; var b = 2; print(%s); a + b; }", "def f() { import %s; return def () => %s; } print(f()());",
                 "for (var i = 0; i < 2; i += 1) { import %s; if (i == 1) { print(%s); break; } }", "if (true) { import %s; cap = def () => %s; } print(cap());"]
        for j, f in enumerate(forms):
            items.append(("builtin:%s:%d" % (m, j), f % (m, m), "<Module %s>\n" % m))
        items.append(("builtin:%s:type" % m, "import %s; print(type(%s)); print(%s.__file__);" % (m, m, m), "module\n%s\n" % m))
        items.append(("builtin:%s:same" % m, "import %s; import 'u.du' as U; print(U.get(%d) == %s);" % (m, i, m), "true\n"))
        items.append(("builtin:%s:nosuch" % m, "from %s import nosuch; print(1);" % m, mc.fails(mc.RUNTIME)))
        items.append(("after:builtin:%s:nosuch2" % m, "def f() { from %s import nosuch; } f();" % m, mc.fails(mc.RUNTIME)))
        items.append(("after:builtin:%s" % m, "import %s; print(%s);" % (m, m), "<Module %s>\n" % m))
        for x in MEMBERS[m]:
            top = "from %s import %s; print(%s == %s.%s);" % (m, x, x, m, x) if x not in GLOBALS else "print(true);"
            items.append(("builtin:%s.%s" % (m, x), "import %s; %s def f() { var a = 1; from %s import %s; var b = 2; return [a, %s == %s.%s, b]; } print(f());" % (m, top, m, x, x, m, x), "true\n[1, true, 2]\n"))
        for bad in (m[:-1], m + "x", m.lower(), m[0], m.upper() if m.upper() != m else m + m):
            if bad not in NAMES:
                items.append(("builtin:bad:%s" % bad, "import %s;" % bad, mc.fails(mc.COMPILE)))
                items.append(("builtin:badfrom:%s" % bad, "from %s import x;" % bad, mc.fails(mc.COMPILE)))
    for a, b in it.permutations(NAMES, 2):
        items.append(("builtin2:%s:%s" % (a, b), "import %s; import %s; print(%s); print(%s);" % (a, b, a, b), "<Module %s>\n<Module %s>\n" % (a, b)))
    mc.session(sh, w, items[item::4], prelude=cap, flags=0)
    # in fresh sessions, so that each form is the one that runs the module
    for i, m in enumerate(NAMES[item::4]):
        for j, f in enumerate(forms):
            for gc in ((0, 0, 0), (1, 0, 0)):
                r = mc.run_confirm(w, srcs=[("case.du", cap), ("case.du", f % (m, m)), ("case.du", "import 'u.du' as U; import %s; print(U.get(%d) == %s);" % (m, NAMES.index(m), m))], gc=gc)
                sh.evals += 1
                sh.transitions += 2
                sh.state(("fresh", m, j))
                if r.crash or r.text != "<Module %s>\ntrue\n" % m or r.rcs != ["0"] * 3:
                    sh.violate("builtin:fresh:%s:%d" % (m, j), "%s: %s" % (f % (m, m), r.brief()))
        for x in [x for x in MEMBERS[m] if x not in GLOBALS][:3]:
            r = mc.run_confirm(w, srcs=[("case.du", "from %s import %s; print(type(%s)); import %s; print(%s == %s.%s);" % (m, x, x, m, x, m, x))])
            sh.evals += 1
            sh.state(("fresh-from", m, x))
            if r.crash or not r.text.endswith("\ntrue\n") or r.rcs != ["0"]:
                sh.violate("builtin:fresh-from:%s.%s" % (m, x), r.brief())


def find_builtins():
    """the built-in modules and the members the misuse catalogue knows"""
    mem = {}
    for recv, n in sigs.SIG:
        if recv[0].isupper() and recv.isidentifier():
            mem.setdefault(recv, []).append(n)
    return mem


MEMBERS = find_builtins()
w0 = mc.worker(EXE)
NAMES = [m for m in sorted(set(MEMBERS) | {"Argparse", "Math", "Env", "IO", "JSON", "Log", "Path", "Datetime", "Socket", "Net", "Random", "Base64", "Hashlib", "Queue", "Stack", "Sqlite", "Process", "System", "Term", "UUID", "UnitTest", "Inspect", "Object", "HTTP", "BigInt", "Buffer", "FFI"})
         if w0.run("import %s;" % m).rcs == ["0"]]
for m in NAMES:
    MEMBERS[m] = [x for x in MEMBERS.get(m, []) if w0.run("import %s; %s.%s;" % (m, m, x)).rcs == ["0"]]
GLOBALS = {n for r, n in sigs.SIG if r == 'global'}    # their names always mean the global function at top level
mc._close_workers()
c.bounds["builtin"] = "%d modules, %d members" % (len(NAMES), sum(map(len, MEMBERS.values())))
if len(NAMES) < 20:
    c.explore("modules", lambda sh, i: sh.violate("builtin:list", "only %s can be imported" % NAMES), [0])
c.explore("builtin", builtin, [0, 1, 2, 3])


# ---------------------------------------------------------------- a module that is corrected, and constants of different modules
def misc(sh, item):
    items = [
        ("fix0", "with ('z.du', 'w') { file.write('var ;'); }", ""),
        ("fix1", "import 'z.du';", mc.fails(mc.COMPILE)),
        ("after:fix2", "with ('z.du', 'w') { file.write('var x = 3; print(x);'); }", ""),
        ("after:fix3", "import 'z.du' as Z; print(Z.x);", "3\n3\n"),
        ("after:fix4", "with ('z.du', 'w') { file.write('var x = 4; print(x);'); } import 'z.du' as Z; print(Z.x);", "3\n"),
        ("after:leak", "import 'z.du'; print(x);", mc.fails(mc.RUNTIME)),
        ("dup0", "from 'z.du' import x, x; print(x);", "3\n"),
        ("dup1", "def f() { from 'z.du' import x, x; }", mc.fails(mc.COMPILE)),
        ("set", "import 'z.du' as Z; Z.x = 4;", mc.fails(mc.RUNTIME)),
        ("absent", "import 'z.du' as Z; Z.nosuch;", mc.fails(mc.RUNTIME)),
        ("absentcall", "import 'z.du' as Z; Z.nosuch();", mc.fails(mc.RUNTIME)),
        ("natives", "import 'z.du' as Z; Z.print('x');", mc.fails(mc.RUNTIME)),
    ]
    w = mc.worker(EXE)
    for mode in (0, 1):
        # names declared constant or variable in main, module and module's module, with assignments in each
        for a, b, d in it.product(("const", "var"), repeat=3):
            for who in (0, 1, 2):
                for form in ("import 'k1.du' as K; print(K.x);", "def f() { import 'k1.du' as K; return K.x; } print(f());"):
                    body = ["%s x = 0; " % a, "%s x = 1; import 'k2.du'; " % b, "%s x = 2; " % d]
                    src = "; import 'k2.du' as L; print(L.x); print(x);"
                    pre, post = ("", " x = 10;") if who == 0 else ("", "")
                    m0 = body[0] + form + (" x = 10;" if who == 0 else "") + " import 'k2.du' as L; print(L.x); print(x);"
                    m1 = body[1] + (" x = 11;" if who == 1 else "")
                    m2 = body[2] + (" x = 12;" if who == 2 else "")
                    kinds = (a, b, d)
                    ok = kinds[who] == "var"
                    for k, t in (("k1.du", m1), ("k2.du", m2)):
                        with open(os.path.join(w.cwd, k), "w") as f:
                            f.write(t)
                    r = mc.run_confirm(w, srcs=[("case.du", m0)], flags=8 if mode else 0)
                    sh.evals += 1
                    sh.transitions += 3
                    sh.state((a, b, d, who))
                    exp = "%d\n%d\n%d\n" % (11 if who == 1 else 1, 12 if who == 2 else 2, 10 if who == 0 else 0)
                    if r.crash or r.rcs != (["0"] if ok else ["1"]) or (ok and r.text != exp):
                        sh.violate("const:%s%s%s:%d:%d:%s" % (a, b, d, who, mode, form[:6]), "main %r k1 %r k2 %r %s: expected %s %r, got %s" % (m0, m1, m2, "(repl)" if mode else "", "0" if ok else "1", exp, r.brief()))
    for k in ("k1.du", "k2.du"):
        os.unlink(os.path.join(w.cwd, k))
    mc.session(sh, w, items, flags=0)


c.explore("misc", misc, [0])
c.finish()

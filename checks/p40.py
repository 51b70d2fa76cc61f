"""P40: UnitTest, mock and Log. All small suites x assertion outcomes x settings, all assertions x value pairs, all small classes mocked, all short logger histories."""
import os, sys, re, time, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P40", rule="one assertion with its values, one suite (methods, outcomes, hooks, settings), one mocked class with a call, or one logger history; non-trivial = distinct ones and what is reported",
             assumptions=["the order of a class's test methods is unspecified", "messages of failed assertions are judged for assertEquals only (the documented one)", "run() is called once per suite object"])
EXE = c.build("plain")

# ---------------------------------------------------------------- assertions
VALS = ["nil", "true", "false", "0", "1", "-1", "2.5", "''", "'a'", "'0'", "'nil'", "'{}'", "[]", "[1]", "[nil]", "{}", "{'a': 1}", "set()", "set(1)", "Success(1)", "Success(nil)", "Success(false)", "Error('e')", "Error('')", "fun", "Cls", "inst", "(0 / 0)", "'number'", "'string'", "'bool'", "'result'", "'list'", "'nil'.len()", "En.a"]
APRE = """from UnitTest import UnitTest;
def fun() { return 1; } class Cls { } const inst = Cls(); enum En { a, b }
class T < UnitTest { }
def go(f) { const t = T(); f(t); print('{} {} {}'.format(t.results['passed'], t.results['failed'], t.results['skipped'])); return t.results['passed'] == 1; }
"""
ASSERTS = [("assertEquals", 2, "a == b"), ("assertNotEquals", 2, "not (a == b)"), ("assertNil", 1, "a == nil"), ("assertNotNil", 1, "not (a == nil)"), ("assertType", 2, "type(a) == b"), ("assertTruthy", 1, "a ? true : false"), ("assertFalsey", 1, "a ? false : true"),
           ("assertSuccess", 1, "type(a) == 'result' and a.success()"), ("assertError", 1, "type(a) == 'result' and not a.success()")]


def assertions(sh, item):
    w = mc.worker(EXE)
    name, n, cond = ASSERTS[item]
    cases = [(a, b) for a in VALS for b in (VALS if n == 2 else [None])]
    for part in mc.chunks(cases, 20):
        srcs = [("case.du", APRE)]
        for a, b in part:
            args = a if b is None else a + ", " + b
            srcs.append(("case.du", "def t() { const a = %s; const b = %s; print((%s) ? 'holds' : 'does not');\n go(def (t) => {\n\n  t.%s(%s);\n }); } t();" % (a, b or "nil", cond, name, "a" if b is None else "a, b")))
        r = mc.run_confirm(w, srcs=srcs, flags=16)
        outs = r.out.split(b"\x1e")
        for i, (a, b) in enumerate(part):
            sh.evals += 1
            sh.transitions += 1
            got = outs[i + 1].decode("latin-1").split("\n") if len(outs) > i + 1 else []
            sh.state((name, a, b, got[:1]))
            ok = len(r.rcs) > i + 1 and r.rcs[i + 1] == "0" and r.crash is None and len(got) >= 3
            if ok:
                if got[0] == "holds":
                    ok = got == ["holds", "         Success.", "1 0 0", ""]
                else:
                    ok = len(got) == 4 and got[0] == "does not" and re.match("         Line: 4 - Failure: .", got[1]) is not None and got[2] == "0 1 0"
            if not ok:
                sh.violate("assert:%s %s %s" % (name, a, b), "%s(%s%s): %r %s" % (name, a, "" if b is None else ", " + b, got, r.brief()[:200]), program=APRE + srcs[i + 1][1])
                return


c.explore("assertions", assertions, range(len(ASSERTS)))


def messages(sh, item):
    w = mc.worker(EXE)
    items = []
    for a, b in it.product([("1", "1"), ("2.5", "2.5"), ("'s'", "s"), ("nil", "nil"), ("true", "true"), ("[1, 'x']", '[1, "x"]'), ("'{}'", "{}"), ("''", ""), ("'%d'", "%d"), ("'a\\nb'", "a\nb")], repeat=2):
        if a != b:
            items.append(("message", "T().assertEquals(%s,\n %s\n);" % (a[0], b[0]) if False else "def t() { T().assertEquals(%s, %s); } t();" % (a[0], b[0]), "         Line: 1 - Failure: %s is not equal to %s.\n" % (a[1], b[1])))
    for call in ["T().assertEquals(1)", "T().assertEquals()", "T().assertNil()", "T().assertType(1)", "T().assertTruthy(1, 2)", "UnitTest()", "T(1, 2, 3)", "T().nosuch()"]:
        items.append(("misuse", "print(1); %s; print(2);" % call, fails(mc.RUNTIME, "1\n")))
    mc.session(sh, w, items, prelude=APRE, flags=0, by_source=True)


c.explore("messages", messages, [0])

# ---------------------------------------------------------------- suites
ROLES = ["plain", "skipped", "helper", "private", "list2", "list1", "list0", "single", "inherited", "overridden", "nilprovider", "dictprovider"]
OUT = ["", "P", "F", "PF", "FP", "PP"]


def method(name, role, out, lines):
    """appends the source lines of a test method; returns (blocks expected, skipped) given the line numbers"""
    real = {"plain": name, "skipped": name + "_skipped", "helper": "x" + name, "private": name}.get(role, name)
    prov = {"list2": "return [1, 2];", "list1": "return [7];", "list0": "return [];", "single": "return 'one';", "nilprovider": "return nil;", "dictprovider": "return {'k': 1};"}.get(role)
    arg = "v" if prov else ""
    lines.append("  %s%s(%s) {" % ("private " if role == "private" else "", real, arg))
    res = []
    if arg:
        lines.append("    print('%s {}'.format(v));" % name)
    else:
        lines.append("    print('%s');" % name)
    for o in out:
        lines.append("    this.%s;" % ("assertEquals(1, 1)" if o == "P" else "assertEquals(1, 2)"))
        res.append((o, len(lines)))
    lines.append("  }")
    if prov:
        lines.append("  %sProvider() { %s }" % (name, prov))
    given = {"list2": ["1", "2"], "list1": ["7"], "list0": [], "single": ["one"], "nilprovider": ["nil"], "dictprovider": ['{"k": 1}']}.get(role, [None])
    if role in ("skipped", "helper", "private"):
        return None, 1 if role == "skipped" else 0
    return (name, given, res), 0


SETTINGS = ["none", "argOnly", "argExit", "attrOnly", "attrExit", "forceOnly", "forceExit", "initOnly", "both"]


def suite(kinds, hooks, setting):
    """(source, expected): expected = (blocks, passed, failed, skipped, exit on failure)"""
    lines = ["from UnitTest import UnitTest;"]
    if setting == "forceOnly":
        lines.append("UnitTest.forceOnlyFailures = true;")
    if setting == "forceExit":
        lines.append("UnitTest.forceExitOnFailure = true;")
    blocks, skipped = [], 0
    parent, child = [], []
    for i, (role, out) in enumerate(kinds):
        (parent if role in ("inherited", "overridden") else child).append(("test" + "ABC"[i], role, out))
    sup = "UnitTest"
    if parent:
        lines.append("class Base < UnitTest {")
        for name, role, out in parent:
            b, s = method(name, role, out if role == "inherited" else "F", lines)
            if role == "inherited":
                blocks.append(b)
        lines.append("}")
        sup = "Base"
    lines.append("class Suite < %s {" % sup)
    if setting == "initOnly":
        lines += ["  init() {", "    super.init();", "    this.onlyFailures = true;", "  }"]
    if hooks:
        lines += ["  setUp() { print('up'); }", "  tearDown() { print('down'); }"]
    for name, role, out in child + [p for p in parent if p[1] == "overridden"]:
        b, s = method(name, role, out, lines)
        skipped += s
        if b:
            blocks.append(b)
    lines.append("}")
    ctor = {"argOnly": "Suite(true)", "argExit": "Suite(false, true)", "both": "Suite(true, true)"}.get(setting, "Suite()")
    lines.append("const s = %s;" % ctor)
    lines.append({"attrOnly": "s.onlyFailures = true;", "attrExit": "s.exitOnFailure = true;"}.get(setting, ""))
    lines.append("s.run();")
    lines.append("print('after');")
    only = setting in ("argOnly", "attrOnly", "forceOnly", "initOnly", "both")
    stop = setting in ("argExit", "attrExit", "forceExit", "both")
    exp, passed, failed = {}, 0, 0
    for name, given, res in blocks:
        t = []
        for g in given:
            if hooks:
                t.append("up")
            t.append(name if g is None else "%s %s" % (name, g))
            for o, line in res:
                if o == "P":
                    passed += 1
                    if not only:
                        t.append("         Success.")
                else:
                    failed += 1
                    t.append("         Line: %d - Failure: 1 is not equal to 2." % line)
            if hooks:
                t.append("down")
        exp["    %s()" % name] = t
    return "\n".join(lines) + "\n", (exp, passed, failed, skipped, stop)


def check_suite(sh, w, kinds, hooks, setting):
    src, (exp, passed, failed, skipped, stop) = suite(kinds, hooks, setting)
    r = mc.run_confirm(w, srcs=[("case.du", src)])
    sh.evals += 1
    sh.transitions += passed + failed
    sh.state((kinds, hooks, setting))
    got = r.out.decode("latin-1").split("\n")
    blocks, cur, i = [], None, 1
    while i < len(got) and got[i] != "":
        if re.match(r"    \w+\(\)$", got[i]):
            cur = (got[i], [])
            blocks.append(cur)
        elif cur is not None:
            cur[1].append(got[i])
        i += 1
    err = None
    if os.path.basename(got[0]) != "case.du":
        err = "first line %r" % got[0]
    elif len(set(b[0] for b in blocks)) != len(blocks):
        err = "a method ran twice"
    elif failed and stop:
        # up to the first failure, wherever the order put it
        for n, b in enumerate(blocks):
            want = exp.get(b[0])
            if want is None:
                err = "unexpected %r" % b[0]
            else:
                first = next((k for k, x in enumerate(want) if "Line:" in x), None)
                last = n == len(blocks) - 1
                if b[1] != (want[:first + 1] if last and first is not None else want) or (first is None) == last:
                    err = "block %r" % (b,)
        if not blocks:
            err = "nothing ran"
        if got[i:] not in ([], [""]):
            err = err or "after the failure: %r" % got[i:]
        if r.exit != 1:
            err = err or "exit status %s" % r.exit
    else:
        if dict(blocks) != exp:
            err = "blocks %r, expected %r" % (blocks, exp)
        tail = ["", "Results:", "    - %d assertion(s) were successful." % passed, "    - %d assertion(s) were failures." % failed, "    - %d method(s) were skipped." % skipped, ""] + ([""] if failed else ["after", ""])
        if got[i:] != tail:
            err = err or "report %r, expected %r" % (got[i:], tail)
        if r.exit != (1 if failed else -1):
            err = err or "exit status %s" % r.exit
    if r.crash:
        err = "crash %s" % r.crash
    if err:
        sh.violate("suite:%s hooks=%s %s" % (kinds, hooks, setting), "%s\n%s\n output %r %s" % (err, src, r.out.decode("latin-1")[:700], r.brief()[:200]), program=src)
        return False
    return True


KINDS = list(it.product(ROLES, OUT))


def suites(sh, item):
    w = mc.worker(EXE)
    first, n = item
    pool = KINDS if n < 3 else [k for k in KINDS if k[1] in ("", "P", "PF")]
    for rest in it.product(pool, repeat=n - 1):
        kinds = (first,) + rest
        for hooks in ((False, True) if n < 2 or not c.quick else (True,)):
            for setting in (SETTINGS if n < 2 or not c.quick else SETTINGS[:5] if n == 2 else SETTINGS[:3]):
                if not check_suite(sh, w, kinds, hooks, setting):
                    return


c.explore("suites", suites, [(k, n) for n in range(1, c.pick(3, 4)) for k in (KINDS if n < 3 else [k for k in KINDS if k[1] in ("", "P", "PF")])])


def together(sh, item):
    """suites that follow one another, hooks that keep state, names, errors"""
    w = mc.worker(EXE)
    rep = lambda p, f, s: "\nResults:\n    - %d assertion(s) were successful.\n    - %d assertion(s) were failures.\n    - %d method(s) were skipped.\n\n" % (p, f, s)
    S = "         Success.\n"
    cases = []
    for outs in it.product(["", "P", "F", "PP"], repeat=3):
        src, want, code = "from UnitTest import UnitTest;\n", "", -1
        for i, o in enumerate(outs):
            src += "class S%d < UnitTest { setUp() { this.n = %d; } test() { this.assertEquals(this.n, %d); %s } }\nS%d().run();\n" % (i, i, i, " ".join("this.assertTruthy(%s);" % ("true" if x == "P" else "false") for x in o), i)
            if code == -1:
                want += "case.du\n    test()\n" + S + "".join(S if x == "P" else "         Line: %d - Failure: false is not Truthy.\n" % (2 + 2 * i) for x in o) + rep(1 + o.count("P"), o.count("F"), 0)
                if "F" in o:
                    code = 1
        cases.append((src, want, code))
    # which methods are tests
    for name, runs in (("test", 1), ("testX", 1), ("test_", 1), ("tests", 1), ("Test", 0), ("atest", 0), ("tes", 0), ("xtest", 0), ("testskipped", 1), ("test_skippedX", 1), ("testProviderX", 1), ("testprovider", 1)):
        cases.append(("from UnitTest import UnitTest;\nclass S < UnitTest { %s() { this.assertTruthy(1); } }\nS().run();" % name, "case.du\n" + ("    %s()\n%s" % (name, S) if runs else "") + rep(runs, 0, 0), -1))
    # assertions made by methods the tests call, and through other objects
    cases.append(("from UnitTest import UnitTest;\nclass S < UnitTest { help(x) {\n this.assertNil(x);\n} test() {\n this.help(nil);\n this.help(1);\n} }\nS().run();", "case.du\n    test()\n" + S + "         Line: 3 - Failure: 1 is not nil.\n" + rep(1, 1, 0), 1))
    cases.append(("from UnitTest import UnitTest;\nclass S < UnitTest { test() {\n [1, nil, 2].forEach(def (x) => {\n  this.assertNotNil(x);\n });\n} }\nS().run();", "case.du\n    test()\n" + S + "         Line: 4 - Failure: Should not be nil.\n" + S + rep(2, 1, 0), 1))
    for src, want, code in cases:
        r = mc.run_confirm(w, srcs=[("case.du", src)])
        sh.evals += 1
        sh.state(src)
        out = re.sub(r"(?m)^\S*/case\.du$", "case.du", r.out.decode("latin-1"))
        if out != want or r.exit != code or r.crash:
            sh.violate("together:" + src[-200:], "%s\nexpected %r exit %d, observed %r %s" % (src, want, code, out, r.brief()[:200]), program=src)
            return
    # an error in a test or hook ends the program with a runtime error
    for body in ("test() { nil(); }", "setUp() { nil(); } test() { }", "tearDown() { nil(); } test() { }", "test(x) { } testProvider() { return nil(); }", "test() { } testProvider() { return 1; }", "test(x) { }"):
        r = mc.run_confirm(w, srcs=[("case.du", "from UnitTest import UnitTest;\nclass S < UnitTest { %s }\nS().run(); print('after');" % body)])
        sh.evals += 1
        if r.rcs != ["2"] or b"after" in r.out or b"Results" in r.out:
            sh.violate("error:" + body, "%s: %r %s" % (body, r.out, r.brief()[:300]))


c.explore("together", together, [0])

# ---------------------------------------------------------------- mocks
SIGS = [("", [0]), ("a", [1]), ("a, b", [2]), ("a = 1", [0, 1]), ("a, b = 2", [1, 2]), ("a, b = 2, c = 3", [1, 2, 3]), ("...a", range(6)), ("a, ...b", range(1, 6))]
RET = [None, "nil", "1", "'text'", "[1, 2]", "{'k': 1}", "false", "Success(1)", "fun", "inst"]
MPRE = "from UnitTest import mock; def fun() { return 1; } class Cls { } const inst = Cls();\n"


def mocks(sh, item):
    w = mc.worker(EXE)
    items = []
    sig, ok = SIGS[item]
    for where in ("own", "inherited", "overridden", "trait", "static", "abstractbase", "enumless"):
        m = "m(%s) { print('real'); return 'real'; } " % sig
        decl = {"own": "class M { %s}" % m, "inherited": "class B { %s} class M < B { }" % m, "overridden": "class B { m() { return 0; } } class M < B { %s}" % m, "trait": "trait Tr { %s} class M { use Tr; }" % m, "static": "class M { static %s}" % m,
                "abstractbase": "abstract class B { abstract o() %s} class M < B { o() { return 1; } }" % m, "enumless": "class M { init(q, z) { print('made'); } %s other() { return 2; } private pv() { return 3; } }" % m}[where]
        for ret in RET:
            for extra in ("", "'other': 5, ", "'nosuch': 6, "):
                args = "" if ret is None and not extra else ", {%s%s}" % (extra, "'m': " + ret if ret is not None else "")
                for n in range(6):
                    call = "m(%s)" % ", ".join(str(k) for k in range(n))
                    want = "nil" if ret is None else ret
                    code = "def t() { %s const r = %s; const x = mock(M%s); print(1); const v = x.%s; print(v == r); print(type(x)); } t();" % (decl, want, args.replace("'m': " + ret, "'m': r") if ret is not None else args, call)
                    items.append(("mock", code, "1\ntrue\nMock\n" if n in ok else fails(mc.RUNTIME, "1\n")))
                    # twice, bound, and the class itself is left as it was
                    if n in ok and where != "static" and not extra:
                        items.append(("mock", "def t() { %s const r = %s; const x = mock(M%s); const b = x.m; print(b(%s) == r); print(x.%s == r); print(mock(M%s).%s == r); %s } t();" % (
                            decl, want, args.replace("'m': " + ret, "'m': r") if ret is not None else args, ", ".join("7" for k in range(n)), call, args.replace("'m': " + ret, "'m': r") if ret is not None else args, call,
                            "print(M(%s).%s);" % ("1, 2" if where == "enumless" else "", call)), "true\ntrue\ntrue\n" + ("made\n" if where == "enumless" else "") + "real\nreal\n"))
    if item == 0:
        for call in ("mock()", "mock(1)", "mock(nil)", "mock(inst)", "mock(Cls, 1)", "mock(Cls, nil)", "mock(Cls, [])", "mock(Cls, {}, 1)", "mock(fun)", "mock('Cls')", "mock(mock(Cls))"):
            items.append(("misuse", "print(1); %s; print(2);" % call, fails(mc.RUNTIME, "1\n")))
        items.append(("misuse", "class Pv { private pv() { return 1; } } print(1); mock(Pv).pv(); print(2);", fails(mc.RUNTIME, "1\n")))
        items.append(("misuse", "class Pw { } print(1); mock(Pw, {'ghost': 1}).ghost(); print(2);", fails(mc.RUNTIME, "1\n")))
        items.append(("many", "def t() { class M { %s } const x = mock(M, {%s}); %s } t();" % (" ".join("m%d() { return -1; }" % k for k in range(60)), ", ".join("'m%d': %d" % (k, k) for k in range(0, 60, 2)), " ".join("print(x.m%d());" % k for k in range(60))),
                      "".join("%d\n" % k if k % 2 == 0 else "nil\n" for k in range(60))))
        # results and arguments are the same objects
        items.append(("same", "class M { m() { return 1; } } const l = [1]; const x = mock(M, {'m': l}); x.m().push(2); print(l); print(x.m()); const d = {'m': 1}; const y = mock(M, d); d['m'] = 2; print(y.m());", "[1, 2]\n[1, 2]\n1\n"))
    mc.session(sh, w, items, prelude=MPRE, flags=0, by_source=True)
    # at every collection
    few = [x for i, x in enumerate(items) if i % c.pick(23, 5) == 0]
    mc.session(sh, w, few, prelude=MPRE, flags=0, n=20, gc=(1, 0, 0), by_source=True)


c.explore("mocks", mocks, range(len(SIGS)))

# ---------------------------------------------------------------- Log
LOGEXE = c.build("plain", name="clock", extra_wraps=("time",))
TIMES = [0, 59, 86399, 951782399, 951868800, 1709164800, 1735689599, 1735689600, 1700000000, 253402300799, 4102444800]
MSGS = [("'m'", b"m"), ("''", b""), ("'%s%n %d'", b"%s%n %d"), ("'a\\x00b'", b"a\x00b"), ("'two\\nlines'", b"two\nlines"), ("'\u00e9'", "\u00e9".encode())]
PREF = [("'p'", b"p"), ("'pre fix:'", b"pre fix:"), ("'%s'", b"%s")]


def log_ops():
    ops = []
    for m, raw in MSGS[:c.pick(2, 4)] + MSGS[3:4]:
        for fn, nl in (("print", b""), ("println", b"\n")):
            ops.append(("Log.%s(%s);" % (fn, m), "log", (1, None, raw + nl)))
            for who, fd in (("o", 1), ("e", 2)):
                ops.append(("%s.%s(%s);" % (who, fn, m), "log", (fd, who, raw + nl)))
    for who in "oe":
        for p, raw in PREF[:c.pick(2, 3)]:
            ops.append(("%s.setPrefix(%s);" % (who, p), "set", (who, raw)))
        ops.append(("%s.unsetPrefix();" % who, "set", (who, None)))
    return ops


LOPS = log_ops()
ENDS = [("", None)] + [("%s.%s('bye');" % (who, fn), (fd, who if who != "Log" else None, b"bye" + nl)) for who, fd in (("Log", 1), ("o", 1), ("e", 2)) for fn, nl in (("fatal", b""), ("fatalln", b"\n"))]
LPRE = "import Log; const o = Log.new(Log.stdout).unwrap(); const e = Log.new(Log.stderr).unwrap();\n"


def logs(sh, item):
    first, when, tz = item
    w = mc.worker(LOGEXE, env={"MC_TIME": str(when), "TZ": tz})
    os.environ["TZ"] = tz
    time.tzset()
    stamp = time.strftime("%Y/%m/%d %H:%M:%S ", time.localtime(when)).encode()
    stamp = stamp if when < 253402300800 else None
    for n in range(c.pick(3, 4)) if first is not None else [0]:
        for rest in it.product(LOPS, repeat=n):
            seq = (([first] if first is not None else []) + list(rest))
            for end in (ENDS if n < 2 else ENDS[:1]):
                pre, out, err = {"o": None, "e": None}, b"", b""
                for code, kind, arg in seq + ([(end[0], "log", end[1])] if end[1] else []):
                    if kind == "set":
                        pre[arg[0]] = arg[1]
                    else:
                        fd, who, text = arg
                        t = stamp + (pre[who] + b" " if who and pre[who] else b"") + text
                        if fd == 1:
                            out += t
                        else:
                            err += t
                src = LPRE + "".join(x[0] for x in seq) + end[0] + "print('end');"
                out += b"" if end[1] else b"end\n"
                r = mc.run_confirm(w, srcs=[("case.du", src)])
                sh.evals += 1
                sh.transitions += len(seq)
                sh.state((src, when, tz))
                if r.out != out or r.err != err or r.exit != (1 if end[1] else -1) or r.crash:
                    sh.violate("log:" + src[len(LPRE):][:300], "%s at %d in %s: expected %r / %r, observed %r / %r %s" % (src, when, tz, out, err, r.out, r.err, r.brief()[:200]), program=src)
                    return


c.explore("logs", logs, [(o, 1700000000, "UTC0") for o in LOPS] + [(None, t, z) for t in TIMES for z in ("UTC0", "EST5EDT", "XXX-14")] + [(LOPS[0], t, z) for t in TIMES for z in ("UTC0",)])


def logmisc(sh, item):
    w = mc.worker(LOGEXE, env={"MC_TIME": "0", "TZ": "UTC0"})
    items = []
    for fd in ("0", "3", "-1", "1000", "Log.stdin"):
        items.append(("new", "const r = Log.new(%s); print(r.success());" % fd, "false\n"))
    items.append(("new", "print(Log.stdin); print(Log.stdout); print(Log.stderr); const r = Log.new(1); print(r.success()); print('{}'.format(r.unwrap()));", "0\n1\n2\ntrue\n<Log>\n"))
    for call in ["Log.new()", "Log.new('1')", "Log.new(nil)", "Log.new(1, 2)"] + ["%s.%s(%s)" % (who, fn, a) for who in ("Log", "o") for fn in ("print", "println", "fatal", "fatalln") for a in ("", "1", "nil", "'a', 'b'", "['a']")] + ["o.setPrefix()", "o.setPrefix(1)", "o.setPrefix('a', 'b')", "o.setPrefix(nil)", "o.unsetPrefix('a')", "o.nosuch()"]:
        items.append(("misuse", "print(1); %s; print(2);" % call, fails(mc.RUNTIME, "1\n")))
    # a logger has its own prefix
    items.append(("own", "const a = Log.new(1).unwrap(); const b = Log.new(1).unwrap(); a.setPrefix('A'); b.println('x'); a.println('y'); b.setPrefix('B'); a.unsetPrefix(); a.println('z'); b.println('w');", "".join("1970/01/01 00:00:00 %s\n" % x for x in ("x", "A y", "z", "B w"))))
    for n in (0, 1, 100, 4095, 4096, 4097, 70000):
        items.append(("long", "const x = 'y'.repeat(%d); Log.println(x); o.setPrefix(%s); o.println(x); o.unsetPrefix();" % (n, "'q'.repeat(%d)" % max(1, n)), "1970/01/01 00:00:00 " + "y" * n + "\n1970/01/01 00:00:00 " + "q" * max(1, n) + " " + "y" * n + "\n"))
    mc.session(sh, w, [(k, "{ " + s + " }", e) for k, s, e in items], prelude=LPRE, flags=0, by_source=True)


c.explore("logmisc", logmisc, [0])
# ---------------------------------------------------------------- sizes
def sizes(sh, item):
    """suites of n methods, methods of n assertions, providers of n values, mocks of n methods and parameters"""
    w = mc.worker(EXE)
    S = "         Success.\n"
    rep = lambda p, f, s: "\nResults:\n    - %d assertion(s) were successful.\n    - %d assertion(s) were failures.\n    - %d method(s) were skipped.\n\n" % (p, f, s)
    fail = lambda line: "         Line: %d - Failure: false is not Truthy.\n" % line
    for n in item:
        for bad in sorted({-1, 0, n // 2, n - 1}):
            if bad >= n:
                continue
            cases = []
            # n methods, one of them failing, every fifth skipped
            src, blocks, sk = "from UnitTest import UnitTest;\nclass S < UnitTest {\n", {}, 0
            for k in range(n):
                skip = k % 5 == 4 and k != bad
                sk += skip
                src += "test%d%s() { this.assertTruthy(%s); }\n" % (k, "_skipped" if skip else "", "false" if k == bad else "true")
                if not skip:
                    blocks["test%d" % k] = fail(3 + k) if k == bad else S
            cases.append(("methods", src + "}\nS().run();", blocks, n - sk - (bad >= 0), int(bad >= 0), sk))
            src = "from UnitTest import UnitTest;\nclass S < UnitTest { test() {\n" + "".join("this.assertTruthy(%s);\n" % ("false" if k == bad else "true") for k in range(n)) + "} }\nS().run();"
            cases.append(("assertions", src, {"test": "".join(fail(3 + k) if k == bad else S for k in range(n))}, n - (bad >= 0), int(bad >= 0), 0))
            src = "from UnitTest import UnitTest;\nclass S < UnitTest { test(v) {\nthis.assertTruthy(v != %d);\n} testProvider() { const l = []; for (var i = 0; i < %d; i += 1) { l.push(i); } return l; } }\nS().run();" % (bad, n)
            cases.append(("provider", src, {"test": "".join(fail(3) if k == bad else S for k in range(n))}, n - (bad >= 0), int(bad >= 0), 0))
            src = "from UnitTest import UnitTest;\nclass S < UnitTest { setUp() { this.u = 0; for (var i = 0; i < %d; i += 1) { this.u += 1; } } test() {\nfor (var i = 0; i < %d; i += 1) { this.assertTruthy(i != %d and this.u == %d); }\n} }\nS().run();" % (n, n, bad, n)
            cases.append(("loop", src, {"test": "".join(fail(3) if k == bad else S for k in range(n))}, n - (bad >= 0), int(bad >= 0), 0))
            for what, src, blocks, ps, fs, sk in cases:
                r = mc.run_confirm(w, srcs=[("case.du", src)])
                sh.evals += 1
                sh.transitions += n
                sh.state((what, n, bad))
                out = re.sub(r"(?m)^\S*case\.du$", "case.du", r.out.decode("latin-1"), count=1)
                head, _, tail = out.partition("\nResults:")
                got = dict(re.findall(r"(?m)^    (\w+)\(\)\n((?:         .*\n)*)", head + "\n" if not head.endswith("\n") else head))
                if got != blocks or "\nResults:" + tail != rep(ps, fs, sk) or r.exit != (1 if fs else -1) or r.crash:
                    sh.violate("sizes:%s:%d:%d" % (what, n, bad), "%s\nexpected %d passed %d failed %d skipped, observed %r %s" % (src[:800], ps, fs, sk, out[-300:], r.brief()[:200]), program=src)
    items = []
    for n in item:
        ps = ["p%d" % i for i in range(n)]
        for a in sorted({max(0, n - 1), n, n + 1}):
            items.append(("mockargs:%d:%d" % (n, a), "def t() { class M { m(%s) { return 1; } other() { return 2; } } const x = mock(M, {'m': 'r'}); print(0); print(x.m(%s)); print(x.other()); } t();" % (", ".join(ps), ", ".join(["nil"] * a)), "0\nr\nnil\n" if a == n else fails(mc.RUNTIME, "0\n")))
        k = min(n, 80)
        items.append(("mockmany:%d" % n, "def t() { class M { %s } const d = {}; for (var i = 0; i < %d; i += 2) { d['m{}'.format(i)] = i; } const x = mock(M, d); %s print(M().m%d()); } t();" % (" ".join("m%d() { return true; }" % i for i in range(k + 1)), k, " ".join("print(x.m%d());" % i for i in range(k)), k), "".join("%d\n" % i if i % 2 == 0 else "nil\n" for i in range(k)) + "true\n"))
    mc.session(sh, w, items, prelude=MPRE, flags=0, by_source=True, n=60)


c.explore("sizes", sizes, mc.chunks([n for n in sorted(set(range(1, c.pick(40, 90))) | {63, 64, 65, 90, 100}) ], 3))
c.bounds = {"values": len(VALS), "methods per suite": c.pick(2, 3), "assertions per method": 2, "signatures": len(SIGS), "logger operations": c.pick(3, 4)}
c.finish()

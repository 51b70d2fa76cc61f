"""P38: what comes in. All short standard-input texts and line lengths, argument vectors, environment histories and files, and option sets x command lines."""
import os, sys, subprocess, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, hist, build
from mc import fails

c = mc.Check("P38", rule="one input text, argument vector, environment history, environment file or (option set, command line); non-trivial = distinct ones and the values delivered",
             assumptions=["input() past the end of the input gives an empty string", "Argparse: an option's value is the element after it, the last of repeated options counts, elements that are no option are ignored; flags of letters only"])
EXE = c.build("plain")
CLI = build.build_cli()

# ---------------------------------------------------------------- input()
ALPHA = [b"a", b"\n", b"\r", b"\x00", b"\xff", b" "]
READ = "for (var i = 0; i < %d; i += 1) { const x = input(); print(x.len()); print(x); }"


def check_input(sh, w, key, text, code, want):
    r = mc.run_confirm(w, srcs=[("case.du", code)], stdin=text)
    sh.evals += 1
    sh.transitions += want.count(b"\n")
    sh.state(key)
    if r.out != want or not r.ok:
        sh.violate("input:" + repr(key)[:200], "standard input %r (%d bytes), program %s: expected output %r, observed %r %s" % (text[:100], len(text), code[:200], want[-300:], r.out[-300:], r.brief()[:200]), program=code, stdin=text.decode("latin-1"))
        return False
    return True


def lines_of(text, n):
    parts = text.split(b"\n")
    return [(parts[i] if i < len(parts) else b"") for i in range(n)]


def texts(sh, item):
    w = mc.worker(EXE)
    for rest in it.product(ALPHA, repeat=item[0]):
        text = item[1] + b"".join(rest)
        n = text.count(b"\n") + 2
        want = b"".join(b"%d\n%s\n" % (len(x), x) for x in lines_of(text, n))
        if not check_input(sh, w, text, text, READ % n, want):
            return


c.explore("texts", texts, [(0, b"")] + [(d - 1, a) for d in range(1, c.pick(5, 6)) for a in ALPHA] + [(c.pick(3, 4), a + b) for a in ALPHA for b in ALPHA])


def lengths(sh, item):
    w = mc.worker(EXE)
    for n in item:
        body = bytes(33 + (i * 7) % 90 for i in range(min(n, 997)))
        body = (body * (n // 997 + 1))[:n]
        for end in (b"", b"\n", b"\r\n", b"\nx", b"\n\n"):
            for pre in (b"", b"first\n"):
                text = pre + body + end
                k = text.count(b"\n") + 2
                want = b"".join(b"%d\n%s\n" % (len(x), x) for x in lines_of(text, k))
                if not check_input(sh, w, (n, end, pre), text, READ % k, want):
                    return
        # lines that follow one another
        text = body + b"\n" + body + b"\n" + body[:n // 2]
        check_input(sh, w, (n, "seq"), text, READ % 3, b"".join(b"%d\n%s\n" % (len(x), x) for x in lines_of(text, 3)))


NS = list(range(0, c.pick(600, 2100))) + [x for k in range(11, c.pick(17, 23)) for x in (2 ** k - 2, 2 ** k - 1, 2 ** k, 2 ** k + 1)]
c.explore("lengths", lengths, [NS[i::32] for i in range(32)])


def prompts(sh, item):
    w = mc.worker(EXE)
    for p in ("", "a", "%s%d%n", "x\\n", "a\\x00b", "\u00e9", "p" * 300):
        raw = p.replace("\\n", "\n").replace("\\x00", "\x00").encode()
        check_input(sh, w, ("prompt", p), b"one\ntwo\n", "print(0); const a = input('%s'); print(a); const b = input('%s'); print(b);" % (p, p), b"0\n" + raw + b"one\n" + raw + b"two\n")
    for arg in ("1", "nil", "'a', 'b'", "['a']", "true"):
        r = w.run([("case.du", "print(input()); input(%s); print(2);" % arg)], stdin=b"x\ny\n")
        sh.evals += 1
        if r.out != b"x\n" or r.rcs[0] != "2":
            sh.violate("prompt:" + arg, "input(%s): %s" % (arg, r.brief()[:300]))
    # modules, functions and classes read the same stream
    w2 = mc.worker(EXE, cwd_files={"m.du": "const first = input();\ndef next() { return input(); }\n"})
    for order in it.product("imc", repeat=4):
        calls = {"i": "input()", "m": "M.next()", "c": "A().get()"}
        text = b"l0\nl1\nl2\nl3\nl4\nl5"
        check_input(sh, w2, ("who", order), text, "print(input()); import 'm.du' as M; print(M.first); class A { get() { return input(); } } " + "".join("print(%s); " % calls[o] for o in order), b"l0\nl1\nl2\nl3\nl4\nl5\n")


c.explore("prompts", prompts, [0])

# ---------------------------------------------------------------- arguments
ARGS = [b"", b"a", b"-v", b"-h", b"--", b"--help", b"-c", b"a b", "\u00e9".encode(), b"x=y", b"-", b"l\nm", b"'\"\\", b"z" * 5000, b"case.du", b"\xff\xfe"]
ASRC = "import System; const l = System.argv; print(l.len()); l.forEach(def (x) => { print(x.len()); print(x); });"


def awant(argv):
    return b"%d\n" % len(argv) + b"".join(b"%d\n%s\n" % (len(a), a) for a in argv)


def arguments(sh, item):
    w = mc.worker(EXE, cwd_files={"m.du": "import System; def len() { return System.argv.len(); } def last() { return System.argv[-1]; }\n"})
    depth, first = item
    for rest in it.product(ARGS, repeat=depth):
        argv = [b"case.du"] + ([first] if first is not None else []) + list(rest)
        r = mc.run_confirm(w, srcs=[("case.du", ASRC)], argv=argv)
        sh.evals += 1
        sh.transitions += len(argv)
        sh.state(tuple(argv))
        if r.out != awant(argv) or not r.ok:
            sh.violate("argv:" + repr(argv)[:200], "arguments %r: expected %r, observed %r %s" % (argv[1:], awant(argv)[:300], r.out[:300], r.brief()[:200]), program=ASRC)
            return


c.explore("arguments", arguments, [(d - 1, a) for d in range(1, c.pick(4, 5)) for a in ARGS] + [(0, None)])


def program(sh, item):
    d = mc.run_dir()
    path = os.path.join(d, "p38-%d.du" % os.getpid())
    with open(path, "w") as f:
        f.write(ASRC)
    try:
        for rest in it.product([a for a in ARGS if len(a) < 100], repeat=c.pick(1, 2)):
            for pre in ([], ["--"]):
                argv = [path.encode()] + [item] + list(rest)
                p = subprocess.run([CLI] + pre + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=60)
                sh.evals += 1
                sh.state((tuple(argv), tuple(pre)))
                if p.returncode != 0 or p.stdout != awant(argv):
                    sh.violate("program:" + repr(argv[1:]), "dictu %s with arguments %r: expected %r, observed status %d %r" % (" ".join(pre), argv, awant(argv)[:300], p.returncode, p.stdout[:300]), program=ASRC)
                    return
    finally:
        os.unlink(path)


c.explore("program", program, ARGS[:13] + ARGS[14:])

# ---------------------------------------------------------------- environment
EPRE = """import Env; import Process;
def q(x) { if (x == nil) { return 'nil'; } return '<' + x + '>'; }
def reset() { ['MCA', 'MCAB', 'mca', 'MC A', 'MC\u00e9'].forEach(def (n) => { Env.set(n, nil); }); }
"""
ENAMES = ["MCA", "MCAB", "mca", "MC A", "MC\u00e9"]
BADN = ["", "=", "MCA=", "MCA=1", "=MCA", "MCA\\x00", "MCA\\x00B", "\\x00"]
EVALS = ["1", "", "a=b", " x\\n", "\u00e9", "=", "MCA"]


def env_show(s):
    d = dict(s)
    code, out = "", ""
    for n in ENAMES:
        code += "print(q(Env.get('%s')) + q(Env.get('%s', 'D')));" % (n, n)
        v = d.get(n)
        out += ("nil<D>" if v is None else "<%s><%s>" % (v, v)) + "\n"
    for n in BADN[2:7]:
        code += "print(q(Env.get('%s')) + q(Env.get('%s', 'D')));" % (n, n)
        out += "nil<D>\n"
    return code, out.replace("\\n", "\n")


def env_set(n, v):
    def f(s):
        d = dict(s)
        if v is None:
            d.pop(n, None)
        else:
            d[n] = v
        return tuple(sorted(d.items())), "true"
    code = "Env.set('%s', %s).success()" % (n, "nil" if v is None else "'%s'" % v)
    return (code, code, f)


EOPS = [env_set("MCA", v) for v in EVALS + [None]] + [env_set("MCAB", "2"), env_set("MCAB", None), env_set("mca", "low"), env_set("MC A", "sp"), env_set("MC\u00e9", "e"), env_set("MCA", "v" * 30)]
for bn in BADN:
    code = "Env.set('%s', 'bad').success()" % bn
    EOPS.append((code, code, lambda s: (s, "false")))
for code in ("Env.set('MCA', 'x\\x00y').success()", "Env.set('MCAB', '\\x00').success()"):
    EOPS.append((code, code, lambda s: (s, "false")))
EOPS.append(("Env.clearAll().success()", "Env.clearAll().success()", lambda s: ((), "true")))
for call in ("Env.get()", "Env.get(1)", "Env.get('MCA', 1)", "Env.get('MCA', nil)", "Env.get('MCA', 'b', 'c')", "Env.set('MCA')", "Env.set('MCA', 1)", "Env.set(nil, 'x')", "Env.set('MCA', 'x', 'y')", "Env.set(1, nil)", "Env.clearAll(1)"):
    EOPS.append((call, call, lambda s: hist.ERR))


def environment(sh, item):
    w = mc.worker(EXE)
    hist.histories(sh, w, EPRE, ("start", "reset(); ", ()), EOPS, c.pick(3, 4), env_show, first=[item], flags=512)


c.explore("environment", environment, range(len(EOPS)))


def children(sh, item):
    """what a child process is given"""
    w = mc.worker(EXE)
    ops = [o for o in EOPS if o[0].startswith("Env.set('MC") and len(o[0]) < 60][:item[1]] + [o for o in EOPS if o[0].startswith("Env.clearAll().")]
    for seq in it.product(ops, repeat=2):
        s = ()
        code = "Env.clearAll(); Env.set('MCK', 'keep'); "
        d = {"MCK": "keep"}
        for o in (item[0],) + seq:
            o = ops[o % len(ops)] if isinstance(o, int) else o
            code += o[1] + "; "
            s, _ = o[2](s)
            if "clearAll" in o[0]:
                d.pop("MCK", None)
        d.update(dict(s))
        code += "print(Process.run(['/usr/bin/env', '-0'], true).unwrap().split('\\x00').len()); print(Process.run(['/usr/bin/env', '-0'], true).unwrap());"
        r = mc.run_confirm(w, srcs=[("case.du", EPRE + code)], flags=512)
        sh.evals += 1
        sh.state(code)
        want = sorted("%s=%s" % kv for kv in d.items())
        want = [x.replace("\\n", "\n").encode() for x in want]
        head, _, rest = r.out.partition(b"\n")
        got = sorted(x for x in rest[:-1].split(b"\x00") if x)
        if got != sorted(want) or not r.ok:
            sh.violate("child:" + code[:200], "%s: the child should see %r, observed %r %s" % (code, want, got, r.brief()[:200]), program=EPRE + code)
            return


c.explore("children", children, [(i, c.pick(10, 16)) for i in range(c.pick(11, 17))])

ELINES = ["", "MCA=1", "MCA=", "MCAB = x y ", "#c", "# MCA=9", "MCA=1#c", "MCA=2 # c=d", "MCAB=a=b=c", "bad", "  ", "=v", " MCA=5", "MCA=6\r", "MC A=7", "MCA= #", "mca==", "MCA\t=\t8\t", "MCA=" + "w" * 300]


def read_env(text):
    """(success, variables, line of the error)"""
    d = {}
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    for i, l in enumerate(lines):
        if l == "" or l[0] == "#":
            continue
        if "=" not in l:
            return False, d, i + 1
        n, v = l.split("=", 1)
        v = v.split("#")[0]
        if n.strip() == "":
            return False, d, None
        d[n.strip()] = v.strip()
    return True, d, None


def files(sh, item):
    w = mc.worker(EXE, cwd_files={"d": None})
    items = []
    texts = []
    for rest in it.product(ELINES, repeat=item[0]):
        for end in ("\n", ""):
            texts.append("\n".join([item[1]] + list(rest)) + end)
    for n, text in enumerate(texts):
        ok, d, line = read_env(text)
        lit = text.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")
        out = "%s\n" % str(ok).lower()
        for nm in ENAMES:
            out += ("<%s>" % d[nm] if nm in d else "nil") + "\n"
        code = "with ('e.env', 'wb') { file.write('%s'); } const r = Env.readFile(%s); print(r.success()); %s" % (lit, "'e.env'", "".join("print(q(Env.get('%s')));" % nm for nm in ENAMES))
        if line is not None:
            code += " print(r.unwrapError().contains('%d'));" % line
            out += "true\n"
        items.append(("file:" + repr(text[:200]), "def t() { reset(); %s } t();" % code, out))
    mc.session(sh, w, items, prelude=EPRE, flags=512, by_source=True)


c.explore("files", files, [(0, "")] + [(d, l) for d in range(c.pick(2, 3)) for l in ELINES])


def envmisc(sh, item):
    w = mc.worker(EXE, cwd_files={".env": "MCA=dot\n", "d": None, "nul": b"MCA=1\x002\n", "nl": "A" * 5000 + "=1\nMCA=2\n", "z/.env": "MCA=z\n"})
    items = [("default", "reset(); print(Env.readFile().success()); print(Env.get('MCA'));", "true\ndot\n"),
             ("again", "Env.set('MCA', 'old'); print(Env.readFile().success()); print(Env.get('MCA')); print(Env.readFile('z/.env').unwrap()); print(Env.get('MCA')); print(Env.readFile().success()); print(Env.get('MCA'));", "true\ndot\nnil\nz\ntrue\ndot\n"),
             ("nul", "Env.set('MCA', 'old'); print(Env.readFile('nul').success()); print(Env.get('MCA'));", "false\nold\n"),
             ("long", "reset(); print(Env.readFile('nl').success()); print(Env.get('MCA')); print(Env.get('%s'));" % ("A" * 5000), "true\n2\n1\n"),
             ("missing", "print(1); Env.readFile('nosuch'); print(2);", fails(mc.RUNTIME, "1\n")),
             ("dir", "print(1); Env.readFile('d'); print(2);", fails(mc.RUNTIME, "1\n"))]
    for a in ("1", "nil", "'.env', 1", "[]"):
        items.append(("misuse", "print(1); Env.readFile(%s); print(2);" % a, fails(mc.RUNTIME, "1\n")))
    mc.session(sh, w, items, prelude=EPRE, flags=512, by_source=True)


c.explore("envmisc", envmisc, [0])

# ---------------------------------------------------------------- Argparse
PPRE = """import System; import Argparse; from Argparse import Parser;
def put(a) { while (System.argv.len() > 1) { System.argv.pop(); } System.argv.extend(a); }
def v(x) { return type(x) + ':' + '{}'.format(x); }
"""
FL = {"s": ("addString", "-s"), "n": ("addNumber", "-n"), "b": ("addBool", "-b"), "l": ("addList", "-l"), "S": ("addString", "--str"), "N": ("addNumber", "--num"), "B": ("addBool", "--bool"), "L": ("addList", "--list")}
TOK = ["-s", "-n", "-b", "-l", "v", "0", "-5", "1,2", "", "-x"]


def parse(defs, argv):
    """attributes, or None for an Error; a definition is (key, required, metavar)"""
    seen, uniq = set(), []
    for d in defs:
        if FL[d[0]][1] not in seen:
            seen.add(FL[d[0]][1])
            uniq.append(d)
    res = {(d[2] or FL[d[0]][1].replace("-", "")): "nil:nil" for d in uniq}
    for i, a in enumerate(argv):
        for k, req, meta in uniq:
            kind, flag = FL[k]
            if a != flag:
                continue
            name = meta or flag.replace("-", "")
            if kind == "addBool":
                res[name] = "bool:true"
                continue
            if i == len(argv) - 1:
                return None
            x = argv[i + 1]
            if kind == "addNumber":
                try:
                    res[name] = "number:" + mc.fmt(float(x)) if x and not x.isspace() and "_" not in x else 1 / 0
                except (ValueError, ZeroDivisionError):
                    return None
            elif x.startswith("-"):
                return None
            elif kind == "addList":
                parts = x.split(",")
                res[name] = "list:[" + ", ".join('"%s"' % p for p in parts) + "]"
            else:
                res[name] = "string:" + x
    for k, req, meta in uniq:
        if req and FL[k][1] not in argv:
            return None
    return res


def pcode(var, defs, usage=""):
    s = "const %s = Parser('prog', 'text'%s); " % (var, usage)
    for k, req, meta in defs:
        s += "%s.%s('%s', 'd%s', %s%s); " % (var, FL[k][0], FL[k][1], k, str(req).lower(), "" if meta is None else ", '%s'" % meta)
    return s


def pshow(r, res):
    if res is None:
        return "print(%s.success()); print(type(%s.unwrapError())); " % (r, r), "false\nstring\n"
    names = sorted(res)
    return "print(%s.success()); " % r + "".join("print(v(%s.unwrap().%s)); " % (r, n) for n in names), "true\n" + "".join(res[n] + "\n" for n in names)


def lst(a):
    return "[" + ", ".join("'%s'" % x for x in a) + "]"


def options(sh, item):
    w = mc.worker(EXE)
    defs, depth, tok = item
    body = pcode("p", defs)

    def gen():
        for n in range(depth + 1):
            for argv in it.product(tok, repeat=n):
                show, out = pshow("r", parse(defs, argv))
                yield ("parse:%s %s" % (defs, argv), "def t() { put(%s); %sconst r = p.parse(); %s} t();" % (lst(argv), body, show), out)
    for ch in mc.chunks(gen(), 20000):
        mc.session(sh, w, ch, prelude=PPRE, flags=0, by_source=True)


VAR = [(req, meta) for req in (False, True) for meta in (None, "", "meta%s")]


def mk(k, v):
    return (k, v[0], v[1] % k if v[1] else v[1])


ITEMS = [((), 2, TOK)]
for k in "snbl":
    for v_ in VAR:
        ITEMS.append(((mk(k, v_),), c.pick(3, 4), TOK))
for a, b in it.combinations("snbl", 2):
    for va, vb in it.product([VAR[0], VAR[2], VAR[3]], repeat=2):
        ITEMS.append(((mk(a, va), mk(b, vb)), c.pick(3, 4), TOK if not c.quick else [t for t in TOK if t in ("-" + a, "-" + b, "v", "0", "-5", "", "1,2")]))
for ks in ("sb", "nl", "sn", "snbl", "bSNL", "sSnN"):
    for reqs in it.product((False, True), repeat=len(ks)):
        ITEMS.append((tuple((k, r, None) for k, r in zip(ks, reqs)), c.pick(4, 5), [FL[k][1] for k in ks] + ["7"]))
# the same flag twice, and one field for two flags
ITEMS += [((("s", False, None), ("s", True, "other")), 3, TOK), ((("s", False, "same"), ("n", False, "same")), 3, TOK), ((("b", True, None), ("n", False, None), ("b", False, "m")), 3, TOK)]
c.explore("options", options, ITEMS)


def parsers(sh, item):
    w = mc.worker(EXE)
    items = []
    one = [(), (("s", False, None),), (("n", True, None),), (("b", False, "m"), ("l", False, None))]
    for d1, d2 in it.product(one, repeat=2):
        for a1 in (["-s", "x"], ["-n", "0", "-b"], ["-l", "a,b", "-n", "3"], []):
            for a2 in (["-s", ""], ["-n", "1"], []):
                # two parsers do not share anything; later arguments are not seen by an earlier result's variables
                s1, o1 = pshow("r", parse(d1, a1))
                s2, o2 = pshow("q", parse(d2, a1))
                items.append(("two:%s %s %s" % (d1, d2, a1), "def t() { put(%s); %s%sconst r = p.parse(); const q = o.parse(); %s%s} t();" % (lst(a1), pcode("p", d1), pcode("o", d2), s1, s2), o1 + o2))
                s1, o1 = pshow("r", parse(d1, a1))
                s2, o2 = pshow("q", parse(d2, a2))
                items.append(("later:%s %s" % (a1, a2), "def t() { put(%s); %sconst r = p.parse(); put(%s); %sconst q = o.parse(); %s%s} t();" % (lst(a1), pcode("p", d1), lst(a2), pcode("o", d2), s1, s2), o1 + o2))
    # values of many shapes
    for x in ["a", "a b", "a=b", "\u00e9", "a-b", "v" * 300, ",", "a,", ",a", "a,,b", "'".replace("'", "\\'"), "1e3", "0x10", "0.5", "+1", "007", "1.", ".5"]:
        for k in "sl":
            raw = x.replace("\\'", "'")
            want = "string:" + raw if k == "s" else "list:[" + ", ".join('"%s"' % y for y in raw.split(",")) + "]"
            items.append(("value", "def t() { put(['-%s', '%s']); %sprint(v(p.parse().unwrap().%s)); } t();" % (k, x, pcode("p", ((k, True, None),)), k), want + "\n"))
    for x in ["1", "0", "-0.5", "12345678", "0.1", "1e3", "007"]:
        items.append(("value", "def t() { put(['-n', '%s']); %sprint(v(p.parse().unwrap().n)); } t();" % (x, pcode("p", (("n", True, None),))), "number:%s\n" % mc.fmt(float(x))))
    # usage
    for defs in it.product([("s", True, None), ("n", False, None), ("B", True, "x"), ("L", False, "y")], repeat=2):
        uniq = defs if defs[0] != defs[1] else defs[:1]
        want = "usage: prog\n    text\n\n" + "".join("    %s    d%s%s\n" % (FL[k][1], k, "    Required" if req else "") for k, req, _ in uniq)
        items.append(("usage", "def t() { %sprint(p.usage()); } t();" % pcode("p", defs), want + "\n"))
        items.append(("usage", "def t() { %sprint(p.usage()); } t();" % pcode("p", defs, ", 'own text'"), "own text\n"))
    for bad in ("Parser()", "Parser('a')", "Parser('a', 'b', 'c', 'd')", "Parser('a', 'b').addString('-s')", "Parser('a', 'b').addString('-s', 'd')", "Parser('a', 'b').addFlag('string', '-s', 'd', true)", "Parser('a', 'b').parse(1)", "Parser('a', 'b').usage(1)"):
        items.append(("misuse", "print(1); %s; print(2);" % bad, fails(mc.RUNTIME, "1\n")))
    mc.session(sh, w, items, prelude=PPRE, flags=0, by_source=True)


c.explore("parsers", parsers, [0])


def realargs(sh, item):
    """the same from real argument vectors"""
    w = mc.worker(EXE)
    for defs in [(("s", False, None), ("n", False, "m"), ("b", True, None), ("l", False, None))]:
        for rest in it.product(TOK, repeat=c.pick(2, 3)):
            argv = (item,) + rest
            show, out = pshow("r", parse(defs, argv))
            code = PPRE + pcode("p", defs) + "const r = p.parse(); " + show
            r = mc.run_confirm(w, srcs=[("case.du", code)], argv=("case.du",) + argv)
            sh.evals += 1
            sh.state(argv)
            if r.out.decode("latin-1") != out or not r.ok:
                sh.violate("realargs:%s" % (argv,), "arguments %s: expected %r, observed %r %s" % (argv, out, r.out, r.brief()[:200]), program=code)
                return


c.explore("realargs", realargs, TOK)
# ---------------------------------------------------------------- sizes: many arguments, variables, options; names and values of any length
def argsizes(sh, item):
    w = mc.worker(EXE)
    for n, l in item:
        argv = [b"case.du"] + [(b"%d-" % i + b"x" * ((i * l) % 300))[:max(1, l)] if l < 1000 else b"y" * l for i in range(n)]
        r = mc.run_confirm(w, srcs=[("case.du", ASRC)], argv=argv)
        sh.evals += 1
        sh.transitions += n
        sh.state((n, l))
        if r.out != awant(argv) or not r.ok:
            sh.violate("argsizes:%d:%d" % (n, l), "%d arguments of about %d bytes: expected %r, observed %r %s" % (n, l, awant(argv)[:200], r.out[:200], r.brief()[:200]), program=ASRC)


c.explore("many arguments", argsizes, mc.chunks([(n, l) for n in sorted(set(range(c.pick(70, 300))) | {127, 128, 129, 255, 256, 257, 300, 1000}) for l in (1, 5, 40, 290)] + [(1, l) for l in (1000, 4095, 4096, 4097, 65535, 65536, 100000)], 20))


def envsizes(sh, item):
    w = mc.worker(EXE, cwd_files={"d": None})
    items = []
    for n in item:
        # values and names n long, set here, read from a file, seen by a child
        items.append(("value:%d" % n, "def t() { reset(); const x = 'v'.repeat(%d); Env.set('MCA', x); Env.set('MCAB', x + 'w'); print(Env.get('MCA') == x); print(Env.get('MCAB') == x + 'w'); Env.set('MCA', 'z' + x); print(Env.get('MCA') == 'z' + x); print(Env.get('MCAB').len()); Env.set('MCA', nil); print(Env.get('MCA')); print(Env.get('MCAB') == x + 'w'); } t();" % n,
                      "true\ntrue\ntrue\n%d\nnil\ntrue\n" % (n + 1)))
        if n:
            items.append(("name:%d" % n, "def t() { reset(); const x = 'N'.repeat(%d); Env.set(x, 'one'); Env.set(x + 'M', 'two'); print(Env.get(x)); print(Env.get(x + 'M')); print(Env.get(x + 'O')); print(Env.get(x[0:x.len() - 1])); Env.set(x, nil); print(Env.get(x)); print(Env.get(x + 'M')); Env.set(x + 'M', nil); } t();" % n,
                          "one\ntwo\nnil\nnil\nnil\ntwo\n"))
        items.append(("line:%d" % n, "def t() { reset(); with ('e.env', 'wb') { file.write('MCA=' + 'v'.repeat(%d) + '\\nMCAB=after\\n'); } print(Env.readFile('e.env').success()); print(Env.get('MCA') == 'v'.repeat(%d)); print(Env.get('MCAB')); with ('e.env', 'wb') { file.write('MC' + 'Q'.repeat(%d) + '=short'); } print(Env.readFile('e.env').success()); print(Env.get('MC' + 'Q'.repeat(%d))); Env.set('MC' + 'Q'.repeat(%d), nil); } t();" % ((n,) * 5),
                      "true\ntrue\nafter\ntrue\nshort\n"))
        if n <= 400:
            items.append(("lines:%d" % n, "def t() { reset(); var s = ''; for (var i = 0; i < %d; i += 1) { s += 'MCV{}={}\\n'.format(i, i * i); if (i %% 3 == 0) { s += '\\n# c\\n'; } } with ('e.env', 'wb') { if (s != '') { file.write(s); } } print(Env.readFile('e.env').success()); var e = 0; for (var i = 0; i < %d; i += 1) { if (Env.get('MCV{}'.format(i)) != '{}'.format(i * i)) { e += 1; } } print(e); print(Env.get('MCV%d')); for (var i = 0; i < %d; i += 2) { Env.set('MCV{}'.format(i), nil); } for (var i = 0; i < %d; i += 1) { if (Env.get('MCV{}'.format(i)) != (i %% 2 == 0 ? nil : '{}'.format(i * i))) { e += 1; } } print(e); for (var i = 1; i < %d; i += 2) { Env.set('MCV{}'.format(i), nil); } } t();" % ((n,) * 6),
                          "true\n0\nnil\n0\n"))
    mc.session(sh, w, items, prelude=EPRE, flags=512, by_source=True, n=60)


ES = sorted(set(range(c.pick(120, 600))) | {127, 128, 129, 254, 255, 256, 257, 400, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65536, 70000})
c.explore("long environment", envsizes, mc.chunks(ES, 5))


def optsizes(sh, item):
    w = mc.worker(EXE)
    items = []
    for n in item:
        kinds = ["addString", "addNumber", "addBool", "addList"]
        defs = "".join("p.%s('--opt%d', 'd', %s); " % (kinds[i % 4], i, "false") for i in range(n))
        for step in (1, 2, 5):
            argv, want = [], ""
            given = [i for i in range(n) if i % step == 0]
            for i in reversed(given):
                argv += ["--opt%d" % i] + [["s%d" % i], ["%d" % (i * 3)], [], ["a%d,b" % i]][i % 4]
            for i in range(n):
                want += "nil:nil\n" if i not in given else ["string:s%d\n" % i, "number:%d\n" % (i * 3), "bool:true\n", 'list:["a%d", "b"]\n' % i][i % 4]
            items.append(("options:%d:%d" % (n, step), "def t() { put(%s); const p = Parser('prog', 'text'); %s const r = p.parse(); print(r.success()); const o = r.unwrap(); %s } t();" % (lst(argv), defs, "".join("print(v(o.opt%d)); " % i for i in range(n))), "true\n" + want))
    for n in item:
        x = "q" * n
        items.append(("optlen:%d" % n, "def t() { put(['-s', '%s', '-l', '%s']); const p = Parser('prog', 'text'); p.addString('-s', 'd', true); p.addList('-l', 'd', true); const r = p.parse(); print(r.success()); print(r.unwrap().s.len()); print(r.unwrap().l.len()); } t();" % (x or "e", ",".join(["e"] * max(1, n))), "true\n%d\n%d\n" % (max(1, n), max(1, n))))
    mc.session(sh, w, items, prelude=PPRE, flags=0, by_source=True, n=40)


c.explore("many options", optsizes, mc.chunks(range(c.pick(30, 48)), 3))
c.bounds = {"input text length": c.pick(5, 6), "line length": NS[-1], "arguments": c.pick(3, 4), "environment operations": c.pick(3, 4), "environment file lines": c.pick(2, 3), "options": 4, "command line length": c.pick(4, 5)}
c.finish()

"""P39: literals, comments and lines. All short literal texts in every quoting form and place, comments in every gap of programs, and the lines errors name after all
sequences of multi-line constructs."""
import os, sys, re, base64, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, corpus
from mc import fails

c = mc.Check("P39", rule="one literal in one place, one program with comments in chosen gaps, or one sequence of constructs before an error; non-trivial = distinct (source, value or lines)",
             assumptions=["a backslash before another character than the documented ones stands for itself", "the path of an import is taken as written", "an error inside a construct of several lines may name any of them"])
EXE = c.build("plain")
NL = "\n"


def value(body, q, raw):
    """the text a literal denotes; None if it does not end, False if it is malformed, 0 if it ends before its end"""
    out, i = "", 0
    while i < len(body):
        ch = body[i]
        if ch == q:
            return 0
        if ch != "\\" or raw:
            out += ch
            i += 1
            continue
        if i + 1 == len(body):
            return None
        n = body[i + 1]
        i += 2
        if n in "ntrv":
            out += {"n": "\n", "t": "\t", "r": "\r", "v": "\v"}[n]
        elif n in "\\'\"":
            out += n
        elif n == "x":
            h = body[i:i + 2]
            # what is not two digits is refused, but the literal must end first
            if not re.fullmatch("[0-9a-fA-F]{2}", h):
                while i < len(body):
                    if body[i] == q:
                        return 0
                    if body[i] == "\\":
                        i += 1
                        if i == len(body):
                            return None
                    i += 1
                return False
            out += chr(int(h, 16))
            i += 2
        else:
            out += "\\" + n
    return out


FULL = ["\\", "'", '"', "n", "t", "x", "4", "a", "g", "\n", "/", "*", " ", "r", "v", "\u00c3\u00a9"]  # the last is one UTF-8 letter, as bytes
SMALL = ["\\", "'", '"', "n", "x", "4", "\n", "/"]
FORMS = [("'", ""), ('"', ""), ("'", "r"), ('"', "r")]


def enc(s):
    return s.encode("latin-1")


def literal_items(first, alpha, depth):
    for n in range(depth):
        for rest in it.product(alpha, repeat=n):
            body = first + "".join(rest)
            for q, r in FORMS:
                v = value(body, q, r == "r")
                if v == 0 and v is not False:
                    continue
                lit = r + q + body + q
                if v is None or v is False:
                    yield ("refused:" + lit, enc("print('no'); print(%s);" % lit), fails(mc.COMPILE, ""))
                else:
                    e = enc(v)
                    yield ("literal:" + lit, enc("print(%s.len()); print(%s);" % (lit, lit)), b"%d\n%s\n" % (len(e), e))


def literals(sh, item):
    w = mc.worker(EXE)
    first, alpha, depth = item
    for ch in mc.chunks(literal_items(first, alpha, depth), 40000):
        mc.session(sh, w, ch, flags=0, by_source=True)


c.explore("literals", literals, [(a + b, FULL, c.pick(3, 4)) for a in FULL for b in FULL] + [(a, FULL, 1) for a in FULL] + [(a + b, SMALL, c.pick(4, 6)) for a in SMALL for b in SMALL] + [("", FULL, 1)])


def escapes(sh, item):
    """all bytes by \\xhh, all characters after a backslash, all raw bytes inside a literal"""
    w = mc.worker(EXE)
    items = []
    pre = "import Base64;"

    def b(x):
        return base64.b64encode(x).decode() + "\n"
    for n in range(256):
        for hh in {"%02x" % n, "%02X" % n, ("%02x" % n)[0].upper() + ("%02x" % n)[1]}:
            for q in "'\"":
                items.append(("hex", "print(Base64.encode(%s\\x%s%s).unwrap());" % (q, hh, q) if False else "print(Base64.encode(%s\\x%s%s));" % (q, hh, q), b(bytes([n]))))
                items.append(("hex", "print(Base64.encode(%sa\\x%s4\\x%s\\n%s));" % (q, hh, hh, q), b(b"a" + bytes([n]) + b"4" + bytes([n]) + b"\n")))
        raw = bytes([n])
        if n and n != 0x27:
            # the byte itself
            if n != 0x5c:
                items.append(("byte", b"print(Base64.encode('a" + raw + b"b'));", b(b"a" + raw + b"b")))
            items.append(("byte", b"print(Base64.encode(r'a" + raw + b"b'));", b(b"a" + raw + b"b")))
        if n and n != ord("x") and n != ord("'"):
            m = {ord("n"): b"\n", ord("t"): b"\t", ord("r"): b"\r", ord("v"): b"\v", 0x5c: b"\\", 0x22: b'"'}.get(n, b"\\" + raw)
            items.append(("after", b"print(Base64.encode('a\\" + raw + b"b'));", b(b"a" + m + b"b")))
    for h1 in range(1, 256):
        for h2 in (0x30, 0x66, 0x67, 0x20, 0x2f, 0x3a, 0x40, 0x47, 0x60, 0x5c):
            hh = bytes([h1, h2])
            if h1 in (0x27, 0x5c) or h2 == 0x5c:
                continue
            ok = re.fullmatch(b"[0-9a-fA-F]{2}", hh)
            items.append(("hexpair", b"print(Base64.encode('\\x" + hh + b"'));", b(bytes([int(hh, 16)])) if ok else fails(mc.COMPILE, "")))
    # lengths
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 65534, 65535, 65536, 65537, 300000]:
        for unit, val in (("a", "a"), ("\\n", "\n"), ("\\x41", "A"), ("\\\\", "\\"), ("\n", "\n")):
            if n > 5000 and "\\" in unit and (n > 70000 or unit[1] != "n"):
                continue
            items.append(("long", "print('%s'.len()); print('%s' == '%s'.repeat(%d));" % (unit * n, unit * n, unit, n), "%d\ntrue\n" % n))
    mc.session(sh, w, [(k, s, e) for k, s, e in items], prelude=pre, flags=0, by_source=True)


c.explore("escapes", escapes, [0])

PLACES = ["print(@);", "const x = @; print(x);", "print([@][0]);", "print({@: 1}.keys()[0]);", "print({'k': @}['k']);", "print(@ + '');", "print('' + @);", "print(true ? @ : 'e');", "print(false ? 'e' : @);", "print(nil or @);", "print(nil or@);", "print((not@) == true or (not@) == false ? @ : 'e');",
          "def f(a = @) { return a; } print(f());", "def f() { return @; } print(f());", "def f() {return@;} print(f());", "class A { var v = @; } print(A().v);", "class A { const v = @; } print(A.v);", "enum E { a = @ } print(E.a);", "print((def () => @)());", "def f(...a) { return a[0]; } print(f(@));",
          "switch (@) { case @: { print(@); } default: { print('no'); } }", "var x = 'p'; x = @; print(x);", "var l = ['p']; l[0] = @; print(l[0]);", "class A { init(var q = @) { } } print(A().q);", "@Ann(@@)\nclass A { } print(A.classAnnotations['Ann']);", "class A { @Ann(@@)\nm() { } } print(A.methodAnnotations['m']['Ann']);",
          "@Ann([@@])\nclass A { } print(A.classAnnotations['Ann'][0]);", "@Ann({'k': @@})\nclass A { } print(A.classAnnotations['Ann']['k']);", "var r = 1; r =@; print(r);", "var r = 1; print(r == 1 ? @ : '');", "const {r} = {'r': 1}; print(@);" if False else "var or1 = @; print(or1);", "for (var r = @; r != nil; r = nil) { print(r); }", "print(@.len() == 0 ? '' : @);", "print(@[:]);" if False else "print(@ == @ ? @ : 'ne');"]
BODIES = ["", "a", "\\n", "\\\\", "\\x41", "\\x4a\\x4b", "r", "//", "/*", "*/", "/* x */", "\\t\\r\\v", "a\nb", "\\q", "\\'", '\\"', "#!", "{}", "a\\\nb", "\\\\n", "\\\\\\n", "x\\x5cn", "\\x5c\\x5c", "\\x27", "\\x22", "end\\\\", "@", "\u00e9\u4e2d"]


def places(sh, item):
    w = mc.worker(EXE)
    items = []
    tpl = PLACES[item]
    mark = "@@" if "@@" in tpl else "@"
    for body in BODIES:
        for q, r in FORMS:
            v = value(body, q, r == "r")
            if (v == 0 and v is not False) or v is None:
                continue
            if r and ("Ann(" in tpl or re.search(r"[a-z]@", tpl)):
                continue
            parts = tpl.split(mark)
            src = (r + q + body + q).join(parts)
            scope = "{ " + src + " }" if "\nclass" not in tpl and "enum" not in tpl else src
            for k, s in (("place", src if re.match("print|switch|for", tpl) else "def outer() { " + src + " } outer();"),):
                items.append((k, s, v + "\n"))
    # the same literal in a program that holds others
    for b1, b2 in it.product(BODIES[:18], repeat=2):
        for (q1, r1), (q2, r2) in it.product(FORMS, repeat=2):
            v1, v2 = value(b1, q1, bool(r1)), value(b2, q2, bool(r2))
            if not isinstance(v1, str) or not isinstance(v2, str) or item != 0:
                continue
            items.append(("pair", "print(%s + %s); print([%s,%s].len());" % (r1 + q1 + b1 + q1, r2 + q2 + b2 + q2, r2 + q2 + b2 + q2, r1 + q1 + b1 + q1), v1 + v2 + "\n2\n"))
    mc.session(sh, w, items, flags=0, by_source=True)


c.explore("places", places, range(len(PLACES)))

# ---------------------------------------------------------------- comments and white space in every gap
TOKEN = re.compile(r"""r?'(?:\\.|[^'\\])*'|r?"(?:\\.|[^"\\])*"|//[^\n]*|[A-Za-z_]\w*|0[xX][0-9a-fA-F_]+|\d[\d_]*(?:\.\d[\d_]*)?|\.\.\.|=>|\?\.|\*\*|[-+*/&|^<>=!]=|\S""")
GAPS = ["/**/", "/***/", "/* ' */", '/* " */', "// x\n", "//\n", "/* // */", "/*/ */", "/* \n */", "\n", "\r\n", "\t", "/* /* */", "/****/", "// /*\n", "// '\n", "/* \\ */", "// \\\n", "/* r'\\' */", "/**\n * doc\n **/"]
PROGS = ["var a = 1; a += 2; print(a * 3 - 4 / 2 ** 2);", "def f(a, b = 2) { return a + b; } def v(a, ...c) { return a + c.len(); } print(f(1)); print(v(1, 2, 3, 4)); print(f(...[1, 5]));", "class A < B0 { private p; var v = 'x'; const k = 3; init(var q, private s = 4) { this.p = q; super.init(); } static st() { return 's'; } get() { return this.p; } } print(A(7).get()); print(A.st());",
         "const l = [1, 2, [3]]; print(l[0]); print(l[1:]); print(l[:2]); print(l[0:1]); l[0] = 5; l[1] += 6; print(l);", "const d = {'a': 1, 'b': {'c': 2}}; print(d['b']['c']); d['a'] = 4; print(d.get('a', 3));", "for (var i = 0; i < 3; i += 1) { if (i == 1) { continue; } else if (i > 5) { break; } else { print(i); } } var j = 0; while (j < 2) { j += 1; } print(j);",
         "switch (3) { case 1, 2: { print('a'); } case 3: { print('b'); } default: { print('c'); } }", "enum E { A, B = 'x', C } print(E.A); print(E.B); print(E.values().len());", "trait T { tm() { return 'tm'; } } class U { use T; um() { return this.tm(); } } print(U().um());", "abstract class Ab { abstract m() } class Im < Ab { m() { return 1; } } print(Im().m());",
         "const [x, y] = [1, 2]; var [z, t] = ['p', 'q']; print(x + y); print(z + t);", "print(1 == 1 and 2 != 3 or not false); print(5 > 4 ? 'y' : 'n'); print(6 & 3 | 8 ^ 1); print(0xFF + 1_000 + 1.5); print(-3 % 2); print(1 <= 2); print(2 >= 3);", "const f = def (a) => a + 1; const g = def () => { return 'g'; }; print(f(2)); print(g()); print([1, 2].map(def (x) => x * 2));",
         "import Math; from Path import join; print(Math.abs(-3)); print(join('a', 'b'));", "const n = nil; print(n?.foo); print('a'?.len()); print({'k': nil}.get('k'));", "var s = 'it' + \"em\" + r'\\n'; s += '!'; print(s); print('q\"q'); print(\"q'q\"); print('\\'');", "@Ann('v')\nclass An { @F var f = 1; @M(2) m() { } } print(An.classAnnotations); print(An.methodAnnotations);",
         "with ('case.du', 'r') { print(file.readLine() != 3); }", "var b = 8; b -= 1; b *= 2; b /= 7; b &= 3; b |= 4; b ^= 1; print(b);", "{ var s1 = 1; { var s1 = 2; print(s1); } print(s1); } print((1 + 2) * -(3)); ;"]
PROGS[-1] = PROGS[-1].replace(" ;", "")
BASE = "class B0 { init() { this.i = 1; } }\n"


def tokens(src):
    out, pos = [], 0
    for m in TOKEN.finditer(src):
        out.append((src[pos:m.start()], m.group(0)))
        pos = m.end()
    return out


def gaps(sh, item):
    w = mc.worker(EXE)
    src = PROGS[item]
    toks = tokens(src)
    base = w.run([("case.du", BASE), ("case.du", "def outer() { " + src + " } outer();" if "\nclass" not in src and "import" not in src else src)], flags=16 | 512)
    want = base.out.split(b"\x1e")[1]
    if base.rcs != ["0", "0"]:
        raise RuntimeError("base program %s: %s" % (src, base.brief()))

    def build(ins):
        s = ""
        for i, (ws, t) in enumerate(toks):
            g = "".join(x for j, x in ins if j == i)
            s += ws + g + (ws and g and " ") + t
        s += "".join(x for j, x in ins if j == len(toks))
        return s

    def gen():
        for i in range(len(toks) + 1):
            for g in GAPS:
                yield build([(i, g)])
        # everywhere at once, and next to each other
        for g in GAPS:
            yield build([(i, g) for i in range(len(toks) + 1)])
            for h in GAPS:
                yield build([(i, g if i % 2 else h) for i in range(len(toks) + 1)])
                yield build([(i, g + h) for i in range(0, len(toks) + 1)])
        for k in range(c.pick(3, 9)):
            for i in range(len(toks)):
                for g, h in it.product(GAPS[k::3] if c.quick else GAPS, GAPS[:10]):
                    yield build([(i, g), (min(len(toks), i + 1 + k), h)])
        # white space and comments where no space was
        yield "".join((ws and " ") + t for ws, t in toks)
        yield " ".join(t for _, t in toks)
        yield "\n".join(t for _, t in toks)
        yield "\t\r\n".join(t for _, t in toks)
        s = ""
        for _, t in toks:
            s += (" " if s and re.match(r"\w", t) and re.search(r"\w$", s) else "") + t
        yield s
    wrap = (lambda s: "def outer() { " + s + "\n} outer();") if "\nclass" not in src and "import" not in src else (lambda s: s)
    if "import" in src:
        # names of imports are bound once; a session each
        for s in gen():
            r = w.run([("case.du", wrap(s))], flags=512)
            sh.evals += 1
            sh.state(s)
            if r.out != want or r.rcs != ["0"]:
                sh.violate("gap:" + s[:300], "%s\n    expected %r, observed %r %s" % (s, want, r.out, r.brief()[:300]), program=s)
                return
    else:
        for ch in mc.chunks(((("gap:" + s)[:400], wrap(s), want) for s in gen()), 20000):
            if not mc.session(sh, w, ch, prelude=BASE, flags=0, n=1 if "\nclass" in src else 700, by_source=True):
                return


c.explore("gaps", gaps, range(len(PROGS)))

# ---------------------------------------------------------------- lines
BLOCKS = ["\n", "// c\n", "/* a\nb */\n", "/*\n\n\n*/ \n", "'a\nb';\n", "r'a\\\n\n';\n", '"a\\\nb\\n";\n', "[1,\n2,\n\n3];\n", "const f@ = def (\n) => {\n return 1;\n};\n", "def g@(a,\n b) {\n\n return a;\n}\n", "class C@ {\n  m() {\n return '\n'; }\n\n}\n", "if (false) {\n\n} else {\n 1;\n}\n", "\r\n", "1; 2; 3;\n",
          "enum E@ {\n A,\n B\n}\n", "const d@ = {\n'a':\n1\n};\n", "switch (1) {\n case 1: {\n}\n default: {\n}\n}\n", "gg(\n);\n", "print(\n'x\ny'\n)\n;\n", "for (var i = 0;\n i < 2;\n i += 1) {\n\n}\n", "// '\n", "/* ' */ // \"\n", "'//\n/*';\n", "@A(\n'x\ny')\nclass N@ { }\n", "const t@ = 'q'\n + 'r'\n\n + 's';\n", "'\\x41\n'.len\n()\n;\n", ";\n".replace(";", "1;")]
ERRORS = [("nil + 1;", "2", [0]), ("undefinedName;", "2", [0]), ("assert(false);", "2", [0]), ("[1][5];", "2", [0]), ("nil.foo();", "2", [0]), ("const e = 5; e();", "2", [0]), ("def h() { return nil + 1; } h();", "2", ["h", 0]), ("def h() {\n return nil + 1;\n}\n\nh();", "2", [("h", 1), 4]), ("class Q {\n\n m() {\n  this.x\n  ();\n }\n}\nQ().m();", "2", None),
          ("const k = def () => {\n\n  return [1][9];\n};\nk();", "2", [("", 2), 4]), ("class Q {\n init() {\n\n  nil();\n }\n}\n\nQ();", "2", [("init", 3), 7]), ("def a() {\n return nil - 1;\n}\ndef b() {\n return a();\n}\nb();", "2", [("a", 1), ("b", 4), 6]),
          ("var;", "1", [0]), ("1 +;", "1", [0]), ("def (;", "1", [0]), ("const w = 1; w = 2;", "1", [0]), ("'\\xzz';", "1", [0]), ("return 1;", "1", [0]), ("break;", "1", [0]), ("}", "1", [0]), ("$;", "1", [0]), ("this;", "1", [0]), ("\n\nvar var;", "1", [2]), ("if (true) {\n 1;\n 2 3;\n}", "1", [2])]


def error_lines(err):
    """(function or None, line) in order"""
    t = re.sub(r"\x1b\[[0-9;]*m", "", err.decode("latin-1"))
    return [(m.group(1), int(m.group(2))) for m in re.finditer(r"(?:Function '([^']*)' in|File) '[^']*', line (\d+)", t)]


def lines(sh, item):
    w = mc.worker(EXE)
    depth, first = item
    batch = []

    def flush():
        if not batch:
            return True
        r = mc.run_confirm(w, srcs=[("case.du", "def gg() { }")] + [("case.du", s) for s, _, _ in batch], flags=2 | 256)
        errs = r.err.split(b"\x1e")
        sh.evals += len(batch)
        sh.transitions += len(batch)
        for i, (s, rc, want) in enumerate(batch):
            sh.state(s)
            got = error_lines(errs[i + 1]) if len(errs) > i + 1 else None
            ok = r.crash is None and len(r.rcs) > i + 1 and r.rcs[i + 1] == rc and got is not None
            if ok:
                ok = got[:1] == want[:1] if rc == "1" else len(got) == len(want) and all((b[0] == "" or (a[0] or "") == (b[0] or "")) and a[1] == b[1] for a, b in zip(got, want))
            if not ok:
                sh.violate("line:" + s[-200:], "%s\n    expected status %s at lines %s, observed status %s lines %s %s" % (s, rc, want, r.rcs[i + 1:i + 2], got, r.crash or ""), program=s)
                batch.clear()
                return False
        batch.clear()
        return True
    for rest in it.product(range(len(BLOCKS)), repeat=depth - 1):
        pre = ""
        for n, b in enumerate((first,) + rest if depth else ()):
            pre += BLOCKS[b].replace("@", "%d" % n if not BLOCKS[b].startswith("@A") or True else "") if not BLOCKS[b].startswith("@A") else "@A" + BLOCKS[b][2:].replace("@", "%d" % n)
        base = pre.count("\n") + 1
        for text, rc, where in ERRORS:
            if where is None:
                want = None
                continue
            want = []
            for x in where:
                if isinstance(x, tuple):
                    want.append((x[0], base + x[1]))
                elif isinstance(x, str):
                    want.append((x, base))
                else:
                    want.append((None, base + x))
            src = "{\n" + pre + text + "\n}\n" if rc == "2" else pre + text + "\n"
            if rc == "2":
                want = [(a, b + 1) for a, b in want]
            for tail in ("", "\n\nnil + 2;\n" if rc == "2" else "\n// end\n"):
                batch.append((src + tail, rc, want))
        if len(batch) > 900 and not flush():
            return
    flush()


c.explore("lines", lines, [(d, f) for d in range(1, c.pick(3, 4)) for f in range(len(BLOCKS))])


def bodies(sh, item):
    """every short comment and literal over the characters that can open, close or continue one, then the line of what is behind it"""
    w = mc.worker(EXE)
    kind, first = item
    alpha = {"block": "*/\na'\r", "line": "*/a'\\", "'": "\na\"\\", '"': "\na'\\", "r": "\na*\\"}[kind]

    def items():
        for n in range(c.pick(6, 9) if kind == "block" else c.pick(7, 9)):
            for t in it.product(alpha, repeat=n):
                s = first + "".join(t)
                if kind == "block":
                    if (s + "*/").find("*/") != len(s):
                        continue
                    text = "/*" + s + "*/"
                elif kind == "line":
                    text = "//" + s + "\n"
                else:
                    if kind != "r" and len(s) - len(s.rstrip("\\")) & 1:
                        continue
                    text = "r'" + s + "';" if kind == "r" else "z(" + kind + s + kind + ");"
                k = text.count("\n") + 1
                yield "body:%r" % text, text + "print(Inspect.getLine()); " + text + " print(Inspect.getLine());", "%d\n%d\n" % (k, 2 * k - 1)
    for part in mc.chunks(items(), 200000):
        mc.session(sh, w, part, prelude="import Inspect; def z(x) { }", flags=0)
        if sh.violations:
            return


c.explore("bodies", bodies, [("block", a) for a in ["", "*", "/", "\n", "a", "'", "\r"]] + [("line", a) for a in ["", "*", "/", "a", "'", "\\"]] + [(q, a) for q in ("'", '"', "r") for a in ("", "\n", "a", "\\")])


def manylines(sh, item):
    """many lines before the error, and runtime lines seen by Inspect"""
    w = mc.worker(EXE)
    for n in list(range(250, 262)) + [511, 512, 513, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000] + c.pick([], [1 << 20]):
        for unit in ("\n", "// c\n", "1;\n" if n <= 250 else "\n", "'\n';\n" if n <= 250 else "/*\n*/"):
            for text, rc in (("nil + 1;", "2"), ("var;", "1")):
                src = unit * n + text
                r = mc.run_confirm(w, srcs=[("case.du", src)], flags=2)
                sh.evals += 1
                sh.state((n, unit, rc))
                got = error_lines(r.err)
                at = n * unit.count("\n") + 1
                if r.rcs != [rc] or got[:1] != [(None, at)]:
                    sh.violate("many:%d %r" % (n, unit), "%d x %r then %s: expected line %d, observed %s %s" % (n, unit, text, at, got, r.brief()[:200]))
                    return
    items = []
    for a in range(len(BLOCKS)):
        for b in range(len(BLOCKS)):
            pre, k = "{\n", 2
            want = ""
            for n, x in enumerate((a, b, a)):
                t = BLOCKS[x]
                t = "@A" + t[2:].replace("@", "%d" % n) if t.startswith("@A") else t.replace("@", "%d" % n)
                if "print" in t:
                    want += "x\ny\n"
                pre += t
                k += t.count("\n")
                pre += "print(Inspect.getLine()); print([Inspect.getLine(),\nInspect.getLine()]);\n"
                want += "%d\n[%d, %d]\n" % (k, k, k + 1)
                k += 2
            items.append(("inspect", pre + "}\n", want))
    mc.session(sh, w, items, prelude="import Inspect; def gg() { }", flags=0, by_source=True)


c.explore("manylines", manylines, [0])
# ---------------------------------------------------------------- sizes: names, literals, comments and lines of any length
def lengths(sh, item):
    items = []
    for n in item:
        x = "n" * n
        if n:
            # names that agree up to one character, at either end, are different names
            items.append(("names:%d" % n, "def f() { var %s = 1; var %sa = 2; var a%s = 3; var %s = 4; var %sA = 5; %sa += 10; def %sf(%sp) { return [%sp, %sa]; } class C%s { m%s() { return this.v%s; } init() { this.v%s = 7; this.v%sw = 8; } } return [%s, %sa, a%s, %s, %sA, %sf(6), C%s().m%s(), C%s().v%sw]; } print(f());"
                          % (x, x, x, x[:-1] + "m", x, x, x, x, x, x, x, x, x, x, x, x, x, x, x[:-1] + "m", x, x, x, x, x, x), "[1, 12, 3, 4, 5, [6, 12], 7, 8]\n"))
            items.append(("globals:%d" % n, "var G%s = 1; var G%sa = 2; var aG%s = 3; G%sa += 10; def gf() { G%s += 1; return [G%s, G%sa, aG%s]; } print(gf());" % ((x,) * 8), "[2, 12, 3]\n"))
            items.append(("unknown:%d" % n, "var u%s = 1; print(0); print(u%sx);" % (x, x), fails(mc.RUNTIME, "0\n")))
            items.append(("digits:%d" % n, "print(0.%s1 > 0); print(%s == %s.0); print(1%s > 0);" % ("0" * min(n, 300), "9" * min(n, 308), "9" * min(n, 308), "_0" * min(n, 150)), "true\ntrue\ntrue\n"))
        for q in ("'", '"', "r'"):
            e = q[-1]
            items.append(("string:%d:%s" % (n, q), "const t = %s%s%s; const u = %s%s.%s; print(t.len()); print(u.len()); print(t == u); print(t + '.' == u); print(t == 'x'.repeat(%d));" % (q, "x" * n, e, q, "x" * n, e, n), "%d\n%d\nfalse\ntrue\ntrue\n" % (n, n + 1)))
        items.append(("escapes:%d" % n, "const t = '%s'; print(t.len()); print(t == '\\n'.repeat(%d)); const u = '%s\\x41'; print(u.len()); print(u[-1]);" % ("\\n" * n, n, "\\x42" * min(n, 600)), "%d\ntrue\n%d\nA\n" % (n, min(n, 600) + 1)))
        items.append(("comment:%d" % n, "//%s\nprint(Inspect.getLine()); /*%s*/ print(Inspect.getLine()); /*%s*/ print(Inspect.getLine()); %s print(1); //%s" % ("c" * n, "*" * n, "\n" * n, " " * n, "/" * n), "2\n2\n%d\n1\n" % (n + 2)))
        items.append(("lines:%d" % n, "%sprint(Inspect.getLine()); const t = '%s';%sprint(Inspect.getLine());" % ("\n" * n, "\n" * n, " " * n), "%d\n%d\n" % (n + 1, 2 * n + 1)))
    bare = ("globals", "unknown", "comment", "names", "digits")
    mc.session(sh, mc.worker(EXE), [(k, s if k.split(":")[0] in bare else "{" + s + "}", o) for k, s, o in items], prelude="import Inspect;", flags=0, n=60)


LN = sorted(set(range(c.pick(100, 500))) | {126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65534, 65535, 65536, 65537, 70000})
c.explore("lengths", lengths, mc.chunks([n for n in LN if n < 40000 or not c.quick or n in (65535, 65536)], 4))
c.bounds = {"literal length": "%d over %d symbols, %d over %d" % (c.pick(4, 5), len(FULL), c.pick(5, 7), len(SMALL)), "insertions": 2, "constructs before an error": c.pick(2, 3)}
c.finish()

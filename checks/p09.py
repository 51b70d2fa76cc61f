"""P09: the compiler accepts or rejects any text. Every token sequence up to a length in every syntactic context, every truncation and single-token
edit of a corpus of programs and every short byte string is compiled by the real compiler (AddressSanitizer), many in one session; the decision is
compared with a reference parser where the text is a token sequence."""
import os, sys, re, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, corpus, ref

c = mc.Check("P09", rule="a source text compiled in a session of many; non-trivial = a distinct (context, decision, message)",
             assumptions=["the reference parser in lib/ref.py states which token sequences are programs"])
EXE = c.build("asan")
TOKENS = ("( ) { } [ ] ; : , . ... / /= * *= ** % - -= + += & &= ^ ^= | |= != = == => ? ?. < <= > >= @ "
          "and or not as abstract break case class const continue default def else enum false for from if import in nil private return static super switch this true trait use var while with "
          "x 1 's' r's' A").split()
SMALL = "( ) { } [ ] ; : , . = => ? + @ not class const def enum for if case default else private return static super switch this use var break x 1 's'".split()
CTX = {
    "if": "if (false) { %s }", "top": "%s", "fn": "def f() { %s }", "expr": "var q = %s;", "class": "class A { %s }", "method": "class A { m() { %s } }", "sub": "class B {} class A < B { m() { %s } }", "loop": "def f() { for (;;) { %s } }",
    "switch": "def f() { switch (1) { case 1: %s } }", "params": "def f(%s) { }", "args": "def f() { g(%s); }", "enum": "enum E { %s }", "list": "def f() { return [%s]; }", "dict": "def f() { return {%s}; }",
    "init": "class A { init(%s) {} }", "for": "def f() { for (%s) { } }", "trait": "trait T { %s }", "abstract": "abstract class A { %s }", "import": "def f() { from %s }", "annotation": "@A(%s) class A {}", "arrow": "var f = def (%s", "subscript": "def f() { x[%s]; }",
    "fannotation": "class A { @B(%s) f() {} }", "with": "def f() { with (%s) { } }", "elseif": "def f() { if (x) 1; else %s }",
}
LINE = re.compile(rb"line (\d+)")
N = 400


def expected(src):
    """True accept / False reject / None undecided, by the reference parser."""
    try:
        ref.Parser(src, set(ref.Interp(1).builtins)).program()
        return True
    except ref.CompileError:
        return False
    except RecursionError:
        return None


BUILTINS = set(ref.Interp(1).builtins)


def decide(src):
    try:
        ref.Parser(src, BUILTINS).program()
        return True
    except ref.CompileError:
        return False


def compile_all(sh, w, todo, tag):
    """todo: list of (key, source, want). Runs all in one session, then each suspicious one alone."""
    def judge(src, want, rc, out, err):
        if rc not in "012":
            return "status %s" % rc
        if rc == "1":
            if out:
                return "rejected, yet printed %r" % out[:100]
            m = LINE.search(err)
            if not m:
                return "rejected without naming a line: %r" % err[:200]
            if not 1 <= int(m.group(1)) <= src.count("\n") + 1:
                return "rejected at line %s of %d" % (m.group(1).decode(), src.count("\n") + 1)
        if want is True and rc == "1":
            return "rejected: %r" % err[:300]
        if want is False and rc != "1":
            return "accepted (status %s)" % rc
        return None

    srcs = [("case.du", s) for _, s, _ in todo] + [("case.du", "print('zz' + 'ok');")]
    r = w.run(srcs, flags=16 | 256, timeout=20.0)
    sh.evals += len(todo)
    sh.transitions += len(todo)
    outs, errs = r.out.split(b"\x1e"), r.err.split(b"\x1e")
    fine = r.crash is None and r.exit == -1 and len(r.rcs) == len(srcs) and len(outs) == len(srcs) + 1 == len(errs) and outs[-2] == b"zzok\n"
    if fine:
        for (k, s, want), rc, o, e in zip(todo, r.rcs, outs, errs):
            sh.state((tag, rc, e))
            b = judge(s, want, rc, o, e)
            if b:
                sh.violate(k, "%s\n    %s" % (s[:800], b), program=s)
                if len(sh.violations) > 20:
                    return
        return
    if r.exit != -1 and r.crash is None:
        # something called exit(): go one by one below
        pass
    if len(todo) > 1:
        h = len(todo) // 2
        n0 = len(sh.violations)
        compile_all(sh, w, todo[:h], tag)
        if len(sh.violations) - n0 < 3:
            compile_all(sh, w, todo[h:], tag)
        if len(sh.violations) == n0 and r.crash is not None and not all_fine(w, todo):
            sh.violate("session:" + todo[0][0], "sources that are right in smaller sessions: the session of all %d %s%s" % (len(todo), r.brief(), mc.crash_note(r)), sources=[s for _, s, _ in todo])
        return
    k, s, want = todo[0]
    r = mc.run_confirm(w, srcs=srcs, flags=16 | 256)
    if r.crash is not None:
        sh.violate(k, "%s\n    %s%s" % (s[:800], r.brief(), mc.crash_note(r)), program=s)
    elif r.exit == -1:
        if r.out.split(b"\x1e")[-2] != b"zzok\n":
            sh.violate(k, "%s\n    the next source in the session misbehaves: %s %r" % (s[:800], r.brief(), r.out[-300:]), program=s)


def all_fine(w, todo):
    r = mc.run_confirm(w, srcs=[("case.du", s) for _, s, _ in todo] + [("case.du", "print('zz' + 'ok');")], flags=16 | 256, timeout_alone=60.0)
    return r.crash is None


def work(sh, item):
    tag, todo = item
    compile_all(sh, mc.worker(EXE, cwd_files=corpus.FILES), todo() if callable(todo) else todo, tag)


# ---------------------------------------------------------------- token sequences in contexts
NOREF = {"import", "from", "with", "@"}


def seqs():
    cs = list(CTX)
    for n, toks, ctxs in c.pick(((0, TOKENS, cs), (1, TOKENS, cs), (2, TOKENS, cs), (3, SMALL, ["if", "class", "params"])),
                                ((0, TOKENS, cs), (1, TOKENS, cs), (2, TOKENS, cs), (3, TOKENS, ["if", "class", "params", "enum"]), (3, SMALL, cs))):
        for x in ctxs:
            for first in (toks if n else [None]):
                yield n, x, first, tuple(toks)


def seqwork(sh, item):
    n, x, first, toks = item
    w = mc.worker(EXE, cwd_files=corpus.FILES)
    todo = []
    for rest in it.product(toks, repeat=max(0, n - 1)):
        ts = ((first,) if n else ()) + rest
        src = CTX[x] % " ".join(ts)
        # private/static alone are a (harmless) expression inside a class, which the reference does not know
        todo.append(("seq:%s:%s" % (x, " ".join(ts)), src, None if NOREF & set(ts) or x in ("method", "sub") and {"private", "static"} & set(ts) or x in ("import", "with", "annotation", "fannotation") else decide(src)))
        if len(todo) == N:
            compile_all(sh, w, todo, x)
            todo = []
            if len(sh.violations) > 20:
                return
    if todo:
        compile_all(sh, w, todo, x)


c.explore("sequences", seqwork, seqs())

# ---------------------------------------------------------------- a program cut at any byte, or with one token changed
PTOK = re.compile(r"'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|[A-Za-z_]\w*|\d+(?:\.\d+)?|=>|\.\.\.|[-+*/<>=!]=|\*\*|\s+|.", re.S)
REPL = ["", ")", "}", "]", ";", ",", "(", "{", "[", "=", ".", "x", "1", "'", "class", "def", "var", "else", "case", "return", "super", "@", "/*", "$", "\\", "r'", "...", "?", "=>", "break", "for", "import", "private"]
EXTRA = [("big." + str(i), s) for i, s in enumerate([
    "class A { @B(1) @C var a = 1; @D({'k': [1]}) m(x, y=2, ...z) { } private p; private q() { } static s() { } use T; const C = 1; }", "abstract class A < B { abstract m(a, b=1) n() { return super.n(); } }",
    "def f() { for (var i = 0, j = 1; i < 3; i += 1) { if (i) { continue; } else if (j) break; while (x) { y; } while { break; } } }", "switch (x) { case 1, 2: { a; } case 'b': b; default: c; }", "var [a, b] = [1, 2]; const [c] = x; [a, b] = [b, a]; [a, b][0]; [a + b].x(); {'a': 1}.b(); { x: 1 }",
    "enum E { A, B = 2, C } from Math import sqrt, pi; import Path; import 'f' as G; from 'f' import H;", "with ('f', 'w') { file.write('x'); return; }", "a = b ? c : d ? e : f; a?.b?.c(); a[1:2][:3][4:] += -b ** not c; x.y.z *= 2; f(...a)(b, ...c);", "/* c * / ** */ // line\n'a\\x41\\n\\\"' + r'\\x' + \"multi\nline\" + 0xFF_FF + 1_000.5e-3;",
])]


def edits(src, tier):
    toks = PTOK.findall(src)
    n = 0
    for i in range(len(src) + 1):
        yield "cut%d" % i, src[:i]
    for i, t in enumerate(toks):
        if t.isspace():
            continue
        a, b = "".join(toks[:i]), "".join(toks[i + 1:])
        for r in REPL:
            if r != t:
                yield "sub%d:%s" % (i, r), a + r + b
                if tier and r:
                    yield "ins%d:%s" % (i, r), a + r + " " + t + b
        yield "dup%d" % i, a + t + " " + t + b
        j = next((k for k in range(i + 1, len(toks)) if not toks[k].isspace()), None)
        if j is not None:
            yield "swap%d" % i, a + toks[j] + "".join(toks[i + 1:j]) + " " + t + "".join(toks[j + 1:])


def editwork(sh, item):
    w = mc.worker(EXE, cwd_files=corpus.FILES)
    name, body = item
    todo = []
    for how, s in edits(body, not c.quick):
        # the trailing character that starts no token keeps the text from ever running
        todo.append(("edit:%s:%s" % (name, how), s + "\n*/ $", False))
        if how.startswith("cut"):
            todo.append(("edit:%s:%s:eof" % (name, how), "def zf() { " + s, None))
        if len(todo) >= N:
            compile_all(sh, w, todo, "edit")
            todo = []
            if len(sh.violations) > 20:
                return
    compile_all(sh, w, todo, "edit")


c.explore("edits", editwork, EXTRA + [(n, s[len(corpus.PRE):]) for n, s in corpus.programs()])

# ---------------------------------------------------------------- characters
CH = list("a1 0x_.'\"\\rn/*#!$@=<&|?{[(;\n") + ["e", "\udc80", "\x01"]


def chwork(sh, item):
    w = mc.worker(EXE)
    todo = []
    for t in item:
        s = "".join(t)
        for k, p in (("", s), ("s", "'" + s), ("r", "r'" + s), ("c", "/*" + s)):
            todo.append(("char:%s:%r" % (k, s), p, None))
            if len(todo) >= N:
                compile_all(sh, w, todo, "char")
                todo = []
    compile_all(sh, w, todo, "char")


def chitems():
    n = c.pick(3, 4)
    for k in range(n + 1):
        yield from it.product(CH, repeat=k)
    for b in range(1, 256):
        for ctx in ("%c", "a%c", "1%c", "'%c", "'%c'", "'\\%c'", "'\\x%c", "r%c", "0%c", "1.%c", "1e%c", "//%c", "/*%c*/", "#%c", "\\%c", "a%c;b"):
            yield (ctx % bytes([b]).decode('utf-8', 'surrogateescape'),)


c.explore("characters", chwork, mc.chunks(chitems(), 600))
c.bounds = dict(tokens=len(TOKENS), contexts=len(CTX), sequence_length=2, sequence_length_small_alphabet=3, programs=len(corpus.ENTRIES) + len(EXTRA), replacements=len(REPL), characters=len(CH), character_length=c.pick(3, 4))
c.finish()

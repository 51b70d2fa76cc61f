"""P10: misuse. Every built-in x every number and kind of arguments (boundary values included), every operator, subscript, slice, attribute and
statement form x every kind of value, and every runtime error at every call-chain shape, on the real interpreter under AddressSanitizer."""
import os, sys, re, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, corpus
from sigs import VALUES, KIND, ALL, REPS, SMALLV, DEFS, KINDS, SIG, matches, arg_tuples, calls

c = mc.Check("P10", rule="one application of a built-in or operator to one tuple of values; non-trivial = distinct (built-in or form, outcome class)",
             assumptions=["kill, chown and sleeping are replaced by stand-ins that do nothing", "a call whose arguments match the documented signature may still be a value error; it is required only to do no harm"])
EXE = c.build("asan", name="harness10", extra_wraps=("kill", "chown", "sleep", "usleep", "nanosleep"))
FLAGS = 16 | 256 | 512 | 2

def judge(what, want, rc, o, e):
    if rc == "0":
        if not o.endswith(b"|zdone\n"):
            return "ended without an error, but not at its end: %r" % o[-200:]
        if want is False and o != b"<Result Err>\n|zdone\n":
            return "accepted, although its arguments do not fit the documented signature; printed %r" % o[-200:]
        return None
    if rc == "2":
        if b"|zdone" in o:
            return "went on after a runtime error"
        if not re.search(rb"line \d+", e):
            return "a runtime error without a message: %r" % e[:300]
        return None
    return "status %s: %r" % (rc, e[:300])


def batch(sh, w, todo, tag):
    """todo: (key, source, want)"""
    w.reset_cwd()
    srcs = [("case.du", DEFS)] + [("case.du", s) for _, s, _ in todo] + [("case.du", "print('zz' + 'ok');")]
    r = w.run(srcs, flags=FLAGS, timeout=60.0 if len(todo) > 1 else 20.0)
    outs, errs = r.out.split(b"\x1e"), r.err.split(b"\x1e")
    if r.crash is None and r.exit == -1 and len(r.rcs) == len(srcs) and len(outs) == len(srcs) + 1 == len(errs) and outs[-2] == b"zzok\n":
        sh.evals += len(todo)
        sh.transitions += len(todo)
        for (k, s, want), rc, o, e in zip(todo, r.rcs[1:], outs[1:], errs[1:]):
            sh.state((tag, rc, re.sub(rb"\(\d+ given\)", b"", e)))
            sh.counts["status " + rc] += 1
            b = judge(s, want, rc, o, e)
            if b:
                sh.violate(k, "%s\n    %s" % (s, b), program=DEFS + s)
        return
    if len(todo) > 1:
        h = len(todo) // 2
        n = len(sh.violations)
        batch(sh, w, todo[:h], tag)
        if len(sh.violations) - n < 4:
            batch(sh, w, todo[h:], tag)
        return
    k, s, want = todo[0]
    w.reset_cwd()
    r = mc.run_confirm(w, srcs=srcs, flags=FLAGS, timeout=20.0)
    if r.crash is None and r.exit == -1 and r.out.split(b"\x1e")[-2:-1] == [b"zzok\n"]:
        sh.evals += 1
        b = judge(s, want, r.rcs[1], r.out.split(b"\x1e")[1], r.err.split(b"\x1e")[1])
        if b:
            sh.violate(k, "%s\n    %s" % (s, b), program=DEFS + s)
        return
    if (r.exit != -1 or r.rcs[-1:] == ["X"]) and ("exit(" in s or "fatal" in s):
        sh.evals += 1
        return
    sh.violate(k, "%s\n    %s%s" % (s, r.brief(), mc.crash_note(r) if r.crash else "; later sources: %r" % r.out[-200:]), program=DEFS + s)


def callwork(sh, item):
    recv, name, pre, s = item
    w = mc.worker(EXE, cwd_files=corpus.FILES)
    todo = []
    for args in arg_tuples(s, deep=not c.quick):
        want = matches(s, [KIND[a] for a in args])
        call = "%s(%s)" % (pre + name if pre else name, ", ".join(args))
        todo.append(("%s.%s(%s)" % (recv, name, ", ".join(args)), "var zr = %s; print(%s); print('|zdone');" % (call, "type(zr)" if name == "hmac" else "zr"), False if want is False else None))
        if len(todo) == 1000:
            batch(sh, w, todo, (recv, name))
            todo = []
            if len(sh.violations) > 6:
                break
    if todo:
        batch(sh, w, todo, (recv, name))
    if recv != "global":
        sh.sample(dict(call="%s.%s" % (recv, name), signature=s))


c.explore("calls", callwork, calls())

# ---------------------------------------------------------------- operators, subscripts, attributes, calls and statements on every pair of values
CALLABLE = {"fn", "class", "bound", "native"}
NOATTR = {"nil", "bool", "num", "fn", "native", "bound"}
H = KINDS["h"]
INDEX = lambda x, y: (x in ("list", "str") and y == "num") or (x == "dict" and y in H)
"""(template, must) - must(kind of X, kind of Y) is False when the form has no meaning for those kinds and has to be a runtime error"""
FORMS = [("var r = X %s Y; print(type(r));" % o, None) for o in ("+", "-", "*", "/", "%", "**", "&", "|", "^", "<", ">", "<=", ">=")]
FORMS += [("var r = X %s Y; print(r);" % o, None) for o in ("==", "!=", "and", "or")]
FORMS += [("var r = X; r %s= Y; print(type(r));" % o, None) for o in ("+", "-", "*", "/", "&", "|", "^")]
ARITH = lambda x, y: x == "num" == y
for o in ("-", "*", "/", "%", "**", "&", "|", "^", "<", ">", "<=", ">="):
    FORMS = [(t, ARITH if t.startswith("var r = X %s Y; print(type" % o) and not (o in "< > <= >=" and 0) else m) for t, m in FORMS]
FORMS = [(t, (lambda x, y: x == y and x in ("num", "str", "list")) if t.startswith("var r = X + Y") else (lambda x, y: x == y and x in ("num", "str")) if re.match(r"var r = X [<>]", t) else m) for t, m in FORMS]
FORMS += [
    ("print(-X);", lambda x, y: x == "num"), ("print(not X);", None), ("print(X ? 1 : 2);", None), ("if (X) { print(1); } else { print(2); }", None), ("var i = 0; while (X) { if (i == 2) { break; } i += 1; } print(i);", None),
    ("switch (X) { case Y: { print(1); } default: { print(2); } }", None), ("switch (X) { case 1, Y, 'q': { print(1); } }", None), ("print([X, Y].len()); print({'k': X}.len());", None), ("print({X: Y}.len());", lambda x, y: x in H), ("var r = [X]; r[0] = Y; print(r.len());", None),
    ("var r = X[Y]; print(type(r));", INDEX), ("var r = X; r[Y] = 1; print(type(r));", lambda x, y: INDEX(x, y) and x != "str"), ("var r = X; r[Y] += 1; print(type(r));", lambda x, y: INDEX(x, y) and x != "str"), ("var r = X; r[Y] = [r]; print(type(r));", lambda x, y: INDEX(x, y) and x != "str"),
    ("var r = X[Y:]; print(r);", lambda x, y: x in ("list", "str") and y == "num"), ("var r = X[:Y]; print(r);", lambda x, y: x in ("list", "str") and y == "num"), ("var r = X[Y:Y]; print(r);", lambda x, y: x in ("list", "str") and y == "num"), ("var r = X[-1:Y]; print(r);", lambda x, y: x in ("list", "str") and y == "num"),
    ("print(type(X.v));", lambda x, y: x not in NOATTR), ("print(type(X.zz));", lambda x, y: False if x != "trait" else None), ("print(type(X.k));", lambda x, y: x not in NOATTR), ("var r = X; r.v = Y; print(type(r));", lambda x, y: x in ("inst", "class", "trait")), ("var r = X; r.v += Y; print(type(r));", lambda x, y: x in ("inst", "class", "trait")), ("var r = X; r.k = Y; print(type(r));", lambda x, y: x in ("inst", "class", "trait")),
    ("print(type(X.zz(Y)));", lambda x, y: False), ("print(type(X.m(Y)));", None), ("print(type(X.p));", lambda x, y: False), ("var r = X?.v; print(type(r));", None), ("var r = X?.m(Y); print(type(r));", None), ("var r = X?.zz?.yy; print(type(r));", None), ("print(type(X.len));", None), ("print(type(X.values));", None),
    ("print(type(X()));", lambda x, y: x in CALLABLE), ("print(type(X(Y)));", lambda x, y: x in CALLABLE), ("print(type(X(Y, Y)));", lambda x, y: x in CALLABLE), ("print(type(X(...Y)));", lambda x, y: x in CALLABLE and y == "list"), ("print(type(X(1, ...Y)));", lambda x, y: x in CALLABLE and y == "list"), ("def f(a, b=2) { return a; } print(type(f(...X)));", lambda x, y: x == "list"), ("def f(...a) { return a; } print(f(X, Y).len());", None), ("def f(...a) { return a; } print(f(X, ...Y).len());", lambda x, y: y == "list"), ("print(type([1, 2].map(X)));", None),
    ("var [p] = X; print(type(p));", lambda x, y: x == "list"), ("var [p, q] = X; print(type(q));", lambda x, y: x == "list"), ("var p; var q; [p, q] = X; print(type(q));", lambda x, y: x == "list"),
    ("var ZS = X; class C < ZS { } print(C);", lambda x, y: x == "class"), ("var ZS = X; class C < ZS { init() { super.init(); } m() { return super.m(Y); } } print(type(C().m()));", lambda x, y: x == "class"), ("var ZS = X; class C { use ZS; } print(C);", lambda x, y: x == "trait"), ("var ZS = X; trait C { use ZS; } print(C);", lambda x, y: x == "trait"),
    ("with (X, Y) { print(type(file)); }", lambda x, y: x == "str" == y), ("class C { var a = X; const b = Y; } print(type(C().a)); print(type(C.b));", None), ("class C { init(var a=X, private b=Y) { } g() { return this.b; } } print(type(C().g()));", None), ("enum C { A = X, B = Y } print(type(C.A));", None), ("const r = X; print(type(r));", None), ("def f(a=X, b=Y) { return a; } print(type(f()));", None), ("print(type((def (x) => x)(X)));", None),
    ("var r = X; def f() { r = Y; return r; } f(); print(type(r));", None), ("print('{} {}'.format(X, Y).len());", None), ("var r = [X]; print(r.contains(Y)); print(r.remove(Y));", None), ("{ var a = X; { var b = Y; print(type(a)); } }", None), ("for (var i = X; i; i = Y) { break; }", None),
]
TRIPLES = [("var r = X[Y:Z]; print(r);", lambda x, y, z: x in ("list", "str") and y == "num" == z), ("var r = X; r[Y] = Z; print(type(r));", lambda x, y, z: INDEX(x, y) and x != "str"), ("var r = X; r[Y] += Z; print(type(r));", lambda x, y, z: INDEX(x, y) and x != "str"), ("print(type(X ? Y : Z));", None), ("print(type(X(Y, Z)));", lambda x, y, z: x in CALLABLE), ("print(type(X?.m(Y, Z)));", None), ("var r = {X: 1, Y: 2, Z: 3}; print(r.len());", lambda x, y, z: {x, y, z} <= H)]


def formwork(sh, item):
    t, must = ALLFORMS[item]
    vals = ALL
    w = mc.worker(EXE, cwd_files=corpus.FILES)
    todo = []
    uses = [v for v in "XYZ" if re.search(r"\b%s\b" % v, t)]
    for tup in it.product(*[vals for _ in uses]):
        d = dict(zip(uses, tup))
        code = re.sub(r"\b[XYZ]\b", lambda m: "(%s)" % d[m.group()] if "fn" == KIND[d[m.group()]] else d[m.group()], t)
        ks = [KIND[d[v]] if v in d else None for v in "XYZ"]
        want = must(*ks[:must.__code__.co_argcount]) if must else None
        todo.append((code, code + " print('|zdone');", False if want is False else None))
    for part in mc.chunks(todo, 800):
        batch(sh, w, part, t)
        if len(sh.violations) > 6:
            break
    sh.sample(dict(form=t))


ALLFORMS = FORMS + TRIPLES
c.explore("forms", formwork, range(len(ALLFORMS)))

# ---------------------------------------------------------------- where a runtime error is reported: every shape of call chain x every kind of error
ERRORS = ["nil();", "var e = nope;", "var e = 1 + 'a';", "var e = [1][9];", "var e = {}['k'];", "var e = 'a'[7];", "var e = nil.x;", "nil.x();", "[].pop();", "assert(false);", "1(2);", "zf1(1, 2, 3);", "Math.sqrt('x');", "Error('boom').unwrap();", "[1].map(zz => 1);" if 0 else "var e = {[]: 1};", "ZC().nope();", "ZC.nope = nope2;", "ZC().priv();", "var [e, f] = [1];", "zf1(...5);", "import 'nope.du';", "with ('/nope/x', 'r') { }", "var e = -'a';", "class D < nil { }", "var e = 5; e[0] = 1;", "nope = 1;"]
ERRORS[20] = "import \"nope.du\";"
"""shape -> lines that call the next shape (@) and the name of the frame they add"""
SHAPES = {
    "def": ("def f%d() {\n  var r = @;\n  return r;\n}", "f%d()", ["f%d"], 1), "tail": ("def f%d() {\n\n  return @;\n}", "f%d()", ["f%d"], 2), "arg": ("def f%d(a) {\n  print('x');\n  var r = a + 1;\n  @;\n}", "f%d(1)", ["f%d"], 3), "vararg": ("def f%d(...a) {\n  for (var i = 0; i < 1; i += 1) {\n    @;\n  }\n}", "f%d(1, 2)", ["f%d"], 2),
    "method": ("class C%d {\n  m%d() {\n    var r = @;\n    return r;\n  }\n}", "C%d().m%d()", ["m%d"], 2), "init": ("class C%d {\n  init() {\n    @;\n  }\n}", "C%d()", ["init"], 2), "static": ("class C%d {\n  static s%d() {\n    @;\n  }\n}", "C%d.s%d()", ["s%d"], 2), "super": ("class B%d {\n  m%d() {\n    @;\n  }\n}\nclass C%d < B%d {\n  m%d() {\n    var r = super.m%d();\n    return r;\n  }\n}", "C%d().m%d()", ["m%d", "m%d"], (2, 7)),
    "bound": ("class C%d {\n  m%d() {\n    @;\n  }\n}\nvar b%d = C%d().m%d;", "b%d()", ["m%d"], 2), "private": ("class C%d {\n  private p%d() {\n    @;\n  }\n  m%d() {\n    this.p%d();\n  }\n}", "C%d().m%d()", ["p%d", "m%d"], (2, 5)), "closure": ("def g%d(x) {\n  def h%d() {\n    x += 1;\n    @;\n  }\n  return h%d;\n}\nvar c%d = g%d(1);", "c%d()", ["h%d"], 3), "arrow": ("var a%d = def (x) => {\n  @;\n};", "a%d(1)", ["<anonymous>"], 1), "arrowx": ("var a%d = def (x) =>\n  @;", "a%d(1)", ["<anonymous>"], 1), "default": ("def d%d(\n  x=1\n) {\n  @;\n}", "d%d()", ["d%d"], 3),
    "trait": ("trait T%d {\n  t%d() {\n    @;\n  }\n}\nclass C%d {\n  use T%d;\n}", "C%d().t%d()", ["t%d"], 2), "optional": ("class C%d {\n  m%d() {\n    @;\n  }\n}", "C%d()?.m%d()", ["m%d"], 2), "cond": ("def f%d() {\n  if (true) {\n    var r = 1;\n  }\n  switch (2) {\n    case 2: {\n      @;\n    }\n  }\n}", "f%d()", ["f%d"], 6), "while": ("def f%d() {\n  var i = 0;\n  while (i < 2) {\n    i += 1;\n    if (i == 2) {\n      var q = @;\n    }\n  }\n}", "f%d()", ["f%d"], 5),
    "listmap": ("def f%d(x) {\n  @;\n}", "[1].map(f%d)", ["f%d", "!map"], 1), "foreach": ("def f%d(x) {\n  @;\n}", "[1].forEach(f%d)", ["f%d", "!forEach"], 1), "reduce": ("def f%d(a, x) {\n  @;\n}", "[1, 2].reduce(f%d)", ["f%d", "!reduce"], 1), "match": ("def f%d(a) {\n  @;\n}", "Success(1).match(f%d, f%d)", ["f%d", "!match"], 1), "dictfe": ("def f%d(k, v) {\n  @;\n}", "{1: 2}.forEach(f%d)", ["f%d", "!forEach"], 1),
}
TRACE = re.compile(rb"Error:\x1b\[0m (?:Function '([^']*)' in|File) '([^']*)', \x1b\[1mline (\d+)\x1b\[0m")


def trace_case(chain, err):
    """(source, expected frames innermost first: (function or None, file or None for a built-in, line or None))"""
    call, frames, text, line = err, [], "", 5
    text = "import Math;\ndef zf1(a) { return a; }\nclass ZC { var v = 1; private priv() { } }\n\n"
    for n, sh in reversed(list(enumerate(chain))):
        tpl, how, names, off = SHAPES[sh]
        offs = off if isinstance(off, tuple) else (off,)
        body = tpl.replace("%d", str(n))
        inner = call.rstrip(";")
        if not re.match(r"(var|import|with|class|nope =|assert)", call) or "@;" not in tpl or "= @;" in tpl or "return @" in tpl or "=>\n  @;" in tpl:
            if re.match(r"(var|import|with|class|nope =)", call) and ("= @;" in tpl or "return @" in tpl or "=>\n  @;" in tpl):
                return None
        if "=>\n  @;" in tpl and inner.startswith("{"):
            return None
            body = body.replace("@", inner)
        else:
            body = body.replace("@;", call)
        k = 0
        for nm in names:
            if nm.startswith("!"):
                frames.append((nm[1:], None, None))
            else:
                frames.append((nm.replace("%d", str(n)), "case.du", line + offs[k]))
                k += 1
        text += body + "\n"
        line += body.count("\n") + 1
        call = how.replace("%d", str(n)) + ";"
    text += "print('before');\n" + call + "\nprint('after');\n"
    frames.append((None, "case.du", line + 1))
    return text, frames


def tracework(sh, item):
    w = mc.worker(EXE, cwd_files=corpus.FILES)
    todo = []
    for chain, err in item:
        t = trace_case(chain, err)
        if t:
            todo.append((chain, err) + t)
    for part in mc.chunks(todo, 900):
        srcs = [("case.du", t[2]) for t in part]
        r = w.run(srcs, flags=FLAGS, timeout=60.0)
        outs, errs = r.out.split(b"\x1e"), r.err.split(b"\x1e")
        if r.crash or len(outs) != len(srcs) + 1 or len(errs) != len(srcs) + 1:
            sh.violate("trace-session:%s" % (part[0][:2],), "%s%s" % (r.brief(), mc.crash_note(r) if r.crash else ""))
            continue
        for (chain, err, text, frames), rc, o, e in zip(part, r.rcs, outs, errs):
            sh.evals += 1
            got = [(a.decode() or None if a else None, b.decode(), int(n)) for a, b, n in TRACE.findall(e)]
            sh.transitions += len(got)
            sh.state((chain, err))
            bad = None
            if rc != "2":
                bad = "status %s, not a runtime error: %r" % (rc, e[:200])
            elif not o.endswith(b"before\n") and b"before\n" not in o or b"after" in o:
                bad = "went on, or did not get there: %r" % o[-100:]
            elif len(got) != len(frames) or any(g[0] != f[0] or f[1] and (g[1], g[2]) != (f[1], f[2]) for g, f in zip(got, frames)):
                bad = "frames reported %s, those active %s" % (got, frames)
            if bad:
                r2 = mc.run_confirm(w, srcs=[("case.du", text)], flags=FLAGS)
                sh.violate("trace:%s:%s" % ("/".join(chain), err), "%s\n%s" % (bad, text), program=text)
    sh.sample(dict(chain="/".join(item[0][0]), error=item[0][1]))


names = list(SHAPES)
cases = [((), e) for e in ERRORS] + [((a,), e) for a in names for e in ERRORS] + [((a, b), e) for a in names for b in names for e in c.pick(ERRORS[:14], ERRORS)] + [((a, b, d), e) for a in names for b in names for d in names for e in c.pick(ERRORS[:2], ERRORS[:6])]
c.explore("traces", tracework, mc.chunks(cases, 600))
c.bounds = dict(built_ins=len(SIG), values=len(ALL), tuples="all of length 0-2 over all values, 3 over one value of each kind, more over a smaller set", forms=len(ALLFORMS), chain_shapes=len(SHAPES), chain_depth=3, error_kinds=len(ERRORS))
c.finish()

"""P26: Path: every path text up to a length over the characters that matter, every small join, every small directory tree with every path into it, against a reference and the file system."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P26", rule="one path looked at; non-trivial = distinct (path, tree, answers)",
             assumptions=["paths hold no NUL byte", "the extension of a name that begins with its last dot is '' or that name"])
EXE = c.build("plain")
ASAN = c.build("asan")
PRE = """import Path; var r; var t;
def zT(k, p, a, b) { if (type(a) != type(b) or a != b) { print('{} of {}'.format(k, p)); print(a); } }
def zE(p, a, b) { if (a != b and a != '') { print('extname of ' + p); print(a); } }
def zR(p, b) { const a = Path.realpath(p); if (a.success() != (b != nil)) { print('realpath of ' + p); print(a); } else if (b != nil and a.unwrap() != b) { print('realpath of ' + p); print(a); } }
def zL(p, b) { const a = Path.listDir(p); a.sort(); if (a != b) { print('listDir of ' + p); print(a); } }
"""


def lit(s):
    return '"' + "".join(ch if " " <= ch <= "~" and ch not in '"\\' else "".join("\\x%02x" % x for x in ch.encode("utf-8", "surrogateescape")) for ch in s) + '"'


def dirname(p):
    q = p.rstrip("/")
    i = q.rfind("/")
    if i < 0:
        return "/" if p[:1] == "/" and not q else "."
    return q[:i].rstrip("/") or "/"


def basename(p):
    q = p.rstrip("/")
    return ("/" if p else "") if not q else q[q.rfind("/") + 1:]


def extname(p):
    b = basename(p)
    i = b.rfind(".")
    return "" if i < 0 else b[i:]


def join(parts):
    names = [q for q in (p.strip("/") for p in parts) if q]
    s = ("/" if parts[0][:1] == "/" else "") + "/".join(names)
    return s + "/" if parts[-1][-1:] == "/" and s and s[-1] != "/" else s


assert [dirname(x) for x in ("", "a", "/", "//", "/root", "///root", "/root///a", "a/b/")] == [".", ".", "/", "/", "/", "/", "/root", "a"]


# ---------------------------------------------------------------- texts
def texts(sh, item):
    exe, pre, alpha, n = item
    items, buf = [], []

    def one(p):
        e = extname(p)
        x = "zT('extname', %s, Path.extname(%s), %s);" % (lit(p), lit(p), lit(e)) if basename(p) != e else "zE(%s, Path.extname(%s), %s);" % (lit(p), lit(p), lit(e))
        return "t = %s; zT('dirname', t, Path.dirname(t), %s); zT('basename', t, Path.basename(t), %s); zT('isAbsolute', t, Path.isAbsolute(t), %s); %s" % (lit(p), lit(dirname(p)), lit(basename(p)), "true" if p[:1] == "/" else "false", x)
    for t in it.product(alpha, repeat=n):
        p = pre + "".join(t)
        buf.append(p)
        if len(buf) == 9:
            items.append(("text:%s" % ascii(buf[0]), "".join(map(one, buf)), ""))
            buf = []
    if buf:
        items.append(("text:%s" % ascii(buf[0]), "".join(map(one, buf)), ""))
    mc.session(sh, mc.worker(ASAN if exe else EXE), items, prelude=PRE, flags=0, by_source=True, n=1500)


def split(exe, alpha, n, head=2):
    for k in range(n + 1):
        for h in it.product(alpha, repeat=min(k, head)):
            yield (exe, "".join(h), alpha, k - min(k, head))


c.explore("texts", texts, list(split(0, "/a.", c.pick(8, 10))) + list(split(1, "/.b", 6)) + list(split(1, ["/", "ab", "..", ".c", "x.y", " ", "\\", "é", "\xff", "-", "\n"], c.pick(4, 5)))
          + [(1, "", ["/" * i + x * j + y * k for i in (0, 1, 2, 300) for x in ("a", ".", "/") for j in (0, 1, 255, 256, 5000) for y in ("/", ".", "b") for k in (0, 1, 300)], 1)])


def joins(sh, item):
    parts, n, head = item
    items, buf = [], []

    def one(ps):
        want = lit(join(ps))
        return "zT('join', %s, Path.join(%s), %s); zT('list', %s, Path.join([%s]), %s);" % (lit("|".join(ps)[:60]), ", ".join(map(lit, ps)), want, lit("|".join(ps)[:60]), ", ".join(map(lit, ps)), want)
    for t in it.product(parts, repeat=n):
        buf.append(list(head) + list(t))
        if len(buf) == max(4, 14 - 2 * n):
            items.append(("join:%s" % ascii(buf[0]), "".join(map(one, buf)), ""))
            buf = []
    if buf:
        items.append(("join:%s" % ascii(buf[0]), "".join(map(one, buf)), ""))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0, by_source=True)


JP = ["", "/", "//", "a", "/a", "a/", "/a/", "//a//", ".", "a/b", "..", "a//b"]
S3 = ["".join(t) for n in range(0, 4) for t in it.product("/ab", repeat=n)]
c.explore("join", joins, [(JP, 1, ())] + [(JP, k - 1, (x,)) for k in (2, 3, c.pick(3, 4)) for x in JP] + [(S3, 1, (x,)) for x in S3] + [(["", "/", "x", "/x/"], 5, ("a",)), (["/", "x/"], 8, ("a",))]
          + [(["a" * 300, "/" * 300, "b" * 5000 + "/"], 2, (x,)) for x in ("", "/", "q" * 4000)])


# ---------------------------------------------------------------- the file system
KIND = {"-": None, "f": "x", "d": "dir", "D": "dir with a file", "l": "link to a sibling", "L": "link up", "b": "broken link", "o": "link to itself", "A": "absolute link"}


def tree(ka, kb, w):
    t = {"case.du": ""}
    for n, k, other in (("a", ka, "b"), ("b", kb, "a")):
        p = "t/" + n
        if k == "f":
            t[p] = "x"
        elif k == "d":
            t[p] = None
        elif k == "D":
            t[p + "/a"] = "y"
            t[p + "/b"] = None
            t[p + "/.c"] = ("link", "..")
        elif k == "l":
            t[p] = ("link", other)
        elif k == "L":
            t[p] = ("link", "../t/./" + other + "/")
        elif k == "b":
            t[p] = ("link", "nothing")
        elif k == "o":
            t[p] = ("link", n)
        elif k == "A":
            t[p] = ("link", w.cwd + "/t")
    t["t/." if "t" not in t else "t"] = None
    return t


def exists(p, cwd):
    try:
        os.stat(os.path.join(cwd, p) if p else "")
        return True
    except (OSError, ValueError):
        return False


def real(p, cwd):
    if not exists(p, cwd):
        return None
    if p.endswith("/") and not os.path.isdir(os.path.join(cwd, p)):
        return None
    return os.path.realpath(os.path.join(cwd, p), strict=True)


def trees(sh, item):
    ka, kb = item
    w = mc.worker(EXE)
    w.files = tree(ka, kb, w)
    w.reset_cwd()
    paths = ["", ".", "..", "/", "t", "t/", "./t", "t/.", "t/..", "t//", "./case.du", "case.du", "case.du/", "case.du/..", "case.du/.", "nothing", "nothing/..", w.cwd, w.cwd + "/t", w.cwd + "/t/../case.du", "t/" + "a/" * 500, "x" * 255, "x" * 256, "x" * 5000, "./" * 1900 + "t"]
    steps = ["a", "b", ".", "..", ".c", ""]
    for n in (1, 2, 3) if c.quick else (1, 2, 3, 4):
        paths += ["t/" + "/".join(x) for x in it.product(steps, repeat=n)]
    items = []
    for p in dict.fromkeys(paths):
        e = exists(p, w.cwd)
        d = e and os.path.isdir(os.path.join(w.cwd, p))
        r = real(p, w.cwd)
        src = "t = %s; zT('exists', t, Path.exists(t), %s); zT('isDir', t, Path.isDir(t), %s); zR(t, %s);" % (lit(p), "true" if e else "false", "true" if d else "false", "nil" if r is None else lit(r))
        if d and not p.startswith("/") or p.startswith(w.cwd) and d:
            if os.path.realpath(os.path.join(w.cwd, p)).startswith(w.cwd):
                src += "zL(t, [%s]);" % ", ".join(map(lit, sorted(os.listdir(os.path.join(w.cwd, p)))))
        key = p if len(p) < 60 else "%s*%d" % (p[:6], len(p))
        items.append(("tree:%s%s:%s" % (ka, kb, key.replace(w.cwd, "CWD")), src, ""))
        if not d:
            items.append(("list:%s%s:%s" % (ka, kb, key.replace(w.cwd, "CWD")), "Path.listDir(%s);" % lit(p), fails(out="")))
    items.append(("list:here", "r = Path.listDir(); r.sort(); print(r);", "[%s]\n" % ", ".join('"%s"' % x for x in sorted(os.listdir(w.cwd)))))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True, n=1500)
    w.files = {"case.du": ""}
    w.reset_cwd()


c.explore("trees", trees, list(it.product(KIND, repeat=2)))


def many(sh, item):
    """directories of every size, names of every byte"""
    w = mc.worker(EXE)
    names = [bytes([x]).decode("utf-8", "surrogateescape") for x in range(1, 256) if x not in (30, 46, 47)] + ["n" * k for k in (2, 100, 254, 255)] + ["...", "....", "..a", ".a", ".a.", "a.", "a..", "..~", ". .", ".. ", " ..", ".\n", "..\n", "-.."]
    for n in [0, 1, 2, 7, 8, 9, 100, 290, 500]:
        w.files = {"case.du": "", "m": None}
        w.reset_cwd()
        ns = (names + ["%d.x" % k for k in range(500)])[:n]
        for x in ns:
            open(os.path.join(os.fsencode(w.cwd), b"m", os.fsencode(x)), "w").close()
        items = [("many:%d" % n, "print(Path.listDir('m').len()); r = Path.listDir('m/.'); r.sort(); print(r.len()); for (var i = 1; i < r.len(); i += 1) { if (r[i] == r[i - 1] or not Path.exists('m/' + r[i]) or Path.isDir('m/' + r[i])) { print(r[i]); } }", "%d\n%d\n" % (n, n))]
        for k in range(0, n, 40):
            items.append(("named:%d:%d" % (n, k), "r = Path.listDir('m'); " + "".join("if (not r.contains(%s) or not Path.exists(%s)) { print(%s); }" % (lit(x), lit("m/" + x), lit(x)) for x in ns[k:k + 40]), ""))
        mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)
    w.files = {"case.du": ""}
    w.reset_cwd()
    items = []
    for f in ("basename", "dirname", "extname", "isAbsolute", "realpath", "exists", "isDir", "join", "listDir"):
        for a in ("1", "nil", "[1]", "{}", "true", "'a', 1"):
            items.append(("misuse:%s:%s" % (f, a), "Path.%s(%s);" % (f, a), fails(out="")))
        if f not in ("listDir",):
            items.append(("misuse:%s" % f, "Path.%s();" % f, fails(out="")))
        if f != "join":
            items.append(("misuse:%s:2" % f, "Path.%s('a', 'b');" % f, fails(out="")))
    items.append(("misuse:join:[]", "Path.join([]);", fails(out="")))
    items.append(("constants", "print(Path.delimiter + Path.dirSeparator);", ":/\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("directories", many, [0])
# ---- names and paths of every length ----
def lengths(sh, item):
    exe, ns = item
    items = []
    for n in ns:
        x = "x" * n
        ps = [x, "/" + x, x + "/", x + "/b.c", "/a/" + x, "a/" + x + ".e", "a." + x, "." + x, x + ".", "/" * n, "/" * n + "a", "a" + "/" * n, "a" + "/" * n + "b", "a/" * n, "a/" * n + "b.d", "." * n, "../" * n, x + "." + x, "/" + x + "/" + x + "/", "a.b/" + x, x + "//" + x]
        code = ""
        for i, p in enumerate(ps):
            code += "t = %s; zT('dirname', t, Path.dirname(t), %s); zT('basename', t, Path.basename(t), %s); zT('isAbsolute', t, Path.isAbsolute(t), %s); zT('extname', t, Path.extname(t), %s);" % (lit(p), lit(dirname(p)), lit(basename(p)), "true" if p[:1] == "/" else "false", lit(extname(p)))
            if i % 7 == 6:
                items.append(("lengths:%d:%d" % (n, i), code, ""))
                code = ""
        for k, ps in enumerate(([x, "b"], ["a", x], [x, x], ["/" + x, "c/"], [x + "/", "/" + x + "/"], ["a" * (i % 7) for i in range(min(n, 60))] or [""], ["/"] * min(n, 60) or ["/"])):
            items.append(("joinlen:%d:%d" % (n, k), "zT('join', 'n', Path.join(%s), %s); zT('list', 'n', Path.join([%s]), %s);" % (", ".join(map(lit, ps)), lit(join(ps)), ", ".join(map(lit, ps)), lit(join(ps))), ""))
    for n in [k for k in ns if k and not exe]:
        m = min(n, 250)
        # names of every length the file system takes, directories of every depth
        items.append(("names:%d" % n, "const n = 'y'.repeat(%d); const m = System.mkdirTemp('lXXXXXX').unwrap(); const d = m + '/' + n; print(System.mkdir(d).success()); print(Path.isDir(d)); print(Path.isDir(d + 'y')); print(Path.listDir(m)[0] == n); print(Path.listDir(m).len()); print(Path.realpath(d).unwrap() == System.getCWD().unwrap() + '/' + d); with (d + '/f', 'w') { file.write('q'); } print(Path.exists(d + '/f')); print(System.remove(d + '/f').success()); print(System.rmdir(d).success()); print(System.rmdir(m).success());" % m,
                      "true\ntrue\nfalse\ntrue\n1\ntrue\ntrue\ntrue\ntrue\ntrue\n"))
        if n <= 60:
            items.append(("depth:%d" % n, "const m = System.mkdirTemp('lXXXXXX').unwrap(); const n = m + '/dd'.repeat(%d); print(System.mkdirAll(n).success()); print(Path.isDir(n)); print(Path.isDir(n + '/dd')); var p = n; var k = 0; while (p != m) { if (Path.listDir(p).len() != 0) { print(p); } System.rmdir(p); p = Path.dirname(p); k += 1; } print(k); print(System.rmdir(m).success());" % n,
                          "true\ntrue\nfalse\n%d\ntrue\n" % n))
    wrap = lambda k, s: "def f() { var t; %s } f();" % s if k[:3] in ("nam", "dep") else "{ var t; %s }" % s
    mc.session(sh, mc.worker(ASAN if exe else EXE), [(k, wrap(k, s), o) for k, s, o in items], prelude='import System;' + PRE, flags=512 if not exe else 0, by_source=True, n=150)


LS = sorted(set(range(c.pick(140, 600))) | {254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 5000})
c.explore("lengths", lengths, [(0, list(x)) for x in mc.chunks(LS, 8)] + [(1, list(x)) for x in mc.chunks(LS[::c.pick(3, 1)], 8)])
c.bounds = {"path length": c.pick(8, 10), "join parts": c.pick(3, 4), "tree": "two entries of 9 kinds each, paths of up to %d steps" % c.pick(3, 4)}
c.finish()

"""P27: files: every sequence of operations on a handle in every mode from every small content, in lockstep with a byte-stream model; every way out of nested
with-blocks; every history of file system operations from small trees; transfers that are cut short or fail."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, hist
from mc import fails

c = mc.Check("P27", rule="one history of operations on files; non-trivial = distinct (history, results, file contents after)",
             assumptions=["names hold no NUL byte", "reading a line from a handle open for writing only gives nil or a runtime error", "runs as root: permissions refuse nothing"])
EXE = c.build("plain")
ASAN = c.build("asan")
FAULT = c.build("plain", name="fault", extra_wraps=("read", "write", "sendfile"))


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    return '"' + "".join(chr(x) if 32 <= x < 127 and x not in (34, 92) else "\\x%02x" % x for x in b) + '"'


PRE = """import System; import Path; import IO; import Env; var h; var r; var t; var e;
def zSet(n, t) { with(n, 'wb') { if (t.len() > 0) { file.write(t); } } }
def zGet(n) { with(n, 'rb') { return file.read(); } }
"""


# ---------------------------------------------------------------- one handle
class F:
    """a stream: bytes, position"""

    def __init__(self, b, pos=0):
        self.b, self.pos = b, pos


def readf(f, m):
    s = f.b[f.pos:]
    return F(f.b, max(f.pos, len(f.b))), s


def readline(n):
    def go(f, m):
        rest = f.b[f.pos:]
        if not rest:
            return f, None
        i = rest.find(b"\n")
        i = len(rest) if i < 0 else i
        if n is not None and i >= n:
            return F(f.b, f.pos + n), rest[:n]
        return F(f.b, f.pos + min(i + 1, len(rest))), rest[:i]
    return go


def write(s, line=False):
    t = s + b"\n" if line else s

    def go(f, m):
        if not t:
            return f, 0
        p = len(f.b) if m["app"] else f.pos
        b = f.b + b"\0" * max(0, p - len(f.b))
        return F(b[:p] + t + b[p + len(t):], p + len(t)), len(t)
    return go


def seek(off, frm=0):
    def go(f, m):
        if off != 0 and not m["bin"]:
            return "error"
        p = off + (0 if frm == 0 else f.pos if frm == 1 else len(f.b))
        return (f if p < 0 else F(f.b, p)), "nil"
    return go


OPS = [("file.read()", readf, "r"), ("file.readLine()", readline(None), "r"), ("file.readLine(1)", readline(1), "r"), ("file.readLine(3)", readline(3), "r"),
       ("file.write('x')", write(b"x"), "w"), ("file.write('')", write(b""), "w"), ("file.write('y\\nz')", write(b"y\nz"), "w"), ("file.writeLine('q')", write(b"q", True), "w"),
       ("file.seek(0)", seek(0), ""), ("file.seek(0, 2)", seek(0, 2), "")]
BOPS = [("file.seek(1)", seek(1), ""), ("file.seek(-1, 2)", seek(-1, 2), ""), ("file.seek(1, 1)", seek(1, 1), ""), ("file.seek(-2, 1)", seek(-2, 1), ""), ("file.seek(7)", seek(7), "")]
MODES = dict(r=("r", 0), w=("w", 0), a=("w", 0), rb=("r", 1), wb=("w", 1), ab=("w", 1))
MODES.update({"r+": ("rw", 0), "w+": ("rw", 0), "a+": ("rw", 0), "rb+": ("rw", 1), "w+b": ("rw", 1), "a+b": ("rw", 1), "r+b": ("rw", 1)})


def text(v):
    return b"nil" if v is None else str(v).encode() if isinstance(v, int) else v.encode() if isinstance(v, str) else v


def handles(sh, item):
    mode, content, depth = item
    rw, binary = MODES[mode]
    m = dict(app=mode[0] == "a", bin=binary)
    items = []
    ops = OPS + (BOPS if binary else [("file.seek(1)", seek(1), "")])
    start = F(b"" if mode[0] == "w" else content)
    w = mc.worker(EXE)

    def add(codes, out, f, err):
        pre = "zSet('f', %s);" % lit(content)
        body = "with('f', '%s') { h = file; %s }" % (mode, " ".join("print(%s);" % x for x in codes))
        key = "%s:%s:%s" % (mode, ascii(content), ",".join(x[5:] for x in codes))
        if err:
            items.append(("err:" + key, pre + body, fails(out=out)))
            items.append(("after:" + key, "print(zGet('f'));", f.b + b"\n"))
        else:
            items.append((key, pre + body + " print(zGet('f'));", out + f.b + b"\n"))

    def go(codes, out, f, d):
        for x, fn, need in ops:
            if need and need not in rw:
                if need == "w" or x == "file.read()":
                    add(codes + [x], out, f, True)
                continue
            g = fn(f, m)
            if g == "error":
                add(codes + [x], out, f, True)
                continue
            f2, v = g
            o2 = out + text(v) + b"\n"
            if d + 1 == depth:
                add(codes + [x], o2, f2, False)
            else:
                go(codes + [x], o2, f2, d + 1)
        if len(items) > 1500:
            flush()

    def flush():
        mc.session(sh, w, items, prelude=PRE, flags=0, n=1800)
        del items[:]
    go([], b"", start, 0)
    flush()


CONT = [b"", b"a", b"\n", b"ab\n", b"ab\ncd\n", b"a\n\nbcd", b"a\0\n\xffb"]
c.explore("handles", handles, [(m, x, d) for d in range(1, c.pick(3, 4) + 1) for m in MODES for x in CONT])


# ---------------------------------------------------------------- sizes, bytes and modes
def sizes(sh, item):
    part, = item
    w = mc.worker(EXE)
    items = []
    w.files = {"case.du": ""}
    for k, b in enumerate(part):
        w.files["in%d" % k] = b
    w.reset_cwd()
    for k, b in enumerate(part):
        name = "size:%d:%r" % (len(b), b[:3])
        lines = b.split(b"\n")
        if lines[-1] == b"":
            lines.pop()
        big = len(b) > 3000
        items.append((name + ":read", "print(zGet('in%d').len()); zSet('out%d', zGet('in%d'));" % (k, k, k), "%d\n" % len(b)))
        items.append((name + ":lines", "r = []; with('in%d', 'r') { var l; while ((l = file.readLine()) != nil) { r.push(l); } } print(r.len()); with('lines%d', 'w') { r.forEach(def (l) => { if (file.writeLine(l) != l.len() + 1) { print('count'); } }); }" % (k, k), "%d\n" % len(lines)))
        for n in (1, 2, 127, 128, 129, 4096):
            if n < 100 and big:
                continue
            items.append((name + ":limit%d" % n, "e = 0; with('in%d', 'r') { with('limit%d.%d', 'w') { } var l; while ((l = file.readLine(%d)) != nil) { if (l.len() > %d) { print('long'); } e += l.len(); } } print(e);" % (k, k, n, n, n), "%d\n" % (len(b) - b.count(b"\n"))))
        items.append((name + ":append", "with('app%d', 'w') {} for (var i = 0; i < 3; i += 1) { with('app%d', 'a') { file.write(zGet('in%d')); } } print(zGet('app%d').len());" % (k, k, k, k), "%d\n" % (3 * len(b))))
        items.append((name + ":copy", "print(IO.copyFile('in%d', 'copy%d').success());" % (k, k), "true\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)
    for k, b in enumerate(part):
        lines = b.split(b"\n")
        if lines[-1] == b"":
            lines.pop()
        for f, want in (("out%d" % k, b), ("lines%d" % k, b"".join(x + b"\n" for x in lines)), ("app%d" % k, b * 3), ("copy%d" % k, b), ("in%d" % k, b)):
            try:
                got = open(os.path.join(w.cwd, f), "rb").read()
            except OSError as x:
                got = repr(x).encode()
            sh.evals += 1
            if got != want:
                sh.violate("bytes:%s:%d:%r" % (f[:3], len(b), b[:3]), "%s of %d bytes (%r...): file has %d bytes %r..." % (f, len(b), b[:20], len(got), got[:20]), program="zSet/zGet/readLine/append of a file of %d bytes" % len(b))
    w.files = {"case.du": ""}
    w.reset_cwd()


SZ = [0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1000000]
blobs = [bytes(x) for n in (1, 2) for x in it.product([0, 10, 13, 26, 65, 255], repeat=n)] + [bytes(range(256))] + [bytes([x]) for x in range(256)]
for n in SZ:
    blobs += [b"a" * n, b"a" * (n - 1) + b"\n" if n else b"", b"\n" * min(n, 9000), b"\0" * n, (b"0123456\n" * (n // 8 + 1))[:n] if n < 70000 else b"z" * n]
# long lines with every byte in them, at the end of them, and before the end of the file
EVERY = bytes(x for x in range(256) if x != 10)
blobs += [EVERY * k for k in (1, 2, 17, 40)] + [EVERY * 2 + b"\n" + EVERY[::-1] * 2 + b"\n" + EVERY]
for n in (100, 126, 127, 128, 255, 1023, 4095):
    blobs += [b"".join(b"l" * n + bytes([x]) + t for t in (b"\n", b"t\n", bytes([x]) + b"\n", b"")) for x in (0, 9, 11, 12, 13, 26, 27, 32, 127, 128, 255)]
c.explore("sizes", sizes, [(p,) for p in mc.chunks(blobs, 40)])


def misuse(sh, item):
    items = []
    w = mc.worker(ASAN)
    w.files = {"case.du": "", "f": "text\n", "d": None, "loop": ("link", "loop"), "toF": ("link", "f")}
    w.reset_cwd()
    for m in ("", "x", "zz", "rw", "+", "R", "1", "b"):
        items.append(("mode:%s" % m, "with('f', '%s') { print(1); }" % m, [b"1\n"] if m == "rw" else fails(out="")))
    for n in ("nothing", "d/nothing", "f/x", "", "loop", "x" * 300):
        for m in MODES:
            if m[0] == "r" or n not in ("nothing", "d/nothing"):
                items.append(("open:%s:%s" % (n[:9], m), "with('%s', '%s') { print(1); }" % (n, m), fails(out="")))
    for m in MODES:
        if m[0] != "r" or "+" in m:
            items.append(("dir:%s" % m, "with('d', '%s') { print(1); }" % m, fails(out="")))
        else:
            items.append(("dir:%s" % m, "with('d', '%s') { print(file.read()); }" % m, fails(out="")))
    for a, b in (("1", "'r'"), ("'f'", "1"), ("nil", "nil"), ("'f'", "nil"), ("[]", "'r'")):
        items.append(("type:%s:%s" % (a, b), "with(%s, %s) { print(1); }" % (a, b), fails(out="")))
    for x in ("write()", "write(1)", "write(nil)", "write('a', 'b')", "writeLine()", "writeLine(1)", "writeLine('a', 'b')", "read(1)", "readLine('a')", "readLine(0)", "readLine(-1)", "readLine(0/0)", "readLine(1, 2)", "seek()", "seek('a')", "seek(0, 'a')", "seek(0, nil)", "seek(1, 2, 3)", "close()", "nothing()"):
        items.append(("args:%s" % x, "with('g', 'w+') { file.%s; }" % x, fails(out="")))
    for x in ("read()", "readLine()", "readLine(3)", "write('a')", "write('')", "writeLine('a')", "seek(0)", "seek(0, 2)"):
        for m in ("r", "w+", "a", "rb+"):
            items.append(("closed:%s:%s" % (x, m), "with('g', 'w') {} with('g', '%s') { h = file; } h.%s;" % (m, x), fails(out="")))
            items.append(("closed twice:%s:%s" % (x, m), "with('g', 'w') {} with('g', '%s') { h = file; } with('g', 'a') { h.%s; }" % (m, x), fails(out="")))
    items += [("link", "print(zGet('toF')); zSet('toF', 'new'); print(zGet('f'));", "text\n\nnew\n"), ("full", "with('/dev/full', 'w') { file.write('x'); }", fails(out="")), ("full line", "with('/dev/full', 'a') { file.writeLine('x'); }", fails(out="")),
              ("full big", "t = 'x'; while (t.len() < 100000) { t += t; } with('/dev/full', 'w') { file.write(t); }", fails(out="")), ("null", "with('/dev/null', 'w') { print(file.write('abc')); } print(zGet('/dev/null') == '');", "3\ntrue\n"),
              ("const", "with('f', 'r') { file = 1; }", fails(mc.COMPILE)), ("proc", "print(zGet('/proc/self/status').len() > 100);", "true\n"),
              ("devnull", "print(IO.devNull); print(IO.copyFile('f', IO.devNull).success()); print(zGet('f'));", "/dev/null\ntrue\nnew\n"), ("two handles", "with('g', 'w') { const a = file; with('g', 'r') { print(file.read() == ''); a.write('12'); file.seek(0); print(file.read()); a.write('3'); file.seek(0); print(file.read()); } } print(zGet('g'));", "true\n12\n123\n123\n")]
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)
    w.files = {"case.du": ""}
    w.reset_cwd()


c.explore("misuse", misuse, [0])


# ---------------------------------------------------------------- every way out of a with-block closes its file
OUT = "def zFds() { return Path.listDir('/proc/self/fd').len(); } def zClosed(h) { return h.toString(); } var zN; var hs;\n"


def exits(sh, item):
    """programs: nests of with, loops, functions and conditions with one exit at the bottom; the number of open descriptors and what was written afterwards"""
    depth, first = item
    items = []
    wrap = {"W": ("with('o%d', 'w') { hs.push(file); file.write('<%d>');", " file.write('after%d'); }"), "R": ("with('in', 'r') { hs.push(file);", " file.readLine(); }"),
            "F": ("for (var i%d = 0; i%d < 2; i%d += 1) {", " print('loop%d'); }"), "L": ("while (true) { zN += 1; if (zN > 5) { break; }", " print('while%d'); }"),
            "D": ("(def () => {", " print('end%d'); })();"), "I": ("if (true) {", " print('if%d'); }"), "B": ("{ var v%d = %d; ", " print(v%d); }"), "S": ("switch (1) { case 1: { ", "} default: { print('no'); } }"), "C": ("[1].forEach(def (x) => {", " print('each%d'); });")}
    for n in range(1, depth + 1):
        for t in it.product(wrap, repeat=n - 1):
            s = (first,) + t
            if "W" not in s and "R" not in s:
                continue
            for x in ("", "break;", "continue;", "return;", "return 7;", "nil.zz;", "if (zN > 0) { break; } zN += 1;", "const q = 1; return q;"):
                # what can the exit reach?
                inner = []
                for k in s:
                    inner = [] if k in "DC" else inner + [k]
                if ("break" in x or "continue" in x) and not ("F" in inner or "L" in inner):
                    continue
                pre = "zN = 0; hs = []; "
                code = pre + "def zz() { " + "".join(wrap[k][0].replace("%d", str(i)) for i, k in enumerate(s)) + " " + x + "".join(wrap[k][1].replace("%d", str(i)) for i, k in reversed(list(enumerate(s)))) + " return 5; }\n"
                # descriptors before and after; each handle closed
                post = "System.collect(); print(zFds() - t);" if x != "nil.zz;" else "h = hs; hs = [1]; h = nil; System.collect(); print(zFds() - t);"
                key = "exit:%s:%s" % ("".join(s), x)
                items.append((key, code, ""))
                if x == "nil.zz;":
                    items.append(("run" + key, "System.collect(); t = zFds(); zz();", ["any"]))
                else:
                    items.append(("run" + key, "System.collect(); t = zFds(); zz(); e = zFds() - t; print(e == 0 ? '' : 'open: ' + e.toString());", ["any"]))
                items.append(("end" + key, post + " h = nil; print(hs.len() > 0);", "0\ntrue\n"))
    # run and compare: output of the middle source is free but must end with an empty line (nothing left open)
    w = mc.worker(EXE)
    w.files = {"case.du": "", "in": "l1\nl2\n"}
    for part in mc.chunks([items[i:i + 3] for i in range(0, len(items), 3)], 500):
        w.reset_cwd()
        r = mc.run_confirm(w, srcs=[("case.du", PRE + OUT)] + [("case.du", s) for tr in part for _, s, _ in tr], flags=16, timeout=60)
        outs = r.out.split(b"\x1e")
        sh.evals += len(part)
        sh.transitions += len(part)
        for k, tr in enumerate(part):
            key, code, _ = tr[0]
            o = outs[1 + 3 * k: 4 + 3 * k]
            rc = r.rcs[1 + 3 * k: 4 + 3 * k]
            sh.state((key, tuple(o)))
            bad = None
            if len(o) < 2 or len(rc) < 3 or r.crash:
                bad = "stopped: %s" % r.brief()
            elif rc[0] != "0":
                bad = "does not compile"
            elif key.endswith("nil.zz;"):
                if rc[1] != "2":
                    bad = "no runtime error"
            elif rc[1] != "0" or not (o[1] == b"\n" or o[1].endswith(b"\n\n")):
                bad = "left a file open or failed: %r rc=%s" % (o[1][-100:], rc[1])
            if not bad and rc[2] != "0":
                bad = "after it: rc=%s" % rc[2]
            if not bad and o[2] != b"0\ntrue\n":
                bad = "after it: %r" % o[2]
            if bad:
                sh.violate(key, "%s\n    %s" % (code, bad), program=[tr[0][1], tr[1][1], tr[2][1]], prelude=PRE + OUT)
                if len(sh.violations) > 3:
                    return
            if r.crash:
                break
    w.files = {"case.du": ""}
    w.reset_cwd()


c.explore("ways out", exits, [(d, f) for d in (c.pick(4, 5),) for f in "WRFLDIBSC"])


# ---------------------------------------------------------------- the file system
FS = PRE + """const zRoot = System.getCWD().unwrap(); var zK;
def zFresh() { System.setCWD(zRoot); zK = System.mkdirTemp('hXXXXXX').unwrap(); System.setCWD(zK); }
def zWalk(p, l) { const n = Path.listDir(p); n.sort(); n.forEach(def (x) => { const q = p + '/' + x; if (l > 9) { return; } if (Path.isDir(q)) { print(q[zLen:q.len()] + '/'); zWalk(q, l + 1); } else { print(q[zLen:q.len()] + '=' + zGet(q)); } }); }
var zLen = 0;
def zTree() { const p = zRoot + '/' + zK; zLen = p.len() + 1; zWalk(p, 0); }
def zCwd() { const d = System.getCWD(); const p = zRoot + '/' + zK; return d.success() ? '.' + d.unwrap()[p.len():d.unwrap().len()] : 'gone'; }
def zOk(r) { return r.success() ? 'ok' : 'error'; }
"""


class T:
    """tree: path tuple -> None (directory) or text; cwd: path tuple"""

    def __init__(self, t, cwd):
        self.t, self.cwd = t, cwd

    def path(self, p):
        cur = list(self.cwd)
        for x in p.split("/"):
            if x == "..":
                if cur and self.t.get(tuple(cur), 0) is not None:
                    return None
                cur = cur[:-1]
            elif x not in (".", ""):
                cur.append(x)
        return tuple(cur)

    def isdir(self, p):
        return p == () or p in self.t and self.t[p] is None

    def parent_ok(self, p):
        return p != () and all(self.isdir(p[:i]) for i in range(len(p)))

    def kids(self, p):
        return [q for q in self.t if len(q) > len(p) and q[:len(p)] == p]


def op_mkdir(p):
    def go(s):
        q = s.path(p)
        if not s.parent_ok(q) or q in s.t:
            return s, "error"
        return T({**s.t, q: None}, s.cwd), "ok"
    return "mkdir " + p, "zOk(System.mkdir('%s'))" % p, go


def op_mkall(p):
    def go(s):
        q = s.path(p)
        t = dict(s.t)
        for i in range(len(s.cwd) + 1, len(q)):
            if q[:i] in t and t[q[:i]] is not None:
                return T(t, s.cwd), "error"
            t.setdefault(q[:i], None)
        if q in t:
            return T(t, s.cwd), "error"
        t[q] = None
        return T(t, s.cwd), "ok"
    return "mkdirAll " + p, "zOk(System.mkdirAll('%s'))" % p, go


def op_rm(name, dirs, files):
    def make(p):
        def go(s):
            q = s.path(p)
            if not s.parent_ok(q) or q not in s.t or s.kids(q) or not (dirs if s.t[q] is None else files):
                return s, "error"
            t = dict(s.t)
            del t[q]
            return T(t, s.cwd), "ok"
        return name + " " + p, "zOk(System.%s('%s'))" % (name, p), go
    return make


op_rmdir, op_remove = op_rm("rmdir", True, False), op_rm("remove", False, True)


def op_rename(p, n):
    def go(s):
        a, b = s.path(p), s.path(n)
        if not s.parent_ok(a) or not s.parent_ok(b) or a not in s.t:
            return s, "error"
        if a == b:
            return s, "ok"
        if s.t[a] is None and b[:len(a)] == a or b in s.t and ((s.t[a] is None) != (s.t[b] is None) or s.kids(b)):
            return s, "error"
        t = {}
        for q, v in s.t.items():
            if q == b:
                continue
            t[b + q[len(a):] if q[:len(a)] == a else q] = v
        return T(t, s.cwd), "ok"
    return "rename %s %s" % (p, n), "zOk(System.rename('%s', '%s'))" % (p, n), go


def op_copy(p, n):
    def go(s):
        a, b = s.path(p), s.path(n)
        if not s.parent_ok(a) or not s.parent_ok(b) or s.t.get(a) is None or a == b or s.isdir(b):
            return s, "error"
        return T({**s.t, b: s.t[a]}, s.cwd), "ok"
    return "copy %s %s" % (p, n), "zOk(IO.copyFile('%s', '%s'))" % (p, n), go


def op_write(p, x):
    def go(s):
        q = s.path(p)
        if not s.parent_ok(q) or s.isdir(q):
            return hist.ERR
        return T({**s.t, q: x}, s.cwd), "nil"
    return "write %s" % p, "zSet('%s', '%s')" % (p, x), go


def op_append(p, x):
    def go(s):
        q = s.path(p)
        if not s.parent_ok(q) or s.isdir(q):
            return hist.ERR
        return T({**s.t, q: s.t.get(q, "") + x}, s.cwd), "1"
    return "append %s" % p, "(def () => { with('%s', 'a') { return file.write('%s'); } })()" % (p, x), go


def op_read(p):
    def go(s):
        q = s.path(p)
        if not s.parent_ok(q) or s.t.get(q) is None:
            return hist.ERR
        return s, s.t[q]
    return "read %s" % p, "zGet('%s')" % p, go


def op_cd(p):
    def go(s):
        q = s.path(p)
        if q is None or not s.isdir(q) or not all(s.isdir(q[:i]) for i in range(len(q))):
            return s, "error"
        return T(s.t, q), "ok"
    return "cd " + p, "zOk(System.setCWD('%s'))" % p, go


def op_exists(p):
    def go(s):
        q = s.path(p)
        ok = s.parent_ok(q) and q in s.t
        return s, "%s %s" % ("ok" if ok else "error", "true" if ok else "false")
    return "access " + p, "zOk(System.access('%s', System.F_OK)) + ' ' + Path.exists('%s').toString()" % (p, p) if False else "'{} {}'.format(zOk(System.access('%s', System.F_OK)), Path.exists('%s'))" % (p, p), go


FOPS = [op_mkdir("a"), op_mkdir("d/x"), op_mkall("d/x/y"), op_rmdir("a"), op_rmdir("d"), op_rmdir("d/x"), op_remove("a"), op_remove("d"), op_remove("d/b"), op_rename("a", "b"), op_rename("b", "a"), op_rename("d", "a"), op_rename("a", "d/b"), op_rename("a", "d"),
        op_rename("d/x", "d"), op_rename("d", "d/x"), op_rename("d/b", "b"), op_copy("a", "b"), op_copy("a", "a"), op_copy("a", "./a"), op_copy("a", "d"), op_copy("d", "a"), op_copy("d/b", "a"), op_copy("b", "d/b"), op_write("a", "1"), op_write("d/b", "2"), op_append("a", "3"), op_read("a"), op_read("d/b"), op_cd("d"), op_cd("a"), op_cd("d/x"), op_exists("a"), op_exists("d/b"), ("cwd", "zCwd()", lambda s: (s, "." + "".join("/" + x for x in s.cwd)))]
STARTS = [("empty", "", T({}, ())), ("file", "zSet('a', 'A');", T({("a",): "A"}, ())), ("dir", "System.mkdir('d');", T({("d",): None}, ())),
          ("both", "zSet('a', 'A'); System.mkdir('d'); zSet('d/b', 'B'); ", T({("a",): "A", ("d",): None, ("d", "b"): "B"}, ())),
          ("deep", "System.mkdirAll('d/x'); zSet('b', ''); System.mkdir('a');", T({("d",): None, ("d", "x"): None, ("b",): "", ("a",): None}, ()))]


def show(s):
    return "zTree();", "".join("%s%s\n" % ("/".join(p), "/" if v is None else "=" + v) for p, v in sorted(s.t.items(), key=lambda kv: kv[0])) 


def system(sh, item):
    k, i, depth = item
    name, code, st = STARTS[k]
    w = mc.worker(EXE)
    w.reset_cwd()
    # inside a directory further operations would need ".." to reach the rest: one step deeper is enough
    hist.histories(sh, w, FS, (name, "zFresh(); " + code, st), FOPS, depth, show, first=[i], filt=lambda p, j: not (p and FOPS[j][0].startswith("cd") and FOPS[p[-1]][0].startswith("cd")), flags=512)
    w.reset_cwd()


c.explore("file system", system, [(k, i, d) for d in (c.pick(2, 3),) for k in range(len(STARTS)) for i in range(len(FOPS))])


# ---------------------------------------------------------------- mkdirAll: every path over names, separators and other bytes
def mkdirs(sh, item):
    w = mc.worker(EXE)
    w.reset_cwd()
    items = []
    for p in item:
        parts = [x for x in p.split("/") if x]
        lit = "'" + p.replace("\\", "\\\\") + "'"
        tree = "".join("/".join(parts[:i + 1]) + "/\n" for i in range(len(parts)))
        items.append(("mkdirAll:%s" % p, "zFresh(); print(zOk(System.mkdirAll(%s))); zTree(); print(zOk(System.mkdirAll(%s))); zTree();" % (lit, lit), "ok\n" + tree + "error\n" + tree))
    mc.session(sh, w, items, prelude=FS, flags=512, n=300, by_source=True)
    w.reset_cwd()


c.explore("mkdirAll", mkdirs, mc.chunks(["".join(t) for n in range(1, c.pick(6, 7)) for t in it.product("a\\/ ", repeat=n) if t[0] != "/"], 150))


# ---------------------------------------------------------------- permissions, as seen by the operating system
def modes(sh, item):
    lo, = item
    w = mc.worker(EXE)
    w.reset_cwd()
    items, want = [], {}
    for m in range(lo, lo + 64):
        items.append(("chmod:%o" % m, "zSet('c%o', ''); print(System.chmod('c%o', '%o').success()); print(System.mkdir('m%o', %d).success()); print(System.mkdirAll('p%o/q', %d).success());" % (m, m, m, m, m, m, m | 0o700), "true\ntrue\ntrue\n"))
        want["c%o" % m] = m
        want["m%o" % m] = m & ~0o22
        want["p%o/q" % m] = (m | 0o700) & ~0o22
        items.append(("access:%o" % m, "print(System.access('c%o', System.X_OK).success()); print(System.access('c%o', System.F_OK).success());" % (m, m), "%s\ntrue\n" % ("true" if m & 0o111 else "false")))
    for x in ("", "8", "abc", "75x", "-1", "0x1ff", "77777", " "):
        items.append(("badmode:%s" % x, "zSet('bad', ''); System.chmod('bad', '641'); print(System.chmod('bad', '%s').success());" % x, "false\n"))
    want["bad"] = 0o641
    items += [("default", "print(System.mkdir('dd').success()); print(System.mkdir('dd').success()); print(System.chmod('nothing', '644').success()); print(System.access('nothing', System.F_OK).success());", "true\nfalse\nfalse\nfalse\n")]
    want["dd"] = 0o755
    os.umask(0o22)
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)
    for f, m in want.items():
        sh.evals += 1
        try:
            got = os.stat(os.path.join(w.cwd, f)).st_mode & 0o777
        except OSError as x:
            got = -1
        if got != m:
            sh.violate("mode:%s" % f, "%s has mode %o, expected %o" % (f, got, m), program="chmod/mkdir with mode %o" % m)
            break
    w.reset_cwd()


os.umask(0o22)
c.explore("permissions", modes, [(x,) for x in range(0, 512, 64)])


# ---------------------------------------------------------------- transfers cut short, or failing
def faults(sh, item):
    items = []
    w = mc.worker(FAULT)
    w.reset_cwd()
    for size in (0, 1, 2, 5, 100, 5000):
        mk = "t = ''; for (var i = 0; i < %d; i += 1) { t += (i %% 10).toString(); } zSet('s', t);" % size
        for k in (1, 2, 3, 7, 64, 4096):
            if size // k > 2000:
                continue
            items.append(("short:%d:%d" % (size, k), mk + " zSet('o', 'old'); Env.set('MC_FAULT', 'short:%d'); r = IO.copyFile('s', 'o').success(); Env.set('MC_FAULT', nil); print(zGet('o') == (r ? t : zGet('o'))); print(r); print(zGet('s') == t);" % k, "true\ntrue\ntrue\n"))
        for n in (1, 2, 3):
            # refused, or done all the same: never reported as done when it is not
            items.append(("fail:%d:%d" % (size, n), mk + " Env.set('MC_FAULT', 'fail:%d'); r = IO.copyFile('s', 'o').success(); Env.set('MC_FAULT', nil); print(not r or zGet('o') == t); print(zGet('s') == t);" % n, "true\ntrue\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)
    w.reset_cwd()


c.explore("faults", faults, [0])
c.bounds = {"handle operations": c.pick(3, 4), "modes": len(MODES), "contents": len(CONT), "nesting of with, loops and functions": c.pick(4, 5), "file system operations": c.pick(2, 3), "file size": 1000000}
c.finish()

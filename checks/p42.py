"""P42: the host as a program sees it: addresses, identities, terminals, time and sleeping, UUIDs, the exit status and the ways of starting dictu, each over
all small inputs or all combinations of what the system answers."""
import os, sys, itertools as it, socket, subprocess, re, pty, fcntl, termios, struct, stat, shutil, tempfile, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, build

c = mc.Check("P42", rule="one call or one start of dictu with one combination of arguments and answers of the system; non-trivial = distinct (input, observation)",
             assumptions=["the C library's inet_pton accepts exactly what Python's socket.inet_pton accepts", "sleeping is replaced by a recorder; error texts are unspecified"])
EXE = c.build("plain")
TEXE = c.build("plain", name="sleepio", extra_wraps=("time", "usleep", "sleep", "nanosleep"))
CLI = build.build_cli()
SCRATCH = mc.run_dir()
os.chmod(SCRATCH, 0o711)
shutil.copy(CLI, SCRATCH + "/dictu")                     # where any user can reach it
CLI = SCRATCH + "/dictu"


# ---- addresses ----
OCT = ["", "0", "1", "9", "00", "01", "10", "99", "100", "127", "199", "200", "249", "250", "255", "256", "260", "300", "999", "1000", "0x1", "-1", "+1", " 1", "1 ", "1e1"]


def ip(s):
    try:
        return "[%s]\n" % ", ".join(map(str, socket.inet_pton(socket.AF_INET, s)))
    except (OSError, ValueError):
        return "error\n"


def q(s):
    return '"' + "".join(ch if 32 <= ord(ch) < 127 and ch not in '"\\' else "\\x%02x" % ord(ch) for ch in s) + '"'


IPPRE = "import Net; def p(s) { const r = Net.parseIp4(s); print(r.success() ? '{}'.format(r.unwrap()) : 'error'); }"


def addresses(sh, item):
    kind, first = item
    w = mc.worker(EXE)

    def texts():
        if kind == "octets":
            for o in it.product(OCT, repeat=3):
                yield ".".join((first,) + o)
        elif kind == "count":
            for n in range(0, 8):
                for o in it.product(("1", "255", "", "0"), repeat=n):
                    yield ".".join(o)
        elif kind == "text":
            for n in range(0, c.pick(6, 8)):
                for t in it.product("0125.x", repeat=n):
                    yield first + "".join(t)
        elif kind == "insert":
            for base in ("1.2.3.4", "255.255.255.255", "0.0.0.0", "10.20.30.40"):
                for i in range(len(base) + 1):
                    for ch in map(chr, range(128)):
                        if ord(ch) != 30:
                            yield base[:i] + ch + base[i:]
                            yield base[:i] + ch + base[i + 1:]
                for i in range(len(base)):
                    yield base[:i] + base[i + 1:]
                    yield base[:i]
    for part in mc.chunks(list(texts()), 200):
        mc.session(sh, w, [("ip:" + ",".join(map(repr, part[:1])), " ".join("p(%s);" % q(s) for s in part), "".join(map(ip, part)))], prelude=IPPRE, flags=0)


c.explore("addresses", addresses, [("octets", o) for o in OCT] + [("text", ch) for ch in "0125.x"] + [("count", 0), ("insert", 0)])
c.bounds["addresses"] = "%d^4 octets, all texts of up to %d characters over '0125.x', every character inserted at or put in every place, every cut" % (len(OCT), c.pick(6, 8))


# ---- who runs ----
def start(argv, **kw):
    p = subprocess.run([CLI] + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **kw)
    out = re.sub(rb"Total bytes lost: \d+\n$", b"", p.stdout)
    return p.returncode, out, p.stderr


def identities(sh, item):
    d = tempfile.mkdtemp(dir=SCRATCH)
    os.chmod(d, 0o755)
    src = "import System; print('{} {} {} {} {} {}'.format(System.getuid(), System.geteuid(), System.getgid(), System.getegid(), System.getpid(), System.getppid()));"
    ids = [0, 1, 1001, 65534, 4000000000]
    combos = [(r, e, g, h) for r, e in it.product(ids, repeat=2) for g, h in ((0, 0), (1, 2), (1001, 1002), (65534, 0), (4000000000, 5))]
    for r, e, g, h in combos:
        def drop():
            os.setresgid(g, h, h)
            os.setresuid(r, e, e)
        try:
            p = subprocess.Popen([CLI, "-c", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=drop, cwd=d)
        except (OSError, subprocess.SubprocessError):
            continue                    # (not allowed here)
        out, err = p.communicate(timeout=60)
        out = re.sub(rb"Total bytes lost: \d+\n$", b"", out).decode()
        sh.evals += 1
        sh.state((r, e, g, h))
        want = "%d %d %d %d %d %d\n" % (r, e, g, h, p.pid, os.getpid())
        if out != want:
            sh.violate("ids:%d:%d:%d:%d" % (r, e, g, h), "%s under those ids: printed %r, expected %r" % (src, out, want))
    u = os.uname()
    rc, out, err = start(["-c", "import System; const u = System.uname(); print(u['sysname']); print(u['nodename']); print(u['machine']); print(u['release']); print(u['version']); print(u.len()); print(System.platform); print(System.arch); print(System.version.len());"])
    want = "%s\n%s\n%s\n%s\n%s\n5\n%s\n%s\n3\n" % (u.sysname, u.nodename, u.machine, u.release, u.version, u.sysname.lower(), u.machine)
    sh.evals += 1
    if out.decode() != want:
        sh.violate("uname", "System.uname(), platform, arch: %r, expected %r" % (out, want))
    rc, v, err = start(["-v"])
    rc2, out, err = start(["-c", "import System; print('Dictu Version: {}.{}.{}'.format(System.version['major'], System.version['minor'], System.version['patch']));"])
    sh.evals += 1
    if v != out or rc or rc2:
        sh.violate("version", "dictu -v prints %r, System.version says %r" % (v, out))
    items = [(n, getattr(stat, n)) for n in "S_IRWXU S_IRUSR S_IWUSR S_IXUSR S_IRWXG S_IRGRP S_IWGRP S_IXGRP S_IRWXO S_IROTH S_IWOTH S_IXOTH S_ISUID S_ISGID".split()] + [(n, getattr(os, n)) for n in "F_OK R_OK W_OK X_OK".split()]
    w = mc.worker(EXE)
    mc.session(sh, w, [mc.P("const:" + n, "System." + n, "%d" % v) for n, v in items] + [mc.P("const:ip", "Net.ip4Len * 100 + Net.ip6Len", "416")], prelude="import System; import Net;", flags=0)
    shutil.rmtree(d)


c.explore("identities", identities, [0])


# ---- permissions as someone else ----
def permissions(sh, item):
    """access() for every mode asked, every permission of file and directory, as owner, group and other"""
    uid, gid = item
    d = tempfile.mkdtemp(dir=SCRATCH)
    os.chmod(d, 0o755)
    for s in range(0o1000 if uid != 1003 else 0o10):
        p = "%s/f%o" % (d, s)
        open(p, "w").close()
        os.chown(p, 1001, 1002)
        os.chmod(p, s)
    src = ["import System;"]
    want = []
    for s in range(0o1000 if uid != 1003 else 0o10):
        for m in range(8):
            src.append("print(System.access('%s/f%o', %d).success());" % (d, s, m))
            if uid == 0:
                ok = not (m & 1) or s & 0o111
            else:
                have = s >> 6 & 7 if uid == 1001 else s >> 3 & 7 if gid == 1002 else s & 7
                ok = m & have == m
            want.append("true" if ok else "false")
    body = []
    for k in range(1, len(src), 100):
        body.append("def f%d() { %s } f%d();" % (k, " ".join(src[k:k + 100]), k))
    f = "%s/p.du" % d
    open(f, "w").write(src[0] + "\n" + "\n".join(body))
    os.chmod(f, 0o644)

    def drop():
        os.setgroups([])
        os.setresgid(gid, gid, gid)
        os.setresuid(uid, uid, uid)
    try:
        rc, out, err = start([f], preexec_fn=drop, cwd="/")
    except (OSError, subprocess.SubprocessError):
        shutil.rmtree(d)
        return
    got = out.decode().split()
    sh.evals += len(want)
    for i, (a, b) in enumerate(it.zip_longest(got, want)):
        sh.state((uid, i, b))
        if a != b:
            sh.violate("access:%d:%d" % (uid, i), "as user %d group %d: %s printed %s, expected %s (status %s %s)" % (uid, gid, src[i + 1] if i + 1 < len(src) else "", a, b, rc, err[-200:]))
            break
    shutil.rmtree(d)


c.explore("permissions", permissions, [(0, 0), (1001, 1002), (1001, 7), (1002, 1002), (1004, 1004)])


# ---- terminals ----
def terminals(sh, item):
    dims = (0, 1, 2, 24, 80, 145, 255, 256, 65535)
    src = "import Term; const s = Term.getSize(); print('{} {} {} {} {}'.format(s['rows'], s['columns'], s['horizontal_pixels'], s['vertical_pixels'], s.len()));"
    m, s = pty.openpty()
    try:
        combos = [(r, cc, x, y) for r in dims for cc in dims for x, y in ((0, 0), (1, 2), (65535, 1), (640, 480))] if item == 0 else []
        for t in combos:
            fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", *t))
            rc, out, err = start(["-c", src], stdin=s)
            sh.evals += 1
            sh.state(t)
            want = "%d %d %d %d 4\n" % t
            if out.decode() != want or rc:
                sh.violate("size:%d:%d:%d:%d" % t, "%s on a terminal of %s: %r, expected %r (%d %s)" % (src, t, out, want, rc, err[-200:]))
                break
        if item == 1:
            r_, w_ = os.pipe()
            f = tempfile.TemporaryFile(dir=SCRATCH)
            for fds in it.product((s, r_, f.fileno(), None), repeat=3):
                tt = [x == s for x in fds]
                # fd 1 carries the answer: use 0 and 3..4
                a, b, e = fds
                pre = []

                def put():
                    for n, x in ((3, a), (4, b), (5, e)):
                        if x is None:
                            try:
                                os.close(n)
                            except OSError:
                                pass
                    # all at once, from high numbers
                    high = [os.dup2(x, 100 + i) if x is not None else None for i, x in enumerate(fds)]
                    for i, h in enumerate(high):
                        if h is not None:
                            os.dup2(h, 3 + i)
                        else:
                            try:
                                os.close(3 + i)
                            except OSError:
                                pass
                p = subprocess.run([CLI, "-c", "import Term; for (var i = 3; i < 6; i += 1) { print(Term.isatty(i)); } print(Term.isatty(-1)); print(Term.isatty(1000000)); print(Term.isatty(0)); print(Term.isatty(1));"], stdin=s if tt[0] else subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=put, close_fds=False, timeout=60)
                out = re.sub(rb"Total bytes lost: \d+\n$", b"", p.stdout).decode().split()
                want = ["true" if x else "false" for x in tt] + ["false", "false", "true" if tt[0] else "false", "false"]
                sh.evals += 1
                sh.state(tuple(tt))
                if out != want:
                    sh.violate("isatty:%s" % (tt,), "descriptors 3, 4, 5 terminals: %s; isatty says %s (%d %s)" % (tt, out, p.returncode, p.stderr[-200:]))
                    break
            # not a terminal: no size
            for st in (subprocess.DEVNULL, f, r_):
                rc, out, err = start(["-c", src], stdin=st)
                sh.evals += 1
                if out != b"0 0 0 0 4\n":
                    sh.violate("size:none", "%s without a terminal: %r (%d %s)" % (src, out, rc, err[-200:]))
    finally:
        os.close(m)
        os.close(s)


c.explore("terminals", terminals, [0, 1])


# ---- time and sleeping ----
def times(sh, item):
    vals = [0, 1, 59, 86400, 951782400, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 5, 2**40, -1, -86400]
    for v in vals:
        w = mc.worker(TEXE, env={"MC_TIME": str(v)})
        r = mc.run_confirm(w, srcs=[("case.du", "import System; print(System.time()); print(System.time() - %d); print(System.time() == System.time());" % v)])
        sh.evals += 1
        sh.state(("time", v))
        want = "%s\n0\ntrue\n" % mc.fmt(v)
        if r.text != want and r.out.decode() != want:
            sh.violate("time:%d" % v, "System.time() when it is %d: %r, expected %r" % (v, r.out, want))
        mc._close_workers()
    w = mc.worker(TEXE, env={"MC_SLEEP": "1"})
    items = []
    durations = [0, 1, 2, 59, 1000, 100000, 0.5, 0.25, 0.001, 0.000001, 0.999999, 1.5, 2.000001, 10.125, 3600.75, 1e-9, 0.1, 0.3, 1.1] + [k / 64 for k in range(0, 200)] + [k + 1e-6 * j for k in (0, 1, 7) for j in range(0, 1000000, 24989)]
    for v in durations:
        # the recorder prints what the whole sleep comes to, in nanoseconds
        items.append((v, "import System; System.sleep(%r);" % v if v >= 1e-4 or v == 0 else "import System; System.sleep(%.12f);" % v))
    for part in mc.chunks(items, 100):
        r = mc.run_confirm(w, srcs=[("case.du", s) for _, s in part], flags=16)
        outs = r.out.split(b"\x1e")
        for (v, s), o in zip(part, outs):
            sh.evals += 1
            got = sum(int(x) for x in re.findall(rb"\[slept (\d+)\]", o))
            sh.state(("sleep", v, got))
            if abs(got - v * 1e9) > 1001:
                sh.violate("sleep:%r" % v, "%s asked the system for %d ns of sleep, expected %d" % (s, got, v * 1e9))
                return
    # the clock counts processor time: it never runs backwards and does not count sleeping
    r = mc.run_confirm(mc.worker(EXE), srcs=[("case.du", "import System; var a = System.clock(); var ok = a >= 0; for (var i = 0; i < 100000; i += 1) { const b = System.clock(); if (b < a) { ok = false; } a = b; } print(ok); print(a < 100000);")], timeout=60)
    sh.evals += 1
    if r.out != b"true\ntrue\n":
        sh.violate("clock", "System.clock(): %r" % r.out)


c.explore("times", times, [0])


# ---- UUIDs ----
def uuids(sh, item):
    w = mc.worker(EXE)
    for fn, ver in (("generate", "[14]"), ("generateRandom", "4"), ("generateTime", "1")):
        n = c.pick(2000, 20000)
        r = mc.run_confirm(w, srcs=[("case.du", "import UUID; for (var i = 0; i < %d; i += 1) { const u = UUID.%s(); print(u.success()); print(u.unwrap()); print(u.unwrap().len()); }" % (n, fn))], timeout=60)
        l = r.out.decode("latin1").split("\n")
        sh.evals += n
        seen = set()
        for i in range(n):
            ok, u, k = (l[3 * i:3 * i + 3] + ["", "", ""])[:3]
            if k == "37" and u.endswith("\0"):
                u, k = u[:-1], "36"
                if i == 0:
                    sh.violate("uuid-null:" + fn, "UUID.%s() gives a text of 37 characters, the last one a null byte" % fn)
            if ok != "true" or k != "36" or not re.match("^[0-9a-f]{8}-[0-9a-f]{4}-%s[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$" % ver, u) or u in seen:
                sh.violate("uuid:" + fn, "UUID.%s() number %d: success %s, %r of length %s%s" % (fn, i, ok, u, k, ", given before" if u in seen else ""))
                break
            seen.add(u)
        sh.state((fn, len(seen)))


c.explore("uuids", uuids, [0])


# ---- how it ends ----
WAYS = {"top": "%s", "function": "def f() { %s } f();", "nested": "def g() { %s } def f() { g(); print('no'); } f();", "method": "class C { m() { %s } } C().m();", "init": "class C { init() { %s } } const cc = C();", "lambda": "const f = def () => { %s }; f();", "loop": "for (var i = 0; i < 3; i += 1) { if (i == 0) { %s } }",
        "callback": "[1, 2].forEach(def (x) => { %s });", "map": "const l = [1].map(def (x) => { %s return 1; });", "with": "with ('out.txt', 'w') { const n = file.write('kept'); %s }", "import": None, "try": "if (true) { { %s } }"}


def endings(sh, item):
    way, part = item
    d = tempfile.mkdtemp(dir=SCRATCH)
    tmpl = WAYS[way]
    codes = list(range(0, 256)) + [256, 257, 300, 511, 512, -1, -2, -255, -256, 65535, 65536, 2147483647, -2147483648] if way in ("top", "nested") else [0, 1, 3, 70, 255, 256, -1]
    ends = [("exit(%d)" % n, "System.exit(%d);" % n, n & 255) for n in codes] + [("exit(3.9)", "System.exit(3.9);", 3), ("exit(true)", "System.exit(true);", 70), ("exit()", "System.exit();", 70), ("exit(1, 2)", "System.exit(1, 2);", 70)]
    ends += [("error", "nil.zz;", 70), ("assert", "assert(false);", 70), ("fine", "print('fine');", 0), ("raise", "Error('x').unwrap();", 70)]
    if way == "top":
        ends += [("compile", "var ;", 65), ("compile2", "print(1", 65)]
    for key, code, want in ends:
        src = "import System; print('before');\n"
        src += tmpl % code if tmpl else "import 'mod.du';"
        src += "\nprint('after');"
        if not tmpl:
            open(d + "/mod.du", "w").write("import System; " + code)
        out = b"before\n"
        if key == "fine":
            n = 2 if way == "callback" else 1
            out = b"before\n" + b"fine\n" * n + (b"no\n" if way == "nested" else b"") + b"after\n"
        if key.startswith("compile"):
            out = b""
        open(d + "/p.du", "w").write(src)
        open(d + "/out.txt", "w").close()
        for how in ("file", "-c", "path"):
            argv = {"file": ["p.du"], "-c": ["-c", src], "path": [d + "/p.du"]}[how]
            rc, o, e = start(argv, cwd=d, stdin=subprocess.DEVNULL)
            sh.evals += 1
            sh.state((way, key, rc))
            if rc != want or out is not None and o != out:
                sh.violate("end:%s:%s:%s" % (way, key, how), "%s (%s): status %d and %r, expected %d and %r (%s)" % (src, how, rc, o, want, out, e[-200:]))
                return
            if way == "with" and open(d + "/out.txt").read() != "kept":
                sh.violate("end:with:%s" % key, "%s: what was written to the open file is lost: %r" % (src, open(d + "/out.txt").read()))
                return
    shutil.rmtree(d)


c.explore("endings", endings, [(w, 0) for w in WAYS])


def starts(sh, item):
    """the ways of starting it: what cannot be opened, options, arguments that look like options, empty and odd programs"""
    d = tempfile.mkdtemp(dir=SCRATCH)
    os.mkdir(d + "/dir")
    args = "import System; print(System.argv);"
    for n, t in (("a.du", args), ("empty.du", ""), ("nonl.du", "print(1);"), ("crlf.du", "print(1);\r\nprint(2);\r\n"), ("-x.du", "print('dash');"), ("comment.du", "// only"), ("noext", "print('noext');"), ("sp ace.du", "print('space');")):
        open(d + "/" + n, "w").write(t)
    open(d + "/sheb.du", "w").write("print(__file__);")
    L = lambda *x: "[" + ", ".join('"%s"' % i for i in x) + "]\n"
    cases = [(["missing.du"], 74, ""), (["dir"], 74, ""), ([""], 74, ""), (["empty.du"], 0, ""), (["nonl.du"], 0, "1\n"), (["crlf.du"], 0, "1\n2\n"), (["comment.du"], 0, ""), (["noext"], 0, "noext\n"), (["sp ace.du"], 0, "space\n"), (["--", "-x.du"], 0, "dash\n"),
             (["-c", ""], 0, ""), (["-c", "print(1);"], 0, "1\n"), (["--cmd", "print(1);"], 0, "1\n"), (["--cmd=print(1);"], 0, "1\n"), (["-cprint(1);"], 0, "1\n"), (["-c", "print(1);", "x"], 0, "1\n"), (["-c", "// x"], 0, "")]
    for extra in it.product(("x", "-v", "-c", "--", "", "--help", "-h", "a b"), repeat=2):
        cases.append((["a.du"] + list(extra), 0, L("a.du", *extra)))
    for extra in ("x", "-v", "--", "-c", "-h"):
        cases.append((["a.du", extra], 0, L("a.du", extra)))
    for argv, want, out in cases:
        rc, o, e = start(argv, cwd=d, stdin=subprocess.DEVNULL)
        sh.evals += 1
        sh.state(tuple(argv))
        if rc != want or o.decode() != out:
            sh.violate("start:" + " ".join(argv), "dictu %r: status %d and %r, expected %d and %r (%s)" % (argv, rc, o, want, out, e[-200:]))
    shutil.rmtree(d)


c.explore("starts", starts, [0])


# ---- names and assertions ----
def defined(sh, item):
    w = mc.worker(EXE, cwd_files={"m.du": "var inM = 1; def ask(n) { return isDefined(n); } class K { ask(n) { return isDefined(n); } }"})
    names = ["print", "type", "set", "input", "assert", "isDefined", "Success", "Error", "printError", "System", "IO", "Math", "JSON", "HTTP", "Net", "inM", "here", "fn", "Cls", "En", "local", "later", "", "prin", "printx", "IO\0", "IO\0x", "print\0", "here\0", "h", "Syste", "system", "__file__", "this", "var", "nil", "m", "Tr", "konst", "UnitTest", "Argparse"]
    PRELUDE = "import 'm.du'; import 'm.du' as m2; var here = 1; const konst = 2; def fn() { return isDefined('here'); } class Cls {} enum En { A } trait Tr {}"
    natives = set("print type set input assert isDefined Success Error printError".split())
    mods = set("System IO Math JSON HTTP Net UnitTest Argparse".split())
    mine = {"here", "fn", "Cls", "En", "konst", "m2", "Tr", "__file__", "m"}
    items = []
    for n in names:
        w_ = lambda s: "true\n" if n in natives | mods | s else "false\n"
        items.append(("top:" + n, "print(isDefined(%s));" % q(n), w_(mine)))
        items.append(("fn:" + n, "def f() { var local = 1; return isDefined(%s); } print(f());" % q(n), w_(mine | {"f"})))
        items.append(("lambda:" + n, "print([1].map(def (x) => isDefined(%s)));" % q(n), "[%s]\n" % w_(mine).strip()))
        items.append(("mod:" + n, "print(m2.ask(%s));" % q(n), w_({"inM", "ask", "K", "__file__"})))
        items.append(("modm:" + n, "print(m2.K().ask(%s));" % q(n), w_({"inM", "ask", "K", "__file__"})))
    items = [x for x in items if not (x[0].split(":")[1] in ("m", "__file__"))]
    for a in ("nil", "false", "0", "''", "[]", "{}", "set()", "Error('x')", "-0"):
        items.append(("assert:" + a, "assert(%s); print('no');" % a, mc.fails(mc.RUNTIME, "")))
    for a in ("true", "1", "-1", "0.5", "'0'", "' '", "[nil]", "{1: 0}", "set(nil)", "Success(nil)", "fn", "Cls", "Cls()", "En", "En.A + 1", "print", "m2"):
        items.append(("assert:" + a, "print(assert(%s));" % a, "nil\n"))
    mc.session(sh, w, items, prelude=PRELUDE, flags=0)


c.explore("defined", defined, [0])
c.bounds["system"] = "uid x euid x gid x egid combinations; every permission of a file x mode x user; all combinations of 9 rows, 9 columns, 4 pixel sizes of a terminal; every exit status from 0 to 255 and odd ones x 12 places x 3 ways of starting"
c.finish()

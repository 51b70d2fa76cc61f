"""P34: Process and Socket. All argument lists, exit statuses, output sizes and ways of splitting it, faults at every transfer; all histories of writes,
receives and closes on both ends of a connection against two byte queues."""
import os, sys, itertools as it, hashlib, subprocess, socket, threading, resource
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

c = mc.Check("P34", rule="one child process, or one history of socket operations; non-trivial = distinct (arguments, sizes, splits) and distinct histories with their results",
             assumptions=["the kernel's loopback delivers what is sent before send() returns", "error texts are unspecified",
                          "after one end is closed with data it has not read, what the other end can still send and receive is up to the system"])
EXE = c.build("plain")
FEXE = c.build("plain", name="faultio", extra_wraps=("read", "write", "send", "recv", "fork", "pipe"))
HARD = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
resource.setrlimit(resource.RLIMIT_NOFILE, (HARD, HARD))
CHILD_C = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
int main(int argc, char **argv) {
    if (argc > 2 && !strcmp(argv[1], "args")) {        /* args FILE ...: the arguments in hexadecimal, into a file or to stdout */
        char tmp[300];
        snprintf(tmp, sizeof tmp, "%s.tmp", argv[2]);
        FILE *f = !strcmp(argv[2], "-") ? stdout : fopen(tmp, "w");
        fprintf(f, "%d", argc - 3);
        for (int i = 3; i < argc; i++) { fputc(';', f); for (unsigned char *p = (unsigned char *) argv[i]; *p; p++) fprintf(f, "%02x", *p); }
        if (f != stdout) { fclose(f); rename(tmp, argv[2]); }
        return 0;
    }
    if (argc == 7 && !strcmp(argv[1], "out")) {         /* out SIZE CHUNK 1|2|12 STATUS SIGNAL */
        long n = atol(argv[2]), k = atol(argv[3]);
        int which = atoi(argv[4]);
        char *b = malloc(n + 1);
        for (long i = 0; i < n; i++) b[i] = (char) ((i * 7 + i / 251) % 256);
        int t = 0;
        for (long i = 0; i < n;) {
            long m = n - i < k ? n - i : k;
            int fd = which == 12 ? 1 + (t++ & 1) : which;
            m = write(fd, b + i, m);
            if (m < 0) return 99;
            i += m;
        }
        int sig = atoi(argv[6]);
        if (sig) { signal(sig, SIG_DFL); raise(sig); }
        return atoi(argv[5]);
    }
    return 98;
}
"""
HELPER = os.path.join(os.path.dirname(EXE), "..", "child-" + hashlib.sha256(CHILD_C.encode()).hexdigest()[:12])
HELPER = os.path.abspath(HELPER)
if not os.path.exists(HELPER):
    subprocess.run(["gcc", "-O1", "-w", "-x", "c", "-", "-o", HELPER + ".%d" % os.getpid()], input=CHILD_C.encode(), check=True)
    os.rename(HELPER + ".%d" % os.getpid(), HELPER)

PRE = """import Process; import Hashlib; import Env; import System; import Path;
def s(r) { if (not r.success()) { return 'err'; } var v = r.unwrap(); return v == nil ? 'nil' : v.len().toString() + ':' + Hashlib.sha256(v); }
def t(r) { if (not r.success()) { return 'err'; } var v = r.unwrap(); return v == nil ? 'nil' : v; }
def fds() { return Path.listDir('/proc/self/fd').len(); }
const H = '%s';
def z(f) { for (var i = 0; i < 4000; i += 1) { if (Path.exists(f)) { var x; with (f, 'r') { x = file.read(); } System.remove(f); return x; } System.sleep(0.005); } return 'never'; }
""" % HELPER


def lit(b):
    return "'" + "".join("\\x%02x" % x if x < 32 or x in (39, 92) or x > 126 else chr(x) for x in b) + "'"


def pattern(n):
    return bytes((i * 7 + i // 251) % 256 for i in range(n))


def digest(b):
    return "%d:%s" % (len(b), hashlib.sha256(b).hexdigest())


# ---------------------------------------------------------------- arguments
ARGS = [b"", b"a", b"a b", b"'\"\\", b"*", b"$HOME `x` ;|&<>()", b"\n\t", b"-x", b"\xc3\xa9\xe2\x82\xac", b"\xff\x80", b"x" * 5000, bytes(range(1, 256))]
NULS = [b"\0", b"a\0b", b"a\0"]


def expect_args(l):
    return "%d" % len(l) + "".join(";" + x.hex() for x in l)


def arguments(sh, item):
    w = mc.worker(EXE)
    first, items = (None if item < 0 else item), []
    for k in range(0, c.pick(3, 4)):
        for rest in it.product(ARGS, repeat=k):
            l = (() if first is None else (ARGS[first],)) + rest
            if first is None and rest:
                continue
            sl = "".join(", " + lit(x) for x in l)
            n = len(items)
            items.append(("run:%r" % (l,), "print(t(Process.run([H, 'args', '-'%s], true)));" % sl, expect_args(l) + "\n"))
            items.append(("plain:%r" % (l,), "print(t(Process.run([H, 'args', 'f'%s]))); print(z('f')); print(t(Process.run([H, 'args', 'f'%s], false))); print(z('f'));" % (sl, sl), ("nil\n" + expect_args(l) + "\n") * 2))
            if len(l) < 2 or k == 1 and first < 5:
                items.append(("exec:%r" % (l,), "print(t(Process.exec([H, 'args', 'g%d'%s]))); print(z('g%d'));" % (n, sl, n), "nil\n" + expect_args(l) + "\n"))
    if first is None:
        for k in range(1, 12):
            items.append(("many:%d" % 2 ** k, "var l = [H, 'args', '-']; for (var i = 0; i < %d; i += 1) { l.push(i.toString()); } print(t(Process.run(l, true)));" % 2 ** k, expect_args([b"%d" % i for i in range(2 ** k)]) + "\n"))
        for x in NULS:
            for pos in range(2):
                for form in ("run([%s], true)", "run([%s])", "run([%s], false)", "exec([%s])"):
                    l = ["H", "'args'", "'h'", lit(x)] if pos else [lit(HELPER.encode() + x), "'args'", "'h'"]
                    items.append(("nul", "print(t(Process.%s)); print(Path.exists('h'));" % (form % ", ".join(l)), "err\nfalse\n"))
        for form in ("run([], true)", "run([])", "exec([])", "run([1], true)", "run([nil])", "exec([[]])", "run(['true', 1])", "run([H, 'args', 'h', 2], true)", "run([H, 'args', 'h', nil])", "exec([H, 'args', 'h', {}])"):
            items.append(("notstr", "print(t(Process.%s)); print(Path.exists('h'));" % form, "err\nfalse\n"))
        for prog in ("/nonexistent/x", "nonexistent-program-x", "./nox", "/", ".", "./dir", "./file", "", "./empty/x"):
            for form in ("run([%s], true)", "run([%s])", "run([%s], false)", "run([%s, 'a'], true)"):
                items.append(("missing", "print(t(Process.%s));" % (form % lit(prog.encode())), "err\n"))
            # a program that cannot be started leaves this one as it was
            items.append(("missing exec", "var a = fds(); Process.exec([%s]); System.sleep(0.01); print(fds() == a);" % lit(prog.encode()), "true\n"))
        # found through PATH
        items.append(("path", "print(t(Process.run(['printf', 'a%sb', 'X'], true))); print(t(Process.run(['true']))); print(t(Process.run(['false'])));", "aXb\nnil\nerr\n"))
        for bad in ("run()", "run('a')", "run(1)", "run(nil)", "run([H], 1)", "run([H], nil)", "run([H], true, 1)", "exec()", "exec('a')", "exec([H], true)"):
            items.append(("misuse", "print(1); Process.%s; print(2);" % bad, mc.fails(mc.RUNTIME, "1\n")))
    mc.session(sh, w, items, prelude=PRE, n=200, by_source=True)


c.explore("arguments", arguments, [-1] + list(range(len(ARGS))))


# ---------------------------------------------------------------- output, statuses
def statuses(sh, item):
    w = mc.worker(EXE)
    items = []
    for st in range(item * 32, item * 32 + 32):
        for n in (0, 5):
            ok = digest(pattern(n))
            items.append(("status:%d" % st, "print(s(Process.run([H, 'out', '%d', '9', '1', '%d', '0'], true)));" % (n, st), (ok if st == 0 else "err") + "\n"))
        items.append(("status:%d" % st, "print(s(Process.run([H, 'out', '0', '9', '1', '%d', '0'])));print(s(Process.run([H, 'out', '0', '9', '1', '%d', '0'], false)));" % (st, st), ("nil\n" if st == 0 else "err\n") * 2))
    if item == 0:
        for sig in (1, 2, 3, 4, 6, 8, 9, 10, 11, 13, 14, 15):
            for n in (0, 5, 3000):
                items.append(("signal:%d" % sig, "print(s(Process.run([H, 'out', '%d', '900', '1', '0', '%d'], true)));" % (n, sig), "err\n"))
            items.append(("signal:%d" % sig, "print(s(Process.run([H, 'out', '0', '9', '1', '0', '%d'])));" % sig, "err\n"))
    mc.session(sh, w, items, prelude=PRE, n=150, by_source=True)


c.explore("statuses", statuses, range(8))
SIZES = sorted(set([0, 1, 2, 3, 255, 256, 257] + [b + d for b in (1023 * k for k in range(1, 4)) for d in (-1, 0, 1)] + [b + d for b in (1024 * k for k in range(1, 13)) for d in range(-3, 4)] +
                   [b + d for b in (27648, 65536, 82944, 131072, 248832, 746496, 1 << 20, 2239488) for d in (-1, 0, 1)]))
CHUNKS = [1, 7, 333, 1000, 1023, 1024, 1025, 4096, 65536, 10 ** 8]


def outputs(sh, item):
    w = mc.worker(EXE)
    items = []
    sizes = SIZES if isinstance(item, int) else range(item[1], item[2])
    chunks = CHUNKS if isinstance(item, int) else [10 ** 8]
    for j, n in enumerate(sizes):
        if isinstance(item, int) and j % 8 != item:
            continue
        for ch in chunks:
            if n // ch > c.pick(3000, 30000) or (ch > n and ch != 10 ** 8):
                continue
            for which in ((1, 2, 12) if isinstance(item, int) else (1,)):
                items.append(("out:%d:%d:%d" % (n, ch, which), "var a = fds(); print(s(Process.run([H, 'out', '%d', '%d', '%d', '0', '0'], true))); print(fds() - a);" % (n, ch, which), digest(pattern(n)) + "\n0\n"))
    mc.session(sh, w, items, prelude=PRE, n=100, timeout=120, by_source=True)


c.explore("outputs", outputs, list(range(8)) + [("all", a, a + c.pick(80, 640)) for a in range(0, c.pick(2600, 10240), c.pick(80, 640))])


def repeats(sh, item):
    """As often as wanted: nothing is used up (at most 160 descriptors are allowed here)."""
    resource.setrlimit(resource.RLIMIT_NOFILE, (160, HARD))
    w = mc.worker(EXE)
    items = []
    for expr, want in (("run([H, 'out', '10', '9', '1', '0', '0'], true)", "true"), ("run([H, 'out', '0', '9', '1', '0', '0'])", "true"), ("run([H, 'out', '10', '9', '1', '3', '0'], true)", "false"),
                       ("run([H, 'out', '10', '9', '1', '0', '6'], true)", "false"), ("run(['./none'], true)", "false"), ("run(['./none'])", "false"), ("run(['a\\x00b'], true)", "false"), ("run([H, 1], true)", "false")):
        items.append(("repeat:" + expr, "var k = 0; for (var i = 0; i < 300; i += 1) { if (Process.%s.success() == %s) { k += 1; } } print(k); print(t(Process.run([H, 'args', '-'], true)));" % (expr, want), "300\n0\n"))
    mc.session(sh, w, items, prelude=PRE, n=1, by_source=True)


c.explore("repeats", repeats, [0])


def faults(sh, item):
    """The transfer of the output is split in every way, or fails at every point; the system refuses to start a process."""
    w = mc.worker(FEXE)
    items = []
    for n in item:
        for ch in (1, 100, 1024, 10 ** 8):
            if n // ch > 3000:
                continue
            run = "Process.run([H, 'out', '%d', '%d', '1', '0', '0'], true)" % (n, ch)
            for k in (1, 2, 3, 5, 1000, 1023, 1024):
                if n // k <= 6000:
                    items.append(("short:%d:%d" % (n, k), "var a = fds(); Env.set('MC_FAULT', 'short:%d'); var r = %s; Env.set('MC_FAULT', nil); print(s(r)); print(fds() - a);" % (k, run), digest(pattern(n)) + "\n0\n"))
            for k in range(1, 8):
                # whole, or an error
                items.append(("fail:%d:%d" % (n, k), "var a = fds(); Env.set('MC_FAULT', 'fail:%d'); var r = %s; Env.set('MC_FAULT', nil); print(s(r)); print(fds() - a);" % (k, run), ["err\n0\n"] + ([digest(pattern(n)) + "\n0\n"])))
    if 0 in item:
        for what in ("fork", "pipe"):
            for form, uses in (("run([H, 'args', 'f'], true)", ("fork", "pipe")), ("run([H, 'args', 'f'])", ("fork",)), ("exec([H, 'args', 'f'])", ("fork",))):
                if what in uses:
                    items.append(("refuse:%s:%s" % (what, form), "var a = fds(); Env.set('MC_REFUSE', '%s'); var r = Process.%s; Env.set('MC_REFUSE', nil); print(t(r)); print(fds() - a); print(t(Process.run([H, 'args', '-', 'a'], true)));" % (what, form), "err\n0\n1;61\n"))
    mc.session(sh, w, items, prelude=PRE, n=100, timeout=120, by_source=True)


c.explore("faults", faults, [[0, 1], [2, 3, 1022], [1023, 1024], [1025, 1026, 2048], [3071, 3072], [3073, 5000], [9216, 65536]])

# ---------------------------------------------------------------- sockets
SPRE = """import Socket; import Hashlib; import Env;
var L = nil;
var P = 0;
def op(a) { L = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); L.setsockopt(Socket.SOL_SOCKET, Socket.SO_REUSEADDR); for (P = a; P < a + 300; P += 1) { if (L.bind('127.0.0.1', P).success() and L.listen(64).success()) { return; } } }
op(%d);
var A = nil; var B = nil;
def two() { A = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); const r = A.connect('127.0.0.1', P); if (not r.success()) { print('connect ' + r.unwrapError()); } const [b, ip] = L.accept().unwrap(); B = b; if (ip != '127.0.0.1') { print(ip); } }
def all(s, n) { var got = ''; while (got.len() < n) { const r = s.recv(n - got.len()); if (not r.success()) { return 'err'; } const x = r.unwrap(); if (x.len() == 0) { return 'end after ' + got.len().toString(); } got += x; } return got.len() > n ? 'too much' : got; }
def rest(s) { var got = ''; while (true) { const r = s.recv(500); if (not r.success()) { return 'err'; } const x = r.unwrap(); if (x.len() == 0) { return got; } if (x.len() > 500) { return 'too much'; } got += x; } }
def u(r) { return r.success() ? '{}'.format(r.unwrap()) : 'err'; }
def d(x) { return x.len() < 40 ? x : x.len().toString() + ':' + Hashlib.sha256(x); }
"""


def dshow(b):
    return b if len(b) < 40 else digest(b).encode()


DATA = [b"a", b"bcd", b"\0\xff\n\0", b"e" * 1500 + b"f" * 1500]
# operations: ("w", end, data index), ("r", end, n), ("x", end), ("e", end): receive to the end (the other one is closed)
OPS = [(k, e, x) for e in "AB" for k, xs in (("w", range(len(DATA))), ("r", (1, 2, 500)), ("x", (0,)), ("e", (0,)), ("z", (0,))) for x in xs]


def sock_hist(depth, first):
    """(path, source, expected or None where unspecified)"""
    def go(path, code, exp, q, closed, d):
        for i, (k, e, x) in enumerate(OPS):
            if d == 0 and i != first:
                continue
            o = "AB"[e == "A"]
            q2, cl2, e2 = dict(q), closed, None
            if k == "w":
                src = "print(u(%s.write(%s)));" % (e, lit(DATA[x]))
                if e in closed:
                    e2 = b"err\n"
                elif o in closed:
                    continue                            # below
                else:
                    e2 = b"%d\n" % len(DATA[x])
                    q2[o] = q[o] + DATA[x]
            elif k == "r":
                if e in closed:
                    src, e2 = "print(u(%s.recv(%d)));" % (e, x), b"err\n"
                elif len(q[e]) >= x:
                    src, e2 = "print(d(all(%s, %d)));" % (e, x), dshow(q[e][:x]) + b"\n"
                    q2[e] = q[e][x:]
                else:
                    continue                            # would wait
            elif k == "z":
                # asking for nothing gives nothing (from the other end's data, or on a closed socket an error)
                if e in closed:
                    src, e2 = "print(u(%s.recv(0)));" % e, b"err\n"
                elif q[e]:
                    src, e2 = "print(u(%s.recv(0)).len());" % e, b"0\n"
                else:
                    continue
            elif k == "e":
                if e in closed or o not in closed:
                    continue
                src, e2 = "print(d(rest(%s)));" % e, dshow(q[e]) + b"\n"
                q2[e] = b""
            else:
                src, e2 = "print(%s.close());" % e, b"nil\n"
                cl2 = closed | {e}
                if e not in closed and q[e]:
                    yield (path + (i,), code + src + "%s.recv(5); %s.write('q'); %s.write('q'); %s.recv(1);" % (o, o, o, o), None)     # a reset: nothing is promised but an answer
                    continue
            p = path + (i,)
            yield (p, code + src, exp + e2)
            if k == "x" and e not in closed and o not in closed:
                # writing to an end that is closed: an answer, and the data that came before is still there
                yield (p + ("w",), code + src + "print(d(rest(%s))); %s.write('q'); %s.write('q'); print(1);" % (o, o, o), exp + e2 + dshow(q[o]) + b"\n1\n")
            if d + 1 < depth:
                yield from go(p, code + src, exp + e2, q2, cl2, d + 1)
    yield from go((), "", b"", {"A": b"", "B": b""}, frozenset(), 0)


def ok(sh, r):
    return len(sh.violations) < 3


def sockets(sh, item):
    w = mc.worker(EXE)
    first, port, depth = item

    def fixed():
        for path, src, exp in sock_hist(depth, first):
            key = ".".join("%s%s%s" % OPS[i] if isinstance(i, int) else i for i in path)
            full = "two(); " + src + " A.close(); B.close();"
            sh.counts["histories"] += 1
            # where nothing is promised about the outcome, only that the program goes on
            yield (key, full, exp) if exp is not None else ("any:" + key, "def q() { %s } q();" % full.replace("print(", "d2("), "")

    for i, part in enumerate(mc.chunks(fixed(), 300)):
        if not ok(sh, mc.session(sh, w, part + [("end", "L.close();", "")], prelude=SPRE % (port + i % 250) + "def d2(x) { }\n", n=400)):
            return


depth = c.pick(5, 6)
c.explore("sockets", sockets, [(i, 20000 + 300 * i, depth) for i in range(len(OPS))])


def misuse(sh, item):
    w = mc.worker(EXE)
    items = []
    sock = "Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap()"
    for port in ("-1", "65536", "65537", "100000", "1e10", "-1e10", "1e300", "0/0", "1/0", "-1/0", "4294967296 + 80"):
        for m in ("bind", "connect"):
            items.append(("port", "print(u(%s.%s('127.0.0.1', %s)));" % (sock, m, port), "err\n"))
    for n in ("-1", "-5", "2147483647", "2147483648", "1e10", "1e300", "0/0", "1/0", "-1/0"):
        items.append(("size", "two(); B.write('abc'); print(1); A.recv(%s); print(2);" % n, mc.fails(mc.RUNTIME, "1\n")))
    for call in ("recv(5)", "write('a')", "accept()", "listen(1)", "listen()", "bind('127.0.0.1', 0)", "connect('127.0.0.1', P)", "setsockopt(Socket.SOL_SOCKET, Socket.SO_REUSEADDR)"):
        # a closed socket stays closed, whatever is opened afterwards
        items.append(("closed", "const s = %s; s.close(); const t = %s; const [x, y] = [1, 2]; print(u(s.%s)); print(s.close()); print(u(t.bind('127.0.0.1', 0)));" % (sock, sock, call), "err\nnil\nnil\n"))
    for call in ("recv(5)", "accept()", "write('a')"):
        items.append(("unconnected", "const s = %s; print(u(s.%s)); s.close();" % (sock, call), "err\n"))
    items.append(("refused", "const s = %s; s.bind('127.0.0.1', 0); const t = %s; print(u(t.connect('127.0.0.1', 1)));" % (sock, sock), "err\n"))
    items.append(("taken", "const s = %s; print(u(s.bind('127.0.0.1', P))); s.close();" % sock, "err\n"))
    items.append(("family", "print(u(Socket.create(12345, 1))); print(u(Socket.create(Socket.AF_INET, 12345)));", "err\nerr\n"))
    for call in ("bind()", "bind('a')", "bind(1, 2)", "bind('127.0.0.1', '1')", "bind('127.0.0.1', 1, 2)", "connect()", "connect(1, 1)", "connect('127.0.0.1', nil)", "listen('a')", "listen(1, 2)", "accept(1)", "write()", "write(1)", "write(nil)", "write('a', 1)", "recv()", "recv('1')", "recv(nil)", "recv(1, 2)", "close(1)",
                 "setsockopt()", "setsockopt(1)", "setsockopt('a', 'b')"):
        items.append(("misuse", "const s = %s; print(1); s.%s; print(2);" % (sock, call), mc.fails(mc.RUNTIME, "1\n")))
    mc.session(sh, w, items, prelude=SPRE % 28000, n=100, by_source=True)


c.explore("misuse", misuse, [0])


def datagrams(sh, item):
    """Datagrams: each recv gives one, cut to the size asked for."""
    w = mc.worker(EXE)
    pre = SPRE % (28400 + 600 * item) + """
def dg() { for (var i = 0; i < 60; i += 1) { const p = %d + i * 2; A = Socket.create(Socket.AF_INET, Socket.SOCK_DGRAM).unwrap(); B = Socket.create(Socket.AF_INET, Socket.SOCK_DGRAM).unwrap(); if (A.bind('127.0.0.1', p).success() and B.bind('127.0.0.1', p + 1).success()) { A.connect('127.0.0.1', p + 1).unwrap(); B.connect('127.0.0.1', p).unwrap(); return; } A.close(); B.close(); } }
""" % (28400 + 600 * item + 400)
    ops = [("w", e, x) for e in "AB" for x in (b"", b"a", b"bcdef", b"g" * 600)] + [("r", e, n) for e in "AB" for n in (1, 3, 1000)]
    items = []

    def go(code, exp, q, d):
        for i, (k, e, x) in enumerate(ops):
            if d == 0 and i % 8 != item:
                continue
            q2 = dict(q)
            if k == "w":
                o = "AB"[e == "A"]
                q2[o] = q[o] + (x,)
                s, r = "print(u(%s.write(%s)));" % (e, lit(x)), b"%d\n" % len(x)
            elif q[e]:
                q2[e] = q[e][1:]
                s, r = "print(d(%s.recv(%d).unwrap()));" % (e, x), dshow(q[e][0][:x]) + b"\n"
            else:
                continue
            items.append(("datagrams", "dg(); " + code + s + " A.close(); B.close();", exp + r))
            if d + 1 < c.pick(4, 5):
                go(code + s, exp + r, q2, d + 1)
    go("", b"", {"A": (), "B": ()}, 0)
    mc.session(sh, w, items, prelude=pre, n=300, by_source=True)


c.explore("datagrams", datagrams, range(8))


def peer(sh, item):
    """The other end is another program; transfers of any size, cut in any way by either side."""
    n = item
    w = mc.worker(FEXE)
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(64)
    port = srv.getsockname()[1]
    data = pattern(n)
    state = dict(ch=1)

    def serve():
        while True:
            try:
                k, _ = srv.accept()
            except OSError:
                return
            try:
                for i in range(0, n, state["ch"]):
                    k.sendall(data[i:i + state["ch"]])
                k.shutdown(socket.SHUT_WR)
                while k.recv(4096):
                    pass
            except OSError:
                pass
            k.close()
    th = threading.Thread(target=serve, daemon=True)
    th.start()
    items = []
    con = "const s = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); s.connect('127.0.0.1', %d).unwrap(); " % port
    for fault in ("", "short:1", "short:3", "short:1000", "fail:1", "fail:2", "fail:3", "fail:4"):
        if fault.startswith("short") and n // int(fault[6:]) > 20000:
            continue
        on = "Env.set('MC_FAULT', '%s'); " % fault if fault else ""
        off = "Env.set('MC_FAULT', nil); " if fault else ""
        for size in (1, 5, 1024, 4096, 100000):
            if n // size > 20000:
                continue
            items.append(("recv:%d:%s:%d" % (n, fault, size), con + on + "var bad = false; var l = []; while (true) { const r = s.recv(%d); if (not r.success()) { bad = true; break; } const x = r.unwrap(); if (x.len() == 0) { break; } if (x.len() > %d) { print('too much'); } l.push(x); } " % (size, size) + off +
                          "const got = l.join(''); print(bad ? 'err' : got.len().toString() + ':' + Hashlib.sha256(got)); s.close();", "err\n" if fault.startswith("fail:1") else [digest(data) + "\n", "err\n"] if fault.startswith("fail") else digest(data) + "\n"))
    pre = SPRE % (31000) + "L.close();\n"
    for ch in (1, 2, 100, 1000, 100000):
        if n // ch <= 5000:
            state["ch"] = ch
            mc.session(sh, w, items, prelude=pre, n=100, timeout=120, by_source=True)
    srv.close()


c.explore("peer", peer, [n for n in (0, 1, 2, 5, 1023, 1024, 1025, 4097, 70000, 300000)])


def echo(sh, item):
    """Everything written arrives, whatever part of it each write takes."""
    n = item
    w = mc.worker(FEXE)
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(64)
    port = srv.getsockname()[1]
    data = pattern(n)

    def serve():
        while True:
            try:
                k, _ = srv.accept()
                got = b""
                while len(got) < n:
                    x = k.recv(65536)
                    if not x:
                        break
                    got += x
                k.sendall(digest(got).encode())
                k.close()
            except OSError:
                if srv.fileno() < 0:
                    return
    threading.Thread(target=serve, daemon=True).start()
    items = []
    con = "const s = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); s.connect('127.0.0.1', %d).unwrap(); " % port
    for fault in ("", "short:1", "short:3", "short:1000", "fail:1", "fail:2", "fail:3"):
        if fault.startswith("short") and n // int(fault[6:]) > 6000:
            continue
        on = "Env.set('MC_FAULT', '%s'); " % fault if fault else ""
        off = "Env.set('MC_FAULT', nil); " if fault else ""
        for size in (1, 5, 1024, 4096, 10 ** 7):
            if n // size > 6000:
                continue
            writes = -(-n // size) if not fault.startswith("short") else 0
            fails = fault.startswith("fail") and writes >= int(fault[5:])
            items.append(("write:%d:%s:%d" % (n, fault, size), con + "var bad = false; var i = 0; " + on +
                          "while (i < %d) { var e = i + %d; if (e > %d) { e = %d; } const r = s.write(data[i:e]); if (not r.success()) { bad = true; break; } const k = r.unwrap(); if (k < 1 or k > e - i) { print('bad count'); break; } i += k; } " % (n, size, n, n) + off +
                          "if (not bad) { print(all(s, %d)); } else { print('err'); } s.close();" % len(digest(data)), "err\n" if fails else [digest(data) + "\n"] + (["err\n"] if fault.startswith("fail") else [])))
    w.files.update({"data.bin": data})
    mc.session(sh, w, items, prelude=SPRE % 31000 + "L.close();\nvar data; with ('data.bin', 'rb') { data = file.read(); }\n", n=100, timeout=120, by_source=True)
    w.files.pop("data.bin")
    srv.close()


c.explore("echo", echo, [0, 1, 2, 5, 1023, 1024, 1025, 4097, 70000, 300000])
c.bounds = {"arguments": c.pick(3, 4), "output size, every": c.pick(2600, 10240), "output size, selected": max(SIZES), "exit statuses": 256, "socket operations": depth, "datagram operations": c.pick(4, 5), "transfer": 300000}
c.finish()

"""P41: the HTTP client. A server of its own on the loopback answers with every scripted response (all framings, every cut, every split) and echoes
every request; all argument lists of the functions, all histories of a client's operations."""
import os, sys, itertools as it, socket, ssl, threading, hashlib, time, http
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

c = mc.Check("P41", rule="one request sent to and answered by the server, or one history of a client's operations; non-trivial = distinct requests and distinct answers with what the program saw of them",
             assumptions=["libcurl and the kernel's loopback are trusted", "error texts, the order of a dict's fields, a trailing '&' and the headers libcurl adds by itself are unspecified",
                          "an answer cut inside its headers may be an Error or a response without content"])
EXE = c.build("plain")
ASAN = c.build("asan")
for k in list(os.environ):
    if k.lower().endswith("_proxy"):
        del os.environ[k]
TLS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "tls")

ANSWERS = {}            # name -> list of bytes to send (bytes), pauses (float), or "stall"; the connection is closed afterwards unless the last is "keep"
DEFAULTS = {"accept": "*/*", "content-type": "application/x-www-form-urlencoded"}


def shown(body):
    return body.decode("latin1") if len(body) <= 60 and all(32 <= b < 127 for b in body) else "%d:%s" % (len(body), hashlib.sha256(body).hexdigest()[:16])


class Server:
    def __init__(self, tls=False):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(512)
        self.port = self.s.getsockname()[1]
        self.ctx = None
        if tls:
            self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.ctx.load_cert_chain(TLS + "/server.crt", TLS + "/server.key")
            self.ctx.load_verify_locations(TLS + "/client.crt")
            self.ctx.maximum_version = ssl.TLSVersion.TLSv1_2        # (with 1.3 a refused client only learns about it later)
            if tls == "client":
                self.ctx.verify_mode = ssl.CERT_REQUIRED
                self.ctx.verify_flags = ssl.VerifyFlags(self.ctx.verify_flags | 0x200000)
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            a, _ = self.s.accept()
            threading.Thread(target=self.serve, args=(a,), daemon=True).start()

    def serve(self, a):
        try:
            a.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if self.ctx:
                a = self.ctx.wrap_socket(a, server_side=True)
            while self.one(a):
                pass
        except (OSError, ValueError):
            pass
        finally:
            a.close()

    def one(self, a):
        data = b""
        while b"\r\n\r\n" not in data:
            x = a.recv(65536)
            if not x:
                return False
            data += x
        head, _, body = data.partition(b"\r\n\r\n")
        lines = head.decode("latin1").split("\r\n")
        method, target, _ = lines[0].split(" ", 2)
        length = 0
        extra, have = [], set()
        for l in lines[1:]:
            k, _, v = l.partition(":")
            k, v = k.strip(), v.strip()
            have.add(k.lower())
            if k.lower() == "content-length":
                length = int(v)
            elif k.lower() in ("host", "accept-encoding") or DEFAULTS.get(k.lower()) == v and not (k.lower() == "content-type" and method == "GET"):
                continue
            else:
                extra.append(k + "=" + v)
        if "accept" not in have:
            extra.append("-Accept")
        while len(body) < length:
            x = a.recv(65536)
            if not x:
                return False
            body += x
        ans = ANSWERS.get(target)
        if ans is None:
            t = ("%s %s [%s] %s" % (method, target, "|".join(sorted(extra)), shown(body))).encode("latin1")
            self.last = t                                            # (before the answer: the client may be read back as soon as it is sent)
            a.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nX-Echo: yes\r\n\r\n" % len(t) + (b"" if method == "HEAD" or method == "OPTIONS" else t))
            return True
        for x in ans:
            if isinstance(x, bytes):
                a.sendall(x)
            elif isinstance(x, float):
                time.sleep(x)
            elif x == "stall":
                time.sleep(30)
        return ans[-1:] == ["keep"]


SERVERS = {}


def server(tls=False):
    if (os.getpid(), tls) not in SERVERS:
        SERVERS[os.getpid(), tls] = Server(tls)
    return SERVERS[os.getpid(), tls]


def pre(tls=False):
    return """import HTTP;
const U = "http%s://127.0.0.1:%d";
def e(r) { if (not r.success()) { return "error"; } const x = r.unwrap(); return "{} {}".format(x.statusCode, x.content); }
def p(r) {
    if (not r.success()) { print("error"); return; }
    const x = r.unwrap();
    print("{} {}".format(x.statusCode, x.content.len()));
    for (var i = 0; i < x.headers.len(); i += 1) { print("|" + x.headers[i] + "|"); }
    print(x.content);
}
""" % ("s" if tls else "", server(tls).port)


def seen(status, headers, content):
    return b"%d %d\n" % (status, len(content)) + b"".join(b"|%s|\n" % h for h in headers) + content + b"\n"


def q(b):
    """Dictu source of a byte string"""
    if isinstance(b, str):
        b = b.encode("latin1")
    return b'"' + b"".join(bytes([x]) if 32 <= x < 127 and x not in b'"\\' else b"\\x%02x" % x for x in b) + b'"'


# ---- requests ----
HEADERS = [None, [], ["X-A: 1"], ["X-A: 1", "X-B: two words"], ["Accept:"], ["Content-Type: application/json"], ["User-Agent: Dictu", "X-A: 1", "Accept: text/html"], ["X-A: 1", "X-A: 2"],
           ["X-L: " + "l" * 300]]
HEADERS += [["X-%d: %d" % (i, i * i) for i in range(n)] for n in (5, 20)]
STRINGS = ["", "a", "a=1", "a=1&b=2", "{\"k\": [1]}", "n\0ul", "\0", "\0\0", "t\0", "line\r\nline\n", "\x7f\xff\x80", "x" * 60, "y" * 1000, "z" * 70000]
DICTS = [({}, [""]), ({"a": 1}, ["a=1"]), ({"test": "val"}, ["test=val"]), ({"": ""}, ["="]), ({"a": "", "": "b"}, None), ({"a": 1, "b": 2}, None), ({"a": 1, "b": "two", "c": 3.5}, None), ({"a": "n\0ul"}, ["a=n\0ul"]), ({"k\0": 1}, ["k\0=1"]),
         ({"l" * 200: "m" * 300}, None), ({"k%d" % i: "v" * i for i in range(3)}, None)]


def lit(v):
    if isinstance(v, bool):
        return b"true" if v else b"false"
    if isinstance(v, (str, bytes)):
        return q(v)
    if isinstance(v, dict):
        return b"{" + b", ".join(lit(k) + b": " + lit(x) for k, x in v.items()) + b"}"
    if isinstance(v, list):
        return b"[" + b", ".join(map(lit, v)) + b"]"
    return mc.fmt(v).encode()


def text(v):
    return v if isinstance(v, str) else mc.fmt(v)


def bodies(d):
    """what a dict may be sent as: its fields in any order, with or without an '&' at the end"""
    out = []
    for o in it.permutations(d.items()):
        t = "&".join("%s=%s" % (text(k), text(v)) for k, v in o)
        out += [t, t + "&"] if o else [t]
    return out


def extras(h, method):
    ext = []
    names = {x.partition(":")[0].lower() for x in h or []}
    for x in h or []:
        k, _, v = x.partition(":")
        if v.strip():
            ext.append(k + "=" + v.strip()) if DEFAULTS.get(k.lower()) != v.strip() else None
        elif k == "Accept":
            ext.append("-Accept")
    return "|".join(sorted(ext))


def echoed(method, target, h, body):
    return "%s %s [%s] %s" % (method, target, extras(h, method), shown(body.encode("latin1")))


def requests(client):
    """every function with every list of headers, body and timeout"""
    n = 0
    for fn in ("get", "head", "options", "post", "put"):
        M = fn.upper()
        blist = [(None, [""])]
        if fn in ("post", "put"):
            blist += [(s, [s]) for s in STRINGS] + [(d, bodies(d)) for d, _ in DICTS]
        for b, sent in blist:
            for h in HEADERS:
                for t in (None, 5) if h is not None and not client else (None,):
                    args = [b'U + "/e"']
                    if b is not None or (fn in ("post", "put") and h is not None and not client):
                        args.append(lit(b if b is not None else {}))
                    if h is not None and not client:
                        args.append(lit(h))
                    if t is not None:
                        args.append(lit(t))
                    if client:
                        o = ("C", "S")[n % 2]
                        mk = b"var c = HTTP.newClient({%s});" % (b'"headers": ' + lit(h) + b', "timeout": 5' if h is not None and o == "C" else b"")
                        if h is not None and o == "S":
                            mk += b" c.setHeaders(" + lit(h) + b"); c.setTimeout(5);"
                        call = b"c." + fn.encode() + b"(" + b", ".join(args) + b")"
                        src = b"{ " + mk + b" print(e(" + call + b")); }"
                    else:
                        src = b"print(e(HTTP." + fn.encode() + b"(" + b", ".join(args) + b")));"
                    exp = ["200 " + ("" if M in ("HEAD", "OPTIONS") else echoed(M, "/e", h, x)) + "\n" for x in sent]
                    n += 1
                    yield ("request:%s:%d" % (fn, n), src, exp)


def stateless(sh, item):
    client, part, parts = item
    w = mc.worker(EXE, env={"no_proxy": "*"})
    mc.session(sh, w, [x for i, x in enumerate(requests(client)) if i % parts == part], prelude=pre(), flags=0, n=60)


c.explore("requests", stateless, [(cl, i, 8) for cl in (False, True) for i in range(8)])


# ---- heads of requests without content: what the server saw of HEAD and OPTIONS ----
def headlike(sh, item):
    s = server()
    w = mc.worker(EXE, env={"no_proxy": "*"})
    for fn in ("head", "options"):
        for cl in (False, True):
            for h in HEADERS:
                for tgt in ("/e", "/a/b?c=d"):
                    s.last = b""
                    if cl:
                        src = b"var c = HTTP.newClient({%s}); p(c.%s(U + %s));" % (b'"headers": ' + lit(h) if h is not None else b"", fn.encode(), q(tgt))
                    else:
                        src = b"p(HTTP.%s(U + %s%s));" % (fn.encode(), q(tgt), b", " + lit(h) if h is not None else b"")
                    r = mc.run_confirm(w, srcs=[("case.du", pre()), ("case.du", src)])
                    sh.evals += 1
                    want = [echoed(fn.upper(), t, h, "").encode("latin1") for t in ([tgt] if fn == "head" else [tgt, "*"])]
                    sh.state((fn, cl, str(h), s.last))
                    body = seen(200, [b"HTTP/1.1 200 OK", b"Content-Length: %d" % len(s.last), b"X-Echo: yes"], b"")
                    if r.crash or r.rcs != ["0", "0"] or s.last not in want or r.out != body:
                        sh.violate("head:%s:%s:%s" % (fn, cl, tgt), "%s\n    the server saw %r, expected %r; output %r, expected %r (%s)" % (src.decode("latin1"), s.last, want, r.out, body, r.brief()))


c.explore("head", headlike, [0])


# ---- bodies around the sizes of their buffer ----
def sizes(sh, item):
    """a dict body of every length around the sizes of its buffer, sanitised"""
    lo, hi = item
    w = mc.worker(ASAN, env={"no_proxy": "*"})

    def gen():
        for n in range(lo, hi):
            for k in (1, n // 2, n - 1):
                d = {"k" * k: "v" * (n - k)}
                yield ("size:%d:%d" % (n, k), b'print(e(HTTP.post(U + "/e", ' + lit(d) + b")));", ["200 " + echoed("POST", "/e", None, x) + "\n" for x in bodies(d)])
            d = {"a": "v" * (n - 1), "b": 1}
            yield ("size2:%d" % n, b'print(e(HTTP.put(U + "/e", ' + lit(d) + b")));", ["200 " + echoed("PUT", "/e", None, x) + "\n" for x in bodies(d)])
    mc.session(sh, w, list(gen()), prelude=pre(), flags=0, n=100)


# ---- answers ----
BODIES = [b"", b"x", b"hello world", b"nul\0nul\0", b"\r\n\r\n", b"0\r\n\r\n", bytes(x for x in range(256) if x != 30), b"{\"k\": [1, 2]}"]
HEAD = [(b"200 OK", 200), (b"201 Created", 201), (b"404 Not Found", 404), (b"500 Oops", 500), (b"418", 418), (b"299 X Y Z", 299), (b"304 Not Modified", 304), (b"204 No Content", 204), (b"302 Found", 302)]
HLISTS = [[], [b"X-A: 1"], [b"X-A: 1", b"X-A: 1"], [b"X-Empty:"], [b"X-Sp:   many   "], [b"Set-Cookie: a=b; c", b"Set-Cookie: d"], [b"x-lower: \xe9\xff"], [b"X-Long: " + b"v" * 5000], [b"X-%d: y" % i for i in range(100)]]


def framed(version, status, headers, body, framing, nl=b"\r\n"):
    h = list(headers)
    payload = body
    if framing == "length":
        h.append(b"Content-Length: %d" % len(body))
    elif framing == "chunked":
        h.append(b"Transfer-Encoding: chunked")
        k = max(1, (len(body) + 2) // 3)
        payload = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + k]), body[i:i + k]) for i in range(0, len(body), k)) + b"0\r\n\r\n"
    lines = [version + b" " + status] + h
    return nl.join(lines) + nl + nl, payload, lines


def answer(name, parts):
    ANSWERS["/r/" + name] = parts
    return name


GRID = []               # (name, status, header lines, content)
for vi, (v, nl) in enumerate(((b"HTTP/1.1", b"\r\n"), (b"HTTP/1.0", b"\r\n"), (b"HTTP/1.1", b"\n"))):
    for hi, (st, code) in enumerate(HEAD):
        for li, hl in enumerate(HLISTS):
            for bi, b in enumerate(BODIES):
                for fr in ("length", "chunked", "close"):
                    if fr == "chunked" and v == b"HTTP/1.0" or code in (304, 204) and (b or fr == "chunked"):
                        continue
                    if not c.quick or hi == 0 or li in (1, 5) or bi in (0, 3) and li == 0:
                        hd, pl, lines = framed(v, st, hl, b, fr, nl)
                        GRID.append((answer("g%d_%d_%d_%d_%s" % (vi, hi, li, bi, fr), [hd + pl]), code, lines, b))


def oneresp(sh, w, cases, gc=(0, 0, 0), n=60):
    def gen():
        for i, (name, exp) in enumerate(cases):
            yield ("response:%s" % name, b'p(HTTP.get(U + "/r/%s"));' % name.encode(), exp)
    return mc.session(sh, w, list(gen()), prelude=pre(), flags=0, n=n, gc=gc)


def grid(sh, item):
    part, parts = item
    w = mc.worker(EXE, env={"no_proxy": "*"})
    oneresp(sh, w, [(n, seen(code, lines, b)) for n, code, lines, b in GRID[part::parts]])


def cutcases():
    """every answer of a small set, cut at every byte, split at every byte, sent byte by byte"""
    out = []
    for fi, fr in enumerate(("length", "chunked", "close")):
        for bi, b in enumerate((b"", b"hello\0world", b"ab" * 20)):
            for nl in (b"\r\n", b"\n"):
                hd, pl, lines = framed(b"HTTP/1.1", b"200 OK", [b"X-A: 1"], b, fr, nl)
                whole = hd + pl
                key = "%s_%d_%d" % (fr, bi, len(nl))
                full = seen(200, lines, b)
                for k in range(len(whole) + 1):
                    nm = answer("c%s_%d" % (key, k), [whole[:k]])
                    if k == len(whole):
                        exp = [full]
                    elif k == 0:
                        exp = ["error\n"]
                    elif k < len(hd):
                        exp = None
                    elif fr == "close":
                        exp = [seen(200, lines, pl[:k - len(hd)])]
                    elif fr == "length":
                        exp = ["error\n"]
                    else:
                        # (all that is left may be the line break after the last chunk's size)
                        exp = ["error\n"] + ([full] if whole[:k].endswith(b"0\r\n") and len(whole) - k <= 2 or len(whole) - k <= 1 else [])
                    out.append((nm, exp, lines, k < len(hd)))
                    if 0 < k < len(whole) and nl == b"\r\n":
                        out.append((answer("s%s_%d" % (key, k), [whole[:k], 0.001, whole[k:]]), [full], lines, False))
                out.append((answer("b%s" % key, [x for i in range(len(whole)) for x in (whole[i:i + 1], 0.0002)]), [full], lines, False))
    return out


CUTS = cutcases()


def cuts(sh, item):
    part, parts = item
    w = mc.worker(EXE, env={"no_proxy": "*"})
    cases = []
    for nm, exp, lines, inhead in CUTS[part::parts]:
        if exp is None:
            exp = ["error\n"] + [seen(st, lines[:i] + part, b"") for st in (0, 200) for i in range(len(lines) + 1) for part in [[]] + ([[lines[i][:j]] for j in range(1, len(lines[i]))] if i < len(lines) else [])]
        cases.append((nm, exp))
    oneresp(sh, w, cases)


BIG = []
for n in (1, 255, 256, 1000, 16383, 16384, 16385, 65536, 100000, 1000000):
    b = bytes((i * 7 + i // 251) % 256 if (i * 7 + i // 251) % 256 != 30 else 31 for i in range(n))
    for fr in ("length", "chunked", "close"):
        hd, pl, lines = framed(b"HTTP/1.1", b"200 OK", [], b, fr)
        k = max(1, n // 3)
        BIG.append((answer("B%d%s" % (n, fr), [hd + pl]), lines, b))
        BIG.append((answer("S%d%s" % (n, fr), [hd] + [x for i in range(0, len(pl), k) for x in (pl[i:i + k], 0.002)]), lines, b))


def big(sh, item):
    exe, gc, lim = item
    w = mc.worker(exe, env={"no_proxy": "*"})
    for i in range(0, len(BIG)):
        nm, lines, b = BIG[i]
        if len(b) <= lim:
            src = b'p(HTTP.get(U + "/r/%s"));' % nm.encode()
            r = mc.run_confirm(w, srcs=[("case.du", pre()), ("case.du", src)], gc=gc, timeout=60)
            sh.evals += 1
            sh.state((nm, exe == ASAN, gc))
            if r.crash or r.rcs != ["0", "0"] or r.out != seen(200, lines, b):
                sh.violate("big:" + nm, "%s\n    %d bytes expected, %d observed (%s)" % (src.decode(), len(seen(200, lines, b)), len(r.out), r.brief()))


REDIR = ANSWERS["/redir"] = [b"HTTP/1.1 302 Found\r\nLocation: /e\r\nContent-Length: 5\r\n\r\nmoved", "keep"]
ANSWERS["/redir2"] = [b"HTTP/1.1 307 Temporary Redirect\r\nLocation: /e\r\nContent-Length: 0\r\n\r\n", "keep"]
ANSWERS["/stall"] = ["stall"]
ANSWERS["/half"] = [b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\nhalf", "stall"]
ANSWERS["/empty"] = []
ANSWERS["/garbage"] = [b"no such protocol\r\n\r\n"]
ANSWERS["/cont"] = [b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok", "keep"]
ANSWERS["/partial"] = [b"HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n" + b"p" * 700]
ANSWERS["/404"] = [b"HTTP/1.1 404 Not Found\r\nContent-Length: 4\r\n\r\nnone", "keep"]
for js in ('{"a": [1, 2]}', "[1", "", "nil", "3"):
    ANSWERS["/json/" + js.encode().hex()] = [b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(js) + js.encode(), "keep"]


def special(sh, item):
    """redirects, failures, time limits and JSON"""
    w = mc.worker(EXE, env={"no_proxy": "*"})
    s = server()
    free = socket.socket()
    free.bind(("127.0.0.1", 0))
    dead = free.getsockname()[1]
    E = lambda m, t="/e", h=None, b="": "200 " + echoed(m, t, h, b) + "\n"
    items = []
    for fn in ("HTTP.get(%s)", "HTTP.post(%s)", "HTTP.post(%s, {'a': 1})", "HTTP.put(%s, 'x')", "HTTP.head(%s)", "HTTP.options(%s)", "HTTP.newClient({}).get(%s)", "HTTP.newClient({}).post(%s, 'x')", "HTTP.newClient({}).put(%s)",
               "HTTP.newClient({}).head(%s)", "HTTP.newClient({}).options(%s)"):
        nobody = "head" in fn or "options" in fn
        for u in ("'http://127.0.0.1:%d/'" % dead, "U + '/empty'", "U + '/garbage'", "'nosuch://x'", "''", "'http://'", "'http://127.0.0.1:99999/'") + (() if nobody else ("U + '/partial'",)):
            if "options" in fn and u.startswith("U"):
                continue                    # (the server does not see the path)
            items.append(("fail:%s" % u, "print(e(" + fn % u + "));", "error\n"))
    for fn in ("HTTP.get(%s)", "HTTP.newClient({}).get(%s)", "HTTP.newClient({'follow_redirects': true}).get(%s)"):
        for u in ("/redir", "/redir2"):
            items.append(("redirect:" + fn + u, "print(e(" + fn % ("U + '%s'" % u) + "));", E("GET")))
        items.append(("404:" + fn, "print(e(" + fn % "U + '/404'" + "));", "404 none\n"))
        items.append(("continue:" + fn, "print(e(" + fn % "U + '/cont'" + "));", "200 ok\n"))
    items.append(("noredirect", "print(e(HTTP.newClient({'follow_redirects': false}).get(U + '/redir')));", "302 moved\n"))
    items.append(("noredirect", "{ var c = HTTP.newClient({}); c.setFollowRedirects(false); print(e(c.get(U + '/redir'))); c.setFollowRedirects(true); print(e(c.get(U + '/redir'))); }", "302 moved\n" + E("GET")))
    items.append(("noredirect", "{ var c = HTTP.newClient({}); c.setFollowRedirects(false); print(e(c.head(U + '/redir'))); print(e(c.options(U + '/x'))); print(e(c.get(U + '/redir'))); }", "302 \n200 \n302 moved\n"))
    for js, exp in (('{"a": [1, 2]}', "true {\"a\": [1, 2]}"), ("[1", "false"), ("", "false"), ("3", "true 3")):
        for fn in ("HTTP.get", "HTTP.newClient({}).get"):
            items.append(("json:" + js, "{ const j = %s(U + '/json/%s').unwrap().json(); print(j.success() ? 'true {}'.format(j.unwrap()) : 'false'); }" % (fn, js.encode().hex()), exp + "\n"))
    for fn in ("HTTP.get(U + '/stall', [], 1)", "HTTP.post(U + '/stall', {}, [], 1)", "HTTP.put(U + '/half', 'x', [], 1)", "HTTP.head(U + '/stall', [], 1)", "HTTP.newClient({'timeout': 1}).get(U + '/half')", "HTTP.newClient({'timeout': 1}).post(U + '/stall')"):
        items.append(("timeout:" + fn, "print(e(%s));" % fn, "error\n"))
    items.append(("timeout:set", "{ var c = HTTP.newClient({'timeout': 20}); c.setTimeout(1); print(e(c.get(U + '/half'))); print(e(c.get(U + '/e'))); c.options(U); print(e(c.get(U + '/stall'))); }", "error\n" + E("GET") + "error\n"))
    part, parts = item
    mc.session(sh, w, items[part::parts], prelude=pre(), flags=0, n=60)
    free.close()


# ---- histories of a client ----
OPS = [("get", "print(e(c.get(U + '/e')));", "GET", "", False), ("head", "print(e(c.head(U + '/e')));", "HEAD", "", False), ("options", "print(e(c.options(U + '/e')));", "OPTIONS", "", False),
       ("post-dict", "print(e(c.post(U + '/e', {'a': 1})));", "POST", "a=1&", False), ("post-str", "print(e(c.post(U + '/e', 's' + 't')));", "POST", "st", False), ("post", "print(e(c.post(U + '/e')));", "POST", "", False),
       ("put-str", "print(e(c.put(U + '/e', 'p' + 'u')));", "PUT", "pu", False), ("put", "print(e(c.put(U + '/e')));", "PUT", "", False), ("put-dict", "print(e(c.put(U + '/e', {'k': 'v'})));", "PUT", "k=v&", False)]
CFG = [("h1", "c.setHeaders(['X-A: ' + n.toString()]);"), ("h0", "c.setHeaders([]);"), ("nofollow", "c.setFollowRedirects(false);"), ("redir", "print(e(c.get(U + '/redir')));"), ("fail", "print(e(c.post(U + '/partial', 'q')));"),
       ("opth", "print(e(c.options(U + '/e', ['X-O: 1'], 9)));"), ("opterr", "if (true) { var d = HTTP.newClient({'headers': ['X-D: 1']}); print(e(d.put(U + '/e', 'd'))); }"), ("static", "print(e(HTTP.post(U + '/e', {'s': 1}, ['X-S: 1'])));"),
       ("badheaders", None)]


def histories(first, depth):
    names = [o[0] for o in OPS] + [o[0] for o in CFG if o[1]]
    for rest in it.product(names, repeat=depth - 1):
        yield (first,) + rest


def history(sh, item):
    first, depth, exe, gc, part, parts = item
    w = mc.worker(exe, env={"no_proxy": "*"})
    ops = {o[0]: o for o in OPS}
    cfg = dict(CFG)

    def gen():
        for i, h in enumerate(histories(first, depth)):
            if i % parts != part:
                continue
            src, exp, hdr, follow = ["var n = 1; var c = HTTP.newClient({});"], [""], None, True
            add = lambda alts: [x + y for x in exp for y in alts]
            for k in h:
                if k in ops:
                    _, code, m, b, _ = ops[k]
                    src.append(code)
                    alts = [""] if m in ("HEAD", "OPTIONS") else [echoed(m, "/e", hdr, b)] + ([echoed(m, "/e", hdr, b[:-1])] if b.endswith("&") else [])
                    exp = add(["200 " + a + "\n" for a in alts])
                else:
                    src.append(cfg[k])
                    if k == "h1":
                        hdr = ["X-A: 1"]
                    elif k == "h0":
                        hdr = None
                    elif k == "nofollow":
                        follow = False
                    elif k == "redir":
                        exp = add(["200 " + echoed("GET", "/e", hdr, "") + "\n" if follow else "302 moved\n"])
                    elif k == "fail":
                        exp = add(["error\n"])
                    elif k == "opth":
                        exp = add(["200 \n"])
                    elif k == "opterr":
                        exp = add(["200 " + echoed("PUT", "/e", ["X-D: 1"], "d") + "\n"])
                    elif k == "static":
                        exp = add(["200 " + echoed("POST", "/e", ["X-S: 1"], "s=1" + x) + "\n" for x in ("", "&")])
            yield ("history:" + ",".join(h), "{ " + " ".join(src) + " }", exp)
    mc.session(sh, w, list(gen()), prelude=pre(), flags=0, n=40, gc=gc)


# ---- memory ----
def released(sh, item):
    """the same requests again and again leave nothing behind, whether they succeed or fail"""
    part, parts = item
    w = mc.worker(EXE, env={"no_proxy": "*", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})
    R = 10
    srcs = []
    for i, (k, s, _) in enumerate(requests(False)):
        if i % 7 == 0:
            srcs.append((k, s if isinstance(s, bytes) else s.encode()))
    for i, (k, s, _) in enumerate(requests(True)):
        if i % 7 == 0:
            srcs.append((k, s))
    for nm, exp, lines, inhead in CUTS:
        if nm[0] == "c":
            for fn in ("HTTP.get(%s)", "HTTP.post(%s, {'a': 1})", "HTTP.newClient({'headers': ['X: 1']}).put(%s, 'x')"):
                srcs.append(("cut:" + nm, ("e(" + fn % ("U + '/r/%s'" % nm) + ");").encode()))
    codes = {o[0]: o[1] for o in OPS}
    codes.update({k: v for k, v in CFG if v})
    for h in it.product(codes, repeat=2):
        srcs.append(("history:" + ",".join(h), ("{ var n = 1; var c = HTTP.newClient({}); " + " ".join(codes[k] for k in h) + " }").encode()))
    for bad in ("HTTP.get(U, [1])", "HTTP.post(U, {}, ['a', 1])", "HTTP.put(U, 'x', [nil])", "HTTP.head(U, ['a', nil])", "HTTP.options(U, ['a', nil])", "HTTP.newClient({'headers': ['a', 1]})", "HTTP.newClient({'headers': ['a'], 'timeout': nil})",
                "HTTP.newClient({}).setHeaders(['a', 1])", "HTTP.newClient({}).options(U, ['a', 1])", "HTTP.newClient({'headers': ['a: b']}).options(U, 1)"):
        srcs.append(("bad:" + bad, (bad + ";").encode()))
    for key, src in srcs[part::parts]:
        for attempt in range(2):
            r = w.run([("case.du", pre())] + [("case.du", src)] * (3 * R), flags=64, timeout=60)
            sh.evals += 3 * R
            m = r.mem[2:]
            grow = [m[2 * R - 1] - m[R - 1], m[3 * R - 1] - m[2 * R - 1]] if len(m) >= 3 * R else [0, 0]
            if r.crash is None and r.lost in (0, -1) and min(grow) < 24 * R:
                break
        else:
            sh.violate("memory:" + key, "%s, %d times in one interpreter: %s, the heap grows by %s bytes per %d times" % (src.decode("latin1")[:400], 3 * R, r.brief(), grow, R))
            if len(sh.violations) > 3:
                return
        sh.state((key.split(":")[0], tuple(r.rcs[1:2])))


# ---- misuse ----
BAD = ["nil", "1", "-1", "''", "'x'", "[]", "[1]", "[nil]", "['X: 1', 2]", "{}", "{1: 2}", "true", "HTTP", "set()", "e"]


def misuse(sh, item):
    fn, exe = item
    w = mc.worker(exe, env={"no_proxy": "*"})
    ok = {0: lambda a: a in ("''", "'x'"), "headers": lambda a: a == "[]", "body": lambda a: a in ("''", "'x'", "{}", "{1: 2}"), "timeout": lambda a: a in ("1", "-1")}
    shape = dict(get=[0, "headers", "timeout"], head=[0, "headers", "timeout"], options=[0, "headers", "timeout"], post=[0, "body", "headers", "timeout"], put=[0, "body", "headers", "timeout"],
                 cget=[0], chead=[0], cpost=[0, "body"], cput=[0, "body"], coptions=[0, "headers", "timeout"])[fn]
    call = "HTTP.%s(%%s)" % fn if fn[0] != "c" else "HTTP.newClient({}).%s(%%s)" % fn[1:]

    def gen():
        for n in range(0, len(shape) + 2):
            for a in it.product(BAD if n <= 2 else ("''", "[]", "{}", "nil", "1", "[1]"), repeat=n):
                good = 1 <= n <= len(shape) and all(ok[s](x) for s, x in zip(shape, a))
                yield ("misuse:%s:%d:%s" % (fn, n, ",".join(a)), "print(e(%s));" % (call % ", ".join(a)), "error\n" if good else mc.fails(mc.RUNTIME))
    mc.session(sh, w, list(gen()), prelude=pre(), flags=0, n=300)


OPTS = ["timeout", "headers", "insecure", "follow_redirects", "keyFile", "certFile", "keyPasswd"]
GOODOPT = dict(timeout=("1", "-1"), headers=("[]",), insecure=("true",), follow_redirects=("true",), keyFile=("''", "'x'"), certFile=("''", "'x'"), keyPasswd=("''", "'x'"))
SETTERS = dict(setTimeout=("1", "-1"), setHeaders=("[]",), setInsecure=("true",), setFollowRedirects=("true",), setKeyFile=("''", "'x'"), setCertFile=("''", "'x'"), setKeyPass=("''", "'x'"))


def options(sh, item):
    w = mc.worker(item, env={"no_proxy": "*"})

    def gen():
        for o in OPTS:
            for a in BAD:
                src = "{ var c = HTTP.newClient({'%s': %s}); print(e(c.get(''))); }" % (o, a)
                yield ("option:%s:%s" % (o, a), src, "error\n" if a in GOODOPT[o] else mc.fails(mc.RUNTIME))
        for o, good in SETTERS.items():
            for n in (0, 1, 2):
                for a in it.product(BAD, repeat=n):
                    yield ("setter:%s:%s" % (o, a), "{ var c = HTTP.newClient({}); print(c.%s(%s)); print(e(c.get(''))); }" % (o, ", ".join(a)), "nil\nerror\n" if n == 1 and a[0] in good else mc.fails(mc.RUNTIME, None))
        for n in (0, 1, 2):
            for a in it.product(BAD, repeat=n):
                yield ("newClient:%s" % (a,), "{ var c = HTTP.newClient(%s); print(e(c.get(''))); }" % ", ".join(a), "error\n" if a == ("{}",) else mc.fails(mc.RUNTIME))
    mc.session(sh, w, list(gen()), prelude=pre(), flags=0, n=300)


# ---- certificates ----
def certs(sh, item):
    """a server that wants a client's certificate: key, certificate and password given as options or set later"""
    w = mc.worker(EXE, env={"no_proxy": "*"})
    F = dict(crt=TLS + "/client.crt", key=TLS + "/client.key", enc=TLS + "/client-enc.key", ocrt=TLS + "/other.crt", okey=TLS + "/other.key")

    def gen():
        for kind in (True, "client"):
            for ins in (None, False, True):
                for crt, key, pw in it.product((None, "crt", "ocrt"), (None, "key", "enc", "okey"), (None, "secret", "wrong")):
                    if (crt is None) != (key is None) or crt is None and pw:
                        continue
                    pair = (crt, key) in (("crt", "key"), ("ocrt", "okey")) or (crt, key, pw) == ("crt", "enc", "secret")
                    good = bool(ins) and (crt is None or pair) and (kind is True or crt == "crt")
                    for mode in ("options", "setters"):
                        if mode == "options":
                            o = ["'insecure': %s" % str(ins).lower()] if ins is not None else []
                            o += ["'%s': '%s'" % (n, v) for n, v in (("certFile", F.get(crt)), ("keyFile", F.get(key)), ("keyPasswd", pw)) if v]
                            mk = "var c = HTTP.newClient({%s});" % ", ".join(o)
                        else:
                            mk = "var c = HTTP.newClient({}); " + ("c.setInsecure(%s); " % str(ins).lower() if ins is not None else "")
                            mk += "".join("c.%s('%s'); " % (n, v) for n, v in (("setCertFile", F.get(crt)), ("setKeyFile", F.get(key)), ("setKeyPass", pw)) if v)
                        u = "https://127.0.0.1:%d/e" % server(kind).port
                        yield ("tls:%s:%s:%s:%s:%s:%s" % (kind, ins, crt, key, pw, mode), "{ %s print(e(c.get('%s'))); }" % (mk, u), "200 " + echoed("GET", "/e", None, "") + "\n" if good else "error\n")
                    if crt is None:
                        yield ("tls:static:%s" % kind, "print(e(HTTP.get('%s')));" % u, "error\n")
    part, parts = item
    mc.session(sh, w, [x for i, x in enumerate(gen()) if i % parts == part], prelude=pre(), flags=0, n=40)


# ---- constants ----
CODES = """CONTINUE SWITCHING_PROTOCOLS PROCESSING EARLY_HINTS OK CREATED ACCEPTED NONAUTHORITATIVE_INFO NO_CONTENT RESET_CONTENT PARTIAL_CONTENT MULTI_STATUS ALREADY_REPORTED IM_USED MULTIPLE_CHOICES
MOVED_PERMANENTLY FOUND SEE_OTHER NOT_MODIFIED USE_PROXY TEMPORARY_REDIRECT PERMANENT_REDIRECT BAD_REQUEST UNAUTHORIZED PAYMENT_REQUIRED FORBIDDEN NOT_FOUND METHOD_NOT_ALLOWED NOT_ACCEPTABLE
PROXY_AUTH_REQUIRED REQUEST_TIMEOUT CONFLICT GONE LENGTH_REQUIRED PRECONDITION_FAILED REQUEST_ENTITY_TOO_LARGE REQUEST_URI_TOO_LONG UNSUPPORTED_MEDIA_TYPE REQUESTED_RANGE_NOT_SATISFIABLE
EXPECTATION_FAILED TEAPOT MISDIRECTED_REQUEST UNPROCESSABLE_ENTITY LOCKED FAILED_DEPENDENCY TOO_EARLY UPGRADE_REQUIRED PRECONDITION_REQUIRED TOO_MANY_REQUESTS REQUEST_HEADER_FIELDS_TOO_LARGE
UNAVAILABLE_FOR_LEGAL_REASONS INTERNAL_SERVER_ERROR NOT_IMPLEMENTED BAD_GATEWAY SERVICE_UNAVAILABLE GATEWAY_TIMEOUT HTTP_VERSION_NOT_SUPPORTED VARIANT_ALSO_NEGOTIATES INSUFFICIENT_STORAGE
LOOP_DETECTED NOT_EXTENDED NETWORK_AUTHENTICATION_REQUIRED""".split()
REQUEST = """Accept Accept-Charset Accept-Datetime Accept-Encoding Accept-Language Authorization Cache-Control Connection Content-Encoding Content-Length Content-MD5 Content-Type Cookie Date Expect
Forwarded From Host HTTP2-Settings If-Match If-Modified-Since If-None-Match If-Range If-Unmodified-Since Max-Forwards Pragma Proxy-Authorization Range TE Trailer Transfer-Encoding User-Agent
Upgrade Warning""".split()
RESPONSE = """Access-Control-Allow-Origin Access-Control-Allow-Credentials Access-Control-Expose-Headers Access-Control-Max-Age Access-Control-Allow-Methods Access-Control-Allow-Headers Accept-Patch
Accept-Ranges Age Allow Alt-Svc Cache-Control Connection Content-Disposition Content-Encoding Content-Language Content-Length Content-Location Content-MD5 Content-Range Content-Type Date
Delta-Base ETag Expires IM Last-Modified Link Location P3P Pragma Proxy-Authenticate Public-Key-Pins Retry-After Set-Cookie Strict-Transport-Security Trailer Transfer-Encoding Tk Upgrade
Vary Via Warning WWW-Authenticate X-Frame-Options""".split()
NAMED = {"NONAUTHORITATIVE_INFO": "NON_AUTHORITATIVE_INFORMATION", "PROXY_AUTH_REQUIRED": "PROXY_AUTHENTICATION_REQUIRED", "TEAPOT": "IM_A_TEAPOT"}


def constants(sh, item):
    """methods, codes (against Python's table) and header names (the constant's name is the header's)"""
    w = mc.worker(EXE)
    items = [mc.P("const:METHOD_" + m, "HTTP.METHOD_" + m, m) for m in "GET POST PUT DELETE HEAD CONNECT OPTIONS TRACE PATCH".split()]
    items.append(mc.P("const:MAX_HEADER_BYTES", "HTTP.MAX_HEADER_BYTES", "1048576"))
    items += [mc.P("const:" + n, "HTTP.STATUS_CODE_" + n, "%d" % http.HTTPStatus[NAMED.get(n, n)]) for n in CODES]
    for kind, names in (("REQUEST", REQUEST), ("RESPONSE", RESPONSE)):
        items += [mc.P("const:%s_%s" % (kind, n), "HTTP.%s_HEADER_%s" % (kind, n.replace("-", "_").upper()), n) for n in names]
    mc.session(sh, w, items, prelude="import HTTP;", flags=0)


c.explore("constants", constants, [0])
c.explore("sizes", sizes, [(n, n + 10) for n in range(1, 131 if c.quick else 1201, 10)])
c.explore("grid", grid, [(i, 16) for i in range(16)])
c.explore("cuts", cuts, [(i, 16) for i in range(16)])
c.explore("big", big, [(EXE, (0, 0, 0), 10**7), (ASAN, (0, 0, 0), 10**7), (ASAN, (1, 0, 0), 100000)])
c.explore("special", special, [(i, 16) for i in range(16)])
NAMES = [o[0] for o in OPS] + [o[0] for o in CFG if o[1]]
c.explore("histories", history, [(f, d, EXE, (0, 0, 0), 0, 1) for d in (1, 2, 3) for f in NAMES] + ([] if c.quick else [(f, 4, EXE, (0, 0, 0), i, 8) for f in NAMES for i in range(8)]))
c.explore("collected", history, [(f, d, ASAN, (1, 0, 0), 0, 1) for d in (1, 2, 3) for f in NAMES])
c.explore("memory", released, [(i, 16) for i in range(16)])
c.explore("misuse", misuse, [(f, e) for f in ("get", "head", "options", "post", "put", "cget", "chead", "cpost", "cput", "coptions") for e in (EXE, ASAN)])
c.explore("options", options, [EXE, ASAN])
c.explore("certificates", certs, [(i, 8) for i in range(8)])
c.bounds["requests"] = "5 functions x static/client x %d lists of headers x up to %d bodies x timeout" % (len(HEADERS), len(STRINGS) + len(DICTS) + 1)
c.bounds["answers"] = "%d answers of the grammar version x status x headers x body x framing; %d answers cut at or split before every byte; sizes to 1 MB" % (len(GRID), len(CUTS))
c.bounds["histories"] = "all histories of %d client operations up to length %d; up to 3 under AddressSanitizer with a collection at every allocation" % (len(NAMES), c.pick(3, 4))
c.finish()

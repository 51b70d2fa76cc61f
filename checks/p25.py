"""P25: base64, SHA-256, HMAC, bcrypt: every message length over several blocks and every key length around the block size, all short texts for the decoder, against Python's and libcrypt's implementations."""
import os, sys, base64, hashlib, hmac, itertools as it, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P25", rule="one encoding, decoding, digest, password or comparison; non-trivial = distinct (call, outcome)",
             assumptions=["the value decode() gives for text that is not base64 is not judged, only that it is a string no longer than 3/4 of the text (or an error), the same each time, and reads nothing else", "bcrypt passwords have no NUL byte, rounds are at most 7"])
EXE = c.build("plain")
ASAN = c.build("asan")
PRE = """import Base64; import Hashlib; var r; var t; var e;
def zT(k, a, b) { if (type(a) != type(b) or a != b) { print(k); print(a); } }
"""


def lit(b):
    return '"' + "".join(chr(x) if 32 <= x < 127 and x not in (34, 92) else "\\x%02x" % x for x in b) + '"'


FILL = [lambda n: bytes((i * 7 + 3) & 255 for i in range(n)), lambda n: b"\xff" * n, lambda n: b"\0" * n, lambda n: bytes(97 + (i % 26) for i in range(n)), lambda n: b"a" * (n - 1) + b"\0" if n else b"", lambda n: bytes((255 - i) & 255 for i in range(n))]


def group(part, per, one):
    for k in range(0, len(part), per):
        yield "%s" % ascii(part[k])[:60], "".join(one(*x) for x in part[k:k + per]), ""


# ---------------------------------------------------------------- base64
def b64(sh, item):
    kind, part = item

    def one(b):
        x = base64.b64encode(b)
        return "zT('encode', Base64.encode(%s), %s); zT('decode', Base64.decode(%s), %s);" % (lit(b), lit(x), lit(x), lit(b))
    items = list(group([(b,) for b in part], 16, one))
    items = [("b64:" + k, s, e) for k, s, e in items]
    mc.session(sh, mc.worker(ASAN if kind == "asan" else EXE), items, prelude=PRE, flags=0, by_source=True, n=1800)


EDGE = [0, 1, 3, 15, 16, 63, 64, 127, 128, 192, 240, 252, 255, 65]
msgs = [f(n) for n in range(0, c.pick(200, 1000)) for f in FILL]
one2 = [bytes(t) for n in (1, 2) for t in it.product(range(256), repeat=n)]
three = [bytes(t) for t in it.product(EDGE if c.quick else EDGE + [2, 4, 7, 31, 32, 48, 96, 224, 248, 254, 61, 43, 47], repeat=3)]
four = [bytes(t) for t in it.product(EDGE[:9], repeat=4)] + [bytes(t) for t in it.product((0, 255, 97), repeat=6)]
c.explore("base64", b64, [("asan", p) for p in mc.chunks(msgs, 300)] + [("plain", p) for p in mc.chunks(one2, 6000)] + [("plain", p) for p in mc.chunks(three + four, 3000)] + [("asan", [b"\xab" * n for n in (4095, 4096, 4097)])])


def un64(sh, item):
    """text that may or may not be base64"""
    alpha, n, pre, post = item
    items, ok, odd = [], [], []
    for t in it.product(alpha, repeat=n):
        s = pre + bytes(t) + post
        canon = None
        try:
            v = base64.b64decode(s, validate=True)
            if base64.b64encode(v) == s:
                canon = v
        except Exception:
            pass
        if canon is not None:
            ok.append((s, canon))
        else:
            odd.append((s,))
    for k, s, e in group(ok, 30, lambda s, v: "zT('decode', Base64.decode(%s), %s);" % (lit(s), lit(v))):
        items.append(("ok:" + k, s, e))
    for k, s, e in group(odd, 30, lambda s: "zU(%s);" % lit(s)):
        items.append(("odd:" + k, s, e))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE + "def zU(s) { const a = Base64.decode(s); const b = Base64.decode(s); if (type(a) == 'result') { if (a.success()) { print('a success'); } return; } if (a != b or type(a) != 'string' or a.len() * 4 > s.len() * 3) { print(s); } }\n", flags=0, by_source=True)


def sp(alpha, n, pre=b"", post=b""):
    return [(alpha, k, pre, post) for k in range(n + 1)]


c.explore("base64 text", un64, sp(b"AQ/+=\n", c.pick(5, 6)) + sp(b"AZaz09+/=-_ ", 3) + [(b"Agw=", 4, x, y) for x in (b"AAAA", b"QQ==", b"=", b"A") for y in (b"", b"QUI=", b"=")] + [(bytes(range(256)), 1, x, y) for x, y in ((b"", b"AAA"), (b"A", b"AA"), (b"AA", b"A"), (b"AAA", b""), (b"", b""))])


# ---------------------------------------------------------------- digests
def digests(sh, item):
    kind, part = item
    items = []
    for k, s, e in group([(b,) for b in part], 8, lambda b: "zT('sha256', Hashlib.sha256(%s), '%s');" % (lit(b), hashlib.sha256(b).hexdigest())):
        items.append(("sha:" + k, s, e))
    mc.session(sh, mc.worker(ASAN if kind == "asan" else EXE), items, prelude=PRE, flags=0, by_source=True)


smsg = [f(n) for n in range(0, c.pick(400, 1400)) for f in FILL]
c.explore("sha256", digests, [("asan", p) for p in mc.chunks(smsg, 300)] + [("plain", p) for p in mc.chunks(one2[:: c.pick(5, 1)] + three, 4000)])


def macs(sh, item):
    part, = item
    items = []

    def one(k, m):
        d = hmac.new(k, m, "sha256")
        return "zT('hmac', Hashlib.hmac(%s, %s), '%s'); zT('hmac', Hashlib.hmac(%s, %s, false), '%s'); zT('raw', Hashlib.hmac(%s, %s, true), %s);" % (lit(k), lit(m), d.hexdigest(), lit(k), lit(m), d.hexdigest(), lit(k), lit(m), lit(d.digest()))
    for k, s, e in group(part, 6, one):
        items.append(("hmac:" + k, s, e))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0, by_source=True)


ML = [0, 1, 31, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129]
kms = [(FILL[0](k), FILL[5](m)) for k in range(0, c.pick(140, 300)) for m in ML] + [(f(k), g(m)) for k in (0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 200) for f in FILL for g in FILL for m in (0, 3, 55, 64)]
kms += [(FILL[0](k), FILL[3](m)) for k in (0, 1, 63, 64, 65) for m in range(0, c.pick(140, 300))]
c.explore("hmac", macs, [(p,) for p in mc.chunks(kms, 300)])


def large(sh, item):
    items = []
    for lg in range(10, 22):
        n = 2 ** lg
        b = (b"0123456789abcde\xff" * (n // 16))
        items.append(("large:%d" % n, "t = '0123456789abcde\\xff'; while (t.len() < %d) { t += t; } zT('sha', Hashlib.sha256(t), '%s'); zT('hmac', Hashlib.hmac(t, t), '%s'); e = Base64.encode(t + 'xy'); zT('b64', Hashlib.sha256(e), '%s'); zT('back', Base64.decode(e), t + 'xy');" % (n, hashlib.sha256(b).hexdigest(), hmac.new(b, b, "sha256").hexdigest(), hashlib.sha256(base64.b64encode(b + b"xy")).hexdigest()), ""))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True, timeout=120)


c.explore("large messages", large, [0])


# ---------------------------------------------------------------- comparison
def compare(sh, item):
    items, pairs = [], []
    base = hashlib.sha256(b"x").hexdigest().encode()
    for n in (1, 2, 3, 8, 31, 32, 33, 64):
        b = base[:n]
        pairs += [(b, b), (b, b + b"\0"), (b, b[:-1]), (b, b""), (b"\0" + b, b"\0" + b), (b"\0" + b, b"\0" + b[:-1] + b"z")]
        for i in range(n):
            for bit in range(8):
                pairs.append((b, b[:i] + bytes([b[i] ^ (1 << bit)]) + b[i + 1:]))
            for j in range(i + 1, min(n, i + 4)):
                x = bytearray(b)
                x[i] ^= 0x81
                x[j] ^= 0x81
                pairs.append((b, bytes(x)))
    pairs += [(bytes(a), bytes(b)) for n in (0, 1, 2, 3) for m in (0, 1, 2, 3) for a in it.product((0, 1, 128, 255), repeat=n) for b in it.product((0, 1, 128, 255), repeat=m)]
    for k, s, e in group(pairs, 25, lambda a, b: "zT('verify', Hashlib.verify(%s, %s), %s);" % (lit(a), lit(b), "true" if a == b else "false")):
        items.append(("verify:" + k, s, e))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0, by_source=True)


c.explore("verify", compare, [0])


# ---------------------------------------------------------------- bcrypt
def xcrypt(pw, setting):
    import crypt, ctypes
    global LC
    try:
        LC
    except NameError:
        LC = ctypes.CDLL("libcrypt.so.1")
        LC.crypt.restype = ctypes.c_char_p
    r = LC.crypt(pw, setting)
    return None if r is None or r[:1] == b"*" else r


def passwords(sh, item):
    part, = item
    items = []
    for pw, ver, rounds, salt in part:
        h = xcrypt(pw, b"$2%s$%02d$" % (ver, rounds) + salt)
        if h is None:
            sh.violate("oracle:%r" % pw, "libcrypt gave no hash")
            continue
        wrong = [pw[:-1], pw + b"a", b"Z" + pw[1:]] if len(pw) < 70 else [b"Z" + pw[1:], pw[:71] + b"\x01" if len(pw) >= 72 else pw + b"~"]
        wrong = [x for x in wrong if x != pw and x[:72] != pw[:72]]
        src = "zT('good', Hashlib.bcryptVerify(%s, %s), true);" % (lit(pw), lit(h)) + "".join("zT('bad', Hashlib.bcryptVerify(%s, %s), false);" % (lit(x), lit(h)) for x in wrong)
        items.append(("pw:%r:%s:%d" % (pw[:30], ver, rounds), src, ""))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True, timeout=300)


SALT = [b"abcdefghijklmnopqrstuu", b"......................", b"99999999999999999999./", b"zZ09./aAbBcCdDeEfFgGhe"]
SALT = [s[:21] + b"." for s in SALT]
pws = [(FILL[3](n), v, 4, SALT[n % 4]) for n in range(0, 76) for v in (b"b", b"a")] + [(b"\xff" * n, b"b", 4, SALT[0]) for n in (1, 2, 3, 18, 71, 72, 73, 200, 255, 256, 257, 300)] + [(bytes([x]), b"b", 4, SALT[1]) for x in range(1, 256, c.pick(8, 1))] + [(b"pw", b"b", k, s) for k in (4, 5, 6, 7) for s in SALT] + [(b"a\x80b", b"b", 4, SALT[2]), ("pässwörd".encode(), b"a", 4, SALT[3])]
c.explore("bcryptVerify", passwords, [(p,) for p in mc.chunks(pws, 30)])


def made(sh, item):
    """what bcrypt() makes is what libcrypt makes of its salt"""
    part, = item
    w = mc.worker(EXE)
    res = w.run([("b", PRE + "".join("print(Hashlib.bcrypt(%s%s));" % (lit(p), "" if r is None else ", %d" % r) for p, r in part))], flags=0, timeout=200)
    out = res.out.split(b"\n") if isinstance(res.out, bytes) else res.out.encode("latin-1").split(b"\n")
    salts = set()
    for (p, r), h in zip(part, out):
        want = 8 if r is None else max(4, r)
        ok = h.startswith(b"$2b$%02d$" % want) and len(h) == 60 and xcrypt(p, h) == h and h[7:29] not in salts
        salts.add(h[7:29])
        sh.state("%r%s" % (p, want))
        sh.transitions += 1
        if not ok:
            sh.violate("made:%r:%r" % (p, r), "bcrypt(%r, %r) gave %r" % (p, r, h), program="import Hashlib; print(Hashlib.bcrypt(%s%s));" % (lit(p), "" if r is None else ", %d" % r))
    if len(out) != len(part) + 1:
        sh.violate("made", "bcrypt stopped after %d of %d: %r" % (len(out) - 1, len(part), res.err))


ps = [(FILL[3](n), r) for n in (0, 1, 2, 8, 55, 56, 71, 72, 73, 100) for r in (4, 5)] + [(b"x", r) for r in (0, 1, 2, 3, 6, 7)] + [(b"x", None), (b"", None), (b"\xff\xfe", 4), (b"same", 4), (b"same", 4)]
c.explore("bcrypt", made, [(p,) for p in mc.chunks(ps, 4)])


def broken(sh, item):
    """texts that are no hash verify nothing and are read within their bounds"""
    items, ts = [], []
    h = xcrypt(b"pw", b"$2b$04$" + SALT[0])
    ts += [h[:n] for n in range(len(h))] + [h + x for x in (b"a", b"\n", b" ", b"$")]
    for i in range(len(h)):
        # position 28 holds two significant bits only, others must be exact
        for x in b"\x01$.\x80\xff" + (b"a/Z9" if i in (0, 1, 2, 3, 6) or i > 29 else b""):
            y = h[:i] + bytes([x]) + h[i + 1:]
            if y[:4] == b"$2a$":
                continue
            if y != h and y[4:6] in (b"04", b"0\x01") or y != h and not y[4:6].isdigit():
                ts.append(y)
    ts += [b"$2b$04$", b"$2b$04$\x80" * 8, b"$2b$03$" + h[7:], b"$2b$32$" + h[7:], b"$2b$99$" + h[7:], b"$2x$04$" + h[7:], b"$2$04$" + h[7:], b"wrong", b"", b"$" * 60, b"$2b$04$" + b"." * 21, b"$2b$04$" + b"." * 20 + b"\xff\xff"]
    for k, s, e in group([(t,) for t in ts], 10, lambda t: "zT('broken', Hashlib.bcryptVerify('pw', %s), false);" % lit(t)):
        items.append(("broken:" + k, s, e))
    for f, n in (("Base64.encode", 1), ("Base64.decode", 1), ("Hashlib.sha256", 1), ("Hashlib.bcryptVerify", 2), ("Hashlib.verify", 2), ("Hashlib.hmac", 2)):
        for a in ("nil", "1", "[]", "true", "{}"):
            for i in range(n):
                args = ["'a'"] * n
                args[i] = a
                items.append(("misuse:%s:%s:%d" % (f, a, i), "%s(%s);" % (f, ", ".join(args)), fails(out="")))
        for k in range(0, 5):
            if k != n and not (f == "Hashlib.hmac" and k == 3):
                items.append(("count:%s:%d" % (f, k), "%s(%s);" % (f, ", ".join(["'a'"] * k)), fails(out="")))
    items += [("misuse:bcrypt:%s" % a, "Hashlib.bcrypt(%s);" % a, fails(out="")) for a in ("", "1", "nil", "'a', 'b'", "'a', nil", "'a', 4, 4")] + [("misuse:hmac3:%s" % a, "Hashlib.hmac('a', 'b', %s);" % a, fails(out="")) for a in ("1", "nil", "'x'")]
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0, by_source=True, timeout=200)


c.explore("no hash", broken, [0])
c.bounds = {"message length": c.pick(400, 1400), "key length": c.pick(140, 300), "decoder text length": c.pick(5, 6), "bcrypt password length": 76}
c.finish()

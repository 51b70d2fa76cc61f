"""P22: buffers: every width, byte order, offset and boundary value on small buffers, every byte pattern read back, and histories, against a byte array."""
import os, sys, math, struct, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P22", rule="one access to a buffer of given contents, or a history of them; non-trivial = distinct (access, contents, value)",
             assumptions=["an index with a fraction is either truncated or refused; a value outside of the range of the written type changes only the bytes written"])
EXE = c.build("plain")
ASAN = c.build("asan")
PRE = """import Buffer; var b; var r; var e; var t;
def zShow(r) { if (not r.success()) { print('error'); } else { const v = r.unwrap(); if (type(v) == 'number' and v != v) { print('nan'); } else { print(v); } } }
"""
INTS = {"UInt64": (8, "Q"), "UInt32": (4, "I"), "UInt16": (2, "H"), "Int64": (8, "q"), "Int32": (4, "i"), "Int16": (2, "h")}
FLTS = {"Float": (4, "f"), "Double": (8, "d")}
TYPES = [(n + e, w, ("<" if e == "LE" else ">") + f) for d in (INTS, FLTS) for n, (w, f) in d.items() for e in ("LE", "BE")] + [("Int8", 1, "<b")]
BAD = ["-1", "-0.5", "1e10", "1e300", "-1e300", "2147483647", "2147483648", "4294967296", "-2147483649", "18446744073709551616", "0/0", "1/0", "-1/0", "-9007199254740992"]
lit = lambda s: '"' + "".join("\\x%02x" % x for x in s) + '"'
lst = lambda s: "[" + ", ".join(map(str, s)) + "]"
MAXI = 1 << 53


def num(v):
    if v != v:
        return "(0/0)"
    if isinstance(v, float) and abs(v) == math.inf:
        return "(1/0)" if v > 0 else "(-1/0)"
    t = repr(v).replace("e+", "e")
    return "(%s)" % t if t.startswith("-") else t


def shown(v):
    return "nan" if v != v else mc.fmt(v)


def values(name, w, f):
    """in-range values"""
    k = f[1]
    if k == "f":
        xs = [0.0, 1.0, -1.0, 0.5, 14.25, -0.1, 1e-45, 3.4e38, 1e39, -1e39, 65504.0, 16777217.0, math.inf, -math.inf, math.nan, 1e-320]
    elif k == "d":
        xs = [0.0, 1.0, -1.0, 0.1, -14.34, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, math.inf, -math.inf, math.nan, 1e300, 2.0 ** 64]
        # values whose bytes, in the other order, look like something that is no number
        xs += [struct.unpack(">d", bytes(p))[0] for p in ([1, 2, 3, 4, 5, 6, 0xfc, 0xff], [0, 0, 0, 0, 0, 0, 0xfc, 0x7f], [3, 0, 0, 0, 0, 0, 0xfc, 0x7f], [16, 0, 0, 0, 0, 0, 0xfc, 0xff])]
    else:
        bits = w * 8
        top = (1 << bits) - 1 if k.isupper() else (1 << (bits - 1)) - 1
        low = 0 if k.isupper() else -(1 << (bits - 1))
        xs = [0, 1, 127, 128, 255, 256, 0x1234, 32767, 32768, 65535, 65536, 0x12345678, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 0x123456789ABCDE, MAXI - 1, MAXI, 0xFC07, 0x7FFC, -1, -2, -128, -129, -32768, -32769, -(1 << 31), -(1 << 31) - 1, -MAXI]
        xs = [x for x in xs if low <= x <= top]
    return xs


def enc(f, v):
    if f[1] == "f":
        try:
            return struct.pack(f, v)
        except OverflowError:
            return struct.pack(f, math.copysign(math.inf, v))
    return struct.pack(f, v)


def dec(f, bs):
    v = struct.unpack(f, bs)[0]
    return None if f[1] in "qQ" and abs(v) > MAXI else v


def pat(n, k=0):
    return bytes((0xA1 + 17 * i + 29 * k) & 0xFF or 1 for i in range(n))


# ---------------------------------------------------------------- writes
def writes(sh, item):
    (name, w, f), sizes = item
    items = []
    for n in sizes:
        p = pat(n)
        for off in list(range(0, n + 2)) + BAD:
            good = isinstance(off, int) and off + w <= n
            for v in values(name, w, f) if good else values(name, w, f)[:2]:
                q = p
                if good:
                    e = enc(f, v)
                    q = p[:off] + e + p[off + w:]
                    ret = shown(struct.unpack(f, e)[0])
                else:
                    ret = "error"
                items.append(("write:%s:%d:%s:%s" % (name, n, off, v), "b = Buffer.fromString(%s).unwrap(); zShow(b.write%s(%s, %s)); print(b.values());" % (lit(p), name, off, num(v)), "%s\n%s\n" % (ret, lst(q))))
            if good and f[1] not in "fd":
                # out of range: the other bytes stay
                for v in ("1e300", "-1e300", "0/0", "1/0", "1e20", "-1", "70000"):
                    items.append(("range:%s:%d:%s:%s" % (name, n, off, v), "b = Buffer.fromString(%s).unwrap(); b.write%s(%s, %s); r = b.values(); print(r[0:%d]); print(r[%d:%d]);" % (lit(p), name, off, v, off, off + w, n),
                                  "%s\n%s\n" % (lst(p[:off]), lst(p[off + w:]))))
    for n in (4, 9):
        for off in ("0.5", "1.25", "%d.5" % (n - w), "%d.5" % (n - w - 1), "%d.25" % (n - 1)):
            if off[0] == "-":
                continue
            k = int(float(off))
            p = pat(n)
            v = values(name, w, f)[1]
            ok = ["error\n%s\n" % lst(p)]
            if k + w <= n:
                ok.append("%s\n%s\n" % (shown(v), lst(p[:k] + enc(f, v) + p[k + w:])))
            items.append(("fraction:%s:%d:%s" % (name, n, off), "b = Buffer.fromString(%s).unwrap(); zShow(b.write%s(%s, %s)); print(b.values());" % (lit(p), name, off, num(v)), ok))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0, by_source=True)


c.explore("write", writes, [(t, s) for t in TYPES for s in ((1, 2, 3, 4), (5, 7, 8), (9, 16))])


# ---------------------------------------------------------------- reads of every pattern
def patterns(w, f):
    if f[1] in "fd":
        hi = (0x00, 0x01, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc3, 0xff) if c.quick else range(256)
        for a in hi:
            for b in range(0, 256, 1 if c.quick else 1):
                for fill in (0, 1, 0xff) if c.quick else (0, 1, 0x5a, 0xff):
                    yield bytes([a, b] + [fill] * (w - 2))
        return
    vals = (0x00, 0x01, 0x7f, 0x80, 0xff, 0xfc)
    if w <= 2:
        yield from (bytes(t) for t in it.product(range(256) if not c.quick else range(0, 256, 5), repeat=w))
    elif w == 4:
        yield from (bytes(t) for t in it.product(vals if c.quick else vals + (0x12,), repeat=4))
    else:
        for base in (0x00, 0xff, 0x5a):
            for i, j, k in it.combinations(range(8), 3):
                for t in it.product((0x00, 0x01, 0x20, 0x1f, 0x80, 0xff), repeat=3):
                    p = [base] * 8
                    p[i], p[j], p[k] = t
                    yield bytes(p)


def reads(sh, item):
    (name, w, f), part, off = item
    items = []
    for i in range(0, len(part), 16):
        src, exp = [], []
        for raw in part[i:i + 16]:
            bs = raw if f[0] == ">" else raw[::-1]
            p = pat(off) + bs + b"\x77"
            v = dec(f, bs)
            src.append("b = Buffer.fromString(%s).unwrap(); zShow(b.read%s(%d));" % (lit(p), name, off))
            exp.append("error" if v is None else shown(v))
            if f[1] in "fd" and v == v:
                src.append("e = Buffer.new(%d).unwrap(); e.write%s(0, b.read%s(%d).unwrap()); print(e.string() == %s);" % (w, name, name, off, lit(bs)))
                exp.append("true")
        items.append(("read:%s:%d:%s" % (name, off, part[i].hex()), " ".join(src), "\n".join(exp) + "\n"))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True, n=1000)


c.explore("read", reads, [(t, ch, off) for t in TYPES for off in (0, 3) for ch in mc.chunks(list(dict.fromkeys(patterns(t[1], t[2]))), 6000)])


def readoffs(sh, item):
    items = []
    for n in range(1, 18):
        p = bytes(0x11 + i if i % 8 else 0 for i in range(n))
        for name, w, f in TYPES:
            src, exp = [], []
            for off in list(range(0, n + 2)) + BAD[:8] + ["0/0", "1/0"]:
                v = None
                if isinstance(off, int) and off + w <= n:
                    v = dec(f, p[off:off + w])
                src.append("zShow(b.read%s(%s));" % (name, off))
                exp.append("error" if v is None else shown(v))
            items.append(("offs:%s:%d" % (name, n), "b = Buffer.fromString(%s).unwrap(); " % lit(p) + " ".join(src) + " print(b.values());", "\n".join(exp) + "\n" + lst(p) + "\n"))
        src, exp = [], []
        for off in list(range(0, n + 2)) + BAD:
            src.append("zShow(b.get(%s));" % off)
            exp.append(str(p[off]) if isinstance(off, int) and off < n else "error")
        items.append(("get:%d" % n, "b = Buffer.fromString(%s).unwrap(); " % lit(p) + " ".join(src), "\n".join(exp) + "\n"))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0, by_source=True)


c.explore("read offsets", readoffs, [0])


# ---------------------------------------------------------------- bytes and strings
def bytesops(sh, item):
    items = []
    for n in range(1, 7):
        p = pat(n)
        B = "b = Buffer.fromString(%s).unwrap(); " % lit(p)
        for off in list(range(0, n + 2)) + BAD:
            for v in (0, 1, 127, 128, 255):
                q = p[:off] + bytes([v]) + p[off + 1:] if isinstance(off, int) and off < n else None
                items.append(("set:%d:%s:%d" % (n, off, v), B + "zShow(b.set(%s, %d)); print(b.values());" % (off, v), "%s\n%s\n" % ("error" if q is None else v, lst(q or p))))
            for s in (b"", b"x", b"\0", b"yz", b"a\0b", b"\xff\0\0\xff", b"12345", b"123456", b"1234567"):
                if isinstance(off, int) and off < n and off + len(s) <= n:
                    exp = "nil\n%s\n" % lst(p[:off] + s + p[off + len(s):])
                elif isinstance(off, int) and off == n and s == b"":
                    exp = ["nil\n%s\n" % lst(p), "error\n%s\n" % lst(p)]
                else:
                    exp = "error\n%s\n" % lst(p)
                items.append(("writeString:%d:%s:%r" % (n, off, s), B + "zShow(b.writeString(%s, %s)); print(b.values());" % (off, lit(s)), exp))
        offs = [None] + list(range(0, n + 2)) + BAD[:4] + ["0/0", "1/0", "-1/0"]
        for a in offs:
            for z in offs if a is not None else [None]:
                args = ", ".join(str(x) for x in (a, z) if x is not None)
                lo, hi = 0 if a is None else a, n if z is None else z
                ok = isinstance(lo, int) and isinstance(hi, int) and lo < hi <= n
                q = p[lo:hi] if ok else None
                items.append(("readString:%d:%s" % (n, args), B + "r = b.readString(%s); print(r.success() ? (r.unwrap() == %s and r.unwrap().len() == %d) : 'error'); print(b.values());" % (args, lit(q or b""), len(q or b"")), "%s\n%s\n" % ("error" if q is None else "true", lst(p))))
                items.append(("subarray:%d:%s" % (n, args), B + "r = b.subarray(%s); if (r.success()) { r = r.unwrap(); print(r.values()); print(r.len()); r.set(0, 7); } else { print('error'); } print(b.values());" % args, "%s\n%s\n" % ("error" if q is None else lst(q) + "\n%d" % len(q), lst(p))))
        for m in list(range(1, 12)) + [100, 0] + BAD[:5] + ["0/0", "1/0", "-1/0"]:
            ok = isinstance(m, int) and m > 0
            q = (p + bytes(m))[:m] if ok else p
            items.append(("resize:%d:%s" % (n, m), B + "r = b.resize(%s); print(r.success()); print(b.len()); print(b.values()); r = b.resize(%d); print(b.values());" % (m, n), "%s\n%d\n%s\n%s\n" % ("true" if ok else "false", len(q), lst(q), lst((q + bytes(n))[:n]))))
        items.append(("string:%d" % n, B + "print(b.string() == %s); print(b.string().len()); print(b.len()); b.set(0, 0); print(b.string() == %s); print(b.string().len()); print(b);" % (lit(p), lit(b"\0" + p[1:])), "true\n%d\n%d\ntrue\n%d\n<Buffer>\n" % (n, n, n)))
    for m in list(range(1, 20)) + [1000, 100000]:
        items.append(("new:%d" % m, "b = Buffer.new(%d).unwrap(); print(b.len()); r = 0; b.values().forEach(def (x) => { r += x; }); print(r); print(b.values().len()); print(b.string().len());" % m, "%d\n0\n%d\n%d\n" % (m, m, m)))
    for t in ["0", "-0"] + BAD[:5] + ["2147483647", "0/0", "1/0", "-1/0"]:
        items.append(("new:%s" % t, "print(Buffer.new(%s).success());" % t, "false\n"))
    items.append(("fromString:", "print(Buffer.fromString('').success()); b = Buffer.fromString('a\\x00b\\xff').unwrap(); print(b.values());", "false\n[97, 0, 98, 255]\n"))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0, by_source=True)


c.explore("bytes", bytesops, [0])


# ---------------------------------------------------------------- histories
def hist_(sh, item):
    n, first, depth = item
    ops = []

    def w(name, off, v):
        _, wd, f = next(t for t in TYPES if t[0] == name)

        def fn(s):
            if off + wd > len(s):
                return s, "error"
            return s[:off] + enc(f, v) + s[off + wd:], shown(struct.unpack(f, enc(f, v))[0])
        return ("b.write%s(%d, %s)" % (name, off, num(v)), fn)

    def resize(m):
        return ("b.resize(%d)" % m, lambda s: ((s + bytes(m))[:m], None))

    def ws(off, t):
        return ("b.writeString(%d, %s)" % (off, lit(t)), lambda s: (s[:off] + t + s[off + len(t):], "nil") if off < len(s) and off + len(t) <= len(s) else (s, "error"))

    def rd(name, off):
        _, wd, f = next(t for t in TYPES if t[0] == name)

        def fn(s):
            v = dec(f, s[off:off + wd]) if off + wd <= len(s) else None
            return s, "error" if v is None else shown(v)
        return ("b.read%s(%d)" % (name, off), fn)

    def sub(a, z):
        return ("(b = b.subarray(%d, %d).unwrap())" % (a, z), lambda s: (s[a:z], None) if a < z <= len(s) else None)
    ops = [w("UInt16LE", 0, 0x1234), w("UInt16BE", 1, 0xFC07), w("Int32LE", 0, -2), w("Int32BE", 3, 0x01020304), w("Int8", 2, -7), w("DoubleLE", 0, -1.5), w("DoubleBE", 0, 3.25), w("FloatBE", 2, 0.5), w("UInt64BE", 0, 0x10203040506),
           w("Int64LE", 0, -5), ws(0, b"ab"), ws(2, b"\0x\xff"), resize(2), resize(5), resize(8), resize(11), rd("UInt16LE", 1), rd("Int32BE", 1), rd("DoubleLE", 0), sub(0, 2), sub(1, 5)]
    items = []

    def go(path, code, s, outs, d):
        for i, (t, fn) in enumerate(ops):
            if d == 0 and i != first:
                continue
            r = fn(s)
            if r is None:
                continue
            st, res = r
            src = code + (("r = %s; " % t) if res is None else "zShow(%s); " % t)
            o = outs + ([] if res is None else [res])
            if d + 1 == depth:
                items.append(("hist:%d:%s" % (n, ".".join(map(str, path + (i,)))), src + "print(b.values());", "\n".join(o + [lst(st)]) + "\n"))
            else:
                go(path + (i,), src, st, o, d + 1)
    go((), "b = Buffer.new(%d).unwrap(); " % n, bytes(n), [], 0)
    mc.session(sh, mc.worker(EXE if len(items) > 3000 else ASAN), items, prelude=PRE, flags=0, n=1800)


c.explore("histories", hist_, [(n, i, d) for n in (1, 4, 8, 9) for i in range(21) for d in (1, 2, c.pick(3, 4))])


# ---------------------------------------------------------------- misuse changes nothing
def misuse(sh, item):
    items = []
    B = "b = Buffer.fromString('abcdefgh').unwrap(); "
    for name, w, f in TYPES:
        for a in ("", "0", "0, 1, 2", "'0', 1", "0, '1'", "nil, 1", "0, nil", "[0], 1", "true, 1"):
            items.append(("bad:write%s(%s)" % (name, a), B + "b.write%s(%s);" % (name, a), fails(out="")))
            items.append(("after:write%s(%s)" % (name, a), "print(b.string()); print(b.writeUInt16LE(0, 258).unwrap()); print(b.get(0).unwrap()); print(b.readUInt16LE(0).unwrap());", "abcdefgh\n258\n2\n258\n"))
        for a in ("", "0, 1", "'0'", "nil", "[0]", "true"):
            items.append(("bad:read%s(%s)" % (name, a), B + "b.read%s(%s);" % (name, a), fails(out="")))
            items.append(("after:read%s(%s)" % (name, a), "print(b.string()); print(b.writeUInt16LE(0, 258).unwrap()); print(b.get(0).unwrap()); print(b.readUInt16LE(0).unwrap());", "abcdefgh\n258\n2\n258\n"))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0)


def longer(sh, item):
    """buffers of every length, of bytes of every value, by every route"""
    items = []
    for n in item:
        for m, add in ((1, 0), (37, 200), (101, 5)):
            items.append(("longer:%d:%d" % (n, m), """b = Buffer.new(%d).unwrap(); var e = 0; for (var i = 0; i < %d; i += 1) { b.set(i, (i * %d + %d) %% 256).unwrap(); }
var v = b.values(); if (v.len() != %d or b.len() != %d) { e += 1; } for (var i = 0; i < v.len(); i += 1) { const x = (i * %d + %d) %% 256; if (v[i] != x or b.get(i).unwrap() != x) { e += 1; } }
var s = b.string(); var d = Buffer.fromString(s).unwrap(); if (s.len() != %d or d.values() != v or d.string() != s) { e += 1; }
for (var i = 1; i <= %d; i += 7) { const t = b.subarray(%d - i, %d).unwrap(); const u = b.readString(%d - i, %d).unwrap(); if (t.len() != i or t.values() != v[%d - i:] or u != s[%d - i:] or t.string() != u) { e += 1; } }
d.resize(%d * 2 + 3).unwrap(); const w = d.values(); if (w.len() != %d * 2 + 3 or w[:%d] != v) { e += 1; } for (var i = %d; i < w.len(); i += 1) { if (w[i] != 0) { e += 1; } }
d.writeString(%d, s); if (d.values()[%d:%d] != v or d.values()[:%d] != v) { e += 1; } d.resize(%d).unwrap(); if (d.values() != v) { e += 1; } print(e);""".replace("%d, (i", "%d, (i") % ((n, n, m, add, n, n, m, add, n) + (n,) * 7 + (n, n, n, n) + (n, n, 2 * n, n, n)), "0\n"))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, n=60)


c.explore("longer", longer, mc.chunks(list(range(1, c.pick(90, 400))) + [127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 383, 511, 512, 513, c.pick(1000, 5000)], 12))


c.explore("misuse", misuse, [0])
c.bounds = {"sizes": "1..17", "history depth": c.pick(3, 4), "offsets": "all from 0 to size + 1, plus negative, fractional, huge and not-a-number"}
c.finish()

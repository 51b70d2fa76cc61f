"""P23: BigInt: all pairs of operands over word patterns, lengths and signs, all short texts, conversions and chains, against exact integers."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P23", rule="one operation on two integers; non-trivial = distinct (operands, results)",
             assumptions=["quotients are truncated towards zero and remainders have the sign of the dividend", "the values of bitwise operations are specified for operands that are not negative; for others the laws of and, or and xor are"])
EXE = c.build("plain")
ASAN = c.build("asan")
PRE = """import BigInt; var a; var b; var r; var t;
def zT(r) { if (type(r) == 'number') { return '{} '.format(r); } if (not r.success()) { return 'E '; } return '{} '.format(r.unwrap()); }
def zArith(a, b) { return zT(a.add(b)) + zT(a.subtract(b)) + zT(a.multiply(b)) + zT(a.divide(b)) + zT(a.modulo(b)) + zT(a.compare(b)); }
def zBits(a, b) { return zT(a.bitwiseAnd(b)) + zT(a.bitwiseOr(b)) + zT(a.bitwiseXor(b)); }
def zOne(a) { return zT(a.negate()) + zT(a.abs()); }
// results are usable: equal to the same number written out
def zSame(r, s) { if (r.success() and r.unwrap().compare(BigInt.new(s)) != 0) { print('not equal to ' + s); } return true; }
def zPair(x, y, bits) { const a = BigInt.new(x).unwrap(); const b = BigInt.new(y).unwrap(); var t = zArith(a, b) + (bits ? zBits(a, b) : '') + zOne(a);
  if ('{}'.format(a) != x or '{}'.format(b) != y) { print('changed'); } return t; }
"""


def arith(x, y):
    q = m = "E"
    if y:
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        m = x - q * y
    return "%d %d %d %s %s %d " % (x + y, x - y, x * y, q, m, (x > y) - (x < y))


def bits(x, y):
    return "%d %d %d " % (x & y, x | y, x ^ y)


def row(key, x, ys):
    src, exp = [], []
    for y in ys:
        nb = x >= 0 and y >= 0
        src.append("print(zPair('%d', '%d', %s));" % (x, y, "true" if nb else "false"))
        exp.append(arith(x, y) + (bits(x, y) if nb else "") + "%d %d " % (-x, abs(x)))
    return (key, " ".join(src), "\n".join(exp) + "\n")


def rows(xs, ys, n=16):
    for x in xs:
        for i in range(0, len(ys), n):
            yield row("pair:%d:%d..%d" % (x, ys[i], ys[min(i + n, len(ys)) - 1]) if abs(x) < 1 << 200 else "pair:%d words:%d" % (x.bit_length() // 32, i), x, ys[i:i + n])


W = (0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)


def words(k, ws):
    return [sum(w << (32 * i) for i, w in enumerate(t)) for n in range(1, k + 1) for t in it.product(ws, repeat=n) if t[-1]]


SPECIAL = sorted({0, 1, 2, 3, 5, 7, 9, 10, 11, 99, 100, 255, 256} | {(1 << b) + d for b in (15, 16, 17, 30, 31, 32, 33, 47, 48, 53, 62, 63, 64, 65, 95, 96, 97, 127, 128, 160) for d in (-1, 0, 1)} | {10 ** k + d for k in (4, 5, 8, 9, 10, 18, 19, 20, 27, 28, 29, 30, 38, 39) for d in (-1, 0, 1)}
                | {(1 << 96) + (1 << 32), (1 << 128) - (1 << 64), (1 << 128) - (1 << 32), 0x10000FFFF, 0xFFFF0000FFFF0000, 0x8000000080000000, 0x1FFFFFFFE, 12345678901234567890123456789})
sign = lambda xs: sorted({s * x for x in xs for s in (1, -1)})


def pairs(sh, item):
    xs, ys = item
    mc.session(sh, mc.worker(EXE), list(rows(xs, ys)), prelude=PRE, flags=0, by_source=True, n=1000, timeout=120)


S = sign(SPECIAL)
c.explore("special", pairs, [([x], S) for x in S])
WS = sign(words(3, W))
PART = sign(words(3, (0, 1, 0xFFFFFFFF)))
c.explore("words", pairs, [(ch, c.pick(PART, WS)) for ch in mc.chunks(WS, 4)])


# ---------------------------------------------------------------- long operands, around the lengths at which multiplication changes its algorithm
def long_numbers():
    out = []
    for n in (1, 2, 9, 10, 11, 12, 18, 19, 20, 21, 22, 23, 30, 38, 39, 40, 41, 42, 45, 60, 79, 80, 81, 100) if c.quick else list(range(1, 50)) + [60, 61, 79, 80, 81, 82, 100, 127, 128, 129, 160, 161, 200]:
        b = 32 * n
        out += [(1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) + 1, 1 << (b - 32), int("FFFFFFFF00000000" * n, 16) >> b if n > 1 else 5, sum(((i * 2654435761 + 12345) & 0xFFFFFFFF) << (32 * i) for i in range(n)) | 1 << (b - 1), ((1 << b) - 1) ^ (((1 << 32) - 1) << (32 * (n // 2)))]
    return list(dict.fromkeys(x for x in out if x))


def longs(sh, item):
    i, x, ys = item
    items = []
    for k in range(0, len(ys), 8):
        src, exp = ["a = BigInt.new('%d').unwrap();" % x], []
        for y in ys[k:k + 8]:
            sg = -1 if (x + y) % 3 == 0 else 1
            src.append("b = BigInt.new('%d').unwrap(); r = a.multiply(b); print(r.unwrap()); zSame(r.unwrap().divide(a), '{}'.format(b)); zSame(r.unwrap().modulo(b), '0'); zSame(a.add(b).unwrap().subtract(b), '{}'.format(a));" % (sg * y))
            exp.append(str(x * y * sg))
        items.append(("long:%d:%d" % (i, k), " ".join(src), "\n".join(exp) + "\n"))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True, n=200, timeout=300)


LN = long_numbers()
c.explore("long", longs, [(i, x, LN) for i, x in enumerate(LN)])


def longdiv(sh, item):
    i, x = item
    ys = [y for y in LN if y.bit_length() <= 32 * 12 or y.bit_length() in (x.bit_length(), x.bit_length() - 1, x.bit_length() - 31, x.bit_length() - 32)]
    mc.session(sh, mc.worker(ASAN), list(rows([x], ys + [-y for y in ys[::3]], 6)), prelude=PRE, flags=0, by_source=True, n=200, timeout=300)


c.explore("long division", longdiv, list(enumerate(x for x in LN if x.bit_length() <= 32 * c.pick(23, 42))))


# ---------------------------------------------------------------- construction
def texts(sh, item):
    items = []
    alpha, n, first = item
    batch = []

    def flush():
        if batch:
            items.append(("text:%s" % batch[0][0], " ".join("print(zT(BigInt.new(%s)));" % t for t, _ in batch), "".join(e + " \n" for _, e in batch)))
            del batch[:]
    for k in range(0 if first == "" else 0, n):
        for t in it.product(alpha, repeat=k):
            s = first + "".join(t)
            body = s[1:] if s[:1] in ("+", "-") else s
            ok = body != "" and all(ch in "0123456789" for ch in body)
            batch.append(('"' + "".join(ch if 32 <= ord(ch) < 127 and ch not in '"\\' else "\\x%02x" % ord(ch) for ch in s) + '"', str(int(s)) if ok else "E"))
            if len(batch) == 40:
                flush()
    flush()
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0, by_source=True)


c.explore("text", texts, [("0", 1, "")] + [("01+-9 a\0", c.pick(5, 6), f) for f in "01+-9 a\0"] + [("09-+.e_x\n/:\xb2", 3, f) for f in "09-+.e_x\n/:\xb2"] + [("0", 45, f) for f in ("", "1", "-", "+", "-1")] + [("9", 45, f) for f in ("", "1", "-", "+", "-1")] + [("5", 45, f) for f in ("x", "-x", "0")])


def numbers(sh, item):
    items = []
    vals = sorted({s * (v + d) for v in (0, 1, 10, 255, 65536, 1 << 31, 1 << 32, 1 << 33, 1 << 40, (1 << 52), (1 << 53) - 2, 10 ** 9, 10 ** 10, 10 ** 12, 10 ** 15) for d in (-1, 0, 1) for s in (1, -1)} | {1 << 53, -(1 << 53), 1 << 60, -(1 << 62), -(1 << 63), 1 << 62})
    for v in vals:
        items.append(("number:%d" % v, "print(zT(BigInt.new(%d)));" % v, "%d \n" % v))
        for w in vals[::3]:
            a = "a = BigInt.new('%d').unwrap(); " % w
            items.append(("numarg:%d:%d" % (w, v), a + "print(zArith(a, %d)); print(zArith(a, BigInt.new('%d'))); print(zArith(a, BigInt.new(%d).unwrap())); print(a);" % (v, v, v), (arith(w, v) + "\n") * 3 + "%d\n" % w))
            if v >= 0 and w >= 0:
                items.append(("numbits:%d:%d" % (w, v), a + "print(zBits(a, %d)); print(zBits(a, BigInt.new('%d')));" % (v, v), (bits(w, v) + "\n") * 2))
        items.append(("clone:%d" % v, "a = BigInt.new('%d').unwrap(); b = BigInt.new(a).unwrap(); r = BigInt.new(BigInt.new(a)).unwrap(); print(b); print(r); print(a.compare(b)); print(b.compare(r)); print(a);" % v, "%d\n%d\n0\n0\n%d\n" % (v, v, v)))
    items.append(("number:none", "print(zT(BigInt.new()));", "0 \n"))
    for t in ("0.5", "-0.5", "1.0000001", "1e300", "-1e300", "0/0", "1/0", "-1/0", "nil", "true", "[]", "[1]", "{}", "BigInt.new('x')", "Success(1)", "Error('x')", "BigInt.new"):
        items.append(("number:%s" % t, "print(BigInt.new(%s).success());" % t, "false\n"))
        for op in ("add", "subtract", "multiply", "divide", "modulo", "compare", "bitwiseAnd", "bitwiseOr", "bitwiseXor"):
            items.append(("badarg:%s:%s" % (op, t), "a = BigInt.new(7).unwrap(); print(a.%s(%s).success()); print(a);" % (op, t), "false\n7\n"))
    for op in ("add", "subtract", "multiply", "divide", "modulo", "compare", "bitwiseAnd", "bitwiseOr", "bitwiseXor"):
        for args in ("", "1, 2"):
            items.append(("argc:%s:%s" % (op, args), "a = BigInt.new(7).unwrap(); a.%s(%s);" % (op, args), fails(out="")))
            items.append(("after:argc:%s:%s" % (op, args), "print(a); print(zT(a.add(1)));", "7\n8 \n"))
    for z in ("0", "'0'", "'-0'", "''"):
        zz = z if z == "0" else "BigInt.new(%s)" % z
        for n in ("0", "1", "-1", "4294967296", "-18446744073709551616"):
            items.append(("zero:%s:%s" % (z, n), "a = BigInt.new('%s').unwrap(); print(a.divide(%s).success()); print(a.modulo(%s).success()); print(a);" % (n, zz, zz), "false\nfalse\n%s\n" % n))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0)


c.explore("numbers", numbers, [0])


# ---------------------------------------------------------------- laws: and, or and xor of operands of every sign
def laws(sh, item):
    items = []
    mags = [0, 1, 2, 3, 5, 10, (1 << 31), (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 64) - 1, 1 << 64, 3 << 95]
    vals = sorted({s * m for m in mags for s in (1, -1)})
    for x in vals:
        for zero in ("BigInt.new('0')", "BigInt.new('-0')", "BigInt.new('-5').unwrap().bitwiseAnd(-10)", "BigInt.new('-7').unwrap().bitwiseXor(7)", "BigInt.new('0').unwrap().negate()", "BigInt.new('-7').unwrap().add(7)"):
            code = "a = BigInt.new('%d').unwrap(); r = %s.unwrap(); " % (x, zero)
            code += "print(zT(a.bitwiseAnd(a)) + zT(a.bitwiseOr(a)) + zT(a.bitwiseXor(a)) + zT(a.bitwiseAnd(r)) + zT(a.bitwiseOr(r)) + zT(a.bitwiseXor(r)) + zT(r.bitwiseAnd(a)) + zT(r.bitwiseOr(a)) + zT(r.bitwiseXor(a)));"
            items.append(("laws:%d:%s" % (x, zero), code + " print(a); print(r);", "".join("%d " % v for v in (x, x, 0, 0, x, x, 0, x, x)) + "\n%d\n0\n" % x))
        for y in vals:
            code = "a = BigInt.new('%d').unwrap(); b = BigInt.new('%d').unwrap(); " % (x, y)
            want = ""
            for op in ("And", "Or", "Xor"):
                code += "print(zT(a.bitwise%s(b)) == zT(b.bitwise%s(a))); " % (op, op)
                want += "true\n"
            code += "print(zT(a.bitwiseOr(b).unwrap().bitwiseAnd(a)) + zT(a.bitwiseAnd(b).unwrap().bitwiseOr(a))); "
            want += "%d %d \n" % (x, x)
            if abs(x) != abs(y):
                code += "print(zT(a.bitwiseXor(b).unwrap().bitwiseXor(b))); "
                want += "%d \n" % x
            items.append(("laws:%d:%d" % (x, y), code + "print(a); print(b);", want + "%d\n%d\n" % (x, y)))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0)


c.explore("laws", laws, [0])


# ---------------------------------------------------------------- chains: every result is a number like any other
def chains(sh, item):
    first, depth = item
    OPS = [("add(%s)", lambda x, y: x + y), ("subtract(%s)", lambda x, y: x - y), ("multiply(%s)", lambda x, y: x * y), ("divide(%s)", lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)),
           ("modulo(%s)", lambda x, y: x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))), ("bitwiseAnd(%s)", lambda x, y: x & y), ("bitwiseXor(%s)", lambda x, y: x ^ y), ("bitwiseOr(%s)", lambda x, y: x | y)]
    VALS = [1, -1, 5, -5, (1 << 32) - 1, 1 << 32, -(1 << 64), (1 << 64) + 1]
    moves = [(t % ("'%d'" % v), v, f, i) for i, (t, f) in enumerate(OPS) for v in VALS if i < 5 or v > 0] + [("negate()", None, lambda x, y: -x, 0), ("abs()", None, lambda x, y: abs(x), 0)]
    items, batch = [], []

    def go(x, code, d):
        for k, (t, v, f, i) in enumerate(moves):
            if d == 0 and k != first:
                continue
            if i >= 5 and x < 0:
                continue
            y = f(x, v)
            cd = code + "." + (t if v is None else t.replace("'%d'" % v, "zc[%d]" % VALS.index(v))) + ".unwrap()"
            if d + 1 == depth:
                batch.append((cd, y))
                if len(batch) == 12:
                    items.append(("chain:" + batch[0][0], "".join("r = %s; print(r); print(r.compare(BigInt.new('%d'))); print(BigInt.new('%d').unwrap().compare(r));" % (a, b, b) for a, b in batch), "".join("%d\n0\n0\n" % b for a, b in batch)))
                    del batch[:]
            else:
                go(y, cd, d + 1)
    for x in (0, 1, -5, 1 << 32, (1 << 64) - 1):
        go(x, "BigInt.new('%d').unwrap()" % x, 0)
    mc.session(sh, mc.worker(EXE), items, prelude=PRE + "const zc = [%s];\n" % ", ".join("BigInt.new('%d')" % v for v in VALS), flags=0, n=900, by_source=True, timeout=300)


c.explore("chains", chains, [(k, d) for k in range(66) for d in (1, 2, c.pick(3, 3))])
c.bounds = {"words per operand, all patterns": 3, "longest operand in words": c.pick(100, 200), "chain depth": 3}
c.finish()

"""P35: Math and Random. All tuples of boundary numbers, given as arguments and as a list, against exact arithmetic; every answer of the random generator
for every pair of bounds and every list."""
import os, sys, itertools as it, math
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P35", rule="one call; non-trivial = distinct (function, arguments, result)",
             assumptions=["the C library's sqrt, sin, cos and tan are right (Python's are the same)", "min and max of NaN, and the sign of a zero they give, are unspecified", "ties are rounded away from zero"])
EXE = c.build("plain")
ASAN = c.build("asan")
RND = c.build("plain", name="rand", extra_wraps=("rand",))
NAN, INF = float("nan"), float("inf")
VALS = [0.0, -0.0, 1.0, -1.0, 2.0, 3.0, -4.0, 6.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.25, 17.4, 17.999, 0.49999999999999994, -0.49999999999999994, 4503599627370495.5, -4503599627370495.5, 4503599627370497.5, 9007199254740991.0, 9007199254740993.0,
        2147483647.0, 2147483648.0, -2147483649.0, 9223372036854775808.0, -9223372036854775808.0, 1e300, -1e300, 1.7e308, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-300, 3.141592653589793, 1e22, INF, -INF, NAN]
WHOLE = [0, 1, -1, 2, -2, 3, 4, -6, 12, 32, 24, 35, -35, 97, 1024, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 - 1, 2 ** 62, 2 ** 63, -2 ** 63, 10 ** 22, 6469693230]
SMALL = [0, 1, -1, 2, 3, 4, -6, 9, 12, 15, 25]
OTHER = ["nil", "true", "'1'", "[]", "[1]", "{}", "set()", "def () => 1"]
PRE = """import Math;
def sh(x) { if (type(x) != 'number') { return type(x); } if (x != x) { return 'nan'; } if (x == 1/0) { return 'inf'; } if (x == -1/0) { return '-inf'; } if (x == 0) { return 1 / x < 0 ? 'negzero-0' : '0'; } const t = '{}'.format(x); return t + '~' + '{}'.format(x - t.toNumber().unwrap()); }
def call(f, l) { const n = l.len(); if (n == 0) { return f(); } if (n == 1) { return f(l[0]); } if (n == 2) { return f(l[0], l[1]); } if (n == 3) { return f(l[0], l[1], l[2]); } return f(l[0], l[1], l[2], l[3]); }
"""


def g(v):
    """the name of a number in the prelude"""
    return "v%d" % NAMES[repr(float(v))]


NAMES = {}
for v in VALS + WHOLE + SMALL:
    if repr(float(v)) not in NAMES:
        NAMES[repr(float(v))] = len(NAMES)
for k, n in NAMES.items():
    PRE += "const v%d = %s;\n" % (n, {"nan": "0/0", "inf": "1/0", "-inf": "-1/0", "0.0": "0", "-0.0": "-1 * 0"}.get(k, "'%s'.toNumber().unwrap()" % k))


def eq(x):
    """what sh prints for x: its first digits and what is left of it"""
    if isinstance(x, int):
        try:
            x = float(x)
        except OverflowError:
            x = INF if x > 0 else -INF
    if x != x:
        return "nan"
    if x in (INF, -INF):
        return "inf" if x > 0 else "-inf"
    if x == 0:
        return "negzero-0" if math.copysign(1, x) < 0 else "0"
    t = mc.fmt(x)
    return t + "~" + mc.fmt(x - float(t))


def roundaway(x):
    if x != x or x in (INF, -INF):
        return x
    f = Fraction(x)
    r = math.floor(abs(f) + Fraction(1, 2))
    return math.copysign(float(r), x)


def fl(f, x):
    if x != x or x in (INF, -INF):
        return x
    return math.copysign(float(f(Fraction(x))), x)


def trig(f, x):
    return NAN if x != x or x in (INF, -INF) else f(x)


ONE = {"floor": lambda x: fl(math.floor, x), "ceil": lambda x: fl(math.ceil, x), "round": roundaway, "abs": abs, "sqrt": lambda x: NAN if x < 0 else x if x != x else math.sqrt(x),
       "sin": lambda x: trig(math.sin, x), "cos": lambda x: trig(math.cos, x), "tan": lambda x: trig(math.tan, x)}


def single(sh, f):
    w = mc.worker(EXE)
    items = []
    xs = VALS + [k / 4 for k in range(-c.pick(400, 20000), c.pick(400, 20000))] + [s * (10.0 ** e) * m for e in range(-20, 23) for m in (1, 1.5, 7.25) for s in (1, -1)]
    for x in xs:
        n = g(x) if repr(float(x)) in NAMES else "'%r'.toNumber().unwrap()" % x
        e = eq(ONE[f](x))
        # the sign of a zero result is not part of these functions' definition, except that an absolute value has none
        want = [e + "\n"] if e not in ("0", "negzero-0") or f == "abs" else ["0\n", "negzero-0\n"]
        items.append(("%s(%r)" % (f, x), "print(sh(Math.%s(%s)));" % (f, n), want))
    for bad in ["", "1, 2", "1, 2, 3"] + OTHER:
        items.append(("%s(%s)" % (f, bad), "print(1); Math.%s(%s); print(2);" % (f, bad), fails(mc.RUNTIME, "1\n")))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("one_argument", single, sorted(ONE))


def fold(f, l):
    if f == "min":
        return min(l) if l else 0.0
    if f == "max":
        return max(l) if l else 0.0
    s = sum(l)
    return s if f == "sum" else s / len(l) if l else 0.0


EXACT = [0.0, -0.0, 1.0, -1.0, 2.0, -4.0, 0.5, -2.5, 1024.25, 2147483648.0, INF, -INF, 1099511627776.0]
for v in EXACT:
    if repr(v) not in NAMES:
        NAMES[repr(v)] = len(NAMES)
        PRE += "const v%d = '%s'.toNumber().unwrap();\n" % (NAMES[repr(v)], repr(v))


def several(sh, item):
    w = mc.worker(EXE)
    f, first = item
    items = []
    for n in range(0, c.pick(4, 5)):
        if n == 0 and first:
            continue
        for l in it.product(EXACT, repeat=n):
            if n and l[0] is not EXACT[first]:
                continue
            e = eq(fold(f, l))
            want = [e + " " + e + "\n"] if e not in ("0", "negzero-0") else [a + " " + b + "\n" for a in ("0", "negzero-0") for b in ("0", "negzero-0")]
            names = ", ".join(g(x) for x in l)
            items.append(("%s%r" % (f, l), "print(sh(Math.%s(%s)) + ' ' + sh(Math.%s([%s])));" % (f, names, f, names), want))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("several", several, [(f, i) for f in ("min", "max", "sum", "average") for i in range(len(EXACT))])


def several_misc(sh, f):
    w = mc.worker(EXE)
    items = []
    if f in ("min", "max"):
        # exactly one of the arguments, whatever they are
        for l in it.product([v for v in VALS if v == v], repeat=2):
            e = eq(fold(f, l))
            items.append(("%s%r" % (f, l), "print(sh(Math.%s(%s)));" % (f, ", ".join(g(x) for x in l)), [e + "\n"] if e not in ("0", "negzero-0") else ["0\n", "negzero-0\n"]))
    for n in (10, 100, 200, 240):
        l = [(k * 37) % 101 - 50 for k in range(n)]
        items.append(("%s:%d" % (f, n), "print(sh(Math.%s(%s)));" % (f, ", ".join(map(str, l))), [eq(float(fold(f, l))) + "\n"]))
    for n in (1000, 30000):
        l = [(k * 37) % 101 - 50 for k in range(n)]
        items.append(("%s:list:%d" % (f, n), "var l = []; for (var i = 0; i < %d; i += 1) { l.push(i * 37 %% 101 - 50); } print(sh(Math.%s(l))); print(l.len());" % (n, f), eq(float(fold(f, l))) + "\n%d\n" % n))
    for k in range(0, 4):
        for pos in range(k + 1):
            for o in OTHER:
                if k == 0 and o.startswith("["):
                    continue
                a = ["1", "2", "3"][:k]
                a.insert(pos, o)
                items.append(("%s bad" % f, "print(1); Math.%s(%s); print(2);" % (f, ", ".join(a)), fails(mc.RUNTIME, "1\n")))
                items.append(("%s bad" % f, "print(1); Math.%s([%s]); print(2);" % (f, ", ".join(a)), fails(mc.RUNTIME, "1\n")))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


def listed(sh, f):
    """lists of every length whose numbers need all of their digits, the extreme one at every place"""
    w = mc.worker(EXE)
    items = []
    for n in range(1, c.pick(50, 200)):
        l = [float((k * 7919) % 1000 * 1048577 + 16777217) for k in range(n)]
        pre = "const l = []; for (var i = 0; i < %d; i += 1) { l.push(i * 7919 %% 1000 * 1048577 + 16777217); } " % n
        items.append(("%s:full:%d" % (f, n), pre + "print(Math.%s(l) == %s);" % (f, repr(fold(f, l))) if f != "average" else pre + "print(Math.average(l) * %d - %r < 1 and Math.average(l) * %d - %r > -1);" % (n, sum(l), n, sum(l)), "true\n"))
        if f in ("min", "max"):
            for x in (-1e300, 1e300, -3e9, 3e9):
                e = [fold(f, l[:p] + [x] + l[p:]) for p in range(n + 1)]
                items.append(("%s:place:%d:%r" % (f, n, x), pre + "var e = 0; for (var p = 0; p <= %d; p += 1) { const m = l.copy(); m.insert(%s, p); if (Math.%s(m) != %s) { e += 1; } const q = []; for (var j = 0; j < m.len(); j += 1) { q.push(-m[j]); } if (Math.%s(q) != -(%s)) { e += 1; } } print(e);" % (n, "(%d)" % x, f, "(%d)" % e[0], "min" if f == "max" else "max", "%d" % e[0]), "0\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("listed", listed, ["min", "max", "sum", "average"])
c.explore("several_misc", several_misc, ["min", "max", "sum", "average"])


def near(x):
    """a whole number, as exact as numbers are"""
    try:
        d = float(x)
    except OverflowError:
        return ["inf"]
    if abs(x) <= 2 ** 53:
        return [eq(d)]
    return [eq(d), eq(math.nextafter(d, INF)), eq(math.nextafter(d, 0))]


def divisors(sh, item):
    w = mc.worker(EXE)
    f, kind, first = item
    items = []
    ref = math.gcd if f == "gcd" else math.lcm
    if kind == "two":
        tuples = [(WHOLE[first], y) for y in WHOLE]
    elif kind == "small":
        tuples = [(x, y) for x in range(first * 10 - 60, first * 10 - 50) for y in range(-60, 61)]
    else:
        tuples = [(SMALL[first],) + t for n in (2, c.pick(3, 4)) for t in it.product(SMALL, repeat=n)]
    for l in tuples:
        e = near(ref(*[int(float(x)) for x in l]))
        names = ", ".join(g(x) if repr(float(x)) in NAMES else str(x) for x in l)
        items.append(("%s%r" % (f, l), "print(sh(Math.%s(%s)) + ' ' + sh(Math.%s([%s])));" % (f, names, f, names), [a + " " + a + "\n" for a in e]))
    if kind == "two" and first == 0:
        for bad in ["", "1", "[]", "[1]", "1.5, 2", "2, 1.5", "0.5, 0.5", "2, 3, 0.5", "v%d, 2" % NAMES["nan"], "2, v%d" % NAMES["nan"], "2, v%d" % NAMES["inf"], "v%d, 2" % NAMES["-inf"], "v%d, v%d" % (NAMES["inf"], NAMES["inf"])] + ["2, %s" % o for o in OTHER] + ["%s, 2" % o for o in OTHER]:
            for l in (bad, "[%s]" % bad):
                items.append(("%s bad" % f, "print(1); Math.%s(%s); print(2);" % (f, l), fails(mc.RUNTIME, "1\n")))
        for k in ("pi: 3.14159265358979", "e: 2.71828182845905", "phi: 1.61803398874989", "sqrt2: 1.41421356237309", "sqrte: 1.61803398874989", "sqrtpi: 1.77245385090551", "sqrtphi: 1.27201964951406", "ln2: 0.69314718055994", "ln10: 2.30258509299404"):
            a, b = k.split(": ")
            items.append(("const " + a, "print(Math.%s); print(Math.%s == %s);" % (a, a, b), b + "\ntrue\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("divisors", divisors, [(f, "two", i) for f in ("gcd", "lcm") for i in range(len(WHOLE))] + [(f, "small", i) for f in ("gcd", "lcm") for i in range(12)] + [(f, "more", i) for f in ("gcd", "lcm") for i in range(len(SMALL))])

# ---------------------------------------------------------------- Random, for every answer of the generator
TOP = 2147483647
ANSWERS = sorted(set(list(range(0, 64)) + [TOP - k for k in range(0, 64)] + [TOP // 64 * k for k in range(65)] + [TOP // 61 * k + k for k in range(61)]))
N = len(ANSWERS)
while math.gcd(N, 2 * 3 * 5 * 7 * 11 * 13) != 1:
    ANSWERS.insert(N // 2, 1000003 * N)
    N += 1
# in several orders, so that two answers in a row are not always related in the same way
STREAM = ",".join(str(ANSWERS[i * s % N]) for s in (1, 77, 13, 110) for i in range(N))
RPRE = "import Random; import Env; import JSON;\n"


def ranges(sh, item):
    w = mc.worker(RND, env={"MC_RAND": STREAM})
    lo0, items = item, []
    n = 4 * N
    for lo in [lo0, lo0 + 0.5]:
        for hi in [x / 2 for x in range(-14, 24)] + [TOP, 1e6]:
            a, b = math.ceil(lo), math.floor(hi)
            call = "Random.range(%s, %s)" % ("%r" % lo, "%d" % hi if hi == int(hi) else "%r" % hi)
            if b < a:
                items.append(("range", "print(1); %s; print(2);" % call, fails(mc.RUNTIME, "1\n")))
                continue
            small = b - a < 40
            items.append(("range %s" % call, "const seen = {}; var bad = 0; for (var i = 0; i < %d; i += 1) { const x = %s; if (not (x >= %r and x <= %r) or x %% 1 != 0) { bad += 1; } else { seen[x] = true; } } print(bad); print(seen.len()%s);" % (n, call, a, b, "" if small else " > 100"),
                          "0\n%s\n" % (b - a + 1 if small else "true")))
    mc.session(sh, w, items, prelude=RPRE, flags=0, by_source=True)


c.explore("ranges", ranges, range(-8, 9))


def wide(sh, item):
    """Wide ranges: only numbers in them, from each of their eighths."""
    w = mc.worker(RND, env={"MC_RAND": STREAM})
    items = []
    E = [-TOP, -TOP + 1, -2 ** 30, -1, 0, 1, 1000, 2 ** 30, TOP - 1, TOP]
    for a in E:
        for b in E:
            call = "Random.range(%d, %d)" % (a, b)
            if b < a:
                items.append(("wide", "print(1); %s; print(2);" % call, fails(mc.RUNTIME, "1\n")))
            elif b - a > 100:
                items.append(("wide", "const seen = {}; var bad = 0; for (var i = 0; i < %d; i += 1) { const x = %s; if (not (x >= %d and x <= %d) or x %% 1 != 0) { bad += 1; } else { const k = (x - %d) * 8 / %d; seen[k - k %% 1] = true; } } print(bad); print(seen.len());" % (N * 4, call, a, b, a, b - a + 1), "0\n8\n"))
    for bad in ["", "1", "1, 2, 3", "'1', 2", "1, '2'", "nil, nil", "0/0, 1", "1, 0/0", "0, 1/0", "-1/0, 0", "-1/0, 1/0", "1, 0/0", "0.25, 0.75", "1.5, 1.75", "-0.75, -0.25", "0, 10000000000", "-10000000000, 0"] + ["%s, 1" % o for o in OTHER]:
        items.append(("bad", "print(1); Random.range(%s); print(2);" % bad, fails(mc.RUNTIME, "1\n")))
    for bad in ["", "[1], 2", "1", "[]"] + [o for o in OTHER if o != "[1]"]:
        items.append(("bad", "print(1); Random.select(%s); print(2);" % bad, fails(mc.RUNTIME, "1\n")))
    for bad in ("1", "nil", "1, 2"):
        items.append(("bad", "print(1); Random.random(%s); print(2);" % bad, fails(mc.RUNTIME, "1\n")))
    items.append(("random", "var bad = 0; const seen = {}; for (var i = 0; i < %d; i += 1) { const x = Random.random(); if (not (x >= 0 and x <= 1)) { bad += 1; } const k = x * 8; seen[k - k %% 1] = true; } print(bad); print(seen.len() >= 8);" % (N * 4), "0\ntrue\n"))
    for n in range(1, 21):
        items.append(("select", "const l = []; for (var i = 0; i < %d; i += 1) { l.push([i]); } const seen = {}; var bad = 0; for (var i = 0; i < %d; i += 1) { const x = Random.select(l); if (l.contains(x)) { seen[x[0]] = true; } else { bad += 1; } } print(bad); print(seen.len()); print(l.len());" % (n, N * 4), "0\n%d\n%d\n" % (n, n)))
    items.append(("select", "const x = [nil, true, 1, 'a', [], {}]; for (var i = 0; i < 30; i += 1) { if (not x.contains(Random.select(x))) { print(i); } }", ""))
    mc.session(sh, w, items, prelude=RPRE, flags=0, by_source=True)


def ends(sh, item):
    """both ends of a range can come out, whatever its span"""
    w = mc.worker(RND, env={"MC_RAND": ",".join(map(str, list(range(0, 640)) + [TOP - k for k in range(640)]))})
    items = []
    for span in item:
        for lo in (0, -7, 1000, -span, -span // 2):
            items.append(("ends:%d:%d" % (lo, span), "var lo = false; var hi = false; for (var i = 0; i < 1280; i += 1) { const x = Random.range(%d, %d); if (x == %d) { lo = true; } if (x == %d) { hi = true; } if (x < %d or x > %d) { print(x); } } print(lo); print(hi);" % (lo, lo + span, lo, lo + span, lo, lo + span), "true\ntrue\n"))
        if span:
            items.append(("place:%d" % span, "const l = []; for (var i = 0; i < %d; i += 1) { l.push(i); } var lo = false; var hi = false; for (var i = 0; i < 1280; i += 1) { const x = Random.select(l); if (x == 0) { lo = true; } if (x == %d) { hi = true; } } print(lo); print(hi);" % (span, span - 1), "true\ntrue\n"))
    mc.session(sh, w, items, prelude=RPRE, flags=0, by_source=True)


c.explore("ends", ends, mc.chunks(range(c.pick(200, 600)), 13))
c.explore("wide", wide, [0])


def memory(sh, item):
    w = mc.worker(ASAN)
    items = [("asan", "Math.%s(%s);" % (f, a), "") for f in ("gcd", "lcm", "min", "max", "sum", "average") for a in ("1, 2", "[1, 2, 3]", "[0, 0]", "-4, 6")]
    items += [("asan", "Math.%s(%s);" % (f, a), fails(mc.RUNTIME, "")) for f in ("gcd", "lcm") for a in ("1, 'a'", "[1, nil]", "1, 0.5", "[0.5, 1]")]
    mc.session(sh, w, items, prelude=PRE, flags=0, by_source=True)


c.explore("memory", memory, [0])
c.bounds = {"arguments": c.pick(3, 4), "numbers": len(VALS), "generator answers": len(ANSWERS), "gcd arguments": c.pick(4, 5)}
c.finish()

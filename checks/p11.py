"""P11: number literals, printing and conversion: all texts over a small alphabet, all exponents, all digit counts around 15."""
import os, sys, re, itertools as it, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import P, fails

c = mc.Check("P11", rule="a literal, conversion or printed number compared with IEEE double arithmetic done by the reference; non-trivial = distinct expected output",
             assumptions=["Python's float() rounds correctly and '%.15g' of C and Python agree"])
EXE = c.build("plain")
FULL = re.compile(r"(0_*[xX][0-9a-fA-F_]+|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE]_*[+-]?[0-9_]+)?)$")


def value(lit):
    """The number a whole literal denotes; None if its form has no digits where some are due (left undecided)."""
    t = lit.replace("_", "")
    if re.match(r"0[xX]", t):
        return float(int(t[2:], 16)) if len(t) > 2 and re.match(r"0[xX]", lit[:1] + lit[1:].lstrip("_")) else None
    try:
        return float(t)
    except (ValueError, OverflowError):
        return None


def lits(sh, item):
    w = mc.worker(EXE)
    items = []
    for text in item:
        m = FULL.match(text)
        if m:
            v = value(text)
            if v is None:
                continue
            items.append(P("lit:" + text, text, mc.fmt(v)))
        elif "+" in text or "-" in text:
            continue  # an operator
        else:
            items.append(("lit:" + text, "print(%s);" % text, None))
    good = [x for x in items if x[2] is not None]
    bad = [x for x in items if x[2] is None]
    mc.session(sh, w, good)
    # anything else is refused or fails; it never prints a number
    for part in mc.chunks(bad, 1500):
        r = mc.run_confirm(w, srcs=[("case.du", s) for _, s, _ in part], flags=16, timeout=60)
        sh.evals += len(part)
        sh.transitions += len(part)
        outs = r.out.split(b"\x1e")
        if r.crash is not None or r.exit != -1 or len(r.rcs) != len(part):
            sh.violate("lit-crash:" + part[0][0], "%s ... %s" % (part[0][0], r.brief()), program=[s for _, s, _ in part])
            return
        for i, (k, s, _) in enumerate(part):
            if r.rcs[i] == "0" or outs[i] != b"":
                sh.violate(k, "%s is not a literal, yet it printed %r (rc %s)" % (s, outs[i], r.rcs[i]), program=s)
                return


def littexts():
    for n in range(1, c.pick(6, 7) + 1):
        for t in it.product("019.eE_xF+-", repeat=n):
            if t[0].isdigit():
                yield "".join(t)
    for a in ("12345678901234567890", "4294967296", "9007199254740993", "9007199254740992", "0xFFFFFFFF", "0x1FFFFFFFFFFFFF", "0xABCDEFabcdef", "0XFF", "0x_f_f", "1_0_0_0.0_1", "1_000_000", "0.1", "0.30000000000000004", "123456789.123456789",
              "1e308", "1e309", "1.7976931348623157e308", "1.7976931348623159e308", "2.2250738585072014e-308", "5e-324", "2e-324", "3e-324", "1e400", "1e-400", "00012", "007", "0_0", "1e0007", "1e+007", "1E-_1"):
        yield a


c.explore("literals", lits, mc.chunks(littexts(), 4000))


def patterns():
    """Digit strings of 1..17 digits: all of one repeated digit, one changed digit, and roundings around the 15th."""
    out = set()
    for n in range(1, 18):
        for d in "159":
            out.add(d * n)
            for i in range(n):
                for e in "059":
                    s = list(d * n)
                    s[i] = e
                    if s[0] != "0":
                        out.add("".join(s))
        out.add("1" + "0" * (n - 1))
        out.add("12345678901234567"[:n])
        out.add("98765432109876543"[:n])
    return sorted(out, key=lambda s: (len(s), s))


PAT = patterns()
EXPS = c.pick([0, 1, 2, 5, 14, 15, 16, 17, 20, 21, 100, 290, 307, -1, -4, -5, -6, -15, -16, -100, -290, -307, -308, -310], list(range(-324, 309, 3)) + [0, 1, 2, 4, 5, 14, 15, 16, 17, 20, 21, 307, 308, -1, -4, -5])


def printed(sh, item):
    w = mc.worker(EXE)
    items = []
    for digits, e in item:
        for sign in ("", "-"):
            lit = "%s%s.%se%d" % (sign, digits[0], digits[1:] or "0", e)
            v = float(lit)
            t = mc.fmt(v)
            items.append(("print:" + lit, "print(%s); print((%s).toString()); print((%s).toString() == '%s');" % (lit, lit, lit, t), t + "\n" + t + "\ntrue\n"))
            big = math.isinf(v) or v == 0
            if not big:
                # text -> value -> text, and the value is the literal's
                items.append(("tonum:" + lit, "var r = '%s'.toNumber(); print(r.success()); print(r.unwrap() == %s); print(r.unwrap());" % (lit, lit), "true\ntrue\n%s\n" % t))
                if len(digits) <= 15:
                    items.append(("back:" + lit, "print((%s).toString().toNumber().unwrap() == %s);" % (lit, lit), "true\n"))
    mc.session(sh, w, items)


c.explore("printing", printed, mc.chunks(it.product(PAT, EXPS), 400))
ALPHA = "01.eE-+ xan_\n"
DEC = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$")
STRTOD = re.compile(r"[ \t\n\v\f\r]*[+-]?(0[xX]([0-9a-fA-F]+(\.[0-9a-fA-F]*)?|\.[0-9a-fA-F]+)([pP][+-]?[0-9]+)?|([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|inf|infinity|nan(\([a-z0-9_]*\))?)\Z", re.I)


def q(s):
    return "'" + s.replace("\\", "\\\\").replace("\n", "\\n").replace("'", "\\'").replace("\0", "\\x00") + "'"


def conv(sh, item):
    w = mc.worker(EXE)
    items = []
    for t in item:
        if DEC.match(t) and "\n" not in t:
            v = float(t)
            if math.isinf(v) or (v == 0 and re.search("[1-9]", t.lower().split("e")[0])):
                continue
            items.append(("conv:" + repr(t), "var r = %s.toNumber(); print(r.success()); print(r.unwrap());" % q(t), "true\n%s\n" % mc.fmt(v)))
        elif STRTOD.match(t):
            sh.counts["undecided"] += 1  # leading blanks, hexadecimal and the like: the documentation does not say
        else:
            items.append(("conv:" + repr(t), "var r = %s.toNumber(); print(r.success());" % q(t), "false\n"))
    mc.session(sh, w, items)


def convtexts():
    for n in range(0, c.pick(5, 6) + 1):
        for t in it.product(ALPHA, repeat=n):
            yield "".join(t)
    for n in range(1, 9):
        for t in it.product("0.e-", repeat=n):
            yield "1" + "".join(t)
    for s in ("1", "12.5", "-3e2"):
        for junk in " \n\t\0a.,_-+px":
            for i in range(len(s) + 1):
                yield s[:i] + junk + s[i:]
    yield "1" * 400
    yield "0." + "1" * 400
    yield "1" + "0" * 300 + "x"


c.explore("conversion", conv, mc.chunks(convtexts(), 3000))


# ---------------------------------------------------------------- every power of two and its neighbours; integers around printing limits
def powers(sh, item):
    w = mc.worker(EXE)
    items = []
    for k in item:
        for v in (2.0 ** k, -(2.0 ** k)) + ((math.nextafter(2.0 ** k, 0), math.nextafter(2.0 ** k, math.inf)) if -1022 < k < 1023 else ()):
            lit = repr(v).replace("+", "") if "e" in repr(v) else repr(v)
            items.append(P("pow:%d" % k, lit, mc.fmt(v)))
            items.append(("powrun:%d:%s" % (k, lit), "var x = 1; for (var i = 0; i < %d; i += 1) { x = x %s 2; } print(x); print(x.toString() == '%s');" % (abs(k), "*" if k >= 0 else "/", mc.fmt(2.0 ** k)), "%s\ntrue\n" % mc.fmt(2.0 ** k)) if v == 2.0 ** k else P("pow2:%d" % k, "[%s]" % lit, "[%s]" % mc.fmt(v)))
    for n in (item if c.quick else range(min(item) * 16, max(item) * 16)):
        items.append(P("int:%d" % n, "%d" % n if n >= 0 else "(%d)" % n, str(n)))
    mc.session(sh, w, items)


c.explore("powers", powers, mc.chunks(range(-1074, 1024), 100))
c.bounds = dict(literal_alphabet="019.eE_xF+-", literal_length=c.pick(6, 7), conversion_alphabet=ALPHA, conversion_length=c.pick(5, 6), digit_patterns=len(PAT), exponents=len(EXPS), powers_of_two="2^-1074..2^1023 and neighbours")
c.finish()

"""P24: JSON: all short texts over alphabets of the grammar, all small documents, numbers, strings and values both ways, against Python's JSON."""
import os, sys, json, math, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P24", rule="one text parsed or one value stringified; non-trivial = distinct (text or value, outcome)",
             assumptions=["raw control characters and unknown escapes inside strings, and a byte order mark, may be accepted", "nesting deeper than 500 levels may be refused", "the order of the members of an object is not compared"])
EXE = c.build("plain")
ASAN = c.build("asan")
PRE = """import JSON; var r; var v; var t; var e;
// 0: refused, 1: accepted
def zOk(t) { return JSON.parse(t).success() ? '1' : '0'; }
def zIs(t, v) { const r = JSON.parse(t); if (not r.success()) { print('refused: ' + t); return false; } const u = r.unwrap(); if (type(u) != type(v) or u != v) { print('value of ' + t); print(u); return false; } return true; }
def zBack(v) { const r = JSON.stringify(v); if (not r.success()) { print('not serialised'); print(v); return false; } const u = JSON.parse(r.unwrap()); if (not u.success()) { print('not JSON: ' + r.unwrap()); return false; }
  if (type(u.unwrap()) != type(v) or u.unwrap() != v) { print('differs: ' + r.unwrap()); return false; } return true; }
"""


def lit(s):
    return '"' + "".join(chr(x) if 32 <= x < 127 and x not in (34, 92) else "\\x%02x" % x for x in (s.encode("utf-8", "surrogatepass") if isinstance(s, str) else s)) + '"'


def num(v):
    if isinstance(v, float) and abs(v) == math.inf:
        return "(1/0)" if v > 0 else "(-1/0)"
    t = repr(float(v)).replace("e+", "e")
    t = t[:-2] if t.endswith(".0") else t
    return "(%s)" % t if t.startswith("-") else t


def D(v):
    """Dictu expression for a JSON value"""
    if v is None:
        return "nil"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return lit(v)
    if isinstance(v, list):
        return "[" + ", ".join(map(D, v)) + "]"
    return "{" + ", ".join("%s: %s" % (lit(k), D(x)) for k, x in v.items()) + "}"


def bad(x):
    raise ValueError(x)


NO = object()


def strict(s):
    try:
        v = json.loads(s, parse_constant=bad)
    except (ValueError, RecursionError):
        return NO
    # an escaped half of a surrogate pair denotes no character
    return NO if any(0xD800 <= ord(ch) < 0xE000 for ch in json.dumps(v, ensure_ascii=False)) else v


# ---------------------------------------------------------------- every short text: accepted exactly when it is JSON, with its value
def texts(sh, item):
    alpha, n, pre, post, lenient = item
    items, no, yes = [], [], []

    def flush(force=False):
        if len(no) >= 60 or force and no:
            items.append(("refuse:%s" % ascii(no[0]), "t = ''; " + "".join("t += zOk(%s);" % lit(s) for s in no) + " print(t);", "0" * len(no) + "\n"))
            del no[:]
        if len(yes) >= 15 or force and yes:
            items.append(("accept:%s" % ascii(yes[0][0]), "".join("zIs(%s, %s);" % (lit(s), D(v)) for s, v in yes), ""))
            del yes[:]
    for t in it.product(alpha, repeat=n):
        s = pre + "".join(t) + post
        v = strict(s)
        if v is NO:
            if not (lenient and tolerated(s)):
                no.append(s)
        else:
            yes.append((s, v))
        flush()
    flush(True)
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, n=1500, by_source=True)


def tolerated(s):
    """may be accepted: raw control characters and unknown escapes in strings"""
    try:
        json.loads(s, strict=False, parse_constant=bad)
        return True
    except ValueError:
        pass
    out, i, ins = [], 0, False
    while i < len(s):
        ch = s[i]
        if ins and ch == "\\" and i + 1 < len(s) and s[i + 1] not in '"\\/bfnrtu':
            out.append("x")
            i += 2
            continue
        if ins and ch == "\\":
            out.append(s[i:i + 2])
            i += 2
            continue
        if ch == '"':
            ins = not ins
        out.append(ch)
        i += 1
    try:
        json.loads("".join(out), strict=False, parse_constant=bad)
        return True
    except ValueError:
        return False


def split(alpha, n, pre="", post="", lenient=False, head=1):
    for k in range(0, n + 1):
        if k <= head:
            yield (alpha, k, pre, post, lenient)
        else:
            for h in it.product(alpha, repeat=head):
                yield (alpha, k - head, pre + "".join(h), post, lenient)


c.explore("numbers as text", texts, list(split("019-.eE+", c.pick(6, 7), head=2)) + list(split("01-.e+", 4, "[", "]")) + list(split("0-1.e, ", c.pick(5, 6), "[1.5,", "]")))
c.explore("structure", texts, list(split("[],1 ", c.pick(7, 8), head=2)) + list(split('{}:,"1', c.pick(7, 8), head=2)) + list(split('[]{},:"', c.pick(6, 7), head=2)) + list(split('{}[],:1', 4, '{"a":')) + list(split('"a:,}1', c.pick(5, 6), '{"a":[],')))
c.explore("words", texts, list(split("nultrefas", c.pick(5, 6), head=2)) + list(split("nul[], ", 5, "nul")) + [(a, k, p, "", False) for a in ("eEs1, \0",) for k in (0, 1, 2, 3) for p in ("true", "false", "null", "tru", "fals", "nul", "t", "TRUE", "NaN", "Infinity", "-Infinity", "[true", "[null,", '{"a":false')])
c.explore("strings as text", texts, list(split('"\\u0d8a\n\x00', c.pick(5, 6), "", "", True, head=1)) + list(split("09afAFgD\"", 4, '"\\u', '"', True)) + list(split('"\\/bfnrtux', 3, '"', '"', True))
          + [(("d7ff", "d800", "dbff", "dc00", "dfff", "e000", "0000", "0041", "00e9", "07ff", "0800", "ffff"), 1, '"\\u', post, True) for post in ['"'] + ['\\u%s"' % x for x in ("dc00", "dfff", "d800", "e000", "0041", "DC37", "dc0", "xxxx", "")] + ['a"', '\\n"', "\\", ""]])
c.explore("white space", texts, list(split("\n\t \r1", 5, "", "", False)) + [((" ", "\n", "\t\r", "\x0b", "\xa0", "/", "\0", ""), 3, p, q, False) for p, q in (("", "1"), ("1", ""), ("[", "]"), ("[1", "]"), ("[1,", "2]"), ("{", "}"), ('{"a"', ":1}"), ('{"a":', "1}"), ('{"a":1', "}"), ('{"a":1,', '"b":2}'))])


# ---------------------------------------------------------------- documents: all combinations of tokens, and of the layouts between them
SCAL = ["0", "-1", "1.5", "12345678901234567890", "1e3", "true", "false", "null", '""', '"x\\n"', '"\\u0000y"', "-0.25e-2", "[]", "{}"]


def docs(sh, item):
    i, = item
    items, batch = [], []

    def add(s):
        batch.append(s)
        if len(batch) == 12:
            flush()

    def flush():
        if batch:
            items.append(("doc:%s" % batch[0], "".join("zIs(%s, %s);" % (lit(s), D(strict(s))) for s in batch), ""))
            del batch[:]
    a = SCAL[i]
    V1 = SCAL + ["[%s]" % x for x in SCAL[:6]] + ['{"k":%s}' % x for x in SCAL[:6]]
    for b in V1:
        for f in ("[%s,%s]", "[ %s , %s ]\n", '{"a":%s,"b":%s}', ' { "a" : %s , "" : %s } ', '{"a":%s,"a":%s}', '[[%s],{"x":%s}]', '{"k":[%s,{"k":%s}]}', "[[[%s]],%s]", '{"\\u0000":%s,"\\u0000\\u0000":%s}'):
            add(f % (a, b))
        for d in SCAL if c.quick else V1:
            for f in ("[%s,%s,%s]", '{"a":%s,"b":[%s,%s]}', '[{"a":%s},%s,{"b":%s}]'):
                add(f % (a, b, d))
    flush()
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True)
    # the same under a collection at every allocation
    mc.session(sh, mc.worker(ASAN), items[::9], prelude=PRE, flags=0, by_source=True, gc=(1, 0, 0), n=40)


c.explore("documents", docs, [(i,) for i in range(len(SCAL))])


# ---------------------------------------------------------------- numbers
MANT = ["0", "1", "9", "1.1", "1.7976931348623157", "2.2250738585072014", "4.9", "123456789", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "0.1", "0.3", "3.141592653589793", "0.000001", "123456.789012345678901234567890", "99999999999999999999999999", "0.30000000000000004", "5e-1"]


def numbers(sh, item):
    part, = item
    items = []
    for m in part:
        ts = []
        for ex in [""] + ["e%d" % x for x in list(range(-330, 311, 1 if not c.quick else 7)) + [-324, -323, -308, 308, 309, 22, 23]] + ["E+5", "E-05", "e00", "e+308", "e400", "e-400"]:
            for sg in ("", "-"):
                if "e" in m and ex:
                    continue
                ts.append(sg + m + ex)
        for k in range(0, len(ts), 12):
            src = "".join("zIs(%s, %s);" % (lit(s), D(float(s))) for s in ts[k:k + 12])
            src += "".join("zIs('[%s, 7, %s]', [%s, 7, %s]);" % (s, s, D(float(s)), D(float(s))) for s in ts[k:k + 3])
            back = "".join("zBack(%s);" % D(float(s)) for s in ts[k:k + 12] if abs(float(s)) != math.inf)
            items.append(("number:%s" % ts[k], src, ""))
            items.append(("number back:%s" % ts[k], back, ""))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True)


c.explore("numbers", numbers, [([m],) for m in MANT])


def backnum(sh, item):
    """stringify gives back the same number"""
    vals = []
    for e in range(-40, 41):
        for m in (1, 1.5, 1.1, 1 / 3, 1.2345678, 9.87654321012345, 1 + 2 ** -52, 2 - 2 ** -52):
            vals += [m * 2.0 ** e, -m * 2.0 ** e, m * 10.0 ** e]
    vals += [float(s * (2 ** k + d)) for k in (7, 8, 15, 16, 30, 31, 32, 33, 52, 53, 62, 63, 64) for d in (-1, 0, 1) for s in (1, -1)] + [x / 100 for x in range(0, 2000)] + [123456.7, 1234567.8, 0.1 + 0.2, 5e-324, 1.7976931348623157e308, 1e15, 1e16, 1e17, 123456789012345678.0]
    items = []
    for k in range(0, len(vals), 20):
        items.append(("back:%r" % vals[k], "".join("zBack(%s);" % D(v) for v in vals[k:k + 20]), ""))
        ints = [v for v in vals[k:k + 20] if v == int(v) and abs(v) < 2 ** 31]
        if ints:
            items.append(("int:%r" % vals[k], "".join("print(JSON.stringify(%s).unwrap());" % D(v) for v in ints), "".join("%d\n" % v for v in ints)))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True)


c.explore("numbers back", backnum, [0])


# ---------------------------------------------------------------- strings and keys
def jstr(b):
    o = ""
    for x in b:
        ch = chr(x)
        o += {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(ch) or ("\\u%04x" % x if x < 32 else ch)
    return '"' + o + '"'


def strings(sh, item):
    items, part = [], item
    for k in range(0, len(part), 12):
        src, exp = [], ""
        for b in part[k:k + 12]:
            src.append("r = JSON.stringify(%s).unwrap(); print(r == %s); zBack(%s); print(JSON.stringify({%s: 1}).unwrap() == %s); zBack({%s: [%s]});" % (lit(b), lit(jstr(b).encode("latin-1")), lit(b), lit(b), lit(('{%s: 1}' % jstr(b)).encode("latin-1")), lit(b), lit(b)))
            exp += "true\ntrue\n"
        items.append(("string:%s" % part[k].hex(), " ".join(src), exp))
    mc.session(sh, mc.worker(ASAN if len(part) < 600 else EXE), items, prelude=PRE, flags=0, by_source=True, n=800)


BYTES = list(range(0, 256))
SOME = list(range(0, 36)) + [47, 48, 92, 93, 117, 126, 127, 128, 0xC3, 0xE9, 0xFF]
c.explore("strings", strings, [[bytes([x]) for x in BYTES] + [b""]] + list(mc.chunks([bytes(t) for t in it.product(SOME, repeat=2)], 600)) + list(mc.chunks([bytes(t) for t in it.product((0, 10, 31, 34, 92, 97, 117), repeat=c.pick(3, 4))], 500)) + [[bytes([x]) * n for x in (0, 34, 97, 1) for n in (10, 100, 255, 256, 257, 1000)]])


# ---------------------------------------------------------------- values
ATOMS = ["nil", "true", "false", "0", "-1", "1.5", "1e300", "''", "'a'", "'\\n\"'", "[]", "{}"]
TEXT = ["null", "true", "false", "0", "-1", None, None, '""', '"a"', '"\\n\\""', "[]", "{}"]
BADV = ["set()", "zf", "ZC()", "ZC", "0/0", "1/0", "-1/0", "JSON", "print", "Success(1)", "ZE", "ZC().m", "zdeep", "zcl", "zcd"]
VP = PRE + "def zf() { return 1; } class ZC { m() {} } enum ZE { A } var zdeep = []; for (var i = 0; i < 100000; i += 1) { zdeep = [zdeep]; } var zcl = [1]; zcl.push(zcl); var zcd = {}; zcd['a'] = [zcd];\n"


def values(sh, item):
    items = []
    for i, a in enumerate(ATOMS):
        items.append(("atom:%s" % a, "zBack(%s); " % a + ("print(JSON.stringify(%s).unwrap());" % a if TEXT[i] else ""), TEXT[i] + "\n" if TEXT[i] else ""))
        for j, b in enumerate(ATOMS):
            src = "zBack([%s, %s]); zBack({'a': %s, 'b': %s}); zBack([[%s], {'k': %s}]); zBack({'a': [%s], '': {'x': %s}});" % (a, b, a, b, a, b, a, b)
            exp = ""
            if TEXT[i] and TEXT[j]:
                src += "print(JSON.stringify([%s, %s]).unwrap()); print(JSON.stringify({'k': [%s, [%s]]}).unwrap());" % (a, b, a, b)
                exp = '[%s, %s]\n{"k": [%s, [%s]]}\n' % (TEXT[i], TEXT[j], TEXT[i], TEXT[j])
                if TEXT[i] not in ("[]", "{}") and TEXT[j] not in ("[]", "{}"):
                    for ind in (0, 1, 2, 4):
                        s = " " * ind
                        src += "print(JSON.stringify([%s, [%s]], %d).unwrap()); print(JSON.stringify({'k': [%s]}, %d).unwrap());" % (a, b, ind, b, ind)
                        exp += "[\n%s%s,\n%s[\n%s%s\n%s]\n]\n" % (s, TEXT[i], s, s * 2, TEXT[j], s) + '{\n%s"k": [\n%s%s\n%s]\n}\n' % (s, s * 2, TEXT[j], s)
            items.append(("pair:%s:%s" % (a, b), src, exp))
            for d in ATOMS:
                items.append(("three:%s:%s:%s" % (a, b, d), "zBack([%s, {'a': %s, 'b': [%s]}]); zBack({'x': {'y': {'z': %s}}, 'w': [%s, [%s]]}); e = JSON.stringify([%s, [%s], {'q': %s}], 3).unwrap(); print(JSON.parse(e).unwrap() == [%s, [%s], {'q': %s}]);" % (a, b, d, a, b, d, a, b, d, a, b, d), "true\n"))
        # something that cannot be expressed, at every place
        for x in BADV:
            forms = [x, "[%s]" % x, "{'k': %s}" % x, "[%s, %s]" % (a, x), "[[%s, [%s]]]" % (x, a), "{'a': %s, 'b': {'c': %s}}" % (a, x)]
            items.append(("bad:%s:%s" % (a, x), "t = ''; " + "".join("t += JSON.stringify(%s).success() ? '1' : '0'; " % f for f in forms) + "print(t); print(JSON.stringify(%s, 2).success());" % x, "000000\nfalse\n"))
    for k, t in (("nil", '{"null": 1}'), ("true", '{"true": 1}'), ("false", '{"false": 1}'), ("5", '{"5": 1}'), ("-1.5", '{"-1.5": 1}'), ("''", '{"": 1}')):
        items.append(("key:%s" % k, "print(JSON.stringify({%s: 1}).unwrap());" % k, t + "\n"))
    for args in ("", "1, 2, 3", "1, 'x'", "1, nil", "1, -1", "1, 256", "1, 0/0", "1, 1e300"):
        items.append(("args:%s" % args, "JSON.stringify(%s);" % args, fails(out="")))
    for args in ("", "'1', 2", "1", "nil", "[]"):
        items.append(("pargs:%s" % args, "JSON.parse(%s);" % args, fails(out="")))
    mc.session(sh, mc.worker(EXE), items, prelude=VP, flags=0, by_source=True, n=600)


c.explore("values", values, [0])


def deep(sh, item):
    items = []
    for n in (1, 2, 10, 100, 250, 400, 499):
        for a, b in (("[", "]"), ('{"a":', "}"), ('[1,{"k":[', "]}]")):
            m = max(1, n // max(1, a.count("[") + a.count("{")))
            items.append(("deep:%s%d" % (a, n), "t = ''; for (var i = 0; i < %d; i += 1) { t += %s; } t += '7'; for (var i = 0; i < %d; i += 1) { t += %s; } r = JSON.parse(t); print(r.success()); zBack(r.unwrap()); print(JSON.stringify(r.unwrap()).unwrap().replace(' ', '') == t);" % (m, lit(a), m, lit(b)), "true\ntrue\n"))
    for n in (1000, 5000, 20000, 200000):
        for a, b in (("[", "]"), ('{"a":', "}")):
            # refused or not, and nothing is upset
            items.append(("deeper:%s%d" % (a, n), "t = ''; e = ''; for (var i = 0; i < %d; i += 1) { t += %s; e += %s; } r = JSON.parse(t + '7' + e); print(type(r)); r = JSON.parse(t); print(r.success()); r = nil; t = nil; e = nil; print(zBack([1]));" % (n if n < 100000 else 20000, lit(a), lit(b)), "result\nfalse\ntrue\n"))
        items.append(("deepv:%d" % n, "v = 1; for (var i = 0; i < %d; i += 1) { v = [v]; } r = JSON.stringify(v); print(type(r)); v = 1; for (var i = 0; i < %d; i += 1) { v = {'a': v}; } r = JSON.stringify(v, 255); print(type(r)); r = nil; v = nil;" % (n, n), "result\nresult\n"))
    # far down in calls
    items.append(("nested", "def zd(n) { if (n == 0) { return JSON.parse('[' + '[1]' + ',{\"a\":[2]}]').unwrap().len(); } return zd(n - 1); } print(zd(1000)); print(zBack([[[1]]]));", "2\ntrue\n"))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0, by_source=True, timeout=300)


c.explore("depth", deep, [0])

# ---------------------------------------------------------------- documents of every size
def sizes(sh, item):
    items = []
    for n in item:
        A = "a = []; for (var i = 0; i < %d; i += 1) { a.push(%s); } " % (n, "%s")
        for name, el, js in (("num", "i", [str(i) for i in range(n)]), ("str", "'k' + i.toString()", ['"k%d"' % i for i in range(n)]), ("list", "[i]", ["[%d]" % i for i in range(n)]), ("mixed", "i % 2 == 0 ? nil : 'x'", ["null" if i % 2 == 0 else '"x"' for i in range(n)]), ("esc", "'\\n'", ['"\\n"'] * n), ("nest", "{'a': [i]}", ['{"a": [%d]}' % i for i in range(n)])):
            t = "[%s]" % ", ".join(js)
            items.append(("size:list:%s:%d" % (name, n), A % el + "r = JSON.stringify(a).unwrap(); print(r); print(JSON.parse(r).unwrap() == a); zBack(a);" + (" print(JSON.stringify(a, 2).unwrap());" if name in ("num", "str", "mixed", "esc") and n else ""),
                          t + "\ntrue\n" + ("[\n  %s\n]\n" % ",\n  ".join(js) if name in ("num", "str", "mixed", "esc") and n else "")))
        items.append(("size:dict:%d" % n, "a = {}; for (var i = 0; i < %d; i += 1) { a['key' + i.toString()] = [i, 'v' + i.toString()]; } r = JSON.stringify(a).unwrap(); e = JSON.parse(r).unwrap(); print(e == a); print(e.len()); print(r.len()); print(JSON.parse(JSON.stringify(a, 4).unwrap()).unwrap() == a);" % n, "true\n%d\n%d\ntrue\n" % (n, 2 + max(0, 2 * (n - 1)) + sum(len('"key%d": [%d, "v%d"]' % (i, i, i)) for i in range(n)))))
        # texts: parsed from compact, spaced and repeated forms
        items.append(("size:parse:%d" % n, "zIs('[%s]', [%s]); zIs('[%s]', [%s]); a = JSON.parse('{%s}').unwrap(); print(a.len()); for (var i = 0; i < %d; i += 1) { if (a['m' + i.toString()] != i) { print(i); } }" % (",".join(["1"] * n), ", ".join(["1"] * n) , " , ".join(["[ ]"] * n), ", ".join(["[]"] * n), ",".join('"m%d":%d' % (i, i) for i in range(n)), n), "%d\n" % n) if n <= 100 else None)
        items.append(("size:text:%d" % n, "a = []; e = []; v = []; for (var i = 0; i < %d; i += 1) { a.push(i); e.push('[ ]'); v.push([]); } print(JSON.parse('[' + a.join(',') + ']').unwrap() == a); print(JSON.parse('[' + e.join(' ,') + ']').unwrap() == v); print(JSON.parse('[' + a.join(',') + ',]').success()); print(JSON.parse('[' + a.join(',') + ']]').success());" % n, "true\ntrue\nfalse\nfalse\n"))
        # strings of that length: plain, ending in an escape, made of escapes
        for name, x, js in (("plain", "'a'.repeat(%d)" % n, "a" * n), ("end", "'a'.repeat(%d) + '\\n'" % n, "a" * n + "\\n"), ("begin", "'\\t' + 'a'.repeat(%d)" % n, "\\t" + "a" * n), ("all", "'\"'.repeat(%d)" % n, '\\"' * n), ("ctl", "'\\x01'.repeat(%d)" % n, "\\u0001" * n), ("utf", "'\xc3\xa9'.repeat(%d)" % n, "\xc3\xa9" * n)):
            items.append(("size:string:%s:%d" % (name, n), ("a = %s; r = JSON.stringify(a).unwrap(); print(r); print(r.len()); zBack(a); zBack([a, a]); zBack({a: a}); print(JSON.parse('\"' + r[1:r.len() - 1] + '\"').unwrap() == a);" % x).encode("latin-1"), ('"%s"\n%d\ntrue\n' % (js, len(js) + 2)).encode("latin-1")))
        # numbers with that many digits
        if n:
            for t in ("1" * n, "0." + "3" * n, "-" + "9" * n, "0." + "0" * n + "1", "1e-%d" % n, "%de%d" % (1, n)):
                if float(t) not in (float("inf"), float("-inf")) and len(t) < 3000:
                    items.append(("size:number:%s:%d" % (t[:5], n), "a = JSON.parse('%s').unwrap(); print(a == '%s'.toNumber().unwrap()); zBack(a); print(JSON.parse('[%s,1]').unwrap()[1]);" % (t, t, t) if float(t) else "print(JSON.parse('[%s,1]').unwrap()[1]);" % t, "true\n1\n" if float(t) else "1\n"))
    mc.session(sh, mc.worker(EXE), [x for x in items if x], prelude=PRE + "var a; ", flags=0, n=300)


def keys(sh, item):
    """dicts with keys of every kind, between any number of others; and every indentation"""
    items = []
    for n in item:
        for kind, key in (("text", "'k' + i.toString()"), ("number", "i"), ("half", "i + 0.5"), ("minus", "-1 - i")):
            src = "a = {}; e = 0; a[nil] = 'n'; for (var i = 0; i < %d; i += 1) { a[%s] = i; } a[true] = 't'; a[false] = ['f']; r = JSON.stringify(a%s).unwrap(); const b = JSON.parse(r).unwrap(); if (b.len() != %d or b['null'] != 'n' or b['true'] != 't' or b['false'] != ['f']) { e += 1; } for (var i = 0; i < %d; i += 1) { const k = %s; if (b[type(k) == 'string' ? k : k.toString()] != i) { e += 1; } } print(e);"
            for ind in ("", ", 2"):
                items.append(("keys:%s:%d%s" % (kind, n, ind), src % (n, key, ind, n + 3, n, key), "0\n"))
        items.append(("indent:%d" % n, "print(JSON.stringify([1, [2]], %d).unwrap()); print(JSON.stringify({'a': [1]}, %d).unwrap());" % (n, n), "[\n%s1,\n%s[\n%s2\n%s]\n]\n{\n%s\"a\": [\n%s1\n%s]\n}\n" % ((" " * n,) * 2 + (" " * 2 * n, " " * n, " " * n, " " * 2 * n, " " * n))))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE + "var a; ", flags=0, n=200)


c.explore("keys", keys, mc.chunks(range(256), 8))
c.explore("sizes", sizes, mc.chunks(sorted(set(list(range(c.pick(70, 260))) + [x + y for x in (100, 127, 128, 250, 256, 500, 512, 1000, 1024, 4096) for y in (-1, 0, 1)])), 2))
c.bounds = {"text length": c.pick(7, 8), "document depth": 4, "nesting": "up to 499 exactly, up to 200000 for safety"}
c.finish()

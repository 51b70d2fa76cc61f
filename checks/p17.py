"""P17: string methods: every receiver and argument over small alphabets up to a length bound, compared with their definitions."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P17", rule="one receiver with one set of arguments; non-trivial = distinct (receiver, arguments, results)",
             assumptions=["characters are bytes and classes of characters those of the C locale", "find() with a count below one is outside of the promise"])
EXE = c.build("plain")
ASAN = c.build("asan")
ESC = {"\0": "\\x00", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\\": "\\\\", '"': '\\"'}
lit = lambda s: '"' + "".join(ESC.get(ch) or (ch if 32 <= ord(ch) < 127 else "\\x%02x" % ord(ch)) for ch in s) + '"'


def L(x):
    if x is None:
        return "nil"
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, str):
        return lit(x)
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(L, x)) + "]"
    return mc.fmt(x)


# zEq compares values exactly, including kind, length and every character
PRE = """def zEq(a, b) { if (type(a) != type(b)) { return false; } if (type(a) == 'list') { if (a.len() != b.len()) { return false; } for (var i = 0; i < a.len(); i += 1) { if (not zEq(a[i], b[i])) { return false; } } return true; }
  if (type(a) == 'string') { if (a.len() != b.len()) { return false; } for (var i = 0; i < a.len(); i += 1) { if (a[i] != b[i]) { return false; } } } return a == b; }
var s; var d;
"""


def one(recv, calls):
    """a source that evaluates every (call, expected) on the receiver and prints those that are wrong"""
    body = ["s = %s; d = %s;" % (lit(recv), lit(recv))]
    for i, (t, e) in enumerate(calls):
        body.append("if (not zEq(s.%s, %s)) { print('%d: '); print(s.%s); }" % (t, L(e), i, t) if e is not DICTU else t)
    body.append("print(zEq(s, d));")
    return " ".join(body)


DICTU = object()


def add(items, key, recv, calls):
    for k in range(0, len(calls), 20):
        items.append(("%s:%s:%d" % (key, ascii(recv), k), one(recv, calls[k:k + 20]), "true\n"))


def occ(s, d):
    """indices of the non-overlapping occurrences"""
    r, i = [], 0
    while d and s.find(d, i) >= 0:
        i = s.find(d, i)
        r.append(i)
        i += len(d)
    return r


def split(s, d, n=-1):
    if n < 0:
        return list(s) if d == "" else s.split(d)
    if d == "":
        return list(s[:n]) + ([s[n:]] if n < len(s) else [])
    return s.split(d, n)


SP = " \t\n\v\f\r"
up = lambda s: "".join(ch.upper() if "a" <= ch <= "z" else ch for ch in s)
low = lambda s: "".join(ch.lower() if "A" <= ch <= "Z" else ch for ch in s)
isal = lambda ch: "a" <= ch <= "z" or "A" <= ch <= "Z"


def title(s):
    r, new = "", True
    for ch in s:
        if ch == " ":
            new = True
            r += ch
        else:
            r += up(ch) if new else low(ch)
            new = False
    return r


def words(s):
    n, inside = 0, False
    for ch in s:
        if ch in SP:
            inside = False
        elif isal(ch) and not inside:
            n, inside = n + 1, True
    return n


def collapse(s):
    return "".join(ch for i, ch in enumerate(s) if ch not in SP or (i > 0 and s[i - 1] not in SP))


def wrap(s, n):
    r, last, start = list(s), -1, 0
    for i, ch in enumerate(s):
        if ch in SP:
            last = i
        if i - start >= n and last >= start:
            r[last] = "\n"
            start = last + 1
    return "".join(r)


# ---------------------------------------------------------------- searching and splitting
def search(sh, item):
    w = mc.worker(EXE)
    items = []
    alpha, nl, recvs = item
    needles = ["".join(t) for n in range(nl + 1) for t in it.product(alpha, repeat=n)]
    for s in recvs:
        for d in needles:
            o = occ(s, d)
            calls = [("contains(%s)" % lit(d), d in s), ("startsWith(%s)" % lit(d), s.startswith(d)), ("endsWith(%s)" % lit(d), s.endswith(d)),
                     ("count(%s)" % lit(d), sum(s.startswith(d, i) for i in range(len(s) + 1))), ("findLast(%s)" % lit(d), s.rfind(d) if d else 0),
                     ("find(%s)" % lit(d), s.find(d)), ("split(%s)" % lit(d), split(s, d)), ("split(%s, -1)" % lit(d), split(s, d))]
            if d:
                for k in range(1, len(o) + 2):
                    if k > len(o):
                        calls.append(("find(%s, %d)" % (lit(d), k), -1))
                    elif k < 3:
                        calls.append(("find(%s, %d)" % (lit(d), k), o[k - 1]))
                    else:
                        # see the finding find-third
                        q = sum((o[i] - (o[i - 1] + len(d) if i else 0)) + i * len(d) for i in range(k))
                        calls.append(("if (not (s.find(%s, %d) == %d or s.find(%s, %d) == %d)) { print('find'); }" % (lit(d), k, o[k - 1], lit(d), k, q), DICTU))
                calls += [("find(%s, %s)" % (lit(d), k), -1) for k in ("1e10", "1e300", "2147483648")]
            calls += [("split(%s, %s)" % (lit(d), k), split(s, d)) for k in ("1e10", "1e300", "2147483648", "-1e300")]
            for k in range(0, (len(s) if d == "" else len(o)) + 2):
                calls.append(("split(%s, %d)" % (lit(d), k), split(s, d, k)))
            add(items, "search", s, calls)
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


def strs(alpha, n):
    return ["".join(t) for k in range(n + 1) for t in it.product(alpha, repeat=k)]


c.explore("search", search, [(a, nl, ch) for a, nl, n in (("ab", 3, c.pick(9, 11)), ("a\0", 2, c.pick(6, 7)), ("abc", 2, c.pick(5, 6)), ("\xe9a", 2, c.pick(3, 4))) for ch in mc.chunks(strs(a, n), 24)])


def third(sh, item):
    mc.session(sh, mc.worker(EXE), [("find-third", 'print("aXbXcX".find("X", 3));', "5\n")], prelude=PRE, flags=0)


c.explore("third", third, [0])


def replace(sh, item):
    w = mc.worker(EXE)
    items = []
    alpha, nl, recvs, news = item
    needles = strs(alpha, nl)
    for s in recvs:
        add(items, "replace", s, [("replace(%s, %s)" % (lit(d), lit(r)), s.replace(d, r) if d else s) for d in needles for r in news])
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


NEWS = ["", "a", "b", "ab", "ba", "aaaa", "xyz"]
c.explore("replace", replace, [(a, nl, ch, news) for a, nl, n, news in (("ab", 3, c.pick(8, 9), NEWS), ("a\0", 2, c.pick(6, 7), NEWS + ["\0", "\0\0", "a\0b"])) for ch in mc.chunks(strs(a, n), 8)])


# ---------------------------------------------------------------- whitespace and case
def unary(sh, item):
    w = mc.worker(EXE)
    items = []
    for s in item:
        letters = [ch for ch in s if isal(ch)]
        add(items, "unary", s, [("len()", len(s)), ("upper()", up(s)), ("lower()", low(s)), ("title()", title(s)), ("strip()", s.strip(SP)), ("leftStrip()", s.lstrip(SP)), ("rightStrip()", s.rstrip(SP)),
                                ("collapseSpaces()", collapse(s)), ("wordCount()", words(s)), ("isUpper()", bool(s) and all("A" <= ch <= "Z" for ch in letters)), ("isLower()", bool(s) and all("a" <= ch <= "z" for ch in letters)),
                                ("toBool()", bool(s)), ("repeat(1)", s), ("repeat(2)", s * 2), ("split('')", list(s)), ("strip().leftStrip().rightStrip()", s.strip(SP)), ("upper().lower()", low(s)), ("lower().upper()", up(s))])
        if "\0" not in s and "\x1e" not in s:
            items.append(("shown:" + ascii(s), "s = %s; print(s.upper()); print(s.strip()); print(s.collapseSpaces()); print(s.title());" % lit(s), "%s\n%s\n%s\n%s\n" % (up(s), s.strip(SP), collapse(s), title(s))))
    for i in range(len(items)):
        items[i] = tuple(x.encode("latin-1") if isinstance(x, str) and k == 2 else x for k, x in enumerate(items[i]))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


U = strs(" aB", c.pick(6, 8)) + strs(" \tz", c.pick(6, 7)) + strs("\n aZ9", c.pick(5, 6)) + strs("a\0 ", c.pick(4, 6)) + strs(SP, c.pick(4, 5)) + [chr(x) for x in range(256)] + [chr(x) + y for x in range(256) for y in "aA "] + [y + chr(x) for x in range(256) for y in "aA "] + [y + chr(x) + z for x in range(256) for y in "aA " for z in "aA "]
c.explore("unary", unary, mc.chunks(U, 400))


def wraps(sh, item):
    w = mc.worker(EXE)
    items = []
    for s in item:
        calls = [("wrap(%d)" % n, wrap(s, n)) for n in range(-1, len(s) + 2)] + [("wrap(2.5)", wrap(s, 2.5)), ("wrap(1e300)", s), ("wrap(1e300 * 1e300 * 0)", s), ("wrap(-1e300)", wrap(s, -1))]
        add(items, "wrap", s, calls)
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


W = strs("a ", c.pick(12, 14)) + strs("a \n", c.pick(7, 8)) + strs("a\t\0 ", c.pick(4, 5))
c.explore("wrap", wraps, mc.chunks(W, 150))


def longwords(sh, item):
    """Lines of words: every wrapped line is as long as the width allows"""
    w = mc.worker(EXE)
    items = []
    for ws in item:
        s = " ".join("x" * n for n in ws)
        add(items, "wraplong", s, [("wrap(%d)" % n, wrap(s, n)) for n in range(0, len(s) + 2)])
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


c.explore("wraplong", longwords, mc.chunks([t for n in range(1, c.pick(5, 6)) for t in it.product((1, 2, 4, 7), repeat=n)], 80))


# ---------------------------------------------------------------- repeat and format
def repeat(sh, item):
    w = mc.worker(EXE)
    items = []
    for s in item:
        calls = [("repeat(%s)" % t, s * n) for t, n in (("0", 0), ("-1", 0), ("0.5", 0), ("1", 1), ("1.9", 1), ("3", 3), ("7", 7), ("-1e300", 0))]
        if not s:
            calls.append(("repeat(1e300)", ""))
        add(items, "repeat", s, calls)
        for t in ("1e300", "1e300 * 1e300", "2147483647", "4294967297"):
            if s:
                items.append(("huge:%r:%s" % (s, t), "print(%s.repeat(%s).len());" % (lit(s), t), fails(out="")))
        if len(s) > 1 and (len(set(s)) == 1 or s[0] == s[-1]):
            continue
        for n in (100, 255, 256, 1000, 65536):
            items.append(("long:%r:%d" % (s, n), "s = %s.repeat(%d); print(s.len()); print(s.count(%s)); print(s == %s.repeat(%d) + %s.repeat(%d)); print(s.replace(%s, '').len()); print(s.split(%s).len());" % (lit(s), n, lit(s) if len(set(s)) else '"q"', lit(s), n - 1, lit(s), 1, lit(s), lit(s) if s else '"q"'),
                          "%d\n%d\ntrue\n%d\n%d\n" % (len(s) * n, 0 if not s else (n if len(set(s)) else 0), 0, n + 1 if s else 1)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


c.explore("repeat", repeat, mc.chunks(strs("ab", 3) + strs("a\0", 2), 4))
ARGS = [('"x"', "x"), ('""', ""), ("1.5", "1.5"), ('"{}"', "{}"), ("nil", "nil"), ("[1, 'q']", '[1, "q"]'), ('"a\\x00b"', "a\0b"), ("true", "true"), ('"%s"' % ("y" * 300), "y" * 300)]


def fmtchk(sh, item):
    w = mc.worker(EXE)
    items = []
    for s in item:
        n, i = 0, 0
        parts = s.split("{}")
        n = len(parts) - 1
        for k in range(0, 4):
            combos = it.product(ARGS if k < 3 else ARGS[:4], repeat=k) if k == n else [ARGS[:k]]
            if k == n and k > 0:
                calls = []
                for a in combos:
                    exp = parts[0] + "".join(x[1] + p for x, p in zip(a, parts[1:]))
                    calls.append(("format(%s)" % ", ".join(x[0] for x in a), exp))
                add(items, "format", s, calls)
            else:
                items.append(("fmterr:%s:%d" % (ascii(s), k), "print(%s.format(%s));" % (lit(s), ", ".join(x[0] for x in ARGS[:k])), fails(out="")))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


c.explore("format", fmtchk, mc.chunks(strs("{}", c.pick(6, 7)) + strs("{}a", c.pick(5, 6)) + strs("{}\0", 4) + ["a" * n + "{}" + "b" * m for n in (0, 1, 7, 8, 255, 256) for m in (0, 1, 7, 8, 255, 256)], 30))
# ---------------------------------------------------------------- join, the inverse of split
JV = [("''", ""), ("'a'", "a"), ("1", "1"), ("nil", "nil"), ('"a\\x00"', "a\0"), ("[1]", "[1]")]


def joins(sh, item):
    w = mc.worker(EXE)
    items = []
    for l in item:
        src = "[" + ", ".join(t for t, _ in l) + "]"
        for d in (None, "", ",", "ab", "\0", "; "):
            exp = (", " if d is None else d).join(v for _, v in l)
            items.append(("join:%r:%r" % (src, d), "s = %s; d = %s; print(zEq(s.join(%s), %s)); print(zEq(s, d));" % (src, src, "" if d is None else lit(d), lit(exp)), "true\ntrue\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


c.explore("join", joins, mc.chunks([l for n in range(c.pick(5, 6)) for l in it.product(JV, repeat=n)], 300))


def splitjoin(sh, item):
    w = mc.worker(EXE)
    items = []
    for s in item:
        items.append(("rt:" + ascii(s), "".join("print(zEq(%s.split(%s).join(%s), %s)); " % (lit(s), lit(d), lit(d), lit(s)) for d in ("a", "ab", "b", "\0", "aa", "")), "true\n" * 6))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


c.explore("splitjoin", splitjoin, mc.chunks(strs("ab", c.pick(9, 11)) + strs("a\0", c.pick(6, 8)), 300))
# ---------------------------------------------------------------- every method at every size up to a bound, and around the powers of two
def built(t):
    """a string of one expression in the language: a list of (character or text, times)"""
    return " + ".join("%s.repeat(%d)" % (lit(x), n) for x, n in t) or "''", "".join(x * n for x, n in t)


def sized(sh, item):
    w = mc.worker(EXE)
    items = []
    for n in item:
        def K(key, parts, calls):
            e, v = built(parts)
            body = "s = %s; print(s.len());" % e
            want = "%d\n" % len(v)
            for t, x in calls:
                if isinstance(x, list):
                    body += " d = s.%s; print(d.len());" % t
                    want += "%d\n" % len(x)
                    for i in sorted(set((0, 1, len(x) // 2, len(x) - 2, len(x) - 1))):
                        if 0 <= i < len(x):
                            body += " print(d[%d]);" % i
                            want += x[i] + "\n"
                    body += " print(d.join('|').len());"
                    want += "%d\n" % len("|".join(x))
                else:
                    body += " print(s.%s);" % t
                    want += (mc.fmt(x) if isinstance(x, int) and not isinstance(x, bool) else L(x) if not isinstance(x, str) else x) + "\n"
            items.append(("sized:%s:%d" % (key, n), body, want))
        for pre, post in (([], [("q", 1)]), ([("q", 1)], []), ([("q", 2)], [("Q", 3)]), ([], [])):
            parts = pre + [("ab", n)] + post
            v = built(parts)[1]
            K("ab:%r%r" % (pre, post), parts, [("find('ab')", v.find("ab")), ("find('q')", v.find("q")), ("find('Q')", v.find("Q")), ("findLast('ab')", v.rfind("ab")), ("findLast('q')", v.rfind("q")), ("find('ab', %d)" % min(n, 2), 0 if not n else v.find("ab") + 2 * (min(n, 2) - 1)),
                                                ("count('ab')", v.count("ab")), ("count('q')", v.count("q")), ("contains('ba')", "ba" in v), ("contains('Q')", "Q" in v), ("startsWith('a')", v.startswith("a")), ("endsWith('b')", v.endswith("b")), ("endsWith('Q')", v.endswith("Q")),
                                                ("replace('ab', 'x')", v.replace("ab", "x")), ("replace('b', 'xyz')", v.replace("b", "xyz")), ("replace('q', '')", v.replace("q", "")), ("upper()", v.upper()), ("lower()", v.lower()), ("title()", v.title()),
                                                ("split('b')", v.split("b")), ("split('ab')", v.split("ab")), ("split('q')", v.split("q")), ("split('', 3)" if False else "split('a', 2)", v.split("a", 2)), ("isUpper()", False), ("isLower()", v != "" and v == v.lower())])
        v = built([("A", n), ("z", 1), ("B", n)])[1]
        K("case", [("A", n), ("z", 1), ("B", n)], [("lower()", v.lower()), ("upper()", v.upper()), ("isUpper()", False), ("isLower()", n == 0), ("title()", v.title())])
        K("upper", [("A", n)], [("isUpper()", n > 0), ("isLower()", False if n else False), ("title()", ("A" * n).title()), ("lower()", "a" * n)])
        for sp in (" ", "\t", "\n", "\r", "\v", "\f"):
            m = "ab"
            K("strip:%r" % sp, [(sp, n), (m, 1), (sp, n)], [("strip()", m), ("leftStrip()", m + sp * n), ("rightStrip()", sp * n + m), ("strip().len()", 2), ("leftStrip().len()", 2 + n), ("wordCount()", 1)])
        K("spaces", [(" ", n)], [("strip()", ""), ("leftStrip()", ""), ("rightStrip()", ""), ("wordCount()", 0), ("split(' ')", (" " * n).split(" ")), ("title()", " " * n)])
        K("words", [("ab ", n), ("c", 1)], [("wordCount()", n + 1), ("title()", "Ab " * n + "C"), ("split(' ')", ("ab " * n + "c").split(" ")), ("collapseSpaces()", "ab " * n + "c"), ("replace(' ', '')", "ab" * n + "c")])
        K("gaps", [("x", 1), (" ", n), ("y", 1)], [("wordCount()", 1 if n == 0 else 2), ("strip()", "x" + " " * n + "y")])
        K("nul", [("\0", n), ("a", 1), ("\0", n)], [("find('a')", n), ("findLast('a')", n), ("count('\\x00')", 2 * n), ("len()", 2 * n + 1), ("upper().len()", 2 * n + 1), ("replace('\\x00', '')", "a"), ("split('a').len()", 2), ("contains('a')", True)])
        # format: n placeholders, and a text of n characters around one
        if n <= 200:
            items.append(("sized:format:%d" % n, "print('%s'.format(%s));" % ("{}," * n + "{}", ", ".join(["'%s'" % "abc"[i % 3] if i % 2 else str(i % 7) for i in range(n + 1)])), ",".join("abc"[i % 3] if i % 2 else str(i % 7) for i in range(n + 1)) + "\n"))
            items.append(("sized:formata:%d" % n, "print('%s'.format(%s));" % ("{}" * (n + 1), ", ".join([str(i % 7) for i in range(n + 1)])), "".join(str(i % 7) for i in range(n + 1)) + "\n"))
        items.append(("sized:format1:%d" % n, "print((%s).format('x'.repeat(%d), [1]));" % (built([("-", n), ("{}", 1), ("+", n), ("{}", 1), ("*", n)])[0], n), "-" * n + "x" * n + "+" * n + "[1]" + "*" * n + "\n"))
        # join: elements and delimiters of that size
        for k, dl in ((1, 0), (2, 0), (3, 1), (2, 2), (3, 3), (3, 17), (2, n), (4, 64)):
            for el in ("'e'.repeat(%d)" % n, "['e'.repeat(%d)]" % n, "7"):
                t = "e" * n if el[0] == "'" else '["%s"]' % ("e" * n) if el[0] == "[" else "7"
                items.append(("sized:join:%d:%d:%d:%s" % (n, k, dl, el), "print([%s].join('d'.repeat(%d)));" % (", ".join([el] * k), dl), ("d" * dl).join([t] * k) + "\n"))
                items.append(("sized:joinmix:%d:%d:%d:%s" % (n, k, dl, el), "print([%s].join('d'.repeat(%d)));" % (", ".join(["'f'", el, "nil"] * k), dl), ("d" * dl).join(["f", t, "nil"] * k) + "\n"))
        items.append(("sized:joinn:%d" % n, "d = []; for (var i = 0; i < %d; i += 1) { d.push(i); } print(d.join()); print(d.join('')); print(d.join(', -'));" % n, "%s\n%s\n%s\n" % (", ".join(map(str, range(n))), "".join(map(str, range(n))), ", -".join(map(str, range(n))))))
        # comparison and concatenation, differing only at the end
        items.append(("sized:cmp:%d" % n, "s = 'm'.repeat(%d); print(s + 'a' == s + 'a'); print(s + 'a' == s + 'b'); print(s + 'a' < s + 'b'); print(s < s + 'a'); print(s + 'b' > s + 'ab'); print({s + 'a': 1, s + 'b': 2}.len()); print({s + 'a': 1, s + 'b': 2}[s + 'b']); print(set(s, s + 'a', s + 'b').len()); print((s + 'ab')[%d]); print((s + s).len());" % (n, n), "true\nfalse\ntrue\ntrue\ntrue\n2\n2\n3\na\n%d\n" % (2 * n)))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=400)


SIZES = sorted(set(list(range(c.pick(72, 300))) + [x + y for x in (96, 100, 128, 192, 200, 255, 256, 384, 500, 512, 1000, 1023, 1024, 2048, 4096) for y in (-2, -1, 0, 1, 2)] + ([8192, 16384, 65535, 65536, 65537] if not c.quick else [])))
c.explore("sized", sized, mc.chunks(SIZES, 4))
# ---------------------------------------------------------------- the same under the address sanitiser, which sees any byte outside of the strings
c0 = EXE
if True:
    small = strs("a ", 4) + strs("a\0", 3) + strs(" \t", 4)

    def asan(sh, item):
        global EXE
        EXE = ASAN
        search(sh, ("a ", 2, item))
        replace(sh, ("a ", 2, item, ["", "a", "xyz"]))
        unary(sh, item)
        wraps(sh, item)
        repeat(sh, [x for x in item if len(x) < 3])
        EXE = c0
    c.explore("asan", asan, mc.chunks(small, 8))


# ---------------------------------------------------------------- arguments of another kind or number
BAD = ["nil", "true", "1", "[]", "{}", "set()", "def () => 1"]


def bad(sh, item):
    w = mc.worker(EXE)
    items = []
    for call in item:
        items.append(("bad:" + call, 's = "a b"; print(s.%s);' % call, fails(out="")))
        items.append(("after:bad:" + call, 'print(s); print(s.len());', "a b\n3\n"))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800, by_source=True)


calls = []
for m in ("contains", "startsWith", "endsWith", "count", "findLast", "find", "split"):
    calls += ["%s(%s)" % (m, b) for b in BAD] + [m + "()"] + ["%s('a', 1, 2)" % m]
    calls += ["%s('a', %s)" % (m, b) for b in BAD + ["'a'"] if not (b == "1" and m in ("find", "split"))]
calls += ["replace(%s, %s)" % (a, b) for a in BAD + ["'a'"] for b in BAD + ["'a'"] if (a, b) != ("'a'", "'a'")] + ["replace()", "replace('a')", "replace('a', 'b', 'c')"]
calls += ["%s(%s)" % (m, b) for m in ("repeat", "wrap") for b in BAD + ["'a'"] if b != "1"] + [m + x for m in ("repeat", "wrap") for x in ("()", "(1, 1)")]
calls += ["%s(1)" % m for m in ("len", "upper", "lower", "title", "strip", "leftStrip", "rightStrip", "collapseSpaces", "wordCount", "isUpper", "isLower", "toNumber", "toBool")] + ["format()", "format(1)", "join('a')", "nothing()", "find('a', '1')"]
c.explore("bad", bad, mc.chunks(calls, 100))
c.bounds = dict(search="receivers up to %d over {a,b} x needles up to 3; with NUL and non-ASCII characters up to %d" % (c.pick(9, 11), c.pick(6, 7)), whitespace="receivers up to %d" % c.pick(6, 8), wrap="receivers up to %d x every width" % c.pick(12, 14), format="templates up to %d x argument kinds" % c.pick(6, 7))
c.finish()

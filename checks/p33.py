"""P33: Sqlite. All short histories of statements on one and on two connections, in lockstep with Python's binding of the same library as the oracle for
what SQL prescribes; all kinds of values through parameters and columns; failures of every kind, including of every single write."""
import os, sys, itertools as it, sqlite3, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, warnings
warnings.simplefilter("ignore")

c = mc.Check("P33", rule="one history of statements, or one value through one column; non-trivial = distinct (statements, results)",
             assumptions=["the library sqlite3 itself is right; Python's module over the same library is the oracle", "error texts are unspecified", "numbers are bound as SQL reals"])
EXE = c.build("plain")
ASAN = c.build("asan")
FEXE = c.build("plain", name="fault", extra_wraps=("write", "sendfile", "read"))
PRE = """import Sqlite;
def sh(v) { if (type(v) == 'string') { return 's' + v.len().toString() + ':' + v; } return '{}'.format(v); }
def r(x) { if (not x.success()) { print('err'); return; } var l = x.unwrap(); if (l == nil) { print('nil'); return; } print(l.len()); l.forEach(def (row) => { print(row.map(def (v) => [sh(v)]).map(def (v) => v[0]).join('|')); }); }
"""
PRE = PRE.replace("print(row.map(def (v) => [sh(v)]).map(def (v) => v[0]).join('|'));", "var s = ''; row.forEach(def (v) => { s += sh(v) + '|'; }); print(s);")


def q(b):
    """Dictu literal of a byte string"""
    return b"'" + b"".join(b"\\x%02x" % x if x < 32 or x in (39, 92) or x > 126 else bytes([x]) for x in b) + b"'"


def lit(v):
    if v is None:
        return b"nil"
    if isinstance(v, (int, float)):
        return repr(v).encode() if v == v and abs(v) != float("inf") else b"(0/0)" if v != v else b"(1/0)" if v > 0 else b"(-1/0)"
    return q(v if isinstance(v, bytes) else v.encode())


def showv(v):
    if v is None:
        return b"nil"
    if isinstance(v, (int, float)):
        return mc.fmt(float(v)).encode()
    b = v if isinstance(v, bytes) else v.encode("utf-8", "surrogateescape")
    return b"s%d:" % len(b.decode("utf-8", "surrogateescape").encode("utf-8", "surrogateescape")) + b


def rows(res):
    if res == "err":
        return b"err\n"
    if res is None:
        return b"nil\n"
    return b"%d\n" % len(res) + b"".join(b"".join(showv(v) + b"|" for v in row) + b"\n" for row in res)


class Conn:
    def __init__(self, path, timeout=0.0):
        self.c = sqlite3.connect(path, timeout=timeout, isolation_level=None, cached_statements=0)
        self.c.execute("PRAGMA foreign_keys = ON")
        self.c.text_factory = bytes

    def run(self, sql, args=()):
        try:
            cur = self.c.execute(sql, [float(a) if isinstance(a, int) else a for a in args])
            out = cur.fetchall()
            return out if cur.description is not None else None
        except sqlite3.Error:
            return "err"

    def close(self):
        self.c.close()


def case(sh, w, key, srcs, want, gc=(0, 0, 0), timeout=30.0):
    """srcs: Dictu sources; want: [(rc, bytes)]"""
    r = mc.run_confirm(w, srcs=[("case.du", s) for s in srcs], gc=gc, flags=16, timeout=timeout)
    o = r.out.split(b"\x1e")
    sh.evals += 1
    sh.transitions += len(srcs)
    sh.state((key, tuple(o)))
    for j, (rc, out) in enumerate(want):
        if r.crash or j >= len(r.rcs) or r.rcs[j] != rc or (out is not None and o[j] != out):
            sh.violate(key, "%s: source %d %s\n    expected %s %r\n    observed %s %r %s %s" % (key, j + 1, srcs[j][:200], rc, out, r.rcs[j] if j < len(r.rcs) else "-", o[j][:300] if j < len(o) else "-", r.crash or "", r.etext[-200:]), program=[s if isinstance(s, str) else s.decode("latin-1") for s in srcs])
            return False
    return True


# ---------------------------------------------------------------- histories on one connection
SETUP = ["CREATE TABLE t (id INTEGER PRIMARY KEY, v, w TEXT UNIQUE)", "CREATE TABLE u (k INTEGER, tid INTEGER REFERENCES t(id))"]
OPS = [("INSERT INTO t (v, w) VALUES (?, ?)", (1, "a")), ("INSERT INTO t (v, w) VALUES (?, ?)", (2.5, "b")), ("INSERT INTO t (v, w) VALUES (?, ?)", (None, None)), ("INSERT INTO t VALUES (?, ?, ?)", (1, "x", "c")), ("INSERT INTO t (v, w) SELECT v, NULL FROM t", ()), ("INSERT OR REPLACE INTO t VALUES (1, 'r', ?)", ("a",)),
       ("INSERT INTO u VALUES (?, ?)", (7, 1)), ("INSERT INTO u VALUES (8, 2)", ()), ("UPDATE t SET v = ? WHERE id = ?", ("up", 1)), ("UPDATE t SET w = 'a'", ()), ("UPDATE t SET v = v + 1", ()), ("DELETE FROM t WHERE id = ?", (1,)), ("DELETE FROM t", ()), ("DELETE FROM u", ()), ("SELECT * FROM t", ()), ("select v, count(*) from t group by v order by v", ()),
       ("  SELECT id FROM t WHERE v = ?", ("none",)), ("WITH s AS (SELECT * FROM u) SELECT * FROM s", ()), ("BEGIN", ()), ("COMMIT", ()), ("ROLLBACK", ()), ("SAVEPOINT s", ()), ("ROLLBACK TO s", ()), ("RELEASE s", ()), ("DROP TABLE u", ()), ("DROP TABLE t", ()), ("CREATE TABLE t (id INTEGER)", ()), ("CREATE TABLE IF NOT EXISTS n (a)", ()), ("ALTER TABLE t ADD COLUMN z DEFAULT 'dz'", ()), ("SELECT * FROM nosuch", ()), ("INSERT INTO t (v) VALUES (", ()),
       ("UPDATE t SET v = 9 RETURNING id, v", ()), ("INSERT INTO t (id) VALUES (1), (50), (1)", ()), ("CREATE VIEW vw AS SELECT v FROM t", ()), ("SELECT * FROM vw", ()), ("PRAGMA foreign_keys = OFF", ()), ("PRAGMA foreign_keys", ()), ("REPLACE INTO t (id, v) VALUES (2, 'two?')", ()), ("CREATE TRIGGER tr AFTER DELETE ON t BEGIN INSERT INTO u VALUES (old.id, NULL); END", ())]
LOOK = ["SELECT * FROM t", "SELECT * FROM u", "SELECT name FROM sqlite_master ORDER BY name"]


def src(conn, sql, args=None):
    return ("r(%s.execute(%s" % (conn, lit(sql).decode())).encode() + (b"" if not args else b", [" + b", ".join(lit(a) for a in args) + b"]") + b"));"


def one(sh, item):
    exe, first, depth, gc = item
    w = mc.worker(exe)
    for n in range(depth):
        for rest in it.product(range(len(OPS)), repeat=n):
            seq = [OPS[k] for k in (first,) + rest]
            p = Conn(":memory:")
            srcs = [PRE + "var c = Sqlite.connect(':memory:').unwrap();"] + [src("c", s) for s in SETUP]
            want = [("0", b"")] + [("0", rows(p.run(s))) for s in SETUP]
            for s, a in seq + [(s, ()) for s in LOOK]:
                srcs.append(src("c", s, a))
                want.append(("0", rows(p.run(s, a))))
            p.close()
            case(sh, w, "one:%s" % ",".join(map(str, (first,) + rest)), srcs, want, gc)
            if len(sh.violations) > 3:
                return


c.explore("one", one, [(EXE, k, 3, (0, 0, 0)) for k in range(len(OPS))] + [(ASAN, k, 2, (4, 2, 0)) for k in range(0, len(OPS), c.pick(4, 1))])
if not c.quick:
    c.explore("one_deeper", one, [(EXE, k, 4, (0, 0, 0)) for k in range(len(OPS)) if k in (0, 3, 6, 12, 18, 21, 24, 32)])
c.bounds["one"] = "all histories of up to %d of %d statements on one connection" % (c.pick(3, 4), len(OPS))

# ---------------------------------------------------------------- two connections to one file
OPS2 = [(k, s, a) for k in ("c", "d") for s, a in [("INSERT INTO t VALUES (?)", (1,)), ("UPDATE t SET v = v + ?", (10,)), ("SELECT * FROM t", ()), ("BEGIN", ()), ("BEGIN IMMEDIATE", ()), ("COMMIT", ()), ("ROLLBACK", ()), ("DELETE FROM t", ()), ("CREATE TABLE x (a)", ()), ("INSERT INTO x VALUES ('x')", ()), ("SELECT * FROM x", ()), ("close", ()), ("reopen", ())]]


def two(sh, item):
    exe, first, depth, gc = item
    w = mc.worker(exe)
    d = tempfile.mkdtemp(dir=mc.run_dir())
    n = 0
    for k in range(depth):
        for rest in it.product(range(len(OPS2)), repeat=k):
            seq = [OPS2[j] for j in (first,) + rest]
            n += 1
            f1, f2 = "%s/a%d" % (d, n), "%s/b%d" % (d, n)
            P = {"c": Conn(f1), "d": Conn(f1)}
            con = "%s = Sqlite.connect('" + f2 + "', 0).unwrap(); %s.execute('PRAGMA synchronous = OFF'); "
            srcs = [PRE + "var c = nil; var d = nil; " + con % ("c", "c") + con % ("d", "d"), src("c", "CREATE TABLE t (v)")]
            want = [("0", b""), ("0", rows(P["c"].run("CREATE TABLE t (v)")))]
            for x in P.values():
                x.run("PRAGMA synchronous = OFF")
            for k2, s, a in seq + [("c", "SELECT * FROM t", ()), ("d", "SELECT * FROM t", ()), ("c", "SELECT * FROM x", ())]:
                if s == "close":
                    if P[k2]:
                        P[k2].close()
                    P[k2] = None
                    srcs.append("%s.close();" % k2)
                    want.append(("0", b""))
                elif s == "reopen":
                    if P[k2]:
                        P[k2].close()
                    P[k2] = Conn(f1)
                    P[k2].run("PRAGMA synchronous = OFF")
                    srcs.append("%s.close(); " % k2 + con % (k2, k2))
                    want.append(("0", b""))
                else:
                    srcs.append(src(k2, s, a))
                    want.append(("0", rows(P[k2].run(s, a) if P[k2] else "err")))
            for x in P.values():
                if x:
                    x.close()
            ok = case(sh, w, "two:%s" % ",".join(map(str, (first,) + rest)), srcs, want, gc)
            if ok:
                # what another program sees afterwards
                a, b = Conn(f1, 1), Conn(f2, 1)
                for s in ("SELECT * FROM t", "SELECT * FROM x", "PRAGMA integrity_check"):
                    if a.run(s) != b.run(s):
                        sh.violate("two:%s:after" % ((first,) + rest,), "%s: the file gives %r for %s, expected %r" % (seq, b.run(s), s, a.run(s)))
                a.close()
                b.close()
            for f in (f1, f2):
                for e in ("", "-journal"):
                    if os.path.exists(f + e):
                        os.unlink(f + e)
            if len(sh.violations) > 3:
                return
    shutil.rmtree(d)


c.explore("two", two, [(EXE, k, c.pick(3, 4) if k < len(OPS2) // 2 else 3, (0, 0, 0)) for k in range(len(OPS2))] + [(ASAN, k, c.pick(1, 2), (4, 3, 0)) for k in range(len(OPS2))])
c.bounds["two"] = "all histories of up to %d of %d operations of two connections to one file, no waiting" % (c.pick(3, 4), len(OPS2))

# ---------------------------------------------------------------- values
NUMS = [0, -0.0, 1, -1, 1.5, 0.1, 255, 256, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, -2 ** 53, 2 ** 53 + 2, 2 ** 62, 1e15, 1e16, 1e17, 1e300, 1.7976931348623157e308, 5e-324, -5e-324, float("inf"), float("-inf")]
TEXTS = [b"", b"a", b"'", b'"', b"?", b"??", b"1", b"1.0", b"1e5", b" 1", b"nil", b"NULL", b"\x00", b"a\x00b", b"\x00\x00", b"\n", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xff", b"\xff\xfe", b"a\xffb", b"--", b"/*", b"x'00'", b"');", b"%s", b"\\", b"{}"]
TYPES = ["", "INTEGER", "REAL", "TEXT", "BLOB", "NUMERIC", "VARCHAR(3)", "BOOLEAN"]


def values(sh, item):
    exe, kind, part, gc = item
    w = mc.worker(exe)
    con = PRE + "var c = Sqlite.connect(':memory:').unwrap(); "
    if kind == "direct":
        vals = NUMS + TEXTS + [None] + [bytes([x]) for x in range(256)] + ([bytes([x, y]) for x in range(256) for y in (0, 39, 65, 128, 255)] if not c.quick else []) + [b"y" * n for n in list(range(0, 70)) + [255, 256, 1000, 4095, 4096, 65535, 65536, 1000000]] + [b"\x00" * n for n in (3, 16, 255, 256, 5000)]
        for v in vals[part::4]:
            same = lit(v)
            code = b"var v = " + same + b"; var l = c.execute('SELECT ?', [v]).unwrap(); print(l.len()); print(l[0].len()); print(l[0][0] == v); print(type(l[0][0]) == type(v)); c.execute('CREATE TABLE t (a, b)').unwrap(); c.execute('INSERT INTO t VALUES (?, ?)', [v, v]).unwrap(); l = c.execute('SELECT a, b FROM t').unwrap(); print(l == [[v, v]]); print(c.execute('SELECT count(*) FROM t WHERE a = ?', [v]).unwrap()); c.execute('UPDATE t SET b = ? WHERE a IS ?', [nil, v]); print(c.execute('SELECT * FROM t').unwrap() == [[v, nil]]); print(c.execute('SELECT cast(a AS BLOB) FROM t').unwrap()[0][0] == v or type(v) == 'number');"
            case(sh, w, "direct:%r" % (v if not isinstance(v, bytes) or len(v) < 40 else (v[:10], len(v)),), [con.encode(), code], [("0", b""), ("0", b"1\n1\ntrue\ntrue\ntrue\n[[%d]]\ntrue\ntrue\n" % (v is not None))], gc)
    elif kind == "columns":
        # every value into every column type, against the oracle
        p = Conn(":memory:")
        p.run("CREATE TABLE t (%s)" % ", ".join("c%d %s" % (k, t) for k, t in enumerate(TYPES)))
        srcs, want = [con, src("c", "CREATE TABLE t (%s)" % ", ".join("c%d %s" % (k, t) for k, t in enumerate(TYPES)))], [("0", b""), ("0", b"nil\n")]
        for v in NUMS + TEXTS + [None]:
            pv = v
            if isinstance(v, bytes):
                try:
                    pv = v.decode()
                except UnicodeDecodeError:
                    continue
            for s, a, pa in (("DELETE FROM t", (), ()), ("INSERT INTO t VALUES (%s)" % ", ".join("?" * len(TYPES)), [v] * len(TYPES), [pv] * len(TYPES)), ("SELECT * FROM t", (), ()), ("SELECT typeof(c0), typeof(c1), typeof(c2), typeof(c3), typeof(c4), typeof(c5), typeof(c6) FROM t", (), ()), ("SELECT c0 || '', length(c3), c1 + 1, abs(c2), c3 = ?, ? < 5, coalesce(?, 'n') FROM t", (v, v, v), (pv, pv, pv))):
                srcs.append(src("c", s, a))
                want.append(("0", rows(p.run(s, pa))))
        for k in range(2, len(srcs), 100):
            case(sh, w, "columns:%d" % k, srcs[:2] + srcs[k:k + 100], want[:2] + want[k:k + 100], gc)
        exprs = ["1", "1.5", "NULL", "'t'", "''", "x''", "x'00'", "x'00ff27'", "zeroblob(5)", "1 = 1", "9007199254740993", "-9223372036854775808", "1e400", "-1e400", "1/0", "'a' || x'00' || 'b'", "char(0)", "char(65, 0, 66)", "hex(x'ab')", "date('2020-01-01')", "count(*)", "sum(1)", "group_concat('a')", "(SELECT 5)", "cast(1 AS TEXT)", "cast('1x' AS INTEGER)", "typeof(1)", "typeof(x'00')", "'?'", "\"?\"", "'?' || '?'", "1 /* ? */", "'it''s ?'", "2"]
        for n in (1, 2, 3) if not c.quick else (1, 2):
            srcs, want = [con], [("0", b"")]
            for e in it.product(exprs, repeat=n):
                s = "SELECT " + ", ".join(e)
                srcs.append(src("c", s))
                want.append(("0", rows(p.run(s))))
                if len(srcs) > 200:
                    case(sh, w, "exprs:%s" % s, srcs, want, gc)
                    srcs, want = [con], [("0", b"")]
            case(sh, w, "exprs:%d" % n, srcs, want, gc)
    elif kind == "counts":
        # numbers of parameters, columns and rows
        for n in list(range(0, 41)) + [100, 255, 256, 257, 999, 1000]:
            s = "var l = []; for (var k = 0; k < %d; k += 1) { l.push(k * 2); } var m = []; for (var k = %d; k > 0; k -= 1) { m.push(k % 3 == 0 ? nil : k % 3 == 1 ? k : k.toString()); }" .replace("%d", str(n))
            b = ("var e = c.execute('SELECT %s', l).unwrap(); print(e == [l]); e = c.execute('SELECT %s', m).unwrap(); print(e == [m]); e = c.execute('VALUES %s', l).unwrap(); print(e.len()); var ok = true; for (var k = 0; k < e.len(); k += 1) { ok = ok and e[k] == [k * 2]; } print(ok);" % (", ".join("?" * n), ", ".join("?" * n), ", ".join(["(?)"] * n))) if 0 < n < 1000 else "print(true); print(true); print(%d); print(true);" % n
            t = "c.execute('CREATE TABLE r (a INTEGER PRIMARY KEY, b)').unwrap(); for (var k = 0; k < %d; k += 1) { c.execute('INSERT INTO r (b) VALUES (?)', [m[k]]).unwrap(); } e = c.execute('SELECT b FROM r ORDER BY a').unwrap(); print(e.len()); ok = true; for (var k = 0; k < e.len(); k += 1) { ok = ok and e[k] == [m[k]]; } print(ok); print(c.execute('SELECT count(*) FROM r').unwrap());" .replace("%d", str(n))
            if not 0 < n < 1000:
                t = "var e = nil; var ok = true; " + t
            case(sh, w, "counts:%d" % n, [con, s, b + t], [("0", b""), ("0", b""), ("0", ("true\ntrue\n%d\ntrue\n%d\ntrue\n[[%d]]\n" % (n, n, n)).encode())], gc)
        # wrong numbers, named and numbered parameters
        for s, n in (("SELECT 1", 0), ("SELECT ?", 1), ("SELECT ?, ?", 2), ("SELECT ?2", 2), ("SELECT ?1, ?1", 1), ("SELECT :a, :b", 2), ("SELECT :a, :a", 1), ("SELECT @a, $b", 2), ("SELECT '?'", 0), ("SELECT '?', ?", 1), ("SELECT 1 -- ?", 0), ("SELECT /* ? */ ?", 1), ("SELECT \"?\"", 0), ("INSERT INTO t VALUES (?)", 1), ("DELETE FROM t WHERE a = ?", 1), ("UPDATE t SET a = '?'", 0), ("INSERT INTO t VALUES ('?')", 0), ("SELECT a AS `?` FROM t", 0), ("SELECT a AS [?] FROM t", 0)):
            for k in range(0, 5):
                p = Conn(":memory:")
                for z in ("CREATE TABLE t (a)", "INSERT INTO t VALUES ('old')"):
                    p.run(z)
                a = [10 + j for j in range(k)]
                if k == n:
                    e = p.run(s, dict(zip(("a", "b"), a)) if ":a" in s or "@a" in s else a) if not (":a" in s or "@a" in s) else [tuple(map(float, (a * 2)[:2] if ":a, :a" in s else a))]
                srcs = [con, src("c", "CREATE TABLE t (a)"), src("c", "INSERT INTO t VALUES ('old')"), src("c", s, a)] + ([src("c", s)] if k == 0 else [("r(c.execute(%s, []));" % lit(s).decode())] if n == 0 and k == 0 else []) + [src("c", "SELECT * FROM t")]
                want = [("0", b""), ("0", b"nil\n"), ("0", b"nil\n")] + [("0", rows(e)) if k == n else ("2", b"")]
                if k == 0:
                    want.append(("0", rows(p.run(s))) if n == 0 else ("2", b""))
                want.append(("0", rows(p.run("SELECT * FROM t"))))
                case(sh, w, "params:%s:%d" % (s, k), srcs, want, gc)


c.explore("values", values, [(EXE, k, p, (0, 0, 0)) for k, n in (("direct", 4), ("columns", 1), ("counts", 1)) for p in range(n)] + [(ASAN, k, p, (0, 0, 0)) for k, n in (("direct", 4), ("columns", 1), ("counts", 1)) for p in range(n) if not c.quick or k != "columns"])


# ---------------------------------------------------------------- misuse and failures
def misuse(sh, item):
    exe, gc = item
    bad = [("c.execute()", "2"), ("c.execute(1)", "2"), ("c.execute(nil)", "2"), ("c.execute(['SELECT 1'])", "2"), ("c.execute('SELECT 1', 1)", "2"), ("c.execute('SELECT ?', 'a')", "2"), ("c.execute('SELECT ?', nil)", "2"), ("c.execute('SELECT ?', {'a': 1})", "2"), ("c.execute('SELECT 1', [], 1)", "2"), ("c.close(1)", "2"), ("Sqlite.connect()", "2"), ("Sqlite.connect(1)", "2"), ("Sqlite.connect(':memory:', 'a')", "2"), ("Sqlite.connect(':memory:', 1, 1)", "2"),
           ("c.execute('')", "err"), ("c.execute(' ')", "err"), ("c.execute('-- nothing')", "err"), ("c.execute(';')", "err"), ("c.execute('SELEC 1')", "err"), ("c.execute('SELECT 1; SELECT 2')", "err"), ("c.execute('INSERT INTO t VALUES (5); INSERT INTO t VALUES (6)')", "err"), ("c.execute('INSERT INTO t VALUES (5); garbage')", "err"), ("c.execute('INSERT INTO t VALUES (5)\\x00')", "err"), ("c.execute('SELECT 1\\x00, 2')", "err"), ("c.execute('INSERT INTO t VALUES (1, 2)')", "err"), ("c.execute('INSERT INTO t VALUES (?)', [1])", "err"), ("c.execute('SELECT * FROM nosuch')", "err"), ("c.execute('COMMIT')", "err"), ("c.execute('ROLLBACK')", "err"), ("c.execute('INSERT INTO t SELECT 5 UNION SELECT abs(-9223372036854775808)')", "err"), ("c.execute('INSERT INTO t VALUES (7), (1)')", "err"), ("c.execute('SELECT ' + 'x'.repeat(2000))", "err"), ("c.execute('('.repeat(5000))", "err"), ("c.execute('ATTACH DATABASE \"/nosuch/dir/f\" AS z')", "err"), ("Sqlite.connect('/nosuch/dir/file')", "err"), ("Sqlite.connect('.')", "err"), ("Sqlite.connect('x\\x00y')", "err"), ("Sqlite.connect('y'.repeat(5000))", "err"),
           ("c.execute('INSERT INTO t VALUES (8);')", "ok"), ("c.execute('INSERT INTO t VALUES (8); ; -- end')", "ok"), ("c.execute('SELECT 1 /* one */;')", "ok"), ("Sqlite.connect('')", "ok"), ("Sqlite.connect(':memory:', 0)", "ok"), ("Sqlite.connect(':memory:', -1)", "ok")]
    bad += [("c.execute('%s', [%s])" % (s, v), "2") for s in ("SELECT ?", "INSERT INTO t VALUES (?)", "UPDATE t SET a = ?") for v in ("true", "false", "[]", "['a']", "{}", "set()", "def () => 1", "Sqlite", "c", "Success(1)")] + [("c.execute('INSERT INTO t VALUES (?), (?)', [%s, %s])" % v, "2") for v in it.permutations(("11", "true", "'a'", "[1]"), 2) if "true" in v or "[1]" in v]
    w = mc.worker(exe)
    for (x, ex), (y, ey), closed in it.product(bad, bad[::5] if c.quick else bad, (0, 1)):
        srcs = [PRE + "var c = Sqlite.connect(':memory:').unwrap();", "c.execute('CREATE TABLE t (a PRIMARY KEY)'); c.execute('INSERT INTO t VALUES (1)'); print(c.execute('SELECT a FROM t').unwrap());"] + (["c.close(); c.close();"] if closed else [])
        want = [("0", b""), ("0", b"[[1]]\n")] + ([("0", b"")] if closed else [])
        n = 1
        for e, k in ((x, ex), (y, ey)):
            ok = k == "ok" and not (closed and e.startswith("c.e"))
            if k == "ok" and "VALUES (8)" in e and not closed:
                n += 1
                if n > 2:
                    ok = False
            srcs.append("print(%s.success());" % e if k != "2" or closed and e.startswith("c.execute") and "'" in e else e + ";")
            if k == "2":
                if closed and e.startswith("c.e"):
                    # both are failures
                    srcs[-1] = e + ";"
                    want.append((None, b""))
                else:
                    want.append(("2", b""))
            else:
                want.append(("0", b"true\n" if ok else b"false\n"))
        n = min(n, 2)
        srcs.append("r(c.execute('SELECT a FROM t'));")
        want.append(("0", b"err\n" if closed else rows([(1,)] + [(8,)] * (n - 1))))
        r = mc.run_confirm(w, srcs=[("case.du", s) for s in srcs], gc=gc, flags=16)
        o = r.out.split(b"\x1e")
        sh.evals += 1
        sh.transitions += 3
        sh.state((x, y, closed, tuple(o)))
        if r.crash or len(r.rcs) != len(srcs) or any((rc is not None and r.rcs[j] != rc) or o[j] != out for j, (rc, out) in enumerate(want)):
            sh.violate("misuse:%s:%s:%d" % (x, y, closed), "after %s and %s%s: expected %s, observed %s %s %s" % (x, y, " (closed)" if closed else "", want[2:], r.rcs, o, r.crash or ""), program=srcs)
            if len(sh.violations) > 3:
                return


c.explore("misuse", misuse, [(EXE, (0, 0, 0)), (ASAN, (0, 0, 0) if c.quick else (1, 0, 0))])


def files(sh, item):
    """databases that can not be opened, read or written; writes that fail"""
    w = mc.worker(EXE, cwd_files={"text.db": "this is not a database, by far not, it is text\n" * 40, "empty.db": "", "dir.db": None})
    for f, conn_ok, ex in (("text.db", None, False), ("empty.db", True, True), ("dir.db", None, False), ("new.db", True, True), ("nosuch/new.db", None, False), ("file:mem?mode=memory", None, None)):
        srcs = [PRE + "var x = Sqlite.connect('%s', 0); var c = x.success() ? x.unwrap() : nil; print(c == nil ? 'no' : c.execute('CREATE TABLE t (a)').success() ? 'yes' : 'no');" % f, "if (c != nil) { r(c.execute('INSERT INTO t VALUES (5)')); r(c.execute('SELECT * FROM t')); c.close(); }"]
        r = mc.run_confirm(w, srcs=[("case.du", s) for s in srcs], flags=16 | 512)
        o = r.out.split(b"\x1e")
        sh.evals += 1
        sh.state((f, tuple(o)))
        if r.crash or r.rcs != ["0", "0"] or ex is not None and (o[0] != (b"yes\n" if ex else b"no\n") or o[1] not in ((b"nil\n1\n5|\n",) if ex else (b"", b"err\nerr\n"))):
            sh.violate("open:" + f, "%s: %s %s %s" % (f, r.rcs, o, r.crash))
    # the n-th write of the process fails
    for n in range(1, c.pick(60, 400)):
        for mode in ("DELETE", "TRUNCATE", "PERSIST", "MEMORY", "WAL"):
            d = tempfile.mkdtemp(dir=mc.run_dir())
            w2 = mc.worker(FEXE, env={"MC_FAULT": "fail:%d" % n})
            ops = ["CREATE TABLE t (a PRIMARY KEY, b)", "INSERT INTO t VALUES (1, 'one')", "INSERT INTO t VALUES (2, 'two')", "UPDATE t SET b = 'new'", "BEGIN", "INSERT INTO t VALUES (3, 'three')", "DELETE FROM t WHERE a = 1", "COMMIT", "INSERT INTO t VALUES (4, 'four')"]
            srcs = [PRE + "var c = Sqlite.connect('%s/db', 0).unwrap(); c.execute('PRAGMA journal_mode = %s'); def s(q) { print(c.execute(q).success()); }" % (d, mode)] + ["s(\"%s\");" % x for x in ops] + ["c.close();"]
            r = mc.run_confirm(w2, srcs=[("case.du", s) for s in srcs], flags=16)
            o = r.out.split(b"\x1e")
            sh.evals += 1
            sh.transitions += len(ops)
            key = "write:%s:%d" % (mode, n)
            if r.crash or r.rcs != ["0"] * len(srcs):
                sh.violate(key, "%s %s %s" % (key, r.crash, r.rcs), program=srcs)
                return
            p = Conn(":memory:")
            done = [x == b"true\n" for x in o[1:len(ops) + 1]]
            sh.state((mode, tuple(done)))
            # what was reported as done, and nothing else, is there
            txn, keep = None, []
            for x, okd in zip(ops, done):
                if x == "BEGIN" and okd:
                    txn = []
                elif x == "COMMIT":
                    if okd and txn is not None:
                        keep += txn
                    txn = None
                elif okd:
                    (keep if txn is None else txn).append(x)
            for x in keep:
                p.run(x)
            want = p.run("SELECT * FROM t")
            p.close()
            try:
                a = Conn(d + "/db", 1)
                got = a.run("SELECT * FROM t")
                integ = a.run("PRAGMA integrity_check")
                a.close()
            except sqlite3.Error as e:
                got = integ = str(e)
            if mode != "MEMORY" and (got != want or integ != [(b"ok",)]):
                sh.violate(key, "%s: reported %s, the file has %r expected %r, integrity %s" % (key, list(zip(ops, done)), got, want, integ), program=srcs)
            w2.close() if hasattr(w2, "close") else None
            mc._close_workers()
            w = mc.worker(EXE)
            shutil.rmtree(d)
            if len(sh.violations) > 3:
                return


c.explore("files", files, [0])


def collected(sh, item):
    """connections that are no longer reachable are closed without losing or keeping what should not be"""
    exe, = item
    w = mc.worker(exe)
    d = tempfile.mkdtemp(dir=mc.run_dir())
    for n, (mid, left) in enumerate((("", 1), ("c.execute('BEGIN'); c.execute('INSERT INTO t VALUES (2)');", 1), ("c.execute('BEGIN'); c.execute('INSERT INTO t VALUES (2)'); c.execute('COMMIT');", 2), ("c.execute('SELECT nosuch');", 1), ("c.close();", 1), ("var e = c.execute; c = nil; e('INSERT INTO t VALUES (3)');" if False else "var l = [c, c];", 1))):
        for j, end in enumerate(("c = nil; GC.collect();", "c = nil;", "", "nil.zz;", "c = Sqlite.connect(':memory:').unwrap(); var c2 = Sqlite.connect(p, 0).unwrap();")):
            p = "%s/f%d_%d" % (d, n, j)
            src_ = PRE + "var p = '%s'; { var c = Sqlite.connect(p, 0).unwrap(); c.execute('CREATE TABLE t (a)').unwrap(); c.execute('INSERT INTO t VALUES (1)').unwrap(); %s %s }" % (p, mid, end.replace("GC.collect();", "var l9 = []; for (var k = 0; k < 20000; k += 1) { l9.push([k]); }"))
            r = mc.run_confirm(w, srcs=[("case.du", src_)], flags=16, gc=(1, 0, 0) if exe == ASAN and not "GC" in end else (0, 0, 0))
            sh.evals += 1
            a = Conn(p, 1)
            got = a.run("SELECT count(*) FROM t")
            a.close()
            sh.state((n, j, str(got)))
            if r.crash or r.rcs != ["2" if "nil.zz" in end else "0"] or got != [(left,)]:
                sh.violate("collected:%d:%d" % (n, j), "%s: %s %s, the file has %s rows" % (src_, r.crash, r.rcs, got))
    shutil.rmtree(d)


c.explore("collected", collected, [(EXE,), (ASAN,)])
c.finish()

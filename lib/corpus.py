"""Small deterministic programs that together run every opcode, every kind of object and every built-in, on freshly allocated values.

Each entry is (name, source). `S(x)` etc. below build fresh heap values at run time (never interned constants only).
"""
import itertools as it

# helpers available to every program: they return values nothing else refers to
PRE = """def S(x) { return 's' + x.toString() + '-' + 'tail'; }
def L(n) { var l = []; for (var i = 0; i < n; i += 1) { l.push(S(i)); } return l; }
def D(n) { var d = {}; for (var i = 0; i < n; i += 1) { d[S(i)] = L(1); } return d; }
"""

ENTRIES = []


def add(name, *srcs):
    for i, s in enumerate(srcs):
        ENTRIES.append(("%s.%d" % (name, i), s))


# ---------------------------------------------------------------- values and strings
add("str", "print(S(1) + S(2) + S(3));", "print((S(1) + 'x').upper() + S(2).lower());", "print('{} and {} {}'.format(S(1), L(2), 5));", "print(S(1).split('-')); print((S(1) + ' ' + S(2)).split(' ', 1));",
    "print(S(1).replace('s', S(9)).replace(S(9), 'q'));", "print(S(1).find('t')); print(S(1).findLast('-' + 'tail')); print(S(1).count('a')); print(S(1).contains('ta' + 'il'));", "print(('  ' + S(1) + '  ').strip()); print(('  ' + S(1)).leftStrip()); print((S(1) + '  ').rightStrip());",
    "print(S(1).startsWith('s' + '1')); print(S(1).endsWith('l' + ''));", "print(S(1).title()); print((S(1) + '  ' + S(2)).collapseSpaces()); print((S(1) + ' ' + S(2)).wordCount());", "print(S(1).repeat(3)); print((S(1) + ' ' + S(2) + ' ' + S(3)).wrap(8));",
    "print(S(1).upper().isUpper()); print(S(1).isLower()); print(S(1).toBool());", "print(('1' + '2').toNumber().unwrap()); print((S(1)).toNumber().unwrapError());", "print(S(1)[0] + S(2)[1] + S(3)[-1]); print(S(1)[1:3] + S(2)[:2] + S(3)[3:]);", "print(S(1) == S(1)); print(S(1) != S(2)); print(S(1) < S(2) ? S(3) : S(4));",
    "print(S(1).len()); for (var i = 0; i < 3; i += 1) { print(S(i)); }", "var s = ''; for (var i = 0; i < 12; i += 1) { s += S(i); } print(s);", "print((5).toString() + true.toString() + nil.toString() + [S(1)].toString());", "print(r'a\\b' + \"c\\x41\\n\" + 'd');")
# ---------------------------------------------------------------- lists
add("list", "var l = L(3); l.push(S(9)); l.push(L(1)); print(l); print(l.pop()); print(l.pop(0)); print(l);", "var l = L(2); l.insert(S(7), 1); l.insert(L(2), 0); print(l); l.remove(S(7)); print(l);", "print(L(2) + L(1) + [S(5)]); print(L(3)[1:]); print(L(3)[:2]);",
    "print(L(3).join(S(0))); print([1, 2].join(', '));", "var l = L(3); l.reverse(); print(l); l.extend(L(2)); print(l); print(l.contains(S(1)));", "var l = [5, 3, 4, 1]; l.sort(); print(l); var m = L(4); m.reverse(); m.sortFunc(def (a, b) => a.len() - b.len()); print(m.len());",
    "var l = L(3); var m = l.copy(); var n = l.deepCopy(); l[0] = S(5); m[1] = S(6); print(l); print(m); print(n);", "print(L(3).map(def (x) => x + S(1))); print(L(3).filter(def (x) => x != S(1))); print(L(3).reduce(def (a, x) => a + x, ''));",
    "print(L(3).find(def (x) => x == S(1))); print(L(3).findIndex(def (x) => x == S(2))); L(2).forEach(def (x) => print(x));", "print((L(2) + L(2)).unique().len()); print(L(4).splice(1, 2, L(3)));", "var [a, b, c] = L(3); print(a + b + c); [a, b] = L(2); print(a + b);",
    "var l = [[S(1), [S(2)]], {S(3): S(4)}, set(S(5))]; print(l); print(l.deepCopy()); print(l.copy());", "var l = L(3); l[1] = L(2); l[0] += S(1); l[2] = l; print(l.len());", "def f(...a) { return a; } print(f(S(1), S(2), S(3))); print(f(...L(3))); print(f(S(0), ...L(2)));",
    "print([S(1), S(2)].toString() + L(2).toString()); print(L(1).toBool());", "var l = []; for (var i = 0; i < 20; i += 1) { l.push([S(i)]); } print(l.len()); while (l.len() > 0) { l.pop(); } print(l);")
# ---------------------------------------------------------------- dicts
add("dict", "var d = {S(1): S(2), S(3): L(2)}; print(d[S(1)]); print(d[S(3)]); d[S(4)] = D(1); print(d[S(4)]); print(d.len());", "var d = D(1); print(d); print(d.keys()); print(d.toString()); print(d.toBool());", "var d = D(3); print(d.exists(S(1))); print(d.get(S(2))); print(d.get(S(7))); print(d.get(S(7), S(8))); d.remove(S(1)); print(d.len());",
    "var d = D(2); var c = d.copy(); var e = d.deepCopy(); d[S(0)].push(S(9)); print(c[S(0)]); print(e[S(0)]);", "D(1).forEach(def (k, v) => { print(k); print(v); });", "print(D(1).merge({S(5): S(6)}).len()); print({}.merge(D(1)));", "var d = {}; for (var i = 0; i < 30; i += 1) { d[S(i)] = S(i); } for (var i = 0; i < 30; i += 2) { d.remove(S(i)); } print(d.len()); print(d[S(29)]);",
    "var d = {}; for (var i = 0; i < 20; i += 1) { d[i] = [i]; } print(d[19]); print(d.keys().len());", "class K { } print(type({S(1): S(2)}.toObj(K()))); print({'a' + 'b': S(2)}.toObj(K()).ab);", "var d = {true: S(1), nil: S(2), 1.5: S(3)}; print(d[true] + d[nil] + d[1.5]); d[true] += S(4); print(d[true]);", "var d = {'a': {'b': {'c': S(1)}}}; d['a']['b']['d'] = S(2); print(d['a']['b'].len()); print(d['a']['b']['c']);")
# ---------------------------------------------------------------- sets
add("set", "var s = set(S(1), S(2)); print(s.len()); print(s.contains(S(1))); s.add(S(3)); s.remove(S(1)); print(s.contains(S(1))); print(s.len());", "print(set(S(1))); print(set(S(1)).toString()); print(set().toBool()); print(set(S(1)).values());", "print(set(S(1), S(2)).containsAll(L(2))); print(set(1, 2).containsAll([S(1)]));",
    "var s = set(); for (var i = 0; i < 30; i += 1) { s.add(S(i)); } for (var i = 0; i < 30; i += 3) { s.remove(S(i)); } print(s.len()); print(s.contains(S(28)));", "print(set(S(1)) == set(S(1)));")
# ---------------------------------------------------------------- functions and closures
add("fn", "def f(a, b=S(2), c=L(2)) { return [a, b, c]; } print(f(S(1))); print(f(S(1), S(3))); print(f(S(1), S(3), S(4)));", "def mk(x) { var y = x + S(2); return def () => y + x; } var f = mk(S(1)); var g = mk(S(3)); print(f()); print(g()); print(f());",
    "def mk() { var n = L(1); return [def () => { n.push(S(n.len())); }, def () => n]; } var p = mk(); p[0](); p[0](); print(p[1]());", "var fs = []; for (var i = 0; i < 4; i += 1) { var s = S(i); fs.push(def () => s); } print(fs.map(def (f) => f()));", "def rec(n) { if (n == 0) { return [S(0)]; } var l = rec(n - 1); l.push(S(n)); return l; } print(rec(6));",
    "def outer(a) { def mid(b) { def inner(c) { return a + b + c; } return inner; } return mid; } print(outer(S(1))(S(2))(S(3)));", "print((def (x) => [x, S(1)])(S(2)));", "def f() { var a = S(1); { var b = S(2); var g = def () => a + b; a = S(3); b = S(4); return g; } } print(f()());", "var f = nil; { var x = S(1); f = def () => { x = x + '.'; return x; }; } print(f()); print(f());",
    "def f(x) { return type(x) == 'string' ? x : f(S(x)); } print(f(5)); print(f);", "def f(...r) { return r.len() == 0 ? S(0) : r; } print(f()); print(f(L(1), D(1)));", "def f(a=def () => S(1)) { return a(); } print(f()); print(f(def () => S(2)));")
# ---------------------------------------------------------------- classes, enums, traits
add("class", "class A { init(var x, private y=S(2)) { this.z = L(1); } m() { return [this.x, this.y, this.z]; } } var a = A(S(1)); print(a.m()); print(a.x); a.w = S(5); print(a.w); a.w += S(6); print(a.w);",
    "class A { var v = S(1); const C = L(2); static s(x) { return [x, A.v]; } } print(A.s(S(2))); A.v = S(3); print(A.v); print(A.C); print(A().v);", "class A { m(x) { return 'A' + x; } init(x) { this.x = x; } } class B < A { m(x) { return 'B' + super.m(x + S(1)); } init(x) { super.init(x + S(2)); } } var b = B(S(3)); print(b.m(S(4))); print(b.x); var f = b.m; print(f(S(5)));",
    "class A { init() { this.s = S(1); } get() { return this.s; } } var f = A().get; print(f()); print([A().get][0]()); print(f);", "trait T { t() { return this.s + S(2); } } class A { use T; init() { this.s = S(1); } } print(A().t()); print(T);", "abstract class A { abstract m() n() { return this.m() + S(1); } } class B < A { m() { return S(2); } } print(B().n());",
    "enum E { A, B = S(1), C = L(2) } print(E.A); print(E.B); print(E.C); print(E.values().len()); print(E);", "enum F { f = def (x) => x + S(1) } print(F.f(S(2)));", "class A { init() { this.l = L(1); } } var a = A(); var b = a.copy(); var c = a.deepCopy(); a.l.push(S(5)); print(b.l); print(c.l);",
    "class A { init() { this.l = L(1); } m() {} } var a = A(); print(a.methods()); print(a.hasAttribute('l' + '')); print(a.getAttribute('l' + '')); print(a.getAttribute(S(1), S(2))); a.setAttribute(S(3), S(4)); print(a.getAttribute(S(3))); print(a.isInstance(A)); print(A.methods());",
    "class A { var x = S(1); m() {} } print(A.toDict().len()); print(A().getAttributes().len()); print(A.toString()); print(A().toString()); print(A()._class); print(A._name);", "def mk(n) { class K { init() { this.n = n; } g() { return n + this.n; } } return K; } var k = mk(S(1))(); var j = mk(S(2))(); print(k.g()); print(j.g()); print(k);",
    "def mk(sup) { class K < sup { g() { return 'k' + super.g(); } } return K; } class A { g() { return S(1); } } print(mk(mk(A))().g());", "class Node { init(var v, var next=nil) { } } var n = nil; for (var i = 0; i < 5; i += 1) { n = Node(S(i), n); } var s = ''; while (n != nil) { s += n.v; n = n.next; } print(s);",
    "class A { } var a = A(); var b = A(); a.o = b; b.o = a; a.s = S(1); print(a.o.o.s);", "@Ann({'a': [1, 2]}) class A { @M('x') m() {} @F var f = S(1); } print(A.classAnnotations); print(A.methodAnnotations); print(A.fieldAnnotations); class B < A { @M2 n() {} } print(B.methodAnnotations.len());",
    "class A { init() { this.f = def (x) => x + S(1); } } var a = A(); print(a.f(S(2))); print((a.f)(S(3)));", "class A { private p(x) { return x + S(1); } go() { return this.p(S(2)); } private static q(x) { return x + S(3); } go2() { return A.q(S(4)); } } print(A().go()); print(A().go2());", "var a = nil; print(a?.x); class A { m() { return S(1); } } a = A(); print(a?.m());")
# ---------------------------------------------------------------- results, control
add("result", "var r = Success(S(1)); print(r.success()); print(r.unwrap()); print(r); var e = Error(S(2)); print(e.success()); print(e.unwrapError());", "print(Success(L(2)).match(def (v) => v, def (e) => S(0))); print(Error(S(2)).match(def (v) => v, def (e) => [e])); print(Error(S(2)).matchError(def (e) => e + S(3)));", "print(Success(S(1)).matchWrap(def (v) => v + S(2), def (e) => e).unwrap()); print(Error(S(1)).matchWrap(def (v) => v, def (e) => e + S(2)).unwrapError());")
add("ctl", "switch (S(1)) { case S(0), S(2): { print('no'); } case S(1): { print('yes'); } default: print('d'); }", "var i = 0; while (i < 5) { var s = S(i); i += 1; if (s == S(1)) { continue; } if (s == S(3)) { break; } print(s); }", "print(S(1) and S(2) or S(3)); print(nil or L(1)); print(not S(1)); print(S(1) == 1 ? S(2) : S(3));", "print(type(S(1)), type(L(1)), type(D(1)), type(set()), type(def () => 1), type(Success(1)), type(nil), type(true), type(1.5));", "print(isDefined('S' + '')); print(isDefined(S(1)));", "print(S(1), L(1)); printError(S(2)); print(); print(S(3));",
    "const c = L(1); c.push(S(5)); print(c); const [p, q] = L(2); print(p + q);", "assert(S(1) == S(1)); print('ok');", "print(__file__);")
# ---------------------------------------------------------------- files
add("file", "with ('gc.txt', 'w') { file.write(S(1)); file.writeLine(S(2)); file.write(S(3)); } with ('gc.txt', 'r') { print(file.readLine()); print(file.read()); } import System; System.remove('gc.txt');", "with ('gc' + '2.txt', 'w') { print(file); print(file.write(S(1))); } with ('gc2.txt', 'r') { print(file.readLine()); print(file.readLine()); file.seek(0); var s = file.read(); print(s); } import System; System.remove('gc2.txt');",
    "def f() { with ('gc3.txt', 'w') { file.write(S(1)); return S(2); } } print(f()); with ('gc3.txt', 'r') { print(file.read() + S(3)); } import System; System.remove('gc3.txt');")
# ---------------------------------------------------------------- modules
add("math", "import Math; print(Math.max([1, 2]), Math.min(3, 4), Math.sum([1, 2, 3]), Math.average([1, 2]), Math.abs(-1), Math.floor(1.5), Math.ceil(1.5), Math.round(1.5), Math.sqrt(4), Math.gcd(4, 6), Math.lcm(4, 6), Math.pi > 3);", "from Math import max, min; print(max(L(0) + [1, 2])); print(min([3, 1]));", "import Math; print(Math.sin(0) + Math.cos(0) + Math.tan(0)); print(Math);")
add("json", "import JSON; print(JSON.parse('{\"a\": [1, \"x' + 'y\", null, true, {\"b\": 2.5}]}').unwrap()['a']); print(JSON.parse('{' + S(1)).unwrapError().len() > 0);", "import JSON; print(JSON.stringify([S(1), 1, nil, true, L(2), {S(3): S(4)}]).unwrap()); print(JSON.stringify({S(1): [S(2)]}, 2).unwrap());", "import JSON; var r = JSON.stringify([S(1), def () => 1]); print(r.success());", "import JSON; print(JSON.parse(JSON.stringify(D(1)).unwrap()).unwrap());", "import JSON; print(JSON.parse('[' + '\"\\\\u0041\\\\n\", \"abc\"]').unwrap());")
add("path", "import Path; print(Path.basename('a/' + S(1))); print(Path.dirname(S(1) + '/b')); print(Path.extname(S(1) + '.x')); print(Path.join(S(1), S(2), 'c')); print(Path.isAbsolute('/' + S(1)));", "import Path; print(Path.exists('/' + S(1))); print(Path.isDir('/' + 't' + 'mp')); print(Path.realpath('/tmp/' + '..').unwrap()); print(Path.realpath('/' + S(1)).success());", "import System; import Path; System.mkdir('gcd'); System.mkdir('gcd/' + S(1)); print(Path.listDir('gc' + 'd')); System.rmdir('gcd/' + S(1)); System.rmdir('gcd');")
add("b64", "import Base64; print(Base64.encode(S(1))); print(Base64.decode(Base64.encode(S(1))));")
add("hash", "import Hashlib; print(Hashlib.sha256(S(1)));  print(Hashlib.hmac(S(1), S(2))); print(Hashlib.hmac(S(1), S(2), true)); print(Hashlib.verify(S(1), S(1)));", "import Hashlib; print(Hashlib.bcryptVerify(S(1), Hashlib.bcrypt(S(1), 4)));")
add("buf", "import Buffer; var b = Buffer.new(8).unwrap(); b.writeInt16LE(0, 258).unwrap(); b.writeString(2, 'ab' + 'c').unwrap(); print(b.values()); print(b.len()); print(b.readInt16BE(0).unwrap()); print(b.readString(2, 4).unwrap()); print(b.string().len()); b.resize(4); print(b.values()); print(b.get(0).unwrap()); b.set(0, 9); print(b.subarray(0, 2).unwrap().values()); print(b.get(99).unwrapError().len() > 0);",
    "import Buffer; var b = Buffer.fromString(S(1) + S(2)).unwrap(); print(b.string()); print(b); var l = []; for (var i = 0; i < 4; i += 1) { l.push(Buffer.new(4).unwrap()); } print(l.len()); l = nil; b.writeDoubleLE(0, 1.5); print(b.readDoubleLE(0).unwrap()); b.writeFloatBE(0, 2.5); print(b.readFloatBE(0).unwrap());")
add("queue", "import Queue; var q = Queue.new(); for (var i = 0; i < 12; i += 1) { q.push(S(i)); } print(q.pop()); print(q.peek()); print(q.len()); while (not q.isEmpty()) { q.pop(); } q.push(L(1)); print(q.pop()); print(q.cap() > 0);", "import Queue; var q = Queue.newWithSize(4).unwrap(); q.push(S(1)); q.push(S(2)); q.pop(); q.push(S(3)); q.push(S(4)); q.push(S(5)); print(q.pop()); print(q.pop()); print(q.isFull()); print(q.pop()); print(q.pop()); print(q);")
add("stack", "import Stack; var q = Stack.new(); for (var i = 0; i < 12; i += 1) { q.push(S(i)); } print(q.pop()); print(q.peek()); print(q.len()); while (not q.isEmpty()) { q.pop(); } q.push(L(1)); print(q.pop()); print(q.cap() > 0); print(q);", "import Stack; var q = Stack.newWithSize(2).unwrap(); q.push(S(1)); q.push(S(2)); q.push(S(3)); print(q.pop()); print(q.isFull()); print(q.pop());")
add("bigint", "import BigInt; var a = BigInt.new('123456789' + '0123456789').unwrap(); var b = BigInt.new('98765').unwrap(); print(a.add(b).unwrap()); print(a.subtract(b).unwrap()); print(a.multiply(b).unwrap()); print(a.divide(b).unwrap()); print(a.modulo(b).unwrap()); print(a.compare(b)); print(a.negate().unwrap()); print(a.abs().unwrap()); print(b.bitwiseAnd(a).unwrap()); print(b.bitwiseOr(a).unwrap()); print(b.bitwiseXor(a).unwrap());", "import BigInt; print(BigInt.new(S(1)).success()); print(BigInt.new().unwrap()); print(BigInt.new(5).unwrap());")
add("sys", "import System; print(type(System.argv)); print(System.getCWD().unwrap().len() > 0); print(type(System.version)); print(System.platform); System.collect(); print(S(1)); print(type(System.uname()));", "import System; System.mkdir('g1'); System.rename('g1', 'g' + '2').unwrap(); print(System.access('g2', System.F_OK).success()); System.rmdir('g2').unwrap(); print(System.rmdir('g2').unwrapError().len() > 0); print(System.remove(S(1)).success()); print(System.mkdirAll('ga/' + S(1) + '/c', 511).success()); System.rmdir('ga/' + S(1) + '/c'); System.rmdir('ga/' + S(1)); System.rmdir('ga');", "import System; var d = System.mkdirTemp().unwrap(); print(d.len() > 0); System.rmdir(d); print(System.sleep(0)); print(type(System.time())); print(type(System.clock()));")
add("io", "import IO; print(IO.devNull); with ('io1', 'w') { file.write(S(1)); } print(IO.copyFile('io1', 'io' + '2').success()); with ('io2', 'r') { print(file.read()); } import System; System.remove('io1'); System.remove('io2'); print(IO.copyFile(S(1), S(2)).success());")
add("env", "import Env; print(Env.set('GCV' + '1', S(1)).success()); print(Env.get('GCV1')); Env.set('GCV1', nil); print(Env.get('GCV1')); print(Env.get(S(1), S(2)));", "import Env; print(Env.get('PATH').len() > 0); print(type(Env.get(S(1))));")
add("datetime", "import Datetime; print(Datetime.strftime('%Y-%m', 86400)); print(Datetime.strptime('%Y-%m-%d', '2020-01-' + '02')); print(Datetime.now().len() > 0); print(Datetime.nowUTC().len() > 0);")
add("random", "import Random; var x = Random.range(1, 2); print(x == 1 or x == 2); print(Random.select(L(1))); print(Random.random() >= 0);")
add("process", "import Process; print(Process.run(['echo', S(1)], true).unwrap()); print(Process.run(['true']).success()); print(Process.run([S(1)], true).success());")
add("sqlite", "import Sqlite; var d = Sqlite.connect(':memory:').unwrap(); d.execute('CREATE TABLE t (a INTEGER, b TEXT)').unwrap(); d.execute('INSERT INTO t VALUES (?, ?)', [1, S(1)]).unwrap(); d.execute('INSERT INTO t VALUES (?, ?)', [2, nil]).unwrap(); print(d.execute('SELECT * FROM t WHERE a = ?', [1]).unwrap()); print(d.execute('SELECT ' + S(1)).unwrapError().len() > 0); print(d.execute('SELECT b, a FROM t').unwrap()); print(d.close());", "import Sqlite; print(Sqlite.connect('/' + S(1) + '/x').success()); var d = Sqlite.connect(':memory:').unwrap(); print(d.execute('SELECT 1 AS x, ' + '2.5 AS y').unwrap());")
add("uuid", "import UUID; print(UUID.generate().unwrap().len()); print(UUID.generateRandom().unwrap().len()); print(UUID.generateTime().unwrap().len());")
add("net", "import Net; print(type(Net.ip4Len));")
add("inspect", "import Inspect; def f() { return [Inspect.getLine(), Inspect.getFile(), Inspect.getFrameCount()]; } print(f()); print(Inspect.getLine(0));")
add("object", "import Object; class A { init() { this.x = S(1); } } print(Object.getClassRef('A' + '').unwrap()); print(Object.createFrom('A').unwrap().x); print(Object.createFrom(S(1)).success()); var hs = S(1); print(Object.hash(hs) == Object.hash(hs));")
add("log", "import Log; var l = Log.new(Log.stdout).unwrap(); l.setPrefix(S(1)); l.setPrefix(S(2)); l.unsetPrefix(); print(type(l)); print(l);")
add("term", "import Term; print(Term.isatty(0));")
add("argparse", "from Argparse import Parser; const p = Parser('n' + '', S(1)); p.addString('--opt', S(2), false); p.addNumber('--num', S(3), false, 'meta'); p.addBool('--b', 'x', false); p.addList('--l', 'y', false); print(p.usage()); print(p.parse().unwrap().opt);")
add("unittest", "from UnitTest import UnitTest; class T < UnitTest { testA() { this.assertEquals(S(1), S(1)); } testB(x) { this.assertTruthy(x); } testBProvider() { return L(2); } } T().run();", "from UnitTest import UnitTest; class T < UnitTest { setUp() { this.s = S(1); } testA() { this.assertNotEquals(this.s, S(2)); this.assertType(S(1), 'string'); } testB_skipped() { } } T().run();")
add("socket", "import Socket; var s = Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap(); print(s.bind('127.0.0.1', 0).success()); print(s.setsockopt(Socket.SOL_SOCKET, Socket.SO_REUSEADDR).success()); print(s.listen(1).success()); s.close(); print(type(s)); print(Socket.create(Socket.AF_INET, 77).success());")
add("import", "import 'm1.du' as M1; print(M1.v); print(M1.f(S(2))); print(M1.K(S(3)).x); from 'm1.du' import f, K; print(f(S(1))); print(K(S(1)).x); print(M1);")
add("http", "import HTTP; print(HTTP.METHOD_GET); print(type(HTTP.get));")
# ---------------------------------------------------------------- errors in the middle of things
add("err", "def f(x) { return [x, S(1)] + 5; } print(f(S(2)));", "print(L(3)[S(1)]);", "print(D(1)[S(5)]);", "S(1).nope(S(2));", "class A { init(x) { this.x = x; } } A(S(1), S(2));", "var l = L(2); l.map(def (x) => x.nope());", "print(S(1)); undefinedName(S(2));", "var x = ;", "print(S(1)", "class A < 5 { }", "import nope;", "Error(S(1)).unwrap();", "enum E { A = S(1) } E.B;", "with (S(1), 'r') { }", "def f(...a) { return a[9]; } f(...L(3));", "[1, 2, 3].sort(5);", "set([1]);", "var [a, b] = L(3);", "S(1)();", "import Queue; Queue.new().push();")

FILES = {"m1.du": PRE + "var v = S(1); def f(x) { return v + x; } class K { init(var x) { } } print('loaded');\n"}


def programs():
    return [(n, PRE + s + "\n") for n, s in ENTRIES]


# ---------------------------------------------------------------- every way of holding a value x every kind of value
PAY = {  # creation expression, observation (a statement over `v`), and what it needs
    "string": ("S(1)", "print(v + S(2));", ""), "list": ("[S(1), [S(2)]]", "print(v);", ""), "dict": ("{S(1): [S(2)]}", "print(v[S(1)]); print(v.len());", ""), "set": ("set(S(1))", "print(v.contains(S(1))); print(v);", ""),
    "closure": ("mkc(S(1))", "print(v(S(2)));", "def mkc(a) { var b = [a]; return def (x) => [a, b, x]; }"), "bound": ("A(S(1)).m", "print(v(S(2)));", "class A { init(var x) { } m(y) { return [this.x, y]; } }"),
    "class": ("mkk(S(1))", "print(v(S(2)).g()); print(v);", "def mkk(n) { class P { h() { return n; } } trait T { t() { return [n]; } } class K < P { use T; var cv = [n]; init(var x) { } g() { return [this.x, n, super.h(), this.t(), this.cv]; } } return K; }"),
    "instance": ("mkk(S(1))", "print(v.g()); print(v);", "def mkk(n) { class K { init(private x, var y) { } g() { return [this.x, this.y, n]; } } return K(S(3), [n]); }"),
    "enum": ("mke(S(1))", "print(v.A); print(v.B); print(v);", "def mke(n) { enum E { A = n, B = [n] } return E; }"), "result": ("Success([S(1)])", "print(v.unwrap()); print(v);", ""), "error": ("Error(S(1))", "print(v.unwrapError());", ""),
    "queue": ("mkq(S(1))", "print(v.peek()); v.push(v.pop()); print(v.peek()); v.push(v.pop());", "import Queue; def mkq(s) { var q = Queue.new(); q.push(s); q.push([S(4)]); return q; }"), "stack": ("mkq(S(1))", "{ var t = v.pop(); print(v.peek()); v.push(t); print(t); }", "import Stack; def mkq(s) { var q = Stack.new(); q.push(s); q.push([S(4)]); return q; }"),
    "buffer": ("Buffer.fromString(S(1)).unwrap()", "print(v.string());", "import Buffer;"), "bigint": ("BigInt.new('12' + '34').unwrap()", "print(v.add(v).unwrap());", "import BigInt;"), "native": ("[S(1).len][0]" if False else "print", "v(S(2));", ""),
    "anon": ("def (x) => x + S(3)", "print(v(S(2)));", ""),
}
JUNK = "var j = []; for (var i = 0; i < 3; i += 1) { j.push([S(i + 50)]); } j = nil; "
HOLD = {
    "local": "def run() { var v = %(p)s; " + JUNK + "%(o)s } run();",
    "global": "var v = %(p)s; { " + JUNK + "} %(o)s",
    "constglobal": "const v = %(p)s; { " + JUNK + "} %(o)s",
    "param": "def run(v) { " + JUNK + "%(o)s } run(%(p)s);",
    "default": "def run(v=%(p)s) { " + JUNK + "%(o)s } run();",
    "rest": "def run(...a) { " + JUNK + "var v = a[0]; %(o)s } run(%(p)s, S(7)); run(...[%(p)s, S(8)]);",
    "upopen": "def run() { var v = %(p)s; def f() { " + JUNK + "%(o)s } f(); } run();",
    "upclosed": "def mk() { var v = %(p)s; return def () => { " + JUNK + "%(o)s }; } mk()();",
    "upclosed2": "def mk() { var v = %(p)s; return def () => { return def () => { " + JUNK + "%(o)s }; }; } mk()()();",
    "uploop": "var fs = []; for (var k = 0; k < 2; k += 1) { var v = %(p)s; fs.push(def () => { %(o)s }); } { " + JUNK + "} fs[0](); fs[1]();",
    "list": "var h = [S(7), %(p)s]; { " + JUNK + "} def run() { var v = h[1]; %(o)s } run();",
    "pushed": "var h = []; h.push(%(p)s); { " + JUNK + "} def run() { var v = h.pop(); %(o)s } run();",
    "inserted": "var h = [1]; h.insert(%(p)s, 0); { " + JUNK + "} def run() { var v = h.pop(0); %(o)s } run();",
    "dictv": "var h = {S(7): %(p)s}; { " + JUNK + "} def run() { var v = h[S(7)]; %(o)s } run();",
    "dictset": "var h = {}; h[S(7)] = %(p)s; h[S(7)] = %(p)s; { " + JUNK + "} def run() { var v = h.get(S(7)); h.remove(S(7)); %(o)s } run();",
    "field": "class H { init() { this.f = %(p)s; } } var h = H(); { " + JUNK + "} def run() { var v = h.f; %(o)s } run();",
    "setattr": "class H { } var h = H(); h.setAttribute(S(7), %(p)s); { " + JUNK + "} def run() { var v = h.getAttribute(S(7)); %(o)s } run();",
    "private": "class H { private f; init() { this.f = %(p)s; } go() { " + JUNK + "var v = this.f; %(o)s } } H().go();",
    "ctorparam": "class H { init(private f, var g) { } go() { " + JUNK + "var v = this.f; %(o)s v = this.g; %(o)s } } H(%(p)s, %(p)s).go();",
    "classvar": "class H { var f = %(p)s; } { " + JUNK + "} def run() { var v = H.f; %(o)s } run();",
    "classconst": "class H { const f = %(p)s; } { " + JUNK + "} def run() { var v = H().f; %(o)s } run();",
    "classset": "class H { var f = 1; } H.f = %(p)s; { " + JUNK + "} def run() { var v = H.f; %(o)s } run();",
    "inherited": "def mk() { class H { var f = %(p)s; } class I < H { } return I; } var I = mk(); { " + JUNK + "} def run() { var v = I.f; %(o)s } run();",
    "enum": "enum H { F = %(p)s } { " + JUNK + "} def run() { var v = H.F; %(o)s } run();",
    "success": "var h = Success(%(p)s); { " + JUNK + "} def run() { var v = h.unwrap(); %(o)s } run();",
    "failure": "var h = Error(%(p)s); { " + JUNK + "} def run() { var v = h.unwrapError(); %(o)s } run();",
    "match": "Success(%(p)s).match(def (v) => { " + JUNK + "%(o)s }, def (e) => 1); Success(%(p)s).matchWrap(def (v) => v, def (e) => 1).match(def (v) => { %(o)s }, def (e) => 1); Error(%(p)s).matchWrap(def (v) => v, def (v) => v).matchError(def (v) => { %(o)s });",
    "bound": "class H { init(var f) { } go() { " + JUNK + "var v = this.f; %(o)s } } var h = H(%(p)s).go; { " + JUNK + "} h();",
    "temp": "class H { init(var f) { } go(x) { var v = this.f; %(o)s } } H(%(p)s).go([S(7)]); def z(v, w) { %(o)s } z(%(p)s, [S(8), L(2)]); var h = [%(p)s, [S(9)], L(2)]; def run() { var v = h[0]; %(o)s } run();",
    "cond": "def id(x) { return x; } def run() { var v = id(%(p)s) or S(7); " + JUNK + "%(o)s v = nil or %(p)s; " + JUNK + "%(o)s v = true ? %(p)s : S(8); %(o)s } run();",
    "returned": "def f() { var x = %(p)s; return x; } def run() { var v = f(); " + JUNK + "%(o)s } run();",
    "switch": "def run() { var v = %(p)s; switch (S(1)) { case [S(2)], S(3): { print(1); } case S(1): { " + JUNK + "%(o)s } } } run();",
    "destruct": "def run() { var [u, v] = [S(7), %(p)s]; " + JUNK + "%(o)s [v, u] = [%(p)s, S(8)]; " + JUNK + "%(o)s } run();",
    "copied": "var h = [%(p)s].copy(); { " + JUNK + "} def run() { var v = h[0]; %(o)s var w = {S(7): v}.copy(); h = nil; v = nil; " + JUNK + "v = w[S(7)]; %(o)s } run();",
    "concat": "var h = [%(p)s] + [S(7)]; { " + JUNK + "} def run() { var v = h[0]; %(o)s v = h[:1][0]; %(o)s } run();",
    "mapped": "var h = [1, 2].map(def (x) => %(p)s); { " + JUNK + "} h.forEach(def (v) => { %(o)s }); [1].reduce(def (v, x) => { %(o)s }, %(p)s);",
    "filter": "[%(p)s].filter(def (v) => true).forEach(def (v) => { " + JUNK + "%(o)s });",
    "dictforeach": "{S(7): %(p)s}.forEach(def (k, v) => { " + JUNK + "%(o)s }); {S(7): 1}.merge({S(8): %(p)s}).forEach(def (k, v) => { if (k == S(8)) { %(o)s } });",
    "queueh": "import Queue; var h = Queue.new(); for (var i = 0; i < 10; i += 1) { h.push(S(i)); h.pop(); } h.push(S(7)); h.push(%(p)s); { " + JUNK + "} h.pop(); def run() { var v = h.peek(); " + JUNK + "v = h.pop(); " + JUNK + "%(o)s } run();",
    "stackh": "import Stack; var h = Stack.new(); for (var i = 0; i < 10; i += 1) { h.push(S(i)); } h.push(%(p)s); { " + JUNK + "} def run() { var v = h.peek(); " + JUNK + "v = h.pop(); " + JUNK + "%(o)s } run();",
    "modulevar": "import 'm1.du' as M1; from 'm1.du' import v; { " + JUNK + "} print(M1.f(v)); def run(v) { %(o)s } run(%(p)s);",
    "global2": "var v = 1; v = %(p)s; { " + JUNK + "} def run() { %(o)s } run(); v = nil; { " + JUNK + "} v = %(p)s; run();",
    "recur": "def run(v, n) { if (n == 0) { " + JUNK + "%(o)s return; } run(v, n - 1); if (n == 3) { %(o)s } } run(%(p)s, 3);",
    "selfref": "class H { } var h = H(); h.me = h; h.l = [h, %(p)s]; var d = {S(7): h}; h = nil; { " + JUNK + "} def run() { var v = d[S(7)].me.l[1]; %(o)s } run();",
    "witherr": "def run() { var v = %(p)s; with ('gw.txt', 'w') { file.write(S(1)); " + JUNK + "%(o)s } %(o)s } run();",
}


def pairs():
    for (hn, h), (pn, (p, o, pre)) in it.product(HOLD.items(), PAY.items()):
        if pn in ("native",) and hn in ("temp",):
            continue
        yield "hold:%s:%s" % (hn, pn), PRE + pre + "\n" + h % dict(p=p, o=o) + "\n"

"""Every built-in with its documented signature, and the values it is called with."""
import re, itertools as it

# kind -> values (one expression each); the first of a kind is its representative
VALUES = {
    "nil": ["nil"], "bool": ["true", "false"], "num": ["1", "0", "-1", "2.5", "1e300", "zNaN", "4294967296", "-2147483649"], "str": ["'a'", "''", "'5'", "'x\\x00y'"],
    "list": ["[1]", "[]", "['a', 'b']", "[[1], nil]"], "dict": ["{'a': 1}", "{}"], "set": ["set(1)"], "fn": ["zF", "zG", "def (x, y) => x"], "class": ["ZK"], "trait": ["ZT"], "inst": ["ZK()"],
    "enum": ["ZE"], "result": ["Success(1)", "Error('e')"], "bound": ["ZK().m"], "native": ["print"], "module": ["Math"], "abstract": ["Queue.new()"], "file": ["zH"],
}
KIND = {v: k for k, vs in VALUES.items() for v in vs}
ALL = [v for vs in VALUES.values() for v in vs]
REPS = [vs[0] for vs in VALUES.values()]
SMALLV = ["1", "'a'", "[1]", "nil", "zF", "true", "{'a': 1}", "ZK()"]
DEFS = """import Math; import Queue; import Stack; import System; import IO; import JSON; import Log; import Path; import Datetime; import Socket; import Net; import Random; import Base64; import Hashlib; import Sqlite; import Process; import Term; import UUID; import Inspect; import Object; import BigInt; import Buffer; import Env; import FFI; import HTTP;
from Argparse import Parser; from UnitTest import UnitTest;
var zNaN = 1e300 * 1e300 - 1e300 * 1e300; var zF = def () => 1; var zG = def (x) => x; class ZK { var v = 1; const k = 2; init(var a=1, private p=2) { } m(x=1) { return x; } static s() { return 3; } }
trait ZT { t() { return 1; } } enum ZE { A, B } var zH; with ('h.txt', 'w') { zH = file; } def zN() { return nil; }
"""
# What may follow a signature letter: a any, n number, s string, b bool, l list, d dict, f function of any kind, c class, h hashable (nil bool number string), r result, B buffer-like abstract, t set
KINDS = {"a": set(VALUES), "n": {"num"}, "s": {"str"}, "b": {"bool"}, "l": {"list"}, "d": {"dict"}, "t": {"set"}, "c": {"class", "trait"}, "h": {"nil", "bool", "num", "str"}, "x": {"abstract"}, "i": {"inst"}, "z": {"nil"}}
"""A signature is a list of alternatives separated by |; each is letters for the required arguments, then ? and letters for optional ones, then * to repeat the
last. A dot is any number of undecided arguments."""
SIG = {}


def sig(recv, pre, text):
    for part in text.split(";"):
        if not part.strip():
            continue
        name, _, s = part.strip().partition(":")
        SIG[(recv, name.strip())] = (pre, s.strip())


def matches(s, kinds):
    """True: the signature admits these argument kinds; False: it does not; None: undecided."""
    for alt in s.split("|"):
        if "." in alt:
            return None
        req, _, opt = alt.partition("?")
        star = opt.endswith("*") or req.endswith("*")
        toks = lambda t: re.findall(r"[a-z]|[.]", t)
        r, o = toks(req), toks(opt)
        if len(kinds) < len(r):
            continue
        want = r + o
        if len(kinds) > len(want):
            if not star:
                continue
            want = want + [want[-1]] * (len(kinds) - len(want))
        ok = True
        for w, k in zip(want, kinds):
            if k not in KINDS[w[0]]:
                ok = False
        if ok:
            return True
    return False


def arg_tuples(s, deep=False, ALL=ALL):
    m = max(len(re.findall(r"\w", a)) for a in s.split("|"))
    yield ()
    for v in ALL:
        yield (v,)
    if m >= 1:
        yield from it.product(ALL, repeat=2) if m >= 2 else it.product(REPS, SMALLV)
    if m >= 2:
        yield from it.product((ALL if deep else REPS) if m >= 3 else SMALLV, repeat=3)
    if m >= 3:
        yield from it.product(SMALLV if m >= 4 else (SMALLV if deep else SMALLV[:4]), repeat=4)
        yield ("1",) * 5
    yield ("'a'",) * (m + 2)
    yield ("1",) * 9


def calls():
    for (recv, name), (pre, s) in SIG.items():
        for p in (pre if isinstance(pre, (list, tuple)) else [pre]):
            yield recv, name, p, s


sig("global", "", "type:a;set:?h*;input:?s;print:?a*;printError:?a*;assert:a;isDefined:s;Success:a;Error:a")
sig("string", ["'a b'.", "''.", "'x\\x00y'.", "'%s {} {}'."], "len:;toString:;toNumber:;format:a*;split:s?n;contains:s;find:s?n;findLast:s;replace:ss;lower:;upper:;startsWith:s;endsWith:s;leftStrip:;rightStrip:;strip:;count:s;wordCount:;toBool:;title:;repeat:n;isUpper:;isLower:;collapseSpaces:;wrap:n")
sig("number", ["(5).", "(-2.5).", "zNaN."], "toString:;toBool:")
sig("bool", "true.", "toString:;toBool:")
sig("nil", "nil.", "toString:;toBool:")
sig("list", ["[3, 1, 2].", "[].", "['a', [1], nil].", "[zNaN, 1, zNaN, -1]."], "toString:;len:;extend:l;push:a;insert:an;pop:?n;remove:a;contains:a;join:?a;copy:;deepCopy:;toBool:;sort:;reverse:;map:a;filter:?a;reduce:a?a;forEach:a;find:a?aa;findIndex:a?aa;splice:aa?a*;unique:;sortFunc:a")
sig("dict", ["{'a': 1, 2: [3]}.", "{}."], "toString:;len:;keys:;get:h?a;remove:h;exists:h;copy:;deepCopy:;toBool:;forEach:a;merge:a;toObj:a")
sig("set", ["set(1, 'a').", "set()."], "toString:;len:;values:;add:h;remove:h;contains:a;containsAll:l;toBool:")
sig("class", "ZK.", "toString:;toDict:;methods:;s:")
sig("enum", "ZE.", "values:")
sig("instance", "ZK().", "toString:;hasAttribute:s;getAttribute:s?a;getAttributes:;setAttribute:sa;isInstance:c;copy:;deepCopy:;methods:;m:?a")
sig("result", ["Success([1]).", "Error('e')."], "unwrap:;unwrapError:;success:;match:aa;matchWrap:aa;matchError:a")
sig("file-closed", "zH.", "write:s;writeLine:s;read:;readLine:?n;seek:n?n")
sig("Math", "Math.", "average:l|?n*;floor:n;round:n;ceil:n;abs:n;max:l|?n*;min:l|?n*;sum:l|?n*;sqrt:n;sin:n;cos:n;tan:n;gcd:l|n*;lcm:l|n*")
sig("Random", "Random.", "random:;range:nn;select:l")
sig("Path", "Path.", "realpath:s;isAbsolute:s;basename:s;extname:s;dirname:s;exists:s;isDir:s;listDir:?s;join:l|s*")
sig("Base64", "Base64.", "encode:s;decode:s")
sig("Hashlib", "Hashlib.", "sha256:s;hmac:ss?b;verify:ss;bcryptVerify:ss")
sig("JSON", "JSON.", "parse:s;stringify:a?n")
sig("Datetime", "Datetime.", "now:;nowUTC:;strftime:s?n;strptime:ss")
sig("Env", "Env.", "get:s?s;set:sa;clearAll:;readFile:?a")
sig("IO", "IO.", "print:a*;println:a*;copyFile:ss")
sig("Net", "Net.", "parseIp4:s")
sig("Term", "Term.", "isatty:n;getSize:")
sig("UUID", "UUID.", "generate:;generateRandom:;generateTime:")
sig("Inspect", "Inspect.", "getLine:?n;getFile:?n;getFrameCount:")
sig("Object", "Object.", "getClassRef:s;createFrom:s;hash:a;prettyPrint:a?n")
sig("Log", "Log.", "print:s;println:s;fatal:s;fatalln:s;new:n")
sig("log", "Log.new(Log.stdout).unwrap().", "setPrefix:s;unsetPrefix:;print:s;println:s;fatal:s;fatalln:s")
sig("System", "System.", "getgid:;getegid:;getuid:;geteuid:;getppid:;getpid:;chown:snn;uname:;mkdirTemp:?s;rmdir:s;mkdir:s?n;mkdirAll:s?n;access:sn;remove:s;setCWD:s;getCWD:.;time:.;clock:.;collect:.;sleep:n;exit:n;chmod:ss;rename:ss")
sig("Process", "Process.", "exec:l;run:l?b;kill:n?n")
sig("Socket", "Socket.", "create:nn")
sig("socket", "Socket.create(Socket.AF_INET, Socket.SOCK_STREAM).unwrap().", "bind:sn;listen:?n;write:s;recv:n;connect:sn;close:.;setsockopt:nn")
sig("Sqlite", "Sqlite.", "connect:s?n")
sig("sqlite", "Sqlite.connect(':memory:').unwrap().", "execute:s?l;close:")
sig("FFI", "FFI.", "load:s")
sig("HTTP", "HTTP.", "newClient:d")
sig("Queue", "Queue.", "new:;newWithSize:n")
sig("queue", "Queue.new().", "isEmpty:;isFull:;cap:;len:;peek:;push:a;pop:")
sig("Stack", "Stack.", "new:;newWithSize:n")
sig("stack", "Stack.new().", "isEmpty:;isFull:;cap:;len:;peek:;push:a;pop:")
sig("BigInt", "BigInt.", "new:?.")
sig("bigint", "BigInt.new('-12').unwrap().", "compare:.;negate:;abs:;bitwiseAnd:.;bitwiseOr:.;bitwiseXor:.;add:.;subtract:.;multiply:.;divide:.;modulo:.")
sig("Buffer", "Buffer.", "new:?n;fromString:s")
_b = "resize:n;set:nn;get:n;subarray:?nn;string:;len:;values:;writeString:ns;readString:?nn;readInt8:n;writeInt8:nn"
for _w in ("UInt64", "UInt32", "UInt16", "Int64", "Int32", "Int16", "Float", "Double"):
    for _e in ("LE", "BE"):
        _b += ";read%s%s:n;write%s%s:nn" % (_w, _e, _w, _e)
sig("buffer", "Buffer.fromString('abcdefgh').unwrap().", _b)
sig("Argparse", "Parser('n', 'd').", "addString:aaa?a*;addNumber:aaa?a*;addBool:aaa?a*;addList:aaa?a*;usage:;parse:")

"""Reference interpreter for the core of Dictu: an independent parser and tree-walking evaluator.

It follows the language documentation (docs/docs/*.md); names are resolved lexically at parse time, each execution of a
declaration makes a fresh variable, calls bind by the documented protocol, and class members resolve by the documented rules.
Run(source) -> (status, output): status "ok", "compile" or "runtime".
"""
import math, re

KEYWORDS = set("abstract and as break case class continue const default def else enum false for from if import nil not or "
               "private return static super switch this true trait use var while with".split())

TOK = re.compile(r"""
   (?P<ws>[ \r\t\n]+|//[^\n]*|/\*.*?\*/)
 | (?P<num>0[xX][0-9a-fA-F]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE]_*[+-]?[0-9_]+)?)
 | (?P<raw>r"[^"]*"|r'[^']*')
 | (?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')
 | (?P<id>[A-Za-z_][A-Za-z_0-9]*)
 | (?P<op>\.\.\.|\*\*|\*=|/=|\+=|-=|&=|\^=|\|=|==|=>|!=|<=|>=|\?\.|[-@(){}\[\];:,./*%+&^|=?<>])
""", re.X | re.S)

ESC = {"n": "\n", "t": "\t", "r": "\r", "v": "\v", "\\": "\\", "'": "'", '"': '"'}


class CompileError(Exception):
    pass


class RuntimeErr(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            n = s[i + 1]
            if n in ESC:
                out.append(ESC[n])
                i += 2
                continue
            if n == "x":
                h = s[i + 2:i + 4]
                out.append(chr(int(h, 16)))
                i += 4
                continue
        out.append(c)
        i += 1
    return "".join(out)


def lex(src):
    out, pos, line = [], 0, 1
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m:
            raise CompileError("bad character %r" % src[pos])
        k, t = m.lastgroup, m.group()
        line += t.count("\n")
        pos = m.end()
        if k == "ws":
            continue
        if k == "id" and t in KEYWORDS:
            k = "kw"
        if k == "num":
            t = t.replace("_", "")
            v = float(int(t, 16)) if t[:2] in ("0x", "0X") else float(t)
            out.append(("num", v, line))
        elif k == "str":
            out.append(("str", unescape(t[1:-1]), line))
        elif k == "raw":
            out.append(("str", t[2:-1], line))
        else:
            out.append((k, t, line))
    out += [("eof", "", line)] * 4
    return out


# precedence, lowest first
ASSIGN, OR, AND, EQ, CMP, BOR, BXOR, BAND, TERM, FACTOR, POW, UNARY, CHAIN, CALL = range(1, 15)
INFIX = {"?": ASSIGN, "or": OR, "and": AND, "==": EQ, "!=": EQ, "<": CMP, ">": CMP, "<=": CMP, ">=": CMP, "|": BOR, "^": BXOR,
         "&": BAND, "+": TERM, "-": TERM, "*": FACTOR, "/": FACTOR, "%": FACTOR, "**": POW, "?.": CHAIN, ".": CALL, "(": CALL, "[": CALL}
COMPOUND = {"+=": "+", "-=": "-", "*=": "*", "/=": "/", "&=": "&", "^=": "^", "|=": "|"}


class Scope:
    __slots__ = ("names",)

    def __init__(self):
        self.names = {}      # name -> [varid, const, defined]


class FnCtx:
    def __init__(self, enclosing, kind):
        self.enclosing, self.kind = enclosing, kind
        self.scopes = []
        self.loops = 0


class Parser:
    def __init__(self, src, globals_):
        self.t = lex(src)
        self.i = 0
        self.fn = FnCtx(None, "top")
        self.consts = set()
        self.globals = globals_
        self.nvar = 0
        self.klass = None

    # --- tokens
    def cur(self):
        return self.t[self.i]

    def at(self, *vals):
        k, v, _ = self.t[self.i]
        return k in ("op", "kw") and v in vals

    def match(self, *vals):
        if self.at(*vals):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.match(v):
            raise CompileError("expected %s at line %d, got %r" % (v, self.cur()[2], self.cur()[1]))

    def ident(self):
        k, v, l = self.cur()
        if k != "id":
            raise CompileError("expected identifier at line %d" % l)
        self.i += 1
        return v

    # --- scopes
    def declare(self, name, const=False):
        if not self.fn.scopes:
            return ("global", name)
        sc = self.fn.scopes[-1]
        if name in sc.names:
            raise CompileError("redeclared " + name)
        self.nvar += 1
        sc.names[name] = [self.nvar, const, False]
        return ("local", self.nvar, name)

    def define(self, target, const):
        if target[0] == "global":
            if target[1] in self.consts:
                raise CompileError("redeclared constant")
            if const:
                self.consts.add(target[1])
        else:
            e = self.fn.scopes[-1].names[target[2]]
            e[1], e[2] = const, True

    def resolve(self, name):
        f, infn = self.fn, False
        while f is not None:
            for sc in reversed(f.scopes):
                e = sc.names.get(name)
                if e is not None:
                    if not infn and not e[2]:
                        raise CompileError("own initializer")
                    return ("local", e[0], name), e[1]
            f, infn = f.enclosing, True
        if name in self.globals:
            return ("builtin", name), False
        return ("global", name), name in self.consts

    # --- program
    def program(self):
        out = []
        while self.cur()[0] != "eof":
            out.append(self.declaration())
        return out

    def block(self):
        """statements up to '}' in a new scope"""
        self.fn.scopes.append(Scope())
        out = []
        while not self.at("}"):
            if self.cur()[0] == "eof":
                raise CompileError("unterminated block")
            out.append(self.declaration())
        self.need("}")
        self.fn.scopes.pop()
        return out

    def annotations(self):
        """skips @Name and @Name(literal)"""
        seen = False
        while self.match("@"):
            seen = True
            self.ident()
            if self.match("("):
                while not self.match(")"):
                    self.i += 1
        return seen

    def declaration(self):
        if self.annotations() and not self.at("class", "abstract", "trait"):
            raise CompileError("annotation")
        if self.match("class"):
            return self.classdecl("default")
        if self.match("trait"):
            return self.classdecl("trait")
        if self.match("abstract"):
            self.need("class")
            return self.classdecl("abstract")
        if self.at("def") and self.t[self.i + 1][0] == "id":
            self.match("def")
            name = self.ident()
            tgt = self.declare(name)
            f = self.function(name, "function")
            self.define(tgt, False)
            return ("fundecl", tgt, f)
        if self.match("var"):
            return self.vardecl(False)
        if self.match("const"):
            return self.vardecl(True)
        if self.match("enum"):
            name = self.ident()
            tgt = self.declare(name)
            self.need("{")
            members, idx = [], 0
            while not self.at("}"):
                n = self.ident()
                if self.match("="):
                    members.append((n, self.expr()))
                else:
                    members.append((n, ("num", float(idx))))
                idx += 1
                if not self.match(","):
                    break
            self.need("}")
            self.define(tgt, False)
            return ("enum", tgt, name, members)
        return self.statement()

    def vardecl(self, const):
        if self.match("["):
            names = [self.ident()]
            while self.match(","):
                names.append(self.ident())
            self.need("]")
            self.need("=")
            e = self.expr()
            tg = []
            for n in names:
                t = self.declare(n)
                self.define(t, const)
                tg.append(t)
            self.need(";")
            return ("vardestruct", tg, e)
        out = []
        while True:
            name = self.ident()
            tgt = self.declare(name)
            if const:
                self.need("=")
                e = self.expr()
            elif self.match("="):
                e = self.expr()
            else:
                e = ("nil",)
            self.define(tgt, const)
            out.append((tgt, e))
            if not self.match(","):
                break
        self.need(";")
        return ("vars", out)

    def statement(self):
        if self.match("for"):
            self.fn.scopes.append(Scope())
            self.need("(")
            init = cond = inc = None
            if self.match("var"):
                init = self.vardecl(False)
            elif not self.match(";"):
                init = ("expr", self.expr())
                self.need(";")
            if not self.match(";"):
                cond = self.expr()
                self.need(";")
            if not self.match(")"):
                inc = self.expr()
                self.need(")")
            self.fn.loops += 1
            body = self.statement()
            self.fn.loops -= 1
            self.fn.scopes.pop()
            return ("for", init, cond, inc, body)
        if self.match("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.statement()
            b = self.statement() if self.match("else") else None
            return ("if", c, a, b)
        if self.match("while"):
            if self.at("{"):
                c = ("true",)
            else:
                self.need("(")
                c = self.expr()
                self.need(")")
            self.fn.loops += 1
            body = self.statement()
            self.fn.loops -= 1
            return ("while", c, body)
        if self.match("switch"):
            self.need("(")
            v = self.expr()
            self.need(")")
            self.need("{")
            cases, default = [], None
            if not self.at("case"):
                raise CompileError("no case")
            while self.match("case"):
                es = [self.expr()]
                while self.match(","):
                    es.append(self.expr())
                self.need(":")
                cases.append((es, self.statement()))
            if self.match("default"):
                self.need(":")
                default = self.statement()
            self.need("}")
            return ("switch", v, cases, default)
        if self.match("return"):
            if self.fn.kind == "top":
                raise CompileError("return at top level")
            if self.match(";"):
                return ("return", None)
            if self.fn.kind == "init":
                raise CompileError("return value in initializer")
            e = self.expr()
            self.need(";")
            return ("return", e)
        if self.match("break"):
            if not self.fn.loops:
                raise CompileError("break outside loop")
            self.need(";")
            return ("break",)
        if self.match("continue"):
            if not self.fn.loops:
                raise CompileError("continue outside loop")
            self.need(";")
            return ("continue",)
        if self.at("{"):
            n1, n2 = self.t[self.i + 1], self.t[self.i + 2]
            if not (n1[0] in ("str", "num") and n2[:2] == ("op", ":")):
                self.match("{")
                return ("block", self.block())
        if self.at("["):
            j, names = self.i + 1, []
            while self.t[j][0] == "id":
                names.append(self.t[j][1])
                j += 1
                if self.t[j][:2] == ("op", ","):
                    j += 1
                else:
                    break
            if names and self.t[j][:2] == ("op", "]") and self.t[j + 1][:2] == ("op", "="):
                self.i = j + 2
                e = self.expr()
                tg = []
                for n in names:
                    r, const = self.resolve(n)
                    if const:
                        raise CompileError("const")
                    tg.append(r)
                self.need(";")
                return ("assigndestruct", tg, e)
        e = self.expr()
        self.need(";")
        return ("expr", e)

    # --- functions
    def function(self, name, kind):
        f = FnCtx(self.fn, "init" if kind == "init" else "fn")
        f.scopes.append(Scope())
        self.fn = f
        self.need("(")
        params, opts, variadic, props, privs = [], [], False, [], []
        if not self.at(")"):
            while True:
                if variadic:
                    raise CompileError("spread last")
                isvar = self.match("var")
                ispriv = self.match("private")
                if (isvar or ispriv) and kind != "init":
                    raise CompileError("var/private outside initializer")
                variadic = self.match("...")
                if variadic and kind == "init":
                    raise CompileError("spread in initializer")
                n = self.ident()
                t = self.declare(n)
                if isvar:
                    props.append((len(params), n))
                if ispriv:
                    privs.append((len(params), n))
                    self.klass["private"].add(n)
                if self.match("="):
                    if variadic:
                        raise CompileError("optional spread")
                    params.append((t, self.expr()))
                    opts.append(n)
                else:
                    if opts:
                        raise CompileError("required after optional")
                    params.append((t, None))
                self.define(t, False)
                if not self.match(","):
                    break
        self.need(")")
        if kind == "abstract":
            if self.at("{"):
                raise CompileError("abstract body")
            body = []
        elif kind == "arrow":
            self.need("=>")
            if self.match("{"):
                body = self.fnbody()
            else:
                body = [("return", self.expr())]
        else:
            self.need("{")
            body = self.fnbody()
        self.fn = f.enclosing
        return dict(name=name, kind=kind, params=params, nopt=len(opts), variadic=variadic, body=body, props=props, privs=privs)

    def fnbody(self):
        out = []
        while not self.at("}"):
            if self.cur()[0] == "eof":
                raise CompileError("unterminated function")
            out.append(self.declaration())
        self.need("}")
        return out

    # --- classes
    def classdecl(self, ctype):
        name = self.ident()
        kl = dict(name=name, super=False, enclosing=self.klass, private=set(), type=ctype, static=False)
        self.klass = kl
        sup = None
        if ctype != "trait" and self.match("<"):
            sup = self.expr()
            kl["super"] = True
        tgt = self.declare(name)
        self.need("{")
        members = []
        pushed = False
        if sup is not None:
            self.fn.scopes.append(Scope())
            t = self.declare("super")
            self.define(t, True)
            kl["supertgt"] = t
            pushed = True
        while not self.at("}"):
            self.annotations()
            if self.match("use"):
                while True:
                    n = self.ident()
                    members.append(("use", self.resolve(n)[0]))
                    if not self.match(","):
                        break
                self.need(";")
            elif self.match("var", "const"):
                const = self.t[self.i - 1][1] == "const"
                n = self.ident()
                self.need("=")
                members.append(("var", n, self.expr(), const))
                self.need(";")
            else:
                priv = self.match("private")
                if priv and self.cur()[0] == "id" and self.t[self.i + 1][:2] == ("op", ";"):
                    kl["private"].add(self.ident())
                    self.need(";")
                    continue
                kind = "method"
                if self.match("static"):
                    kind = "static"
                elif self.match("abstract"):
                    if ctype != "abstract":
                        raise CompileError("abstract method")
                    kind = "abstract"
                if priv and ctype == "abstract":
                    raise CompileError("private in abstract")
                kl["static"] = kind == "static"
                n = self.ident()
                if n == "init":
                    kind = "init"
                members.append(("method", n, self.function(n, kind), priv))
                kl["static"] = False
        self.need("}")
        if pushed:
            self.fn.scopes.pop()
        self.klass = kl["enclosing"]
        self.define(tgt, False)
        return ("class", tgt, name, ctype, sup, members, kl.get("supertgt"))

    # --- expressions
    def expr(self):
        return self.prec(ASSIGN)

    def prec(self, p):
        can = p <= ASSIGN
        e = self.prefix(can)
        while True:
            k, v, _ = self.cur()
            ip = INFIX.get(v) if k in ("op", "kw") else None
            if ip is None or p > ip:
                break
            self.i += 1
            e = self.infix(e, v, ip, can)
        if can and self.at("="):
            raise CompileError("invalid assignment target")
        return e

    def args(self):
        out, unpack = [], False
        if not self.at(")"):
            while True:
                if unpack:
                    raise CompileError("unpack last")
                unpack = self.match("...")
                out.append(self.expr())
                if not self.match(","):
                    break
        self.need(")")
        return out, unpack

    def assignop(self, can):
        """-> None, '=' or the operator of a compound assignment"""
        if not can:
            return None
        k, v, _ = self.cur()
        if k == "op" and (v == "=" or v in COMPOUND):
            self.i += 1
            return v
        return None

    def prefix(self, can):
        k, v, line = self.cur()
        self.i += 1
        if k == "num":
            return ("num", v)
        if k == "str":
            return ("str", v)
        if k == "id":
            tgt, const = self.resolve(v)
            op = self.assignop(can and tgt[0] != "builtin")
            if op is None:
                return ("get", tgt)
            if const:
                raise CompileError("const")
            if op == "=":
                return ("set", tgt, self.expr())
            return ("setop", tgt, COMPOUND[op], self.expr())
        if k == "kw":
            if v in ("true", "false", "nil"):
                return (v,)
            if v == "not":
                return ("not", self.prec(UNARY))
            if v == "def":
                return ("fn", self.function("", "arrow"))
            if v == "this":
                if self.klass is None or self.klass["static"]:
                    raise CompileError("this")
                return ("this",)
            if v == "super":
                if self.klass is None or not self.klass["super"]:
                    raise CompileError("super")
                self.need(".")
                n = self.ident()
                st = self.klass["supertgt"]
                if self.match("("):
                    a, u = self.args()
                    return ("supercall", st, n, a, u)
                return ("superget", st, n)
        if k == "op":
            if v == "-":
                return ("neg", self.prec(UNARY))
            if v == "(":
                e = self.expr()
                self.need(")")
                return ("group", e)
            if v == "[":
                out = []
                while not self.at("]"):
                    out.append(self.expr())
                    if not self.match(","):
                        break
                self.need("]")
                return ("list", out)
            if v == "{":
                out = []
                while not self.at("}"):
                    a = self.expr()
                    self.need(":")
                    out.append((a, self.expr()))
                    if not self.match(","):
                        break
                self.need("}")
                return ("dict", out)
        raise CompileError("expected expression at line %d: %r" % (line, v))

    def infix(self, l, v, ip, can):
        if v == "?":
            a = self.expr()
            self.need(":")
            return ("cond", l, a, self.expr())
        if v == "and":
            return ("and", l, self.prec(AND))
        if v == "or":
            return ("or", l, self.prec(OR))
        if v == "(":
            a, u = self.args()
            return ("call", l, a, u)
        if v in (".", "?."):
            n = self.ident()
            wrap = (lambda e: ("chain", l, e)) if v == "?." else (lambda e: e)
            obj = ("it",) if v == "?." else l
            if self.match("("):
                a, u = self.args()
                internal = self.klass is not None and (l == ("this",) or (l[0] == "get" and l[1][-1] == self.klass["name"]))
                return wrap(("invoke", obj, n, a, u, internal))
            priv = self.klass is not None and l == ("this",) and n in self.klass["private"]
            op = self.assignop(can)
            if op is None:
                return wrap(("attr", obj, n, priv))
            if op == "=":
                return wrap(("setattr", obj, n, self.expr(), priv))
            return wrap(("setattrop", obj, n, COMPOUND[op], self.expr(), priv))
        if v == "[":
            if self.match(":"):
                b = self.expr()
                self.need("]")
                return ("slice", l, None, b)
            a = self.expr()
            if self.match(":"):
                b = None if self.at("]") else self.expr()
                self.need("]")
                return ("slice", l, a, b)
            self.need("]")
            op = self.assignop(can)
            if op is None:
                return ("sub", l, a)
            if op == "=":
                return ("setsub", l, a, self.expr())
            return ("setsubop", l, a, COMPOUND[op], self.expr())
        r = self.prec(ip + 1)
        return ("bin", v, l, r)


# ------------------------------------------------------------------ values

class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Closure:
    __slots__ = ("fn", "cells")

    def __init__(self, fn, cells):
        self.fn, self.cells = fn, cells


class Bound:
    __slots__ = ("recv", "m")

    def __init__(self, recv, m):
        self.recv, self.m = recv, m


class Native:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f


class Klass:
    def __init__(self, name, ctype, sup):
        self.name, self.type, self.sup = name, ctype, sup
        self.pub = dict(sup.pub) if sup else {}
        self.abs = dict(sup.abs) if sup else {}
        self.priv, self.vars, self.consts = {}, {}, {"_name": name}


class Inst:
    def __init__(self, k):
        self.k, self.pub, self.priv = k, {"_class": k}, {}


class EnumV:
    def __init__(self, name):
        self.name, self.m = name, {}


class DDict:
    def __init__(self):
        self.d = {}          # key(k) -> (k, v)


class ResultV:
    def __init__(self, ok, v):
        self.ok, self.v = ok, v


def key(v):
    if v is None or isinstance(v, (bool, str)):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ("float", v)
    raise RuntimeErr("unhashable")


def truthy(v):
    if v is None or v is False:
        return False
    if isinstance(v, bool):
        return True
    if isinstance(v, float):
        return v != 0
    if isinstance(v, (str, list)):
        return len(v) > 0
    if isinstance(v, DDict):
        return len(v.d) > 0
    if isinstance(v, ResultV):
        return v.ok
    return True


def equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, float) and isinstance(b, float) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, DDict) and isinstance(b, DDict):
        return a.d.keys() == b.d.keys() and all(equal(v[1], b.d[k][1]) for k, v in a.d.items())
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a is b
    return a is b


def num(x):
    if x != x:
        return "nan"
    return "%.15g" % x


def show(v, nested=False):
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, float):
        return num(v)
    if isinstance(v, str):
        return '"%s"' % v if nested else v
    if isinstance(v, list):
        return "[" + ", ".join(show(x, True) for x in v) + "]"
    if isinstance(v, DDict):
        return "{" + ", ".join((show(k, True)) + ": " + show(x, True) for k, x in v.d.values()) + "}"
    if isinstance(v, Inst):
        return "<%s instance>" % v.k.name
    if isinstance(v, Klass):
        return ("<Trait %s>" if v.type == "trait" else "<Cls %s>") % v.name
    if isinstance(v, EnumV):
        return "<Enum %s>" % v.name
    if isinstance(v, Closure):
        return "<fn %s>" % v.fn["name"] if v.fn["name"] else "<fn <anonymous>>"
    if isinstance(v, Bound):
        return "<%s Method %s>" % ("Static" if v.m.fn["kind"] == "static" else "Bound", v.m.fn["name"])
    return "<?>"


def toint(x):
    return int(x)


def arith(op, a, b):
    if op == "+":
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, list) and isinstance(b, list):
            return a + b
    isn = isinstance(a, float) and isinstance(b, float)
    if op in ("<", ">", "<=", ">="):
        if isinstance(a, str) and isinstance(b, str):
            a, b = a.encode("utf-8", "surrogateescape"), b.encode("utf-8", "surrogateescape")
        elif not isn:
            raise RuntimeErr("operand types")
        return a < b if op == "<" else a > b if op == ">" else not a > b if op == "<=" else not a < b
    if not isn:
        raise RuntimeErr("operand types")
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        if b == 0:
            if a == 0 or a != a:
                return float("nan")
            return math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    if op == "%":
        if b == 0 or math.isinf(a):
            return float("nan")
        return math.fmod(a, b)
    if op == "**":
        try:
            r = math.pow(a, b)
        except OverflowError:
            return -math.inf if a < 0 and b % 2 == 1 else math.inf
        except ValueError:
            if a == 0:
                return math.copysign(math.inf, a) if b % 2 == 1 else math.inf
            return float("nan")
        return r
    if op == "&":
        return float(int(a) & int(b))
    if op == "|":
        return float(int(a) | int(b))
    if op == "^":
        return float(int(a) ^ int(b))
    raise AssertionError(op)


class Budget(Exception):
    pass


class Interp:
    def __init__(self, steps=200000):
        self.g = {}
        self.out = []
        self.builtins = {
            "print": Native("print", self._print), "Success": Native("Success", lambda a: ResultV(True, self.one(a))),
            "Error": Native("Error", lambda a: ResultV(False, self.one(a))),
            "type": Native("type", lambda a: self.typename(self.one(a))),
            "isDefined": Native("isDefined", lambda a: a[0] in self.g)}
        self.steps = steps
        self.depth = 0
        self.it = []

    def one(self, a):
        if len(a) != 1:
            raise RuntimeErr("argc")
        return a[0]

    def typename(self, v):
        if isinstance(v, bool):
            return "bool"
        if v is None:
            return "nil"
        if isinstance(v, float):
            return "number"
        if isinstance(v, str):
            return "string"
        if isinstance(v, list):
            return "list"
        if isinstance(v, DDict):
            return "dict"
        if isinstance(v, Inst):
            return v.k.name
        if isinstance(v, Klass):
            return "trait" if v.type == "trait" else "class"
        if isinstance(v, (Closure, )):
            return "function"
        if isinstance(v, Bound):
            return "method"
        if isinstance(v, Native):
            return "native"
        if isinstance(v, ResultV):
            return "result"
        if isinstance(v, EnumV):
            return "enum"
        return "?"

    def _print(self, a):
        if not a:
            self.out.append("\n")
        for x in a:
            self.out.append(show(x) + "\n")
        return None

    # --- execution
    def run(self, src):
        try:
            if hasattr(self, "consts"):
                p = Parser(src, self.builtins)
                p.consts = self.consts
                prog = p.program()
            else:
                prog = PARSED.get(src)
                if prog is None:
                    if len(PARSED) > 4000:
                        PARSED.clear()
                    prog = PARSED[src] = Parser(src, self.builtins).program()
        except CompileError as e:
            self.err = str(e)
            return "compile"
        self.it = []
        try:
            cells = {}
            for s in prog:
                self.stmt(s, cells, None)
        except RuntimeErr as e:
            self.err = str(e)
            return "runtime"
        return "ok"

    def store(self, tgt, v, cells):
        """definition of a fresh variable"""
        if tgt[0] == "global":
            self.g[tgt[1]] = v
        else:
            cells[tgt[1]] = Cell(v)

    def assign(self, tgt, v, cells):
        if tgt[0] == "global":
            if tgt[1] not in self.g:
                raise RuntimeErr("undefined " + tgt[1])
            self.g[tgt[1]] = v
        else:
            cells[tgt[1]].v = v

    def load(self, tgt, cells):
        if tgt[0] == "global":
            if tgt[1] not in self.g:
                raise RuntimeErr("undefined " + tgt[1])
            return self.g[tgt[1]]
        if tgt[0] == "builtin":
            return self.builtins[tgt[1]]
        return cells[tgt[1]].v

    def stmts(self, ss, cells, this):
        for s in ss:
            self.stmt(s, cells, this)

    def stmt(self, s, cells, this):
        self.steps -= 1
        if self.steps < 0:
            raise Budget
        k = s[0]
        if k == "expr":
            self.ev(s[1], cells, this)
        elif k == "vars":
            for tgt, e in s[1]:
                self.store(tgt, self.ev(e, cells, this), cells)
        elif k == "block":
            self.stmts(s[1], cells, this)
        elif k == "if":
            if truthy(self.ev(s[1], cells, this)):
                self.stmt(s[2], cells, this)
            elif s[3] is not None:
                self.stmt(s[3], cells, this)
        elif k == "while":
            while truthy(self.ev(s[1], cells, this)):
                self.steps -= 1
                if self.steps < 0:
                    raise Budget
                try:
                    self.stmt(s[2], cells, this)
                except Break:
                    break
                except Continue:
                    pass
        elif k == "for":
            if s[1] is not None:
                self.stmt(s[1], cells, this)
            while s[2] is None or truthy(self.ev(s[2], cells, this)):
                self.steps -= 1
                if self.steps < 0:
                    raise Budget
                try:
                    self.stmt(s[4], cells, this)
                except Break:
                    break
                except Continue:
                    pass
                if s[3] is not None:
                    self.ev(s[3], cells, this)
        elif k == "switch":
            v = self.ev(s[1], cells, this)
            for es, body in s[2]:
                vs = [self.ev(e, cells, this) for e in es]
                if any(equal(v, x) for x in vs):
                    self.stmt(body, cells, this)
                    return
            if s[3] is not None:
                self.stmt(s[3], cells, this)
        elif k == "return":
            raise Return(None if s[1] is None else self.ev(s[1], cells, this))
        elif k == "break":
            raise Break
        elif k == "continue":
            raise Continue
        elif k == "fundecl":
            if s[1][0] == "local":
                c = Cell(None)
                cells[s[1][1]] = c
                c.v = Closure(s[2], dict(cells))
            else:
                self.g[s[1][1]] = Closure(s[2], dict(cells))
        elif k == "vardestruct" or k == "assigndestruct":
            v = self.ev(s[2], cells, this)
            if not isinstance(v, list) or len(v) != len(s[1]):
                raise RuntimeErr("unpack")
            for t, x in zip(s[1], v):
                (self.store if k == "vardestruct" else self.assign)(t, x, cells)
        elif k == "enum":
            e = EnumV(s[2])
            if s[1][0] == "local":
                cells[s[1][1]] = Cell(e)
            for n, x in s[3]:
                e.m[n] = self.ev(x, cells, this)
            self.store(s[1], e, cells)
        elif k == "class":
            self.defclass(s, cells, this)
        else:
            raise AssertionError(k)

    def defclass(self, s, cells, this):
        _, tgt, name, ctype, sup, members, supertgt = s
        sk = None
        if tgt[0] == "local":
            cells[tgt[1]] = Cell(None)
        if sup is not None:
            sk = self.ev(sup, cells, this)
            if not isinstance(sk, Klass) or sk.type == "trait":
                raise RuntimeErr("superclass")
            cells = cells if tgt[0] == "local" else dict(cells)
            cells[supertgt[1]] = Cell(sk)
        kl = Klass(name, ctype, sk)
        if tgt[0] == "local":
            cells[tgt[1]].v = kl
        for m in members:
            if m[0] == "use":
                t = self.load(m[1], cells)
                if not isinstance(t, Klass) or t.type != "trait":
                    raise RuntimeErr("use")
                kl.pub.update(t.pub)
            elif m[0] == "var":
                (kl.consts if m[3] else kl.vars)[m[1]] = self.ev(m[2], cells, this)
            else:
                c = Closure(m[2], dict(cells))
                if m[3]:
                    kl.priv[m[1]] = c
                elif m[2]["kind"] == "abstract":
                    kl.abs[m[1]] = c
                else:
                    kl.pub[m[1]] = c
        if sk is not None and ctype == "default":
            for n in kl.abs:
                if n not in kl.pub:
                    raise RuntimeErr("abstract method not implemented")
        self.store(tgt, kl, cells)

    # --- calls
    def callv(self, f, args):
        if isinstance(f, Native):
            return f.f(args)
        if isinstance(f, Closure):
            return self.callc(f, args, f)
        if isinstance(f, Bound):
            return self.callc(f.m, args, f.recv)
        if isinstance(f, Klass):
            if f.type != "default":
                raise RuntimeErr("not callable")
            i = Inst(f)
            ini = f.pub.get("init")
            if ini is not None:
                self.callc(ini, args, i)
            elif args:
                raise RuntimeErr("argc")
            return i
        raise RuntimeErr("not callable")

    def callc(self, c, args, this):
        fn = c.fn
        n, nopt = len(fn["params"]), fn["nopt"]
        req = n - nopt - (1 if fn["variadic"] else 0)
        args = list(args)
        if fn["variadic"]:
            if len(args) < req:
                raise RuntimeErr("argc")
            args = args[:n - 1] + [args[n - 1:]] if len(args) >= n - 1 else args
        elif len(args) < req or len(args) > n:
            raise RuntimeErr("argc")
        self.depth += 1
        if self.depth > 150:
            raise Budget
        cells = dict(c.cells)
        if fn["kind"] in ("method", "init", "static"):
            cells[0] = Cell(this)
        # the defaults that are needed are evaluated in order, with the parameters before them in place
        for (t, d), i in zip(fn["params"], range(n)):
            cells[t[1]] = Cell(args[i] if i < len(args) else None)
        for (t, d), i in zip(fn["params"], range(n)):
            if d is not None and i >= len(args):
                cells[t[1]].v = self.ev(d, cells, this)
        for i, nm in fn["props"]:
            this.pub[nm] = cells[fn["params"][i][0][1]].v
        for i, nm in fn["privs"]:
            this.priv[nm] = cells[fn["params"][i][0][1]].v
        try:
            self.stmts(fn["body"], cells, this)
        except Return as r:
            return this if fn["kind"] == "init" else r.v
        finally:
            self.depth -= 1
        return this if fn["kind"] == "init" else None

    def args(self, es, unpack, cells, this):
        vs = [self.ev(e, cells, this) for e in es]
        if unpack:
            if not isinstance(vs[-1], list):
                raise RuntimeErr("unpack")
            vs = vs[:-1] + list(vs[-1])
        return vs

    def getattr(self, o, n, priv=False):
        if isinstance(o, Inst):
            if priv and n in o.priv:
                return o.priv[n]
            if n in o.pub:
                return o.pub[n]
            if n in o.k.pub:
                return Bound(o, o.k.pub[n])
            k = o.k
            while k is not None:
                if n in k.consts:
                    return k.consts[n]
                if n in k.vars:
                    return k.vars[n]
                k = k.sup
            raise RuntimeErr("attr")
        if isinstance(o, Klass):
            k = o
            while k is not None:
                if n in k.consts:
                    return k.consts[n]
                if n in k.vars:
                    return k.vars[n]
                k = k.sup
            raise RuntimeErr("attr")
        if isinstance(o, EnumV):
            if n in o.m:
                return o.m[n]
        raise RuntimeErr("attr")

    def setattr(self, o, n, v, priv=False):
        if isinstance(o, Inst):
            (o.priv if priv else o.pub)[n] = v
        elif isinstance(o, Klass) and not priv:
            if n in o.consts:
                raise RuntimeErr("class constant")
            o.vars[n] = v
        else:
            raise RuntimeErr("setattr")

    INSTMETHODS = {"toString", "hasAttribute", "getAttribute", "setAttribute", "isInstance", "copy", "deepCopy", "methods"}

    def attrname(self, a, lo, hi):
        if not lo <= len(a) <= hi or not isinstance(a[0], str):
            raise RuntimeErr("attribute arguments")
        return a[0]

    def subclass(self, k, base):
        while k is not None:
            if k is base:
                return True
            k = k.sup
        return False

    def invoke(self, o, n, a, internal):
        if isinstance(o, Inst):
            if internal and n in o.k.priv:
                return self.callc(o.k.priv[n], a, o)
            if n in o.k.pub:
                return self.callc(o.k.pub[n], a, o)
            if n == "isInstance":
                b = self.one(a)
                if not isinstance(b, Klass):
                    raise RuntimeErr("isInstance")
                return self.subclass(o.k, b)
            if n == "hasAttribute":
                try:
                    self.getattr(o, self.attrname(a, 1, 1))
                    return True
                except RuntimeErr:
                    if not isinstance(a[0] if a else None, str) or len(a) != 1:
                        raise
                    return False
            if n == "getAttribute":
                self.attrname(a, 1, 2)
                try:
                    return self.getattr(o, a[0])
                except RuntimeErr:
                    return a[1] if len(a) == 2 else None
            if n == "setAttribute":
                self.attrname(a, 2, 2)
                o.pub[a[0]] = a[1]
                return None
            if n == "toString" and not a:
                return "<%s instance>" % o.k.name
            if internal and n in o.priv:
                return self.callv(o.priv[n], a)
            if n in o.pub:
                return self.callv(o.pub[n], a)
            raise RuntimeErr("no method")
        if isinstance(o, Klass):
            m = (o.priv.get(n) if internal else None) or o.pub.get(n)
            if m is not None:
                if m.fn["kind"] != "static":
                    raise RuntimeErr("not static")
                return self.callc(m, a, o)
            raise RuntimeErr("no class method")
        if isinstance(o, list):
            if n == "push":
                o.append(self.one(a))
                return None
            if n == "len":
                return float(len(o))
            if n == "pop":
                if not o:
                    raise RuntimeErr("pop")
                return o.pop()
        if isinstance(o, DDict):
            if n == "len":
                return float(len(o.d))
            if n == "exists":
                return key(self.one(a)) in o.d
        if isinstance(o, str) and n == "len":
            return float(len(o))
        if isinstance(o, EnumV):
            if n in o.m:
                return self.callv(o.m[n], a)
        if isinstance(o, ResultV):
            if n == "success":
                return o.ok
            if n == "unwrap":
                if not o.ok:
                    raise RuntimeErr("unwrap")
                return o.v
            if n == "unwrapError":
                if o.ok:
                    raise RuntimeErr("unwrapError")
                return o.v
        if n == "toString" and isinstance(o, (float, bool, type(None), list, DDict)):
            return show(o)
        raise RuntimeErr("no method")

    def index(self, o, i):
        if isinstance(o, (list, str)):
            if not isinstance(i, float):
                raise RuntimeErr("index")
            j = int(i)
            if j < 0:
                j += len(o)
            if not 0 <= j < len(o):
                raise RuntimeErr("bounds")
            return j
        raise RuntimeErr("subscript")

    def getsub(self, o, i):
        if isinstance(o, DDict):
            k = key(i)
            if k not in o.d:
                raise RuntimeErr("key")
            return o.d[k][1]
        return o[self.index(o, i)]

    def setsub(self, o, i, v):
        if isinstance(o, DDict):
            o.d[key(i)] = (i, v)
        elif isinstance(o, list):
            o[self.index(o, i)] = v
        else:
            raise RuntimeErr("item assignment")

    # --- expressions
    def ev(self, e, cells, this):
        k = e[0]
        if k == "num" or k == "str":
            return e[1]
        if k == "get":
            return self.load(e[1], cells)
        if k == "bin":
            a = self.ev(e[2], cells, this)
            b = self.ev(e[3], cells, this)
            op = e[1]
            if op == "==":
                return equal(a, b)
            if op == "!=":
                return not equal(a, b)
            return arith(op, a, b)
        if k == "group":
            return self.ev(e[1], cells, this)
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "nil":
            return None
        if k == "neg":
            v = self.ev(e[1], cells, this)
            if not isinstance(v, float):
                raise RuntimeErr("neg")
            return -v
        if k == "not":
            return not truthy(self.ev(e[1], cells, this))
        if k == "and":
            a = self.ev(e[1], cells, this)
            return self.ev(e[2], cells, this) if truthy(a) else a
        if k == "or":
            a = self.ev(e[1], cells, this)
            return a if truthy(a) else self.ev(e[2], cells, this)
        if k == "cond":
            return self.ev(e[2] if truthy(self.ev(e[1], cells, this)) else e[3], cells, this)
        if k == "call":
            f = self.ev(e[1], cells, this)
            a = self.args(e[2], e[3], cells, this)
            return self.callv(f, a)
        if k == "set":
            v = self.ev(e[2], cells, this)
            self.assign(e[1], v, cells)
            return v
        if k == "setop":
            old = self.load(e[1], cells)
            v = arith(e[2], old, self.ev(e[3], cells, this))
            self.assign(e[1], v, cells)
            return v
        if k == "list":
            return [self.ev(x, cells, this) for x in e[1]]
        if k == "dict":
            d = DDict()
            vs = [(self.ev(a, cells, this), self.ev(b, cells, this)) for a, b in e[1]]
            for a, b in vs:
                d.d[key(a)] = (a, b)
            return d
        if k == "sub":
            o = self.ev(e[1], cells, this)
            return self.getsub(o, self.ev(e[2], cells, this))
        if k == "setsub":
            o = self.ev(e[1], cells, this)
            i = self.ev(e[2], cells, this)
            self.setsub(o, i, self.ev(e[3], cells, this))
            return None
        if k == "setsubop":
            o = self.ev(e[1], cells, this)
            i = self.ev(e[2], cells, this)
            r = self.ev(e[4], cells, this)
            if isinstance(o, str):
                raise RuntimeErr("item assignment")
            self.setsub(o, i, arith(e[3], self.getsub(o, i), r))
            return None
        if k == "slice":
            o = self.ev(e[1], cells, this)
            a = 0.0 if e[2] is None else self.ev(e[2], cells, this)
            b = None if e[3] is None else self.ev(e[3], cells, this)
            if not isinstance(o, (list, str)) or not isinstance(a, float) or not (b is None or isinstance(b, float)) or isinstance(a, bool):
                raise RuntimeErr("slice")
            a = max(int(a), 0)
            n = len(o)
            b = n if b is None else min(int(b), n)
            if b < 0:
                b += n
            return o[a:b] if a < b else o[0:0]
        if k == "attr":
            return self.getattr(self.ev(e[1], cells, this), e[2], e[3])
        if k == "setattr":
            o = self.ev(e[1], cells, this)
            self.setattr(o, e[2], self.ev(e[3], cells, this), e[4])
            return None
        if k == "setattrop":
            o = self.ev(e[1], cells, this)
            if not isinstance(o, Inst):
                raise RuntimeErr("setattrop")
            old = self.getattr(o, e[2], e[5])
            self.setattr(o, e[2], arith(e[3], old, self.ev(e[4], cells, this)), e[5])
            return None
        if k == "invoke":
            o = self.ev(e[1], cells, this)
            a = self.args(e[3], e[4], cells, this)
            return self.invoke(o, e[2], a, e[5])
        if k == "fn":
            return Closure(e[1], dict(cells))
        if k == "this":
            return cells[0].v
        if k == "chain":
            o = self.ev(e[1], cells, this)
            if o is None:
                return None
            self.it.append(o)
            try:
                return self.ev(e[2], cells, this)
            finally:
                self.it.pop()
        if k == "it":
            return self.it[-1]
        if k == "superget":
            sk = self.load(e[1], cells)
            if e[2] not in sk.pub:
                raise RuntimeErr("super")
            return Bound(cells[0].v, sk.pub[e[2]])
        if k == "supercall":
            a = self.args(e[3], e[4], cells, this)
            sk = self.load(e[1], cells)
            if e[2] not in sk.pub:
                raise RuntimeErr("super")
            return self.callc(sk.pub[e[2]], a, cells[0].v)
        raise AssertionError(k)



PARSED = {}  # the last programs parsed


def run(src, steps=200000):
    """-> (status, output) for a single source; None if the step budget is exceeded"""
    it = Interp(steps)
    try:
        st = it.run(src)
    except (Budget, RecursionError):
        return None
    return st, "".join(it.out)

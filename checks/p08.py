"""P08: memory. Heap bytes in use (asked from the C library) are compared across repetitions of the same source in one session, across loop
lengths, and before the interpreter is made / after it is freed, for every corpus program, every holder x payload, and for every place an error
can cut each corpus program short."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, corpus
from sigs import DEFS, REPS as KREPS, SMALLV, ALL, arg_tuples, calls

c = mc.Check("P08", rule="a source (or a source cut short by an error at one token) run in a fresh interpreter, or repeated in one; non-trivial = distinct (source, outcome)",
             assumptions=["heap in use is the C library's own count of allocated bytes; growth below 32 bytes per repetition is allocator rounding and is not counted"])
EXE = c.build("plain")
ENV = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
REPS = c.pick(16, 40)


def worker():
    return mc.worker(EXE, cwd_files=corpus.FILES, env=ENV)


def shutdown(sh, w, name, src, note=""):
    """Nothing is left after the interpreter is freed, and the interpreter's own count ends at zero."""
    last = None
    for i in range(4):
        r = w.run(src, flags=64)
        sh.evals += 1
        if r.crash is not None:
            r = mc.run_confirm(w, srcs=src, flags=64)
            if r.crash is not None:
                sh.violate("crash:" + name, "%s: %s%s" % (note or src[len(corpus.PRE):][:400], r.brief(), mc.crash_note(r)), program=src)
            return r
        if r.exit != -1 or not r.mem:
            return r  # the program itself called exit(): the interpreter was not freed
        if r.lost != 0:
            sh.violate("lost:" + name, "%s: the interpreter still accounts for %d bytes after it was freed (%s)" % (note or src[len(corpus.PRE):][:400], r.lost, r.brief()), program=src)
            return r
        last = r.mem[-1] - r.mem[0]
        if last == 0:
            return r
    sh.violate("leak:" + name, "%s: %d bytes of heap are still in use after the interpreter was freed, every time (%s)" % (note or src[len(corpus.PRE):][:400], last, r.brief()), program=src)
    return r


def repeated(sh, w, name, src):
    """Running the same source again and again in one interpreter reaches a steady heap."""
    r = w.run([("case.du", src)] * (4 * REPS), flags=64, timeout=60)
    sh.evals += 4 * REPS
    if r.crash is not None or r.exit != -1:
        return
    sh.transitions += 4 * REPS
    m = r.mem[1:-1]
    g = [m[(k + 1) * REPS - 1] - m[k * REPS - 1] for k in (1, 2, 3)]
    if min(g) >= 24 * REPS:
        sh.violate("grow:" + name, "%s: repeated in one interpreter, the heap that survives a full collection grows by %s bytes per %d repetitions" % (src[len(corpus.PRE):][:400], g, REPS), program=src)


N1, N2 = c.pick((60, 400), (100, 1200))


def looped(sh, w, name, src):
    """A loop over the body has a peak heap that does not depend on the number of iterations."""
    body = src[len(corpus.PRE):]
    imports = "".join(re.findall(r"(?:^|(?<=;))\s*(?:import \w+|import '[^']*' as \w+|from [^;]* import [^;]*);", body))
    body = re.sub(r"(?:^|(?<=;))\s*(?:import \w+|import '[^']*' as \w+|from [^;]* import [^;]*);", "", body)
    res = []
    for n in (N1, N2):
        s = corpus.PRE + imports + "\ndef zbody() { " + body + "\n}\nfor (var zi = 0; zi < %d; zi += 1) { zbody(); }\n" % n
        r = w.run(s, flags=128, gc=(4, 24, 1), timeout=60)
        sh.evals += n
        if not r.ok:
            sh.counts["not loopable"] += 1
            return
        res.append(r.mem[0])
        sh.transitions += n
    if res[1] - res[0] >= (N2 - N1) * 24 + 8192:
        sh.violate("loop:" + name, "%s: as the body of a loop its peak heap is %d bytes over %d iterations but %d over %d" % (body[:400], res[0], N1, res[1], N2), program=s)


def part(sh, item):
    w = worker()
    for name, src in item:
        r = shutdown(sh, w, name, src)
        if r.crash is None and r.exit == -1:
            repeated(sh, w, name, src)
            looped(sh, w, name, src)
        sh.state((name, tuple(r.rcs), r.out))
        sh.sample(dict(program=src[len(corpus.PRE):][:300], outcome=r.brief()))


c.explore("corpus", part, mc.chunks(corpus.programs(), 1))
c.explore("holders", part, mc.chunks(corpus.pairs(), 4))

# ---------------------------------------------------------------- every cut
TOK = re.compile(r"\s+|'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|[A-Za-z_]\w*|\d+(?:\.\d+)?|=>|\.\.\.|[-+*/<>=!]=|\*\*|.", re.S)
KW = set("class static this super if else while for return break continue switch case default def var const nil true false and or not with import from as use trait abstract enum private in".split())


def cuts(src):
    body = src[len(corpus.PRE):]
    toks = [t for t in TOK.findall(body)]
    pos = 0
    for i, t in enumerate(toks):
        a, b = body[:pos], body[pos + len(t):]
        pos += len(t)
        if t.isspace():
            continue
        yield i, "truncated", a
        yield i, "error before", a + " nil.zz; " + t + b
        if t[0] in "'\"" or t[0].isdigit() or (t[0].isalpha() and t not in KW):
            yield i, "operand fails", a + "(1 + nil)" + b
            yield i, "operand absent", a + "(def () => { return nil.zz; })()" + b
        if t == "{":
            yield i, "failing block", a + "{ S([].zz); " + b


def part2(sh, item):
    w = worker()
    for name, src in item:
        for i, how, body in cuts(src):
            r = shutdown(sh, w, "cut:%s:%s" % (name, how), corpus.PRE + body, "%s at token %d of %s: ...%s" % (how, i, name, body[-300:] if how == "truncated" else body[:400]))
            sh.transitions += 1
            sh.state((name, tuple(r.rcs), r.out, r.err))


c.explore("cuts", part2, mc.chunks(corpus.programs(), 1))

# ---------------------------------------------------------------- every built-in, every number and kind of arguments
EXE2 = c.build("plain", name="harness08", extra_wraps=("kill", "chown", "sleep", "usleep", "nanosleep"))


def misuse(sh, w, todo):
    """todo: (key, source); the sources run one after another in one interpreter; what is left after it is freed is split between them."""
    w.reset_cwd()
    r = None
    for i in range(3):
        r = w.run([("case.du", DEFS)] + [("case.du", x) for _, x in todo], flags=1024 | 512 | 2, timeout=60.0)
        if len(r.mem) < 2 or r.crash is not None or r.exit != -1 or len(r.rcs) != len(todo) + 1:
            break
        if r.mem[-1] == r.mem[0] and r.lost == 0:
            sh.evals += len(todo)
            sh.transitions += len(todo)
            return
    else:
        if len(todo) == 1:
            sh.violate("misuse-leak:" + todo[0][0], "%s: %d bytes of heap are still in use after the interpreter was freed, every time; the interpreter accounts for %d" % (todo[0][1], r.mem[-1] - r.mem[0], r.lost), program=DEFS + todo[0][1])
            return
    if len(todo) == 1:
        sh.counts["ended the process"] += 1
        return
    h = len(todo) // 2
    n = len(sh.violations)
    misuse(sh, w, todo[:h])
    if len(sh.violations) - n < 3:
        misuse(sh, w, todo[h:])


SKIP = {("global", "input"), ("Env", "set")}  # the C library keeps the buffer of stdin and the process its environment


def misusework(sh, item):
    recv, name, pre, s = item
    w = mc.worker(EXE2, cwd_files=corpus.FILES, env=ENV)
    todo = []
    for args in arg_tuples(s, ALL=ALL):
        call = "%s(%s)" % (pre + name if pre else name, ", ".join(args))
        todo.append(("%s.%s(%s)" % (recv, name, ", ".join(args)), "var zr = %s;" % call))
    for p in mc.chunks(todo, 300):
        misuse(sh, w, p)
        if len(sh.violations) > 4:
            break
    sh.state((recv, name))


c.explore("misuse", misusework, [x for x in calls() if x[:2] not in SKIP])
c.bounds = dict(programs=len(corpus.ENTRIES), pairs=len(corpus.HOLD) * len(corpus.PAY), repetitions=4 * REPS, loop_lengths=[N1, N2], cuts="every token of every program: truncated, an error inserted before it, it replaced by a failing operand")
c.finish()

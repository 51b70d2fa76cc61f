"""P07: collector schedules. Every program is run under AddressSanitizer with a collection forced at every single allocation point, at all of
them, at every k-th one with every offset, (thorough) at every pair of nearby points; each run must behave exactly as the run without any."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, corpus

c = mc.Check("P07", rule="a (program, collection schedule) pair; non-trivial = a schedule that runs at least one collection, counted by distinct (program, outcome)",
             assumptions=["a collection can only start where the allocator is entered to grow an allocation, which is where the schedule hook sits"])
EXE = c.build("asan")
KS = c.pick((2, 3), (2, 3, 4, 5, 7))
WIN = c.pick(0, 6)


def norm(r):
    return (tuple(r.rcs), r.exit, r.out, r.err, r.crash)


def one(sh, w, name, src, files=(), win=WIN, start=False):
    fl = 4 if start else 0
    base = mc.run_confirm(w, srcs=src, flags=fl)
    sh.evals += 1
    if base.crash is not None:
        sh.violate("base:" + name, "%s\n    crashes without any collection: %s%s" % (src[-600:], base.brief(), mc.crash_note(base)), program=src)
        return
    n = base.gcpoints
    sh.counts["points"] += n
    want = norm(base)

    def scheds():
        yield (1, 0, 0)
        for k in KS:
            for o in range(k):
                yield (4, k, o)
        for a in range(1, n + 1):
            yield (2, a, 0)
        for a in range(1, n + 1):
            for b in range(a + 1, min(n, a + win) + 1):
                yield (3, a, b)
    for g in scheds():
        r = w.run(src, gc=g, flags=fl)
        sh.evals += 1
        sh.transitions += n if g[0] == 1 else n // g[1] if g[0] == 4 else g[0] - 1
        if norm(r) != want:
            b2 = mc.run_confirm(w, srcs=src, flags=fl)
            if norm(b2) != want:
                sh.counts["nondeterministic"] += 1
                return
            r = mc.run_confirm(w, srcs=src, gc=g, flags=fl)
            if norm(r) == want:
                continue
            sh.violate(name, "%s\n    with collections at %s of %d points:\n    expected %s %r\n    observed %s %r%s" % (src[len(corpus.PRE):][:600], g, n, base.brief(), base.text[:300], r.brief(), r.text[:300], mc.crash_note(r)),
                       program=src, gc=g, expected=base.text[:4000], observed=r.text[:4000], stderr=r.etext[:4000])
            return
    sh.state((name, want))
    sh.sample(dict(program=src[len(corpus.PRE):][:300], points=n, expected=base.text[:120]))


def worker():
    return mc.worker(EXE, cwd_files=corpus.FILES)


def part(sh, item):
    for name, src in item:
        one(sh, worker(), name, src)


c.explore("corpus", part, mc.chunks(corpus.programs(), 1))

# ---------------------------------------------------------------- every holder x every payload
def part2(sh, item):
    for name, src in item:
        one(sh, worker(), name, src, win=c.pick(0, 1))


c.explore("holders", part2, mc.chunks(corpus.pairs(), 4))


# ---------------------------------------------------------------- the start of the interpreter, and the import of every module
def starts():
    yield "start", "print(1);\n"
    for m in "Math Env JSON Log Path Datetime Socket Random Base64 Hashlib Sqlite Process System Term UnitTest Inspect Object Queue IO Stack Argparse BigInt UUID Net Buffer FFI HTTP".split():
        yield "import:" + m, "import %s; print(%s);\n" % (m, m)
    yield "import2", "import 'm1.du' as A; import 'm1.du' as B; print(A.f('x')); from 'm1.du' import f; print(f('y'));\n"


def part3(sh, item):
    for name, src in item:
        one(sh, worker(), name, src, win=0, start=name == "start")


c.explore("startup", part3, mc.chunks(starts(), 1))


# ---------------------------------------------------------------- every state of every container, drained after collections
def states():
    alloc = "var zg = []; for (var zi = 0; zi < 3; zi += 1) { zg.push(['g', zi]); }\n"
    for size in (0, 1, 2, 3, 4):
        cap = size or 8
        for front in range(cap):
            for count in range((cap if size else cap + 2) + 1):
                src = "import Queue; def zMk(x) { return x.unwrap(); }\nvar q = %s;\n" % ("Queue.new()" if not size else "zMk(Queue.newWithSize(%d))" % size)
                src += "for (var i = 0; i < %d; i += 1) { q.push([i]); q.pop(); }\nfor (var i = 0; i < %d; i += 1) { q.push([i, 'v']); }\n" % (front, count)
                yield "queue:%d:%d:%d" % (size, front, count), src + alloc + "while (q.len() > 0) { print(q.pop()); }\n"
    for size in (0, 1, 3):
        for count in range(0, 11):
            for drop in range(0, count + 1, 2):
                src = "import Stack; def zMk(x) { return x.unwrap(); }\nvar q = %s;\n" % ("Stack.new()" if not size else "zMk(Stack.newWithSize(%d))" % size)
                if size and count > size:
                    continue
                src += "for (var i = 0; i < %d; i += 1) { q.push([i, 'v']); }\nfor (var i = 0; i < %d; i += 1) { q.pop(); }\n" % (count, drop)
                yield "stack:%d:%d:%d" % (size, count, drop), src + alloc + "while (q.len() > 0) { print(q.pop()); }\n"
    for count in range(0, 18):
        for drop in sorted({0, 1, count // 2, count}):
            if drop > count:
                continue
            for kind in ("d['k' + (i).toString()] = [i];", "d[i] = 'v' + (i).toString();"):
                rm = kind.split("[")[1].split("]")[0]
                src = "var d = {};\nfor (var i = 0; i < %d; i += 1) { %s }\nfor (var i = 0; i < %d; i += 1) { d.remove(%s); }\n" % (count, kind, drop, rm)
                yield "dict:%d:%d:%s" % (count, drop, rm[:2]), src + alloc + "for (var i = %d; i < %d; i += 1) { print(d[%s]); }\n" % (drop, count, rm)
            src = "var d = set();\nfor (var i = 0; i < %d; i += 1) { d.add('k' + (i).toString()); }\nfor (var i = 0; i < %d; i += 1) { d.remove('k' + (i).toString()); }\n" % (count, drop)
            yield "set:%d:%d" % (count, drop), src + alloc + "for (var i = 0; i < %d; i += 1) { print(d.contains('k' + (i).toString())); } print(d.values().len());\n" % count
            src = "var d = [];\nfor (var i = 0; i < %d; i += 1) { d.push([i]); }\nfor (var i = 0; i < %d; i += 1) { d.pop(%s); }\n"
            for pos in ("", "0"):
                yield "list:%d:%d:%s" % (count, drop, pos), src % (count, drop, pos) + alloc + "for (var i = 0; i < d.len(); i += 1) { print(d[i]); }\n"
    for count in range(0, 18):
        src = "class K { }\nvar o = K();\nfor (var i = 0; i < %d; i += 1) { o.setAttribute('a' + (i).toString(), [i]); }\n" % count
        yield "instance:%d" % count, src + alloc + "for (var i = 0; i < %d; i += 1) { print(o.getAttribute('a' + (i).toString())); }\n" % count
        src = "def mk() {\n" + "".join("    var v%d = [%d];\n" % (i, i) for i in range(count)) + "    return [%s];\n}\nvar fs = mk();\n" % ", ".join("def () => v%d" % i for i in range(count))
        yield "upvalues:%d" % count, src + alloc + "for (var i = 0; i < fs.len(); i += 1) { print(fs[i]()); }\n"
        src = "def mk(l) { return def () => l; }\nvar r = Success([%d]);\nfor (var i = 0; i < %d; i += 1) { r = Success([r]); }\n" % (count, count)
        yield "nested:%d" % count, src + alloc + "for (var i = 0; i < %d; i += 1) { r = r.unwrap()[0]; } print(r.unwrap());\n" % count


def part4(sh, item):
    w = worker()
    for name, src in item:
        base = mc.run_confirm(w, srcs=src)
        for g in [(1, 0, 0)] + [(4, 2, o) for o in (0, 1)]:
            r = w.run(src, gc=g)
            sh.evals += 1
            sh.transitions += base.gcpoints // max(g[1], 1)
            if norm(r) != norm(base) or base.crash is not None or not base.ok:
                r = mc.run_confirm(w, srcs=src, gc=g)
                if norm(r) != norm(base) or base.crash is not None or not base.ok:
                    sh.violate("state:" + name, "%s\n    with collections at %s:\n    expected %s %r\n    observed %s %r%s" % (src, g, base.brief(), base.text[:300], r.brief(), r.text[:300], mc.crash_note(r)), program=src, gc=g)
                    break
        sh.state((name, norm(base)))


c.explore("states", part4, mc.chunks(states(), 8))
c.bounds = dict(programs=len(corpus.ENTRIES), holders=len(corpus.HOLD), payloads=len(corpus.PAY), single_points="all", periodic=KS, pair_window=WIN, container_states="queue: every front and count at 5 capacities; stack, dict, set, list, instance attributes, captured variables: 0..17 elements with removals")
c.finish()

"""P21: queues and stacks: every history of single and bulk pushes and pops from every capacity and front position, in lockstep with a list."""
import os, sys, itertools as it
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from mc import fails

c = mc.Check("P21", rule="one history of operations on one queue or stack; non-trivial = distinct (history, values delivered)",
             assumptions=["how far capacities grow and shrink is not part of the promise, only that they bound the length and that isFull() compares the two"])
EXE = c.build("plain")
ASAN = c.build("asan")

# zRun interprets a history: digit n = push n fresh values, a..i = pop 1..9 values, peeking before each pop; everything observable is appended to r.
PRE = """import Queue; import Stack; var q; var zN = 0; class ZV { init(n) { this.n = n; } }
def zNew(kind, cap) { zN = 0; if (kind == 0) { return cap == 0 ? Queue.new() : Queue.newWithSize(cap).unwrap(); } return cap == 0 ? Stack.new() : Stack.newWithSize(cap).unwrap(); }
def zVal(mode) { zN += 1; if (mode == 0) { return zN; } if (mode == 1) { return 'v' + zN.toString(); } if (mode == 2) { return [zN]; } return ZV(zN); }
def zText(mode, v) { if (mode == 0) { return v.toString(); } if (mode == 1) { return v[1:v.len()]; } if (mode == 2) { return v[0].toString(); } return v.n.toString(); }
def zLook(q, n) { if (q.len() != n) { print('len'); } if (q.isEmpty() != (n == 0)) { print('empty'); } if (q.cap() < n) { print('cap'); } if (q.isFull() != (q.cap() == n)) { print('full'); } }
def zRun(q, mode, ops) { var r = ''; var n = q.len(); for (var i = 0; i < ops.len(); i += 1) { var k = '.123456789'.find(ops[i]); if (k > 0) { for (var j = 0; j < k; j += 1) { if (q.push(zVal(mode)) != nil) { print('push'); } n += 1; } }
  else { k = '.abcdefghi'.find(ops[i]); for (var j = 0; j < k; j += 1) { var a = q.peek(); var b = q.pop(); if (a != b) { print('peek'); } n -= 1; r += zText(mode, b) + ' '; } } zLook(q, n); } return r; }
def zDrain(q, mode) { var r = ''; while (not q.isEmpty()) { r += zText(mode, q.pop()) + ' '; zLook(q, q.len()); } return r; }
"""


def model(kind, ops):
    l, out, n = [], [], 0
    for ch in ops:
        if ch.isdigit():
            for _ in range(int(ch)):
                n += 1
                l.append(n)
        else:
            for _ in range(ord(ch) - 96):
                if not l:
                    return None
                out.append(l.pop(0 if kind == 0 else -1))
    rest = l if kind == 0 else l[::-1]
    return out, rest


NAMES = ("queue", "stack")


def src(kind, cap, mode, ops, pre=""):
    m = model(kind, pre + ops)
    if m is None:
        return None
    out, rest = m
    t = "q = zNew(%d, %d); print(zRun(q, %d, '%s')); print(zDrain(q, %d));" % (kind, cap, mode, pre + ops, mode)
    e = "".join("%d " % x for x in out) + "\n" + "".join("%d " % x for x in rest) + "\n"
    return ("%s:%d:%d:%s:%s" % (NAMES[kind], cap, mode, pre, ops), t, e)


def go(sh, w, gen, gc=(0, 0, 0), lim=1500):
    for part in mc.chunks(gen, lim):
        mc.session(sh, w, part, prelude=PRE, flags=0, n=1800, gc=gc)
        if sh.violations:
            return


def hists(alpha, depth):
    for n in range(0, depth + 1):
        yield from map("".join, it.product(alpha, repeat=n))


# every single step history, from every capacity
def single(sh, item):
    kind, cap, head, depth = item
    go(sh, mc.worker(EXE), filter(None, (src(kind, cap, 0, head + "".join(h)) for h in it.product("1a", repeat=depth))))


c.explore("single", single, [(k, cap, "".join(h), c.pick(10, 13)) for k in (0, 1) for cap in (0, 1, 2, 3, 4, 7) for h in it.product("1a", repeat=3) if model(k, "".join(h)) is not None])


# bulk steps (growth over several capacities and back), from every capacity and every front position
def bulk(sh, item):
    kind, cap, mode, alpha, depth, front = item
    pre = "1a" * front
    go(sh, mc.worker(EXE), filter(None, (src(kind, cap, mode, h, pre) for h in hists(alpha, depth))))


c.explore("bulk", bulk, [(k, cap, m, a, c.pick(5, 6), f) for k in (0, 1) for m, cap in ((1, 0), (2, 1), (3, 2), (1, 3), (2, 4), (1, 5), (1, 9), (1, 16)) for a in ("1a59ei", "3c8h9") for f in range(0, (cap or 8) + 1 if k == 0 else 1)])


# the same under a collection at every allocation, on the memory checked build: held objects stay intact, released slots are not touched
def collected(sh, item):
    kind, cap, mode, alpha, depth, front, gc = item
    go(sh, mc.worker(ASAN), filter(None, (src(kind, cap, mode, h, "1a" * front) for h in hists(alpha, depth))), gc=gc, lim=300)


c.explore("collected", collected, [(k, cap, m, a, d + c.pick(0, 1), f, (1, 0, 0)) for k in (0, 1) for m, cap in ((1, 0), (3, 1), (2, 3), (1, 4)) for a, d in (("1a", 6), ("7g9i", 3), ("18a", 4)) for f in range(0, (cap or 8) + 1 if k == 0 else 1)])


# refused operations change nothing
def refused(sh, item):
    kind, cap = item
    w = mc.worker(ASAN)
    items = []
    for h in hists("1a39ci", c.pick(3, 4)):
        m = model(kind, h)
        if m is None:
            continue
        out, rest = m
        bad = ["q.push()", "q.push(1, 2)", "q.pop(1)", "q.peek(1)", "q.len(1)", "q.cap(nil)", "q.isEmpty(0)", "q.isFull(0)"] if len(h) < 3 else []
        if not rest:
            bad += ["q.pop()", "q.peek()"]
        for b in bad:
            items.append(("%s:%d:%s:%s" % (NAMES[kind], cap, h, b), "q = zNew(%d, %d); zRun(q, 1, '%s'); %s;" % (kind, cap, h, b), fails(out="")))
            items.append(("after:%s:%d:%s:%s" % (NAMES[kind], cap, h, b), "zLook(q, %d); q.push('vx'); q.push('vy'); print(zDrain(q, 1)); print(q);" % len(rest),
                          "".join("%s " % x for x in (["%d" % x for x in rest] + ["x", "y"] if kind == 0 else ["y", "x"] + ["%d" % x for x in rest])) + "\n<%s>\n" % ("Queue" if kind == 0 else "Stack")))
    mc.session(sh, w, items, prelude=PRE, flags=0, n=1800)


c.explore("refused", refused, [(k, cap) for k in (0, 1) for cap in (0, 1, 2, 9)])


def sizes(sh, item):
    items = []
    for k, name in enumerate(("Queue", "Stack")):
        ok = [("1", 1), ("1.5", 1), ("2.999", 2), ("8", 8), ("1000", 1000), ("70000", 70000)]
        for t, v in ok:
            items.append(("size:%s:%s" % (name, t), "q = %s.newWithSize(%s); print(q.success()); q = q.unwrap(); print(q.cap()); zLook(q, 0); q.push(q); print(q.pop() == q);" % (name, t), "true\n%d\ntrue\n" % v))
        for t in ("0", "-0", "-1", "0.5", "-0.5", "1e10", "1e300", "-1e300", "2147483648", "0/0", "1/0", "-1/0"):
            items.append(("size:%s:%s" % (name, t), "print(%s.newWithSize(%s).success());" % (name, t), "false\n"))
        for t in ("", "1, 2", "nil", "'1'", "[1]", "true"):
            items.append(("size:%s:%s" % (name, t), "%s.newWithSize(%s);" % (name, t), fails(out="")))
        items.append(("size:%s:default" % name, "q = %s.new(); print(q.cap()); print(q);" % name, "8\n<%s>\n" % name))
        items.append(("size:%s:new" % name, "%s.new(1);" % name, fails(out="")))
    mc.session(sh, mc.worker(ASAN), items, prelude=PRE, flags=0)


c.explore("sizes", sizes, [0])


# long runs: many values, front at every offset, then everything comes back in order
def long(sh, item):
    kind, cap, n = item
    items = []
    for f in range(0, 9 if kind == 0 else 1):
        items.append(("%s:long:%d:%d:%d" % (NAMES[kind], cap, n, f), """q = zNew(%d, %d); { var e = 0; var x = 0; var y = %d; for (var i = 0; i < %d; i += 1) { q.push(i); q.pop(); } for (var i = 0; i < %d; i += 1) { q.push(i); if (q.len() != i + 1) { e += 1; } }
 for (var i = 0; i < %d; i += 1) { if (q.pop() != %s) { e += 1; } if (q.len() != %d - i - 1) { e += 1; } } print(e); zLook(q, 0); q.push(5); print(q.pop()); }""" % (kind, cap, n, f, n, n, "i" if kind == 0 else "%d - i" % (n - 1), n), "0\n5\n"))
    mc.session(sh, mc.worker(EXE), items, prelude=PRE, flags=0)


c.explore("long", long, [(k, cap, n) for k in (0, 1) for cap in (0, 1, 5, 100) for n in (1, 7, 8, 9, 15, 16, 17, 100, 1000, c.pick(20000, 100000))])
c.bounds = {"single step histories": c.pick(13, 16), "bulk histories": c.pick(5, 6), "capacities": "default, 1..7, 9, 16"}
c.finish()

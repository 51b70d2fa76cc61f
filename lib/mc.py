"""Core of the bounded model checker: workers, parallel exploration, confirmation, evidence."""
import argparse, atexit, collections, hashlib, json, multiprocessing as mp, os, select, shutil, signal, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
REPO = B.REPO
NPROC = min(8, os.cpu_count() or 4)


_rundir = None


def run_dir():
    """Scratch directory of this run, removed when the run that made it ends."""
    global _rundir
    if _rundir is None:
        _rundir = tempfile.mkdtemp(prefix="mcrun-")
        me = os.getpid()
        atexit.register(lambda: shutil.rmtree(_rundir, ignore_errors=True) if os.getpid() == me else None)
    return _rundir


class Res:
    __slots__ = ("rcs", "exit", "gcpoints", "lost", "out", "err", "crash", "mem")

    def __init__(self, rcs=(), exit=-1, gcpoints=0, lost=-1, out=b"", err=b"", crash=None, mem=()):
        self.mem = mem
        self.rcs, self.exit, self.gcpoints, self.lost, self.out, self.err, self.crash = rcs, exit, gcpoints, lost, out, err, crash

    @property
    def ok(self):
        return self.crash is None and self.exit == -1 and all(r == "0" for r in self.rcs)

    @property
    def text(self):
        return self.out.decode("utf-8", "surrogateescape")

    @property
    def etext(self):
        return self.err.decode("utf-8", "surrogateescape")

    def brief(self):
        s = "rc=%s exit=%s lost=%s crash=%s" % (",".join(self.rcs), self.exit, self.lost, self.crash)
        return s

    def key(self):
        return (tuple(self.rcs), self.exit, self.out, self.err, self.crash)


def to_bytes(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")


class Worker:
    """One harness process, restarted whenever a case kills it."""

    def __init__(self, exe, env=None, as_mb=0, cwd_files=None, wrapper=()):
        self.exe, self.as_mb, self.wrapper = exe, as_mb, list(wrapper)
        self.dir = tempfile.mkdtemp(prefix="w", dir=run_dir())
        self.cwd = os.path.join(self.dir, "cwd")
        os.mkdir(self.cwd)
        self.files = dict({"case.du": ""}, **(cwd_files or {}))
        self.reset_cwd()
        self.env = dict(PATH="/usr/local/bin:/usr/bin:/bin", HOME=self.dir, LANG="C.UTF-8", TZ="UTC0", TMPDIR=self.dir)
        self.env.update(env or {})
        self.p = None
        self.n = 0
        self.starts = 0
        self.exits = 0

    def reset_cwd(self):
        """Only the files this worker was given, as they were (None: a directory, ("link", to): a symbolic link)."""
        for e in os.scandir(self.cwd):
            shutil.rmtree(e.path) if e.is_dir(follow_symlinks=False) else os.unlink(e.path)
        for n, c in self.files.items():
            p = os.path.join(self.cwd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if c is None:
                os.makedirs(p, exist_ok=True)
            elif isinstance(c, tuple):
                os.symlink(c[1], p)
            else:
                with open(p, "wb") as f:
                    f.write(to_bytes(c))

    def start(self):
        self.starts += 1
        self.exits = 0
        self.p = subprocess.Popen(self.wrapper + [self.exe, self.dir + "/out", self.dir + "/err", self.dir + "/in", str(self.as_mb)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=self.env, cwd=self.cwd, start_new_session=True, bufsize=0)
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def _read(self, deadline):
        left = deadline - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([self.p.stdout], [], [], left)
        if not r:
            return None
        d = os.read(self.p.stdout.fileno(), 1 << 16)
        return d

    def run(self, srcs, gc=(0, 0, 0), stdin=None, flags=0, argv=("case.du",), timeout=20.0):
        if self.exits >= 300:
            # a program that ended the process by itself left its VM behind
            self.stop()
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        if isinstance(srcs, (str, bytes)):
            srcs = [("case.du", srcs)]
        self.n += 1
        parts = []
        inb = to_bytes(stdin) if stdin is not None else b""
        if stdin is not None:
            flags |= 1
        parts.append(b"C %d %d %d %d %d %d %d %d\n" % (self.n, gc[0], gc[1], gc[2], len(srcs), len(inb), flags, len(argv)))
        for a in argv:
            a = to_bytes(a)
            parts.append(b"%d\n" % len(a) + a)
        for nm, s in srcs:
            nm, s = to_bytes(nm), to_bytes(s)
            parts.append(b"%d %d\n" % (len(nm), len(s)) + nm + s)
        parts.append(inb)
        data = b"".join(parts)
        deadline = time.monotonic() + timeout
        try:
            off = 0
            while off < len(data):
                off += os.write(self.p.stdin.fileno(), data[off:off + 65536])
            while b"\n" not in self.buf:
                d = self._read(deadline)
                if d is None:
                    raise TimeoutError
                if not d:
                    raise EOFError
                self.buf += d
            hdr, rest = self.buf.split(b"\n", 1)
            f = hdr.split()
            if f[0] != b"R" or int(f[1]) != self.n:
                raise RuntimeError("protocol error: %r" % hdr)
            ol, el = int(f[6]), int(f[7])
            chunks, have = [rest], len(rest)
            while have < ol + el:
                d = self._read(deadline)
                if d is None:
                    raise TimeoutError
                if not d:
                    raise EOFError
                chunks.append(d)
                have += len(d)
            rest = b"".join(chunks)
            self.buf = rest[ol + el:]
            rcs = f[2].decode()
            self.exits += int(f[3]) != -1
            return Res([] if rcs == "-" else rcs.split(","), int(f[3]), int(f[4]), int(f[5]), rest[:ol], rest[ol:ol + el], None, [] if f[8] == b"-" else [int(x) for x in f[8].split(b",")])
        except TimeoutError:
            self.stop()
            return self._dead("timeout")
        except (EOFError, BrokenPipeError):
            rc = self.p.wait()
            self.stop()
            why = "signal %d" % -rc if rc < 0 else "exit %d" % rc
            r = self._dead(why)
            if b"AddressSanitizer" in r.err:
                line = [l for l in r.etext.splitlines() if "ERROR: AddressSanitizer" in l]
                r.crash = "asan: " + (line[0].split("AddressSanitizer:")[1].split(" on ")[0].strip() if line else "?")
            return r

    def _dead(self, why):
        def rd(n):
            try:
                with open(self.dir + "/" + n, "rb") as f:
                    return f.read(1 << 20)
            except OSError:
                return b""
        return Res([], -1, 0, -1, rd("out"), rd("err"), why)


def run_confirm(w, timeout_alone=30.0, **kw):
    """Runs a case; a timeout is believed only after a longer, lone re-run."""
    r = w.run(**kw)
    if r.crash == "timeout":
        kw = dict(kw, timeout=timeout_alone)
        r = w.run(**kw)
    return r


class Violation(Exception):
    pass


class Shard:
    """Accumulates the results of one shard of the exploration (picklable)."""

    def __init__(self):
        self.evals = 0          # programs / traces run on the implementation
        self.transitions = 0    # operations executed and compared
        self.states = set()     # hashes of distinct states / outcomes
        self.violations = []    # dicts
        self.samples = []
        self.counts = collections.Counter()
        self.truncated = False

    def state(self, x):
        self.states.add(hash_(x))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def violate(self, key, what, **detail):
        self.violations.append(dict(key=key, what=what, **detail))

    def merge(self, o):
        self.evals += o.evals
        self.transitions += o.transitions
        self.states |= o.states
        self.violations += o.violations
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)
        self.counts.update(o.counts)
        self.truncated |= o.truncated


def hash_(x):
    if not isinstance(x, bytes):
        x = repr(x).encode("utf-8", "surrogateescape")
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")


_workers = {}


def worker(exe, **kw):
    """The per-process worker for an executable."""
    k = (exe, repr(sorted(kw.items())))
    w = _workers.get(k)
    if w is None:
        w = _workers[k] = Worker(exe, **kw)
    return w


def _close_workers():
    for w in _workers.values():
        w.close()
    _workers.clear()


def _retry(fn, item, sh, e, tb):
    """An item that could not be followed to its end is explored once more. What the implementation answers reaches the checks as data: an answer
    of a shape that none of them can have is a violation if it comes again; trouble of the sandbox (OSError, MemoryError) is not."""
    if sh.violations:
        return "ok", sh
    if isinstance(e, (OSError, MemoryError)):
        return "err", tb
    _close_workers()
    s2 = Shard()
    try:
        fn(s2, item)
        return "ok", s2
    except Exception as e2:
        if s2.violations:
            return "ok", s2
        if isinstance(e2, (OSError, MemoryError)):
            return "err", traceback.format_exc()
        tb = traceback.format_exc()
        s2.violate("unfollowable:" + repr(item)[:200], "the implementation's answers cannot be read as any allowed one:\n    " + tb.strip().replace("\n", "\n    ")[-1500:], trace=tb, item=repr(item)[:4000])
        return "ok", s2


def _proc_main(fn, q, outq, deadline, maxviol):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        while True:
            item = q.get()
            if item is None:
                break
            sh = Shard()
            try:
                if time.monotonic() > deadline:
                    sh.truncated = True
                else:
                    fn(sh, item)
                outq.put(("ok", sh))
            except Exception as e:
                outq.put(_retry(fn, item, sh, e, traceback.format_exc()))
    finally:
        _close_workers()


class Check:
    def __init__(self, prop, level="model_checking", rule="", assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--jobs", type=int, default=NPROC)
        ap.add_argument("--max-violations", type=int, default=5)
        ap.add_argument("--show", type=int, default=5)
        a, self.rest = ap.parse_known_args()
        self.tier = "thorough" if a.tier == "thorough" else "quick"
        self.quick = self.tier == "quick"
        self.jobs, self.maxv, self.show = a.jobs, a.max_violations, a.show
        self.prop, self.level, self.rule, self.assumptions = prop, level, rule, list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.monotonic()
        self.total = Shard()
        self.exhaustive = True
        self.bounds = {}
        self.parts = {}
        self.known = load_known(prop)
        self.known_hit = collections.OrderedDict()
        self.budget = 780.0
        run_dir()

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def build(self, variant="plain", **kw):
        try:
            return B.build(variant, **kw)
        except B.BuildError as e:
            print(str(e)[:4000], file=sys.stderr)
            print("cannot build the tree", file=sys.stderr)
            sys.exit(2)

    def explore(self, name, fn, items):
        """Runs fn(shard, item) for every item, in parallel; every item is explored."""
        items = list(items)
        t0 = time.monotonic()
        part = Shard()
        deadline = self.t0 + self.budget
        ctx = mp.get_context("fork")
        q, outq = ctx.Queue(), ctx.Queue()
        n = max(1, min(self.jobs, len(items)))
        procs = [ctx.Process(target=_proc_main, args=(fn, q, outq, deadline, self.maxv)) for _ in range(n)]
        for p in procs:
            p.start()
        for it in items:
            q.put(it)
        for _ in procs:
            q.put(None)
        err, stopped, got = None, False, 0
        while got < len(items):
            try:
                kind, v = outq.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in procs):
                    err = "a worker process died"
                    break
                continue
            got += 1
            if kind == "err":
                err = v
                break
            part.merge(v)
            if len([x for x in part.violations if not self.is_known(x)]) >= self.maxv:
                stopped = True
                break
        q.cancel_join_thread()
        outq.cancel_join_thread()
        if stopped or err:
            for p in procs:
                p.terminate()
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
        if err:
            print("internal error in %s/%s:\n%s" % (self.prop, name, err), file=sys.stderr)
            self.total.merge(part)
            if [x for x in self.total.violations if not self.is_known(x)]:
                self.finish()
            sys.exit(3)
        if part.truncated:
            self.exhaustive = False
        part.states = set(hash_((name, s)) for s in part.states)
        self.parts[name] = dict(items=len(items), traces=part.evals, transitions=part.transitions, states=len(part.states),
                                wall_s=round(time.monotonic() - t0, 2), truncated=part.truncated, **{k: v for k, v in part.counts.items()})
        for v in part.violations:
            v.setdefault("part", name)
        self.total.merge(part)
        print("[%s] %s: %s" % (self.prop, name, json.dumps(self.parts[name])), flush=True)
        if stopped:
            self.finish()
        return part

    def is_known(self, v):
        for k in self.known:
            if match_known(k, v):
                return True
        return False

    def finish(self):
        new = []
        for v in self.total.violations:
            hit = None
            for k in self.known:
                if match_known(k, v):
                    hit = k
                    break
            if hit is not None:
                self.known_hit.setdefault(hit["id"], hit)
            else:
                new.append(v)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k["id"], k["what"]))
        # a listed finding of this property is reported on every run, hit or not in this tier
        t = self.total
        cov = dict(states=len(t.states), transitions=t.transitions, traces_validated_against_impl=t.evals,
                   evaluations=t.evals, distinct_nontrivial=len(t.states), rule=self.rule, samples=t.samples[:6],
                   exhaustive=bool(self.exhaustive and not new), bounds=self.bounds, parts=self.parts)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.monotonic() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        if new:
            rc = 1
            d = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(d, exist_ok=True)
            shown = set()
            for v in new:
                if v["key"] in shown:
                    continue
                shown.add(v["key"])
                if len(shown) > self.show:
                    break
                p = os.path.join(d, "%016x.json" % hash_(v["key"]))
                with open(p, "w") as f:
                    json.dump(dict(v, property=self.prop), f, indent=1, default=lambda o: o.decode("utf-8", "backslashreplace") if isinstance(o, bytes) else str(o))
                print("  %s: %s" % (v["key"], str(v["what"])[:1500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        if t.truncated:
            print("note: the time budget cut the exploration; see evidence", file=sys.stderr)
        print("[%s] %s states=%d transitions=%d traces=%d violations=%d wall=%.1fs" %
              (self.prop, self.tier, len(t.states), t.transitions, t.evals, len(new), time.monotonic() - self.t0), flush=True)
        sys.exit(rc)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def match_known(k, v):
    return v.get("key") in k["keys"]


# ---------------------------------------------------------------- snippets

def fmt(x):
    """How Dictu prints a number."""
    return "%.15g" % x


class Snip:
    """A self-contained piece of program: code printing `expect` lines and nothing else."""
    __slots__ = ("key", "code", "expect", "steps")

    def __init__(self, key, code, expect, steps=1):
        self.key, self.code, self.expect, self.steps = key, code, expect, steps


def _lines(b):
    return b.decode("utf-8", "surrogateescape")


def run_batch(sh, w, snips, prelude="", timeout=30.0, isolate=True, gc=(0, 0, 0), lost=True, note=None, wrapf=None, flags=0):
    """Runs snippets in one program and compares each one's output with the expectation.

    A snippet that differs is re-run alone (fresh VM) and, if it agrees there,
    again together with everything that preceded it: the replay is the smallest
    of those that still disagrees.
    """
    wrapf = wrapf or (lambda s: "{\n" + s + "\n}\n")

    def program(ss):
        return prelude + "\n" + "".join('print("@@%d");\n%s' % (i, wrapf(s.code)) for i, s in enumerate(ss)) + 'print("@@end");\n'

    def judge(ss, r):
        """-> index of the first disagreeing snippet and what was seen, or None"""
        out = _lines(r.out)
        if r.crash is None and r.ok and (not lost or r.lost == 0):
            exp = "".join("@@%d\n%s" % (i, "".join(l + "\n" for l in s.expect)) for i, s in enumerate(ss)) + "@@end\n"
            if out == exp:
                return None
        pieces = out.split("@@")
        for i, s in enumerate(ss):
            want = "%d\n%s" % (i, "".join(l + "\n" for l in s.expect))
            got = pieces[i + 1] if i + 1 < len(pieces) else None
            if got != want:
                return i, got if got is None else got.split("\n", 1)[-1]
        return len(ss) - 1, "program end: " + r.brief()

    r = run_confirm(w, srcs=program(snips), timeout=timeout, gc=gc, flags=flags)
    sh.evals += len(snips)
    for s in snips:
        sh.transitions += s.steps
        sh.state(tuple(s.expect))
    if snips:
        sh.sample(dict(program=snips[0].code[:400], expected=snips[0].expect[:6]))
    bad = judge(snips, r)
    if bad is None:
        return True
    reported = 0
    # each snippet alone
    for s in snips:
        r1 = run_confirm(w, srcs=program([s]), timeout=10.0, gc=gc, flags=flags)
        b1 = judge([s], r1)
        if b1 is not None:
            r2 = run_confirm(w, srcs=program([s]), timeout=20.0, gc=gc, flags=flags)
            if judge([s], r2) is None:
                continue
            sh.violate(s.key, "%s\n    expected %r\n    observed %r (%s)%s" % (s.code.strip()[:600], s.expect[:12], b1[1], r1.brief(), crash_note(r1)),
                       program=program([s]), expected=s.expect, observed=_lines(r1.out), stderr=_lines(r1.err)[:4000], gc=gc, run=r1.brief())
            reported += 1
            if reported >= 3:
                break
    if not reported:
        i = bad[0]
        lo = 0
        # shrink the prefix while it still fails
        ss = snips[:i + 1]
        step = max(1, len(ss) // 2)
        while step >= 1 and len(ss) > 1:
            k = 0
            while k < len(ss) - 1 and len(ss) > 1:
                t = ss[:k] + ss[min(k + step, len(ss) - 1):]
                if judge(t, run_confirm(w, srcs=program(t), timeout=timeout, gc=gc, flags=flags)) is not None:
                    ss = t
                else:
                    k += step
            step //= 2
        rr = run_confirm(w, srcs=program(ss), timeout=timeout, gc=gc, flags=flags)
        b = judge(ss, rr)
        if b is None:
            rr = r
            b = bad
            ss = snips
            b = judge(ss, run_confirm(w, srcs=program(ss), timeout=timeout, gc=gc, flags=flags))
            if b is None:
                if r.crash in ("timeout", "signal 9", "signal 15"):
                    raise RuntimeError("a batch failed once and then passed: %s %r" % (r.brief(), bad))
                b, rr = bad, r          # the same input gave two results: what the implementation does depends on chance
        s = ss[b[0]]
        sh.violate("seq:" + s.key, "after %d other snippets: %s\n    expected %r\n    observed %r (%s)%s" %
                   (len(ss) - 1, s.code.strip()[:600], s.expect[:12], b[1], rr.brief(), crash_note(rr)),
                   program=program(ss), expected=[x.expect for x in ss], observed=_lines(rr.out)[-4000:], stderr=_lines(rr.err)[:4000], gc=gc, run=rr.brief())
    return False


def crash_note(r):
    if r.crash and b"AddressSanitizer" in r.err:
        ls = [l.strip() for l in r.etext.splitlines() if l.strip().startswith("#")]
        return "\n    " + "\n    ".join(ls[:6])
    if not r.ok:
        return "\n    stderr: " + r.etext.strip()[:600]
    return ""


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def judge_program(st, out, r):
    """Does a run agree with the reference's (status, output)?"""
    if r.crash is not None or r.exit != -1:
        return False
    want = {"ok": "0", "compile": "1", "runtime": "2"}[st]
    if r.rcs[-1] != want:
        return False
    if st == "compile":
        return r.out == b""
    return r.out.replace(b"-nan", b"nan") == to_bytes(out)


def diff_programs(sh, w, progs, batch_ok=0, timeout=10.0, prelude="", maxrep=3, skip_budget=False, gc=(0, 0, 0), flags=0, steps=200000):
    """Each program (key, source) is run on the implementation and by the reference interpreter; the outcomes must agree.

    With batch_ok > 0, programs the reference finishes normally are run as blocks of a joint program (re-run alone on a difference).
    """
    import ref
    todo, ok = [], []
    for key, src in progs:
        e = ref.run(prelude + src, steps)
        if e is None:
            if skip_budget:
                sh.counts["skipped_by_budget"] += 1
                continue
            raise RuntimeError("reference step budget exceeded: " + src)
        sh.counts[e[0]] += 1
        if batch_ok and e[0] == "ok" and "\x1e" not in e[1] and "@@" not in e[1]:
            ok.append((key, src, e))
        else:
            todo.append((key, src, e))

    def single(key, src, e):
        r = run_confirm(w, srcs=prelude + src, timeout=timeout, gc=gc, flags=flags)
        if judge_program(e[0], e[1], r):
            return True
        r2 = run_confirm(w, srcs=prelude + src, timeout=timeout * 2, gc=gc, flags=flags)
        if judge_program(e[0], e[1], r2):
            return True
        sh.violate(key, "%s\n    expected %s %r\n    observed %r (%s)%s" % (src.strip()[:900], e[0], e[1][:300], _lines(r.out)[:300], r.brief(), crash_note(r)),
                   program=prelude + src, expected=list(e), observed=_lines(r.out)[:4000], stderr=_lines(r.err)[:4000], gc=gc, run=r.brief())
        return False

    for key, src, e in ok + todo:
        sh.evals += 1
        sh.transitions += 1 + e[1].count("\n")
        sh.state(e)
        sh.sample(dict(program=src[:500], expected=[e[0], e[1][:200]]))
    bad = 0
    for group in chunks(ok, batch_ok or 1):
        text = prelude + "".join("{\n%s\n}\nprint(\"@@\");\n" % src for _, src, _ in group)
        r = run_confirm(w, srcs=text, timeout=timeout * 2, gc=gc, flags=flags)
        if r.ok and r.out.replace(b"-nan", b"nan") == to_bytes("".join(e[1] + "@@\n" for _, _, e in group)):
            continue
        n0 = bad
        for key, src, e in group:
            if not single(key, "{\n" + src + "\n}\n", e):
                bad += 1
                if bad >= maxrep:
                    return
        if bad == n0:
            if r.crash is None and r.ok is False and b"Too many constants" in r.err:
                raise RuntimeError("batch too large: " + r.etext[:300])
            sh.violate("joint:" + group[0][0], "programs that are right alone differ when run as blocks of one program (%s)%s\n%s" % (r.brief(), crash_note(r), text[:1500]),
                       program=text, expected=[e[1] for _, _, e in group], observed=_lines(r.out)[:8000])
            return
    for key, src, e in todo:
        if not single(key, src, e):
            bad += 1
            if bad >= maxrep:
                return


# ---------------------------------------------------------------- many small sources in one session

RUNTIME, COMPILE = "2", "1"


def P(key, expr, expect):
    """A source that prints one expression; expect: the line, or RUNTIME/COMPILE wrapped by fails()."""
    return (key, "print(%s);" % expr, expect if isinstance(expect, tuple) else expect + "\n")


def fails(kind=RUNTIME, out=None):
    return (kind, out)


def session(sh, w, items, prelude="", n=700, flags=512 | 2, timeout=60.0, maxrep=3, note=None, gc=(0, 0, 0), lost=False, by_source=False):
    """items: (key, source, expect), the sources run one after another in one interpreter after the prelude. expect is the exact output of a source that
    finishes (or a list of those that are allowed), or fails(kind, out): one that is refused (COMPILE) or ends with a runtime error (RUNTIME) after printing out (any output if None).
    A source that disagrees is run again alone with the prelude; if it agrees there, the whole session up to it is the replay."""
    bad = 0

    def judge(rc, out, e):
        if isinstance(e, tuple):
            return rc == e[0] and (e[1] is None or out == to_bytes(e[1]))
        if isinstance(e, list):
            return rc == "0" and out in [to_bytes(x) for x in e]
        return rc == "0" and out == to_bytes(e)

    def run(part, g=gc):
        r = run_confirm(w, srcs=[("case.du", prelude)] + [("case.du", s) for _, s, _ in part], flags=flags | 16, timeout=timeout, gc=g)
        outs = r.out.split(b"\x1e")
        return r, outs

    for part in chunks(items, n):
        if flags & 512:
            w.reset_cwd()
        r, outs = run(part)
        sh.evals += len(part)
        sh.transitions += len(part)
        for k, s, e in part:
            sh.state((s if by_source or isinstance(e, (tuple, list)) else k.split(":")[0], tuple(e) if isinstance(e, list) else e))
        if part:
            sh.sample(dict(program=part[len(part) // 2][1][:300], expected=part[len(part) // 2][2]))
        if r.crash is None and r.exit == -1 and len(r.rcs) == len(part) + 1 and r.rcs[0] == "0":
            wrong = [i for i, (k, s, e) in enumerate(part) if not judge(r.rcs[i + 1], outs[i + 1], e)]
            if not wrong:
                continue
        else:
            done = len(r.rcs) - 1 if r.crash is None else max(0, len(outs) - 2)
            wrong = [i for i in range(min(done, len(part))) if r.crash is None and not judge(r.rcs[i + 1], outs[i + 1], part[i][2])] + list(range(max(0, done - 1), len(part)))
        tried = 0
        reported = 0
        for i in wrong:
            key, s, e = part[i]
            if flags & 512:
                w.reset_cwd()
            alone = part[max(0, i - 1):i + 1] if key.startswith("after:") else [part[i]]
            r1, o1 = run(alone)
            tried += 1
            if r1.crash is None and r1.exit == -1 and len(r1.rcs) == len(alone) + 1 and judge(r1.rcs[-1], o1[len(alone)], e):
                if tried > 400:
                    break
                continue
            got = o1[len(alone)] if len(o1) > len(alone) else r1.out
            if len(alone) > 1:
                s = alone[0][1] + "\n// ends with a runtime error; then:\n" + s
            sh.violate(key, "%s\n    expected %r\n    observed %r (%s)%s" % (s.strip()[:900], e if len(repr(e)) < 400 else repr(e)[:400], _lines(got)[:400], r1.brief(), crash_note(r1) if not isinstance(e, tuple) or r1.crash else ""),
                       program=s, prelude=prelude, expected=e, observed=_lines(got)[:4000], stderr=_lines(r1.err)[:4000], run=r1.brief())
            reported += 1
            bad += 1
            if bad >= maxrep:
                return False
        if not reported and wrong:
            # right alone, wrong in this session: find the shortest session that still fails
            i = wrong[0]
            pre = part[:i]
            step = max(1, len(pre) // 2)

            def still(p):
                if flags & 512:
                    w.reset_cwd()
                r2, o2 = run(p + [part[i]])
                return not (r2.crash is None and r2.exit == -1 and len(r2.rcs) == len(p) + 2 and judge(r2.rcs[-1], o2[len(p) + 1], part[i][2])), r2, o2
            ok, r2, o2 = still(pre)
            if not ok:
                if r.crash in ("timeout", "signal 9", "signal 15"):
                    raise RuntimeError("a session failed once and then passed: %s %r" % (r.brief(), part[i]))
                # the same input gave two results: what the implementation does depends on chance (or on the sources behind this one)
                sh.violate("once:" + part[i][0], "in a session of %d sources, not when repeated: %s\n    expected %r\n    observed %r (%s)%s" % (
                    len(part), part[i][1][:600], part[i][2], _lines(outs[i + 1] if len(outs) > i + 1 else r.out[-400:])[:400], r.brief(), crash_note(r)),
                    program=[p[1] for p in part], prelude=prelude, expected=part[i][2], run=r.brief(), stderr=_lines(r.err)[:4000])
                return False
            while step >= 1 and pre:
                k = 0
                while k < len(pre):
                    t = pre[:k] + pre[k + step:]
                    b, x, y = still(t)
                    if b:
                        pre, r2, o2 = t, x, y
                    else:
                        k += step
                step //= 2
            sh.violate("seq:" + part[i][0], "after %d other sources: %s\n    expected %r\n    observed %r (%s)%s" % (len(pre), part[i][1][:600], part[i][2], _lines(o2[-2] if len(o2) > 1 else r2.out)[:400], r2.brief(), crash_note(r2)),
                       program=[p[1] for p in pre] + [part[i][1]], prelude=prelude, expected=part[i][2], run=r2.brief(), stderr=_lines(r2.err)[:4000])
            return False
    return bad == 0

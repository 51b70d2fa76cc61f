"""Builds /repo's current working tree (out of tree) together with the harness.

Variants:
  plain : -O1, no sanitizer                 (speed)
  asan  : -O1 -fsanitize=address            (memory errors fail loudly)
Both define DICTU_MC_HOOKS (GC schedule hook) and DEBUG_FINAL_MEM-style
accounting is read through the hook, not printed.
The object cache is keyed by the content of every source file and the flags, so
a changed tree is always rebuilt.
"""
import hashlib, os, re, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("DICTU_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

COMMON = ["-std=gnu11", "-g", "-w", "-fno-omit-frame-pointer", "-DINCLUDE_SQLITE_LIB", "-DDICTU_MC_HOOKS",
          "-DDEBUG_FINAL_MEM"]
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address"],
}
WRAPS = ["exit", "_exit"]
LIBS = ["-luuid", "-lcurl", "-lm", "-ldl", "-lpthread", "/usr/lib/x86_64-linux-gnu/libsqlite3.so"]
SKIP = re.compile(r"(main|stringbuf|linenoise(-win32)?|utf8)\.c$|sqlite3\.c$")


class BuildError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if d.startswith(os.path.join(REPO, "src", "cli")):
            continue
        for f in sorted(fs):
            if f.endswith(".c") and not SKIP.search(f):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_digest():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".c", ".h")):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(variant="plain", harness="harness.c", extra_wraps=(), name=None):
    """Returns the path of the built worker executable."""
    flags = COMMON + VARIANTS[variant]
    hsrc = os.path.join(VERIF, "lib", harness)
    wraps = list(WRAPS) + list(extra_wraps)
    key = hashlib.sha256((tree_digest() + repr(flags) + repr(wraps) + open(hsrc).read()).encode()).hexdigest()[:16]
    name = name or os.path.splitext(harness)[0]
    outdir = os.path.join(BUILD, variant + "-" + name)
    exe = os.path.join(outdir, "worker-" + key)
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for f in os.listdir(outdir):
            if f.startswith("worker-"):
                os.unlink(os.path.join(outdir, f))
        objdir = os.path.join(outdir, "obj")
        os.makedirs(objdir, exist_ok=True)
        # the embedded .du sources are generated headers committed in the tree; they are compiled as they are
        jobs = [(s, os.path.join(objdir, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".o")) for s in sources()]
        jobs.append((hsrc, os.path.join(objdir, "harness.o")))

        def one(j):
            s, o = j
            p = subprocess.run(["gcc"] + flags + ["-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "lib"), "-c", s, "-o", o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return p.returncode, p.stdout.decode("utf-8", "replace"), s
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for rc, out, s in ex.map(one, jobs):
                if rc:
                    raise BuildError("compiling %s failed:\n%s" % (s, out))
        p = subprocess.run(["gcc"] + VARIANTS[variant] + ["-rdynamic", "-o", exe + ".tmp"] + [o for _, o in jobs] +
                           ["-Wl," + ",".join("--wrap=" + w for w in wraps)] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError("link failed:\n" + p.stdout.decode("utf-8", "replace"))
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(objdir)
        return exe


def build_cli():
    """The dictu program itself, from the working tree; returns its path."""
    cli = [os.path.join(REPO, "src", "cli", f) for f in ("main.c", "argparse.c")] + [os.path.join(REPO, "src", "cli", "linenoise", f) for f in ("linenoise.c", "stringbuf.c", "utf8.c")]
    cli = [f for f in cli if os.path.exists(f)]
    flags = ["-std=gnu11", "-g", "-w", "-O1", "-DINCLUDE_SQLITE_LIB", "-DUSE_UTF8"]
    key = hashlib.sha256((tree_digest() + repr(flags) + repr(cli)).encode()).hexdigest()[:16]
    outdir = os.path.join(BUILD, "cli")
    exe = os.path.join(outdir, "dictu-" + key)
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for f in os.listdir(outdir):
            if f.startswith("dictu-"):
                os.unlink(os.path.join(outdir, f))
        objdir = os.path.join(outdir, "obj")
        os.makedirs(objdir, exist_ok=True)
        jobs = [(s, os.path.join(objdir, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".o")) for s in sources() + cli]

        def one(j):
            p = subprocess.run(["gcc"] + flags + ["-I", os.path.join(REPO, "src"), "-c", j[0], "-o", j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return p.returncode, p.stdout.decode("utf-8", "replace"), j[0]
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for rc, out, s in ex.map(one, jobs):
                if rc:
                    raise BuildError("compiling %s failed:\n%s" % (s, out))
        p = subprocess.run(["gcc", "-o", exe + ".tmp"] + [o for _, o in jobs] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError("link failed:\n" + p.stdout.decode("utf-8", "replace"))
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(objdir)
        return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan"]:
        print(build_cli() if v == "cli" else build(v))

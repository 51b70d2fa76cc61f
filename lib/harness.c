/* Case runner: embeds the Dictu VM through its public API only.
 *
 * Reads cases from the protocol stream (original stdin), runs each one in a
 * fresh VM with stdout/stderr redirected to files, answers on the original
 * stdout.  A crash simply ends the process; the orchestrator notices.
 *
 * Case:  "C <id> <gcmode> <gcparam> <gcparam2> <nsrc> <stdinlen> <flags> <argc>\n"
 *        argc times: "<len>\n" bytes
 *        nsrc times: "<namelen> <srclen>\n" name bytes, source bytes
 *        stdin bytes
 * Reply: "R <id> <rcs> <exitcode> <gcpoints> <lost> <outlen> <errlen> <mem>\n" out err
 *        mem: with flag 64, the process heap in use before the VM was made,
 *        after each source (once everything unreachable has been collected)
 *        and after the VM was freed, separated by commas; with flag 128 the peak heap in use while running; otherwise "-"
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <setjmp.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

#include "include/dictu_include.h"

extern bool (*dictuMcGcPoint)(void);
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
#ifdef __SANITIZE_ADDRESS__
int __lsan_do_recoverable_leak_check(void);
const char *__asan_default_options(void) {
    return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "max_allocation_size_mb=1024:fast_unwind_on_malloc=1:malloc_context_size=6:quarantine_size_mb=16";
}
#endif

static jmp_buf exitJmp;
static volatile bool inCase = false;
static volatile int exitCode = -1;
static pid_t mainPid;

void __wrap_exit(int code) {
    if (inCase && getpid() == mainPid) {
        exitCode = code;
        longjmp(exitJmp, 1);
    }
    if (getpid() != mainPid) __real__exit(code);
    __real_exit(code);
}
void __wrap__exit(int code) { __real__exit(code); }

static long gcMode, gcA, gcB;
static long gcCount;
static bool counting;

static bool forceGC;

static size_t heapInUse(void) {
    struct mallinfo2 m = mallinfo2();
    return m.uordblks + m.hblkhd;
}

static size_t peakHeap;
static bool trackPeak;

static bool gcPoint(void) {
    if (forceGC) return true;
    if (!counting) return false;
    long n = gcCount++;
    if (trackPeak && n % 16 == 0) {
        size_t h = heapInUse();
        if (h > peakHeap) peakHeap = h;
    }
    switch (gcMode) {
        case 0: return false;
        case 1: return true;
        case 2: return n == gcA;
        case 3: return n == gcA || n == gcB;
        case 4: return gcA > 0 && n % gcA == gcB;
        case 5: return n >= gcA;
        case 6: return n < gcA;
    }
    return false;
}

static FILE *pin;
static int pout;

static char *readBytes(long n) {
    char *b = malloc(n + 1);
    if (n && fread(b, 1, n, pin) != (size_t)n) __real__exit(3);
    b[n] = '\0';
    return b;
}

static void writeAll(const char *b, size_t n) {
    while (n) {
        ssize_t w = write(pout, b, n);
        if (w <= 0) __real__exit(4);
        b += w;
        n -= w;
    }
}

static char *slurp(int fd, size_t *len) {
    struct stat st;
    fstat(fd, &st);
    char *b = malloc(st.st_size + 1);
    size_t got = 0;
    while (got < (size_t)st.st_size) {
        ssize_t r = pread(fd, b + got, st.st_size - got, got);
        if (r <= 0) break;
        got += r;
    }
    b[got] = '\0';
    *len = got;
    return b;
}

static int homeFd;
static char **homeEnv;
static size_t nHomeEnv;
extern char **environ;

static void restoreEnv(void) {
    size_t n = 0;
    for (char **e = environ; e && *e; e++, n++)
        if (n >= nHomeEnv || strcmp(*e, homeEnv[n])) break;
    if (n == nHomeEnv && environ && !environ[n]) return;
    clearenv();
    for (size_t i = 0; i < nHomeEnv; i++) putenv(strdup(homeEnv[i]));
}

/* Stand-ins linked only where a check asks for them: nothing is signalled, slept for or given away. */
int __wrap_kill(int pid, int sig) { errno = 3; return -1; }
int __wrap_chown(const char *p, unsigned u, unsigned g) { errno = 1; return -1; }
/* Nothing sleeps; with MC_SLEEP the program's output says how long it would have (in nanoseconds). */
static void slept(double ns) { if (inCase && getenv("MC_SLEEP")) printf("[slept %.0f]", ns); }
int __wrap_usleep(unsigned n) { slept(n * 1e3); return 0; }
unsigned __wrap_sleep(unsigned n) { slept(n * 1e9); return 0; }
int __wrap_nanosleep(const void *a, void *b) { slept(((const long *) a)[0] * 1e9 + ((const long *) a)[1]); return 0; }

/* Faults: MC_FAULT=short:k limits every transfer to k bytes, fail:n lets the n-th one (counted since MC_FAULT last changed) and all after it fail. */
#include <sys/syscall.h>
static int fault(size_t *n) {
    static char last[64];
    static long count;
    const char *f = getenv("MC_FAULT");
    if (!inCase || getpid() != mainPid || !f) { last[0] = 0; count = 0; return 0; }
    if (strcmp(f, last)) { snprintf(last, sizeof last, "%s", f); count = 0; }
    count++;
    long k = strchr(f, ':') ? atol(strchr(f, ':') + 1) : 1;
    if (f[0] == 's' && *n > (size_t) k) *n = k;
    if (f[0] == 'f' && count >= k) { errno = 5; return -1; }
    return 0;
}
long __wrap_sendfile(int o, int i, void *off, size_t n) { return fault(&n) ? -1 : syscall(SYS_sendfile, o, i, off, n); }
long __wrap_read(int fd, void *b, size_t n) { return fault(&n) ? -1 : syscall(SYS_read, fd, b, n); }
long __wrap_write(int fd, const void *b, size_t n) { return fault(&n) ? -1 : syscall(SYS_write, fd, b, n); }

long __wrap_send(int fd, const void *b, size_t n, int fl) { return fault(&n) ? -1 : syscall(SYS_sendto, fd, b, n, fl, NULL, 0); }
long __wrap_recv(int fd, void *b, size_t n, int fl) { return fault(&n) ? -1 : syscall(SYS_recvfrom, fd, b, n, fl, NULL, NULL); }
/* The random numbers and the time are those the check wants: MC_RAND lists the numbers, used again from the start when they run out; MC_TIME is the time. */
int __real_rand(void) __attribute__((weak));
int __wrap_rand(void) {
    static char last[65536];
    static const char *p;
    const char *f = getenv("MC_RAND");
    if (!inCase || !f || !*f) return __real_rand();
    if (strcmp(f, last)) { snprintf(last, sizeof last, "%s", f); p = last; }
    if (!*p) p = last;
    char *e;
    long v = strtol(p, &e, 10);
    p = *e ? e + 1 : e;
    return (int) v;
}
long __real_time(long *t) __attribute__((weak));
long __wrap_time(long *t) {
    const char *f = getenv("MC_TIME");
    long v = inCase && f ? atol(f) : __real_time(NULL);
    if (t) *t = v;
    return v;
}
static int refuse(const char *what) { const char *f = getenv("MC_REFUSE"); return inCase && getpid() == mainPid && f && !strcmp(f, what); }
int __real_fork(void) __attribute__((weak));
int __wrap_fork(void) { if (refuse("fork")) { errno = 11; return -1; } return __real_fork(); }
int __real_pipe(int *p) __attribute__((weak));
int __wrap_pipe(int *p) { if (refuse("pipe")) { errno = 24; return -1; } return __real_pipe(p); }

void mc_case_begin(void) __attribute__((weak));
void mc_case_end(void) __attribute__((weak));

int main(int argc, char **argv) {
    /* argv: outfile errfile infile [rlimit-as-mb] */
    /* the same addresses in every run: what a case does must not depend on chance */
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    mainPid = getpid();
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    pin = fdopen(dup(0), "rb");
    static char pbuf[1 << 16];
    setvbuf(pin, pbuf, _IOFBF, sizeof pbuf);
    pout = fcntl(1, F_DUPFD_CLOEXEC, 100);
    fcntl(fileno(pin), F_SETFD, FD_CLOEXEC);
    int ofd = open(argv[1], O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
    int efd = open(argv[2], O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
    dup2(ofd, 1);
    dup2(efd, 2);
    { int nfd = open("/dev/null", O_RDONLY); dup2(nfd, 0); close(nfd); }
    if (argc > 4 && atol(argv[4]) > 0) {
        struct rlimit rl = {atol(argv[4]) << 20, atol(argv[4]) << 20};
        setrlimit(RLIMIT_AS, &rl);
    }
    homeFd = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    for (char **e = environ; *e; e++) homeEnv = realloc(homeEnv, (nHomeEnv + 2) * sizeof *homeEnv), homeEnv[nHomeEnv++] = strdup(*e), homeEnv[nHomeEnv] = NULL;
    dictuMcGcPoint = gcPoint;
    char line[512];
    while (fgets(line, sizeof line, pin)) {
        long id, nsrc, nin, flags, nargs;
        if (sscanf(line, "C %ld %ld %ld %ld %ld %ld %ld %ld", &id, &gcMode, &gcA, &gcB, &nsrc, &nin, &flags, &nargs) != 8) __real__exit(5);
        char **av = calloc(nargs + 1, sizeof *av);
        for (long i = 0; i < nargs; i++) {
            long l;
            if (!fgets(line, sizeof line, pin) || sscanf(line, "%ld", &l) != 1) __real__exit(5);
            av[i] = readBytes(l);
        }
        char **names = calloc(nsrc + 1, sizeof *names), **srcs = calloc(nsrc + 1, sizeof *srcs);
        for (long i = 0; i < nsrc; i++) {
            long a, b;
            if (!fgets(line, sizeof line, pin) || sscanf(line, "%ld %ld", &a, &b) != 2) __real__exit(5);
            names[i] = readBytes(a);
            srcs[i] = readBytes(b);
        }
        char *inb = readBytes(nin);
        fflush(stdout);
        fflush(stderr);
        ftruncate(1, 0);
        ftruncate(2, 0);
        if (nin > 0 || (flags & 1)) {
            int f = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (write(f, inb, nin) != nin) __real__exit(6);
            close(f);
            freopen(argv[3], "r", stdin);
        } else if (flags & 2) {
            freopen("/dev/null", "r", stdin);
        }
        static char mem[1 << 16];
        int ml = sprintf(mem, "-");
        char rcs[4096];
        int rl = 0;
        rcs[0] = '\0';
        gcCount = 0;
        counting = false;
        exitCode = -1;
        long lost = -1;
        if (mc_case_begin) mc_case_begin();
        fchdir(homeFd);
        if (flags & 512) restoreEnv();
        if (setjmp(exitJmp) == 0) {
            inCase = true;
            if (flags & 4) counting = true; /* explore VM start-up too */
            if (flags & (64 | 1024)) ml = sprintf(mem, "%zu", heapInUse());
            peakHeap = 0;
            trackPeak = flags & 128;
            DictuVM *vm = dictuInitVM((flags & 8) != 0, (int)nargs, av);
            counting = true;
            for (long i = 0; i < nsrc; i++) {
                if (flags & 512) fchdir(homeFd);
                int rc = (int)dictuInterpret(vm, names[i], srcs[i]);
                if (rl < 4000) rl += sprintf(rcs + rl, "%s%d", i ? "," : "", rc);
                if ((flags & 64) && ml < 60000) {
                    counting = false;
                    forceGC = true;
                    dictuInterpret(vm, names[i], "nil;");
                    forceGC = false;
                    fflush(stdout);
                    ml += sprintf(mem + ml, ",%zu", heapInUse());
                    counting = true;
                }
                if (flags & 16) { printf("\x1e"); fflush(stdout); }
                if (flags & 256) { fprintf(stderr, "\x1e"); fflush(stderr); }
            }
            counting = false;
            dictuFreeVM(vm);
            if (flags & (64 | 1024)) ml += sprintf(mem + ml, ",%zu", heapInUse());
            if (flags & 128) ml = sprintf(mem, "%zu", peakHeap);
            lost = -2;
        } else if (rl < 4000) {
            rl += sprintf(rcs + rl, "%sX", rl ? "," : "");
        }
        inCase = false;
        counting = forceGC = false;
        if (mc_case_end) mc_case_end();
        fflush(stdout);
        fflush(stderr);
        size_t ol, el;
        char *o = slurp(1, &ol);
        if (lost == -2) {
            /* last line is "Total bytes lost: N" */
            char *p = ol ? memrchr(o, 'T', ol) : NULL;
            long v;
            if (p && sscanf(p, "Total bytes lost: %ld", &v) == 1) {
                lost = v;
                ol = p - o;
            }
        }
#ifdef __SANITIZE_ADDRESS__
        if (flags & 32) __lsan_do_recoverable_leak_check();
#endif
        fflush(stderr);
        char *e = slurp(2, &el);
        static char hdr[5000 + sizeof mem];
        int hl = sprintf(hdr, "R %ld %s %d %ld %ld %zu %zu %s\n", id, rcs[0] ? rcs : "-", exitCode, gcCount, lost, ol, el, mem);
        writeAll(hdr, hl);
        writeAll(o, ol);
        writeAll(e, el);
        free(o);
        free(e);
        free(inb);
        for (long i = 0; i < nsrc; i++) { free(names[i]); free(srcs[i]); }
        for (long i = 0; i < nargs; i++) free(av[i]);
        free(names);
        free(srcs);
        free(av);
    }
    __real__exit(0);
}

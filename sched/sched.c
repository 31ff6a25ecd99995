/* Stateless model checker for the threads part of C18.
 *
 * The core crate is loaded as a shared object. Its writable statics, and every heap block that outlives the
 * call that made it, lie in access-protected pages. Each instruction of the library that touches them
 * faults; the fault is a scheduling point, after which the instruction alone is executed (trap flag). Futex
 * calls, yields and sleeps of the library come here too. Exactly one thread runs at a time. Every schedule
 * up to a preemption bound is executed in a forked copy of the cold process, and every answer is compared
 * with the answer of that call alone in a cold process.
 *
 * Mode "cold": calls that make their own values, in a process that has made no call yet. Mode "warm": calls on values
 * that are made before the threads start and used by all of them; their memory is watched if any call writes to it.
 *
 *   sched LIB WORKER WORKERS TIER SECONDS OUT cold|warm
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unwind.h>

#define MAXT 3
#define MAXC 4
#define MAXDEC 60000
#define MAXSITES 4096
#define MAXSTEPS 400000
#define SPIN 300
#define ARENA (16UL << 20)
#define KEPT (4UL << 20)
#define NCONTROLS 7
#define PAGE 4096UL

enum { OK, DEADLOCK, CRASH, DIVERGE, LIVELOCK, HANG, ODD };
static const char *NAMES[] = {"ok", "deadlock", "crash", "divergence", "livelock", "hang", "unexpected exit"};

struct dec { uint8_t mask, cur, chosen, voluntary; };
struct shared {
    int status;
    int detail;
    uint32_t ndec;
    uint32_t points;       /* accesses to tracked memory, futex calls, yields */
    uint64_t trace;        /* hash of the sequence of points */
    uint64_t answer[MAXT][MAXC];
    struct dec dec[MAXDEC];
    uint32_t nsites;
    uint32_t kept_written;
    uint64_t sites[MAXSITES];
    uint8_t kept_lines[KEPT / 64]; /* which lines of the kept values any call writes to */
};
static struct shared *sh;

struct combo { int nt; int nc[MAXT]; int call[MAXT][MAXC]; };

/* ---- raw system calls (the library's own come through syscall() below) ---- */
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void fwait(int *w, int v) { raw(SYS_futex, (long)w, FUTEX_WAIT, v, 0, 0, 0); }
static void fwake(int *w) { raw(SYS_futex, (long)w, FUTEX_WAKE, 1, 0, 0, 0); }

/* ---- tracked memory ---- */
static uintptr_t st_lo, st_hi;           /* writable statics of the library, whole pages */
static char *arena;
static size_t arena_used;
static char *kept;                       /* values that exist before the threads */
static size_t kept_used;
static int keeping, kept_watched;
static uint8_t *kept_lines;              /* NULL: all */
static int tracking;                     /* pages are protected and accesses are points */
static uint64_t *sites;                  /* allocation sites of blocks that outlive their call */
static uint32_t nsites;

static int tracked(uintptr_t a) {
    return (a >= st_lo && a < st_hi) || (a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA) ||
        (kept_watched && a >= (uintptr_t)kept && a < (uintptr_t)kept + KEPT);
}
static void prot(int p) {
    if (st_hi > st_lo) mprotect((void *)st_lo, st_hi - st_lo, p);
    mprotect(arena, ARENA, p);
    if (kept_watched && !kept_lines) mprotect(kept, KEPT, p);
    if (kept_watched && kept_lines)
        for (size_t i = 0; i < kept_used; i += PAGE) {
            int any = 0;
            for (size_t l = 0; l < PAGE / 64; l++) any |= kept_lines[i / 64 + l];
            mprotect(kept + i, PAGE, any ? p : PROT_READ);
        }
}

/* ---- threads and scheduling ---- */
enum { RUN, BLOCKED, DONE, NONE };
static int state[MAXT];
static uintptr_t wait_addr[MAXT];
static int wait_timed[MAXT], wait_result[MAXT];
static int turn[MAXT];                   /* real futex words for handing over */
static int cur, nt;
static const uint8_t *prefix;
static uint32_t nprefix;
static uint32_t streak;
static __thread int me = -1;
static __thread int in_exec;
static __thread uintptr_t open_pages[8];
static __thread int nopen;

static void finish(int status, int detail) {
    sh->status = status;
    sh->detail = detail;
    _exit(0);
}
static void mixtrace(uint64_t v) {
    uint64_t x = (sh->trace ^ v) * 0x9E3779B97F4A7C15ull;
    sh->trace = x ^ (x >> 29);
}

/* The running thread gives up control or may lose it. */
static void decide(int voluntary) {
    uint8_t mask = 0;
    for (int t = 0; t < nt; t++)
        if (state[t] == RUN) mask |= 1 << t;
    if (!mask) {
        for (int t = 0; t < nt; t++)
            if (state[t] == BLOCKED && wait_timed[t]) {
                state[t] = RUN;
                wait_result[t] = ETIMEDOUT;
                mask |= 1 << t;
            }
    }
    if (!mask) {
        int blocked = 0;
        for (int t = 0; t < nt; t++) blocked |= state[t] == BLOCKED;
        if (blocked) finish(DEADLOCK, 0);
        return; /* all done */
    }
    if (sh->points > MAXSTEPS) finish(LIVELOCK, 0);
    if (!voluntary && ++streak > SPIN) { voluntary = 1; }
    int next = -1;
    if (__builtin_popcount(mask) > 1) {
        if (sh->ndec < nprefix) {
            next = prefix[sh->ndec];
            if (!(mask >> next & 1)) finish(DIVERGE, sh->ndec);
        } else if (!voluntary && (mask >> cur & 1)) {
            next = cur;
        } else {
            for (int k = 1; k <= nt; k++)
                if (mask >> ((cur + k) % nt) & 1) { next = (cur + k) % nt; break; }
        }
        if (sh->ndec < MAXDEC) sh->dec[sh->ndec] = (struct dec){mask, cur, next, voluntary};
        else finish(LIVELOCK, 1);
        sh->ndec++;
    } else {
        next = __builtin_ctz(mask);
    }
    if (next != cur) {
        streak = 0;
        int self = cur;
        cur = next;
        __atomic_store_n(&turn[next], 1, __ATOMIC_SEQ_CST);
        fwake(&turn[next]);
        if (state[self] != DONE) {
            while (!__atomic_load_n(&turn[self], __ATOMIC_SEQ_CST)) fwait(&turn[self], 0);
            __atomic_store_n(&turn[self], 0, __ATOMIC_SEQ_CST);
        }
    }
}
static void point(uint64_t what, int voluntary) {
    sh->points++;
    mixtrace((uint64_t)me << 56 ^ what);
    decide(voluntary);
}

static void on_segv(int sig, siginfo_t *si, void *ucv) {
    (void)sig;
    ucontext_t *uc = ucv;
    uintptr_t a = (uintptr_t)si->si_addr;
    if (!tracking || si->si_code != SEGV_ACCERR || !tracked(a)) finish(CRASH, SIGSEGV);
    int in_kept = a >= (uintptr_t)kept && a < (uintptr_t)kept + KEPT;
    /* What nobody writes to, and nobody has written to, is no point. */
    if (nopen == 0 && in_exec && !(in_kept && kept_lines && !kept_lines[(a - (uintptr_t)kept) / 64])) {
        uint64_t off = a >= st_lo && a < st_hi ? a - st_lo : in_kept ? (a - (uintptr_t)kept) | 1ull << 41 : (a - (uintptr_t)arena) | 1ull << 40;
        point(off << 1 | (uc->uc_mcontext.gregs[REG_ERR] >> 1 & 1), 0);
    }
    if (nopen == 8) finish(CRASH, -1);
    open_pages[nopen++] = a & ~(PAGE - 1);
    mprotect((void *)(a & ~(PAGE - 1)), PAGE, PROT_READ | PROT_WRITE);
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_trap(int sig, siginfo_t *si, void *ucv) {
    (void)sig; (void)si;
    ucontext_t *uc = ucv;
    if (!nopen) finish(CRASH, SIGTRAP);
    while (nopen) mprotect((void *)open_pages[--nopen], PAGE, PROT_NONE);
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}
static void on_fatal(int sig) { finish(CRASH, sig); }

/* ---- what the library asks of the C library ---- */
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r;
    if (me >= 0 && in_exec && n == SYS_futex) {
        int op = b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(3ull << 50 | (a & 0xffff), 0);
            if (tracking) prot(PROT_READ | PROT_WRITE);
            int v = *(volatile int *)a;
            if (tracking) prot(PROT_NONE);
            if (v != (int)c) { errno = EAGAIN; return -1; }
            state[me] = BLOCKED;
            wait_addr[me] = a;
            wait_timed[me] = d != 0;
            wait_result[me] = 0;
            decide(1);
            if (wait_result[me]) { errno = wait_result[me]; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int woken = 0;
            for (int t = 0; t < nt && woken < (int)c; t++)
                if (state[t] == BLOCKED && wait_addr[t] == (uintptr_t)a) { state[t] = RUN; woken++; }
            point(5ull << 50 | (a & 0xffff), 0);
            return woken;
        }
    }
    if (me >= 0 && tracking) {
        prot(PROT_READ | PROT_WRITE);
        r = raw(n, a, b, c, d, e, f);
        prot(PROT_NONE);
    } else {
        r = raw(n, a, b, c, d, e, f);
    }
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int sched_yield(void) { if (me >= 0 && in_exec) point(7ull << 50, 1); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) {
    (void)b;
    if (me >= 0 && in_exec) { point(9ull << 50, 1); return 0; }
    return raw(SYS_nanosleep, (long)a, 0, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)f; return nanosleep(a, b); }
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, 0x5a, n); return n; }

/* ---- heap ---- */
static int recording;
struct live { void *p; uint64_t site; };
static struct live *lives;
static uint32_t nlives;

struct walk { uint64_t h; int depth; };
static uintptr_t lib_base, lib_end;
static _Unwind_Reason_Code frame(struct _Unwind_Context *c, void *arg) {
    struct walk *w = arg;
    uintptr_t ip = _Unwind_GetIP(c);
    if (ip < lib_base || ip >= lib_end) return w->depth ? _URC_END_OF_STACK : _URC_NO_REASON;
    uint64_t x = (w->h ^ (ip - lib_base)) * 0x9E3779B97F4A7C15ull;
    w->h = x ^ (x >> 29);
    return ++w->depth > 24 ? _URC_END_OF_STACK : _URC_NO_REASON;
}
/* The frames of the library that lead to an allocation. */
static uint64_t site_of(void) {
    struct walk w = {1, 0};
    int s = in_exec;
    in_exec = 0;
    _Unwind_Backtrace(frame, &w);
    in_exec = s;
    return w.h | 1;
}
void *mc_alloc(size_t size, size_t align) {
    if (align < 16) align = 16;
    if (keeping) {
        if (align < 64) align = 64;
        size_t at = (kept_used + align - 1) & ~(align - 1);
        if (at + size > KEPT) return NULL;
        kept_used = at + size;
        return kept + at;
    }
    uint64_t site = 0;
    if (in_exec && (recording || nsites)) site = site_of();
    if (in_exec && tracking && nsites)
        for (uint32_t i = 0; i < nsites; i++)
            if (sites[i] == site) {
                /* A cache line of its own for each block; never reused. */
                if (align < 64) align = 64;
                size_t at = (arena_used + align - 1) & ~(align - 1);
                if (at + size > ARENA) finish(CRASH, -2);
                arena_used = at + size;
                return arena + at;
            }
    void *p = NULL;
    if (posix_memalign(&p, align, size ? size : 1)) return NULL;
    if (in_exec && recording && nlives < (1u << 20)) lives[nlives++] = (struct live){p, site};
    return p;
}
void mc_free(void *p) {
    if ((char *)p >= arena && (char *)p < arena + ARENA) return;
    if ((char *)p >= kept && (char *)p < kept + KEPT) return;
    if (recording)
        for (uint32_t i = nlives; i-- > 0;)
            if (lives[i].p == p) { lives[i] = lives[--nlives]; break; }
    free(p);
}

/* ---- the library ---- */
static size_t (*sl_count)(void);
static void *(*sl_prepare)(size_t);
static uint64_t (*sl_exec)(void *);
static void (*sl_describe)(size_t, char *, size_t);
static size_t ncalls;
static void **work;
static uint64_t *want;

static int phdr(struct dl_phdr_info *i, size_t s, void *lib) {
    (void)s;
    if (!i->dlpi_name || !strstr(i->dlpi_name, (const char *)lib)) return 0;
    uintptr_t relro_hi = 0;
    lib_base = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz > lib_end)
            lib_end = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) relro_hi = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type != PT_LOAD || !(p->p_flags & PF_W)) continue;
        uintptr_t lo = i->dlpi_addr + p->p_vaddr, hi = lo + p->p_memsz;
        if (relro_hi > lo && relro_hi <= hi) lo = relro_hi;
        lo &= ~(PAGE - 1);
        if (relro_hi > lo) lo = (relro_hi + PAGE - 1) & ~(PAGE - 1);
        hi = (hi + PAGE - 1) & ~(PAGE - 1);
        if (hi <= lo) continue;
        if (st_hi && lo > st_hi) lo = st_lo; /* several segments: one range */
        if (!st_hi || lo < st_lo) st_lo = lo;
        if (hi > st_hi) st_hi = hi;
    }
    return 1;
}

static const struct combo *running;
static pthread_key_t key;
static void at_end(void *v) {
    (void)v;
    in_exec = 0;
    state[me] = DONE;
    decide(1);
}
static void *body(void *arg) {
    me = (int)(intptr_t)arg;
    pthread_setspecific(key, (void *)1);
    while (!__atomic_load_n(&turn[me], __ATOMIC_SEQ_CST)) fwait(&turn[me], 0);
    __atomic_store_n(&turn[me], 0, __ATOMIC_SEQ_CST);
    for (int k = 0; k < running->nc[me]; k++) {
        mixtrace((uint64_t)me << 56 ^ 11ull << 48 ^ k);
        in_exec = 1;
        sh->answer[me][k] = sl_exec(work[running->call[me][k]]);
        in_exec = 0;
    }
    in_exec = 1; /* destructors of thread-locals are library code too */
    return NULL;
}

/* In a forked child: one schedule. */
static void child(const struct combo *c) {
    struct sigaction sa = {0};
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sa.sa_sigaction = on_segv;
    sigaction(SIGSEGV, &sa, NULL);
    sa.sa_sigaction = on_trap;
    sigaction(SIGTRAP, &sa, NULL);
    signal(SIGABRT, on_fatal); signal(SIGBUS, on_fatal); signal(SIGILL, on_fatal); signal(SIGFPE, on_fatal);
    nt = c->nt;
    running = c;
    pthread_key_create(&key, at_end);
    pthread_t th[MAXT];
    for (int t = 0; t < nt; t++) state[t] = RUN;
    for (int t = 0; t < nt; t++)
        if (pthread_create(&th[t], NULL, body, (void *)(intptr_t)t)) _exit(9);
    tracking = 1;
    if (!kept_watched) mprotect(kept, KEPT, PROT_READ);
    prot(PROT_NONE);
    /* The first choice is free. */
    int first = nprefix ? prefix[0] : 0;
    if (nt > 1) sh->dec[sh->ndec++] = (struct dec){(1 << nt) - 1, 0, first, 1};
    cur = first;
    __atomic_store_n(&turn[first], 1, __ATOMIC_SEQ_CST);
    fwake(&turn[first]);
    for (int t = 0; t < nt; t++) pthread_join(th[t], NULL);
    sh->status = OK;
    _exit(0);
}

static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

/* Run one schedule; answers and decisions end up in *sh. */
static void execute(const struct combo *c, const uint8_t *pre, uint32_t npre, double limit) {
    memset(sh, 0, offsetof(struct shared, dec));
    sh->status = ODD;
    prefix = pre;
    nprefix = npre;
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) child(c);
    double start = now();
    int st;
    for (;;) {
        pid_t r = waitpid(p, &st, 0);
        if (r == p) break;
        if (r < 0 && errno == EINTR) {
            if (now() - start > limit) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                sh->status = HANG;
                return;
            }
        }
    }
    if (WIFSIGNALED(st)) { sh->status = CRASH; sh->detail = WTERMSIG(st); }
    else if (WEXITSTATUS(st)) { sh->status = ODD; sh->detail = WEXITSTATUS(st); }
}

static void tick(int s) { (void)s; }

/* ---- exploring one combination ---- */
static uint64_t schedules, steps, seen_points, nstates;
static uint64_t *states_set;
#define SETSIZE (1u << 22)
static void remember(uint64_t h) {
    if (!h) h = 1;
    for (uint32_t i = h & (SETSIZE - 1);; i = (i + 1) & (SETSIZE - 1)) {
        if (states_set[i] == h) return;
        if (!states_set[i]) { if (nstates < SETSIZE / 2) { states_set[i] = h; nstates++; } return; }
    }
}
static char failure[8192];
static double deadline;
static int out_of_time;
static uint64_t diverged; /* schedules that could not be repeated: not explored, and reported as such */
static uint32_t most_points;

struct job { uint8_t *pre; uint32_t n; };

static void describe_failure(const struct combo *c, const char *what) {
    char buf[700];
    int at = snprintf(failure, sizeof failure, "%s\n", what);
    for (int t = 0; t < c->nt; t++)
        for (int k = 0; k < c->nc[t]; k++) {
            sl_describe(c->call[t][k], buf, sizeof buf);
            at += snprintf(failure + at, sizeof failure - at, "  thread %d: %s\n", t, buf);
            if (at > 7000) at = 7000;
        }
    at += snprintf(failure + at, sizeof failure - at, "  schedule (thread chosen at each scheduling point): ");
    for (uint32_t i = 0; i < sh->ndec && at < 8100; i++)
        failure[at++] = '0' + sh->dec[i].chosen;
    failure[at] = 0;
}

/* accept: NULL, or a function deciding whether the answers are right (controls). Returns 1 on a failure. */
static int explore(const struct combo *c, int bound, uint64_t limit) {
    struct job *stack = NULL;
    uint32_t n = 0, cap = 0;
    uint64_t runs = 0;
    int bad = 0;
    stack = malloc((cap = 64) * sizeof *stack);
    stack[n++] = (struct job){NULL, 0};
    while (n && !bad) {
        struct job j = stack[--n];
        if ((limit && runs >= limit) || (deadline && now() > deadline)) { out_of_time = 1; free(j.pre); break; }
        runs++;
        execute(c, j.pre, j.n, 20);
        if (sh->status == HANG || sh->status == ODD) execute(c, j.pre, j.n, 60);
        schedules++;
        steps += sh->points;
        seen_points += sh->points;
        if (sh->points > most_points) most_points = sh->points;
        for (int t = 0; t < c->nt; t++) steps += c->nc[t];
        uint64_t h = sh->trace;
        for (int t = 0; t < c->nt; t++)
            for (int k = 0; k < c->nc[t]; k++) h = (h ^ sh->answer[t][k] ^ c->call[t][k]) * 0x9E3779B97F4A7C15ull;
        remember(h);
        if (sh->status == ODD && sh->detail == 9) { fprintf(stderr, "no threads\n"); exit(2); }
        if (sh->status == DIVERGE) { diverged++; free(j.pre); continue; }
        if (sh->status != OK) {
            char m[100];
            snprintf(m, sizeof m, "%s (%d)", NAMES[sh->status], sh->detail);
            describe_failure(c, m);
            bad = 1;
        }
        for (int t = 0; t < c->nt && !bad; t++)
            for (int k = 0; k < c->nc[t] && !bad; k++)
                if (want && c->call[t][k] < (int)ncalls && sh->answer[t][k] != want[c->call[t][k]]) {
                    char m[100];
                    snprintf(m, sizeof m, "wrong answer: call %d of thread %d differs from the answer alone", k, t);
                    describe_failure(c, m);
                    bad = 1;
                }
        if (!bad && sh->points) {
            /* All alternatives after the given prefix, within the bound. */
            int used = 0;
            for (uint32_t i = 0; i < sh->ndec; i++) {
                struct dec d = sh->dec[i];
                int preempting = !d.voluntary && (d.mask >> d.cur & 1);
                if (i >= j.n)
                    for (int t = 0; t < c->nt; t++) {
                        if (t == d.chosen || !(d.mask >> t & 1)) continue;
                        if (used + (preempting && t != d.cur) > bound) continue;
                        uint8_t *pre = malloc(i + 1);
                        for (uint32_t q = 0; q < i; q++) pre[q] = sh->dec[q].chosen;
                        pre[i] = t;
                        if (n == cap) stack = realloc(stack, (cap *= 2) * sizeof *stack);
                        stack[n++] = (struct job){pre, i + 1};
                    }
                used += preempting && d.chosen != d.cur;
            }
        }
        free(j.pre);
    }
    while (n) free(stack[--n].pre);
    free(stack);
    return bad;
}

static struct combo pair(int a, int b) { return (struct combo){2, {1, 1}, {{a}, {b}}}; }

/* The controls: broken code must be caught, correct code must be quiet. */
static int lost;
static void controls(void) {
    int base = ncalls;
    uint64_t *w = want;
    want = NULL;
    /* lost update: some schedule has no thread reading 7 */
    uint8_t pre[64] = {0};
    struct combo c;
    for (int which = 0; which < NCONTROLS; which += NCONTROLS - 1) {
    c = pair(base + which, base + which);
    lost = 0;
    for (int i = 1; i < 40 && !lost; i++) {
        memset(pre, 0, sizeof pre);
        pre[i] = 1;
        execute(&c, pre, i + 1, 20);
        if (sh->status == OK && sh->answer[0][0] == 6 && sh->answer[1][0] == 6) lost = 1;
    }
    if (!lost) { fprintf(stderr, "control %d: no lost update found (status %d)\n", which, sh->status); exit(2); }
    }
    c = pair(base + 1, base + 2);
    if (!explore(&c, 1, 0) || strncmp(failure, "deadlock", 8)) { fprintf(stderr, "control: deadlock not found: %s\n", failure); exit(2); }
    /* torn cache on the heap: with expected answers 30, 40 */
    ncalls += NCONTROLS;
    want = calloc(ncalls, 8);
    memcpy(want, w, base * 8);
    want[base + 3] = 30;
    want[base + 4] = 40;
    want[base + 5] = 10;
    failure[0] = 0;
    c = (struct combo){2, {2, 1}, {{base + 3, base + 3}, {base + 4}}};
    if (!explore(&c, 2, 0) || strncmp(failure, "wrong answer", 12)) { fprintf(stderr, "control: torn cache not found: %s\n", failure); exit(2); }
    failure[0] = 0;
    c = pair(base + 5, base + 5);
    if (explore(&c, 2, 0)) { fprintf(stderr, "control: false alarm: %s\n", failure); exit(2); }
    ncalls = base;
    free(want);
    want = w;
    failure[0] = 0;
    schedules = steps = nstates = seen_points = 0;
    most_points = 0;
    memset(states_set, 0, SETSIZE * 8);
}

static void json_text(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++)
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s);
        else fputc(*s, f);
    fputc('"', f);
}

/* A write to the values that exist before the threads. */
static uintptr_t kept_open;
static void on_kept(int sig, siginfo_t *si, void *ucv) {
    (void)sig;
    ucontext_t *uc = ucv;
    uintptr_t a = (uintptr_t)si->si_addr;
    if (a < (uintptr_t)kept || a >= (uintptr_t)kept + KEPT) _exit(77);
    sh->kept_written = 1;
    sh->kept_lines[(a - (uintptr_t)kept) / 64] = 1;
    kept_open = a & ~(PAGE - 1);
    mprotect((void *)kept_open, PAGE, PROT_READ | PROT_WRITE);
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_kept_step(int sig, siginfo_t *si, void *ucv) {
    (void)sig; (void)si;
    ucontext_t *uc = ucv;
    mprotect((void *)kept_open, PAGE, PROT_READ);
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}

/* In a child: run the calls [from, to) twice, and list where the blocks that are left were allocated. */
static int discover(size_t from, size_t to, size_t skip1, size_t skip2) {
    memset(sh, 0, sizeof *sh);
    pid_t p = fork();
    if (p == 0) {
        lives = calloc(1u << 20, sizeof *lives);
        me = 0;
        struct sigaction sa = {0};
        sa.sa_flags = SA_SIGINFO;
        sa.sa_sigaction = on_kept;
        sigaction(SIGSEGV, &sa, NULL);
        sa.sa_sigaction = on_kept_step;
        sigaction(SIGTRAP, &sa, NULL);
        mprotect(kept, KEPT, PROT_READ);
        for (int round = 0; round < 2; round++)
            for (size_t i = from; i < to; i++) {
                if (i == skip1 || i == skip2) continue;
                recording = in_exec = 1;
                sl_exec(work[i]);
                recording = in_exec = 0;
            }
        for (uint32_t i = 0; i < nlives; i++) {
            uint32_t k = 0;
            while (k < sh->nsites && sh->sites[k] != lives[i].site) k++;
            if (k == sh->nsites && k < MAXSITES) sh->sites[sh->nsites++] = lives[i].site;
        }
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

int main(int argc, char **argv) {
    if (argc < 8) return 2;
    int worker = atoi(argv[2]), workers = atoi(argv[3]), thorough = !strcmp(argv[4], "thorough");
    double seconds = atof(argv[5]);
    void *lib = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!lib) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    *(void **)&sl_count = dlsym(lib, "sl_count");
    *(void **)&sl_prepare = dlsym(lib, "sl_prepare");
    *(void **)&sl_exec = dlsym(lib, "sl_exec");
    *(void **)&sl_describe = dlsym(lib, "sl_describe");
    void (*sl_shared)(int) = (void (*)(int))dlsym(lib, "sl_shared");
    const char *base = strrchr(argv[1], '/');
    dl_iterate_phdr(phdr, (void *)(base ? base + 1 : argv[1]));
    arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    kept = mmap(NULL, KEPT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    states_set = calloc(SETSIZE, 8);
    if (!lib_base) { fprintf(stderr, "no segments found\n"); return 2; }
    /* SIGALRM every second interrupts waitpid so that hangs are noticed. */
    struct sigaction sa = {0};
    sa.sa_handler = tick;
    sigaction(SIGALRM, &sa, NULL);
    timer_t tm;
    struct sigevent se = {0};
    se.sigev_notify = SIGEV_SIGNAL;
    se.sigev_signo = SIGALRM;
    if (timer_create(CLOCK_MONOTONIC, &se, &tm)) { perror("timer"); return 2; }
    struct itimerspec its = {{1, 0}, {1, 0}};
    cpu_set_t all, one;
    if (!sched_getaffinity(0, sizeof all, &all)) {
        /* One processor per worker: handing over between threads stays cheap. */
        int want_cpu = worker % CPU_COUNT(&all);
        for (int k = 0; k < CPU_SETSIZE; k++)
            if (CPU_ISSET(k, &all) && want_cpu-- == 0) {
                CPU_ZERO(&one);
                CPU_SET(k, &one);
                sched_setaffinity(0, sizeof one, &one);
            }
    }
    timer_settime(tm, 0, &its, NULL);

    keeping = 1;
    sl_shared(!strcmp(argv[7], "warm"));
    keeping = 0;
    ncalls = sl_count();
    work = calloc(ncalls + NCONTROLS, sizeof *work);
    for (size_t i = 0; i < ncalls + NCONTROLS; i++) work[i] = sl_prepare(i);

    /* Allocation sites of blocks that outlive their call: of the controls, then of the calls. */
    uint64_t *own_sites = NULL;
    uint32_t own = 0;
    int own_kept = 0, control_kept = 0;
    uint8_t *own_lines = NULL;
    for (int phase = 0; phase < 2; phase++) {
        int code = discover(phase ? 0 : ncalls, phase ? ncalls : ncalls + NCONTROLS, ncalls + 1, ncalls + 2);
        if (code) { fprintf(stderr, "discovery died: %d\n", code); return 4; }
        uint64_t *copy = calloc(sh->nsites + 1, 8);
        memcpy(copy, sh->sites, sh->nsites * 8);
        if (phase) { own_sites = copy; own = sh->nsites; own_kept = sh->kept_written; memcpy(own_lines = malloc(sizeof sh->kept_lines), sh->kept_lines, sizeof sh->kept_lines); }
        else { sites = copy; nsites = sh->nsites; control_kept = sh->kept_written; }
    }
    uint64_t *control_sites = sites;
    uint32_t ncontrol = nsites;
    sites = own_sites;
    nsites = own;
    kept_watched = own_kept;
    kept_lines = own_lines;
    if (!control_kept) { fprintf(stderr, "control: write to kept values not seen\n"); return 4; }

    uint64_t pairs = 0, twos = 0, triples = 0, quads = 0;
    int completed = -1;
    int maxbound = thorough ? 4 : 2;
    /* What every call answers alone, cold. */
    want = calloc(ncalls, 8);
    {
        uint64_t *w = want;
        for (size_t i = 0; i < ncalls; i++) {
            struct combo c = {1, {1}, {{(int)i}}};
            execute(&c, NULL, 0, 60);
            if (sh->status != OK) {
                describe_failure(&c, NAMES[sh->status]);
                goto report;
            }
            w[i] = sh->answer[0][0];
        }
    }
    sites = control_sites;
    nsites = ncontrol;
    kept_watched = control_kept;
    kept_lines = NULL;
    controls();
    kept_watched = own_kept;
    kept_lines = own_lines;
    sites = own_sites;
    nsites = own;
    deadline = now() + seconds;

    /* The combinations. With shared accesses the spaces are thinned, and the bound grows pass by pass. */
    size_t n = ncalls;
    for (int bound = 0; bound <= maxbound && !failure[0] && !out_of_time; bound++) {
        uint64_t id = 0;
        size_t gap = bound == 0 || !seen_points ? 1 : bound == 1 ? 3 : 5;
        for (size_t a = 0; a < n && !failure[0] && !out_of_time; a += gap)
            for (size_t b = a; b < n; b += gap)
                if (id++ % workers == (uint64_t)worker) {
                    struct combo c = pair(a, b);
                    if (explore(&c, bound, 0) || out_of_time) break;
                    pairs++;
                }
        int few = n < 100;
        size_t s2 = (few ? 1 : thorough ? 2 : 5) * gap;
        for (size_t a = 0; a < n && !failure[0] && !out_of_time; a += s2)
            for (size_t b = 0; b < n; b += s2)
                if (id++ % workers == (uint64_t)worker) {
                    struct combo c = {2, {2, 2}, {{a, b}, {b, a}}};
                    if (explore(&c, bound, 0) || out_of_time) break;
                    twos++;
                }
        size_t s3 = (few ? 1 : thorough ? 4 : 10) * gap;
        for (size_t a = 0; a < n && !failure[0] && !out_of_time; a += s3)
            for (size_t b = a; b < n && !failure[0] && !out_of_time; b += s3)
                for (size_t d = b; d < n; d += s3)
                    if (id++ % workers == (uint64_t)worker) {
                        struct combo c = {3, {1, 1, 1}, {{a}, {b}, {d}}};
                        if (explore(&c, bound, 0) || out_of_time) break;
                        triples++;
                    }
        size_t s4 = (few ? (thorough ? 3 : 6) : thorough ? 20 : 45) * gap;
        for (size_t a = 0; a < n && !failure[0] && !out_of_time; a += s4)
            for (size_t b = 0; b < n && !failure[0] && !out_of_time; b += s4)
                for (size_t d = 0; d < n && !failure[0] && !out_of_time; d += s4)
                    for (size_t e = 0; e < n; e += s4)
                        if (id++ % workers == (uint64_t)worker) {
                            struct combo c = {2, {2, 2}, {{a, b}, {d, e}}};
                            if (explore(&c, bound, 0) || out_of_time) break;
                            quads++;
                        }
        if (!failure[0] && !out_of_time) completed = bound;
        if (!seen_points) break; /* one trace per combination: every bound is covered */
    }
report:;
    FILE *f = fopen(argv[6], "w");
    fprintf(f, "{\"failure\":");
    json_text(f, failure);
    fprintf(f, ",\"schedules\":%lu,\"steps\":%lu,\"states\":%lu,\"pairs\":%lu,\"two_by_two\":%lu,\"triples\":%lu,\"general_two_by_two\":%lu,\"bound_completed\":%d,\"max_bound\":%d,"
            "\"points\":%lu,\"most_points\":%u,\"static_bytes\":%lu,\"heap_sites\":%u,\"kept_watched\":%d,\"calls\":%zu,\"out_of_time\":%d,\"diverged\":%lu}\n",
            schedules, steps, nstates, pairs, twos, triples, quads, completed, maxbound, seen_points, most_points,
            (unsigned long)(st_hi - st_lo), nsites, own_kept, ncalls, out_of_time, diverged);
    fclose(f);
    return failure[0] ? 1 : 0;
}

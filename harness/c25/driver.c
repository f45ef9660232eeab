// Runs a C25 script through the C library's allocation functions and checks
// each result. It is preloaded with the proxy library.
#define _GNU_SOURCE
#include "script.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern void (*c25x_cb)(void);
static struct c25_script *S;
struct blk {
    char *p;
    size_t size; // bytes that are filled
    uint64_t seed;
    int phase, sys; // sys: 1 expected outside the pool, 0 inside, -1 unknown
};
static struct blk B[C25_SLOTS];
static uint64_t gen;
static void *(*byptr)(const void *);
static pthread_barrier_t bar;

static void fail(const char *sig, const char *fmt, ...) {
    if (!__atomic_exchange_n(&S->failed, 1, __ATOMIC_SEQ_CST)) {
        va_list ap;
        va_start(ap, fmt);
        snprintf(S->sig, sizeof S->sig, "%s", sig);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
        va_end(ap);
        __atomic_store_n(&S->failed, 2, __ATOMIC_SEQ_CST);
    }
    _exit(3);
}
#define CHK(cond, sig, ...)                                                    \
    do {                                                                       \
        __atomic_fetch_add(&S->nchecks, 1, __ATOMIC_RELAXED);                  \
        if (!(cond))                                                           \
            fail(sig, __VA_ARGS__);                                            \
    } while (0)

static inline unsigned char pat(uint64_t seed, size_t i) { return (unsigned char)((seed + i * 0x9E3779B97F4A7C15ull) >> 29); }
#define EDGE 6000
static void fill(char *p, size_t n, uint64_t seed) {
    for (size_t i = 0; i < n; i++) {
        if (i == EDGE && n > 3 * EDGE) {
            for (; i < n - EDGE; i += 509)
                p[i] = (char)pat(seed, i);
            i = n - EDGE;
        }
        p[i] = (char)pat(seed, i);
    }
}
static size_t verify(const char *p, size_t n, size_t full, uint64_t seed) { // first n of full filled bytes
    for (size_t i = 0; i < n; i++) {
        if (i == EDGE && full > 3 * EDGE) {
            for (; i < full - EDGE; i += 509)
                if (i < n && (unsigned char)p[i] != pat(seed, i))
                    return i;
            i = full - EDGE;
            if (i >= n)
                break;
        }
        if ((unsigned char)p[i] != pat(seed, i))
            return i;
    }
    return SIZE_MAX;
}
static void check_content(struct blk *b, const char *when) {
    size_t x = verify(b->p, b->size, b->size, b->seed);
    CHK(x == SIZE_MAX, "content", "%s: byte %zu of a block of %zu bytes (phase %d) at %p changed", when, x, b->size, b->phase, (void *)b->p);
}
static void check_disjoint(int s, size_t n) {
    for (int i = 0; i < C25_SLOTS; i++)
        if (i != s && B[i].p)
            CHK(B[i].p + B[i].size <= B[s].p || B[s].p + (n ? n : 1) <= B[i].p, "overlap", "a block of %zu bytes at %p overlaps one of %zu bytes at %p", n, (void *)B[s].p, B[i].size, (void *)B[i].p);
}
static void owner(struct blk *b, int phase, const char *what) {
    if (phase != PH_MAIN || !byptr || b->sys < 0)
        return;
    void *pool = byptr(b->p);
    CHK(!pool == (b->sys == 1), "threshold", "%s of %zu bytes with the threshold %llu is %s the pool", what, b->size, (unsigned long long)S->threshold, pool ? "in" : "not in");
}
static void got(int s, char *p, size_t n, size_t al, int phase, int sys, const char *what) {
    struct blk *b = &B[s];
    if (!p) {
        CHK(n == 0, "null", "%s of %zu bytes (alignment %zu) in phase %d returned NULL", what, n, al, phase);
        return;
    }
    if (!al)
        for (al = 16; al > n && al > 1;)
            al /= 2;
    CHK(((uintptr_t)p & (al - 1)) == 0, "align", "%s of %zu bytes in phase %d is at %p, not aligned to %zu", what, n, phase, (void *)p, al);
    b->p = p;
    b->size = n;
    b->seed = __atomic_add_fetch(&gen, 1, __ATOMIC_RELAXED) * 0x2545F4914F6CDD1Dull;
    b->phase = phase;
    b->sys = sys;
    if (phase != PH_MAIN || S->threads == 1)
        check_disjoint(s, n);
    owner(b, phase, what);
    fill(p, n, b->seed);
}
static int insys(uint64_t n) { return S->threshold ? n < S->threshold : 0; }

static void kind(struct blk *b) { // the mapping the block lies in
    if (b->sys != 0 || b->phase != PH_MAIN)
        return;
    static char buf[1 << 16];
    int fd = open("/proc/self/maps", O_RDONLY);
    if (fd < 0)
        return;
    size_t have = 0;
    int found = 0;
    for (;;) {
        ssize_t r = read(fd, buf + have, sizeof buf - 1 - have);
        if (r <= 0)
            break;
        have += (size_t)r;
        buf[have] = 0;
        char *line = buf, *nl;
        while ((nl = strchr(line, '\n'))) {
            *nl = 0;
            unsigned long lo, hi;
            char perm[8] = "";
            if (sscanf(line, "%lx-%lx %7s", &lo, &hi, perm) == 3 && (uintptr_t)b->p >= lo && (uintptr_t)b->p < hi) {
                found = 1;
                char want[64];
                snprintf(want, sizeof want, "/dev/shm/umf_proxy_lib_shm_pid_%d", (int)getpid());
                if (S->disposition == 0)
                    CHK(perm[3] == 'p' && !strchr(line, '/'), "disposition", "private memory is expected: %s", line);
                else if (S->disposition == 1)
                    CHK(perm[3] == 's' && !strstr(line, "/dev/shm/"), "disposition", "memory shared by descriptor is expected: %s", line);
                else
                    CHK(perm[3] == 's' && strstr(line, want), "disposition", "memory shared by name is expected: %s", line);
            }
            line = nl + 1;
        }
        have = (size_t)(buf + have - line);
        memmove(buf, line, have);
    }
    close(fd);
    CHK(found, "disposition", "the block at %p is in no mapping", (void *)b->p);
}

static long vsize(void) { // bytes of address space in use
    char b[128];
    int fd = open("/proc/self/statm", O_RDONLY);
    if (fd < 0)
        return -1;
    ssize_t r = read(fd, b, sizeof b - 1);
    close(fd);
    b[r > 0 ? r : 0] = 0;
    return strtol(b, NULL, 10) * 4096;
}
static void run1(struct c25_op *o, int phase) {
    int s = o->slot % C25_SLOTS;
    struct blk *b = &B[s];
    int ph = phase >= PH_CTOR ? PH_MAIN : PH_PREINIT; // where blocks come from
    switch (o->op) {
    case OP_MALLOC: {
        if (b->p)
            return;
        got(s, malloc(o->a), o->a, 0, ph, ph == PH_MAIN ? insys(o->a) : -1, "malloc");
        return;
    }
    case OP_CALLOC: {
        if (b->p)
            return;
        size_t n = o->a * o->b;
        char *p = calloc(o->a, o->b);
        if (p) {
            size_t i = 0;
            while (i < n && !p[i])
                i += (n > 100000 && i > 70000 && i < n - 5000) ? 61 : 1;
            CHK(i >= n, "calloc", "byte %zu of calloc(%zu, %zu) is not zero", i, (size_t)o->a, (size_t)o->b);
        }
        got(s, p, n, 0, ph, ph == PH_MAIN ? insys(n) : -1, "calloc");
        return;
    }
    case OP_REALLOC: {
        if (!b->p)
            return;
        check_content(b, "before realloc");
        struct blk old = *b;
        char *p = realloc(b->p, o->a);
        b->p = NULL;
        if (o->a == 0) {
            CHK(!p, "realloc0", "realloc(p, 0) returned %p", (void *)p);
            return;
        }
        CHK(p, "realloc", "realloc of %zu bytes (phase %d) to %zu failed", old.size, old.phase, (size_t)o->a);
        size_t keep = old.size < o->a ? old.size : o->a;
        size_t x = verify(p, keep, old.size, old.seed);
        CHK(x == SIZE_MAX, "realloc.content", "byte %zu changed by realloc from %zu to %zu (phase %d)", x, old.size, (size_t)o->a, old.phase);
        got(s, p, o->a, 0, old.phase, old.sys, "realloc");
        return;
    }
    case OP_ALIGNED: {
        if (b->p)
            return;
        got(s, aligned_alloc(o->a, o->b), o->b, o->a, ph, ph == PH_MAIN ? insys(o->b) : -1, "aligned_alloc");
        return;
    }
    case OP_FREE: {
        if (!b->p)
            return;
        check_content(b, "before free");
        char *p = b->p;
        size_t n = b->size;
        int sys = b->sys;
        b->p = NULL;
        if (n >= 16)
            memset(p, 0x5A, n);
        int inpool = phase == PH_MAIN && byptr && sys == 0;
        free(p);
        (void)inpool;
        return;
    }
    case OP_USABLE: {
        if (!b->p)
            return;
        size_t u = malloc_usable_size(b->p);
        if (b->phase == PH_PREINIT) {
            CHK(u == 0 || u >= b->size, "usable", "usable size %zu of a block of %zu bytes", u, b->size);
            return;
        }
        CHK(u >= b->size, "usable", "usable size %zu of a block of %zu bytes", u, b->size);
        CHK(u <= b->size * 2 + (1 << 21) + 65536, "usable.big", "usable size %zu of a block of %zu bytes", u, b->size);
        check_content(b, "before using the usable size");
        if (phase != PH_MAIN || S->threads == 1)
            check_disjoint(s, u);
        b->size = u; // all of it can be used
        fill(b->p, u, b->seed);
        return;
    }
    case OP_STRDUP:
    case OP_ASPRINTF: {
        if (b->p)
            return;
        static __thread char src[5000];
        size_t n = o->a % sizeof src;
        char *p = NULL;
        memset(src, 'a' + (int)(o->b % 26), n);
        src[n] = 0;
        if (o->op == OP_STRDUP)
            p = strdup(src);
        else
            CHK(asprintf(&p, "%s", src) == (int)n, "asprintf", "asprintf of %zu characters failed", n);
        CHK(p && !strcmp(p, src), "strdup", "the copy of a string of %zu characters differs", n);
        got(s, p, n + 1, 1, ph, -1, "strdup");
        return;
    }
    case OP_NULLS: {
        free(NULL);
        CHK(malloc_usable_size(NULL) == 0, "null.usable", "malloc_usable_size(NULL) is not 0");
        CHK(malloc_usable_size((void *)1) == 0xDEADBEEF, "probe", "the proxy library is not in use");
        if (!b->p)
            got(s, realloc(NULL, o->a), o->a, 0, ph, ph == PH_MAIN ? insys(o->a) : -1, "realloc(NULL)");
        return;
    }
    case OP_HUGE: {
        size_t big = SIZE_MAX - o->a % 70000;
        unsigned k = (unsigned)(o->b % 5);
        void *p = (void *)1;
        if (k == 0)
            p = malloc(big);
        else if (k == 1)
            p = aligned_alloc((size_t)1 << (3 + o->a % 14), big);
        else if (k == 2) {
            size_t n = ((size_t)1 << (32 + o->a % 16)) + o->a % 5, m = (SIZE_MAX / n) + 1 + o->a % 3;
            p = calloc(n, m); // the product does not fit
        } else if (k == 3) {
            size_t n = 2 + o->a % 100;
            p = calloc(SIZE_MAX / n + 1, n);
        } else if (b->p) {
            p = realloc(b->p, big);
            CHK(!p, "huge", "realloc to %zu bytes returned %p", big, p);
            check_content(b, "after a failed realloc");
        } else
            return;
        CHK(!p, "huge", "allocating %zu bytes or more (%u) in phase %d returned %p", big, k, phase, p);
        return;
    }
    case OP_BADALIGN: {
        if (ph == PH_PREINIT)
            return;
        size_t al = 3 * ((size_t)1 << (2 + o->a % 8));
        void *p = aligned_alloc(al, o->b);
        CHK(!p, "badalign", "aligned_alloc(%zu, %zu) returned %p", al, (size_t)o->b, p);
        return;
    }
    case OP_KIND:
        if (b->p && phase == PH_MAIN && S->threads == 1)
            kind(b);
        return;
    case OP_REUSE: { // memory of freed blocks is used again
        if (S->threads > 1 || phase != PH_MAIN)
            return;
        size_t n = (size_t)o->a, step = (n < 16 ? 16 : n) + 16, k = ((size_t)4 << 20) / step + 50;
        long v0 = 0, v1 = 0;
        for (size_t i = 0; i < k + 64; i++) {
            if (i == 64)
                v0 = vsize();
            char *p = o->b % 4 == 1 ? calloc(1, n) : o->b % 4 == 2 ? aligned_alloc(64, n) : malloc(n);
            if (p && o->b % 4 == 3)
                p = realloc(p, 2 * n + 1);
            CHK(p || !n, "null", "allocation %zu of %zu bytes in a loop returned NULL", i, n);
            if (p && n)
                p[0] = (char)i, p[n - 1] = (char)i;
            free(p);
        }
        v1 = vsize();
        CHK(v0 < 0 || v1 - v0 <= (long)(k * step / 2), "reuse", "allocating and freeing %zu bytes %zu times (%u) made the process %ld bytes bigger", n, k, (unsigned)(o->b % 4), v1 - v0);
        return;
    }
    case OP_FORK: {
        if (S->threads > 1 || phase != PH_MAIN || S->disposition)
            return;
        pid_t pid = fork();
        if (pid < 0)
            return;
        if (pid == 0) {
            for (int i = 0; i < C25_SLOTS; i++)
                if (B[i].p) {
                    check_content(&B[i], "in a forked child");
                    if ((i & 1) == (int)(o->a & 1)) {
                        free(B[i].p);
                        B[i].p = NULL;
                    }
                }
            for (int i = 0; i < 20; i++) {
                int t = (int)((o->b + (uint64_t)i) % C25_SLOTS);
                if (!B[t].p)
                    got(t, malloc(8 + (o->b * (uint64_t)(i + 3)) % 5000), 8 + (o->b * (uint64_t)(i + 3)) % 5000, 0, PH_MAIN, -1, "malloc after fork");
            }
            for (int i = 0; i < C25_SLOTS; i++)
                if (B[i].p)
                    check_content(&B[i], "in a forked child");
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        CHK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "fork", "the forked child ended with status %x", st);
        return;
    }
    }
}
static void run_phase(int phase) {
    for (uint32_t i = 0; i < S->nops; i++)
        if (S->ops[i].phase == phase) {
            S->opdone = i;
            run1(&S->ops[i], phase);
        }
    S->done[phase] = 1;
}
static void *thr(void *a) {
    unsigned me = (unsigned)(uintptr_t)a;
    for (uint32_t r = 0; r < S->rounds; r++) {
        for (uint32_t i = 0; i < S->nops; i++)
            if (S->ops[i].phase == PH_MAIN && S->ops[i].round == r && S->ops[i].thr == me)
                run1(&S->ops[i], PH_MAIN);
        pthread_barrier_wait(&bar);
        if (me == 0)
            for (int i = 0; i < C25_SLOTS; i++)
                if (B[i].p) {
                    check_content(&B[i], "between rounds");
                    check_disjoint(i, B[i].size);
                }
        pthread_barrier_wait(&bar);
    }
    return NULL;
}
static int load(void) {
    if (S)
        return 1;
    struct stat st;
    if (fstat(C25_FD, &st))
        return 0;
    void *m = mmap(NULL, (size_t)st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, C25_FD, 0);
    if (m == MAP_FAILED)
        return 0;
    S = m;
    return 1;
}
static void preinit(int argc, char **argv, char **envp) {
    (void)argc, (void)argv, (void)envp;
    if (load())
        run_phase(PH_PREINIT);
}
__attribute__((section(".preinit_array"), used)) static void (*pre)(int, char **, char **) = preinit;
__attribute__((constructor)) static void ctor(void) {
    if (S)
        run_phase(PH_CTOR);
}
static void at(void) { run_phase(PH_ATEXIT); }
static void libfini(void) {
    run_phase(PH_LIBDTOR);
    for (int i = 0; i < C25_SLOTS; i++)
        if (B[i].p)
            check_content(&B[i], "at the end");
}
__attribute__((destructor)) static void dtor(void) {
    if (S)
        run_phase(PH_DTOR);
}
int main(void) {
    if (!S)
        return 4;
    c25x_cb = libfini;
    *(void **)&byptr = dlsym(RTLD_DEFAULT, "umfPoolByPtr");
    CHK(byptr, "setup", "umfPoolByPtr is missing");
    atexit(at);
    if (S->threads <= 1)
        run_phase(PH_MAIN);
    else {
        pthread_t t[C25_MAXTHR];
        pthread_barrier_init(&bar, NULL, S->threads);
        for (unsigned i = 1; i < S->threads; i++)
            CHK(!pthread_create(&t[i], NULL, thr, (void *)(uintptr_t)i), "setup", "pthread_create");
        thr(NULL);
        for (unsigned i = 1; i < S->threads; i++)
            pthread_join(t[i], NULL);
        S->done[PH_MAIN] = 1;
    }
    return 0;
}

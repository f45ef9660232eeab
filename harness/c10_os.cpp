// C10: the OS memory provider.  Histories of alloc / free / split / merge /
// purge / failed requests with generated sizes, alignments, visibility,
// protection and shared-memory names, with refused mmap/munmap calls, against
// a model of the live mappings; and the same from several threads.
#include "umfh.hpp"
#include "wrapmap.hpp"
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <thread>
using namespace h;

static const size_t P = 4096;

// what creating a provider needs of the system, each refusable
enum Refuse { Nothing, Secret, Memfd, ShmOpen, Truncate, TopoInit, TopoLoad };
static Refuse refuse;
static unsigned refusals;
static int topos; // live topologies
static bool refused(Refuse r, int e) {
    if (refuse != r)
        return false;
    refusals++;
    errno = e;
    return true;
}
extern "C" {
long __real_syscall(long, ...);
int __real_shm_open(const char *, int, mode_t);
int __real_ftruncate(int, off_t);
int __real_hwloc_topology_init(void **);
int __real_hwloc_topology_load(void *);
void __real_hwloc_topology_destroy(void *);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if ((n == SYS_memfd_create && refused(Memfd, EMFILE)) || (n == 447 /* memfd_secret */ && refused(Secret, ENOSYS)))
        return -1;
    return __real_syscall(n, a, b, c, d, e, f);
}
int __wrap_shm_open(const char *n, int fl, mode_t m) { return refused(ShmOpen, EACCES) ? -1 : __real_shm_open(n, fl, m); }
int __wrap_ftruncate(int fd, off_t n) { return refused(Truncate, EFBIG) ? -1 : __real_ftruncate(fd, n); }
int __wrap_hwloc_topology_init(void **t) {
    if (refused(TopoInit, ENOMEM))
        return -1;
    int r = __real_hwloc_topology_init(t);
    topos += !r;
    return r;
}
int __wrap_hwloc_topology_load(void *t) { return refused(TopoLoad, ENOMEM) ? -1 : __real_hwloc_topology_load(t); }
void __wrap_hwloc_topology_destroy(void *t) {
    topos--;
    __real_hwloc_topology_destroy(t);
}
}

static int count_fds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d))
        n++;
    closedir(d);
    return n;
}
// the access rights of every page of [a, a+n): intersection, as PROT bits; -1: some page is not mapped
static int prot_of(uintptr_t a, size_t n) {
    FILE *f = fopen("/proc/self/maps", "r");
    char line[512];
    int pr = PROT_READ | PROT_WRITE | PROT_EXEC;
    uintptr_t cur = a, end = a + n;
    while (cur < end && fgets(line, sizeof line, f)) {
        unsigned long s, e;
        char perm[8];
        if (sscanf(line, "%lx-%lx %4s", &s, &e, perm) != 3 || e <= cur)
            continue;
        if (s > cur)
            break;
        int q = (perm[0] == 'r' ? PROT_READ : 0) | (perm[1] == 'w' ? PROT_WRITE : 0) | (perm[2] == 'x' ? PROT_EXEC : 0);
        pr &= q;
        cur = e;
    }
    fclose(f);
    return cur >= end ? pr : -1;
}

struct Blk {
    size_t size;
    uint64_t tag;   // 0: content unknown
    uint64_t root; // allocation it was cut from
};

struct OsW {
    Ctx &c;
    umf_memory_provider_handle_t p = nullptr;
    bool shared = false;
    unsigned prot = UMF_PROTECTION_READ | UMF_PROTECTION_WRITE;
    std::string shm;
    std::map<uintptr_t, Blk> live;
    size_t sum = 0, peak = 0;
    uint64_t tag = 1;
    explicit OsW(Ctx &cc) : c(cc) {}
    bool rw() const { return (prot & (UMF_PROTECTION_READ | UMF_PROTECTION_WRITE)) == (UMF_PROTECTION_READ | UMF_PROTECTION_WRITE); }
};

static size_t ctlget(OsW &w, const char *leaf) {
    size_t v = 0xdeadbeef;
    std::string n = std::string("umf.provider.by_handle.") + leaf;
    umf_result_t r = umfCtlGet(n.c_str(), w.p, &v);
    PCHECK(w.c, r == UMF_RESULT_SUCCESS, "ctl", "reading %s: %s", n.c_str(), rs(r));
    return v;
}

static bool create(OsW &w) {
    Ctx &c = w.c;
    umf_os_memory_provider_params_handle_t pr = nullptr;
    umf_result_t r = umfOsMemoryProviderParamsCreate(&pr);
    PCHECK(c, r == UMF_RESULT_SUCCESS && pr, "params", "%s", rs(r));
    w.shared = c.chance(1, 2);
    bool bad = false;
    if (w.shared)
        umfOsMemoryProviderParamsSetVisibility(pr, UMF_MEM_MAP_SHARED);
    else if (c.chance(1, 4))
        umfOsMemoryProviderParamsSetVisibility(pr, UMF_MEM_MAP_PRIVATE);
    if (c.chance(1, 5)) {
        w.prot = (unsigned)c.range(0, 15);
        umfOsMemoryProviderParamsSetProtection(pr, w.prot);
        if (w.prot == 0)
            bad = true; // no flag at all: rejected or NONE
    }
    bool mustFail = false;
    if (w.shared && c.chance(2, 5)) {
        char b[400];
        snprintf(b, sizeof b, "umfv-%d-%llx", (int)getpid(), (unsigned long long)c.range(0, 1 << 20));
        w.shm = b;
        unsigned k = (unsigned)c.range(0, 9);
        if (k == 0) {
            w.shm.insert(c.index_of(w.shm.size()), "/");
            mustFail = true;
        } else if (k == 1) {
            w.shm += std::string(300, 'x');
            mustFail = true;
        } else if (k == 2) {
            w.shm += std::string(253 - w.shm.size(), 'y'); // the longest allowed
        }
        umfOsMemoryProviderParamsSetShmName(pr, w.shm.c_str());
    }
    int fds = count_fds(), topos0 = topos;
    if (c.chance(1, 6)) {
        Refuse k = (Refuse)c.range(1, TopoLoad);
        refuse = k;
        refusals = 0;
        if (k == Secret)
            unsetenv("UMF_MEM_FD_FUNC");
        w.p = (umf_memory_provider_handle_t)0x55;
        r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &w.p);
        refuse = Nothing;
        setenv("UMF_MEM_FD_FUNC", "memfd_create", 1);
        c.note("create shared=%d shm='%.40s', system call %d refused %u times: %s", w.shared, w.shm.c_str(), (int)k, refusals, rs(r));
        bool made = r == UMF_RESULT_SUCCESS;
        if (refusals && k != Secret) {
            c.label("create: refused call");
            PCHECK(c, !made && valid_code(r) && w.p == (umf_memory_provider_handle_t)0x55, "create.refused", "the system refused call %d, the creation gives %s", (int)k, rs(r));
        } else if (!bad && !mustFail)
            PCHECK(c, made, "create.fallback", "creation with nothing essential refused: %s", rs(r));
        if (!made) {
            PCHECK(c, count_fds() == fds, "create.fdleak", "a failed creation leaves %d descriptors open", count_fds() - fds);
            PCHECK(c, topos == topos0, "create.topoleak", "a failed creation leaves %d topologies", topos - topos0);
            if (!w.shm.empty() && !mustFail) {
                int fd = __real_shm_open(w.shm.c_str(), O_RDONLY, 0);
                if (fd >= 0)
                    close(fd), shm_unlink(w.shm.c_str());
                PCHECK(c, fd < 0, "create.shmleak", "a failed creation leaves /dev/shm/%s", w.shm.c_str());
            }
        } else
            umfMemoryProviderDestroy(w.p);
        PCHECK(c, count_fds() == fds && topos == topos0, "create.destroyed", "descriptors or topologies are left");
        w.p = nullptr;
    }
    r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &w.p);
    umfOsMemoryProviderParamsDestroy(pr);
    c.note("create shared=%d prot=%u shm='%.40s': %s", w.shared, w.prot, w.shm.c_str(), rs(r));
    PCHECK(c, valid_code(r), "create.code", "creating the provider returned %d, which is no result code", (int)r);
    if (mustFail) {
        PCHECK(c, r != UMF_RESULT_SUCCESS, "create.badname", "a shared memory name of %zu characters (slash: %d) was accepted",
               w.shm.size(), w.shm.find('/') != std::string::npos);
        PCHECK(c, count_fds() == fds, "create.fdleak", "a failed creation leaves %d descriptors open", count_fds() - fds);
        c.label("create.refused");
        return false;
    }
    PCHECK(c, r == UMF_RESULT_SUCCESS || bad, "create", "%s", rs(r));
    if (r != UMF_RESULT_SUCCESS)
        return false;
    PCHECK(c, !strcmp(umfMemoryProviderGetName(w.p), "OS"), "name", "%s", umfMemoryProviderGetName(w.p));
    size_t ps = 0, rp = 0;
    umf_result_t r2 = umfMemoryProviderGetMinPageSize(w.p, nullptr, &ps);
    r = umfMemoryProviderGetRecommendedPageSize(w.p, c.size(1 << 30), &rp);
    PCHECK(c, r == UMF_RESULT_SUCCESS && r2 == r && ps == P && rp >= ps && rp % ps == 0, "pagesize", "min %zu recommended %zu", ps, rp);
    int ipc = 77;
    r = umfCtlGet("umf.provider.by_handle.params.ipc_enabled", w.p, &ipc);
    PCHECK(c, r == UMF_RESULT_SUCCESS && ipc == (w.shared ? 1 : 0), "ctl.ipc", "ipc_enabled %d for shared=%d", ipc, w.shared);
    return true;
}

static void check(OsW &w) {
    Ctx &c = w.c;
    PCHECK(c, ctlget(w, "stats.allocated_memory") == w.sum, "stats.allocated", "allocated_memory %zu, live blocks add up to %zu",
           ctlget(w, "stats.allocated_memory"), w.sum);
    PCHECK(c, ctlget(w, "stats.peak_memory") == w.peak, "stats.peak", "peak_memory %zu, expected %zu",
           ctlget(w, "stats.peak_memory"), w.peak);
    size_t bytes = 0;
    for (auto &x : w.live) {
        bytes += up(x.second.size, P);
        PCHECK(c, wm::covered(x.first, x.second.size), "unmapped", "live block %#zx..+%zu is not mapped any more",
               (size_t)x.first, x.second.size);
    }
    PCHECK(c, bytes == wm::liveBytes, "mapped.bytes", "%zu bytes are mapped, the live blocks take %zu", wm::liveBytes, bytes);
    PCHECK(c, wm::badUnmap == 0, "bad.unmap", "unmapped a range that is not the provider's");
}
static void check_content(OsW &w, uintptr_t a) {
    Blk &b = w.live[a];
    if (!b.tag || !w.rw())
        return;
    size_t k = verify((void *)a, b.size, b.tag);
    PCHECK(w.c, k == SIZE_MAX, "content", "byte %zu of the block %#zx (%zu bytes) changed", k, (size_t)a, b.size);
}
static void refill(OsW &w, uintptr_t a) {
    Blk &b = w.live[a];
    if (!w.rw())
        return;
    b.tag = w.tag++ * 2654435761u | 1;
    fill((void *)a, b.size, b.tag);
}
static void failed(OsW &w, umf_result_t r, int32_t native, const char *what) {
    Ctx &c = w.c;
    PCHECK(c, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "fail.code", "%s refused by the system returned %s", what, rs(r));
    const char *m = nullptr;
    int32_t e = 0;
    PCHECK(c, umfGetLastFailedMemoryProvider() == w.p, "fail.provider", "last failed provider not set after %s", what);
    umfMemoryProviderGetLastNativeError(w.p, &m, &e);
    PCHECK(c, e == native, "fail.native", "after %s the native error is %d, not %d", what, e, native);
    PCHECK(c, m && strlen(m) > 3 && strlen(m) < 1024, "fail.msg", "no message");
}

static void history(Ctx &c) {
    setenv("UMF_MEM_FD_FUNC", "memfd_create", 1);
    OsW w(c);
    no_stdin(c);
    { // one provider that lives throughout keeps the library initialized
    }
    umf_os_memory_provider_params_handle_t pr0 = nullptr;
    umfOsMemoryProviderParamsCreate(&pr0); // library initialized before counting
    int fds0 = count_fds();
    if (!create(w)) {
        umfOsMemoryProviderParamsDestroy(pr0);
        return;
    }
    int want = 0;
    if (w.prot & UMF_PROTECTION_READ)
        want |= PROT_READ;
    if (w.prot & UMF_PROTECTION_WRITE)
        want |= PROT_WRITE;
    if (w.prot & UMF_PROTECTION_EXEC)
        want |= PROT_EXEC;
    wm::on = true;
    unsigned nops = (unsigned)c.range(1, c.thorough ? 80 : 45);
    uint64_t serial = 1;
    unsigned big = 0, splits = 0, merges = 0, fails = 0, purges = 0;
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted({8, 5, 4, 4, 2, 2, 2, 1})) {
        case 0: {
            if (w.live.size() > 40)
                break;
            size_t s = c.chance(1, 2) ? P * c.range(1, 20) : c.chance(1, 2) ? c.range(1, P * 8) : c.size(8 << 20);
            if (!s)
                s = 1;
            size_t al;
            switch (c.range(0, 4)) {
            case 0: al = c.pow2(0, 12); break;
            case 1:
            case 2: al = c.pow2(13, 23); break;
            case 3: al = P * c.range(1, 40); break;
            default: al = 0;
            }
            bool inj = c.chance(1, 12);
            if (inj)
                wm::failIn = 1;
            void *p = (void *)1;
            umf_result_t r = umfMemoryProviderAlloc(w.p, s, al, &p);
            wm::failIn = 0;
            c.note("alloc(%zu,%zu)=%p %s%s", s, al, p, rs(r), inj ? " (mmap refused)" : "");
            if (inj) {
                PCHECK(c, r != UMF_RESULT_SUCCESS, "alloc.refused", "alloc succeeded although mmap was refused");
                failed(w, r, UMF_OS_RESULT_ERROR_ALLOC_FAILED, "alloc");
                fails++;
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "alloc", "alloc(%zu,%zu): %s", s, al, rs(r));
            uintptr_t a = (uintptr_t)p;
            PCHECK(c, a % std::max<size_t>(al, P) == 0 && (!al || a % al == 0), "alloc.align", "%p is not aligned to %zu", p, al);
            auto nx = w.live.lower_bound(a);
            PCHECK(c, (nx == w.live.end() || nx->first >= a + up(s, P)) &&
                          (nx == w.live.begin() || std::prev(nx)->first + up(std::prev(nx)->second.size, P) <= a),
                   "alloc.overlap", "%p..+%zu overlaps a live block", p, s);
            w.live[a] = Blk{s, 0, serial++};
            w.sum += s;
            w.peak = std::max(w.peak, w.sum);
            if (al > P)
                big++;
            int got = prot_of(a, s);
            PCHECK(c, got == want, "prot", "rights of %p..+%zu are %d, asked for %d (-1: not all mapped)", p, s, got, want);
            if (w.rw()) {
                for (size_t k = 0; k < s; k += s > 65536 ? 512 : 1)
                    PCHECK(c, ((unsigned char *)p)[k] == 0, "alloc.zero", "byte %zu of a new block is not zero", k);
                PCHECK(c, ((unsigned char *)p)[s - 1] == 0, "alloc.zero", "last byte of a new block is not zero");
                refill(w, a);
            }
            break;
        }
        case 1: {
            if (w.live.empty())
                break;
            auto it = w.live.begin();
            std::advance(it, (long)c.index_of(w.live.size()));
            check_content(w, it->first);
            bool inj = c.chance(1, 10);
            if (inj)
                wm::failUnmapIn = 1;
            umf_result_t r = umfMemoryProviderFree(w.p, (void *)it->first, it->second.size);
            wm::failUnmapIn = 0;
            c.note("free(%#zx,%zu) %s%s", (size_t)it->first, it->second.size, rs(r), inj ? " (munmap refused)" : "");
            if (inj) {
                failed(w, r, UMF_OS_RESULT_ERROR_FREE_FAILED, "free");
                fails++;
                break; // the block stays live, and can be freed later
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free: %s", rs(r));
            w.sum -= it->second.size;
            w.live.erase(it);
            break;
        }
        case 2: {
            if (w.live.empty())
                break;
            auto it = w.live.begin();
            std::advance(it, (long)c.index_of(w.live.size()));
            if (it->second.size <= P)
                break;
            size_t first = P * c.range(1, (it->second.size - 1) / P);
            size_t tot = it->second.size;
            check_content(w, it->first);
            umf_result_t r = umfMemoryProviderAllocationSplit(w.p, (void *)it->first, tot, first);
            c.note("split(%#zx,%zu,%zu) %s", (size_t)it->first, tot, first, rs(r));
            PCHECK(c, r == UMF_RESULT_SUCCESS, "split", "split: %s", rs(r));
            Blk hi{tot - first, 0, it->second.root};
            uintptr_t lo = it->first;
            it->second.size = first;
            w.live[lo + first] = hi;
            refill(w, lo);
            refill(w, lo + first);
            splits++;
            break;
        }
        case 3: {
            std::vector<uintptr_t> cand;
            for (auto it = w.live.begin(); it != w.live.end() && std::next(it) != w.live.end(); ++it) {
                auto nx = std::next(it);
                if (it->first + it->second.size == nx->first)
                    cand.push_back(it->first);
            }
            if (cand.empty())
                break;
            auto it = w.live.find(c.pick(cand));
            auto nx = std::next(it);
            check_content(w, it->first);
            check_content(w, nx->first);
            size_t tot = it->second.size + nx->second.size;
            bool same = it->second.root == nx->second.root;
            umf_result_t r = umfMemoryProviderAllocationMerge(w.p, (void *)it->first, (void *)nx->first, tot);
            c.note("merge(%#zx,%#zx,%zu) %s", (size_t)it->first, (size_t)nx->first, tot, rs(r));
            if (!same && r != UMF_RESULT_SUCCESS) { // two allocations that happen to meet need not be joined
                PCHECK(c, valid_code(r), "merge.code", "merge: %d", (int)r);
                check_content(w, it->first);
                check_content(w, nx->first);
                c.label("merge of unrelated blocks refused");
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "merge", "merge: %s", rs(r));
            if (!same)
                it->second.root = serial++;
            it->second.size = tot;
            w.live.erase(nx);
            refill(w, it->first);
            merges++;
            break;
        }
        case 4: { // purge
            if (w.live.empty())
                break;
            auto it = w.live.begin();
            std::advance(it, (long)c.index_of(w.live.size()));
            Blk &b = it->second;
            size_t pages = up(b.size, P) / P;
            size_t f = c.range(0, pages - 1), n = c.range(1, pages - f);
            bool force = c.chance(1, 2), miss = c.chance(1, 6);
            uintptr_t a = it->first + f * P + (miss ? c.range(1, P - 1) : 0);
            umf_result_t r = force ? umfMemoryProviderPurgeForce(w.p, (void *)a, n * P)
                                   : umfMemoryProviderPurgeLazy(w.p, (void *)a, n * P);
            c.note("purge_%s(%#zx+%zu pages %zu) %s", force ? "force" : "lazy", (size_t)it->first, (size_t)(a - it->first), n, rs(r));
            purges++;
            if (miss || (!force && w.shared)) {
                failed(w, r, force ? UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED : UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED, "purge");
                check_content(w, it->first);
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "purge", "purge of a live range: %s", rs(r));
            if (!w.rw())
                break;
            if (w.shared) {
                check_content(w, it->first);
                break;
            }
            // outside of the range nothing changes; inside: zero (force) or old or zero (lazy)
            if (b.tag) {
                std::vector<unsigned char> ref(b.size);
                if (b.size <= 16384) {
                    fill(ref.data(), b.size, b.tag);
                    for (size_t k = 0; k < b.size; k++) {
                        bool in = k >= f * P && k < (f + n) * P;
                        unsigned char v = ((unsigned char *)it->first)[k];
                        bool ok = !in ? v == ref[k] : force ? v == 0 : v == 0 || v == ref[k];
                        PCHECK(c, ok, "purge.content", "byte %zu after %s purge of pages %zu..%zu is %u", k,
                               force ? "force" : "lazy", f, f + n, v);
                    }
                }
            }
            refill(w, it->first);
            break;
        }
        case 5: { // requests that cannot be met change nothing
            unsigned k = (unsigned)c.range(0, 5);
            void *p = nullptr;
            size_t s = P, al = 0;
            switch (k) {
            case 0: s = SIZE_MAX - c.range(0, 3 * P); al = c.oneof<size_t>({0, 1, P, 2 * P, 1u << 21}); break;
            case 1: s = (size_t)1 << c.range(48, 63); al = c.oneof<size_t>({0, P, 2 * P, 1u << 21}); break;
            case 2: al = c.pow2(49, 63); s = c.chance(1, 2) ? P : SIZE_MAX / 2; break;
            case 3: al = c.oneof<size_t>({3, 6, 4095, 4097, 6144, 5000, 12289}); break;
            case 4: s = 0; al = c.oneof<size_t>({0, 64, P, 2 * P, 1u << 21}); break;
            default: s = SIZE_MAX - P * c.range(1, 4) + 1; al = (size_t)1 << c.range(13, 40);
            }
            umf_result_t r = umfMemoryProviderAlloc(w.p, s, al, &p);
            c.note("impossible alloc(%#zx,%#zx) %s", s, al, rs(r));
            PCHECK(c, r != UMF_RESULT_SUCCESS && valid_code(r), "impossible", "alloc(%#zx,%#zx) returned %s and %p", s, al, rs(r), p);
            if (k == 3)
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "align.code", "alignment %zu: %s", al, rs(r));
            PCHECK(c, umfGetLastFailedMemoryProvider() == w.p, "fail.provider", "last failed provider not set");
            fails++;
            break;
        }
        case 6: {
            umf_result_t r = umfCtlExec("umf.provider.by_handle.stats.reset", w.p, &w);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "reset", "%s", rs(r));
            w.peak = w.sum;
            c.note("stats.reset");
            break;
        }
        default: {
            umf_result_t r = umfMemoryProviderFree(w.p, nullptr, 0);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free.null", "free(NULL): %s", rs(r));
        }
        }
        check(w);
        if (!w.live.empty() && c.chance(1, 4))
            for (auto &x : w.live)
                check_content(w, x.first);
    }
    for (auto &x : w.live)
        check_content(w, x.first);
    for (auto it = w.live.begin(); it != w.live.end(); it = w.live.erase(it)) {
        umf_result_t r = umfMemoryProviderFree(w.p, (void *)it->first, it->second.size);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "free.final", "%s", rs(r));
        w.sum -= it->second.size;
    }
    check(w);
    wm::on = false;
    umfMemoryProviderDestroy(w.p);
    if (!w.shm.empty())
        shm_unlink(("/" + w.shm).c_str());
    PCHECK(c, count_fds() == fds0, "destroy.fdleak", "after destroying the provider %d more descriptors are open than before",
           count_fds() - fds0);
    umfOsMemoryProviderParamsDestroy(pr0);
    if ((splits && merges) || (big >= 2 && fails) || (purges && splits))
        c.nontrivial();
    c.label(w.shared ? (w.shm.empty() ? "shared.anon" : "shared.named") : "private");
    if (!w.rw())
        c.label("restricted.prot");
    if (fails)
        c.label("failures");
}

static void threads(Ctx &c) {
    setenv("UMF_MEM_FD_FUNC", "memfd_create", 1);
    umf_os_memory_provider_params_handle_t pr = nullptr;
    umfOsMemoryProviderParamsCreate(&pr);
    bool shared = c.chance(1, 2);
    if (shared)
        umfOsMemoryProviderParamsSetVisibility(pr, UMF_MEM_MAP_SHARED);
    umf_memory_provider_handle_t p = nullptr;
    umf_result_t r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), pr, &p);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "create", "%s", rs(r));
    umfOsMemoryProviderParamsDestroy(pr);
    unsigned nt = (unsigned)c.range(2, 4);
    struct T {
        std::vector<std::pair<size_t, size_t>> reqs;
        std::vector<unsigned> drop;
        std::vector<std::pair<uintptr_t, size_t>> left;
    };
    std::vector<T> ts(nt);
    size_t maxOne = 0, totalAll = 0;
    for (auto &t : ts) {
        unsigned n = (unsigned)c.range(1, 12);
        for (unsigned i = 0; i < n; i++) {
            size_t s = c.chance(1, 2) ? P * c.range(1, 6) : c.range(1, 5 * P);
            t.reqs.push_back({s, c.chance(1, 2) ? 0 : c.pow2(12, 16)});
            t.drop.push_back((unsigned)c.range(0, 2));
            maxOne = std::max(maxOne, s);
            totalAll += s;
        }
    }
    std::atomic<unsigned> gate{0};
    std::atomic<int> err{0};
    std::atomic<uint64_t> tg{1};
    std::vector<std::thread> th;
    for (auto &t : ts)
        th.emplace_back([&] {
            gate++;
            while (gate < nt)
                ;
            std::vector<std::tuple<uintptr_t, size_t, uint64_t>> mine;
            for (size_t i = 0; i < t.reqs.size(); i++) {
                void *q = nullptr;
                if (umfMemoryProviderAlloc(p, t.reqs[i].first, t.reqs[i].second, &q) != UMF_RESULT_SUCCESS || !q) {
                    err = 1;
                    return;
                }
                if (t.reqs[i].second && (uintptr_t)q % t.reqs[i].second)
                    err = 2;
                uint64_t k = tg++ * 77777 | 1;
                fill(q, t.reqs[i].first, k);
                mine.push_back({(uintptr_t)q, t.reqs[i].first, k});
                if (t.drop[i] == 0 && mine.size() > 1) {
                    auto [a, s, kk] = mine[0];
                    if (verify((void *)a, s, kk) != SIZE_MAX)
                        err = 3;
                    if (umfMemoryProviderFree(p, (void *)a, s) != UMF_RESULT_SUCCESS)
                        err = 4;
                    mine.erase(mine.begin());
                }
            }
            for (auto &[a, s, kk] : mine) {
                if (verify((void *)a, s, kk) != SIZE_MAX)
                    err = 3;
                t.left.push_back({a, s});
            }
        });
    for (auto &x : th)
        x.join();
    static const char *what[] = {"", "an allocation failed", "a block is not aligned", "the content of a block changed", "a free failed"};
    PCHECK(c, err == 0, "threads", "%s", what[err]);
    size_t sum = 0;
    std::map<uintptr_t, size_t> all;
    for (auto &t : ts)
        for (auto &x : t.left) {
            sum += x.second;
            all[x.first] = up(x.second, P);
        }
    uintptr_t e = 0;
    for (auto &x : all) {
        PCHECK(c, x.first >= e, "threads.overlap", "live blocks overlap at %#zx", (size_t)x.first);
        e = x.first + x.second;
    }
    size_t a = 0, pk = 0;
    umfCtlGet("umf.provider.by_handle.stats.allocated_memory", p, &a);
    umfCtlGet("umf.provider.by_handle.stats.peak_memory", p, &pk);
    PCHECK(c, a == sum, "threads.allocated", "allocated_memory %zu, live blocks add up to %zu", a, sum);
    PCHECK(c, pk >= sum && pk >= maxOne && pk <= totalAll, "threads.peak", "peak_memory %zu is impossible (live %zu, largest %zu, all %zu)",
           pk, sum, maxOne, totalAll);
    for (auto &t : ts)
        for (auto &x : t.left)
            PCHECK(c, umfMemoryProviderFree(p, (void *)x.first, x.second) == UMF_RESULT_SUCCESS, "threads.free", "final free");
    umfCtlGet("umf.provider.by_handle.stats.allocated_memory", p, &a);
    PCHECK(c, a == 0, "threads.zero", "allocated_memory %zu after everything was freed", a);
    umfMemoryProviderDestroy(p);
    c.nontrivial();
    c.label(shared ? "threads.shared" : "threads.private");
    for (unsigned i = 0; i < nt; i++)
        c.op();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C10",
                         "histories of alloc/free/split/merge/purge/impossible requests/statistics resets on the OS provider "
                         "(private, anonymous and named shared memory, all protections) with refused mmap and munmap calls; "
                         "non-trivial: split and merge, or two over-aligned blocks and a failure, or purge and split; and "
                         "histories from 2-4 threads",
                         {{"history", history, 16000, 250000}, {"threads", threads, 3000, 40000, 20, true}});
}

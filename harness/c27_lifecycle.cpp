// C27: load / init / work / teardown / unload cycles of the shared library.
#include "umfh.hpp"
#include <atomic>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <memory>
#include <thread>
#include <umf/ipc.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/providers/provider_level_zero.h>
using namespace h;

// Blocks hwloc has got from malloc (on the library's behalf: no one else here uses it)
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}
namespace hw {
std::atomic<long> live{0};
uintptr_t lo = 0, hi = 0;
constexpr size_t N = 1 << 18;
void *tab[N];
std::atomic_flag lk = ATOMIC_FLAG_INIT;
void add(void *p) {
    if (!p)
        return;
    while (lk.test_and_set())
        ;
    for (size_t i = h::mixu((uintptr_t)p) % N;; i = (i + 1) % N)
        if (!tab[i] || tab[i] == (void *)1) {
            tab[i] = p;
            live++;
            break;
        }
    lk.clear();
}
void del(void *p) {
    if (!p || live == 0)
        return;
    while (lk.test_and_set())
        ;
    size_t i = h::mixu((uintptr_t)p) % N;
    for (size_t k = 0; k < N && tab[i]; i = (i + 1) % N, k++)
        if (tab[i] == p) {
            tab[i] = (void *)1;
            live--;
            break;
        }
    lk.clear();
}
int find(dl_phdr_info *i, size_t, void *) {
    if (strstr(i->dlpi_name, "libhwloc"))
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
                lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                hi = lo + i->dlpi_phdr[k].p_memsz;
            }
    return 0;
}
inline bool by(void *ra) { return (uintptr_t)ra >= lo && (uintptr_t)ra < hi; }
} // namespace hw
extern "C" {
void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (hw::by(__builtin_return_address(0)))
        hw::add(p);
    return p;
}
void *calloc(size_t a, size_t b) {
    void *p = __libc_calloc(a, b);
    if (hw::by(__builtin_return_address(0)))
        hw::add(p);
    return p;
}
void *realloc(void *o, size_t n) {
    bool mine = hw::by(__builtin_return_address(0));
    if (mine)
        hw::del(o);
    void *p = __libc_realloc(o, n);
    if (mine)
        hw::add(p);
    return p;
}
void free(void *p) {
    hw::del(p);
    __libc_free(p);
}
}
namespace {
struct Lib {
    void *so = nullptr;
#define SYM(x) decltype(&::x) x = nullptr;
#define ALL                                                                                                                                                      \
    SYM(umfInit) SYM(umfTearDown) SYM(umfGetCurrentVersion) SYM(umfMemoryProviderCreate) SYM(umfMemoryProviderDestroy) SYM(umfMemoryProviderAlloc)               \
    SYM(umfMemoryProviderFree) SYM(umfPoolCreate) SYM(umfPoolDestroy) SYM(umfPoolMalloc) SYM(umfPoolFree) SYM(umfFree) SYM(umfPoolByPtr) SYM(umfOsMemoryProviderOps)             \
    SYM(umfOsMemoryProviderParamsCreate) SYM(umfOsMemoryProviderParamsDestroy) SYM(umfOsMemoryProviderParamsSetVisibility) SYM(umfFileMemoryProviderOps)           \
    SYM(umfFileMemoryProviderParamsCreate) SYM(umfFileMemoryProviderParamsDestroy) SYM(umfFixedMemoryProviderOps) SYM(umfFixedMemoryProviderParamsCreate)         \
    SYM(umfFixedMemoryProviderParamsDestroy) SYM(umfDisjointPoolOps) SYM(umfDisjointPoolParamsCreate) SYM(umfDisjointPoolParamsDestroy) SYM(umfProxyPoolOps)      \
    SYM(umfScalablePoolOps) SYM(umfMemspaceHostAllGet) SYM(umfMemspaceHighestCapacityGet) SYM(umfMemspaceHighestBandwidthGet) SYM(umfMemspaceLowestLatencyGet)    \
    SYM(umfMemspaceMemtargetNum) SYM(umfMemspaceClone) SYM(umfMemspaceDestroy) SYM(umfMempolicyCreate) SYM(umfMempolicyDestroy)                                   \
    SYM(umfMemoryProviderCreateFromMemspace) SYM(umfGetIPCHandle) SYM(umfPutIPCHandle) SYM(umfOpenIPCHandle) SYM(umfCloseIPCHandle) SYM(umfPoolGetIPCHandler)     \
    SYM(umfCtlGet) SYM(umfDisjointPoolSharedLimitsCreate) SYM(umfDisjointPoolSharedLimitsDestroy) SYM(umfDisjointPoolParamsSetSharedLimits)
    ALL
#undef SYM
};
bool bind(Lib &l) {
#define SYM(x) if (!(l.x = (decltype(l.x))dlsym(l.so, #x))) return false;
    ALL
#undef SYM
    return true;
}
std::string libpath() {
    const char *b = getenv("VERIF_BUILD");
    const char *v = strstr(program_invocation_name, "-rel") ? "/umf-rel-so/lib/libumf.so" : "/umf-dbg-so/lib/libumf.so";
    return std::string(b ? b : "") + v;
}
int count_fds() {
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) {
        while (readdir(d))
            n++;
        closedir(d);
    }
    return n;
}
// bytes mapped, apart from heap, stacks and files of other libraries; also looks for the library
size_t mapped(bool *lib) {
    FILE *f = fopen("/proc/self/maps", "r");
    char ln[1024];
    size_t t = 0;
    *lib = false;
    while (f && fgets(ln, sizeof ln, f)) {
        unsigned long a, b;
        if (sscanf(ln, "%lx-%lx", &a, &b) != 2)
            continue;
        if (strstr(ln, "libumf.so"))
            *lib = true;
        if (strchr(ln, '[') || strstr(ln, ".so"))
            continue;
        t += b - a;
    }
    if (f)
        fclose(f);
    return t;
}
struct Blk {
    size_t size;
    uint64_t tag;
    size_t pool;
};
struct PoolS {
    umf_memory_provider_handle_t prov;
    umf_memory_pool_handle_t pool;
    void *buf;
    size_t buflen;
    umf_disjoint_pool_shared_limits_handle_t lim;
    bool alive, shared;
    std::unique_ptr<Mock> mock;
    umf_memory_provider_ops_t ops;
};

// what a cycle does; every cycle of a case does the same
struct Script {
    std::vector<uint64_t> v;
    size_t i = 0;
    uint64_t next() { return v[i++ % v.size()]; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + next() % (hi - lo + 1); }
    bool chance(uint64_t a, uint64_t b) { return next() % b < a; }
    size_t index_of(size_t n) { return (size_t)(next() % n); }
    size_t size(size_t max) { return (size_t)next() * 7 % max; }
    size_t weighted(std::vector<unsigned> w) {
        unsigned t = 0;
        for (unsigned x : w)
            t += x;
        uint64_t k = next() % t;
        size_t j = 0;
        while (k >= w[j])
            k -= w[j++];
        return j;
    }
};

// One cycle. `tbb` says whether the scalable pool may be used.
void cycle(Ctx &c, Script &S, int no, bool tbb, Lib *held = nullptr) {
    Lib l;
    int inits = 0, opens = 0;
    if (held) { // loaded all the time
        l = *held;
        PCHECK(c, l.umfInit() == 0, "init", "umfInit failed in cycle %d", no);
        inits++;
    } else {
        l.so = dlopen(libpath().c_str(), S.chance(1, 2) ? RTLD_LAZY : RTLD_NOW);
        if (!l.so)
            c.fail("dlopen", "loading in cycle %d: %s", no, dlerror());
        PCHECK(c, bind(l), "dlsym", "a symbol is missing");
        opens = 1;
    }
    std::vector<PoolS> pools;
    std::map<uintptr_t, Blk> live;
    uint64_t tag = 1;
    int n = (int)S.range(0, c.thorough ? 60 : 24);
    c.note("cycle %d", no);
    for (int i = 0; i < n; i++) {
        c.op();
        switch (S.weighted({3, 3, 6, 10, 6, 2, 2, 2, 2, 2, 2})) {
        case 0:
            PCHECK(c, l.umfInit() == 0, "init", "umfInit failed");
            inits++;
            break;
        case 1:
            if (inits > (held ? 1 : 0)) {
                l.umfTearDown();
                inits--;
                c.label("nested teardown");
                if (!live.empty())
                    c.nontrivial();
            }
            break;
        case 2: {
            if (pools.size() > 6)
                break;
            PoolS s{};
            s.alive = true;
            int k = (int)S.range(0, 3);
            umf_result_t r = UMF_RESULT_ERROR_UNKNOWN;
            if (k == 0) {
                umf_os_memory_provider_params_handle_t p = nullptr;
                PCHECK(c, l.umfOsMemoryProviderParamsCreate(&p) == UMF_RESULT_SUCCESS, "os.params", "params");
                s.shared = S.chance(1, 2);
                if (s.shared)
                    l.umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
                r = l.umfMemoryProviderCreate(l.umfOsMemoryProviderOps(), p, &s.prov);
                l.umfOsMemoryProviderParamsDestroy(p);
            } else if (k == 1) {
                std::string f = std::string(c.scratch) + "/f" + std::to_string(i);
                umf_file_memory_provider_params_handle_t p = nullptr;
                l.umfFileMemoryProviderParamsCreate(&p, f.c_str());
                r = l.umfMemoryProviderCreate(l.umfFileMemoryProviderOps(), p, &s.prov);
                l.umfFileMemoryProviderParamsDestroy(p);
            } else if (k == 2) {
                s.buflen = 8u << 20;
                s.buf = mmap(nullptr, s.buflen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                umf_fixed_memory_provider_params_handle_t p = nullptr;
                l.umfFixedMemoryProviderParamsCreate(&p, s.buf, s.buflen);
                r = l.umfMemoryProviderCreate(l.umfFixedMemoryProviderOps(), p, &s.prov);
                l.umfFixedMemoryProviderParamsDestroy(p);
            } else {
                umf_const_memspace_handle_t m = l.umfMemspaceHostAllGet();
                PCHECK(c, m && l.umfMemspaceMemtargetNum(m) > 0, "memspace", "no host-all memspace");
                umf_mempolicy_handle_t pol = nullptr;
                bool usePol = S.chance(1, 2);
                if (usePol)
                    PCHECK(c, l.umfMempolicyCreate(UMF_MEMPOLICY_PREFERRED, &pol) == UMF_RESULT_SUCCESS, "policy", "policy");
                r = l.umfMemoryProviderCreateFromMemspace(m, pol, &s.prov);
                if (usePol)
                    l.umfMempolicyDestroy(pol);
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "provider", "provider kind %d: %s", k, rs(r));
            int pk = (int)S.weighted({3, 2, tbb && k != 1 ? 2u : 0u});
            if (pk == 0) {
                umf_disjoint_pool_params_handle_t dp = nullptr;
                l.umfDisjointPoolParamsCreate(&dp);
                if (S.chance(1, 2)) {
                    s.lim = l.umfDisjointPoolSharedLimitsCreate(1 << 20);
                    l.umfDisjointPoolParamsSetSharedLimits(dp, s.lim);
                }
                r = l.umfPoolCreate(l.umfDisjointPoolOps(), s.prov, dp, 0, &s.pool);
                l.umfDisjointPoolParamsDestroy(dp);
            } else
                r = l.umfPoolCreate(pk == 1 ? l.umfProxyPoolOps() : l.umfScalablePoolOps(), s.prov, nullptr, 0, &s.pool);
            PCHECK(c, r == UMF_RESULT_SUCCESS && s.pool, "pool", "pool kind %d: %s", pk, rs(r));
            pools.push_back(std::move(s));
            break;
        }
        case 3: {
            if (pools.empty())
                break;
            size_t k = S.index_of(pools.size());
            if (!pools[k].alive)
                break;
            size_t s = 1 + S.size(60000);
            void *p = l.umfPoolMalloc(pools[k].pool, s);
            if (!p)
                break;
            PCHECK(c, l.umfPoolByPtr(p) == pools[k].pool, "owner", "%p belongs to %p, not %p", p, (void *)l.umfPoolByPtr(p), (void *)pools[k].pool);
            fill(p, s, tag);
            live[(uintptr_t)p] = {s, tag++, k};
            break;
        }
        case 4: {
            if (live.empty())
                break;
            auto it = live.begin();
            std::advance(it, (long)S.index_of(live.size()));
            PCHECK(c, verify((void *)it->first, it->second.size, it->second.tag) == SIZE_MAX, "content", "a block changed");
            PCHECK(c, l.umfFree((void *)it->first) == UMF_RESULT_SUCCESS, "free", "free failed");
            live.erase(it);
            break;
        }
        case 5: { // a block through IPC
            umf_ipc_handle_t hd = nullptr;
            size_t hs = 0;
            umf_ipc_handler_handle_t hh = nullptr;
            for (auto &b : live)
                if (pools[b.second.pool].shared) {
                    if (l.umfGetIPCHandle((void *)b.first, &hd, &hs) != UMF_RESULT_SUCCESS)
                        break;
                    PCHECK(c, l.umfPoolGetIPCHandler(pools[b.second.pool].pool, &hh) == UMF_RESULT_SUCCESS, "ipc", "no handler");
                    void *q = nullptr;
                    if (l.umfOpenIPCHandle(hh, hd, &q) == UMF_RESULT_SUCCESS) {
                        PCHECK(c, verify(q, b.second.size, b.second.tag) == SIZE_MAX, "ipc.content", "other bytes");
                        PCHECK(c, l.umfCloseIPCHandle(q) == UMF_RESULT_SUCCESS, "ipc.close", "close");
                        c.label("ipc");
                    }
                    PCHECK(c, l.umfPutIPCHandle(hd) == UMF_RESULT_SUCCESS, "ipc.put", "put");
                    break;
                }
            break;
        }
        case 6: { // one more user of the library comes and goes
            if (opens < 4 && S.chance(1, 2)) {
                PCHECK(c, dlopen(libpath().c_str(), RTLD_NOW) == l.so, "dlopen.same", "a second load gave another library");
                opens++;
            } else if (opens > 1) {
                dlclose(l.so);
                opens--;
            }
            break;
        }
        case 7: {
            umf_const_memspace_handle_t m[3] = {l.umfMemspaceHighestCapacityGet(), l.umfMemspaceHighestBandwidthGet(), l.umfMemspaceLowestLatencyGet()};
            umf_memspace_handle_t cl = nullptr;
            if (m[0] && l.umfMemspaceClone(m[0], &cl) == UMF_RESULT_SUCCESS)
                l.umfMemspaceDestroy(cl);
            break;
        }
        case 8: {
            for (auto &s : pools)
                if (s.alive) {
                    size_t v = 0;
                    (void)l.umfCtlGet("umf.provider.by_handle.stats.allocated_memory", s.prov, &v);
                }
            PCHECK(c, l.umfGetCurrentVersion() == UMF_VERSION_CURRENT, "version", "version");
            break;
        }
        case 9: { // threads come, use the library and go
            std::vector<std::thread> th;
            std::atomic<int> bad{0};
            for (int t = 0; t < 3; t++)
                th.emplace_back([&] {
                    for (int j = 0; j < 5; j++) {
                        if (l.umfInit())
                            bad = 1;
                        umf_os_memory_provider_params_handle_t p = nullptr;
                        umf_memory_provider_handle_t pr = nullptr;
                        if (l.umfOsMemoryProviderParamsCreate(&p) || l.umfMemoryProviderCreate(l.umfOsMemoryProviderOps(), p, &pr))
                            bad = 2;
                        else {
                            umf_memory_pool_handle_t pl = nullptr;
                            l.umfOsMemoryProviderParamsDestroy(p);
                            if (l.umfPoolCreate(l.umfProxyPoolOps(), pr, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &pl))
                                bad = 3;
                            else {
                                void *q = l.umfPoolMalloc(pl, 5000);
                                if (!q || l.umfPoolByPtr(q) != pl || l.umfFree(q))
                                    bad = 4;
                                l.umfPoolDestroy(pl);
                            }
                        }
                        l.umfTearDown();
                    }
                });
            for (auto &t : th)
                t.join();
            PCHECK(c, bad == 0, "threads", "step %d failed in a thread", bad.load());
            c.label("threads");
            break;
        }
        default: { // a pool goes
            if (pools.empty())
                break;
            size_t k = S.index_of(pools.size());
            bool used = !pools[k].alive;
            for (auto &b : live)
                used |= b.second.pool == k;
            if (used)
                break;
            l.umfPoolDestroy(pools[k].pool);
            l.umfMemoryProviderDestroy(pools[k].prov);
            if (pools[k].lim)
                l.umfDisjointPoolSharedLimitsDestroy(pools[k].lim);
            if (pools[k].buf)
                munmap(pools[k].buf, pools[k].buflen);
            pools[k].alive = false;
        }
        }
    }
    for (auto &b : live) {
        PCHECK(c, verify((void *)b.first, b.second.size, b.second.tag) == SIZE_MAX, "content", "a block changed");
        PCHECK(c, l.umfFree((void *)b.first) == UMF_RESULT_SUCCESS, "free", "free failed");
    }
    for (auto &s : pools)
        if (s.alive) {
            l.umfPoolDestroy(s.pool);
            l.umfMemoryProviderDestroy(s.prov);
            if (s.lim)
                l.umfDisjointPoolSharedLimitsDestroy(s.lim);
            if (s.buf)
                munmap(s.buf, s.buflen);
        }
    while (inits-- > 0)
        l.umfTearDown();
    while (opens-- > 0)
        dlclose(l.so);
}

void life(Ctx &c, bool restart) {
    bool tbb = c.chance(1, 3);
    int n = (int)c.range(3, c.thorough ? 14 : 7);
    size_t base = 0;
    int fds = 0;
    {
        // another user of hwloc and TBB keeps them loaded, as any program linked with them does
        (void)dlopen("libtbbmalloc.so.2", RTLD_NOW);
        (void)dlopen("libhwloc.so.15", RTLD_NOW);
        // the C library's own caches: one arena, and stacks for as many threads as a cycle starts
        mallopt(M_ARENA_MAX, 1);
        dl_iterate_phdr(hw::find, nullptr);
        if (!hw::lo)
            c.discard("hwloc is not loaded");
        std::atomic<int> up{0};
        std::vector<std::thread> th;
        for (int t = 0; t < 3; t++)
            th.emplace_back([&] {
                up++;
                while (up < 3)
                    std::this_thread::yield();
                free(malloc(100));
            });
        for (auto &t : th)
            t.join();
    }
    Script S;
    for (size_t k = c.range(20, c.thorough ? 500 : 250); k > 0; k--)
        S.v.push_back(c.range(0, 9999));
    long heap = 0;
    Lib l;
    if (restart) {
        l.so = dlopen(libpath().c_str(), RTLD_NOW);
        PCHECK(c, l.so && bind(l), "dlopen", "loading: %s", dlerror());
        l.umfTearDown(); // what loading did
    }
    for (int i = 0; i < n; i++) {
        S.i = 0;
        cycle(c, S, i, tbb, restart ? &l : nullptr);
        if (restart)
            for (unsigned k = c.chance(1, 4) ? (unsigned)c.range(1, 40) : 0; k; k--) {
                PCHECK(c, l.umfInit() == 0, "init", "umfInit failed after cycle %d", i);
                l.umfTearDown();
            }
        bool lib;
        size_t now = mapped(&lib);
        long hp = hw::live;
        int nf = count_fds();
        PCHECK(c, restart || !lib, "unload", "the library is still mapped after its last user closed it (cycle %d)", i);
        if (i == 0) {
            base = now;
            heap = hp;
            fds = nf;
            continue;
        }
        PCHECK(c, nf == fds, "fds", "%d descriptors after cycle %d, %d after the first", nf, i, fds);
        PCHECK(c, hp == heap, "heap", "hwloc holds %ld blocks after cycle %d, %ld after the first", hp, i, heap);
        if (!tbb)
            PCHECK(c, now <= base, "mappings", "%zu KB mapped after cycle %d, %zu KB after the first", now >> 10, i, base >> 10);
        c.label("cycles");
    }
    if (restart) {
        PCHECK(c, l.umfInit() == 0, "init", "the last umfInit failed"); // unloading ends it
        dlclose(l.so);
    }
}
void life_case(Ctx &c) { life(c, false); }
void restart_case(Ctx &c) { life(c, true); }
// Threads are the first users and the last users of the library at once: each initializes it, uses it and
// tears it down, while the others do the same.
void race_case(Ctx &c) {
    size_t nt = (size_t)c.range(2, 6);
    int rounds = (int)c.range(2, 12);
    struct P {
        unsigned spin1, spin2;
        bool memspace, disjoint;
        size_t size;
    };
    std::vector<P> plan;
    for (size_t i = 0; i < nt; i++)
        plan.push_back({(unsigned)c.range(0, 2000), (unsigned)c.range(0, 2000), c.chance(1, 4), c.chance(1, 3), c.range(1, 20000)});
    bool meet = c.chance(1, 2); // all threads start each round together
    Lib l;
    l.so = dlopen(libpath().c_str(), RTLD_NOW);
    PCHECK(c, l.so && bind(l), "dlopen", "loading: %s", dlerror());
    l.umfTearDown(); // what loading did: nobody uses the library now
    std::atomic<int> bad{0}, at{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            const P &p = plan[t];
            auto use = [&]() -> int {
                umf_os_memory_provider_params_handle_t op = nullptr;
                umf_memory_provider_handle_t pr = nullptr;
                if (l.umfOsMemoryProviderParamsCreate(&op))
                    return 2;
                umf_result_t r = l.umfMemoryProviderCreate(l.umfOsMemoryProviderOps(), op, &pr);
                l.umfOsMemoryProviderParamsDestroy(op);
                if (r)
                    return 3;
                umf_disjoint_pool_params_handle_t dp = nullptr;
                if (p.disjoint && l.umfDisjointPoolParamsCreate(&dp))
                    return 4;
                umf_memory_pool_handle_t pl = nullptr;
                r = l.umfPoolCreate(p.disjoint ? l.umfDisjointPoolOps() : l.umfProxyPoolOps(), pr, dp, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &pl);
                if (dp)
                    l.umfDisjointPoolParamsDestroy(dp);
                if (r)
                    return 5;
                char *q = (char *)l.umfPoolMalloc(pl, p.size);
                if (!q)
                    return 6;
                memset(q, (int)t + 1, p.size);
                for (volatile unsigned k = p.spin2; k; k = k - 1)
                    ;
                if (l.umfPoolByPtr(q + p.size - 1) != pl)
                    return 7;
                if (q[0] != (char)(t + 1) || q[p.size - 1] != (char)(t + 1))
                    return 8;
                size_t v = 0;
                if (l.umfCtlGet("umf.provider.by_handle.stats.allocated_memory", pr, &v) || v < p.size)
                    return 9;
                if (p.memspace && (!l.umfMemspaceHostAllGet() || l.umfMemspaceMemtargetNum(l.umfMemspaceHostAllGet()) == 0))
                    return 10;
                if (l.umfFree(q))
                    return 11;
                l.umfPoolDestroy(pl);
                return 0;
            };
            for (int j = 0; j < rounds && !bad; j++) {
                if (meet) {
                    at++;
                    while (at < (int)nt * (j + 1) && !bad)
                        std::this_thread::yield();
                }
                for (volatile unsigned k = p.spin1; k; k = k - 1)
                    ;
                if (l.umfInit()) {
                    bad = 1;
                    break;
                }
                int b = use();
                if (b)
                    bad = b;
                l.umfTearDown();
            }
        });
    for (auto &t : th)
        t.join();
    PCHECK(c, bad == 0, "race", "step %d failed in a thread that had initialized the library", bad.load());
    PCHECK(c, l.umfInit() == 0, "init", "the last umfInit failed"); // unloading ends it
    dlclose(l.so);
    bool lib;
    (void)mapped(&lib);
    PCHECK(c, !lib, "unload", "the library is still mapped");
    c.label(meet ? "started together" : "started anyhow");
    c.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C27", "a nested umfTearDown ran while blocks were live, or threads were at once the first and last users of the library",
                         {{"lifecycle", life_case, 2500, 25000, 60, true}, {"restart", restart_case, 2500, 25000, 60, true}, {"race", race_case, 2500, 25000, 60, true}});
}

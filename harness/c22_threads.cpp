// C22: pools, providers and lookups used from many threads at once.
#include "poolw.hpp"
#include <atomic>
#include <thread>
using namespace h;

// ------------------------------------------------ a thread-safe mock provider
// Hands out page-granular ranges of a reserved area; checks every free.
struct CMock {
    std::mutex mx;
    char *lo = nullptr;
    size_t len = 0, page = 4096;
    std::map<uintptr_t, size_t> live, hole;
    std::atomic<uint64_t> bad{0}, nalloc{0}, nfree{0};
    std::atomic<unsigned> failEvery{0}, n{0}, failFree{0}, nf{0};
    void open(size_t l) {
        lo = (char *)mmap(nullptr, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        len = l;
        hole[(uintptr_t)lo] = l;
    }
};
static umf_result_t cm_init(void *p, void **priv) { return *priv = p, UMF_RESULT_SUCCESS; }
static void cm_fini(void *) {}
static umf_result_t cm_alloc(void *p, size_t s, size_t a, void **out) {
    CMock *m = (CMock *)p;
    unsigned fe = m->failEvery;
    if (fe && ++m->n % fe == 0)
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    std::lock_guard<std::mutex> g(m->mx);
    size_t n = up(s ? s : 1, 4096);
    if (a < 4096)
        a = 4096;
    for (auto &h : m->hole) { // first fit: addresses are reused at once
        uintptr_t q = up(h.first, a);
        if (q + n <= h.first + h.second) {
            uintptr_t hs = h.first, he = h.first + h.second;
            m->hole.erase(hs);
            if (q > hs)
                m->hole[hs] = q - hs;
            if (q + n < he)
                m->hole[q + n] = he - q - n;
            m->live[q] = s;
            m->nalloc++;
            *out = (void *)q;
            return UMF_RESULT_SUCCESS;
        }
    }
    return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
}
static umf_result_t cm_free(void *p, void *q, size_t s) {
    CMock *m = (CMock *)p;
    unsigned ff = m->failFree;
    if (ff && ++m->nf % ff == 0)
        return UMF_RESULT_ERROR_UNKNOWN;
    std::lock_guard<std::mutex> g(m->mx);
    auto it = m->live.find((uintptr_t)q);
    if (it == m->live.end() || it->second != s) {
        m->bad++;
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    }
    size_t n = up(s ? s : 1, 4096);
    uintptr_t b = it->first, e = b + n;
    m->live.erase(it);
    auto nx = m->hole.lower_bound(b);
    if (nx != m->hole.end() && nx->first == e) {
        e += nx->second;
        nx = m->hole.erase(nx);
    }
    if (nx != m->hole.begin()) {
        auto pv = std::prev(nx);
        if (pv->first + pv->second == b) {
            b = pv->first;
            m->hole.erase(pv);
        }
    }
    m->hole[b] = e - b;
    m->nfree++;
    return UMF_RESULT_SUCCESS;
}
static void cm_err(void *, const char **msg, int32_t *e) { *msg = "", *e = 0; }
static umf_result_t cm_page(void *, size_t, size_t *o) { return *o = 4096, UMF_RESULT_SUCCESS; }
static umf_result_t cm_min(void *, void *, size_t *o) { return *o = 4096, UMF_RESULT_SUCCESS; }
static const char *cm_name(void *) { return "cmock"; }
static umf_memory_provider_ops_t cm_ops() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = cm_init;
    o.finalize = cm_fini;
    o.alloc = cm_alloc;
    o.free = cm_free;
    o.get_last_native_error = cm_err;
    o.get_recommended_page_size = cm_page;
    o.get_min_page_size = cm_min;
    o.get_name = cm_name;
    return o;
}

struct Rng {
    uint64_t x;
    uint64_t operator()(uint64_t n) { return (x = mixu(x + 0x9e3779b97f4a7c15ull)) % n; }
};
struct B {
    char *p = nullptr;
    size_t n = 0;
    uint64_t tag = 0;
    unsigned pool = 0;
};
struct Slot { // where threads hand blocks to each other
    std::atomic<B *> b{nullptr};
};

struct Setup {
    CMock mock;
    umf_memory_provider_ops_t ops;
    umf_memory_provider_handle_t prov = nullptr;
    int kind = 0;
    void *fixed = nullptr;
};
static void mkprov(Ctx &c, Setup &s, int kind) {
    s.kind = kind;
    umf_result_t r = UMF_RESULT_SUCCESS;
    if (kind == 0) {
        s.ops = cm_ops();
        s.mock.open(1ull << 30);
        r = umfMemoryProviderCreate(&s.ops, &s.mock, &s.prov);
    } else if (kind == 1) {
        umf_os_memory_provider_params_handle_t p = nullptr;
        umfOsMemoryProviderParamsCreate(&p);
        if (c.chance(1, 2))
            umfOsMemoryProviderParamsSetVisibility(p, UMF_MEM_MAP_SHARED);
        r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &s.prov);
        umfOsMemoryProviderParamsDestroy(p);
    } else if (kind == 2) {
        size_t l = 64u << 20;
        s.fixed = mmap(nullptr, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        umf_fixed_memory_provider_params_handle_t p = nullptr;
        umfFixedMemoryProviderParamsCreate(&p, s.fixed, l);
        r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), p, &s.prov);
        umfFixedMemoryProviderParamsDestroy(p);
    } else {
        umf_file_memory_provider_params_handle_t p = nullptr;
        umfFileMemoryProviderParamsCreate(&p, (std::string(c.scratch) + "/f").c_str());
        r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), p, &s.prov);
        umfFileMemoryProviderParamsDestroy(p);
    }
    PCHECK(c, r == UMF_RESULT_SUCCESS, "provider", "provider %d: %s", kind, rs(r));
}
struct Barrier {
    std::atomic<unsigned> n{0};
    void wait(unsigned k) {
        n++;
        while (n.load() < k)
            sched_yield();
    }
};

// ---------------------------------------------------------------- pools
static void pools(Ctx &c) {
    Setup s;
    mkprov(c, s, (int)c.weighted({6, 2, 2, 1}));
    unsigned np = (unsigned)c.range(1, 3), nt = (unsigned)c.range(2, 6), nops = (unsigned)c.range(20, 400);
    std::vector<umf_memory_pool_handle_t> ps(np);
    std::vector<int> pk(np);
    umf_disjoint_pool_shared_limits_handle_t lim = nullptr;
        for (unsigned i = 0; i < np; i++) {
#ifdef __SANITIZE_THREAD__ // TBB is not instrumented: its own synchronisation is not seen
        pk[i] = (int)c.weighted({6, 2});
#else
        pk[i] = (int)c.weighted({6, 2, s.kind == 2 ? 0u : 1u});
#endif
        umf_result_t r;
        if (pk[i] == 0) {
            umf_disjoint_pool_params_handle_t d = nullptr;
            umfDisjointPoolParamsCreate(&d);
            size_t slab = c.oneof<size_t>({4096, 4096, 16384, 65536});
            umfDisjointPoolParamsSetSlabMinSize(d, slab);
            umfDisjointPoolParamsSetMaxPoolableSize(d, slab * c.oneof<size_t>({1, 2, 4}));
            umfDisjointPoolParamsSetCapacity(d, c.range(0, 3));
            umfDisjointPoolParamsSetMinBucketSize(d, c.pow2(3, 8));
            umfDisjointPoolParamsSetTrace(d, c.chance(1, 4) ? 2 : 0);
            if (c.chance(1, 3)) {
                if (!lim)
                    lim = umfDisjointPoolSharedLimitsCreate(c.oneof<size_t>({4096, 65536, 1 << 20}));
                umfDisjointPoolParamsSetSharedLimits(d, lim);
            }
            r = umfPoolCreate(umfDisjointPoolOps(), s.prov, d, 0, &ps[i]);
            umfDisjointPoolParamsDestroy(d);
        } else if (pk[i] == 1)
            r = umfPoolCreate(umfProxyPoolOps(), s.prov, nullptr, 0, &ps[i]);
        else {
            umf_scalable_pool_params_handle_t d = nullptr;
            umfScalablePoolParamsCreate(&d);
            umfScalablePoolParamsSetGranularity(d, 1 << 16);
            r = umfPoolCreate(umfScalablePoolOps(), s.prov, d, 0, &ps[i]);
            umfScalablePoolParamsDestroy(d);
        }
        PCHECK(c, r == UMF_RESULT_SUCCESS, "pool", "pool %d: %s", pk[i], rs(r));
    }
    bool faults = s.kind == 0 && c.chance(1, 3);
    if (faults)
        s.mock.failEvery = (unsigned)c.range(3, 20);
    size_t maxSize = c.oneof<size_t>({256, 3000, 20000});
    std::vector<Slot> slots(c.range(1, 8));
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < nt; i++)
        seeds.push_back(c.range(0, UINT32_MAX));
    bool churn = c.chance(1, 4); // one more thread makes and destroys pools on the same provider
    c.note("provider %d, %u pools, %u threads x %u, sizes to %zu, faults %d, churn %d", s.kind, np, nt, nops, maxSize, faults, churn);
    Barrier bar;
    std::atomic<uint64_t> crossed{0}, total{0};
    std::vector<std::thread> ts;
    unsigned all = nt + (churn ? 1 : 0);
    auto release = [&](B &b, Rng &rnd) {
        PCHECK(c, verify(b.p, b.n, b.tag) == SIZE_MAX, "content", "a block of %zu bytes of pool %u changed while its owner held it", b.n, b.pool);
        if (rnd(8) == 0)
            PCHECK(c, umfPoolByPtr(b.p) == ps[b.pool], "bypt", "a live block of pool %u is attributed to another pool", b.pool);
        umf_result_t r = rnd(4) == 0 ? umfFree(b.p) : umfPoolFree(ps[b.pool], b.p);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "freeing a live block of %zu bytes of pool %u (kind %d): %s", b.n, b.pool, pk[b.pool], rs(r));
    };
    for (unsigned t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            Rng rnd{mixu(seeds[t] + 77)};
            std::vector<B> v;
            bar.wait(all);
            for (unsigned i = 0; i < nops; i++) {
                unsigned k = (unsigned)rnd(16);
                if (k < 8 || v.empty()) {
                    B b;
                    b.pool = (unsigned)rnd(np);
                    b.n = 1 + rnd(rnd(3) ? 300 : maxSize);
                    bool al = rnd(5) == 0;
                    size_t a = 1ull << rnd(12);
                    b.p = (char *)(al ? umfPoolAlignedMalloc(ps[b.pool], b.n, a) : umfPoolMalloc(ps[b.pool], b.n));
                    if (!b.p) {
                        PCHECK(c, faults || s.kind == 2, "alloc", "allocation of %zu from pool %u failed", b.n, b.pool);
                        continue;
                    }
                    PCHECK(c, !al || (uintptr_t)b.p % a == 0, "align", "block at %p, asked for alignment %zu", (void *)b.p, a);
                    total++;
                    if (pk[b.pool] != 1) {
                        size_t u = umfPoolMallocUsableSize(ps[b.pool], b.p);
                        PCHECK(c, u >= b.n, "usable", "usable size of a block of %zu bytes is %zu", b.n, u);
                    }
                    b.tag = rnd(1ull << 60);
                    fill(b.p, b.n, b.tag);
                    v.push_back(b);
                } else if (k < 12) {
                    size_t j = rnd(v.size());
                    release(v[j], rnd);
                    v[j] = v.back();
                    v.pop_back();
                } else if (k < 15) { // swap a block with another thread
                    size_t j = rnd(v.size());
                    B *mine = new B(v[j]);
                    v[j] = v.back();
                    v.pop_back();
                    B *got = slots[rnd(slots.size())].b.exchange(mine);
                    if (got) {
                        v.push_back(*got);
                        delete got;
                        crossed++;
                    }
                } else {
                    size_t j = rnd(v.size());
                    PCHECK(c, verify(v[j].p, v[j].n, v[j].tag) == SIZE_MAX, "content", "a live block changed");
                    PCHECK(c, umfPoolByPtr(v[j].p + rnd(v[j].n)) == ps[v[j].pool], "bypt", "a byte of a live block of pool %u is attributed to another pool", v[j].pool);
                }
            }
            for (auto &b : v)
                release(b, rnd);
        });
    if (churn)
        ts.emplace_back([&] {
            bar.wait(all);
            for (unsigned i = 0; i < nops / 8 + 1; i++) {
                umf_memory_pool_handle_t q = nullptr;
                umf_result_t r = umfPoolCreate(umfProxyPoolOps(), s.prov, nullptr, 0, &q);
                PCHECK(c, r == UMF_RESULT_SUCCESS, "churn", "pool: %s", rs(r));
                char *a = (char *)umfPoolMalloc(q, 100 + i);
                if (a) {
                    fill(a, 100, i);
                    PCHECK(c, umfPoolByPtr(a) == q && umfPoolByPtr(a + 99) == q, "churn.bypt", "a new pool's block is attributed to another pool");
                    PCHECK(c, verify(a, 100, i) == SIZE_MAX, "churn.content", "a new pool's block changed");
                    r = umfFree(a);
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "churn.free", "umfFree: %s", rs(r));
                }
                umfPoolDestroy(q);
            }
        });
    for (auto &t : ts)
        t.join();
    Rng fin{1};
    for (auto &sl : slots)
        if (B *b = sl.b.load()) {
            release(*b, fin);
            delete b;
        }
    if (s.kind == 0)
        PCHECK(c, s.mock.bad == 0, "badfree", "%llu frees did not match an allocation of the provider", (unsigned long long)s.mock.bad);
    for (unsigned i = 0; i < np; i++)
        umfPoolDestroy(ps[i]);
    if (lim)
        umfDisjointPoolSharedLimitsDestroy(lim);
    if (s.kind == 0) {
        PCHECK(c, s.mock.bad == 0, "badfree", "%llu frees did not match an allocation of the provider", (unsigned long long)s.mock.bad);
        bool scal = std::count(pk.begin(), pk.end(), 2) != 0;
        PCHECK(c, scal || s.mock.live.empty(), "leak", "%zu provider blocks are left after all pools were destroyed", s.mock.live.size());
    } else if (s.kind == 1 && std::count(pk.begin(), pk.end(), 2) == 0) {
        size_t a = 1;
        umf_result_t r = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", s.prov, &a);
        PCHECK(c, r == UMF_RESULT_SUCCESS && a == 0, "stats", "%zu bytes are still allocated in the OS provider (%s)", a, rs(r));
    } else if (s.kind == 2) {
        void *q = nullptr;
        umf_result_t r = umfMemoryProviderAlloc(s.prov, 64u << 20, 0, &q);
        bool scal = std::count(pk.begin(), pk.end(), 2) != 0;
        PCHECK(c, r == UMF_RESULT_SUCCESS || scal, "whole", "the buffer cannot be allocated in one piece afterwards: %s", rs(r));
        if (!r)
            umfMemoryProviderFree(s.prov, q, 64u << 20);
    }
    umfMemoryProviderDestroy(s.prov);
    if (lim)
        c.label("shared limits");
    if (churn)
        c.label("pools made meanwhile");
    if (faults)
        c.label("failing provider");
    if (crossed)
        c.label("freed by another thread");
    if (total >= 50 && crossed)
        c.nontrivial();
}

// --------------------------------------------- providers used without pools
static void providers(Ctx &c) {
    Setup s;
    mkprov(c, s, (int)c.range(1, 3));
    unsigned nt = (unsigned)c.range(2, 6), nops = (unsigned)c.range(20, 200);
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < nt; i++)
        seeds.push_back(c.range(0, UINT32_MAX));
    c.note("provider %d, %u threads x %u", s.kind, nt, nops);
    Barrier bar;
    std::vector<std::thread> ts;
    std::atomic<uint64_t> sum{0}, splits{0}, merges{0};
    for (unsigned t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            Rng rnd{mixu(seeds[t] + 5)};
            std::map<uintptr_t, B> v;
            auto pick = [&] {
                auto it = v.begin();
                std::advance(it, (long)rnd(v.size()));
                return it;
            };
            auto chk = [&](B &b) { PCHECK(c, verify(b.p, b.n, b.tag) == SIZE_MAX, "content", "a live block of %zu bytes changed", b.n); };
            auto refill = [&](B &b) {
                b.tag = rnd(1ull << 60);
                fill(b.p, b.n, b.tag);
            };
            bar.wait(nt);
            for (unsigned i = 0; i < nops; i++) {
                unsigned k = (unsigned)rnd(10);
                if (k < 5 || v.empty()) {
                    B b;
                    b.n = 4096 * (1 + rnd(6));
                    void *q = nullptr;
                    size_t al = rnd(4) ? 0 : 4096ull << rnd(4);
                    umf_result_t r = umfMemoryProviderAlloc(s.prov, b.n, al, &q);
                    if (r) {
                        PCHECK(c, s.kind == 2, "alloc", "allocation: %s", rs(r));
                        continue;
                    }
                    PCHECK(c, !al || (uintptr_t)q % al == 0, "align", "alignment");
                    b.p = (char *)q;
                    sum += b.n;
                    refill(b);
                    v[(uintptr_t)q] = b;
                } else if (k < 8) {
                    auto it = pick();
                    chk(it->second);
                    B b = it->second;
                    v.erase(it);
                    umf_result_t r = umfMemoryProviderFree(s.prov, b.p, b.n);
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free of %zu: %s", b.n, rs(r));
                    sum -= b.n;
                } else if (k == 8) {
                    auto it = pick();
                    if (it->second.n <= 4096)
                        continue;
                    chk(it->second);
                    size_t f = 4096 * (1 + rnd(it->second.n / 4096 - 1));
                    umf_result_t r = umfMemoryProviderAllocationSplit(s.prov, it->second.p, it->second.n, f);
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "split", "split: %s", rs(r));
                    B h;
                    h.p = it->second.p + f;
                    h.n = it->second.n - f;
                    it->second.n = f;
                    refill(it->second);
                    refill(h);
                    v[(uintptr_t)h.p] = h;
                    splits++;
                } else {
                    auto it = pick();
                    auto nx = std::next(it);
                    if (nx == v.end() || it->first + it->second.n != nx->first)
                        continue;
                    chk(it->second);
                    chk(nx->second);
                    size_t tot = it->second.n + nx->second.n;
                    umf_result_t r = umfMemoryProviderAllocationMerge(s.prov, it->second.p, nx->second.p, tot);
                    PCHECK(c, valid_code(r), "merge.code", "merge: %d", (int)r);
                    if (r)
                        continue; // separate allocations need not be joined
                    it->second.n = tot;
                    v.erase(nx);
                    refill(it->second);
                    merges++;
                }
            }
            for (auto &x : v) {
                chk(x.second);
                umf_result_t r = umfMemoryProviderFree(s.prov, x.second.p, x.second.n);
                PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free of %zu: %s", x.second.n, rs(r));
                sum -= x.second.n;
            }
        });
    for (auto &t : ts)
        t.join();
    if (s.kind == 1) {
        size_t a = 1;
        umf_result_t r = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", s.prov, &a);
        PCHECK(c, r == UMF_RESULT_SUCCESS && a == 0, "stats", "%zu bytes are still allocated", a);
    }
    umfMemoryProviderDestroy(s.prov);
    c.label(s.kind == 1 ? "OS" : s.kind == 2 ? "fixed" : "file");
    if (splits && merges)
        c.label("split/merge");
    if (splits)
        c.nontrivial();
}

// ---------------------- pools on pools, looked up while others come and go
static umf_result_t pp_init(void *p, void **priv) { return *priv = p, UMF_RESULT_SUCCESS; }
static umf_result_t pp_alloc(void *p, size_t s, size_t a, void **out) {
    *out = a > 1 ? umfPoolAlignedMalloc((umf_memory_pool_handle_t)p, s, a) : umfPoolMalloc((umf_memory_pool_handle_t)p, s);
    return *out ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
}
static umf_result_t pp_free(void *p, void *q, size_t) { return umfPoolFree((umf_memory_pool_handle_t)p, q); }
static void nested(Ctx &c) {
    Setup s;
    mkprov(c, s, (int)c.weighted({4, 1, 1}));
    umf_memory_pool_handle_t outer = nullptr;
    umf_result_t r = umfPoolCreate(umfProxyPoolOps(), s.prov, nullptr, 0, &outer);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "pool", "outer pool: %s", rs(r));
    umf_memory_provider_ops_t ops = cm_ops();
    ops.initialize = pp_init;
    ops.alloc = pp_alloc;
    ops.free = pp_free;
    unsigned nt = (unsigned)c.range(2, 5), nops = (unsigned)c.range(10, 120);
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < nt; i++)
        seeds.push_back(c.range(0, UINT32_MAX));
    c.note("provider %d, %u threads x %u", s.kind, nt, nops);
    Barrier bar;
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            Rng rnd{mixu(seeds[t] + 3)};
            umf_memory_provider_handle_t ip = nullptr;
            umf_memory_pool_handle_t inner = nullptr;
            PCHECK(c, umfMemoryProviderCreate(&ops, outer, &ip) == UMF_RESULT_SUCCESS, "inner", "provider on a pool");
            std::vector<B> v;
            bar.wait(nt);
            umf_disjoint_pool_params_handle_t d = nullptr;
            umfDisjointPoolParamsCreate(&d);
            umfDisjointPoolParamsSetSlabMinSize(d, 4096);
            umfDisjointPoolParamsSetMaxPoolableSize(d, rnd(2) ? 0 : 2048);
            umfDisjointPoolParamsSetCapacity(d, rnd(2));
            auto r2 = umfPoolCreate(umfDisjointPoolOps(), ip, d, 0, &inner);
            umfDisjointPoolParamsDestroy(d);
            PCHECK(c, r2 == UMF_RESULT_SUCCESS, "inner", "inner pool: %s", rs(r2));
            for (unsigned i = 0; i < nops; i++) {
                if (rnd(2) || v.empty()) {
                    B b;
                    b.pool = (unsigned)rnd(2); // 0 outer, 1 inner
                    b.n = 1 + rnd(5000);
                    b.p = (char *)umfPoolMalloc(b.pool ? inner : outer, b.n);
                    if (!b.p)
                        continue;
                    b.tag = rnd(1ull << 60);
                    fill(b.p, b.n, b.tag);
                    v.push_back(b);
                } else {
                    size_t j = rnd(v.size());
                    B b = v[j];
                    PCHECK(c, verify(b.p, b.n, b.tag) == SIZE_MAX, "content", "a live block changed");
                    umf_memory_pool_handle_t h = umfPoolByPtr(b.p + rnd(b.n));
                    PCHECK(c, h == (b.pool ? inner : outer), "bypt", "a byte of a live block of the %s pool belongs to %s", b.pool ? "inner" : "outer",
                           !h ? "no pool" : h == outer ? "the outer pool" : "another pool");
                    v[j] = v.back();
                    v.pop_back();
                    auto r3 = rnd(2) ? umfFree(b.p) : umfPoolFree(b.pool ? inner : outer, b.p);
                    PCHECK(c, r3 == UMF_RESULT_SUCCESS, "free", "free: %s", rs(r3));
                }
            }
            for (auto &b : v) {
                PCHECK(c, verify(b.p, b.n, b.tag) == SIZE_MAX, "content", "a live block changed");
                PCHECK(c, umfPoolFree(b.pool ? inner : outer, b.p) == UMF_RESULT_SUCCESS, "free", "free");
            }
            umfPoolDestroy(inner);
            umfMemoryProviderDestroy(ip);
        });
    for (auto &t : ts)
        t.join();
    umfPoolDestroy(outer);
    if (s.kind == 0) {
        PCHECK(c, s.mock.bad == 0, "badfree", "%llu bad frees", (unsigned long long)s.mock.bad);
        PCHECK(c, s.mock.live.empty(), "leak", "%zu provider blocks are left", s.mock.live.size());
    }
    umfMemoryProviderDestroy(s.prov);
    if (nops >= 30)
        c.nontrivial();
}

// ------------------------------------------------ statistics
// The mappings are bookkept only (no system call), so that the threads meet
// in the accounting instead of in the kernel.
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
}
namespace fm {
static std::atomic<bool> on{false};
static char *lo = nullptr, *hi = nullptr;
static std::atomic<size_t> cur{0};
static std::atomic<unsigned> refuse{0}, cnt{0}, refuseUn{0}, cntUn{0};
} // namespace fm
extern "C" void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
    if (fm::on && fd == -1) {
        unsigned r = fm::refuse;
        if (r && ++fm::cnt % r == 0) {
            errno = ENOMEM;
            return MAP_FAILED;
        }
        return fm::lo + fm::cur.fetch_add(up(n, 4096)) % (size_t)(fm::hi - fm::lo - (4 << 20)) / 4096 * 4096; // the memory is never touched
    }
    return __real_mmap(a, n, prot, fl, fd, o);
}
extern "C" int __wrap_munmap(void *a, size_t n) {
    if (fm::lo && (char *)a >= fm::lo && (char *)a < fm::hi && fm::on) {
        unsigned r = fm::refuseUn;
        if (r && ++fm::cntUn % r == 0) {
            errno = ENOMEM;
            return -1;
        }
        return 0;
    }
    return __real_munmap(a, n);
}
struct Meet { // sense-reversing barrier; spins, the rounds are short
    std::atomic<unsigned> n{0}, sense{0};
    unsigned all;
    explicit Meet(unsigned a) : all(a) {}
    void operator()() {
        unsigned s = sense;
        if (++n == all) {
            n = 0;
            sense = s + 1;
        } else
            for (unsigned k = 0; sense == s; ++k)
                if (k > 300)
                    sched_yield();
    }
};
static void stats(pbt::Ctx &c) {
    umf_os_memory_provider_params_handle_t pp;
    PCHECK(c, umfOsMemoryProviderParamsCreate(&pp) == UMF_RESULT_SUCCESS, "params", "params");
    umf_memory_provider_handle_t p = nullptr;
    PCHECK(c, umfMemoryProviderCreate(umfOsMemoryProviderOps(), pp, &p) == UMF_RESULT_SUCCESS, "create", "create");
    umfOsMemoryProviderParamsDestroy(pp);
    const size_t R = 1ull << 30;
    fm::lo = (char *)__real_mmap(nullptr, R, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (fm::lo == MAP_FAILED)
        c.discard("no address space");
    fm::hi = fm::lo + R;
    fm::refuse = (unsigned)c.oneof<unsigned>({0, 0, 3, 7});
    fm::refuseUn = (unsigned)c.oneof<unsigned>({0, 0, 3, 7});
    const unsigned nt = (unsigned)c.range(2, 4), rounds = (unsigned)c.range(100, c.thorough ? 3000 : 800);
    struct Phase {
        unsigned allocs, frees;
        bool reset;
    };
    // a round: every thread allocates, then all look; every thread frees, then all look
    std::vector<Phase> ph;
    for (size_t i = 0, n = c.range(1, 5); i < n; ++i)
        ph.push_back({(unsigned)c.range(0, 3), (unsigned)c.range(0, 3), c.chance(1, 3)});
    ph[0].allocs = std::max(1u, ph[0].allocs);
    const size_t maxsz = c.pow2(0, 20);
    const uint64_t seed = c.range(0, 1ull << 40);
    c.op();
    c.note("%u threads, %u rounds, %zu phases, sizes <= %zu, refusing %u/%u", nt, rounds, ph.size(), maxsz, fm::refuse.load(), fm::refuseUn.load());
    fm::on = true;
    Meet meet(nt);
    std::vector<std::atomic<uint64_t>> sum(nt); // what each thread holds
    for (auto &s : sum)
        s = 0;
    uint64_t peak = 0, raced = 0;
    std::atomic<bool> stop{false};
    std::string err;
    auto look = [&](const char *when, bool onlyAllocs) { // all others wait
        uint64_t all = 0, a = ~0ull, k = ~0ull;
        for (auto &s : sum)
            all += s;
        umf_result_t r1 = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", p, &a), r2 = umfCtlGet("umf.provider.by_handle.stats.peak_memory", p, &k);
        char b[200] = "";
        if (r1 != UMF_RESULT_SUCCESS || r2 != UMF_RESULT_SUCCESS)
            snprintf(b, sizeof b, "ctl|%s: reading the statistics fails", when);
        else if (a != all)
            snprintf(b, sizeof b, "allocated|%s: allocated_memory is %llu, %llu bytes are live", when, (unsigned long long)a, (unsigned long long)all);
        else if (onlyAllocs && k != std::max(peak, all))
            snprintf(b, sizeof b, "peak|%s: peak_memory is %llu, %llu bytes are live and the peak was %llu before", when, (unsigned long long)k, (unsigned long long)all,
                     (unsigned long long)peak);
        else if (!onlyAllocs && k != peak)
            snprintf(b, sizeof b, "peak|%s: peak_memory is %llu after frees, it was %llu", when, (unsigned long long)k, (unsigned long long)peak);
        if (onlyAllocs && all > peak)
            raced++;
        peak = k;
        if (b[0] && err.empty()) {
            err = b;
            stop = true;
        }
    };
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            uint64_t x = seed * 977 + t * 7919 + 1;
            auto rnd = [&](uint64_t n) { return x ^= x << 13, x ^= x >> 7, x ^= x << 17, x % n; };
            std::vector<std::pair<void *, size_t>> v;
            for (unsigned r = 0; r < rounds; ++r) {
                const Phase &f = ph[r % ph.size()];
                meet();
                if (stop)
                    break;
                for (unsigned i = 0; i < f.allocs; ++i) {
                    size_t n = 1 + rnd(maxsz);
                    void *q = nullptr;
                    if (umfMemoryProviderAlloc(p, n, 0, &q) == UMF_RESULT_SUCCESS) {
                        v.push_back({q, n});
                        sum[t] += n;
                    }
                }
                meet();
                if (t == 0)
                    look("after allocations", true);
                meet();
                for (unsigned i = 0; i < f.frees && !v.empty(); ++i) {
                    size_t j = rnd(v.size());
                    if (umfMemoryProviderFree(p, v[j].first, v[j].second) == UMF_RESULT_SUCCESS) {
                        sum[t] -= v[j].second;
                        v[j] = v.back();
                        v.pop_back();
                    }
                }
                meet();
                if (t == 0) {
                    look("after frees", false);
                    if (f.reset && !stop) {
                        umfCtlExec("umf.provider.by_handle.stats.reset", p, &peak);
                        peak = 0;
                        for (auto &s : sum)
                            peak += s;
                        look("after a reset", false);
                    }
                }
            }
        });
    for (auto &t : ts)
        t.join();
    fm::on = false;
    if (!err.empty()) {
        size_t k = err.find('|');
        c.fail(("stats." + err.substr(0, k)).c_str(), "%s", err.c_str() + k + 1);
    }
    umfMemoryProviderDestroy(p);
    if (raced >= 100)
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C22",
                         "pools: 50 allocations and a block freed by another thread; providers: some splits; nested: 30 operations per thread; stats: 100 rounds that raised the peak",
                         {{"pools", pools, 12000, 300000, 30, true}, {"providers", providers, 6000, 150000, 30, true}, {"nested", nested, 6000, 150000, 30, true}, {"stats", stats, 3000, 60000, 30, true}});
}

// C03: what a disjoint pool keeps, and when it goes to its provider.
#include "umfh.hpp"
#include <atomic>
#include <thread>
using namespace h;

static size_t bucket_of(size_t size, size_t minBucket) {
    size_t b = std::max<size_t>(minBucket, 8);
    // 8, 12, 16, 24, 32, ...
    while (true) {
        if (size <= b)
            return b;
        if (size <= b + b / 2)
            return b + b / 2;
        b *= 2;
    }
}

struct Slab {
    size_t bucket, total, live, size;
};
struct P {
    Mock *mock = new Mock;
    umf_memory_provider_ops_t ops;
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    DPar d;
    std::map<uintptr_t, Slab> slabs;
    std::map<uintptr_t, size_t> direct;
    Model m;
    size_t pooledBytes() const {
        size_t n = 0;
        for (auto &s : slabs)
            if (!s.second.live)
                n += s.second.size;
        return n;
    }
};

static void limits(Ctx &c) {
    unsigned np = (unsigned)c.range(1, 3);
    bool shared = c.chance(2, 3);
    size_t limit = SIZE_MAX;
    umf_disjoint_pool_shared_limits_handle_t lim = nullptr;
    if (shared) {
        limit = c.chance(1, 2) ? 65536 * c.range(0, 12) : c.size(4u << 20);
        lim = umfDisjointPoolSharedLimitsCreate(limit);
        PCHECK(c, lim, "limits.create", "shared limits");
    }
    std::vector<P> ps(np);
    DPar first;
    for (unsigned i = 0; i < np; i++) {
        P &p = ps[i];
        p.ops = mock_ops(true);
        p.mock->open(&c, 2ull << 30, 4096);
        p.mock->place = (unsigned)c.range(0, 2);
        p.mock->keepLog = true;
        p.prov = mock_provider(c, p.mock, &p.ops);
        p.d = gen_dpar(c);
        if (i == 0)
            first = p.d;
        else if (c.chance(1, 2))
            p.d = first;
        auto hp = disjoint_params(p.d, lim);
        umf_result_t r = umfPoolCreate(umfDisjointPoolOps(), p.prov, hp, 0, &p.pool);
        umfDisjointPoolParamsDestroy(hp);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "pool.create", "%s", rs(r));
        c.note("pool %u: slab_min=%zu max_poolable=%zu capacity=%zu min_bucket=%zu limit=%zd", i, p.d.slabMin,
               p.d.maxPool, p.d.capacity, p.d.minBucket, (ssize_t)limit);
    }
    auto pooledAll = [&](const P *only) {
        size_t n = 0;
        for (auto &p : ps)
            if (p.pool && (shared || &p == only))
                n += p.pooledBytes();
        return n;
    };
    std::vector<size_t> classes;
    for (unsigned i = 0, n = (unsigned)c.range(1, 4); i < n; i++)
        classes.push_back(c.size(c.chance(1, 4) ? (1u << 20) : 40000));
    unsigned nops = (unsigned)c.range(1, c.thorough ? 220 : 120);
    unsigned keeps = 0, returns = 0, reuses = 0, directs = 0, limited = 0, capped = 0;
    size_t liveBytes = 0;
    std::vector<unsigned> wts = {(unsigned)c.range(2, 6), (unsigned)c.range(2, 8), 1};
    bool failing = false;
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        P &p = ps[c.index_of(np)];
        if (!p.pool)
            continue;
        switch (c.weighted(wts)) {
        case 0: {
            size_t s = c.chance(4, 5) ? c.pick(classes) : c.size(c.chance(1, 8) ? (2u << 20) : 70000);
            if (liveBytes + s > (64u << 20))
                break;
            if (c.chance(1, 20)) {
                failing = !failing;
                for (auto &q : ps)
                    q.mock->failAllAllocs = failing;
            }
            p.mock->allocLog.clear();
            p.mock->freeLog.clear();
            uint64_t tried = p.mock->nalloc;
            bool isDirect = s > p.d.maxPool;
            size_t B = isDirect ? 0 : bucket_of(s, p.d.minBucket);
            bool avail = false;
            for (auto &sl : p.slabs)
                avail |= sl.second.bucket == B && sl.second.live < sl.second.total;
            avail &= !isDirect;
            void *q = umfPoolMalloc(p.pool, s);
            c.note("pool %zu: malloc(%zu)=%p%s", (size_t)(&p - &ps[0]), s, q, failing ? " (provider exhausted)" : "");
            if (!q) {
                PCHECK(c, failing && !avail, "malloc.null", "malloc(%zu) failed although %s", s,
                       avail ? "a pooled chunk of its size class is free" : "the provider can serve it");
                break;
            }
            PCHECK(c, !failing || avail, "malloc.magic", "malloc(%zu) succeeded without memory", s);
            uintptr_t a = (uintptr_t)q;
            auto *o = p.m.overlap(a, s);
            PCHECK(c, !o, "overlap", "%p..+%zu overlaps a live block", q, s);
            PCHECK(c, p.mock->freeLog.empty(), "malloc.frees", "an allocation returned memory to the provider");
            if (isDirect) {
                PCHECK(c, p.mock->allocLog.size() == 1 && p.mock->allocLog[0].first == a && p.mock->allocLog[0].second == s,
                       "direct", "a request of %zu bytes above max_poolable_size %zu was not passed to the provider as is",
                       s, p.d.maxPool);
                p.direct[a] = s;
                directs++;
            } else if (avail) {
                PCHECK(c, p.mock->nalloc == tried, "reuse",
                       "malloc(%zu) went to the provider although a chunk of %zu bytes is free in the pool", s, B);
                reuses++;
            } else {
                size_t want = std::max(B, p.d.slabMin);
                PCHECK(c, p.mock->allocLog.size() == 1 && p.mock->allocLog[0].second == want, "slab.size",
                       "malloc(%zu) made %zu provider allocations, expected one of %zu bytes", s,
                       p.mock->allocLog.size(), want);
                p.slabs[p.mock->allocLog[0].first] = {B, std::max<size_t>(p.d.slabMin / B, 1), 0, want};
            }
            size_t us = umfPoolMallocUsableSize(p.pool, q);
            if (!isDirect) {
                auto it = p.slabs.upper_bound(a);
                PCHECK(c, it != p.slabs.begin(), "slab.none", "%p is in no slab", q);
                --it;
                Slab &sl = it->second;
                PCHECK(c, a + B <= it->first + sl.size && sl.bucket == B, "slab.other",
                       "malloc(%zu)=%p is not inside a slab of its size class %zu", s, q, B);
                PCHECK(c, us == B, "class", "usable size of a %zu-byte block is %zu, its size class is %zu", s, us, B);
                PCHECK(c, sl.live < sl.total, "slab.over", "slab holds more blocks than it has chunks");
                sl.live++;
            }
            p.m.live[a] = {s, 0, 0, us};
            liveBytes += s;
            break;
        }
        case 1: {
            unsigned n = (unsigned)c.range(1, 8);
            for (unsigned k = 0; k < n && !p.m.live.empty(); k++) {
                uintptr_t a = p.m.nth(c.chance(1, 2) ? p.m.live.size() - 1 : c.index_of(p.m.live.size()));
                liveBytes -= p.m.live[a].size;
                p.m.live.erase(a);
                p.mock->allocLog.clear();
                p.mock->freeLog.clear();
                size_t others = pooledAll(&p);
                umf_result_t r = umfPoolFree(p.pool, (void *)a);
                c.note("pool %zu: free(%p)", (size_t)(&p - &ps[0]), (void *)a);
                PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free: %s", rs(r));
                PCHECK(c, p.mock->allocLog.empty(), "free.allocs", "a free allocated provider memory");
                auto di = p.direct.find(a);
                if (di != p.direct.end()) {
                    PCHECK(c, p.mock->freeLog.size() == 1 && p.mock->freeLog[0].first == a &&
                                  p.mock->freeLog[0].second == di->second,
                           "direct.free", "a block above max_poolable_size was not returned to the provider when freed");
                    p.direct.erase(di);
                    continue;
                }
                auto it = std::prev(p.slabs.upper_bound(a));
                Slab &sl = it->second;
                sl.live--;
                if (sl.live) {
                    PCHECK(c, p.mock->freeLog.empty(), "free.partial",
                           "the provider was called although the slab still has live blocks");
                    continue;
                }
                size_t empties = 0;
                for (auto &x : p.slabs)
                    empties += x.second.bucket == sl.bucket && !x.second.live;
                empties--; // this one
                size_t cap = sl.bucket <= p.d.slabMin / 2 ? 1 : p.d.capacity;
                bool fitsCap = empties < cap;
                bool fitsLim = limit == SIZE_MAX || others + sl.size <= limit;
                if (fitsCap && fitsLim) {
                    PCHECK(c, p.mock->freeLog.empty(), "keep",
                           "an empty slab was returned to the provider although the pool may keep it (%zu of %zu kept, "
                           "%zu + %zu of %zu bytes)",
                           empties, cap, others, sl.size, limit);
                    keeps++;
                } else {
                    PCHECK(c, p.mock->freeLog.size() == 1 && p.mock->freeLog[0].first == it->first, "limit",
                           "an empty slab was kept although %s (%zu of %zu kept, %zu + %zu of %zu bytes)",
                           !fitsCap ? "the capacity is used up" : "the limit is reached", empties, cap, others, sl.size,
                           limit);
                    p.slabs.erase(it);
                    returns++;
                    (fitsCap ? limited : capped)++;
                }
            }
            break;
        }
        case 2: {
            if (np > 1 && c.chance(1, 4)) { // a pool goes away; its part of the limits is free again
                unsigned alive = 0;
                for (auto &q : ps)
                    alive += q.pool != nullptr;
                if (alive < 2)
                    break;
                while (!p.m.live.empty()) {
                    uintptr_t a = p.m.nth(0);
                    liveBytes -= p.m.live[a].size;
                    p.m.live.erase(a);
                    PCHECK(c, umfPoolFree(p.pool, (void *)a) == UMF_RESULT_SUCCESS, "free", "free failed");
                }
                c.note("pool %zu: destroy", (size_t)(&p - &ps[0]));
                umfPoolDestroy(p.pool);
                PCHECK(c, p.mock->live.empty(), "destroy.leak", "%zu provider allocations left", p.mock->live.size());
                umfMemoryProviderDestroy(p.prov);
                p.pool = nullptr;
                p.slabs.clear();
                p.direct.clear();
                c.label("pool.destroyed");
            }
            break;
        }
        }
        // live provider bytes are exactly the slabs and the direct blocks
        size_t expect = 0;
        for (auto &s : p.slabs)
            expect += s.second.size;
        for (auto &s : p.direct)
            expect += s.second;
        PCHECK(c, p.mock->liveBytes == expect, "bytes", "the pool holds %zu provider bytes, expected %zu",
               (size_t)p.mock->liveBytes, expect);
    }
    for (auto &p : ps) {
        if (!p.pool)
            continue;
        for (auto &b : p.m.live)
            PCHECK(c, umfPoolFree(p.pool, (void *)b.first) == UMF_RESULT_SUCCESS, "free", "final free failed");
        umfPoolDestroy(p.pool);
        PCHECK(c, p.mock->live.empty(), "destroy.leak", "%zu provider allocations left", p.mock->live.size());
        umfMemoryProviderDestroy(p.prov);
    }
    if (lim)
        umfDisjointPoolSharedLimitsDestroy(lim);
    if (keeps && reuses)
        c.nontrivial();
    if (limited)
        c.label("returned.limit");
    if (capped)
        c.label("returned.capacity");
    if (keeps)
        c.label("kept");
    if (directs)
        c.label("direct");
    (void)returns;
}

// ---- several threads under one limit ---------------------------------------
namespace fast { // a provider that only counts
static std::atomic<uint64_t> held{0}, frees{0};
static umf_result_t init(void *, void **out) {
    *out = (void *)&held;
    return UMF_RESULT_SUCCESS;
}
static void fini(void *) {}
static umf_result_t alloc(void *, size_t size, size_t al, void **p) {
    if (posix_memalign(p, std::max<size_t>(al, 64), size))
        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    held += size;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t free_(void *, void *p, size_t size) {
    held -= size;
    frees++;
    free(p);
    return UMF_RESULT_SUCCESS;
}
static void err(void *, const char **m, int32_t *e) {
    *m = "";
    *e = 0;
}
static umf_result_t page(void *, size_t, size_t *ps) {
    *ps = 4096;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t minpage(void *, void *, size_t *ps) {
    *ps = 4096;
    return UMF_RESULT_SUCCESS;
}
static const char *name(void *) { return "fast"; }
static umf_memory_provider_ops_t ops() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = init;
    o.finalize = fini;
    o.alloc = alloc;
    o.free = free_;
    o.get_last_native_error = err;
    o.get_recommended_page_size = page;
    o.get_min_page_size = minpage;
    o.get_name = name;
    return o;
}
} // namespace fast

// Rounds of threads that take blocks and give them all back at once: what is then held by the providers is what is
// kept, and that is never above the limit. In the end the limit is as good as new.
static void threads(Ctx &c) {
    size_t nt = (size_t)c.range(2, 6), rounds = (size_t)c.range(3, 25);
    size_t slab = (size_t)4096 << c.range(0, 2), each = (size_t)c.range(1, 6);
    bool own = c.chance(1, 2); // pools of their own
    bool mixed = c.chance(1, 3); // sizes of several buckets
    size_t limit = slab * c.range(0, nt * each) + (c.chance(1, 3) ? c.range(1, slab - 1) : 0);
    fast::held = 0;
    fast::frees = 0;
    static umf_memory_provider_ops_t ops = fast::ops();
    auto *lim = umfDisjointPoolSharedLimitsCreate(limit);
    PCHECK(c, lim, "limits.create", "shared limits");
    std::vector<umf_memory_pool_handle_t> pools;
    auto make = [&] {
        umf_memory_provider_handle_t pr = nullptr;
        umf_memory_pool_handle_t pl = nullptr;
        umf_disjoint_pool_params_handle_t dp = nullptr;
        PCHECK(c, umfMemoryProviderCreate(&ops, nullptr, &pr) == UMF_RESULT_SUCCESS && umfDisjointPoolParamsCreate(&dp) == UMF_RESULT_SUCCESS, "create", "create");
        umfDisjointPoolParamsSetSlabMinSize(dp, slab);
        umfDisjointPoolParamsSetMaxPoolableSize(dp, 4 * slab);
        umfDisjointPoolParamsSetCapacity(dp, 4096);
        umfDisjointPoolParamsSetMinBucketSize(dp, 64);
        umfDisjointPoolParamsSetSharedLimits(dp, lim);
        umf_result_t r = umfPoolCreate(umfDisjointPoolOps(), pr, dp, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &pl);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "create", "pool: %s", rs(r));
        umfDisjointPoolParamsDestroy(dp);
        return pl;
    };
    for (size_t i = 0; i < (own ? nt : 1); i++)
        pools.push_back(make());
    std::atomic<size_t> at{0};
    std::atomic<int> bad{0};
    std::atomic<uint64_t> worst{0}, sum{0};
    auto meet = [&](size_t k) { // the k-th time all threads meet
        at++;
        for (unsigned spin = 0; at < nt * k && !bad; spin++)
            if (spin > 300)
                std::this_thread::yield();
    };
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            umf_memory_pool_handle_t pl = pools[own ? t : 0];
            size_t size = mixed ? slab << (t % 3) : slab;
            std::vector<void *> b(each);
            size_t k = 0;
            for (size_t r = 0; r < rounds && !bad; r++) {
                for (auto &x : b)
                    if (!(x = umfPoolMalloc(pl, size)))
                        bad = 1;
                meet(++k);
                for (auto x : b)
                    if (x && umfPoolFree(pl, x))
                        bad = 2;
                meet(++k);
                if (t == 0) {
                    uint64_t kept = fast::held;
                    sum += kept;
                    if (kept > limit) {
                        worst = kept;
                        bad = 3;
                    }
                }
                meet(++k);
            }
        });
    for (auto &t : th)
        t.join();
    PCHECK(c, bad != 1, "alloc", "an allocation failed");
    PCHECK(c, bad != 2, "free", "a free failed");
    PCHECK(c, bad != 3, "limit", "%llu bytes are kept under a shared limit of %zu (blocks of %zu, %zu threads)", (unsigned long long)worst.load(), limit, slab, nt);
    for (auto p : pools)
        umfPoolDestroy(p);
    PCHECK(c, fast::held == 0, "leak", "%llu bytes are left after the pools are gone", (unsigned long long)fast::held.load());
    { // all of the limit is there again
        umf_memory_pool_handle_t pl = make();
        size_t n = limit / slab + 2;
        std::vector<void *> b;
        for (size_t i = 0; i < n; i++)
            b.push_back(umfPoolMalloc(pl, slab));
        for (auto x : b)
            PCHECK(c, umfPoolFree(pl, x) == UMF_RESULT_SUCCESS, "free", "free");
        PCHECK(c, fast::held == limit / slab * slab, "balance", "%llu bytes are kept after the other pools are gone, the limit is %zu", (unsigned long long)fast::held.load(), limit);
        umfPoolDestroy(pl);
        c.label("limit used again");
    }
    umfDisjointPoolSharedLimitsDestroy(lim);
    if (fast::frees)
        c.label("refused to keep, in threads");
    if (sum && fast::frees)
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C03",
                         "one to three disjoint pools with random parameters, optionally sharing limits, over "
                         "recording providers that can be exhausted: every provider call is predicted by a model of "
                         "slabs, capacity and limits; suite threads: several threads under one limit; non-trivial: a slab was kept and a pooled chunk was reused (threads: memory was kept and some could not be)",
                         {{"limits", limits, 30000, 300000}, {"threads", threads, 1200, 12000, 60, true}});
}

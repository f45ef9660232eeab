// C01: integrity of the blocks a disjoint pool hands out.
// C03 lives in c03_limits.cpp.
#include "poolw.hpp"
using namespace h;

static void disjoint(Ctx &c) {
    World w(c);
    make_provider(w);
    w.d = gen_dpar(c);
    if (w.kind != 0) {
        w.d.slabMin = std::min<size_t>(w.d.slabMin, 1u << 20);
        w.d.maxPool = std::min<size_t>(w.d.maxPool, 1u << 20);
    }
    if (c.chance(1, 4)) {
        w.d.limit = c.size(16u << 20);
        w.lim = umfDisjointPoolSharedLimitsCreate(w.d.limit);
    }
    auto hp = disjoint_params(w.d, w.lim);
    w.tracked = !c.chance(1, 12);
    if (!w.tracked)
        c.label("untracked");
    if (w.kind == 0 && c.chance(1, 6)) { // a provider of small, barely aligned pieces
        w.mock.page = c.pow2(4, 11);
        w.mock.bump = w.mock.page;
        w.mock.protect = false;
        mprotect(w.mock.arena, w.mock.cap, PROT_READ | PROT_WRITE);
        c.label("small pages");
    }
    if (w.kind == 0 && c.chance(1, 6)) { // which need not say how small
        w.mock.minCode = c.oneof<umf_result_t>({UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, UMF_RESULT_ERROR_UNKNOWN});
        c.label("no page size");
    }
    // the pool cannot free the blocks it has no slab for when it is not tracked
    size_t top = !w.tracked && c.known("C01-untracked-large") ? w.d.maxPool : SIZE_MAX;
    umf_result_t r = umfPoolCreate(umfDisjointPoolOps(), w.prov, hp, w.tracked ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING, &w.pool);
    umfDisjointPoolParamsDestroy(hp);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "pool.create", "pool create: %s", rs(r));
    c.note("provider=%s page=%zu slab_min=%zu max_poolable=%zu capacity=%zu "
           "min_bucket=%zu limit=%zd",
           (const char *[]){"mock", "os", "fixed", "file"}[w.kind], w.mock.page,
           w.d.slabMin, w.d.maxPool, w.d.capacity, w.d.minBucket,
           (ssize_t)w.d.limit);
    size_t budget = w.kind == 2 ? (8u << 20) : (64u << 20), liveBytes = 0;
    unsigned nops = (unsigned)c.range(1, c.thorough ? 220 : 120);
    unsigned frees = 0, aligneds = 0, reuse = 0;
    // a case works on a handful of size classes so that slabs fill up
    std::vector<size_t> classes;
    for (unsigned i = 0, n = (unsigned)c.range(1, 4); i < n; i++)
        classes.push_back(c.size(c.chance(1, 5) ? (4u << 20) : 20000));
    std::vector<unsigned> wts = {(unsigned)c.range(2, 8), (unsigned)c.range(0, 6),
                                 (unsigned)c.range(1, 8), 1, 1, 1, 1};
    std::set<uintptr_t> freed;
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted(wts)) {
        case 0: {
            size_t s = c.chance(3, 4) ? c.pick(classes) : c.size(c.chance(1, 8) ? (8u << 20) : 70000);
            if (liveBytes + s > budget || s > top)
                break;
            void *p = umfPoolMalloc(w.pool, s);
            c.note("malloc(%zu) = %p", s, p);
            if (!p) {
                umf_result_t e = umfPoolGetLastAllocationError(w.pool);
                PCHECK(c, w.kind == 2, "malloc.null",
                       "malloc(%zu) failed (%s) although the provider can serve it",
                       s, rs(e));
                break;
            }
            check_block(w, p, s, 0);
            liveBytes += s;
            if (freed.count((uintptr_t)p))
                reuse++;
            break;
        }
        case 1: {
            size_t s = c.chance(1, 2) ? c.pick(classes) : c.size(c.chance(1, 8) ? (4u << 20) : 70000);
            size_t al = c.pow2(0, c.chance(1, 4) ? 21 : 13);
            if (liveBytes + s > budget || s + al > top)
                break;
            void *p = umfPoolAlignedMalloc(w.pool, s, al);
            c.note("aligned_malloc(%zu, %zu) = %p", s, al, p);
            if (!p) {
                umf_result_t e = umfPoolGetLastAllocationError(w.pool);
                PCHECK(c, w.kind == 2, "aligned.null",
                       "aligned_malloc(%zu, %zu) failed (%s) although the "
                       "provider can serve it",
                       s, al, rs(e));
                break;
            }
            check_block(w, p, s, al);
            liveBytes += s;
            aligneds++;
            c.label(al > w.mock.page ? "aligned>page" : "aligned<=page");
            break;
        }
        case 2: {
            if (w.m.live.empty())
                break;
            unsigned n = (unsigned)c.range(1, 6);
            for (unsigned k = 0; k < n && !w.m.live.empty(); k++) {
                size_t idx = c.chance(1, 3) ? w.m.live.size() - 1 : c.index_of(w.m.live.size());
                uintptr_t a = w.m.nth(idx);
                liveBytes -= w.m.live[a].size;
                freed.insert(a);
                c.note("free(%p)", (void *)a);
                do_free(w, a, c.chance(1, 3));
                frees++;
            }
            break;
        }
        case 3: { // inspect a live block
            if (w.m.live.empty())
                break;
            uintptr_t a = w.m.nth(c.index_of(w.m.live.size()));
            Block &b = w.m.live[a];
            size_t us = umfPoolMallocUsableSize(w.pool, (void *)a);
            PCHECK(c, us == b.usable, "usable.changed",
                   "usable size of %p changed from %zu to %zu", (void *)a, b.usable, us);
            size_t bad = verify((void *)a, b.usable, b.tag);
            PCHECK(c, bad == SIZE_MAX, "content", "block %p changed at %zu", (void *)a, bad);
            break;
        }
        case 4: { // requests that cannot be served leave the pool as it was
            size_t s = c.chance(1, 2) ? SIZE_MAX - c.range(0, 70000)
                                      : ((size_t)1 << c.range(48, 63)) + c.range(0, 3) - 1;
            size_t al = c.pow2(0, 24);
            bool useAl = c.chance(1, 2);
            void *p = useAl ? umfPoolAlignedMalloc(w.pool, s, al) : umfPoolMalloc(w.pool, s);
            c.note("%s(%zu,%zu) = %p", useAl ? "aligned_malloc" : "malloc", s, al, p);
            PCHECK(c, !p, "huge.nonnull",
                   "a request for %zu bytes (alignment %zu) returned %p", s, useAl ? al : 0, p);
            umf_result_t e = umfPoolGetLastAllocationError(w.pool);
            PCHECK(c, e != UMF_RESULT_SUCCESS && valid_code(e), "huge.error",
                   "failed request left the allocation error %d", (int)e);
            c.label("huge");
            break;
        }
        case 5: {
            void *p = umfPoolMalloc(w.pool, 0);
            PCHECK(c, !p, "zero", "malloc(0) returned %p", p);
            umf_result_t r0 = umfPoolFree(w.pool, nullptr);
            PCHECK(c, r0 == UMF_RESULT_SUCCESS, "free.null", "free(NULL): %s", rs(r0));
            break;
        }
        case 6: {
            if (w.m.live.empty() || w.kind)
                break;
            uintptr_t a = w.m.nth(c.index_of(w.m.live.size()));
            size_t s = w.m.live[a].size;
            if (!refused_free(w, a, s > w.d.maxPool))
                liveBytes -= s;
            break;
        }
        }
    }
    // every live block is still intact, then everything goes back
    unsigned mode = (unsigned)c.range(0, 2);
    while (!w.m.live.empty()) {
        size_t n = w.m.live.size();
        do_free(w, w.m.nth(mode == 0 ? 0 : mode == 1 ? n - 1 : n / 2), false);
    }
    umfPoolDestroy(w.pool);
    check_returned(w);
    umfMemoryProviderDestroy(w.prov);
    if (w.lim)
        umfDisjointPoolSharedLimitsDestroy(w.lim);
    if (frees >= 2 && (aligneds || reuse))
        c.nontrivial();
    if (reuse)
        c.label("reuse");
    c.label((const char *[]){"prov.mock", "prov.os", "prov.fixed", "prov.file"}[w.kind]);
}

int main(int argc, char **argv) {
    return pbt::run_main(
        argc, argv, "C01",
        "random disjoint-pool parameters, provider (recording mock with "
        "adjacent/LIFO/bump placement, OS, fixed, file) and a history of "
        "malloc/aligned_malloc/free/inspect/unservable requests against a model "
        "of live blocks; non-trivial: at least two frees and an aligned block or "
        "a reused address",
        {{"disjoint", disjoint, 24000, 260000}});
}

// C02: the malloc family of the scalable and the proxy pool (and of pools
// over every kind of host provider): alignment, disjointness, zeroing,
// content preservation, error reporting, return of memory.
#include "poolw.hpp"
using namespace h;

static void finish(World &w) {
    Ctx &c = w.c;
    while (!w.m.live.empty())
        do_free(w, w.m.nth(c.chance(1, 2) ? 0 : w.m.live.size() - 1), false);
    umfPoolDestroy(w.pool);
    check_returned(w);
    umfMemoryProviderDestroy(w.prov);
}

static void must_be_error(World &w, const char *what) {
    umf_result_t e = umfPoolGetLastAllocationError(w.pool);
    PCHECK(w.c, e != UMF_RESULT_SUCCESS && valid_code(e), "err.code",
           "%s returned NULL but the last allocation error is %d", what, (int)e);
}

static void scalable(Ctx &c) {
    World w(c);
    make_provider(w, (int)c.weighted({5, 2, 0, 1}));
    w.mock.maxSize = (size_t)1 << 31;
    umf_scalable_pool_params_handle_t sp = nullptr;
    bool useParams = c.chance(1, 2);
    size_t gran = 2u << 20;
    bool keep = false;
    if (useParams) {
        PCHECK(c, umfScalablePoolParamsCreate(&sp) == UMF_RESULT_SUCCESS, "params", "params create");
        gran = c.oneof<size_t>({4096, 65536, 1u << 20, 2u << 20, 4u << 20});
        keep = c.chance(1, 2);
        umfScalablePoolParamsSetGranularity(sp, gran);
        umfScalablePoolParamsSetKeepAllMemory(sp, keep);
    }
    w.tracked = !c.chance(1, 10);
    if (!w.tracked)
        c.label("untracked");
    umf_result_t r = umfPoolCreate(umfScalablePoolOps(), w.prov, sp, w.tracked ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING, &w.pool);
    if (sp)
        umfScalablePoolParamsDestroy(sp);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "pool.create", "pool create: %s", rs(r));
    c.note("provider=%s page=%zu granularity=%zu keep=%d", w.kind == 0 ? "mock" : w.kind == 1 ? "os" : "file",
           w.mock.page, gran, keep);
    size_t budget = 48u << 20, liveBytes = 0;
    unsigned nops = (unsigned)c.range(1, c.thorough ? 200 : 100);
    bool failing = false;
    unsigned reallocs = 0, frees = 0, callocs = 0, oom = 0;
    std::set<uintptr_t> freed;
    size_t reuse = 0;
    size_t cls = c.size(30000);
    auto sz = [&]() { return c.chance(1, 2) ? cls : c.size(c.chance(1, 6) ? (6u << 20) : 40000); };
    std::vector<unsigned> wts = {(unsigned)c.range(1, 6), (unsigned)c.range(0, 5), (unsigned)c.range(0, 5),
                                 (unsigned)c.range(0, 5), (unsigned)c.range(1, 8), 1, 1, 1, 1};
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        if (w.kind == 0 && c.chance(1, 16)) {
            failing = !failing;
            w.mock.failAllAllocs = failing;
            c.note("provider %s", failing ? "exhausted" : "available");
        }
        switch (c.weighted(wts)) {
        case 0: {
            size_t s = sz();
            if (liveBytes + s > budget)
                break;
            void *p = umfPoolMalloc(w.pool, s);
            c.note("malloc(%zu)=%p", s, p);
            if (!p) {
                PCHECK(c, failing, "malloc.null", "malloc(%zu) failed although the provider can serve it", s);
                must_be_error(w, "malloc");
                oom++;
                break;
            }
            check_block(w, p, s, 0);
            reuse += freed.count((uintptr_t)p);
            liveBytes += s;
            break;
        }
        case 1: {
            size_t n = c.range(1, 64), s = c.size(c.chance(1, 4) ? 50000 : 600);
            if (c.chance(1, 2))
                std::swap(n, s);
            if (liveBytes + n * s > budget)
                break;
            void *p = umfPoolCalloc(w.pool, n, s);
            c.note("calloc(%zu,%zu)=%p", n, s, p);
            if (!p) {
                PCHECK(c, failing, "calloc.null", "calloc(%zu,%zu) failed although the provider can serve it", n, s);
                must_be_error(w, "calloc");
                oom++;
                break;
            }
            for (size_t k = 0; k < n * s; k++)
                PCHECK(c, ((char *)p)[k] == 0, "calloc.zero", "byte %zu of calloc(%zu,%zu) is not zero", k, n, s);
            check_block(w, p, n * s, 0);
            reuse += freed.count((uintptr_t)p);
            liveBytes += n * s;
            callocs++;
            break;
        }
        case 2: {
            size_t s = sz(), al = c.pow2(0, c.chance(1, 4) ? 20 : 12);
            if (liveBytes + s > budget)
                break;
            void *p = umfPoolAlignedMalloc(w.pool, s, al);
            c.note("aligned_malloc(%zu,%zu)=%p", s, al, p);
            if (!p) {
                PCHECK(c, failing, "aligned.null", "aligned_malloc(%zu,%zu) failed although the provider can serve it", s, al);
                must_be_error(w, "aligned_malloc");
                oom++;
                break;
            }
            check_block(w, p, s, al);
            liveBytes += s;
            break;
        }
        case 3: { // realloc
            size_t s = sz();
            if (liveBytes + s > budget)
                break;
            if (w.m.live.empty() || c.chance(1, 8)) {
                void *p = umfPoolRealloc(w.pool, nullptr, s);
                c.note("realloc(NULL,%zu)=%p", s, p);
                if (!p) {
                    PCHECK(c, failing, "realloc.null", "realloc(NULL,%zu) failed", s);
                    must_be_error(w, "realloc");
                    break;
                }
                check_block(w, p, s, 0);
                liveBytes += s;
                break;
            }
            uintptr_t a = w.m.nth(c.index_of(w.m.live.size()));
            Block b = w.m.live[a];
            void *p = umfPoolRealloc(w.pool, (void *)a, s);
            c.note("realloc(%p (%zu),%zu)=%p", (void *)a, b.size, s, p);
            if (!p) {
                PCHECK(c, failing, "realloc.null", "realloc to %zu failed although the provider can serve it", s);
                must_be_error(w, "realloc");
                size_t bad = verify((void *)a, b.usable, b.tag);
                PCHECK(c, bad == SIZE_MAX, "realloc.fail.content", "a failed realloc changed the block at %zu", bad);
                oom++;
                break;
            }
            w.m.live.erase(a);
            liveBytes -= b.size;
            // prefix preserved (the fill pattern depends on the block's length
            // only above 16 KiB, where the first 2 KiB are always filled)
            size_t keepn = std::min(std::min(b.size, s), b.usable <= 16384 ? (size_t)16384 : (size_t)2048);
            auto *q = (unsigned char *)p;
            for (size_t k = 0; k < keepn; k++)
                PCHECK(c, q[k] == (unsigned char)(b.tag + k * 131 + (k >> 8)), "realloc.content",
                       "byte %zu changed in realloc from %zu to %zu bytes", k, b.size, s);
            if (b.usable > 16384)
                for (size_t k = 4096; k < b.usable && k < std::min(b.size, s) && k < b.usable - 2048; k += b.usable / 16 + 1)
                    PCHECK(c, q[k] == (unsigned char)(b.tag + k * 131 + (k >> 8)), "realloc.content",
                           "byte %zu changed in realloc from %zu to %zu bytes", k, b.size, s);
            check_block(w, p, s, 0);
            liveBytes += s;
            reallocs++;
            break;
        }
        case 4: {
            unsigned n = (unsigned)c.range(1, 5);
            for (unsigned k = 0; k < n && !w.m.live.empty(); k++) {
                uintptr_t a = w.m.nth(c.index_of(w.m.live.size()));
                c.note("free(%p)", (void *)a);
                liveBytes -= w.m.live[a].size;
                freed.insert(a);
                do_free(w, a, c.chance(1, 3));
                frees++;
            }
            break;
        }
        case 5: { // unservable
            unsigned k = (unsigned)c.range(0, 3);
            void *p;
            if (k == 0) {
                size_t n = (size_t)1 << c.range(1, 63);
                size_t s = SIZE_MAX / n + c.range(1, 4000);
                c.note("calloc(%zu,%zu): overflow", n, s);
                p = umfPoolCalloc(w.pool, n, s);
            } else if (k == 1) {
                size_t s = SIZE_MAX - c.range(0, 1 << 20);
                c.note("malloc(%zu)", s);
                p = umfPoolMalloc(w.pool, s);
            } else if (k == 2) {
                size_t s = ((size_t)1 << c.range(48, 62)) + c.range(0, 4096), al = c.pow2(0, 20);
                c.note("aligned_malloc(%zu,%zu)", s, al);
                p = umfPoolAlignedMalloc(w.pool, s, al);
            } else {
                size_t al = c.range(3, 1000) | 1;
                c.note("aligned_malloc(64,%zu): not a power of two", al);
                p = umfPoolAlignedMalloc(w.pool, 64, al);
            }
            PCHECK(c, !p, "huge.nonnull", "an unservable request (kind %u) returned %p", k, p);
            must_be_error(w, "unservable request");
            c.label("unservable");
            break;
        }
        case 6: {
            umf_result_t r0 = umfPoolFree(w.pool, nullptr);
            PCHECK(c, r0 == UMF_RESULT_SUCCESS, "free.null", "free(NULL): %s", rs(r0));
            break;
        }
        case 7: {
            if (w.m.live.empty())
                break;
            uintptr_t a = w.m.nth(c.index_of(w.m.live.size()));
            size_t bad = verify((void *)a, w.m.live[a].usable, w.m.live[a].tag);
            PCHECK(c, bad == SIZE_MAX, "content", "block %p changed at %zu", (void *)a, bad);
            PCHECK(c, umfPoolByPtr((char *)a + c.range(0, w.m.live[a].size - 1)) == (w.tracked ? w.pool : nullptr), "bypt.inside",
                   "umfPoolByPtr of an inner byte of %p is not its pool", (void *)a);
            break;
        }
        case 8: {
            if (w.m.live.empty() || w.kind)
                break;
            uintptr_t a = w.m.nth(c.index_of(w.m.live.size()));
            size_t s = w.m.live[a].size;
            if (!refused_free(w, a, false))
                liveBytes -= s;
            break;
        }
        }
    }
    w.mock.failAllAllocs = false;
    if (oom)
        c.label("oom");
    if (reuse)
        c.label("reuse");
    if (reallocs)
        c.label("realloc");
    finish(w);
    if (frees && (reallocs || callocs))
        c.nontrivial();
}

static void proxy(Ctx &c) {
    World w(c);
    make_provider(w, (int)c.weighted({6, 1, 1, 1}));
    w.hasUsable = false;
    w.mock.keepLog = true;
    umf_result_t r = umfPoolCreate(umfProxyPoolOps(), w.prov, nullptr, 0, &w.pool);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "pool.create", "pool create: %s", rs(r));
    size_t liveBytes = 0;
    unsigned nops = (unsigned)c.range(1, 80), frees = 0, fails = 0;
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted({4, 3, 4, 1, 1, 1, 1})) {
        case 0:
        case 1: {
            bool aligned = c.chance(1, 2);
            size_t s = c.size(c.chance(1, 8) ? (4u << 20) : 40000);
            size_t al = aligned ? c.pow2(0, 16) : 0;
            if (w.kind != 0 && al > 4096)
                al = 4096;
            if (liveBytes + s > (8u << 20))
                break;
            bool inject = w.kind == 0 && c.chance(1, 8);
            umf_result_t code = UMF_RESULT_SUCCESS;
            if (inject) {
                code = c.oneof({UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC,
                                UMF_RESULT_ERROR_INVALID_ALIGNMENT, UMF_RESULT_ERROR_UNKNOWN});
                w.mock.failAllocIn = 1;
                w.mock.failCode = code;
            }
            uint64_t before = w.mock.nalloc;
            void *p = aligned ? umfPoolAlignedMalloc(w.pool, s, al) : umfPoolMalloc(w.pool, s);
            c.note("%s(%zu,%zu)=%p", aligned ? "aligned_malloc" : "malloc", s, al, p);
            if (w.kind == 0)
                PCHECK(c, w.mock.nalloc == before + 1, "proxy.passthrough",
                       "one request made %zu provider allocations", (size_t)(w.mock.nalloc - before));
            umf_result_t e = umfPoolGetLastAllocationError(w.pool);
            if (!p) {
                PCHECK(c, inject || w.kind == 2, "malloc.null", "request of %zu failed: %s", s, rs(e));
                if (inject)
                    PCHECK(c, e == code, "proxy.error", "provider failed with %s, the pool reports %s", rs(code), rs(e));
                fails++;
                break;
            }
            PCHECK(c, !inject, "proxy.masked", "provider failed but the pool returned %p", p);
            PCHECK(c, e == UMF_RESULT_SUCCESS, "proxy.error.stale", "successful allocation left error %s", rs(e));
            if (w.kind == 0)
                PCHECK(c, w.mock.live.count((uintptr_t)p) && w.mock.live[(uintptr_t)p] == s, "proxy.exact",
                       "the block %p of %zu is not exactly one provider allocation of that size", p, s);
            check_block(w, p, s, al);
            liveBytes += s;
            break;
        }
        case 2: {
            if (w.m.live.empty())
                break;
            uintptr_t a = w.m.nth(c.index_of(w.m.live.size()));
            liveBytes -= w.m.live[a].size;
            uint64_t before = w.mock.nfree;
            do_free(w, a, c.chance(1, 2));
            if (w.kind == 0)
                PCHECK(c, w.mock.nfree == before + 1 && !w.mock.live.count(a), "proxy.free",
                       "free of %p did not free the provider allocation", (void *)a);
            frees++;
            break;
        }
        case 3: {
            void *p = c.chance(1, 2) ? umfPoolCalloc(w.pool, 1, 64) : umfPoolRealloc(w.pool, nullptr, 64);
            umf_result_t e = umfPoolGetLastAllocationError(w.pool);
            PCHECK(c, !p && e == UMF_RESULT_ERROR_NOT_SUPPORTED, "proxy.unsupported",
                   "calloc/realloc returned %p with error %s", p, rs(e));
            break;
        }
        case 4: {
            void *p = umfPoolMalloc(w.pool, SIZE_MAX - c.range(0, 1 << 20));
            umf_result_t e = umfPoolGetLastAllocationError(w.pool);
            PCHECK(c, !p && e != UMF_RESULT_SUCCESS && valid_code(e), "huge", "huge malloc: %p, %s", p, rs(e));
            break;
        }
        case 5: { // the block is still its own
            if (w.m.live.empty())
                break;
            uintptr_t a = w.m.nth(c.index_of(w.m.live.size()));
            size_t bad = verify((void *)a, w.m.live[a].usable, w.m.live[a].tag);
            PCHECK(c, bad == SIZE_MAX, "content", "block %p changed at %zu", (void *)a, bad);
            break;
        }
        case 6:
            if (!w.m.live.empty() && w.kind == 0)
                refused_free(w, w.m.nth(c.index_of(w.m.live.size())), true);
            break;
        }
    }
    finish(w);
    if (frees >= 2)
        c.nontrivial();
    c.label(fails ? "proxy.fail" : "proxy.nofail");
}

// ---- the library behind the scalable pool may be missing, or be another one --
static std::string missing; // "lib", or part of a symbol's name
static bool hide = false;
static int libOpen = 0;
extern "C" {
void *__real_dlopen(const char *, int);
void *__real_dlsym(void *, const char *);
int __real_dlclose(void *);
void *__wrap_dlopen(const char *f, int fl) {
    if (hide && f && strstr(f, "tbbmalloc")) {
        if (missing == "lib")
            return nullptr;
        void *h = __real_dlopen(f, fl);
        libOpen += h != nullptr;
        return h;
    }
    return __real_dlopen(f, fl);
}
void *__wrap_dlsym(void *h, const char *s) {
    if (hide && missing != "lib" && missing != "none" && strstr(s, missing.c_str()))
        return nullptr;
    return __real_dlsym(h, s);
}
int __wrap_dlclose(void *h) {
    if (hide)
        libOpen--;
    return __real_dlclose(h);
}
}
static void tbb(Ctx &c) {
    missing = c.oneof<std::string>({"none", "lib", "pool_malloc", "pool_realloc", "pool_aligned_malloc", "pool_free", "pool_create_v1", "pool_destroy", "pool_identify",
                                    "pool_msize"});
    hide = true;
    World w(c);
    make_provider(w, 0);
    w.mock.maxSize = (size_t)1 << 31;
    unsigned n = (unsigned)c.range(1, 4), made = 0;
    c.note("%s is missing", missing.c_str());
    for (unsigned i = 0; i < n; i++) {
        c.op();
        umf_memory_pool_handle_t h0 = (umf_memory_pool_handle_t)0x55;
        w.pool = h0;
        uint64_t calls = w.mock.nalloc;
        umf_result_t r = umfPoolCreate(umfScalablePoolOps(), w.prov, nullptr, 0, &w.pool);
        c.note("pool create: %s", rs(r));
        if (missing != "none") {
            PCHECK(c, r == UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE && w.pool == h0, "tbb.missing", "%s is missing, the pool is created with %s", missing.c_str(), rs(r));
            PCHECK(c, w.mock.nalloc == calls && libOpen == 0, "tbb.left", "after a failed creation %zu allocations, library open %d times",
                   (size_t)(w.mock.nalloc - calls), libOpen);
            c.nontrivial();
            // other pools are there all the same
            r = umfPoolCreate(umfProxyPoolOps(), w.prov, nullptr, 0, &w.pool);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "tbb.others", "proxy pool: %s", rs(r));
            w.hasUsable = false;
        } else {
            PCHECK(c, r == UMF_RESULT_SUCCESS && libOpen == 1, "tbb.create", "pool create: %s, the library is open %d times", rs(r), libOpen);
            made++;
        }
        for (unsigned k = (unsigned)c.range(0, 6); k > 0; k--) {
            size_t s = c.size(60000);
            void *p = umfPoolMalloc(w.pool, s);
            PCHECK(c, p, "malloc.null", "malloc(%zu)", s);
            check_block(w, p, s, 0);
        }
        while (!w.m.live.empty())
            do_free(w, w.m.nth(0), false);
        umfPoolDestroy(w.pool);
        check_returned(w);
    }
    umfMemoryProviderDestroy(w.prov);
    if (made > 1)
        c.nontrivial();
    c.label(("tbb: " + missing).c_str());
}

int main(int argc, char **argv) {
    return pbt::run_main(
        argc, argv, "C02",
        "random parameters and histories of malloc/calloc/realloc/aligned_malloc/free/inspect/"
        "unservable requests on the scalable pool (over a recording mock that can be exhausted, the OS "
        "and the file provider) and on the proxy pool (over every host provider, with injected failures) "
        "against a model of live blocks; non-trivial: scalable with a free and a realloc or calloc, proxy "
        "with at least two frees, tbb (the library or one of its symbols missing) a refusal or two pools",
        {{"scalable", scalable, 9000, 90000}, {"proxy", proxy, 9000, 90000}, {"tbb", tbb, 500, 6000}});
}

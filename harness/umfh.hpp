// Shared parts of the harnesses: a recording mock provider, pools, fill
// patterns and a model of live blocks.
#pragma once
#include "pbt.hpp"

#include <algorithm>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

#include <umf.h>
#include <umf/memory_pool.h>
#include <umf/memory_pool_ops.h>
#include <umf/memory_provider.h>
#include <umf/memory_provider_ops.h>
#include <umf/pools/pool_disjoint.h>
#include <umf/pools/pool_proxy.h>
#include <umf/pools/pool_scalable.h>
#include <umf/providers/provider_devdax_memory.h>
#include <umf/providers/provider_file_memory.h>
#include <umf/providers/provider_fixed_memory.h>
#include <umf/providers/provider_os_memory.h>

using pbt::Ctx;

namespace h {

inline uint64_t mixu(uint64_t x) {
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ull;
    return x ^ (x >> 33);
}

inline size_t up(size_t x, size_t a) { return (x + a - 1) / a * a; }

// ---- fill patterns -------------------------------------------------------
// Small blocks are filled entirely, large ones at both ends and at samples.
inline void fill(void *p, size_t n, uint64_t tag) {
    auto *b = (unsigned char *)p;
    auto put = [&](size_t i) { b[i] = (unsigned char)(tag + i * 131 + (i >> 8)); };
    if (n <= 16384) {
        for (size_t i = 0; i < n; i++)
            put(i);
    } else {
        for (size_t i = 0; i < 2048; i++) {
            put(i);
            put(n - 1 - i);
        }
        for (size_t i = 4096; i < n; i += n / 16 + 1)
            put(i);
    }
}
// returns SIZE_MAX when intact, else the index of the first wrong byte
inline size_t verify(const void *p, size_t n, uint64_t tag) {
    auto *b = (const unsigned char *)p;
    auto ok = [&](size_t i) {
        return b[i] == (unsigned char)(tag + i * 131 + (i >> 8));
    };
    if (n <= 16384) {
        for (size_t i = 0; i < n; i++)
            if (!ok(i))
                return i;
    } else {
        for (size_t i = 0; i < 2048; i++) {
            if (!ok(i))
                return i;
            if (!ok(n - 1 - i))
                return n - 1 - i;
        }
        for (size_t i = 4096; i < n; i += n / 16 + 1)
            if (!ok(i))
                return i;
    }
    return SIZE_MAX;
}

// ---- mock provider -------------------------------------------------------
// Hands out page ranges of one reserved arena; memory it has not handed out is
// inaccessible, so a stray access by the code under test faults.  Every call
// is checked against the records (exact pointer, exact size, freed once).
struct Mock {
    Ctx *c = nullptr;
    std::mutex m;
    unsigned char *arena = nullptr;
    size_t cap = 0;
    size_t page = 4096;  // reported minimum page size and placement unit
    size_t bump = 0;
    std::map<uintptr_t, size_t> live; // ptr -> requested size
    std::map<uintptr_t, size_t> freeslots; // offset -> slot length
    unsigned place = 0;  // placement policy: 0 lowest-fit, 1 bump, 2 LIFO
    std::vector<std::pair<size_t, size_t>> lifo;
    // counters
    uint64_t nalloc = 0, nfree = 0, nallocfail = 0, nsplit = 0, nmerge = 0;
    uint64_t liveBytes = 0, peakBytes = 0;
    uint64_t init = 0, fini = 0;
    // failure injection: fail the k-th next call (0 = never)
    uint64_t failAllocIn = 0, failFreeIn = 0, failSplitIn = 0, failMergeIn = 0;
    umf_result_t refuseCode = UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC; // of free, split, merge
    std::set<uintptr_t> refused; // what was once not taken back
    bool failAllAllocs = false;
    umf_result_t failCode = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
    bool splittable = true;
    bool allowUnknownSize = false; // accept size 0 on free
    bool noFree = false;           // provider without a free op
    size_t maxSize = (size_t)3 << 30;
    bool protect = true;
    umf_result_t minCode = UMF_RESULT_SUCCESS; // of the minimum page size query
    const char *name = "mock";
    uint64_t lastNativeError = 0;
    std::vector<std::pair<uintptr_t, size_t>> allocLog, freeLog;
    bool keepLog = false;

    void open(Ctx *cc, size_t capacity, size_t pg) {
        c = cc;
        cap = capacity;
        page = pg;
        size_t slack = 4ull << 20;
        void *p = mmap(nullptr, cap + slack, PROT_NONE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
            c->discard("no address space");
        arena = (unsigned char *)up((size_t)p, 2ull << 20);
        // an odd multiple of the page size, so that alignments above the
        // page size are not satisfied by accident
        bump = page;
    }
    umf_result_t doAlloc(size_t size, size_t align, void **out) {
        std::lock_guard<std::mutex> g(m);
        nalloc++;
        if (failAllAllocs || (failAllocIn && --failAllocIn == 0)) {
            nallocfail++;
            lastNativeError = 77;
            return failCode;
        }
        if (size > maxSize || size == 0) {
            nallocfail++;
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        }
        size_t slot = up(size, page);
        size_t a = std::max(align, page);
        size_t off = SIZE_MAX;
        if (place == 2 && !lifo.empty()) {
            for (size_t i = lifo.size(); i-- > 0;) {
                auto [o, l] = lifo[i];
                auto it = freeslots.find(o);
                if (it != freeslots.end() && it->second == slot && l == slot &&
                    o % a == 0) {
                    off = o;
                    freeslots.erase(it);
                    lifo.erase(lifo.begin() + (long)i);
                    break;
                }
            }
        }
        if (off == SIZE_MAX && place == 0) {
            for (auto it = freeslots.begin(); it != freeslots.end(); ++it) {
                size_t st = up(it->first, a);
                if (st + slot <= it->first + it->second) {
                    size_t fs = it->first, fl = it->second;
                    freeslots.erase(it);
                    if (st > fs)
                        freeslots[fs] = st - fs;
                    if (st + slot < fs + fl)
                        freeslots[st + slot] = fs + fl - st - slot;
                    off = st;
                    break;
                }
            }
        }
        if (off == SIZE_MAX) {
            size_t st = up(bump, a);
            if (st + slot > cap) {
                nallocfail++;
                return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
            }
            if (st > bump)
                freeslots[bump] = st - bump;
            bump = st + slot;
            off = st;
        }
        unsigned char *p = arena + off;
        if (protect && mprotect(p, slot, PROT_READ | PROT_WRITE))
            return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        live[(uintptr_t)p] = size;
        liveBytes += size;
        peakBytes = std::max(peakBytes, liveBytes);
        if (keepLog)
            allocLog.push_back({(uintptr_t)p, size});
        *out = p;
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t doFree(void *ptr, size_t size) {
        std::lock_guard<std::mutex> g(m);
        nfree++;
        if (failFreeIn && --failFreeIn == 0) {
            lastNativeError = 78;
            refused.insert((uintptr_t)ptr);
            return refuseCode;
        }
        if (ptr == nullptr)
            return UMF_RESULT_SUCCESS;
        auto it = live.find((uintptr_t)ptr);
        PCHECK(*c, it != live.end(), "provider.free.unknown",
               "provider asked to free %p (+0x%zx), which is not the start of "
               "a live provider allocation (size argument %zu)",
               ptr, (size_t)((unsigned char *)ptr - arena), size);
        if (!(allowUnknownSize && size == 0))
            PCHECK(*c, it->second == size, "provider.free.size",
                   "provider asked to free %p with size %zu, but it was "
                   "allocated with size %zu",
                   ptr, size, it->second);
        release(it);
        if (keepLog)
            freeLog.push_back({(uintptr_t)ptr, size});
        return UMF_RESULT_SUCCESS;
    }
    void release(std::map<uintptr_t, size_t>::iterator it) {
        size_t slot = up(it->second, page);
        size_t off = it->first - (uintptr_t)arena;
        if (protect) {
            mprotect((void *)it->first, slot, PROT_NONE);
            madvise((void *)it->first, slot, MADV_DONTNEED);
        }
        liveBytes -= it->second;
        live.erase(it);
        if (place == 2)
            lifo.push_back({off, slot});
        // coalesce (lowest fit only; the others want exact slots)
        auto n = freeslots.emplace(off, slot).first;
        if (place == 0) {
            auto nx = std::next(n);
            if (nx != freeslots.end() && n->first + n->second == nx->first) {
                n->second += nx->second;
                freeslots.erase(nx);
            }
            if (n != freeslots.begin()) {
                auto pv = std::prev(n);
                if (pv->first + pv->second == n->first) {
                    pv->second += n->second;
                    freeslots.erase(n);
                }
            }
        }
    }
    umf_result_t doSplit(void *ptr, size_t total, size_t first) {
        std::lock_guard<std::mutex> g(m);
        nsplit++;
        if (failSplitIn && --failSplitIn == 0)
            return refuseCode;
        auto it = live.find((uintptr_t)ptr);
        PCHECK(*c, it != live.end() && it->second == total,
               "provider.split.unknown",
               "provider asked to split %p total %zu, not such a live block",
               ptr, total);
        PCHECK(*c, first > 0 && first < total, "provider.split.size",
               "provider asked to split %zu bytes at %zu", total, first);
        it->second = first;
        live[(uintptr_t)ptr + first] = total - first;
        return UMF_RESULT_SUCCESS;
    }
    umf_result_t doMerge(void *lo, void *hi, size_t total) {
        std::lock_guard<std::mutex> g(m);
        nmerge++;
        if (failMergeIn && --failMergeIn == 0)
            return refuseCode;
        auto a = live.find((uintptr_t)lo), b = live.find((uintptr_t)hi);
        PCHECK(*c,
               a != live.end() && b != live.end() &&
                   a->first + a->second == b->first &&
                   a->second + b->second == total,
               "provider.merge.unknown",
               "provider asked to merge %p and %p, total %zu: not two adjacent "
               "live blocks of that total",
               lo, hi, total);
        live.erase(b);
        a->second = total;
        return UMF_RESULT_SUCCESS;
    }
    // the live provider block that contains [p, p+n), or end()
    std::map<uintptr_t, size_t>::iterator containing(uintptr_t p, size_t n) {
        auto it = live.upper_bound(p);
        if (it == live.begin())
            return live.end();
        --it;
        if (p >= it->first && p + n <= it->first + it->second)
            return it;
        return live.end();
    }
};

inline umf_result_t mk_init(void *params, void **priv) {
    *priv = params;
    ((Mock *)params)->init++;
    return UMF_RESULT_SUCCESS;
}
inline void mk_fini(void *p) { ((Mock *)p)->fini++; }
inline umf_result_t mk_alloc(void *p, size_t s, size_t a, void **o) {
    return ((Mock *)p)->doAlloc(s, a, o);
}
inline umf_result_t mk_free(void *p, void *ptr, size_t s) {
    return ((Mock *)p)->doFree(ptr, s);
}
inline void mk_native(void *p, const char **msg, int32_t *e) {
    if (msg)
        *msg = "mock native error";
    if (e)
        *e = (int32_t)((Mock *)p)->lastNativeError;
}
inline umf_result_t mk_recpage(void *p, size_t, size_t *o) {
    *o = ((Mock *)p)->page;
    return UMF_RESULT_SUCCESS;
}
inline umf_result_t mk_minpage(void *p, void *, size_t *o) {
    if (((Mock *)p)->minCode != UMF_RESULT_SUCCESS)
        return ((Mock *)p)->minCode;
    *o = ((Mock *)p)->page;
    return UMF_RESULT_SUCCESS;
}
inline const char *mk_name(void *p) { return ((Mock *)p)->name; }
inline umf_result_t mk_split(void *p, void *ptr, size_t t, size_t f) {
    return ((Mock *)p)->doSplit(ptr, t, f);
}
inline umf_result_t mk_merge(void *p, void *l, void *hi, size_t t) {
    return ((Mock *)p)->doMerge(l, hi, t);
}

inline umf_memory_provider_ops_t mock_ops(bool splittable = true) {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof(o));
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = mk_init;
    o.finalize = mk_fini;
    o.alloc = mk_alloc;
    o.free = mk_free;
    o.get_last_native_error = mk_native;
    o.get_recommended_page_size = mk_recpage;
    o.get_min_page_size = mk_minpage;
    o.get_name = mk_name;
    if (splittable) {
        o.ext.allocation_split = mk_split;
        o.ext.allocation_merge = mk_merge;
    }
    return o;
}

inline umf_memory_provider_handle_t mock_provider(Ctx &c, Mock *m,
                                                  umf_memory_provider_ops_t *o) {
    umf_memory_provider_handle_t p = nullptr;
    umf_result_t r = umfMemoryProviderCreate(o, m, &p);
    PCHECK(c, r == UMF_RESULT_SUCCESS && p, "mock.create",
           "creating a provider from user-supplied ops failed: %d", (int)r);
    return p;
}

// ---- model of live blocks ------------------------------------------------
struct Block {
    size_t size;   // requested
    size_t align;
    uint64_t tag;
    size_t usable; // reported (>= size) or size
};

struct Model {
    std::map<uintptr_t, Block> live;
    // does [p, p+n) meet a live block? returns it
    const std::pair<const uintptr_t, Block> *overlap(uintptr_t p, size_t n) {
        auto it = live.upper_bound(p);
        if (it != live.begin()) {
            auto q = std::prev(it);
            if (q->first + std::max(q->second.size, q->second.usable) > p)
                return &*q;
        }
        if (it != live.end() && it->first < p + n)
            return &*it;
        return nullptr;
    }
    uintptr_t nth(size_t k) {
        auto it = live.begin();
        std::advance(it, (long)k);
        return it->first;
    }
};

inline const char *rs(umf_result_t r) {
    switch (r) {
    case UMF_RESULT_SUCCESS:
        return "SUCCESS";
    case UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY:
        return "OUT_OF_HOST_MEMORY";
    case UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC:
        return "MEMORY_PROVIDER_SPECIFIC";
    case UMF_RESULT_ERROR_INVALID_ARGUMENT:
        return "INVALID_ARGUMENT";
    case UMF_RESULT_ERROR_INVALID_ALIGNMENT:
        return "INVALID_ALIGNMENT";
    case UMF_RESULT_ERROR_NOT_SUPPORTED:
        return "NOT_SUPPORTED";
    case UMF_RESULT_ERROR_USER_SPECIFIC:
        return "USER_SPECIFIC";
    case UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE:
        return "DEPENDENCY_UNAVAILABLE";
    case UMF_RESULT_ERROR_OUT_OF_RESOURCES:
        return "OUT_OF_RESOURCES";
    default:
        return "UNKNOWN";
    }
}
inline bool valid_code(umf_result_t r) {
    return (r >= UMF_RESULT_SUCCESS &&
            r <= UMF_RESULT_ERROR_OUT_OF_RESOURCES) ||
           r == UMF_RESULT_ERROR_UNKNOWN;
}

// ---- disjoint pool parameters ---------------------------------------------
struct DPar {
    size_t slabMin, maxPool, capacity, minBucket;
    int trace;
    size_t limit; // SIZE_MAX: none
};
inline umf_disjoint_pool_params_handle_t
disjoint_params(const DPar &d, umf_disjoint_pool_shared_limits_handle_t lim) {
    umf_disjoint_pool_params_handle_t h = nullptr;
    umfDisjointPoolParamsCreate(&h);
    umfDisjointPoolParamsSetSlabMinSize(h, d.slabMin);
    umfDisjointPoolParamsSetMaxPoolableSize(h, d.maxPool);
    umfDisjointPoolParamsSetCapacity(h, d.capacity);
    umfDisjointPoolParamsSetMinBucketSize(h, d.minBucket);
    umfDisjointPoolParamsSetTrace(h, d.trace);
    if (lim)
        umfDisjointPoolParamsSetSharedLimits(h, lim);
    return h;
}
inline DPar gen_dpar(Ctx &c) {
    DPar d;
    switch (c.range(0, 5)) {
    case 0:
    case 1:
        d.slabMin = 65536;
        break;
    case 2:
        d.slabMin = c.oneof<size_t>({4096, 8192, 32768, 2u << 20});
        break;
    case 3:
        d.slabMin = c.size(1 << 20);
        break;
    case 4:
        d.slabMin = c.oneof<size_t>({0, 1, 64, 96, 100, 1024});
        break;
    default:
        d.slabMin = 4096 * c.range(1, 40);
    }
    switch (c.range(0, 3)) {
    case 0:
        d.maxPool = c.oneof<size_t>({0, 64, 4096, 65536, 2u << 20});
        break;
    case 1:
        d.maxPool = d.slabMin ? std::min<size_t>(d.slabMin * c.range(1, 4), 8u << 20) : 4096;
        break;
    default:
        d.maxPool = c.size(8 << 20);
    }
    d.capacity = c.range(0, 5);
    d.minBucket = 1ull << c.range(0, c.chance(1, 8) ? 20 : 10);
    d.trace = (int)c.range(0, 3);
    d.limit = SIZE_MAX;
    return d;
}

// any error a provider may report
inline umf_result_t gen_error(Ctx &c) {
    return c.oneof<umf_result_t>({UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY,
                                  UMF_RESULT_ERROR_INVALID_ARGUMENT, UMF_RESULT_ERROR_INVALID_ALIGNMENT,
                                  UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_USER_SPECIFIC,
                                  UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, UMF_RESULT_ERROR_OUT_OF_RESOURCES,
                                  UMF_RESULT_ERROR_UNKNOWN});
}

// a program may run without a standard input: descriptor 0 is then as good as any
inline void no_stdin(Ctx &c) {
    if (c.chance(1, 8)) {
        close(0);
        c.label("no stdin");
        c.note("the standard input is closed");
    }
}
} // namespace h

// A pool over a generated provider with a model of its live blocks.
#pragma once
#include "umfh.hpp"
namespace h {
struct World {
    Ctx &c;
    Mock mock;
    umf_memory_provider_ops_t ops;
    int kind = 0; // 0 mock 1 os 2 fixed 3 file
    void *fixedBuf = nullptr;
    size_t fixedLen = 0;
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    umf_disjoint_pool_shared_limits_handle_t lim = nullptr;
    DPar d;
    Model m;
    uint64_t tag = 1;
    std::string file;
    bool tracked = true; // created without UMF_POOL_CREATE_FLAG_DISABLE_TRACKING
    bool hasUsable = true; // the pool implements malloc_usable_size
    explicit World(Ctx &cc) : c(cc) {}
};

inline void make_provider(World &w, int kind = -1) {
    Ctx &c = w.c;
    w.kind = kind >= 0 ? kind : (int)c.weighted({6, 1, 1, 1});
    if (w.kind == 0) {
        w.ops = mock_ops(c.chance(1, 2));
        w.mock.open(&c, 4ull << 30, c.oneof<size_t>({4096, 4096, 4096, 65536, 2u << 20}));
        w.mock.place = (unsigned)c.range(0, 2);
        w.prov = mock_provider(c, &w.mock, &w.ops);
    } else if (w.kind == 1) {
        umf_os_memory_provider_params_handle_t p = nullptr;
        umfOsMemoryProviderParamsCreate(&p);
        umf_result_t r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), p, &w.prov);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "os.create", "OS provider: %s", rs(r));
        umfOsMemoryProviderParamsDestroy(p);
    } else if (w.kind == 2) {
        w.fixedLen = 64u << 20;
        w.fixedBuf = mmap(nullptr, w.fixedLen, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        umf_fixed_memory_provider_params_handle_t p = nullptr;
        umfFixedMemoryProviderParamsCreate(&p, w.fixedBuf, w.fixedLen);
        umf_result_t r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), p, &w.prov);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "fixed.create", "fixed provider: %s", rs(r));
        umfFixedMemoryProviderParamsDestroy(p);
    } else {
        w.file = std::string(c.scratch) + "/f";
        umf_file_memory_provider_params_handle_t p = nullptr;
        umfFileMemoryProviderParamsCreate(&p, w.file.c_str());
        umf_result_t r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), p, &w.prov);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "file.create", "file provider: %s", rs(r));
        umfFileMemoryProviderParamsDestroy(p);
    }
}

inline void check_block(World &w, void *p, size_t size, size_t align) {
    Ctx &c = w.c;
    uintptr_t a = (uintptr_t)p;
    PCHECK(c, align <= 1 || a % align == 0, "alloc.align",
           "allocation of %zu bytes aligned to %zu returned %p", size, align, p);
    auto *o = w.m.overlap(a, size);
    PCHECK(c, !o, "alloc.overlap",
           "allocation %p..+%zu overlaps the live block %p..+%zu", p, size,
           (void *)o->first, o->second.size);
    if (w.kind == 0)
        PCHECK(c, w.mock.containing(a, size) != w.mock.live.end(),
               "alloc.outside",
               "allocation %p..+%zu is not inside one live provider allocation",
               p, size);
    if (w.kind == 2)
        PCHECK(c, a >= (uintptr_t)w.fixedBuf && a + size <= (uintptr_t)w.fixedBuf + w.fixedLen,
               "alloc.outside", "allocation %p..+%zu is outside the user's buffer", p, size);
    size_t us = w.hasUsable ? umfPoolMallocUsableSize(w.pool, p) : size;
    PCHECK(c, us >= size, "usable.small",
           "usable size of %p is %zu, the block was requested with %zu", p, us, size);
    auto *o2 = w.m.overlap(a, us);
    PCHECK(c, !o2, "usable.overlap",
           "the usable size %zu of %p reaches into the live block %p", us, p,
           (void *)o2->first);
    if (w.kind == 0)
        PCHECK(c, w.mock.containing(a, us) != w.mock.live.end(), "usable.outside",
               "usable size %zu of %p exceeds the provider allocation", us, p);
    umf_memory_pool_handle_t owner = w.tracked ? w.pool : nullptr;
    PCHECK(c, umfPoolByPtr(p) == owner, "bypt.first",
           "umfPoolByPtr(%p) is not the pool that tracks it", p);
    PCHECK(c, umfPoolByPtr((char *)p + size - 1) == owner, "bypt.last",
           "umfPoolByPtr of the last byte of %p..+%zu is not its pool", p, size);
    Block b{size, align, w.tag++ * 1315423911u, us};
    fill(p, us, b.tag); // all of the usable size is the caller's
    w.m.live[a] = b;
}

inline void do_free(World &w, uintptr_t a, bool viaFree) {
    Ctx &c = w.c;
    Block b = w.m.live[a];
    size_t bad = verify((void *)a, b.usable, b.tag);
    PCHECK(c, bad == SIZE_MAX, "content",
           "contents of live block %p..+%zu changed at offset %zu", (void *)a,
           b.size, bad);
    w.m.live.erase(a);
    umf_result_t r = viaFree && w.tracked ? umfFree((void *)a) : umfPoolFree(w.pool, (void *)a);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "free.result",
           "freeing live block %p..+%zu returned %s", (void *)a, b.size, rs(r));
}

// The provider refuses to take memory back while a block is freed: either the
// pool says so, with the provider's code, and the block is still the caller's
// (returns true), or the block is freed and only the provider's memory is lost.
inline bool refused_free(World &w, uintptr_t a, bool mustReport) {
    Ctx &c = w.c;
    Block b = w.m.live[a];
    w.mock.failFreeIn = 1;
    w.mock.refuseCode = gen_error(c);
    umf_result_t r = umfPoolFree(w.pool, (void *)a);
    bool hit = w.mock.failFreeIn == 0;
    w.mock.failFreeIn = 0;
    c.note("free(%p) while the provider refuses with %s: %s%s", (void *)a, rs(w.mock.refuseCode), rs(r), hit ? "" : " (not asked)");
    if (r == UMF_RESULT_SUCCESS) {
        PCHECK(c, !(hit && mustReport), "free.masked", "the provider refused to take %p..+%zu back and the pool returned success", (void *)a, b.size);
        w.m.live.erase(a);
        return false;
    }
    PCHECK(c, hit && r == w.mock.refuseCode, "free.refused.code", "freeing %p returned %s, the provider refused with %s", (void *)a, rs(r),
           hit ? rs(w.mock.refuseCode) : "nothing");
    c.label("free.refused");
    w.mock.refused.erase(a);
    size_t bad = verify((void *)a, b.usable, b.tag);
    PCHECK(c, bad == SIZE_MAX, "free.refused.content", "a refused free changed the block at %zu", bad);
    umf_memory_pool_handle_t owner = w.tracked ? w.pool : nullptr;
    PCHECK(c, umfPoolByPtr((void *)a) == owner && umfPoolByPtr((char *)a + b.size - 1) == owner, "free.refused.bypt",
           "%p is no longer of its pool after a refused free", (void *)a);
    return true;
}

// what the provider still has when the pool is gone
inline void check_returned(World &w) {
    if (w.kind)
        return;
    for (auto &l : w.mock.live)
        PCHECK(w.c, w.mock.refused.count(l.first), "destroy.leak", "the provider allocation %p (%zu bytes) is still live after the pool was destroyed (%zu in all)",
               (void *)l.first, l.second, w.mock.live.size());
}

} // namespace h

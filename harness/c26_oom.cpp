// C26: the library's own memory runs out at any point.  A random history over
// providers, pools, blocks, IPC handles and queries, in which single requests
// to the base allocator are refused: the call reports failure, nothing else
// changes, and everything is returned in the end.  Without refusals the same
// histories check that nothing is left behind.
#define WBA_POOLS
#include "umfh.hpp"
#include "numah.hpp"
#include "wrapba.hpp"
#include <memory>
#include <sys/stat.h>
#include <algorithm>
#include <umf/ipc.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
using namespace h;

// a pool of the user that passes everything to its provider
struct Pass {
    umf_memory_provider_handle_t p;
    std::map<uintptr_t, size_t> sz;
};
static Pass *passNow;
static umf_result_t q_init(umf_memory_provider_handle_t p, void *, void **priv) {
    passNow = new Pass{p, {}};
    *priv = passNow;
    return UMF_RESULT_SUCCESS;
}
static void q_fini(void *p) { delete (Pass *)p; }
static void *q_aligned(void *pp, size_t s, size_t a) {
    Pass *p = (Pass *)pp;
    void *q = nullptr;
    if (umfMemoryProviderAlloc(p->p, s, a, &q))
        return nullptr;
    p->sz[(uintptr_t)q] = s;
    return q;
}
static void *q_malloc(void *pp, size_t s) { return q_aligned(pp, s, 0); }
static void *q_calloc(void *, size_t, size_t) { return nullptr; }
static void *q_realloc(void *, void *, size_t) { return nullptr; }
static size_t q_usable(void *pp, void *q) { return ((Pass *)pp)->sz[(uintptr_t)q]; }
static umf_result_t q_free(void *pp, void *q) {
    Pass *p = (Pass *)pp;
    umf_result_t r = umfMemoryProviderFree(p->p, q, p->sz[(uintptr_t)q]);
    if (!r)
        p->sz.erase((uintptr_t)q);
    return r;
}
static umf_result_t q_err(void *) { return UMF_RESULT_SUCCESS; }
static umf_memory_pool_ops_t pass_ops() {
    umf_memory_pool_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_POOL_OPS_VERSION_CURRENT;
    o.initialize = q_init;
    o.finalize = q_fini;
    o.malloc = q_malloc;
    o.calloc = q_calloc;
    o.realloc = q_realloc;
    o.aligned_malloc = q_aligned;
    o.malloc_usable_size = q_usable;
    o.free = q_free;
    o.get_last_allocation_error = q_err;
    return o;
}

enum PK { MOCK, OSP, OSS, FIXED, FILEP, NPK };
static const char *pkn[] = {"mock", "os", "os shared", "fixed", "file"};
enum QK { DISJ, PROXY, SCAL, PASS };
static const char *qkn[] = {"disjoint", "proxy", "scalable", "pass"};
struct Prov {
    PK kind;
    umf_memory_provider_handle_t h = nullptr;
    std::unique_ptr<Mock> mock;
    umf_memory_provider_ops_t ops;
    void *buf = nullptr;
    size_t len = 0;
    std::map<uintptr_t, Block> blocks; // allocated directly
    unsigned pools = 0;
    bool lost = false; // a refused release may have kept something
};
struct PoolW {
    QK kind;
    Prov *prov;
    umf_memory_pool_handle_t h = nullptr;
    umf_ipc_handler_handle_t ih = nullptr;
    Pass *pass = nullptr;
    Model m;
    std::map<uintptr_t, unsigned> handles; // blocks with handles taken or opened
    unsigned opened = 0;                   // mappings open through it
};
struct Hd {
    umf_ipc_handle_t h;
    PoolW *pool;
    uintptr_t blk;
};
struct Op {
    char *q;
    PoolW *via, *pool;
    uintptr_t blk;
};

struct W {
    Ctx &c;
    bool oom;
    std::vector<std::unique_ptr<Prov>> pv;
    std::vector<std::unique_ptr<PoolW>> pl;
    std::vector<Hd> hd;
    std::vector<Op> op;
    uint64_t tag = 1;
    unsigned files = 0, hits = 0, oks = 0;
    long f0 = 0;
    bool armed = false;

    void arm(unsigned num = 1, unsigned den = 2, unsigned mx = 7) {
        armed = oom && c.chance(num, den);
        f0 = ba::failed;
        ba::failIn = armed ? (long)c.range(1, 1 + c.range(0, mx)) : 0;
    }
    bool hit() { // ends the arming
        ba::failIn = 0;
        bool x = ba::failed != f0;
        f0 = ba::failed;
        if (x) {
            hits++;
            c.note("  (memory refused)");
        }
        return x;
    }
    // a call that may fail only because memory was refused
    bool ok(umf_result_t r, bool h, const char *what) {
        PCHECK(c, valid_code(r), "code", "%s returned %d", what, (int)r);
        if (r == UMF_RESULT_SUCCESS) {
            oks++;
            return true;
        }
        PCHECK(c, h, "spurious", "%s failed with %s although no memory was refused", what, rs(r));
        return false;
    }

    umf_result_t create_prov(Prov &p, const char *file) {
        umf_result_t r = UMF_RESULT_SUCCESS;
        switch (p.kind) {
        case MOCK:
            p.ops = mock_ops(true);
            return umfMemoryProviderCreate(&p.ops, p.mock.get(), &p.h);
        case OSP:
        case OSS: {
            umf_os_memory_provider_params_handle_t hp = nullptr;
            r = umfOsMemoryProviderParamsCreate(&hp);
            if (r)
                return r;
            {
                if (p.kind == OSS)
                    r = umfOsMemoryProviderParamsSetVisibility(hp, UMF_MEM_MAP_SHARED);
                unsigned node = 0;
                bool numa = p.kind == OSP && c.chance(1, 4);
                if (!r && numa)
                    r = umfOsMemoryProviderParamsSetNumaList(hp, &node, 1);
                if (!r && numa)
                    r = umfOsMemoryProviderParamsSetNumaMode(hp, UMF_NUMA_MODE_BIND);
            }
            if (!r)
                r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), hp, &p.h);
            umfOsMemoryProviderParamsDestroy(hp);
            return r;
        }
        case FIXED: {
            umf_fixed_memory_provider_params_handle_t hp = nullptr;
            r = umfFixedMemoryProviderParamsCreate(&hp, p.buf, p.len);
            if (r)
                return r;
            r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), hp, &p.h);
            umfFixedMemoryProviderParamsDestroy(hp);
            return r;
        }
        default: {
            umf_file_memory_provider_params_handle_t hp = nullptr;
            r = umfFileMemoryProviderParamsCreate(&hp, file);
            if (r)
                return r;
            r = umfFileMemoryProviderParamsSetVisibility(hp, UMF_MEM_MAP_SHARED);
            if (!r)
                r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), hp, &p.h);
            umfFileMemoryProviderParamsDestroy(hp);
            return r;
        }
        }
    }
    void add_prov(PK k) {
        auto p = std::make_unique<Prov>();
        p->kind = k;
        std::string file = std::string(c.scratch) + "/f" + std::to_string(files++);
        if (k == MOCK) {
            p->mock = std::make_unique<Mock>();
            p->mock->open(&c, 1ull << 30, 4096);
            p->mock->place = (unsigned)c.range(0, 2);
        } else if (k == FIXED) {
            p->len = 4096 * c.range(16, 4096);
            p->buf = mmap(nullptr, p->len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        }
        c.note("create %s provider", pkn[k]);
        long l0 = ba::live;
        arm(1, 2, 19);
        umf_result_t r = create_prov(*p, file.c_str());
        bool h = hit();
        if (!ok(r, h, "creating a provider")) {
            PCHECK(c, !p->h, "out", "a refused creation of a %s provider left a handle", pkn[k]);
            PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "oom.code", "creating a %s provider without memory: %s", pkn[k], rs(r));
            PCHECK(c, ba::live == l0, "leak.create", "%ld pieces of memory are lost after a refused creation of a %s provider", ba::live - l0, pkn[k]);
            if (p->buf)
                munmap(p->buf, p->len);
            if (p->mock && p->mock->arena)
                PCHECK(c, p->mock->init == p->mock->fini, "init", "a provider was initialized %u times and finalized %u times", (unsigned)p->mock->init, (unsigned)p->mock->fini);
            return;
        }
        PCHECK(c, p->h, "handle", "no handle");
        pv.push_back(std::move(p));
    }
    void add_pool() {
        if (pv.empty())
            return;
        Prov *p = pv[c.index_of(pv.size())].get();
        auto q = std::make_unique<PoolW>();
        q->prov = p;
#if defined(__SANITIZE_THREAD__)
        q->kind = c.oneof<QK>({DISJ, PROXY, PASS});
#else
        q->kind = c.oneof<QK>({DISJ, DISJ, PROXY, SCAL, PASS, PASS});
#endif
        c.note("create %s pool over a %s provider", qkn[q->kind], pkn[p->kind]);
        static umf_memory_pool_ops_t po = pass_ops();
        DPar d = gen_dpar(c);
        d.trace = 0;
        if (!d.slabMin || d.slabMin < 4096)
            d.slabMin = 65536;
        long l0 = ba::live;
        arm(1, 2, q->kind == DISJ && c.chance(1, 2) ? 99 : 7);
        umf_result_t r = UMF_RESULT_SUCCESS;
        if (q->kind == DISJ) {
            umf_disjoint_pool_params_handle_t hp = nullptr;
            r = umfDisjointPoolParamsCreate(&hp);
            if (!r)
                r = umfDisjointPoolParamsSetSlabMinSize(hp, d.slabMin);
            if (!r)
                r = umfDisjointPoolParamsSetMaxPoolableSize(hp, d.maxPool);
            if (!r)
                r = umfDisjointPoolParamsSetCapacity(hp, d.capacity);
            if (!r)
                r = umfDisjointPoolParamsSetMinBucketSize(hp, d.minBucket);
            if (!r)
                r = umfDisjointPoolParamsSetName(hp, "pool-with-a-name");
            if (!r)
                r = umfPoolCreate(umfDisjointPoolOps(), p->h, hp, 0, &q->h);
            if (hp)
                umfDisjointPoolParamsDestroy(hp);
        } else if (q->kind == PROXY)
            r = umfPoolCreate(umfProxyPoolOps(), p->h, nullptr, 0, &q->h);
        else if (q->kind == SCAL) {
            umf_scalable_pool_params_handle_t hp = nullptr;
            r = umfScalablePoolParamsCreate(&hp);
            if (!r)
                r = umfScalablePoolParamsSetGranularity(hp, 2u << 20);
            if (!r)
                r = umfPoolCreate(umfScalablePoolOps(), p->h, hp, 0, &q->h);
            if (hp)
                umfScalablePoolParamsDestroy(hp);
        } else {
            passNow = nullptr;
            r = umfPoolCreate(&po, p->h, nullptr, 0, &q->h);
            q->pass = passNow;
        }
        bool h = hit();
        if (!ok(r, h, "creating a pool")) {
            PCHECK(c, !q->h, "out", "a refused creation of a %s pool left a handle", qkn[q->kind]);
            PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "oom.code", "creating a %s pool without memory: %s", qkn[q->kind], rs(r));
            PCHECK(c, ba::live == l0, "leak.create", "%ld pieces of memory are lost after a refused creation of a %s pool", ba::live - l0, qkn[q->kind]);
            return;
        }
        p->pools++;
        umfPoolGetIPCHandler(q->h, &q->ih);
        pl.push_back(std::move(q));
    }
    size_t psize(PoolW &q) {
        if (q.kind == PROXY || q.kind == PASS)
            return 4096 * c.range(1, c.chance(1, 8) ? 600 : 6);
        return c.weighted({6, 2, 1}) == 0 ? c.range(1, 3000) : c.chance(1, 2) ? c.range(1, 100000) : c.range(1, 3000000);
    }
    void check_new(PoolW &q, uintptr_t a, size_t s, size_t al) {
        PCHECK(c, al <= 1 || a % al == 0, "align", "%zu bytes aligned to %zu at %p", s, al, (void *)a);
        for (auto &o : pl)
            PCHECK(c, !o->m.overlap(a, s), "overlap", "new block %p..+%zu of a %s pool overlaps a live one of a %s pool", (void *)a, s, qkn[q.kind], qkn[o->kind]);
        for (auto &o : pv)
            for (auto &b : o->blocks)
                PCHECK(c, a + s <= b.first || b.first + b.second.size <= a, "overlap", "new block overlaps one of the provider");
        PCHECK(c, umfPoolByPtr((void *)a) == q.h && umfPoolByPtr((void *)(a + s - 1)) == q.h, "byptr", "the new block %p..+%zu is not found", (void *)a, s);
        if (q.prov->kind == MOCK)
            PCHECK(c, q.prov->mock->containing(a, s) != q.prov->mock->live.end(), "outside", "the block is not inside memory of the provider");
        Block b{s, al, tag++ * 1315423911u, s};
        fill((void *)a, s, b.tag);
        q.m.live[a] = b;
    }
    void pool_alloc() {
        PoolW &q = *pl[c.index_of(pl.size())];
        size_t s = psize(q), al = 0;
        void *p;
        unsigned k = (unsigned)c.weighted({4, 2, 2});
        if (q.kind != SCAL)
            k = k == 1 ? 0 : k; // no calloc
        if (k == 2)
            al = c.pow2(3, 13);
        c.note("%s(%zu, %zu) from a %s pool", k == 0 ? "malloc" : k == 1 ? "calloc" : "aligned", s, al, qkn[q.kind]);
        arm();
        p = k == 0 ? umfPoolMalloc(q.h, s) : k == 1 ? umfPoolCalloc(q.h, 1, s) : umfPoolAlignedMalloc(q.h, s, al);
        bool h = hit();
        c.op();
        if (!p) {
            PCHECK(c, h || q.prov->kind == FIXED, "spurious", "an allocation of %zu bytes (alignment %zu) from a %s pool over a %s provider failed although no memory was refused", s, al, qkn[q.kind], pkn[q.prov->kind]);
            if (q.kind == DISJ || q.kind == PROXY) {
                umf_result_t e = umfPoolGetLastAllocationError(q.h);
                PCHECK(c, e != UMF_RESULT_SUCCESS && valid_code(e), "lasterror", "the last error of a %s pool is %d after a failed allocation", qkn[q.kind], (int)e);
            }
            return;
        }
        oks++;
        if (k == 1)
            for (size_t i = 0; i < s; i += s > 8192 ? 97 : 1)
                PCHECK(c, ((char *)p)[i] == 0, "calloc", "calloc memory is not zero");
        check_new(q, (uintptr_t)p, s, al);
    }
    bool pick_block(PoolW *&q, uintptr_t &a) {
        std::vector<PoolW *> v;
        for (auto &x : pl)
            if (!x->m.live.empty())
                v.push_back(x.get());
        if (v.empty())
            return false;
        q = v[c.index_of(v.size())];
        a = q->m.nth(c.index_of(q->m.live.size()));
        return true;
    }
    void verify_block(const Block &b, uintptr_t a, const char *when) {
        size_t x = verify((void *)a, b.size, b.tag);
        PCHECK(c, x == SIZE_MAX, "content", "%s: byte %zu of the block %p..+%zu changed", when, x, (void *)a, b.size);
    }
    void pool_free(PoolW &q, uintptr_t a, bool faults) {
        Block b = q.m.live[a];
        verify_block(b, a, "before free");
        c.note("free %p of a %s pool", (void *)a, qkn[q.kind]);
        if (faults)
            arm();
        else
            f0 = ba::failed;
        umf_result_t r = c.chance(1, 2) ? umfFree((void *)a) : umfPoolFree(q.h, (void *)a);
        bool h = hit();
        c.op();
        if (!ok(r, h, "free")) { // still there, and can be freed later
            verify_block(b, a, "after a failed free");
            PCHECK(c, umfPoolByPtr((void *)a) == q.h, "byptr", "a block whose free failed is not found");
            r = umfPoolFree(q.h, (void *)a);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "refree", "a block whose free failed for lack of memory cannot be freed later: %s", rs(r));
        }
        q.m.live.erase(a);
    }
    void pool_realloc() {
        PoolW *q;
        uintptr_t a;
        if (!pick_block(q, a) || q->kind != SCAL || q->handles.count(a))
            return;
        Block b = q->m.live[a];
        verify_block(b, a, "before realloc");
        size_t s = psize(*q);
        c.note("realloc %p %zu -> %zu", (void *)a, b.size, s);
        arm();
        void *p = umfPoolRealloc(q->h, (void *)a, s);
        bool h = hit();
        c.op();
        if (!p) {
            PCHECK(c, h || q->prov->kind == FIXED, "spurious", "realloc failed although no memory was refused");
            verify_block(b, a, "after a failed realloc");
            return;
        }
        q->m.live.erase(a);
        size_t k = std::min(s, b.size);
        if (b.size > 16384) // only parts of large blocks are filled
            k = std::min<size_t>(k, 2048);
        size_t x = verify(p, k, b.tag);
        PCHECK(c, x == SIZE_MAX, "realloc", "byte %zu changed in realloc", x);
        check_new(*q, (uintptr_t)p, s, 0);
    }
    void prov_alloc() {
        if (pv.empty())
            return;
        Prov &p = *pv[c.index_of(pv.size())];
        size_t s = 4096 * c.range(1, c.chance(1, 6) ? 1000 : 8), al = c.chance(1, 3) ? c.pow2(12, 14) : 0;
        void *q = nullptr;
        c.note("provider alloc %zu (%zu) from %s", s, al, pkn[p.kind]);
        arm();
        umf_result_t r = umfMemoryProviderAlloc(p.h, s, al, &q);
        bool h = hit();
        c.op();
        if (r && p.kind == FIXED)
            return;
        if (!ok(r, h, "provider alloc"))
            return;
        uintptr_t a = (uintptr_t)q;
        PCHECK(c, a && (!al || a % al == 0), "align", "alignment");
        for (auto &o : pl)
            PCHECK(c, !o->m.overlap(a, s), "overlap", "memory of the provider overlaps a live block of a pool");
        for (auto &o : pv)
            for (auto &b : o->blocks)
                PCHECK(c, a + s <= b.first || b.first + b.second.size <= a, "overlap", "memory of the provider overlaps a live block");
        Block b{s, al, tag++ * 1315423911u, s};
        fill(q, s, b.tag);
        p.blocks[a] = b;
    }
    bool pick_pblock(Prov *&p, uintptr_t &a) {
        std::vector<Prov *> v;
        for (auto &x : pv)
            if (!x->blocks.empty())
                v.push_back(x.get());
        if (v.empty())
            return false;
        p = v[c.index_of(v.size())];
        auto it = p->blocks.begin();
        std::advance(it, (long)c.index_of(p->blocks.size()));
        a = it->first;
        return true;
    }
    void prov_free(Prov &p, uintptr_t a, bool faults) {
        Block b = p.blocks[a];
        verify_block(b, a, "before provider free");
        c.note("provider free %p", (void *)a);
        if (faults)
            arm();
        else
            f0 = ba::failed;
        umf_result_t r = umfMemoryProviderFree(p.h, (void *)a, b.size);
        bool h = hit();
        c.op();
        if (!ok(r, h, "provider free")) {
            verify_block(b, a, "after a failed provider free");
            r = umfMemoryProviderFree(p.h, (void *)a, b.size);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "refree", "memory whose free failed for lack of memory cannot be freed later: %s", rs(r));
        }
        p.blocks.erase(a);
    }
    // split and merge, directly or through a pool's (tracking) provider
    void split_merge() {
        umf_memory_provider_handle_t ph;
        std::map<uintptr_t, Block> *m;
        PoolW *via = nullptr;
        if (c.chance(1, 2)) {
            Prov *p;
            uintptr_t a;
            if (!pick_pblock(p, a))
                return;
            ph = p->h, m = &p->blocks;
        } else {
            std::vector<PoolW *> v;
            for (auto &x : pl)
                if (x->kind == PASS && !x->m.live.empty())
                    v.push_back(x.get());
            if (v.empty())
                return;
            via = v[c.index_of(v.size())];
            ph = via->pass->p, m = &via->m.live;
        }
        auto it = m->begin();
        std::advance(it, (long)c.index_of(m->size()));
        uintptr_t a = it->first;
        Block b = it->second;
        if (via && via->handles.count(a))
            return;
        auto nx = std::next(it);
        if (nx != m->end() && nx->first == a + b.size && !(via && via->handles.count(nx->first)) && c.chance(2, 3)) {
            uintptr_t a2 = nx->first;
            Block b2 = nx->second;
            verify_block(b, a, "before merge"), verify_block(b2, a2, "before merge");
            c.note("merge %p+%zu and %p+%zu", (void *)a, b.size, (void *)a2, b2.size);
            arm();
            umf_result_t r = umfMemoryProviderAllocationMerge(ph, (void *)a, (void *)a2, b.size + b2.size);
            bool h = hit();
            c.op();
            verify_block(b, a, "after merge"), verify_block(b2, a2, "after merge");
            if (r && !h)
                return; // separate allocations
            if (!ok(r, h, "merge"))
                return;
            m->erase(a2);
            Block nb{b.size + b2.size, b.align, tag++ * 1315423911u, b.size + b2.size};
            fill((void *)a, nb.size, nb.tag);
            (*m)[a] = nb;
            if (via)
                via->pass->sz.erase(a2), via->pass->sz[a] = nb.size;
            if (via)
                PCHECK(c, umfPoolByPtr((void *)(a + nb.size - 1)) == via->h, "byptr", "the end of a merged block is not found");
        } else if (b.size > 4096) {
            size_t f = 4096 * c.range(1, b.size / 4096 - 1);
            c.note("split %p+%zu at %zu", (void *)a, b.size, f);
            arm();
            umf_result_t r = umfMemoryProviderAllocationSplit(ph, (void *)a, b.size, f);
            bool h = hit();
            c.op();
            verify_block(b, a, "after split");
            if (!ok(r, h, "split"))
                return;
            Block l{f, 0, tag++ * 1315423911u, f}, u{b.size - f, 0, tag++ * 1315423911u, b.size - f};
            fill((void *)a, f, l.tag), fill((void *)(a + f), u.size, u.tag);
            (*m)[a] = l, (*m)[a + f] = u;
            if (via) {
                via->pass->sz[a] = f, via->pass->sz[a + f] = u.size;
                PCHECK(c, umfPoolByPtr((void *)a) == via->h && umfPoolByPtr((void *)(a + f)) == via->h, "byptr", "a part of a split block is not found");
            }
        }
    }
    bool sharing(PoolW &q) { return (q.prov->kind == OSS || q.prov->kind == FILEP) && q.ih; }
    void ipc() {
        unsigned k = (unsigned)c.weighted({4, 2, 4, 3});
        if (k == 0) {
            PoolW *q;
            uintptr_t a;
            if (!pick_block(q, a) || !sharing(*q))
                return;
            umf_ipc_handle_t hh = nullptr;
            size_t sz = 0;
            c.note("get handle of %p", (void *)a);
            arm();
            umf_result_t r = umfGetIPCHandle((void *)a, &hh, &sz);
            bool h = hit();
            c.op();
            if (!ok(r, h, "umfGetIPCHandle"))
                return;
            PCHECK(c, hh && sz, "handle", "no IPC handle");
            hd.push_back({hh, q, a});
            q->handles[a]++;
        } else if (k == 1 && !hd.empty())
            put(c.index_of(hd.size()), true);
        else if (k == 2 && !hd.empty()) {
            Hd &x = hd[c.index_of(hd.size())];
            PoolW *via = x.pool;
            if (x.pool->prov->kind == OSS)
                for (auto &o : pl)
                    if (o->prov->kind == OSS && c.chance(1, 3))
                        via = o.get();
            char *q = nullptr;
            c.note("open handle of %p", (void *)x.blk);
            arm();
            umf_result_t r = umfOpenIPCHandle(via->ih, x.h, (void **)&q);
            bool h = hit();
            c.op();
            if (!ok(r, h, "umfOpenIPCHandle"))
                return;
            Block &b = x.pool->m.live[x.blk];
            size_t y = verify(q, b.size, b.tag);
            PCHECK(c, y == SIZE_MAX, "ipc.content", "byte %zu of opened memory differs", y);
            op.push_back({q, via, x.pool, x.blk});
            via->opened++;
            x.pool->handles[x.blk]++;
        } else if (k == 3 && !op.empty())
            close(c.index_of(op.size()), true);
    }
    void unref(PoolW *q, uintptr_t a) {
        if (--q->handles[a] == 0)
            q->handles.erase(a);
    }
    void put(size_t i, bool faults) {
        Hd x = hd[i];
        if (faults)
            arm();
        umf_result_t r = umfPutIPCHandle(x.h);
        hit();
        PCHECK(c, r == UMF_RESULT_SUCCESS, "put", "umfPutIPCHandle: %s", rs(r));
        unref(x.pool, x.blk);
        hd.erase(hd.begin() + (long)i);
    }
    void close(size_t i, bool faults) {
        Op x = op[i];
        Block &b = x.pool->m.live[x.blk];
        size_t y = verify(x.q, b.size, b.tag);
        PCHECK(c, y == SIZE_MAX, "ipc.content", "byte %zu of opened memory differs before closing", y);
        if (faults)
            arm();
        umf_result_t r = umfCloseIPCHandle(x.q);
        hit();
        PCHECK(c, r == UMF_RESULT_SUCCESS, "close", "umfCloseIPCHandle: %s", rs(r));
        x.via->opened--;
        unref(x.pool, x.blk);
        op.erase(op.begin() + (long)i);
    }
    void ctl() {
        if (pv.empty())
            return;
        Prov &p = *pv[c.index_of(pv.size())];
        if (p.kind != OSP && p.kind != OSS)
            return;
        size_t v = 0;
        arm();
        umf_result_t r = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", p.h, &v);
        bool h = hit();
        if (!ok(r, h, "umfCtlGet"))
            return;
        size_t want = 0;
        for (auto &b : p.blocks)
            want += b.second.size;
        if (!p.pools)
            PCHECK(c, v == want, "stats", "%zu bytes are allocated, the provider says %zu", want, v);
    }
    void drop_pool(size_t i, bool faults) {
        PoolW &q = *pl[i];
        for (size_t j = op.size(); j-- > 0;)
            if (op[j].via == &q || op[j].pool == &q)
                close(j, faults);
        for (size_t j = hd.size(); j-- > 0;)
            if (hd[j].pool == &q)
                put(j, faults);
        while (!q.m.live.empty())
            pool_free(q, q.m.live.begin()->first, faults);
        c.note("destroy a %s pool", qkn[q.kind]);
        if (faults)
            arm();
        umfPoolDestroy(q.h);
        hit();
        q.prov->pools--;
        if (q.prov->kind == MOCK && !q.prov->pools)
            PCHECK(c, q.prov->mock->live.size() == q.prov->blocks.size(), "lost", "%zu allocations of the provider are left after its pools were destroyed, %zu are known (last: %s)", q.prov->mock->live.size(), q.prov->blocks.size(), qkn[q.kind]);
        pl.erase(pl.begin() + (long)i);
    }
    void drop_prov(size_t i, bool faults) {
        Prov &p = *pv[i];
        if (p.pools)
            return;
        while (!p.blocks.empty())
            prov_free(p, p.blocks.begin()->first, faults);
        if (p.kind == FIXED) {
            void *q = nullptr;
            umf_result_t r = umfMemoryProviderAlloc(p.h, p.len, 0, &q);
            PCHECK(c, r == UMF_RESULT_SUCCESS && q == p.buf, "lost.fixed", "the whole buffer of %zu bytes cannot be allocated after everything was freed: %s", p.len, rs(r));
            umfMemoryProviderFree(p.h, q, p.len);
        }
        if (p.kind == OSP || p.kind == OSS) {
            size_t v = 1;
            umf_result_t r = umfCtlGet("umf.provider.by_handle.stats.allocated_memory", p.h, &v);
            PCHECK(c, r == UMF_RESULT_SUCCESS && v == 0, "lost.os", "%zu bytes are allocated from the OS provider after everything was freed (%s)", v, rs(r));
        }
        c.note("destroy a %s provider", pkn[p.kind]);
        if (faults)
            arm();
        umfMemoryProviderDestroy(p.h);
        hit();
        if (p.kind == MOCK)
            PCHECK(c, p.mock->fini == p.mock->init, "fini", "a provider was finalized %u times", (unsigned)p.mock->fini);
        if (p.mock && p.mock->arena)
            munmap(p.mock->arena, p.mock->cap);
        if (p.buf)
            munmap(p.buf, p.len);
        pv.erase(pv.begin() + (long)i);
    }
    void destroy_all() {
        while (!pl.empty())
            drop_pool(pl.size() - 1, false);
        while (!pv.empty())
            drop_prov(pv.size() - 1, false);
    }
};
static size_t fds() {
    size_t n = 0;
    for (int i = 0; i < 256; i++)
        if (fcntl(i, F_GETFD) != -1)
            n++;
    return n;
}
static void ctl_pool(umf_memory_provider_handle_t p) {
#if !defined(__SANITIZE_THREAD__)
    umf_memory_pool_handle_t q = nullptr;
    int v = 0;
    umfPoolCreate(umfScalablePoolOps(), p, nullptr, 0, &q);
    umf_result_t r = umfCtlGet("umf.pool.by_handle.params.tracking_enabled", q, &v);
    (void)r;
    umfPoolDestroy(q);
#endif
}
static void history(Ctx &c, bool oom) {
    bool warm = !oom || c.chance(7, 8);
    { // what is made once
        W w{c, false};
        for (int k = 0; k < NPK; k++)
            w.add_prov((PK)k);
        for (auto &p : w.pv) {
            umf_memory_pool_handle_t q = nullptr;
            umfPoolCreate(umfProxyPoolOps(), p->h, nullptr, 0, &q);
            umfPoolFree(q, umfPoolMalloc(q, 4096));
            umfPoolDestroy(q);
#if !defined(__SANITIZE_THREAD__)
            umfPoolCreate(umfScalablePoolOps(), p->h, nullptr, 0, &q);
            umfPoolDestroy(q);
#endif
        }
        if (warm) {
            size_t v = 0;
            umfCtlGet("umf.provider.by_handle.stats.allocated_memory", w.pv[OSP]->h, &v);
            ctl_pool(w.pv[OSP]->h);
        }
        w.destroy_all();
    }
    size_t fd0 = fds();
    W w{c, oom};
    unsigned n = (unsigned)c.size(120);
    w.add_prov((PK)c.range(0, NPK - 1));
    w.add_pool();
    for (unsigned i = 0; i < n; i++) {
        switch (c.weighted({1, 2, 12, 8, 2, 4, 3, 3, 6, 1, 1, 1})) {
        case 0:
            if (w.pv.size() < 4)
                w.add_prov((PK)c.range(0, NPK - 1));
            break;
        case 1:
            if (w.pl.size() < 5)
                w.add_pool();
            break;
        case 2:
            if (!w.pl.empty())
                w.pool_alloc();
            break;
        case 3: {
            PoolW *q;
            uintptr_t a;
            if (w.pick_block(q, a) && !q->handles.count(a))
                w.pool_free(*q, a, true);
            break;
        }
        case 4: w.pool_realloc(); break;
        case 5: w.prov_alloc(); break;
        case 6: {
            Prov *p;
            uintptr_t a;
            if (w.pick_pblock(p, a))
                w.prov_free(*p, a, true);
            break;
        }
        case 7: w.split_merge(); break;
        case 8: w.ipc(); break;
        case 9: w.ctl(); break;
        case 10:
            if (!w.pl.empty())
                w.drop_pool(c.index_of(w.pl.size()), true);
            break;
        default:
            if (!w.pv.empty())
                w.drop_prov(c.index_of(w.pv.size()), true);
        }
    }
    for (auto &q : w.pl)
        for (auto &b : q->m.live)
            w.verify_block(b.second, b.first, "at the end");
    w.destroy_all();
    PCHECK(c, fds() == fd0, "leak.fd", "%zu descriptors are open after everything was destroyed, %zu before", fds(), fd0);
    umfTearDown(); // what was kept for reuse goes too
    // the trees of CTL names of the OS provider and the scalable pool stay
    PCHECK(c, ba::live == 0, "leak", "%ld pieces of the library's memory are left after everything was destroyed", (long)ba::live);
    if (oom ? (w.hits >= 2 && w.oks >= 5) : w.oks >= 8)
        c.nontrivial();
}
static void oom(Ctx &c) { history(c, true); }
static void balance(Ctx &c) { history(c, false); }
// The library starts, or reports that it could not, leaves nothing behind and
// starts the next time.
static void init(Ctx &c) {
    umfTearDown(); // the constructor's
    PCHECK(c, ba::live == 0, "leak", "%ld pieces of memory are left after the library's end", (long)ba::live);
    unsigned n = (unsigned)c.range(1, 4), refused = 0, started = 0;
    for (unsigned i = 0; i < n; i++) {
        for (unsigned t = 0; t < 4; t++) {
            long f0 = ba::failed;
            ba::failIn = t < 3 && c.chance(3, 4) ? (long)c.range(1, 20) : 0;
            int r = umfInit();
            ba::failIn = 0;
            c.op();
            bool hit = ba::failed != f0;
            PCHECK(c, hit == (r != 0), "init", "umfInit returned %d, and memory was %srefused", r, hit ? "" : "not ");
            if (!r)
                break;
            refused++;
            PCHECK(c, ba::live == 0, "leak.init", "%ld pieces of memory are lost after a refused start", (long)ba::live);
        }
        started++;
        for (unsigned k = c.chance(1, 12) ? (unsigned)c.range(1, 250) : 0; k; k--) {
            umfTearDown();
            PCHECK(c, ba::live == 0, "leak", "%ld pieces of memory are left after the library's end", (long)ba::live);
            PCHECK(c, umfInit() == 0, "init.cycle", "umfInit failed");
        }
        unsigned nest = (unsigned)c.range(0, 3);
        for (unsigned k = 0; k < nest; k++)
            PCHECK(c, umfInit() == 0, "init.again", "umfInit of a running library failed");
        W w{c, false};
        unsigned k = (unsigned)c.range(0, 30);
        for (unsigned j = 0; j < 2; j++) {
            w.add_prov(j ? (PK)c.range(0, NPK - 1) : OSS);
            w.add_pool();
        }
        for (unsigned j = 0; j < k; j++)
            switch (c.range(0, 4)) {
            case 0:
            case 1: w.pool_alloc(); break;
            case 2: w.ipc(); break;
            case 3: w.ctl(); break;
            default: {
                PoolW *q;
                uintptr_t a;
                if (w.pick_block(q, a) && !q->handles.count(a))
                    w.pool_free(*q, a, false);
            }
            }
        for (unsigned k2 = 0; k2 < nest; k2++)
            umfTearDown();
        for (auto &q : w.pl)
            for (auto &b : q->m.live) {
                w.verify_block(b.second, b.first, "after a nested end");
                PCHECK(c, umfPoolByPtr((void *)b.first) == q->h, "byptr", "a block is not found after a nested end");
            }
        w.destroy_all();
        umfTearDown();
        PCHECK(c, ba::live == 0, "leak", "%ld pieces of memory are left after the library's end", (long)ba::live);
    }
    PCHECK(c, umfInit() == 0, "init.last", "umfInit failed"); // for the destructor
    if (refused && started)
        c.nontrivial();
}
// Memory refused while the predefined memspaces, filters, policies and what is
// made from them are created: no call lies, nothing is lost, and what was not
// refused is right.
static void memspaces(Ctx &c) {
    umfTearDown(); // the constructor's
    nh::Topo t = nh::gen_topo(c, 6, true);
    nh::use_topo(c, t);
    nh::note_topo(c, t);
    unsigned hits = 0, oks = 0, rounds = (unsigned)c.range(1, 3);
    for (unsigned round = 0; round < rounds; round++) {
        PCHECK(c, umfInit() == 0, "init", "umfInit failed");
        bool tried[4] = {}, lost[4] = {};
        umf_const_memspace_handle_t first[4] = {};
        std::vector<umf_memspace_handle_t> own;
        struct Pr { umf_memory_provider_handle_t h; void *p; };
        std::vector<Pr> prs;
        long f0 = 0;
        auto arm = [&](unsigned mx) {
            f0 = ba::failed;
            ba::failIn = c.chance(1, 2) ? (long)c.range(1, mx) : 0;
            c.op();
        };
        auto hit = [&] {
            ba::failIn = 0;
            bool h = ba::failed != f0;
            hits += h;
            return h;
        };
        auto ids = [&](umf_const_memspace_handle_t h) {
            std::vector<unsigned> v;
            for (unsigned i = 0; i < umfMemspaceMemtargetNum(h); i++) {
                unsigned id = ~0u;
                PCHECK(c, umfMemtargetGetId(umfMemspaceMemtargetGet(h, i), &id) == UMF_RESULT_SUCCESS, "ms.id", "target %u", i);
                v.push_back(id);
            }
            return v;
        };
        auto getter = [&](unsigned k) -> umf_const_memspace_handle_t {
            return k == 0 ? umfMemspaceHostAllGet() : k == 1 ? umfMemspaceHighestCapacityGet() : k == 2 ? umfMemspaceHighestBandwidthGet() : umfMemspaceLowestLatencyGet();
        };
        unsigned n = (unsigned)c.range(1, 16);
        for (unsigned i = 0; i < n; i++) {
            unsigned k = (unsigned)c.range(0, 3);
            switch (c.weighted({6, 3, 3, 2})) {
            case 0: {
                arm(2 + 3 * (unsigned)t.nodes.size());
                umf_const_memspace_handle_t h = getter(k);
                bool r = hit();
                c.note("memspace %u%s -> %s", k, r ? " (refused)" : "", h ? "ok" : "none");
                lost[k] |= r, lost[0] |= r && !tried[0];
                if (k)
                    lost[k] |= lost[0] && !first[0];
                tried[k] = tried[0] = true;
                bool have = k == 2 ? t.bwAll : k == 3 ? t.latAll : true;
                PCHECK(c, h || lost[k] || !have, "ms.none", "predefined memspace %u is missing though nothing was refused", k);
                PCHECK(c, !first[k] || h == first[k], "ms.other", "predefined memspace %u changes", k);
                if (!first[0])
                    first[0] = umfMemspaceHostAllGet();
                if (!h)
                    break;
                oks++;
                first[k] = h;
                std::vector<unsigned> v = ids(h);
                std::set<unsigned> got(v.begin(), v.end()), all = t.ids();
                PCHECK(c, got.size() == v.size(), "ms.dup", "a node is there twice");
                if (k < 2)
                    PCHECK(c, got == all, "ms.nodes", "memspace %u has other nodes", k);
                for (size_t j = 1; k == 1 && j < v.size(); j++)
                    PCHECK(c, t.byOs(v[j - 1])->mem >= t.byOs(v[j])->mem, "ms.order", "the highest-capacity memspace is not sorted");
                for (unsigned x : got)
                    PCHECK(c, all.count(x), "ms.nodes", "memspace %u has a node %u", k, x);
                for (unsigned g = 0; k >= 2 && g < t.groups; g++) {
                    bool one = false;
                    uint64_t best = 0;
                    for (auto &d : t.nodes)
                        if (d.group == g)
                            best = std::max(best, k == 2 ? d.bw : UINT64_MAX - d.lat);
                    for (auto &d : t.nodes)
                        one |= d.group == g && got.count(d.os) && (k == 2 ? d.bw : UINT64_MAX - d.lat) == best;
                    PCHECK(c, one, "ms.best", "memspace %u has no best node of group %u", k, g);
                }
                break;
            }
            case 1: { // a provider of a predefined memspace
                if (!first[k])
                    break;
                Pr p = {nullptr, nullptr};
                arm(16);
                umf_result_t r = umfMemoryProviderCreateFromMemspace(first[k], nullptr, &p.h);
                bool x = hit();
                lost[1] |= x && !first[1]; // it asks for the highest-capacity memspace
                PCHECK(c, x ? (r == UMF_RESULT_SUCCESS || r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY) : r == UMF_RESULT_SUCCESS, "ms.provider", "memspace %u: %s, memory was %srefused", k, rs(r), x ? "" : "not ");
                if (r)
                    break;
                oks++;
                arm(4);
                umf_memory_pool_handle_t none = nullptr;
                umf_result_t rp = umfPoolCreateFromMemspace(first[k], nullptr, &none);
                x = hit();
                PCHECK(c, !none && (rp == UMF_RESULT_ERROR_NOT_SUPPORTED || (x && rp == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY)), "ms.pool", "a pool of memspace %u: %s", k, rs(rp));
                umf_result_t ra = umfMemoryProviderAlloc(p.h, 4096, 0, &p.p);
                PCHECK(c, ra == UMF_RESULT_SUCCESS, "ms.alloc", "memspace %u: %s", k, rs(ra));
                prs.push_back(p);
                break;
            }
            case 2: { // a copy that selects
                if (!first[k])
                    break;
                umf_memspace_handle_t o = nullptr;
                arm(4 + 2 * (unsigned)t.nodes.size());
                umf_result_t r = umfMemspaceClone(first[k], &o);
                bool x = hit();
                PCHECK(c, x ? (r == UMF_RESULT_SUCCESS || r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY) : r == UMF_RESULT_SUCCESS, "ms.copy", "memspace %u: %s, memory was %srefused", k, rs(r), x ? "" : "not ");
                if (r)
                    break;
                oks++;
                PCHECK(c, ids(o) == ids(first[k]), "ms.copy", "a copy of memspace %u has other targets", k);
                own.push_back(o);
                break;
            }
            default: { // one target less
                if (own.empty())
                    break;
                umf_memspace_handle_t o = own[c.index_of(own.size())];
                std::vector<unsigned> v = ids(o);
                if (v.empty())
                    break;
                size_t j = c.index_of(v.size());
                if (c.chance(1, 3)) { // those a filter keeps
                    unsigned m = (unsigned)c.range(0, 255), *pm = &m;
                    arm(3);
                    umf_result_t r = umfMemspaceUserFilter(o, [](umf_const_memspace_handle_t, umf_const_memtarget_handle_t g, void *a) {
                        unsigned id = 0;
                        umfMemtargetGetId(g, &id);
                        return (int)(*(unsigned *)a >> (id % 8) & 1); }, pm);
                    bool x = hit();
                    PCHECK(c, x ? (r == UMF_RESULT_SUCCESS || r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY) : r == UMF_RESULT_SUCCESS, "ms.filter", "%s, memory was %srefused", rs(r), x ? "" : "not ");
                    if (!r)
                        v.erase(std::remove_if(v.begin(), v.end(), [&](unsigned id) { return !(m >> (id % 8) & 1); }), v.end());
                    PCHECK(c, ids(o) == v, "ms.filter", "other targets than the filter keeps");
                    break;
                }
                arm(2);
                umf_result_t r = umfMemspaceMemtargetRemove(o, umfMemspaceMemtargetGet(o, (unsigned)j));
                bool x = hit();
                PCHECK(c, x ? r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY : r == UMF_RESULT_SUCCESS, "ms.remove", "%s, memory was %srefused", rs(r), x ? "" : "not ");
                if (!r)
                    v.erase(v.begin() + (long)j);
                PCHECK(c, ids(o) == v, "ms.remove", "the other targets changed");
            }
            }
        }
        for (auto &p : prs) {
            umfMemoryProviderFree(p.h, p.p, 4096);
            umfMemoryProviderDestroy(p.h);
        }
        for (auto o : own)
            umfMemspaceDestroy(o);
        umfTearDown();
        PCHECK(c, ba::live == 0, "leak", "%ld pieces of the library's memory are left after its end", (long)ba::live);
    }
    PCHECK(c, umfInit() == 0, "init.last", "umfInit failed"); // for the destructor
    if (hits && oks)
        c.nontrivial();
}
int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C26", "a history in which at least two requests for memory were refused and five calls succeeded (balance: at least eight calls succeeded)",
                         {{"oom", oom, 40000, 600000, 40}, {"balance", balance, 8000, 100000, 40}, {"init", init, 3000, 40000, 40}, {"memspaces", memspaces, 6000, 80000, 40}});
}

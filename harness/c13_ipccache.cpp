// C13: IPC handles and mappings balance. Pools over a mock provider whose IPC
// operations are recorded: every handle taken is given back once before its
// block is freed, every mapping opened is closed once, by the provider that
// opened it, never while in use, and the bound on cached mappings evicts the
// least recently used ones.
#define WBA_POOLS
#include "wrapba.hpp"
#include "umfh.hpp"
#include <umf/ipc.h>
#include <atomic>

#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace h;
extern "C" int umfInit(void);
extern "C" void umfTearDown(void);

struct IMock;
struct Wd {
    Ctx &c;
    std::mutex m;
    uint64_t nextBlk = 0x510000000000ull, nextMap = 0x620000000000ull, serial = 0;
    std::vector<std::pair<uintptr_t, size_t>> freeMap; // closed mapping ranges
    bool recycle = true;
    uint64_t clock = 0;
    explicit Wd(Ctx &cc) : c(cc) {}
};
struct Data { // provider's IPC data
    uint64_t magic, prov, get, blk, size;
};
struct MapRec {
    uint64_t blk;
    size_t size;
    long refs = 0; // user references
    uint64_t used = 0;
};
struct IMock {
    Wd *w = nullptr;
    unsigned id = 0;
    size_t pad = 0; // extra handle bytes
    struct B {
        size_t size;
        uint64_t serial;
    };
    std::map<uintptr_t, B> blocks;
    std::map<uint64_t, uintptr_t> gets; // outstanding handles
    std::map<uintptr_t, MapRec> maps;   // live mappings
    std::vector<std::pair<uintptr_t, size_t>> freeBlk;
    uint64_t nget = 0, nput = 0, nopen = 0, nclose = 0, lost = 0, fini = 0;
    std::vector<uint64_t> closedUsed; // last use of mappings closed since reset
    bool closedReplaced = false;
    umf_result_t failGetSize = UMF_RESULT_SUCCESS, failGet = UMF_RESULT_SUCCESS, failPut = UMF_RESULT_SUCCESS, failOpen = UMF_RESULT_SUCCESS,
                 failClose = UMF_RESULT_SUCCESS, failFree = UMF_RESULT_SUCCESS, failSplit = UMF_RESULT_SUCCESS;
};
#define M ((IMock *)pv)
static umf_result_t take(umf_result_t &f) {
    umf_result_t r = f;
    f = UMF_RESULT_SUCCESS;
    return r;
}
static umf_result_t i_init(void *params, void **priv) {
    *priv = params;
    return UMF_RESULT_SUCCESS;
}
static void i_fini(void *pv) { M->fini++; }
static umf_result_t i_alloc(void *pv, size_t s, size_t a, void **o) {
    std::lock_guard<std::mutex> g(M->w->m);
    s = s ? s : 1;
    size_t len = up(s, 4096);
    uintptr_t p = 0;
    for (size_t i = 0; i < M->freeBlk.size(); i++)
        if (M->freeBlk[i].second >= len && (!a || M->freeBlk[i].first % a == 0)) {
            p = M->freeBlk[i].first;
            M->freeBlk.erase(M->freeBlk.begin() + (long)i);
            break;
        }
    if (!p) {
        p = a ? up(M->w->nextBlk, a) : M->w->nextBlk;
        M->w->nextBlk = up(p + len, 4096);
    }
    M->blocks[p] = {s, ++M->w->serial};
    *o = (void *)p;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t i_free(void *pv, void *p, size_t s) {
    std::lock_guard<std::mutex> g(M->w->m);
    if (!p)
        return UMF_RESULT_SUCCESS;
    auto it = M->blocks.find((uintptr_t)p);
    PCHECK(M->w->c, it != M->blocks.end() && it->second.size == s, "free", "provider %u freed %p size %zu, not such a block", M->id, p, s);
    for (auto &x : M->gets)
        PCHECK(M->w->c, x.second < (uintptr_t)p || x.second >= (uintptr_t)p + s, "free.handle", "block %p freed while its IPC handle is still held", p);
    if (umf_result_t r = take(M->failFree))
        return r;
    if (M->w->recycle)
        M->freeBlk.push_back({it->first, up(s, 4096)});
    M->blocks.erase(it);
    return UMF_RESULT_SUCCESS;
}
static void i_native(void *, const char **m, int32_t *e) {
    *m = "imock";
    *e = 0;
}
static umf_result_t i_rec(void *, size_t, size_t *o) {
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t i_min(void *, void *, size_t *o) {
    *o = 4096;
    return UMF_RESULT_SUCCESS;
}
static const char *i_name(void *) { return "imock"; }
static umf_result_t i_split(void *pv, void *p, size_t t, size_t f) {
    std::lock_guard<std::mutex> g(M->w->m);
    if (umf_result_t r = take(M->failSplit))
        return r;
    auto it = M->blocks.find((uintptr_t)p);
    PCHECK(M->w->c, it != M->blocks.end() && it->second.size == t && f && f < t, "split", "bad split");
    it->second = {f, ++M->w->serial};
    M->blocks[(uintptr_t)p + f] = {t - f, ++M->w->serial};
    return UMF_RESULT_SUCCESS;
}
static umf_result_t i_merge(void *pv, void *l, void *hp, size_t t) {
    std::lock_guard<std::mutex> g(M->w->m);
    if (umf_result_t r = take(M->failSplit))
        return r;
    auto a = M->blocks.find((uintptr_t)l), b = M->blocks.find((uintptr_t)hp);
    PCHECK(M->w->c, a != M->blocks.end() && b != M->blocks.end() && a->second.size + b->second.size == t, "merge", "bad merge");
    M->blocks.erase(b);
    a->second = {t, ++M->w->serial};
    return UMF_RESULT_SUCCESS;
}
static umf_result_t i_isize(void *pv, size_t *s) {
    std::lock_guard<std::mutex> g(M->w->m);
    if (umf_result_t r = take(M->failGetSize))
        return r;
    *s = sizeof(Data) + M->pad;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t i_get(void *pv, const void *p, size_t s, void *d) {
    std::lock_guard<std::mutex> g(M->w->m);
    auto it = M->blocks.find((uintptr_t)p);
    PCHECK(M->w->c, it != M->blocks.end() && it->second.size == s, "get", "provider %u asked for the handle of %p size %zu, not such a live block", M->id, p,
           s);
    if (umf_result_t r = take(M->failGet))
        return r;
    Data x = {0xfeedbeefcafeull, M->id, ++M->w->serial, it->second.serial, s};
    memcpy(d, &x, sizeof x);
    memset((char *)d + sizeof x, (int)(x.get & 0xff), M->pad);
    M->gets[x.get] = (uintptr_t)p;
    M->nget++;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t i_put(void *pv, void *d) {
    std::lock_guard<std::mutex> g(M->w->m);
    Data x;
    memcpy(&x, d, sizeof x);
    PCHECK(M->w->c, x.magic == 0xfeedbeefcafeull && x.prov == M->id && M->gets.count(x.get), "put",
           "provider %u was given back a handle it has not handed out or already got back", M->id);
    M->gets.erase(x.get);
    M->nput++;
    return take(M->failPut);
}
static umf_result_t i_open(void *pv, void *d, void **o) {
    std::lock_guard<std::mutex> g(M->w->m);
    Wd &w = *M->w;
    Data x;
    memcpy(&x, d, sizeof x);
    bool padOk = x.magic == 0xfeedbeefcafeull;
    for (size_t i = 0; i < M->pad; i++)
        padOk = padOk && ((unsigned char *)d)[sizeof x + i] == (x.get & 0xff);
    PCHECK(w.c, padOk, "open.data", "provider %u asked to open altered handle data", M->id);
    if (umf_result_t r = take(M->failOpen))
        return r;
    size_t len = up(x.size, 4096);
    uintptr_t p = 0;
    for (size_t i = 0; i < w.freeMap.size(); i++)
        if (w.freeMap[i].second >= len) {
            p = w.freeMap[i].first;
            w.freeMap.erase(w.freeMap.begin() + (long)i);
            break;
        }
    if (!p) {
        p = w.nextMap;
        w.nextMap += len;
    }
    MapRec r;
    r.blk = x.blk;
    r.size = x.size;
    M->maps[p] = r;
    M->nopen++;
    *o = (void *)p;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t i_close(void *pv, void *p, size_t s) {
    std::lock_guard<std::mutex> g(M->w->m);
    auto it = M->maps.find((uintptr_t)p);
    PCHECK(M->w->c, it != M->maps.end(), "close.unknown", "provider %u asked to close %p, which it has not opened or has already closed", M->id, p);
    PCHECK(M->w->c, it->second.size == s, "close.size", "provider %u asked to close %p with size %zu, opened with %zu", M->id, p, s, it->second.size);
    PCHECK(M->w->c, it->second.refs == 0, "close.used", "provider %u asked to close %p while %ld users have it open", M->id, p, it->second.refs);
    M->closedUsed.push_back(it->second.used);
    M->nclose++;
    if (umf_result_t r = take(M->failClose)) {
        M->lost++; // stays mapped, UMF will not ask again
        M->maps.erase(it);
        return r;
    }
    M->w->freeMap.push_back({it->first, up(it->second.size, 4096)});
    M->maps.erase(it);
    return UMF_RESULT_SUCCESS;
}
#undef M
static umf_memory_provider_ops_t imock_ops() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = i_init;
    o.finalize = i_fini;
    o.alloc = i_alloc;
    o.free = i_free;
    o.get_last_native_error = i_native;
    o.get_recommended_page_size = i_rec;
    o.get_min_page_size = i_min;
    o.get_name = i_name;
    o.ext.allocation_split = i_split;
    o.ext.allocation_merge = i_merge;
    o.ipc.get_ipc_handle_size = i_isize;
    o.ipc.get_ipc_handle = i_get;
    o.ipc.put_ipc_handle = i_put;
    o.ipc.open_ipc_handle = i_open;
    o.ipc.close_ipc_handle = i_close;
    return o;
}
// a pool that hands out provider blocks and lets the harness split and merge
struct Pass {
    umf_memory_provider_handle_t p;
    std::map<uintptr_t, size_t> sz;
};
static Pass *passNow;
static umf_result_t q_init(umf_memory_provider_handle_t p, void *, void **priv) {
    passNow = new Pass{p, {}};
    *priv = passNow;
    return UMF_RESULT_SUCCESS;
}
static void q_fini(void *p) { delete (Pass *)p; }
static void *q_aligned(void *pp, size_t s, size_t a) {
    Pass *p = (Pass *)pp;
    void *q = nullptr;
    if (umfMemoryProviderAlloc(p->p, s, a, &q))
        return nullptr;
    p->sz[(uintptr_t)q] = s;
    return q;
}
static void *q_malloc(void *pp, size_t s) { return q_aligned(pp, s, 0); }
static void *q_calloc(void *, size_t, size_t) { return nullptr; }
static void *q_realloc(void *, void *, size_t) { return nullptr; }
static size_t q_usable(void *pp, void *q) { return ((Pass *)pp)->sz[(uintptr_t)q]; }
static umf_result_t q_free(void *pp, void *q) {
    Pass *p = (Pass *)pp;
    umf_result_t r = umfMemoryProviderFree(p->p, q, p->sz[(uintptr_t)q]);
    if (!r)
        p->sz.erase((uintptr_t)q);
    return r;
}
static umf_result_t q_err(void *) { return UMF_RESULT_SUCCESS; }
static umf_memory_pool_ops_t pass_ops() {
    umf_memory_pool_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_POOL_OPS_VERSION_CURRENT;
    o.initialize = q_init;
    o.finalize = q_fini;
    o.malloc = q_malloc;
    o.calloc = q_calloc;
    o.realloc = q_realloc;
    o.aligned_malloc = q_aligned;
    o.malloc_usable_size = q_usable;
    o.free = q_free;
    o.get_last_allocation_error = q_err;
    return o;
}

struct Pool {
    IMock *mk;
    umf_memory_provider_handle_t prov;
    umf_memory_pool_handle_t h;
    umf_ipc_handler_handle_t handler;
    Pass *pass; // or null
};
struct Blk {
    unsigned pool;
    size_t size;
    uint64_t serial;
    bool handleTaken = false;
};
struct Hd {
    umf_ipc_handle_t h;
    std::vector<char> copy; // as sent to another process
    size_t size;
    uintptr_t blk;
    uint64_t serial;
    size_t off;
};
struct Open {
    unsigned pool;
    uintptr_t ptr, map;
    uintptr_t blk;
};

static long baBase;
static void reinit(size_t max) {
    umfTearDown();
    baBase = ba::live;
    char b[32];
    snprintf(b, sizeof b, "%zu", max);
    if (max)
        setenv("UMF_MAX_OPENED_IPC_HANDLES", b, 1);
    else
        unsetenv("UMF_MAX_OPENED_IPC_HANDLES");
    umfInit();
}

// the library keeps nothing of what it no longer needs
static void memory(Ctx &c) {
    umfTearDown();
    PCHECK(c, ba::live == baBase, "memory", "%ld pieces of the library's memory are left", (long)(ba::live - baBase));
    umfInit();
}
static void history(Ctx &c) {
    size_t max = c.chance(1, 3) ? 0 : c.range(1, 4);
    bool faults = c.chance(1, 2);
    reinit(max);
    c.note("UMF_MAX_OPENED_IPC_HANDLES=%zu faults=%d", max, faults);
    Wd w(c);
    umf_memory_provider_ops_t ops = imock_ops();
    umf_memory_pool_ops_t pops = pass_ops();
    std::vector<Pool> ps;
    std::vector<IMock *> all;
    std::map<uintptr_t, Blk> blks;
    std::vector<Hd> hs;
    std::vector<Open> op;
    size_t peakRef = 0;
    uint64_t evictions = 0, hits = 0, failures = 0, splits = 0, replaced = 0, reuse = 0;
    bool anyFailedOpen = false;
    std::set<uintptr_t> everFreed;
    auto addPool = [&] {
        Pool p;
        p.mk = new IMock;
        p.mk->w = &w;
        p.mk->id = (unsigned)all.size() + 1;
        p.mk->pad = c.oneof<size_t>({0, 0, 3, 64});
        if (!all.empty())
            p.mk->pad = all[0]->pad;
        all.push_back(p.mk);
        umf_result_t r = umfMemoryProviderCreate(&ops, p.mk, &p.prov);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "prov", "provider: %s", rs(r));
        bool pass = c.chance(1, 2);
        passNow = nullptr;
        r = umfPoolCreate(pass ? &pops : umfProxyPoolOps(), p.prov, nullptr, 0, &p.h);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "pool", "pool: %s", rs(r));
        p.pass = pass ? passNow : nullptr;
        r = umfPoolGetIPCHandler(p.h, &p.handler);
        PCHECK(c, r == UMF_RESULT_SUCCESS && p.handler, "handler", "umfPoolGetIPCHandler: %s", rs(r));
        ps.push_back(p);
    };
    auto closeOpen = [&](size_t i) {
        Open o = op[i];
        op.erase(op.begin() + (long)i);
        IMock &mk = *ps[o.pool].mk;
        auto it = mk.maps.find(o.map);
        PCHECK(c, it != mk.maps.end() && it->second.refs > 0, "gone", "the mapping %p of an open handle is gone", (void *)o.map);
        it->second.refs--;
        umf_result_t r = umfCloseIPCHandle((void *)o.ptr);
        c.note("close %p -> %s", (void *)o.ptr, rs(r));
        PCHECK(c, r == UMF_RESULT_SUCCESS, "close.result", "umfCloseIPCHandle of an open pointer: %s", rs(r));
    };
    auto dropHandles = [&](uintptr_t b) {
        for (size_t i = hs.size(); i-- > 0;)
            if (hs[i].blk == b) {
                umf_result_t r = umfPutIPCHandle(hs[i].h);
                PCHECK(c, r == UMF_RESULT_SUCCESS, "putapi", "umfPutIPCHandle: %s", rs(r));
                hs.erase(hs.begin() + (long)i);
            }
    };
    auto closeAllOf = [&](uintptr_t b) {
        for (size_t i = op.size(); i-- > 0;)
            if (op[i].blk == b)
                closeOpen(i);
    };
    auto referenced = [&] {
        std::set<std::pair<unsigned, uintptr_t>> s;
        for (auto &o : op)
            s.insert({o.pool, o.map});
        return s.size();
    };
    auto alive = [&] {
        size_t n = 0;
        for (auto &p : ps)
            n += p.mk->maps.size();
        return n;
    };
    auto failcode = [&] {
        umf_result_t e = gen_error(c);
        return e == UMF_RESULT_SUCCESS ? UMF_RESULT_ERROR_UNKNOWN : e;
    };
    unsigned np = (unsigned)c.range(1, 4);
    for (unsigned i = 0; i < np; i++)
        addPool();
    unsigned nops = (unsigned)c.range(5, 60);
    for (unsigned n = 0; n < nops; n++) {
        c.op();
        unsigned k = (unsigned)c.weighted({6, 3, 7, 12, 8, 2, 2, 1, 1});
        if (blks.empty())
            k = 0;
        else if (k == 3 && hs.empty())
            k = 2;
        else if (k == 4 && op.empty())
            k = 3;
        if (k == 3 && hs.empty())
            k = 2;
        auto pickBlk = [&] {
            auto it = blks.begin();
            std::advance(it, (long)c.index_of(blks.size()));
            return it;
        };
        switch (k) {
        case 0: { // allocate
            unsigned pi = (unsigned)c.index_of(ps.size());
            size_t s = c.chance(1, 2) ? c.range(1, 200) : c.range(1, 16) * 4096;
            void *p = umfPoolMalloc(ps[pi].h, s);
            PCHECK(c, p && ps[pi].mk->blocks.count((uintptr_t)p), "alloc", "allocation failed");
            if (everFreed.count((uintptr_t)p))
                reuse++;
            blks[(uintptr_t)p] = {pi, s, ps[pi].mk->blocks[(uintptr_t)p].serial};
            c.note("pool %u alloc %zu -> %p", pi, s, p);
            break;
        }
        case 1: { // free
            auto it = pickBlk();
            uintptr_t b = it->first;
            Blk x = it->second;
            closeAllOf(b);
            dropHandles(b);
            IMock &mk = *ps[x.pool].mk;
            if (faults && c.chance(1, 4)) {
                mk.failPut = failcode();
                failures++;
            }
            bool refuse = faults && c.chance(1, 5);
            if (refuse)
                mk.failFree = failcode();
            umf_result_t r = umfPoolFree(ps[x.pool].h, (void *)b);
            c.note("free %p -> %s", (void *)b, rs(r));
            mk.failPut = mk.failFree = UMF_RESULT_SUCCESS;
            for (auto &g : mk.gets)
                PCHECK(c, g.second != b, "put.missing", "the handle of %p was not given back when the block was freed", (void *)b);
            if (refuse) {
                everFreed.insert(b); // a new handle is taken for it next time
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free.result", "free: %s", rs(r));
            blks.erase(it);
            everFreed.insert(b);
            break;
        }
        case 2: { // take a handle, of any address inside
            auto it = pickBlk();
            Blk &x = it->second;
            IMock &mk = *ps[x.pool].mk;
            size_t off = c.chance(1, 2) ? 0 : c.range(0, x.size - 1);
            umf_result_t want = UMF_RESULT_SUCCESS;
            if (faults && c.chance(1, 5)) {
                want = failcode();
                (c.chance(1, 3) ? mk.failGetSize : mk.failGet) = want;
            }
            Hd hd;
            hd.h = (umf_ipc_handle_t)0x31;
            size_t sz = 0x32, sz2 = 0;
            uint64_t g0 = mk.nget;
            umf_result_t r = umfGetIPCHandle((void *)(it->first + off), &hd.h, &sz);
            c.note("get handle of %p+%zu -> %s", (void *)it->first, off, rs(r));
            bool fired = want && !mk.failGet && !mk.failGetSize;
            mk.failGet = mk.failGetSize = UMF_RESULT_SUCCESS;
            if (fired) {
                failures++;
                PCHECK(c, r == want && hd.h == (umf_ipc_handle_t)0x31 && sz == 0x32, "get.fail", "the provider failed with %s, umfGetIPCHandle: %s", rs(want),
                       rs(r));
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "get.result", "umfGetIPCHandle of a live block: %s", rs(r));
            PCHECK(c, mk.nget - g0 <= 1, "get.many", "%zu handles taken at once", (size_t)(mk.nget - g0));
            PCHECK(c, umfPoolGetIPCHandleSize(ps[x.pool].h, &sz2) == UMF_RESULT_SUCCESS && sz == sz2 && sz > sizeof(Data) + mk.pad, "handle.size",
                   "handle size %zu, umfPoolGetIPCHandleSize %zu", sz, sz2);
            hd.size = sz;
            hd.copy.assign((char *)hd.h, (char *)hd.h + sz);
            hd.blk = it->first;
            hd.serial = x.serial;
            hd.off = off;
            hs.push_back(hd);
            break;
        }
        case 3: { // open
            Hd &hd = hs[c.index_of(hs.size())];
            unsigned pi = (unsigned)c.index_of(ps.size());
            IMock &mk = *ps[pi].mk;
            umf_result_t want = UMF_RESULT_SUCCESS;
            if (faults && c.chance(1, 5))
                mk.failOpen = want = failcode();
            IMock *cl = nullptr; // somebody's close fails
            if (faults && c.chance(1, 8)) {
                cl = ps[c.index_of(ps.size())].mk;
                cl->failClose = failcode();
            }
            uint64_t opens0 = 0, closes0 = 0;
            for (auto &p : ps) {
                opens0 += p.mk->nopen;
                closes0 += p.mk->nclose;
                p.mk->closedUsed.clear();
            }
            uintptr_t known = 0;
            for (auto &x : mk.maps)
                if (x.second.blk == hd.serial)
                    known = x.first;
            size_t alive0 = alive();
            uint64_t oldest = UINT64_MAX; // least recent use of an unused mapping
            for (auto &p : ps)
                for (auto &x : p.mk->maps)
                    if (!x.second.refs)
                        oldest = std::min(oldest, x.second.used);
            // an earlier mapping of the same address (now another block)
            bool stale = everFreed.count(hd.blk) || replaced;
            void *q = (void *)0x77;
            umf_ipc_handle_t use = c.chance(1, 2) ? hd.h : (umf_ipc_handle_t)hd.copy.data();
            umf_result_t r = umfOpenIPCHandle(ps[pi].handler, use, &q);
            c.note("open handle of %p+%zu in pool %u -> %s %p", (void *)hd.blk, hd.off, pi, rs(r), q);
            bool fired = want && !mk.failOpen;
            mk.failOpen = UMF_RESULT_SUCCESS;
            if (cl)
                cl->failClose = UMF_RESULT_SUCCESS;
            uint64_t opens = 0, closes = 0;
            std::vector<uint64_t> cu;
            for (auto &p : ps) {
                opens += p.mk->nopen;
                closes += p.mk->nclose;
                cu.insert(cu.end(), p.mk->closedUsed.begin(), p.mk->closedUsed.end());
            }
            evictions += closes - closes0;
            PCHECK(c, closes - closes0 <= 1, "evict.many", "opening one handle closed %zu mappings", (size_t)(closes - closes0));
            if (!stale && !cu.empty()) {
                PCHECK(c, max && !known, "evict.early", "opening a handle closed another mapping although %s", max ? "it is open already" : "the cache is unbounded");
                PCHECK(c, cu[0] == oldest, "evict.lru", "opening a handle closed a mapping used more recently than another unused one");
                if (!anyFailedOpen)
                    PCHECK(c, alive0 >= max, "evict.early", "a mapping was closed with only %zu of %zu open", alive0, max);
            }
            if (fired) {
                failures++;
                anyFailedOpen = true;
                peakRef = std::max(peakRef, referenced() + 1); // takes a place as well
                PCHECK(c, r == want, "open.fail", "the provider failed with %s, umfOpenIPCHandle: %s", rs(want), rs(r));
                PCHECK(c, opens == opens0, "open.fail.count", "opened although failing");
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "open.result", "umfOpenIPCHandle: %s", rs(r));
            uintptr_t base = (uintptr_t)q - hd.off;
            auto it = mk.maps.find(base);
            PCHECK(c, it != mk.maps.end() && it->second.blk == hd.serial, "open.ptr",
                   "the handle of %p+%zu opened at %p, which is not that offset in a mapping of that block", (void *)hd.blk, hd.off, q);
            if (known && (!stale || opens == opens0)) {
                hits++;
                PCHECK(c, base == known && opens == opens0, "open.again", "an open handle was mapped once more");
            } else
                PCHECK(c, opens == opens0 + 1, "open.count", "%zu mappings made", (size_t)(opens - opens0));
            it->second.refs++;
            it->second.used = ++w.clock;
            op.push_back({pi, (uintptr_t)q, base, hd.blk});
            peakRef = std::max(peakRef, referenced());
            if (max && !stale)
                PCHECK(c, alive() <= std::max(max, peakRef), "bound", "%zu mappings are open, the bound is %zu (%zu were in use at once)", alive(), max,
                       peakRef);
            break;
        }
        case 4:
            closeOpen(c.index_of(op.size()));
            break;
        case 5: { // give the handle back; the copy stays usable until the free
            if (hs.empty())
                break;
            size_t i = c.index_of(hs.size());
            PCHECK(c, umfPutIPCHandle(hs[i].h) == UMF_RESULT_SUCCESS, "putapi", "umfPutIPCHandle");
            hs.erase(hs.begin() + (long)i);
            break;
        }
        case 6: { // split a block, or merge two
            auto it = pickBlk();
            Pool &p = ps[it->second.pool];
            if (!p.pass || it->second.size < 2)
                break;
            uintptr_t b = it->first;
            auto nx = std::next(it);
            bool merge = it->second.size % 4096 == 0 && nx != blks.end() && nx->second.pool == it->second.pool && b + it->second.size == nx->first && p.mk->blocks.count(nx->first);
            closeAllOf(b);
            dropHandles(b);
            bool refuse = faults && c.chance(1, 5);
            if (refuse)
                p.mk->failSplit = failcode();
            if (merge) {
                // only what was split from one block may be merged: the mock
                // never places two blocks back to back unless page sized
                uintptr_t b2 = nx->first;
                closeAllOf(b2);
                dropHandles(b2);
                size_t t = it->second.size + nx->second.size;
                umf_result_t r = umfMemoryProviderAllocationMerge(p.pass->p, (void *)b, (void *)b2, t);
                c.note("merge %p %p -> %s", (void *)b, (void *)b2, rs(r));
                p.mk->failSplit = UMF_RESULT_SUCCESS;
                PCHECK(c, (r == UMF_RESULT_SUCCESS) == !refuse, "merge.result", "merge: %s", rs(r));
                if (!r) {
                    p.pass->sz[b] = t;
                    p.pass->sz.erase(b2);
                    it->second.size = t;
                    blks.erase(nx);
                }
            } else {
                size_t t = it->second.size;
                if (t <= 4096) {
                    p.mk->failSplit = UMF_RESULT_SUCCESS;
                    break;
                }
                size_t f = 4096 * c.range(1, (t - 1) / 4096);
                umf_result_t r = umfMemoryProviderAllocationSplit(p.pass->p, (void *)b, t, f);
                c.note("split %p %zu/%zu -> %s", (void *)b, f, t, rs(r));
                p.mk->failSplit = UMF_RESULT_SUCCESS;
                PCHECK(c, (r == UMF_RESULT_SUCCESS) == !refuse, "split.result", "split: %s", rs(r));
                if (!r) {
                    p.pass->sz[b] = f;
                    p.pass->sz[b + f] = t - f;
                    it->second.size = f;
                    blks[b + f] = {it->second.pool, t - f, 0};
                }
            }
            replaced++;
            splits++;
            for (auto &x : blks)
                if (ps[x.second.pool].mk->blocks.count(x.first))
                    x.second.serial = ps[x.second.pool].mk->blocks[x.first].serial;
            break;
        }
        case 7: { // pointers UMF does not know
            uintptr_t x = c.oneof<uintptr_t>({0, 1, 0x7f0000000000ull, UINTPTR_MAX, 0x620000000000ull - 1});
            umf_result_t r = umfCloseIPCHandle((void *)x);
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "close.unknown.ptr", "closing %p, which is not open: %s", (void *)x, rs(r));
            umf_ipc_handle_t hh = nullptr;
            size_t z = 0;
            r = umfGetIPCHandle((void *)x, &hh, &z);
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "get.unknown.ptr", "handle of %p, which is not allocated: %s", (void *)x, rs(r));
            break;
        }
        default: { // replace a pool
            unsigned pi = (unsigned)c.index_of(ps.size());
            for (size_t i = op.size(); i-- > 0;)
                if (op[i].pool == pi)
                    closeOpen(i);
            for (auto it = blks.begin(); it != blks.end();)
                if (it->second.pool == pi) {
                    closeAllOf(it->first);
                    dropHandles(it->first);
                    umf_result_t r = umfPoolFree(ps[pi].h, (void *)it->first);
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "free.result", "free: %s", rs(r));
                    everFreed.insert(it->first);
                    it = blks.erase(it);
                } else
                    ++it;
            IMock &mk = *ps[pi].mk;
            umfPoolDestroy(ps[pi].h);
            umfMemoryProviderDestroy(ps[pi].prov);
            PCHECK(c, mk.maps.empty() && mk.nopen == mk.nclose, "destroy.maps", "%zu mappings left open by the destroyed pool", mk.maps.size());
            PCHECK(c, mk.gets.empty() && mk.fini == 1, "destroy.gets", "%zu handles left by the destroyed pool", mk.gets.size());
            c.note("destroyed pool %u", pi);
            Pool last = ps.back();
            unsigned li = (unsigned)ps.size() - 1;
            ps[pi] = last;
            ps.pop_back();
            for (auto &x : blks)
                if (x.second.pool == li)
                    x.second.pool = pi;
            for (auto &x : op)
                if (x.pool == li)
                    x.pool = pi;
            addPool();
        }
        }
        for (auto &o : op) {
            auto &mp = ps[o.pool].mk->maps;
            PCHECK(c, mp.count(o.map), "gone", "the mapping %p in use was closed", (void *)o.map);
        }
    }
    while (!op.empty())
        closeOpen(op.size() - 1);
    while (!hs.empty())
        dropHandles(hs.back().blk);
    for (auto &x : blks)
        PCHECK(c, umfPoolFree(ps[x.second.pool].h, (void *)x.first) == UMF_RESULT_SUCCESS, "free.result", "free");
    for (auto &p : ps) {
        umfPoolDestroy(p.h);
        umfMemoryProviderDestroy(p.prov);
        IMock &mk = *p.mk;
        PCHECK(c, mk.maps.empty() && mk.nopen == mk.nclose, "destroy.maps", "%zu mappings left open", mk.maps.size());
        PCHECK(c, mk.gets.empty() && mk.nget == mk.nput, "destroy.gets", "%zu handles left", mk.gets.size());
        PCHECK(c, mk.blocks.empty(), "destroy.blocks", "blocks left");
    }
    if (evictions)
        c.label("evictions");
    if (hits)
        c.label("cache hits");
    if (failures)
        c.label("failures");
    if (splits)
        c.label("split/merge");
    if (reuse)
        c.label("address reused");
    if (evictions + hits + failures >= 2)
        c.nontrivial();
    for (auto *m : all)
        delete m;
    memory(c);
}

static void conc(Ctx &c) {
    size_t max = c.chance(1, 4) ? 0 : c.range(1, 3);
    reinit(max);
    Wd w(c);
    w.recycle = c.chance(1, 2);
    umf_memory_provider_ops_t ops = imock_ops();
    std::vector<Pool> ps;
    std::vector<IMock *> all;
    unsigned np = (unsigned)c.range(1, 3);
    for (unsigned i = 0; i < np; i++) {
        Pool p;
        p.mk = new IMock;
        p.mk->w = &w;
        p.mk->id = i + 1;
        umfMemoryProviderCreate(&ops, p.mk, &p.prov);
        umf_result_t r = umfPoolCreate(umfProxyPoolOps(), p.prov, nullptr, 0, &p.h);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "pool", "pool: %s", rs(r));
        umfPoolGetIPCHandler(p.h, &p.handler);
        ps.push_back(p);
    }
    struct Sh {
        uintptr_t p;
        uint64_t serial;
        unsigned pool;
        umf_ipc_handle_t h;
        size_t size;
    };
    std::vector<Sh> sh;
    unsigned nb = (unsigned)c.range(1, 6);
    for (unsigned i = 0; i < nb; i++) {
        unsigned pi = (unsigned)c.index_of(np);
        size_t s = c.range(1, 8) * 4096, sz;
        Sh x;
        x.p = (uintptr_t)umfPoolMalloc(ps[pi].h, s);
        x.serial = ps[pi].mk->blocks[x.p].serial;
        x.pool = pi;
        x.size = s;
        umf_result_t r = umfGetIPCHandle((void *)x.p, &x.h, &sz);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "get", "handle: %s", rs(r));
        sh.push_back(x);
    }
    unsigned nt = (unsigned)c.range(2, 4), iters = (unsigned)c.range(20, 200);
    unsigned faults = c.chance(1, 3) ? (unsigned)c.range(3, 12) : 0;
    uint64_t seed = c.range(1, UINT32_MAX);
    std::atomic<bool> stop{false};
    std::string err;
    std::mutex em;
    auto bad = [&](const std::string &s) {
        std::lock_guard<std::mutex> g(em);
        if (err.empty())
            err = s;
        stop = true;
    };
    std::atomic<unsigned> ready{0};
    auto body = [&](unsigned t) {
        uint64_t s = mixu(seed + t * 77777);
        auto rnd = [&](uint64_t n) {
            s = mixu(s + 0x9e3779b97f4a7c15ull);
            return s % n;
        };
        struct O {
            unsigned pool;
            uintptr_t ptr, map;
        };
        std::vector<O> mine;
        auto closeOne = [&](size_t i) {
            O o = mine[i];
            mine.erase(mine.begin() + (long)i);
            {
                std::lock_guard<std::mutex> g(w.m);
                auto it = ps[o.pool].mk->maps.find(o.map);
                if (it == ps[o.pool].mk->maps.end())
                    return bad("a mapping in use has been closed");
                it->second.refs--;
            }
            umf_result_t r = umfCloseIPCHandle((void *)o.ptr);
            if (r)
                bad(std::string("umfCloseIPCHandle: ") + rs(r));
        };
        ready++;
        while (ready < nt) {
        }
        for (unsigned i = 0; i < iters && !stop; i++) {
            switch (rnd(4)) {
            case 0: // private block: handle, open in some pool, close, free
            {
                unsigned pi = (unsigned)rnd(np);
                if (rnd(2)) { // handle of a shared block, taken concurrently
                    Sh &x = sh[rnd(sh.size())];
                    umf_ipc_handle_t hd = nullptr;
                    size_t z;
                    umf_result_t r = umfGetIPCHandle((void *)x.p, &hd, &z);
                    if (r)
                        bad(std::string("umfGetIPCHandle: ") + rs(r));
                    else
                        umfPutIPCHandle(hd);
                    break;
                }
                void *p = umfPoolMalloc(ps[pi].h, 4096 * (1 + rnd(4)));
                umf_ipc_handle_t hd = nullptr;
                size_t z;
                umf_result_t r = umfGetIPCHandle(p, &hd, &z);
                if (r)
                    bad(std::string("umfGetIPCHandle: ") + rs(r));
                else
                    umfPutIPCHandle(hd);
                r = umfPoolFree(ps[pi].h, p);
                if (r)
                    bad(std::string("umfPoolFree: ") + rs(r));
                break;
            }
            case 1:
                if (!mine.empty())
                    closeOne(rnd(mine.size()));
                break;
            default: {
                Sh &x = sh[rnd(sh.size())];
                unsigned pi = (unsigned)rnd(np);
                if (faults && rnd(faults) == 0) {
                    std::lock_guard<std::mutex> g(w.m);
                    ps[pi].mk->failOpen = UMF_RESULT_ERROR_OUT_OF_RESOURCES;
                }
                void *q = nullptr;
                umf_result_t r = umfOpenIPCHandle(ps[pi].handler, x.h, &q);
                if (r) {
                    if (!(faults && r == UMF_RESULT_ERROR_OUT_OF_RESOURCES))
                        bad(std::string("umfOpenIPCHandle: ") + rs(r));
                    break;
                }
                std::lock_guard<std::mutex> g(w.m);
                auto it = ps[pi].mk->maps.find((uintptr_t)q);
                if (it == ps[pi].mk->maps.end() || it->second.blk != x.serial) {
                    bad("a handle opened at an address that is not a mapping of its block");
                    break;
                }
                it->second.refs++;
                mine.push_back({pi, (uintptr_t)q, (uintptr_t)q});
            }
            }
            while (mine.size() > 3)
                closeOne(rnd(mine.size()));
        }
        while (!mine.empty())
            closeOne(mine.size() - 1);
    };
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nt; t++)
        ts.emplace_back(body, t);
    for (auto &t : ts)
        t.join();
    for (unsigned i = 0; i < nt * 10; i++)
        c.op();
    PCHECK(c, err.empty(), "conc", "%u threads: %s", nt, err.c_str());
    uint64_t closes = 0;
    for (auto &p : ps)
        closes += p.mk->nclose;
    for (auto &x : sh) {
        umfPutIPCHandle(x.h);
        PCHECK(c, umfPoolFree(ps[x.pool].h, (void *)x.p) == UMF_RESULT_SUCCESS, "free", "free");
    }
    for (auto &p : ps) {
        umfPoolDestroy(p.h);
        umfMemoryProviderDestroy(p.prov);
        PCHECK(c, p.mk->maps.empty() && p.mk->nopen == p.mk->nclose, "conc.maps", "%zu mappings left open", p.mk->maps.size());
        PCHECK(c, p.mk->gets.empty() && p.mk->nget == p.mk->nput, "conc.gets", "%zu handles left", p.mk->gets.size());
        delete p.mk;
    }
    memory(c);
    if (closes >= 5) {
        c.label("evictions");
        c.nontrivial();
    } else if (max == 0)
        c.nontrivial();
}

// ---- producers that are copies of each other ----------------------------------
// Forked processes have blocks at the same addresses and handles with the same
// numbers; a mapping of one may not be handed out for another.
static void peers(Ctx &c) {
    size_t max = c.chance(1, 2) ? 0 : c.range(1, 4);
    reinit(max);
    Wd w(c);
    umf_memory_provider_ops_t ops = imock_ops();
    size_t pad = c.oneof<size_t>({0, 0, 3, 64});
    unsigned np = (unsigned)c.range(2, 4), nb = (unsigned)c.range(1, 3), depth = (unsigned)c.range(0, 2);
    std::vector<size_t> size(nb);
    for (auto &s : size)
        s = c.chance(1, 2) ? 4096 * c.range(1, 6) : c.range(1, 20000);
    struct Src {
        std::vector<char> h;
        uintptr_t blk;
        uint64_t serial;
        size_t off;
    };
    std::vector<std::vector<Src>> src(np);
    auto make = [&](umf_memory_pool_handle_t pl, IMock &mk, auto &&out) {
        for (unsigned k = 0; k < nb; k++) {
            uintptr_t p = (uintptr_t)umfPoolMalloc(pl, size[k]);
            size_t off = size[k] > 1 ? size[k] / 3 : 0, hs = 0;
            umf_ipc_handle_t h = nullptr;
            if (!p || umfGetIPCHandle((void *)(p + off), &h, &hs))
                _exit(3);
            out(p, mk.blocks[p].serial, off, h, hs);
        }
    };
    for (unsigned i = 0; i < np; i++) {
        int fd[2];
        if (pipe(fd))
            c.discard("pipe");
        pid_t pid = fork();
        if (!pid) {
            alarm(15);
            close(fd[0]);
            w.serial = (uint64_t)(i + 1) << 20;
            IMock mk;
            mk.w = &w;
            mk.id = 100;
            mk.pad = pad;
            umf_memory_provider_handle_t pr;
            umf_memory_pool_handle_t pl;
            if (umfMemoryProviderCreate(&ops, &mk, &pr) || umfPoolCreate(umfProxyPoolOps(), pr, nullptr, 0, &pl))
                _exit(2);
            make(pl, mk, [&](uintptr_t p, uint64_t s, size_t off, umf_ipc_handle_t h, size_t hs) {
                if (write(fd[1], &p, 8) != 8 || write(fd[1], &s, 8) != 8 || write(fd[1], &off, 8) != 8 || write(fd[1], &hs, 8) != 8 ||
                    write(fd[1], h, hs) != (ssize_t)hs)
                    _exit(4);
            });
            _exit(0);
        }
        close(fd[1]);
        auto rd = [&](void *p, size_t n) {
            for (size_t got = 0; got < n;) {
                ssize_t z = read(fd[0], (char *)p + got, n - got);
                if (z <= 0)
                    return false;
                got += (size_t)z;
            }
            return true;
        };
        bool ok = true;
        for (unsigned k = 0; ok && k < nb; k++) {
            Src s;
            size_t hs = 0;
            ok = rd(&s.blk, 8) && rd(&s.serial, 8) && rd(&s.off, 8) && rd(&hs, 8) && hs < 65536;
            if (ok) {
                s.h.resize(hs);
                ok = rd(s.h.data(), hs);
            }
            src[i].push_back(s);
        }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0); // its process is gone, its mappings are the mock's
        PCHECK(c, ok && WIFEXITED(st) && WEXITSTATUS(st) == 0, "producer", "producer %u made no handles (status %x)", i, st);
    }
    bool same = src[0][0].blk == src[1][0].blk;
    std::vector<Pool> ps((size_t)c.range(1, 2));
    for (auto &p : ps) {
        p.mk = new IMock;
        p.mk->w = &w;
        p.mk->id = (unsigned)(&p - ps.data()) + 1;
        p.mk->pad = pad;
        umf_result_t r = umfMemoryProviderCreate(&ops, p.mk, &p.prov);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "prov", "provider: %s", rs(r));
        r = umfPoolCreate(umfProxyPoolOps(), p.prov, nullptr, 0, &p.h);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "pool", "pool: %s", rs(r));
        umfPoolGetIPCHandler(p.h, &p.handler);
    }
    struct O {
        unsigned pool, peer, blk;
        uintptr_t q, base;
    };
    std::vector<O> os;
    auto shut = [&](size_t j) {
        O o = os[j];
        os.erase(os.begin() + (long)j);
        auto it = ps[o.pool].mk->maps.find(o.base);
        PCHECK(c, it != ps[o.pool].mk->maps.end() && it->second.refs > 0, "gone", "the mapping %p of an open handle is gone", (void *)o.base);
        it->second.refs--;
        umf_result_t r = umfCloseIPCHandle((void *)o.q);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "close.result", "umfCloseIPCHandle of an open pointer: %s", rs(r));
    };
    bool twoPeers = false;
    for (unsigned n = (unsigned)c.range(6, 20u + 20 * depth); n > 0; n--) {
        c.op();
        if (!os.empty() && c.chance(2, 5)) {
            shut(c.index_of(os.size()));
            continue;
        }
        O o;
        o.pool = (unsigned)c.index_of(ps.size());
        o.peer = (unsigned)c.index_of(np);
        o.blk = (unsigned)c.index_of(nb);
        Src &s = src[o.peer][o.blk];
        IMock &mk = *ps[o.pool].mk;
        void *q = nullptr;
        umf_result_t r = umfOpenIPCHandle(ps[o.pool].handler, (umf_ipc_handle_t)s.h.data(), &q);
        c.note("pool %u opens block %u (%p) of producer %u -> %s %p", o.pool, o.blk, (void *)s.blk, o.peer, rs(r), q);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "open.result", "open: %s", rs(r));
        o.q = (uintptr_t)q;
        o.base = o.q - s.off;
        auto it = mk.maps.find(o.base);
        PCHECK(c, it != mk.maps.end(), "open.where", "%p is no mapping of provider %u", q, mk.id);
        PCHECK(c, it->second.blk == s.serial, "open.foreign", "block %u of producer %u was asked for, a mapping of block %llx was handed out (its is %llx)", o.blk,
               o.peer, (unsigned long long)it->second.blk, (unsigned long long)s.serial);
        it->second.refs++;
        for (auto &x : os) {
            if (x.pool == o.pool && x.peer == o.peer && x.blk == o.blk)
                PCHECK(c, x.base == o.base, "open.twice", "a handle that is open was opened again elsewhere");
            twoPeers |= x.peer != o.peer && x.blk == o.blk;
        }
        os.push_back(o);
    }
    while (!os.empty())
        shut(os.size() - 1);
    for (auto &p : ps) {
        umfPoolDestroy(p.h);
        umfMemoryProviderDestroy(p.prov);
        PCHECK(c, p.mk->maps.empty() && p.mk->nopen == p.mk->nclose, "maps", "%zu mappings left open", p.mk->maps.size());
        delete p.mk;
    }
    memory(c);
    if (same)
        c.label("producers with the same addresses");
    if (twoPeers)
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C13",
                         "a history counts when it sees at least two evictions, cache hits or failures; a concurrent one when mappings are evicted or the cache is unbounded; one with peers when the same block of two producers is open at once",
                         {{"history", history, 60000, 1500000, 20, false}, {"conc", conc, 3000, 60000, 30, true}, {"peers", peers, 3000, 60000, 30}});
}

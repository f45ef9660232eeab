// C05: which pool owns a pointer (umfPoolByPtr, umfFree), with pools nested in
// blocks of other pools, and provider blocks split and merged.
#include "umfh.hpp"
#include <atomic>
#include "provider_tracking.h"
using namespace h;

struct Node;
// a user-defined pool that keeps the provider handle it was given
struct RawPool {
    umf_memory_provider_handle_t prov = nullptr;
    Node *node = nullptr;
};
struct Region {
    size_t size;
    int kids = 0; // nodes living inside
};
struct Node {
    umf_memory_pool_handle_t pool = nullptr;
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_provider_ops_t ops;
    Mock mock; // its upstream
    RawPool raw;
    bool isRaw = false;
    Node *parent = nullptr;
    uintptr_t base = 0; // the parent's region it lives in (sub-providers)
    size_t len = 0;
    unsigned depth = 0;
    std::map<uintptr_t, Region> regs;
    bool dead = false;
    umf_result_t lastErr = UMF_RESULT_SUCCESS;
};

static umf_result_t rp_init(umf_memory_provider_handle_t p, void *params, void **out) {
    auto *r = (RawPool *)params;
    r->prov = p;
    *out = r;
    return UMF_RESULT_SUCCESS;
}
static void rp_fini(void *) {}
static void *rp_malloc(void *p, size_t s) {
    auto *r = (RawPool *)p;
    void *ptr = nullptr;
    r->node->lastErr = umfMemoryProviderAlloc(r->prov, s, 0, &ptr);
    return r->node->lastErr == UMF_RESULT_SUCCESS ? ptr : nullptr;
}
static void *rp_amalloc(void *p, size_t s, size_t) { return rp_malloc(p, s); }
static umf_result_t rp_free(void *p, void *ptr) {
    auto *r = (RawPool *)p;
    auto it = r->node->regs.find((uintptr_t)ptr);
    if (it == r->node->regs.end())
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    return umfMemoryProviderFree(r->prov, ptr, it->second.size);
}
static umf_result_t rp_err(void *p) { return ((RawPool *)p)->node->lastErr; }
static void *rp_calloc(void *, size_t, size_t) { return nullptr; }
static void *rp_realloc(void *, void *, size_t) { return nullptr; }
static size_t rp_usable(void *, void *) { return 0; }

struct World {
    Ctx &c;
    std::vector<Node *> nodes;
    umf_memory_pool_ops_t rops;
    std::vector<uintptr_t> dead; // addresses freed lately
};

static Node *add_node(World &w, Node *parent, uintptr_t base, size_t len, bool raw) {
    Ctx &c = w.c;
    Node *n = new Node;
    n->isRaw = raw;
    n->parent = parent;
    n->base = base;
    n->len = len;
    n->depth = parent ? parent->depth + 1 : 0;
    n->ops = mock_ops(true);
    if (!parent) {
        n->mock.open(&c, 256u << 20, 4096);
    } else {
        n->mock.c = &c;
        n->mock.arena = (unsigned char *)base;
        n->mock.cap = len;
        n->mock.page = 64;
        n->mock.bump = c.chance(1, 2) ? 0 : 64 * c.range(0, 3);
        n->mock.protect = false;
        parent->regs[base].kids++;
    }
    n->mock.place = (unsigned)c.range(0, 1);
    n->prov = mock_provider(c, &n->mock, &n->ops);
    n->raw.node = n;
    umf_result_t r = raw ? umfPoolCreate(&w.rops, n->prov, &n->raw, 0, &n->pool)
                         : umfPoolCreate(umfProxyPoolOps(), n->prov, nullptr, 0, &n->pool);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "pool.create", "%s", rs(r));
    w.nodes.push_back(n);
    c.note("pool%zu: %s, depth %u, in %p..+%zu", w.nodes.size() - 1, raw ? "raw" : "proxy", n->depth, (void *)base, len);
    return n;
}
static int id(World &w, umf_memory_pool_handle_t p) {
    for (size_t i = 0; i < w.nodes.size(); i++)
        if (!w.nodes[i]->dead && w.nodes[i]->pool == p)
            return (int)i;
    return p ? -2 : -1;
}
static Node *owner(World &w, uintptr_t q, uintptr_t *b = nullptr, size_t *s = nullptr) {
    Node *best = nullptr;
    for (auto *n : w.nodes) {
        if (n->dead)
            continue;
        auto it = n->regs.upper_bound(q);
        if (it == n->regs.begin())
            continue;
        --it;
        if (q < it->first + it->second.size && (!best || n->depth > best->depth)) {
            best = n;
            if (b)
                *b = it->first;
            if (s)
                *s = it->second.size;
        }
    }
    return best;
}
static void query(World &w, uintptr_t q) {
    Ctx &c = w.c;
    uintptr_t b = 0;
    size_t s = 0;
    Node *o = owner(w, q, &b, &s);
    umf_memory_pool_handle_t p = umfPoolByPtr((void *)q);
    PCHECK(c, p == (o ? o->pool : nullptr), "bypt", "umfPoolByPtr(%p) gives pool%d, expected pool%d", (void *)q, id(w, p), o ? id(w, o->pool) : -1);
    if (o) {
        umf_alloc_info_t ai = {nullptr, 0, nullptr};
        umf_result_t r = umfMemoryTrackerGetAllocInfo((void *)q, &ai);
        PCHECK(c, r == UMF_RESULT_SUCCESS && (uintptr_t)ai.base == b && ai.baseSize == s, "allocinfo",
               "the allocation around %p is reported as %p..+%zu, it is %p..+%zu", (void *)q, ai.base, ai.baseSize, (void *)b, s);
    }
}
static void query_some(World &w, unsigned k) {
    Ctx &c = w.c;
    for (unsigned i = 0; i < k; i++) {
        Node *n = w.nodes[c.index_of(w.nodes.size())];
        if (n->dead || n->regs.empty()) {
            if (!w.dead.empty())
                query(w, c.pick(w.dead));
            continue;
        }
        auto it = n->regs.begin();
        std::advance(it, (long)c.index_of(n->regs.size()));
        uintptr_t b = it->first, e = b + it->second.size;
        switch (c.range(0, 4)) {
        case 0:
            query(w, b);
            break;
        case 1:
            query(w, e - 1);
            break;
        case 2:
            query(w, e);
            break;
        case 3:
            query(w, b - 1);
            break;
        default:
            query(w, b + c.range(0, it->second.size - 1));
        }
    }
}

static void run(Ctx &c) {
    World w{c, {}, {}, {}};
    memset(&w.rops, 0, sizeof(w.rops));
    w.rops.version = UMF_POOL_OPS_VERSION_CURRENT;
    w.rops.initialize = rp_init;
    w.rops.finalize = rp_fini;
    w.rops.malloc = rp_malloc;
    w.rops.aligned_malloc = rp_amalloc;
    w.rops.calloc = rp_calloc;
    w.rops.realloc = rp_realloc;
    w.rops.malloc_usable_size = rp_usable;
    w.rops.free = rp_free;
    w.rops.get_last_allocation_error = rp_err;
    unsigned roots = (unsigned)c.range(1, 3);
    for (unsigned i = 0; i < roots; i++)
        add_node(w, nullptr, 0, 0, c.chance(2, 3));
    unsigned nops = (unsigned)c.range(1, c.thorough ? 250 : 110), nested = 0, splits = 0, merges = 0, frees = 0;
    bool deep = c.chance(1, 4);
    std::vector<unsigned> wts = {(unsigned)c.range(2, 6), (unsigned)c.range(1, 4), (unsigned)c.range(1, 4),
                                 (unsigned)c.range(0, 5), (unsigned)c.range(0, 5), 3, 1, 1};
    auto pickNode = [&]() {
        return deep && c.chance(2, 3) ? w.nodes.back() : w.nodes[c.index_of(w.nodes.size())];
    };
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted(wts)) {
        case 0: { // allocate
            Node *n = pickNode();
            if (n->dead)
                break;
            size_t s = n->parent ? (c.chance(1, 4) ? n->len : 64 * c.range(1, std::max<size_t>(1, n->len / 64)))
                                 : 4096 * c.range(1, 8);
            if (c.chance(1, 4))
                s = c.range(1, s);
            if (n->parent && n->mock.bump == 0 && c.chance(1, 4))
                s = n->len; // the whole of the parent's block
            bool inj = c.chance(1, 16);
            if (inj)
                n->mock.failAllocIn = 1, n->mock.failCode = gen_error(c);
            uint64_t f = n->mock.nallocfail;
            void *p = umfPoolMalloc(n->pool, s);
            c.note("pool%d: malloc(%zu)=%p", id(w, n->pool), s, p);
            if (!p) {
                PCHECK(c, n->mock.nallocfail > f || n->depth >= 8, "alloc", "malloc(%zu) failed although the provider served it", s);
                umf_result_t e = umfPoolGetLastAllocationError(n->pool);
                PCHECK(c, e != UMF_RESULT_SUCCESS, "alloc.err", "failed malloc left error SUCCESS");
                PCHECK(c, n->mock.live.size() == n->regs.size(), "alloc.leak", "a failed malloc left %zu provider blocks, %zu are owned",
                       n->mock.live.size(), n->regs.size());
                break;
            }
            PCHECK(c, !inj, "alloc.masked", "the provider failed but malloc returned %p", p);
            n->regs[(uintptr_t)p] = Region{s, 0};
            query(w, (uintptr_t)p);
            query(w, (uintptr_t)p + s - 1);
            break;
        }
        case 1: { // free
            Node *n = pickNode();
            if (n->dead || n->regs.empty())
                break;
            auto it = n->regs.begin();
            std::advance(it, (long)c.index_of(n->regs.size()));
            if (it->second.kids)
                break;
            uintptr_t a = it->first;
            bool viaFree = c.chance(1, 2), inj = c.chance(1, 12);
            if (inj)
                n->mock.failFreeIn = 1, n->mock.refuseCode = gen_error(c);
            umf_result_t r = viaFree ? umfFree((void *)a) : umfPoolFree(n->pool, (void *)a);
            c.note("pool%d: %s(%p)=%s", id(w, n->pool), viaFree ? "umfFree" : "free", (void *)a, rs(r));
            if (inj) {
                PCHECK(c, r != UMF_RESULT_SUCCESS, "free.masked", "the provider failed to free %p, the call returned success", (void *)a);
                query(w, a); // still owned
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free of the live block %p: %s", (void *)a, rs(r));
            PCHECK(c, !n->mock.live.count(a), "free.lost", "free of %p did not reach its provider", (void *)a);
            w.dead.push_back(a);
            n->regs.erase(it);
            query(w, a);
            frees++;
            break;
        }
        case 2: { // nest a pool in a block
            Node *n = pickNode();
            if (n->dead || n->regs.empty() || n->depth > 8)
                break;
            auto it = n->regs.begin();
            std::advance(it, (long)c.index_of(n->regs.size()));
            if (it->second.kids || it->second.size < 64)
                break;
            add_node(w, n, it->first, it->second.size, c.chance(2, 3));
            nested++;
            break;
        }
        case 3: { // split
            Node *n = pickNode();
            if (n->dead || !n->isRaw || n->regs.empty())
                break;
            auto it = n->regs.begin();
            std::advance(it, (long)c.index_of(n->regs.size()));
            // regions a pool is nested in may be split only while that pool
            // holds nothing: skip them
            size_t unit = n->mock.page; // the mock reuses whole pages
            if (it->second.kids || it->second.size <= unit)
                break;
            uintptr_t a = it->first;
            size_t s = it->second.size, f = unit * c.range(1, (s - 1) / unit);
            if (f >= s)
                break;
            bool inj = c.chance(1, 10);
            bool wrong = c.chance(1, 12);
            if (inj)
                n->mock.failSplitIn = 1, n->mock.refuseCode = gen_error(c);
            uint64_t ns = n->mock.nsplit;
            umf_result_t r = umfMemoryProviderAllocationSplit(n->raw.prov, (void *)a, wrong ? s + 64 : s, f);
            n->mock.failSplitIn = 0;
            c.note("pool%d: split(%p,%zu,%zu)=%s", id(w, n->pool), (void *)a, s, f, rs(r));
            if (wrong) {
                PCHECK(c, r != UMF_RESULT_SUCCESS && n->mock.nsplit == ns, "split.wrong", "a split with a wrong total size: %s, %d upstream calls",
                       rs(r), (int)(n->mock.nsplit - ns));
                query(w, a + s - 1);
                break;
            }
            if (inj) {
                PCHECK(c, r != UMF_RESULT_SUCCESS, "split.masked", "the provider refused to split, the call succeeded");
                query(w, a);
                query(w, a + s - 1);
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "split", "split of %p (%zu at %zu): %s", (void *)a, s, f, rs(r));
            it->second.size = f;
            n->regs[a + f] = Region{s - f, 0};
            query(w, a + f - 1);
            query(w, a + f);
            query(w, a + s - 1);
            splits++;
            break;
        }
        case 4: { // merge two neighbours
            Node *n = pickNode();
            static bool rel = strstr(program_invocation_name, "-rel");
            if (rel && !n->dead && n->isRaw && !n->regs.empty() && c.chance(1, 5)) { // what must not be merged (asserted in Debug)
                std::vector<std::pair<uintptr_t, uintptr_t>> bad;
                std::vector<size_t> sums;
                for (auto &lo : n->regs)
                    for (auto *m : w.nodes) {
                        if (m->dead)
                            continue;
                        for (auto it = m->regs.upper_bound(lo.first); it != m->regs.end() && it->first <= lo.first + lo.second.size; ++it) {
                            size_t sum = lo.second.size + it->second.size;
                            if (m == n) // neighbours, but not the whole of them
                                sum = c.chance(1, 2) ? sum + 64 : sum - 1;
                            if (it->first - lo.first >= sum)
                                continue;
                            auto own = n->regs.find(it->first);
                            if (own != n->regs.end() && lo.second.size + own->second.size == sum)
                                continue; // fits after all
                            bad.push_back({lo.first, it->first});
                            sums.push_back(sum);
                        }
                    }
                if (bad.empty())
                    break;
                size_t k = c.index_of(bad.size());
                uint64_t nm = n->mock.nmerge;
                umf_result_t r = umfMemoryProviderAllocationMerge(n->raw.prov, (void *)bad[k].first, (void *)bad[k].second, sums[k]);
                c.note("pool%d: unfit merge(%p,%p,%zu)=%s", id(w, n->pool), (void *)bad[k].first, (void *)bad[k].second, sums[k], rs(r));
                c.label("unfit-merge");
                PCHECK(c, r != UMF_RESULT_SUCCESS && n->mock.nmerge == nm, "merge.unfit", "blocks that are no neighbours of one pool were merged: %s, %d upstream calls", rs(r),
                       (int)(n->mock.nmerge - nm));
                query(w, bad[k].first);
                query(w, bad[k].second);
                query(w, bad[k].second - 1);
                break;
            }
            if (n->dead || !n->isRaw || n->regs.size() < 2)
                break;
            std::vector<uintptr_t> cand;
            for (auto it = n->regs.begin(), nx = std::next(it); nx != n->regs.end(); ++it, ++nx)
                if (it->first + it->second.size == nx->first)
                    cand.push_back(it->first);
            if (cand.empty())
                break;
            uintptr_t lo = c.pick(cand);
            auto il = n->regs.find(lo), ih = std::next(il);
            uintptr_t hi = ih->first;
            size_t tot = il->second.size + ih->second.size;
            bool inj = c.chance(1, 10);
            if (inj)
                n->mock.failMergeIn = 1, n->mock.refuseCode = gen_error(c);
            umf_result_t r = umfMemoryProviderAllocationMerge(n->raw.prov, (void *)lo, (void *)hi, tot);
            n->mock.failMergeIn = 0;
            c.note("pool%d: merge(%p,%p,%zu)=%s kids %d+%d", id(w, n->pool), (void *)lo, (void *)hi, tot, rs(r), il->second.kids, ih->second.kids);
            if (inj) {
                PCHECK(c, r != UMF_RESULT_SUCCESS, "merge.masked", "the provider refused to merge, the call succeeded");
                query(w, lo);
                query(w, hi);
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "merge", "merge of %p and %p (%zu): %s", (void *)lo, (void *)hi, tot, rs(r));
            il->second.size = tot;
            if (il->second.kids || ih->second.kids)
                c.label("merge-with-nested");
            il->second.kids += ih->second.kids;
            for (auto *k : w.nodes)
                if (!k->dead && k->parent == n && k->base == hi)
                    k->base = lo; // the region it lives in, not its arena
            n->regs.erase(ih);
            query(w, lo);
            query(w, hi);
            query(w, lo + tot - 1);
            merges++;
            break;
        }
        case 5:
            query_some(w, 4);
            break;
        case 6: { // pointers no pool owns
            char local;
            umf_result_t r = umfFree(nullptr);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free.null", "umfFree(NULL): %s", rs(r));
            PCHECK(c, !umfPoolByPtr(nullptr), "bypt.null", "umfPoolByPtr(NULL) found a pool");
            PCHECK(c, !umfPoolByPtr(&local), "bypt.foreign", "umfPoolByPtr of a stack address found a pool");
            umfFree(&local);
            PCHECK(c, !umfPoolByPtr((void *)UINTPTR_MAX) && !umfPoolByPtr((void *)1), "bypt.extreme", "umfPoolByPtr of an extreme address found a pool");
            break;
        }
        case 7: { // close an inner pool that has no pools inside
            Node *n = w.nodes.back();
            if (n->dead || !n->parent)
                break;
            bool kids = false;
            for (auto &kv : n->regs)
                kids |= kv.second.kids > 0;
            if (kids)
                break;
            while (!n->regs.empty()) {
                uintptr_t a = n->regs.begin()->first;
                umf_result_t r = umfPoolFree(n->pool, (void *)a);
                PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free of the live block %p: %s", (void *)a, rs(r));
                n->regs.erase(a);
                query(w, a);
            }
            n->parent->regs[n->base].kids--;
            umfPoolDestroy(n->pool);
            umfMemoryProviderDestroy(n->prov);
            c.note("pool%zu closed", w.nodes.size() - 1);
            n->dead = true;
            w.nodes.pop_back();
            break;
        }
        }
    }
    query_some(w, 8);
    for (size_t i = w.nodes.size(); i-- > 0;) {
        Node *n = w.nodes[i];
        while (!n->regs.empty()) {
            auto it = c.chance(1, 2) ? n->regs.begin() : std::prev(n->regs.end());
            uintptr_t a = it->first, e = a + it->second.size;
            umf_result_t r = umfPoolFree(n->pool, (void *)a);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free of the live block %p: %s", (void *)a, rs(r));
            n->regs.erase(it);
            query(w, a);
            query(w, e - 1);
        }
        if (n->parent)
            n->parent->regs[n->base].kids--;
        PCHECK(c, n->mock.live.empty(), "leak", "%zu provider blocks left", n->mock.live.size());
        umfPoolDestroy(n->pool);
        umfMemoryProviderDestroy(n->prov);
        n->dead = true;
    }
    for (auto q : w.dead)
        PCHECK(c, !umfPoolByPtr((void *)q), "bypt.stale", "umfPoolByPtr(%p) still finds a pool after everything was freed", (void *)q);
    if (nested)
        c.label("nested");
    if (splits)
        c.label("split");
    if (merges)
        c.label("merge");
    if (frees && (nested || (splits && merges)))
        c.nontrivial();
}
int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C05",
                         "histories over up to 3 root pools and pools nested up to 9 deep inside blocks of other pools: allocate, free (by pool "
                         "or by pointer), split, merge, refused upstream calls, lookups at and around block ends; oracle: the innermost live "
                         "block; non-trivial: a free and a nested pool, or a split and a merge",
                         {{"tracker", run, 25000, 300000}});
}

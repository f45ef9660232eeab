// C30: user-defined providers and pools: every call reaches the user's
// operation once, with its arguments, and its result comes back; missing
// optional operations are reported as unsupported, incomplete operation
// tables and unusable arguments are refused, ownership flags are honoured.
#include "umfh.hpp"
extern "C" void *umfMemoryProviderGetPriv(umf_memory_provider_handle_t);
using namespace h;

struct Call {
    std::string op;
    std::vector<uint64_t> a;
    bool operator==(const Call &o) const { return op == o.op && a == o.a; }
};
static std::vector<Call> calls;
static umf_result_t ret;      // what operations return
static uint64_t outv;         // what they store
static std::string show(const std::vector<Call> &v) {
    std::string s;
    for (auto &x : v) {
        s += x.op + "(";
        for (auto y : x.a)
            s += std::to_string(y) + ",";
        s += ") ";
    }
    return s;
}
#define U(x) ((uint64_t)(uintptr_t)(x))
static umf_result_t initRet;
static bool initSets = true;
static umf_result_t p_init(void *params, void **priv) {
    calls.push_back({"initialize", {U(params)}});
    if (initSets)
        *priv = (void *)(U(params) ^ 0xabc000);
    return initRet;
}
static void p_fini(void *p) { calls.push_back({"finalize", {U(p)}}); }
static umf_result_t p_alloc(void *p, size_t s, size_t a, void **o) {
    calls.push_back({"alloc", {U(p), s, a}});
    *o = (void *)outv;
    return ret;
}
static umf_result_t p_free(void *p, void *q, size_t s) {
    calls.push_back({"free", {U(p), U(q), s}});
    return ret;
}
static void p_native(void *p, const char **m, int32_t *e) {
    calls.push_back({"native", {U(p)}});
    *m = (const char *)outv;
    *e = (int32_t)outv;
}
static umf_result_t p_rec(void *p, size_t s, size_t *o) {
    calls.push_back({"recommended", {U(p), s}});
    *o = outv;
    return ret;
}
static umf_result_t p_min(void *p, void *q, size_t *o) {
    calls.push_back({"min", {U(p), U(q)}});
    *o = outv;
    return ret;
}
static const char *p_name(void *p) {
    calls.push_back({"name", {U(p)}});
    return (const char *)outv;
}
static umf_result_t p_lazy(void *p, void *q, size_t s) {
    calls.push_back({"lazy", {U(p), U(q), s}});
    return ret;
}
static umf_result_t p_force(void *p, void *q, size_t s) {
    calls.push_back({"force", {U(p), U(q), s}});
    return ret;
}
static umf_result_t p_split(void *p, void *q, size_t t, size_t f) {
    calls.push_back({"split", {U(p), U(q), t, f}});
    return ret;
}
static umf_result_t p_merge(void *p, void *l, void *h2, size_t t) {
    calls.push_back({"merge", {U(p), U(l), U(h2), t}});
    return ret;
}
static umf_result_t p_isize(void *p, size_t *s) {
    calls.push_back({"ipcsize", {U(p)}});
    *s = outv;
    return ret;
}
static umf_result_t p_iget(void *p, const void *q, size_t s, void *d) {
    calls.push_back({"ipcget", {U(p), U(q), s, U(d)}});
    return ret;
}
static umf_result_t p_iput(void *p, void *d) {
    calls.push_back({"ipcput", {U(p), U(d)}});
    return ret;
}
static umf_result_t p_iopen(void *p, void *d, void **q) {
    calls.push_back({"ipcopen", {U(p), U(d)}});
    *q = (void *)outv;
    return ret;
}
static umf_result_t p_iclose(void *p, void *q, size_t s) {
    calls.push_back({"ipcclose", {U(p), U(q), s}});
    return ret;
}

static umf_memory_provider_ops_t full_ops() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = p_init;
    o.finalize = p_fini;
    o.alloc = p_alloc;
    o.free = p_free;
    o.get_last_native_error = p_native;
    o.get_recommended_page_size = p_rec;
    o.get_min_page_size = p_min;
    o.get_name = p_name;
    o.ext.purge_lazy = p_lazy;
    o.ext.purge_force = p_force;
    o.ext.allocation_split = p_split;
    o.ext.allocation_merge = p_merge;
    o.ipc.get_ipc_handle_size = p_isize;
    o.ipc.get_ipc_handle = p_iget;
    o.ipc.put_ipc_handle = p_iput;
    o.ipc.open_ipc_handle = p_iopen;
    o.ipc.close_ipc_handle = p_iclose;
    return o;
}

static size_t val(Ctx &c) { return c.chance(1, 4) ? c.oneof<size_t>({1, SIZE_MAX, (size_t)1 << 63, 4096}) : c.size((size_t)1 << 48); }
static void *ptr(Ctx &c) { return (void *)(c.range(1, UINT32_MAX) * 16); }

static void provider(Ctx &c) {
    calls.clear();
    struct P {
        umf_memory_provider_handle_t h;
        uint64_t priv;
        bool lazy, force, sm, ipc;
    };
    std::vector<P> ps;
    umf_memory_provider_handle_t lastFailed = umfGetLastFailedMemoryProvider();
    unsigned nops = (unsigned)c.range(3, 40), through = 0, refused = 0;
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        if (ps.empty() || c.chance(1, 8)) { // create
            umf_memory_provider_ops_t o = full_ops();
            P n;
            n.lazy = c.chance(2, 3);
            n.force = c.chance(2, 3);
            n.sm = c.chance(2, 3);
            n.ipc = c.chance(2, 3);
            if (!n.lazy)
                o.ext.purge_lazy = nullptr;
            if (!n.force)
                o.ext.purge_force = nullptr;
            if (!n.sm)
                o.ext.allocation_split = nullptr, o.ext.allocation_merge = nullptr;
            if (!n.ipc)
                memset(&o.ipc, 0, sizeof o.ipc);
            bool bad = false;
            unsigned k = 99;
            if (c.chance(1, 3)) { // make it unacceptable
                bad = true;
                k = (unsigned)c.range(0, 14);
                switch (k) {
                case 0: o.alloc = nullptr; break;
                case 1: o.free = nullptr; break;
                case 2: o.get_recommended_page_size = nullptr; break;
                case 3: o.get_min_page_size = nullptr; break;
                case 4: o.initialize = nullptr; break;
                case 5: o.finalize = nullptr; break;
                case 6: o.get_last_native_error = nullptr; break;
                case 7: o.get_name = nullptr; break;
                case 8: o.ext.allocation_split = p_split; o.ext.allocation_merge = nullptr; break;
                case 9: o.ext.allocation_split = nullptr; o.ext.allocation_merge = p_merge; break;
                default: { // one of the five IPC operations missing, or alone
                    bool alone = c.chance(1, 2);
                    umf_memory_provider_ops_t f = full_ops();
                    if (alone)
                        memset(&f.ipc, 0, sizeof f.ipc);
                    void *z = nullptr;
                    (void)z;
                    switch (k) {
                    case 10: f.ipc.get_ipc_handle_size = alone ? p_isize : nullptr; break;
                    case 11: f.ipc.get_ipc_handle = alone ? p_iget : nullptr; break;
                    case 12: f.ipc.put_ipc_handle = alone ? p_iput : nullptr; break;
                    case 13: f.ipc.open_ipc_handle = alone ? p_iopen : nullptr; break;
                    case 14: f.ipc.close_ipc_handle = alone ? p_iclose : nullptr; break;
                    }
                    o.ipc = f.ipc;
                }
                }
            }
            if (c.chance(1, 8))
                o.version = (uint32_t)c.range(0, 99); // only warned about
            initRet = c.chance(1, 5) ? gen_error(c) : UMF_RESULT_SUCCESS;
            initSets = initRet == UMF_RESULT_SUCCESS || c.chance(1, 2);
            void *params = c.chance(1, 6) ? nullptr : ptr(c);
            umf_memory_provider_handle_t h0 = (umf_memory_provider_handle_t)0x77, hp = h0;
            calls.clear();
            umf_result_t r = umfMemoryProviderCreate(&o, params, &hp);
            c.note("create(bad=%d/%u, init %s): %s", bad, k, rs(initRet), rs(r));
            if (bad) {
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && calls.empty() && hp == h0, "create.bad",
                       "creating a provider from incomplete operations (%u): %s, calls: %s", k, rs(r), show(calls).c_str());
                refused++;
            } else if (initRet) {
                PCHECK(c, r == initRet && hp == h0 && calls == (std::vector<Call>{{"initialize", {U(params)}}}), "create.fail",
                       "initialize failed with %s, create returned %s, calls: %s", rs(initRet), rs(r), show(calls).c_str());
                refused++;
            } else {
                PCHECK(c, r == UMF_RESULT_SUCCESS && hp && calls == (std::vector<Call>{{"initialize", {U(params)}}}), "create",
                       "create: %s, calls: %s", rs(r), show(calls).c_str());
                n.h = hp;
                n.priv = U(params) ^ 0xabc000;
                PCHECK(c, U(umfMemoryProviderGetPriv(hp)) == n.priv, "priv", "umfMemoryProviderGetPriv");
                // the provider keeps its own copy of the operations
                memset(&o, 0, sizeof o);
                ps.push_back(n);
            }
            calls.clear();
            continue;
        }
        P &p = ps[c.index_of(ps.size())];
        ret = c.chance(1, 2) ? UMF_RESULT_SUCCESS : gen_error(c);
        outv = val(c) | 1;
        calls.clear();
        std::vector<Call> want;
        umf_result_t r = UMF_RESULT_SUCCESS, wantR = ret;
        size_t s = val(c), s2 = val(c), z = 0;
        void *q = ptr(c), *q2 = ptr(c), *out = nullptr;
        bool hasOut = false, api = false; // refused by the API itself
        uint64_t got = 0;
        unsigned k = (unsigned)c.range(0, 17);
        auto unsupported = [&] { want.clear(); wantR = UMF_RESULT_ERROR_NOT_SUPPORTED; hasOut = false; };
        switch (k) {
        case 0:
            if (c.chance(1, 8)) {
                api = true;
                r = umfMemoryProviderAlloc(c.chance(1, 2) ? nullptr : p.h, s, s2, nullptr);
                break;
            }
            want = {{"alloc", {p.priv, s, s2}}};
            r = umfMemoryProviderAlloc(p.h, s, s2, &out);
            got = U(out), hasOut = true;
            break;
        case 1:
            if (c.chance(1, 4))
                q = nullptr;
            want = {{"free", {p.priv, U(q), s}}};
            r = umfMemoryProviderFree(p.h, q, s);
            break;
        case 2:
            if (c.chance(1, 8)) {
                api = true;
                r = umfMemoryProviderGetRecommendedPageSize(p.h, s, nullptr);
                break;
            }
            want = {{"recommended", {p.priv, s}}};
            r = umfMemoryProviderGetRecommendedPageSize(p.h, s, &z);
            got = z, hasOut = true;
            break;
        case 3:
            if (c.chance(1, 3))
                q = nullptr;
            want = {{"min", {p.priv, U(q)}}};
            r = umfMemoryProviderGetMinPageSize(p.h, q, &z);
            got = z, hasOut = true;
            break;
        case 4:
            wantR = UMF_RESULT_SUCCESS;
            want = {{"name", {p.priv}}};
            got = U(umfMemoryProviderGetName(p.h)), hasOut = true;
            break;
        case 5: {
            wantR = UMF_RESULT_SUCCESS;
            const char *m = nullptr;
            int32_t e = 0;
            want = {{"native", {p.priv}}};
            umfMemoryProviderGetLastNativeError(p.h, &m, &e);
            PCHECK(c, U(m) == outv && e == (int32_t)outv, "native", "native error passed wrongly");
            break;
        }
        case 6:
            if (c.chance(1, 8)) {
                api = true;
                r = umfMemoryProviderPurgeLazy(p.h, nullptr, s);
                break;
            }
            want = {{"lazy", {p.priv, U(q), s}}};
            if (!p.lazy)
                unsupported();
            r = umfMemoryProviderPurgeLazy(p.h, q, s);
            break;
        case 7:
            if (c.chance(1, 8)) {
                api = true;
                r = umfMemoryProviderPurgeForce(p.h, nullptr, s);
                break;
            }
            want = {{"force", {p.priv, U(q), s}}};
            if (!p.force)
                unsupported();
            r = umfMemoryProviderPurgeForce(p.h, q, s);
            break;
        case 8:
        case 9: { // split
            if (c.chance(1, 4)) { // unusable sizes
                api = true;
                size_t t = s, f = t + c.range(0, 5);
                if (f < t)
                    f = t;
                void *qq = q;
                switch (c.range(0, 3)) {
                case 0: f = 0; break;
                case 1: qq = nullptr; f = t - 1; break;
                case 2: t = 0; f = 0; break;
                }
                r = umfMemoryProviderAllocationSplit(p.h, qq, t, f);
                break;
            }
            if (s < 2)
                s = 2;
            size_t f = 1 + s2 % (s - 1);
            want = {{"split", {p.priv, U(q), s, f}}};
            if (!p.sm)
                unsupported();
            r = umfMemoryProviderAllocationSplit(p.h, q, s, f);
            break;
        }
        case 10:
        case 11: { // merge
            char *lo = (char *)std::min(q, q2), *hi = (char *)std::max(q, q2);
            if (lo == hi)
                hi += 16;
            size_t d = (size_t)(hi - lo);
            if (c.chance(1, 4)) {
                api = true;
                switch (c.range(0, 4)) {
                case 0: r = umfMemoryProviderAllocationMerge(p.h, hi, lo, d + 1); break;
                case 1: r = umfMemoryProviderAllocationMerge(p.h, lo, lo, 1); break;
                case 2: r = umfMemoryProviderAllocationMerge(p.h, lo, hi, c.chance(1, 2) ? d : c.range(0, d)); break;
                case 3: r = umfMemoryProviderAllocationMerge(p.h, nullptr, hi, SIZE_MAX); break;
                default: r = umfMemoryProviderAllocationMerge(p.h, lo, nullptr, s); break;
                }
                break;
            }
            size_t t = d + 1 + s % 4096;
            want = {{"merge", {p.priv, U(lo), U(hi), t}}};
            if (!p.sm)
                unsupported();
            r = umfMemoryProviderAllocationMerge(p.h, lo, hi, t);
            break;
        }
        case 12:
            want = {{"ipcsize", {p.priv}}};
            hasOut = true;
            if (!p.ipc)
                unsupported();
            r = umfMemoryProviderGetIPCHandleSize(p.h, &z);
            got = z;
            break;
        case 13:
            if (c.chance(1, 6)) {
                api = true;
                r = c.chance(1, 2) ? umfMemoryProviderGetIPCHandle(p.h, nullptr, s, q2) : umfMemoryProviderGetIPCHandle(p.h, q, s, nullptr);
                break;
            }
            want = {{"ipcget", {p.priv, U(q), s, U(q2)}}};
            if (!p.ipc)
                unsupported();
            r = umfMemoryProviderGetIPCHandle(p.h, q, s, q2);
            break;
        case 14:
            want = {{"ipcput", {p.priv, U(q)}}};
            if (!p.ipc)
                unsupported();
            r = umfMemoryProviderPutIPCHandle(p.h, q);
            break;
        case 15:
            if (c.chance(1, 6)) {
                api = true;
                r = c.chance(1, 2) ? umfMemoryProviderOpenIPCHandle(p.h, nullptr, &out) : umfMemoryProviderOpenIPCHandle(p.h, q, nullptr);
                break;
            }
            want = {{"ipcopen", {p.priv, U(q)}}};
            hasOut = true;
            if (!p.ipc)
                unsupported();
            r = umfMemoryProviderOpenIPCHandle(p.h, q, &out);
            got = U(out);
            break;
        case 16:
            if (c.chance(1, 6)) {
                api = true;
                r = umfMemoryProviderCloseIPCHandle(p.h, nullptr, s);
                break;
            }
            want = {{"ipcclose", {p.priv, U(q), s}}};
            if (!p.ipc)
                unsupported();
            r = umfMemoryProviderCloseIPCHandle(p.h, q, s);
            break;
        default: // destroy
            wantR = UMF_RESULT_SUCCESS;
            want = {{"finalize", {p.priv}}};
            if (lastFailed == p.h)
                lastFailed = nullptr; // may dangle
            umfMemoryProviderDestroy(p.h);
            ps.erase(ps.begin() + (&p - ps.data()));
        }
        c.note("call %u (provider returns %s): %s", k, rs(ret), rs(r));
        if (api) {
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && calls.empty(), "invalid", "call %u with an unusable argument: %s, calls: %s", k,
                   rs(r), show(calls).c_str());
            refused++;
        } else {
            PCHECK(c, calls == want, "calls", "call %u: the provider saw %s, expected %s", k, show(calls).c_str(), show(want).c_str());
            PCHECK(c, r == wantR, "result", "call %u: %s, expected %s", k, rs(r), rs(wantR));
            if (hasOut)
                PCHECK(c, got == outv, "out", "call %u: result %#zx, the provider gave %#zx", k, (size_t)got, (size_t)outv);
            if (wantR != UMF_RESULT_SUCCESS) {
                PCHECK(c, umfGetLastFailedMemoryProvider() == p.h, "lastfailed", "call %u failed but the last failed provider is another", k);
                lastFailed = p.h;
            } else if (lastFailed)
                PCHECK(c, umfGetLastFailedMemoryProvider() == lastFailed, "lastfailed.kept", "call %u succeeded but changed the last failed provider", k);
            through++;
        }
    }
    calls.clear();
    for (auto &p : ps)
        umfMemoryProviderDestroy(p.h);
    std::vector<Call> want;
    for (auto &p : ps)
        want.push_back({"finalize", {p.priv}});
    PCHECK(c, calls == want, "finalize", "destroying %zu providers called %s", ps.size(), show(calls).c_str());
    umfMemoryProviderDestroy(nullptr);
    if (through >= 3 && refused)
        c.nontrivial();
}

// ---- pools -----------------------------------------------------------------
static umf_result_t plInitRet;
static umf_memory_provider_handle_t plProv; // what initialize was given
static umf_result_t pl_init(umf_memory_provider_handle_t pr, void *params, void **priv) {
    calls.push_back({"pool.initialize", {U(params)}});
    plProv = pr;
    *priv = (void *)(U(params) ^ 0xdef000);
    return plInitRet;
}
static void pl_fini(void *p) { calls.push_back({"pool.finalize", {U(p)}}); }
static void *pl_malloc(void *p, size_t s) {
    calls.push_back({"malloc", {U(p), s}});
    return (void *)outv;
}
static void *pl_calloc(void *p, size_t n, size_t s) {
    calls.push_back({"calloc", {U(p), n, s}});
    return (void *)outv;
}
static void *pl_realloc(void *p, void *q, size_t s) {
    calls.push_back({"realloc", {U(p), U(q), s}});
    return (void *)outv;
}
static void *pl_aligned(void *p, size_t s, size_t a) {
    calls.push_back({"aligned", {U(p), s, a}});
    return (void *)outv;
}
static size_t pl_usable(void *p, void *q) {
    calls.push_back({"usable", {U(p), U(q)}});
    return outv;
}
static umf_result_t pl_free(void *p, void *q) {
    calls.push_back({"pool.free", {U(p), U(q)}});
    return ret;
}
static umf_result_t pl_err(void *p) {
    calls.push_back({"lasterr", {U(p)}});
    return ret;
}
static umf_memory_pool_ops_t pool_ops() {
    umf_memory_pool_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_POOL_OPS_VERSION_CURRENT;
    o.initialize = pl_init;
    o.finalize = pl_fini;
    o.malloc = pl_malloc;
    o.calloc = pl_calloc;
    o.realloc = pl_realloc;
    o.aligned_malloc = pl_aligned;
    o.malloc_usable_size = pl_usable;
    o.free = pl_free;
    o.get_last_allocation_error = pl_err;
    return o;
}

static void pool(Ctx &c) {
    calls.clear();
    initRet = UMF_RESULT_SUCCESS;
    initSets = true;
    struct Q {
        umf_memory_pool_handle_t h;
        uint64_t priv, provPriv;
        umf_memory_provider_handle_t up, given;
        bool own, track;
        void *tag;
        std::vector<uintptr_t> blk; // provider memory taken through the pool's provider
    };
    std::vector<Q> qs;
    struct Pv {
        umf_memory_provider_handle_t h;
        uint64_t priv;
        bool owned;
    };
    std::vector<Pv> free_; // providers no pool owns
    uint64_t nextParam = 0x1000, nextMem = 0x7000000000ull;
    unsigned nops = (unsigned)c.range(3, 40), through = 0, failedCreate = 0, tags = 0;
    umf_memory_provider_ops_t po = full_ops();
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        if (qs.empty() || c.chance(1, 6)) {
            umf_memory_provider_handle_t up = nullptr;
            uint64_t pp = nextParam += 16;
            ret = UMF_RESULT_SUCCESS;
            bool share = !free_.empty() && c.chance(1, 2);
            if (share) {
                size_t x = c.index_of(free_.size());
                up = free_[x].h;
                pp = free_[x].priv ^ 0xabc000;
            } else {
                PCHECK(c, umfMemoryProviderCreate(&po, (void *)pp, &up) == UMF_RESULT_SUCCESS, "prov", "provider");
                free_.push_back({up, pp ^ 0xabc000, false});
            }
            Q q;
            q.own = !share && c.chance(1, 2);
            q.track = c.chance(1, 2);
            q.up = up;
            q.tag = nullptr;
            q.provPriv = pp ^ 0xabc000;
            unsigned fl = (q.own ? UMF_POOL_CREATE_FLAG_OWN_PROVIDER : 0) | (q.track ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING);
            plInitRet = c.chance(1, 4) ? gen_error(c) : UMF_RESULT_SUCCESS;
            umf_memory_pool_ops_t o = pool_ops();
            if (c.chance(1, 8))
                o.version = (uint32_t)c.range(0, 99);
            void *params = ptr(c);
            umf_memory_pool_handle_t h0 = (umf_memory_pool_handle_t)0x55, hp = h0;
            calls.clear();
            if (c.chance(1, 8)) {
                umf_result_t r;
                switch (c.range(0, 2)) {
                case 0: r = umfPoolCreate(nullptr, up, params, fl, &hp); break;
                case 1: r = umfPoolCreate(&o, nullptr, params, fl, &hp); break;
                default: r = umfPoolCreate(&o, up, params, fl, nullptr); break;
                }
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && hp == h0 && calls.empty(), "pool.null", "umfPoolCreate with a NULL argument: %s", rs(r));
                continue;
            }
            umf_result_t r = umfPoolCreate(&o, up, params, fl, &hp);
            c.note("pool create flags %u, init %s: %s", fl, rs(plInitRet), rs(r));
            if (plInitRet) {
                PCHECK(c, r == plInitRet && hp == h0 && calls == (std::vector<Call>{{"pool.initialize", {U(params)}}}), "pool.create.fail",
                       "initialize failed with %s, create: %s, calls: %s", rs(plInitRet), rs(r), show(calls).c_str());
                // the provider was not given away: it must still work
                calls.clear();
                outv = nextMem += 4096;
                void *m = nullptr;
                r = umfMemoryProviderAlloc(up, 16, 0, &m);
                PCHECK(c, r == UMF_RESULT_SUCCESS && calls.size() == 1, "pool.create.fail.provider", "the provider is unusable after a failed pool creation");
                calls.clear();
                failedCreate++;
                continue;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS && calls == (std::vector<Call>{{"pool.initialize", {U(params)}}}), "pool.create", "create: %s, calls: %s",
                   rs(r), show(calls).c_str());
            memset(&o, 0, sizeof o);
            q.h = hp;
            q.priv = U(params) ^ 0xdef000;
            q.given = plProv;
            if (q.own)
                free_.pop_back(); // it was just created
            if (!q.track)
                PCHECK(c, plProv == up, "untracked.provider", "an untracked pool does not get the provider itself");
            qs.push_back(q);
            calls.clear();
            continue;
        }
        size_t qi = c.index_of(qs.size());
        Q &q = qs[qi];
        ret = c.chance(1, 2) ? UMF_RESULT_SUCCESS : gen_error(c);
        outv = c.chance(1, 5) ? 0 : val(c);
        size_t s = val(c), s2 = val(c);
        void *a = c.chance(1, 5) ? nullptr : ptr(c);
        calls.clear();
        std::vector<Call> want;
        uint64_t got = outv, expect = outv;
        unsigned k = (unsigned)c.range(0, 12);
        switch (k) {
        case 0:
            want = {{"malloc", {q.priv, s}}};
            got = U(umfPoolMalloc(q.h, s));
            break;
        case 1:
            want = {{"calloc", {q.priv, s, s2}}};
            got = U(umfPoolCalloc(q.h, s, s2));
            break;
        case 2:
            want = {{"realloc", {q.priv, U(a), s}}};
            got = U(umfPoolRealloc(q.h, a, s));
            break;
        case 3:
            want = {{"aligned", {q.priv, s, s2}}};
            got = U(umfPoolAlignedMalloc(q.h, s, s2));
            break;
        case 4:
            want = {{"usable", {q.priv, U(a)}}};
            got = umfPoolMallocUsableSize(q.h, a);
            break;
        case 5:
            want = {{"pool.free", {q.priv, U(a)}}};
            got = umfPoolFree(q.h, a);
            expect = ret;
            break;
        case 6:
            want = {{"lasterr", {q.priv}}};
            got = umfPoolGetLastAllocationError(q.h);
            expect = ret;
            break;
        case 7: { // tags
            void *nt = ptr(c), *old = (void *)1, *cur = (void *)1;
            PCHECK(c, umfPoolGetTag(q.h, &cur) == UMF_RESULT_SUCCESS && cur == q.tag, "tag.get", "tag is %p, set to %p", cur, q.tag);
            bool wantOld = c.chance(1, 2);
            PCHECK(c, umfPoolSetTag(q.h, nt, wantOld ? &old : nullptr) == UMF_RESULT_SUCCESS, "tag.set", "set tag");
            if (wantOld)
                PCHECK(c, old == q.tag, "tag.old", "old tag %p, expected %p", old, q.tag);
            q.tag = nt;
            tags++;
            break;
        }
        case 8: {
            umf_memory_provider_handle_t g = nullptr;
            PCHECK(c, umfPoolGetMemoryProvider(q.h, &g) == UMF_RESULT_SUCCESS && g == q.up, "getprovider", "umfPoolGetMemoryProvider gives another provider");
            PCHECK(c, umfPoolGetMemoryProvider(q.h, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "getprovider.null", "NULL accepted");
            break;
        }
        case 9: { // the provider the pool was given: goes to the user's provider, and is tracked
            outv = nextMem += (1 << 20);
            void *m = nullptr;
            ret = c.chance(1, 4) ? gen_error(c) : UMF_RESULT_SUCCESS;
            size_t n = c.range(1, 1 << 16);
            umf_result_t r = umfMemoryProviderAlloc(q.given, n, 8, &m);
            PCHECK(c, r == ret && calls == (std::vector<Call>{{"alloc", {q.provPriv, n, 8}}}), "given.alloc", "allocation through the pool's provider: %s, calls %s",
                   rs(r), show(calls).c_str());
            if (r == UMF_RESULT_SUCCESS) {
                PCHECK(c, U(m) == outv, "given.ptr", "pointer");
                umf_memory_pool_handle_t by = umfPoolByPtr((char *)m + n - 1);
                PCHECK(c, by == (q.track ? q.h : nullptr), "given.track", "tracking %d, but the pool by pointer is %s", q.track, by ? "set" : "none");
                if (q.track) {
                    // umfFree dispatches to this pool's free
                    calls.clear();
                    ret = c.chance(1, 2) ? UMF_RESULT_SUCCESS : gen_error(c);
                    r = umfFree(m);
                    PCHECK(c, r == ret && calls == (std::vector<Call>{{"pool.free", {q.priv, U(m)}}}), "umffree", "umfFree: %s, calls %s", rs(r), show(calls).c_str());
                }
                calls.clear();
                ret = UMF_RESULT_SUCCESS;
                r = umfMemoryProviderFree(q.given, m, n);
                PCHECK(c, r == UMF_RESULT_SUCCESS && calls == (std::vector<Call>{{"free", {q.provPriv, U(m), n}}}), "given.free", "free: %s, calls %s", rs(r),
                       show(calls).c_str());
                PCHECK(c, umfPoolByPtr(m) == nullptr, "given.untrack", "freed memory still resolves to a pool");
            }
            calls.clear();
            want.clear();
            got = expect = 0;
            break;
        }
        case 10: { // NULL handles
            PCHECK(c, !umfPoolMalloc(nullptr, s) && !umfPoolCalloc(nullptr, s, s2) && !umfPoolRealloc(nullptr, a, s) &&
                          !umfPoolAlignedMalloc(nullptr, s, s2) && !umfPoolMallocUsableSize(nullptr, a) &&
                          umfPoolFree(nullptr, a) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                          umfPoolGetLastAllocationError(nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                          umfPoolSetTag(nullptr, a, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                          umfPoolGetTag(q.h, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT,
                   "null", "a NULL handle is not refused");
            PCHECK(c, umfFree(nullptr) == UMF_RESULT_SUCCESS && umfFree((void *)0x10) == UMF_RESULT_SUCCESS, "umffree.unknown", "umfFree of no pool's memory");
            break;
        }
        case 11: { // whatever else the pool asks of the provider it was given is answered by the user's provider
            size_t o1 = 0;
            const char *m = nullptr;
            int32_t e = 0;
            expect = ret;
            unsigned kk = (unsigned)c.range(0, 5);
            if (kk == 3 || kk == 4)
                a = ptr(c);
            switch (kk) {
            case 0:
                want = {{"native", {q.provPriv}}};
                umfMemoryProviderGetLastNativeError(q.given, &m, &e);
                PCHECK(c, U(m) == outv && e == (int32_t)outv, "given.native", "the native error of the given provider is %p %d, the provider's is %#zx", m, e,
                       (size_t)outv);
                got = ret;
                break;
            case 1:
                want = {{"recommended", {q.provPriv, s}}};
                got = umfMemoryProviderGetRecommendedPageSize(q.given, s, &o1);
                PCHECK(c, o1 == outv, "given.out", "recommended page size %zu, the provider gave %zu", o1, (size_t)outv);
                break;
            case 2:
                want = {{"min", {q.provPriv, U(a)}}};
                got = umfMemoryProviderGetMinPageSize(q.given, a, &o1);
                PCHECK(c, o1 == outv, "given.out", "min page size %zu, the provider gave %zu", o1, (size_t)outv);
                break;
            case 3:
                want = {{"lazy", {q.provPriv, U(a), s}}};
                got = umfMemoryProviderPurgeLazy(q.given, a, s);
                break;
            case 4:
                want = {{"force", {q.provPriv, U(a), s}}};
                got = umfMemoryProviderPurgeForce(q.given, a, s);
                break;
            default:
                want = {{"name", {q.provPriv}}};
                got = U(umfMemoryProviderGetName(q.given));
                expect = outv;
            }
            break;
        }
        default: // destroy: the pool first, an owned provider after it, others not at all
            want = {{"pool.finalize", {q.priv}}};
            if (q.own)
                want.push_back({"finalize", {q.provPriv}});
            umfPoolDestroy(q.h);
            qs.erase(qs.begin() + (long)qi);
        }
        c.note("call %u", k);
        PCHECK(c, calls == want, "pool.calls", "call %u: the pool saw %s, expected %s", k, show(calls).c_str(), show(want).c_str());
        PCHECK(c, got == expect, "pool.result", "call %u: %#zx, expected %#zx", k, (size_t)got, (size_t)expect);
        through++;
    }
    for (auto &q : qs) {
        calls.clear();
        umfPoolDestroy(q.h);
        std::vector<Call> want = {{"pool.finalize", {q.priv}}};
        if (q.own)
            want.push_back({"finalize", {q.provPriv}});
        PCHECK(c, calls == want, "pool.destroy", "destroying a pool (own %d) called %s", q.own, show(calls).c_str());
    }
    calls.clear();
    for (auto &p : free_)
        umfMemoryProviderDestroy(p.h);
    PCHECK(c, calls.size() == free_.size(), "provider.kept", "providers not owned by a pool must outlive it");
    if (through >= 4 && (failedCreate || tags))
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C30",
                         "histories of calls on user-defined providers and pools with generated operation tables, arguments, results "
                         "and flags, every call into the user's operations recorded and compared; non-trivial: at least three calls "
                         "that went through and a refused one (provider), four calls and a tag change or failed creation (pool)",
                         {{"provider", provider, 40000, 400000}, {"pool", pool, 40000, 400000}});
}

// C18: errors are reported to the thread they happened on.  A generated
// schedule of failing and succeeding calls on shared providers and pools is
// executed by several threads one step at a time; after every step any thread
// may be asked what its last errors were.
#include "umfh.hpp"
#include <atomic>
#include <condition_variable>
#include <thread>
using namespace h;

// refuse the next such system call of this thread with the given error
static thread_local int no_madvise = 0, no_munmap = 0, no_mmap = 0;
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
int __wrap_madvise(void *p, size_t n, int a) {
    if (no_madvise)
        return errno = no_madvise, no_madvise = 0, -1;
    return __real_madvise(p, n, a);
}
int __wrap_munmap(void *p, size_t n) {
    if (no_munmap)
        return errno = no_munmap, no_munmap = 0, -1;
    return __real_munmap(p, n);
}
void *__wrap_mmap(void *a, size_t n, int b, int c, int d, off_t e) {
    if (no_mmap)
        return errno = no_mmap, MAP_FAILED;
    return __real_mmap(a, n, b, c, d, e);
}
}

struct Runner { // runs closures on numbered threads, one at a time
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> *job = nullptr;
    int who = -1;
    bool quit = false;
    std::vector<std::thread> ts;
    explicit Runner(unsigned n) {
        for (unsigned i = 0; i < n; i++)
            ts.emplace_back([this, i] {
                std::unique_lock<std::mutex> l(m);
                for (;;) {
                    cv.wait(l, [&] { return quit || who == (int)i; });
                    if (quit)
                        return;
                    (*job)();
                    who = -1;
                    cv.notify_all();
                }
            });
    }
    void run(unsigned t, std::function<void()> f) {
        std::unique_lock<std::mutex> l(m);
        job = &f;
        who = (int)t;
        cv.notify_all();
        cv.wait(l, [&] { return who == -1; });
    }
    ~Runner() {
        {
            std::lock_guard<std::mutex> l(m);
            quit = true;
        }
        cv.notify_all();
        for (auto &t : ts)
            t.join();
    }
};

// a provider that fails as told and keeps its native error per thread
struct EP {
    umf_result_t code = UMF_RESULT_SUCCESS;
    int32_t native = 0;
    int id = 0;
    char name[16];
    char buf[1 << 14];
    char msg[8][32];
};
static thread_local int32_t tl_native[4];
static umf_result_t ep_do(void *p) {
    EP *e = (EP *)p;
    if (e->code == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
        tl_native[e->id] = e->native;
    return e->code;
}
static umf_memory_provider_ops_t ep_ops() {
    umf_memory_provider_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_PROVIDER_OPS_VERSION_CURRENT;
    o.initialize = [](void *a, void **b) { *b = a; return UMF_RESULT_SUCCESS; };
    o.finalize = [](void *) {};
    o.alloc = [](void *p, size_t, size_t, void **out) { *out = ((EP *)p)->code ? nullptr : (void *)up((size_t)((EP *)p)->buf, 4096); return ep_do(p); };
    o.free = [](void *p, void *, size_t) { return ep_do(p); };
    o.get_last_native_error = [](void *p, const char **m, int32_t *e) { *e = tl_native[((EP *)p)->id]; *m = ((EP *)p)->msg[*e & 7]; };
    o.get_recommended_page_size = [](void *p, size_t, size_t *o2) { *o2 = 4096; return ep_do(p); };
    o.get_min_page_size = [](void *p, void *, size_t *o2) { *o2 = 4096; return ep_do(p); };
    o.get_name = [](void *p) { return (const char *)((EP *)p)->name; };
    o.ext.purge_lazy = [](void *p, void *, size_t) { return ep_do(p); };
    o.ext.purge_force = [](void *p, void *, size_t) { return ep_do(p); };
    o.ext.allocation_split = [](void *p, void *, size_t, size_t) { return ep_do(p); };
    o.ext.allocation_merge = [](void *p, void *, void *, size_t) { return ep_do(p); };
    o.ipc.get_ipc_handle_size = [](void *p, size_t *s) { *s = 8; return ep_do(p); };
    o.ipc.get_ipc_handle = [](void *p, const void *, size_t, void *) { return ep_do(p); };
    o.ipc.put_ipc_handle = [](void *p, void *) { return ep_do(p); };
    o.ipc.open_ipc_handle = [](void *p, void *, void **q) { *q = (void *)1; return ep_do(p); };
    o.ipc.close_ipc_handle = [](void *p, void *, size_t) { return ep_do(p); };
    return o;
}

enum { OS, FIXED, FILEP, NREAL };
struct Native {
    int32_t code = 0; // 0: nothing stored yet
    bool known = true;
    const char *word = "success";
    int err = 0; // the system's error, which the message ends with
};
// "what failed" alone, or "what failed: the system's description"
static bool msg_ok(const char *m, const Native &n) {
    if (!m || !strstr(m, n.word))
        return false;
    const char *k = strchr(m, ':');
    if (!n.err)
        return !k;
    char b[256];
    return k && k > m && std::string(k + 1) == " " + std::string(strerror_r(n.err, b, sizeof b)) && strstr(m, n.word) < k;
}
struct TModel {
    umf_memory_provider_handle_t last = nullptr; // exact handle
    std::string lastName;                        // or the name of it
    bool any = false;
    Native nat[NREAL];
    int32_t epNat[4] = {0, 0, 0, 0};
    std::map<int, umf_result_t> poolErr; // by pool kind
};

static void errors(Ctx &c) {
    unsigned nt = (unsigned)c.range(2, 4);
    TModel tm[4];
    // providers under test
    umf_memory_provider_handle_t real[NREAL];
    umf_os_memory_provider_params_handle_t op = nullptr;
    umfOsMemoryProviderParamsCreate(&op);
    PCHECK(c, umfMemoryProviderCreate(umfOsMemoryProviderOps(), op, &real[OS]) == UMF_RESULT_SUCCESS, "create", "os");
    umfOsMemoryProviderParamsDestroy(op);
    void *fb = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    umf_fixed_memory_provider_params_handle_t fp = nullptr;
    umfFixedMemoryProviderParamsCreate(&fp, fb, 1 << 20);
    PCHECK(c, umfMemoryProviderCreate(umfFixedMemoryProviderOps(), fp, &real[FIXED]) == UMF_RESULT_SUCCESS, "create", "fixed");
    umfFixedMemoryProviderParamsDestroy(fp);
    umf_file_memory_provider_params_handle_t lp = nullptr;
    umfFileMemoryProviderParamsCreate(&lp, (std::string(c.scratch) + "/f").c_str());
    umfFileMemoryProviderParamsSetVisibility(lp, UMF_MEM_MAP_SHARED);
    PCHECK(c, umfMemoryProviderCreate(umfFileMemoryProviderOps(), lp, &real[FILEP]) == UMF_RESULT_SUCCESS, "create", "file");
    umfFileMemoryProviderParamsDestroy(lp);
    static EP ep[4];
    umf_memory_provider_handle_t eh[4];
    umf_memory_provider_ops_t eo = ep_ops();
    for (int i = 0; i < 4; i++) {
        ep[i].code = UMF_RESULT_SUCCESS;
        ep[i].id = i;
        snprintf(ep[i].name, 16, "ep%d", i);
        for (int k = 0; k < 8; k++)
            snprintf(ep[i].msg[k], 32, "ep%d error %d", i, k);
        PCHECK(c, umfMemoryProviderCreate(&eo, &ep[i], &eh[i]) == UMF_RESULT_SUCCESS, "create", "ep");
    }
    // pools on ep[2] and ep[3]
    struct Pl {
        int kind; // 0 proxy 1 disjoint 2 scalable
        umf_memory_pool_handle_t h;
        int ep;
        bool tracked;
    };
    std::vector<Pl> pools;
    for (int i = 0; i < 3; i++) {
        Pl q;
        q.kind = (int)c.range(0, 1);
        q.ep = 2 + (int)c.range(0, 1);
        q.tracked = c.chance(2, 3);
        umf_result_t r;
        umf_pool_create_flags_t fl = q.tracked ? UMF_POOL_CREATE_FLAG_NONE : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING;
        if (q.kind == 0)
            r = umfPoolCreate(umfProxyPoolOps(), eh[q.ep], nullptr, fl, &q.h);
        else {
            umf_disjoint_pool_params_handle_t dp = nullptr;
            umfDisjointPoolParamsCreate(&dp);
            umfDisjointPoolParamsSetSlabMinSize(dp, 4096);
            umfDisjointPoolParamsSetMaxPoolableSize(dp, 4096);
            umfDisjointPoolParamsSetMinBucketSize(dp, 64);
            umfDisjointPoolParamsSetCapacity(dp, 1);
            r = umfPoolCreate(umfDisjointPoolOps(), eh[q.ep], dp, fl, &q.h);
            umfDisjointPoolParamsDestroy(dp);
        }
        PCHECK(c, r == UMF_RESULT_SUCCESS, "pool", "pool: %s", rs(r));
        pools.push_back(q);
    }
    c.note("%u threads; pools %d/%d/%d", nt, pools[0].kind, pools[1].kind, pools[2].kind);
    unsigned queries = 0, fails = 0;
    std::set<unsigned> failedOn;
    void *osblk = nullptr;
    umfMemoryProviderAlloc(real[OS], 8192, 0, &osblk);
    void *fblk = nullptr;
    PCHECK(c, umfMemoryProviderAlloc(real[FILEP], 8192, 0, &fblk) == UMF_RESULT_SUCCESS, "create", "a block of the file provider");
    char fhandle[8192];
    size_t fhs = 0;
    PCHECK(c, umfMemoryProviderGetIPCHandleSize(real[FILEP], &fhs) == UMF_RESULT_SUCCESS && fhs <= sizeof fhandle, "create", "IPC handle of %zu bytes", fhs);
    PCHECK(c, umfMemoryProviderGetIPCHandle(real[FILEP], fblk, 8192, fhandle) == UMF_RESULT_SUCCESS, "create", "IPC handle");
    {
        Runner rn(nt);
        unsigned steps = (unsigned)c.range(4, c.thorough ? 80 : 40);
        for (unsigned s = 0; s < steps; s++) {
            c.op();
            unsigned t = (unsigned)c.range(0, nt - 1);
            TModel &T = tm[t];
            switch (c.weighted({6, 4, 4, 6, 3})) {
            case 0: { // a call on a scripted provider
                int i = (int)c.range(0, 1);
                ep[i].code = c.chance(1, 4) ? UMF_RESULT_SUCCESS : gen_error(c);
                ep[i].native = (int32_t)c.range(1, 7);
                unsigned k = (unsigned)c.range(0, 13);
                umf_result_t want = ep[i].code, r = UMF_RESULT_SUCCESS;
                bool reaches = true;
                char hd[8];
                void *q;
                size_t z;
                umf_memory_provider_handle_t p = eh[i];
                rn.run(t, [&] {
                    switch (k) {
                    case 0: r = umfMemoryProviderAlloc(p, 64, 0, &q); break;
                    case 1: r = umfMemoryProviderFree(p, ep[i].buf, 64); break;
                    case 2: r = umfMemoryProviderGetRecommendedPageSize(p, 1, &z); break;
                    case 3: r = umfMemoryProviderGetMinPageSize(p, nullptr, &z); break;
                    case 4: r = umfMemoryProviderPurgeLazy(p, ep[i].buf, 64); break;
                    case 5: r = umfMemoryProviderPurgeForce(p, ep[i].buf, 64); break;
                    case 6: r = umfMemoryProviderAllocationSplit(p, ep[i].buf, 64, 32); break;
                    case 7: r = umfMemoryProviderAllocationMerge(p, ep[i].buf, ep[i].buf + 32, 64); break;
                    case 8: r = umfMemoryProviderGetIPCHandleSize(p, &z); break;
                    case 9: r = umfMemoryProviderGetIPCHandle(p, ep[i].buf, 64, hd); break;
                    case 10: r = umfMemoryProviderPutIPCHandle(p, hd); break;
                    case 11: r = umfMemoryProviderOpenIPCHandle(p, hd, &q); break;
                    case 12: r = umfMemoryProviderCloseIPCHandle(p, ep[i].buf, 64); break;
                    default: // refused before it gets to the provider
                        reaches = false;
                        want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                        r = umfMemoryProviderAllocationSplit(p, ep[i].buf, 64, 64 + s);
                    }
                });
                c.note("t%u: call %u on ep%d: %s", t, k, i, rs(r));
                PCHECK(c, r == want, "result", "call %u returned %s, the provider %s", k, rs(r), rs(want));
                if (reaches && want) {
                    T.last = p;
                    T.lastName = ep[i].name;
                    if (want == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
                        T.epNat[i] = ep[i].native;
                    fails++;
                    failedOn.insert(t);
                }
                break;
            }
            case 1: { // a real provider
                int i = (int)c.range(0, NREAL - 1);
                unsigned k = (unsigned)c.range(0, 7);
                int sys = c.oneof<int>({EINVAL, ENOMEM, EAGAIN, EPERM, EIO, ENOSYS, 4000, 1}), err = 0;
                if (k > 3)
                    k = k > 6 ? 5 : k; // 4..6: refused by the system with `sys`
                umf_result_t r = UMF_RESULT_SUCCESS, want = UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
                int32_t code = 0;
                const char *word = "";
                umf_memory_provider_handle_t p = real[i];
                void *q = nullptr;
                if (i == OS) {
                    rn.run(t, [&] {
                        switch (k) {
                        case 0: r = umfMemoryProviderAlloc(p, (size_t)1 << 60, 0, &q); code = UMF_OS_RESULT_ERROR_ALLOC_FAILED; word = "allocation failed"; break;
                        case 1: r = umfMemoryProviderPurgeForce(p, (char *)osblk + 1, 100); code = UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED; word = "force purging"; err = EINVAL; break;
                        case 2: r = umfMemoryProviderPurgeLazy(p, (char *)osblk + 1, 100); code = UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED; word = "lazy purging"; err = EINVAL; break;
                        case 4: no_madvise = err = sys; r = umfMemoryProviderPurgeForce(p, osblk, 8192); code = UMF_OS_RESULT_ERROR_PURGE_FORCE_FAILED; word = "force purging"; break;
                        case 5: no_munmap = err = sys; r = umfMemoryProviderFree(p, osblk, 8192); code = UMF_OS_RESULT_ERROR_FREE_FAILED; word = "deallocation failed"; break;
                        case 6: no_madvise = err = sys; r = umfMemoryProviderPurgeLazy(p, osblk, 8192); code = UMF_OS_RESULT_ERROR_PURGE_LAZY_FAILED; word = "lazy purging"; break;
                        default: r = umfMemoryProviderPurgeLazy(p, osblk, 8192); want = UMF_RESULT_SUCCESS;
                        }
                    });
                } else if (i == FIXED) {
                    rn.run(t, [&] {
                        switch (k) {
                        case 0: r = umfMemoryProviderAlloc(p, (size_t)1 << 30, 0, &q); want = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY; break;
                        case 1: r = umfMemoryProviderPurgeForce(p, (char *)fb + 1, 100); code = UMF_FIXED_RESULT_ERROR_PURGE_FORCE_FAILED; word = "force purging"; err = EINVAL; break;
                        case 4:
                        case 5:
                        case 6: no_madvise = err = sys; r = umfMemoryProviderPurgeForce(p, fb, 4096); code = UMF_FIXED_RESULT_ERROR_PURGE_FORCE_FAILED; word = "force purging"; break;
                        case 2: r = umfMemoryProviderPurgeLazy(p, fb, 100); want = UMF_RESULT_ERROR_NOT_SUPPORTED; break;
                        default: r = umfMemoryProviderFree(p, (char *)fb + 1, 0); want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                        }
                    });
                } else {
                    rn.run(t, [&] {
                        switch (k) {
                        case 0: r = umfMemoryProviderAlloc(p, 4096, 24, &q); want = UMF_RESULT_ERROR_INVALID_ALIGNMENT; break;
                        case 1: r = umfMemoryProviderPurgeForce(p, (char *)fb + 1, 100); code = UMF_FILE_RESULT_ERROR_PURGE_FORCE_FAILED; word = "force purging"; err = EINVAL; break;
                        case 4: no_madvise = err = sys; r = umfMemoryProviderPurgeForce(p, fblk, 4096); code = UMF_FILE_RESULT_ERROR_PURGE_FORCE_FAILED; word = "force purging"; break;
                        case 5: no_mmap = err = sys; r = umfMemoryProviderOpenIPCHandle(p, fhandle, &q); no_mmap = 0; code = UMF_FILE_RESULT_ERROR_ALLOC_FAILED; word = "allocation failed"; break;
                        case 6: no_munmap = err = sys; r = umfMemoryProviderCloseIPCHandle(p, fblk, 8192); code = UMF_FILE_RESULT_ERROR_FREE_FAILED; word = "deallocation failed"; break;
                        case 2: r = umfMemoryProviderPurgeLazy(p, fb, 100); want = UMF_RESULT_ERROR_NOT_SUPPORTED; break;
                        default: r = umfMemoryProviderAlloc(p, 4096, 0, &q); want = UMF_RESULT_SUCCESS;
                        }
                    });
                }
                c.note("t%u: call %u on %s: %s", t, k, umfMemoryProviderGetName(p), rs(r));
                PCHECK(c, r == want, "real.result", "call %u on %s: %s, expected %s", k, umfMemoryProviderGetName(p), rs(r), rs(want));
                if (r) {
                    T.last = p;
                    T.lastName = umfMemoryProviderGetName(p);
                    fails++;
                    failedOn.insert(t);
                }
                if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
                    T.nat[i] = Native{code, true, word, err};
                break;
            }
            case 2: { // a pool
                Pl &q = pools[c.index_of(pools.size())];
                EP &e = ep[q.ep];
                e.code = gen_error(c);
                e.native = (int32_t)c.range(1, 7);
                unsigned k = (unsigned)c.range(0, 3);
                umf_result_t want = e.code;
                void *r = (void *)1;
                umf_result_t err = UMF_RESULT_SUCCESS;
                rn.run(t, [&] {
                    switch (k) {
                    case 0: r = umfPoolMalloc(q.h, 100000); break;
                    case 1: r = umfPoolAlignedMalloc(q.h, 100000, 64); break;
                    case 2: r = umfPoolCalloc(q.h, 3, 100); break;
                    default: r = umfPoolRealloc(q.h, nullptr, 100);
                    }
                    err = umfPoolGetLastAllocationError(q.h);
                });
                c.note("t%u: pool call %u (kind %d, %s): %p %s", t, k, q.kind, rs(e.code), r, rs(err));
                if (k >= 2)
                    want = UMF_RESULT_ERROR_NOT_SUPPORTED;
                PCHECK(c, !r && err == want, "pool.error", "pool call %u: %p, last allocation error %s, expected %s", k, r, rs(err), rs(want));
                T.poolErr[q.kind] = want;
                fails++;
                failedOn.insert(t);
                if (k < 2) {
                    T.last = q.tracked ? nullptr : eh[q.ep];
                    T.lastName = e.name;
                    if (e.code == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
                        T.epNat[q.ep] = e.native;
                }
                e.code = UMF_RESULT_SUCCESS;
                break;
            }
            case 3: { // ask a thread about its errors
                umf_memory_provider_handle_t got = nullptr;
                std::string nm;
                int32_t code[NREAL], ec[4];
                const char *msg[NREAL], *em[4];
                std::string msgs[NREAL];
                std::map<int, umf_result_t> pe;
                rn.run(t, [&] {
                    got = umfGetLastFailedMemoryProvider();
                    if (got)
                        nm = umfMemoryProviderGetName(got);
                    for (int i = 0; i < NREAL; i++) {
                        code[i] = -12345;
                        msg[i] = nullptr;
                        umfMemoryProviderGetLastNativeError(real[i], &msg[i], &code[i]);
                        msgs[i] = msg[i] ? msg[i] : "NULL";
                    }
                    for (int i = 0; i < 4; i++)
                        umfMemoryProviderGetLastNativeError(eh[i], &em[i], &ec[i]);
                    for (auto &q : pools)
                        pe[q.kind] = umfPoolGetLastAllocationError(q.h);
                });
                queries++;
                c.note("t%u: last failed %s", t, got ? nm.c_str() : "none");
                PCHECK(c, (got != nullptr) == !T.lastName.empty() && (!T.last || got == T.last) && nm == T.lastName, "lastfailed",
                       "thread %u: last failed provider is %s, expected %s", t, got ? nm.c_str() : "none", T.lastName.c_str());
                for (int i = 0; i < NREAL; i++) {
                    static const int32_t ok[NREAL] = {UMF_OS_RESULT_SUCCESS, UMF_FIXED_RESULT_SUCCESS, UMF_FILE_RESULT_SUCCESS};
                    int32_t want = T.nat[i].code ? T.nat[i].code : ok[i];
                    PCHECK(c, code[i] == want && msg_ok(msgs[i].c_str(), T.nat[i]), "native",
                           "thread %u: native error of %s is %d (%s), expected %d (%s, system error %d)", t, umfMemoryProviderGetName(real[i]), code[i],
                           msgs[i].c_str(), want, T.nat[i].word, T.nat[i].err);
                }
                for (int i = 0; i < 4; i++)
                    PCHECK(c, ec[i] == T.epNat[i] && em[i] == ep[i].msg[ec[i] & 7], "native.user",
                           "thread %u: native error of a user provider is %d, expected %d", t, ec[i], T.epNat[i]);
                for (auto &x : T.poolErr)
                    PCHECK(c, pe[x.first] == x.second, "pool.last", "thread %u: last allocation error of pool kind %d is %s, it was %s", t,
                           x.first, rs(pe[x.first]), rs(x.second));
                break;
            }
            case 4: { // success on a pool changes nothing about providers
                Pl &q = pools[c.index_of(pools.size())];
                if (q.kind)
                    break;
                ep[q.ep].code = UMF_RESULT_SUCCESS;
                umf_result_t r = UMF_RESULT_ERROR_UNKNOWN;
                rn.run(t, [&] {
                    void *x = umfPoolMalloc(q.h, 64);
                    r = x ? umfPoolFree(q.h, x) : UMF_RESULT_ERROR_UNKNOWN;
                });
                if (q.tracked)
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "pool.ok", "malloc and free on a working provider: %s", rs(r));
                T.poolErr.erase(q.kind);
                break;
            }
            }
            for (auto &e : ep)
                e.code = UMF_RESULT_SUCCESS;
        }
    }
    for (auto &q : pools)
        umfPoolDestroy(q.h);
    for (int i = 0; i < 4; i++)
        umfMemoryProviderDestroy(eh[i]);
    umfMemoryProviderFree(real[OS], osblk, 8192);
    umfMemoryProviderPutIPCHandle(real[FILEP], fhandle);
    for (int i = 0; i < NREAL; i++)
        umfMemoryProviderDestroy(real[i]);
    if (failedOn.size() >= 2 && queries >= 2 && fails >= 3)
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C18",
                         "schedules of failing and succeeding calls by 2-4 threads on user-defined, OS, fixed and file providers and "
                         "on proxy and disjoint pools, with each thread asked for its last failed provider, native and allocation "
                         "errors; non-trivial: failures on two threads and at least two questions",
                         {{"errors", errors, 12000, 150000}});
}

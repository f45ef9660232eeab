// C12: IPC round trip over real memory: an opened handle shows exactly the
// bytes of the block it was taken for, in this process and in another one,
// for every pool over the OS and the file provider.
#include "cprov.hpp"
#include <sys/wait.h>
#include <umf/ipc.h>
#include <atomic>
using namespace h;
extern "C" int umfInit(void);
extern "C" void umfTearDown(void);

// a pool that hands out provider blocks and lets the harness split and merge
struct Pass {
    umf_memory_provider_handle_t p;
    std::map<uintptr_t, size_t> sz;
};
static Pass *passNow;
static umf_result_t q_init(umf_memory_provider_handle_t p, void *, void **priv) {
    passNow = new Pass{p, {}};
    *priv = passNow;
    return UMF_RESULT_SUCCESS;
}
static void q_fini(void *p) { delete (Pass *)p; }
static void *q_aligned(void *pp, size_t s, size_t a) {
    Pass *p = (Pass *)pp;
    void *q = nullptr;
    if (umfMemoryProviderAlloc(p->p, s, a, &q))
        return nullptr;
    p->sz[(uintptr_t)q] = s;
    return q;
}
static void *q_malloc(void *pp, size_t s) { return q_aligned(pp, s, 0); }
static void *q_calloc(void *, size_t, size_t) { return nullptr; }
static void *q_realloc(void *, void *, size_t) { return nullptr; }
static size_t q_usable(void *pp, void *q) { return ((Pass *)pp)->sz[(uintptr_t)q]; }
static umf_result_t q_free(void *pp, void *q) {
    Pass *p = (Pass *)pp;
    umf_result_t r = umfMemoryProviderFree(p->p, q, p->sz[(uintptr_t)q]);
    if (!r)
        p->sz.erase((uintptr_t)q);
    return r;
}
static umf_result_t q_err(void *) { return UMF_RESULT_SUCCESS; }
static umf_memory_pool_ops_t pass_ops() {
    umf_memory_pool_ops_t o;
    memset(&o, 0, sizeof o);
    o.version = UMF_POOL_OPS_VERSION_CURRENT;
    o.initialize = q_init;
    o.finalize = q_fini;
    o.malloc = q_malloc;
    o.calloc = q_calloc;
    o.realloc = q_realloc;
    o.aligned_malloc = q_aligned;
    o.malloc_usable_size = q_usable;
    o.free = q_free;
    o.get_last_allocation_error = q_err;
    return o;
}

enum Kind { Memfd, Shm, File };
struct Pool {
    Kind kind;
    unsigned pk; // 0 proxy, 1 disjoint, 2 pass, 3 scalable
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_pool_handle_t h = nullptr;
    umf_ipc_handler_handle_t handler = nullptr;
    Pass *pass = nullptr;
    std::string name;
    unsigned opens = 0; // successful upstream opens of its memory (named)
};
struct Blk {
    unsigned pool;
    size_t size;
    uint64_t tag;
};
struct Hd {
    std::vector<char> copy;
    uintptr_t ptr; // what the handle was taken for
    uintptr_t blk;
};
struct Open {
    unsigned pool;
    char *q;
    uintptr_t ptr, blk;
};

static umf_memory_provider_handle_t make_prov(Ctx &c, Kind k, const std::string &name, bool shared = true) {
    umf_memory_provider_handle_t p = nullptr;
    umf_result_t r;
    if (k == File) {
        umf_file_memory_provider_params_handle_t hp = nullptr;
        umfFileMemoryProviderParamsCreate(&hp, name.c_str());
        umfFileMemoryProviderParamsSetVisibility(hp, shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
        r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), hp, &p);
        umfFileMemoryProviderParamsDestroy(hp);
    } else {
        umf_os_memory_provider_params_handle_t hp = nullptr;
        umfOsMemoryProviderParamsCreate(&hp);
        umfOsMemoryProviderParamsSetVisibility(hp, shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
        if (k == Shm)
            umfOsMemoryProviderParamsSetShmName(hp, name.c_str());
        r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), hp, &p);
        umfOsMemoryProviderParamsDestroy(hp);
    }
    PCHECK(c, r == UMF_RESULT_SUCCESS && p, "prov", "provider (kind %d): %s", (int)k, rs(r));
    return p;
}
static umf_result_t make_pool(unsigned pk, umf_memory_provider_handle_t prov, Pool &p, size_t slab) {
    static umf_memory_pool_ops_t po = pass_ops();
    umf_result_t r;
    if (pk == 1) {
        umf_disjoint_pool_params_handle_t hp = nullptr;
        umfDisjointPoolParamsCreate(&hp);
        umfDisjointPoolParamsSetSlabMinSize(hp, slab);
        umfDisjointPoolParamsSetMaxPoolableSize(hp, slab / 2);
        umfDisjointPoolParamsSetCapacity(hp, 2);
        umfDisjointPoolParamsSetMinBucketSize(hp, 64);
        r = umfPoolCreate(umfDisjointPoolOps(), prov, hp, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p.h);
        umfDisjointPoolParamsDestroy(hp);
    } else if (pk == 3) {
        umf_scalable_pool_params_handle_t hp = nullptr;
        umfScalablePoolParamsCreate(&hp);
        umfScalablePoolParamsSetGranularity(hp, 1 << 20);
        r = umfPoolCreate(umfScalablePoolOps(), prov, hp, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p.h);
        umfScalablePoolParamsDestroy(hp);
    } else
        r = umfPoolCreate(pk == 0 ? umfProxyPoolOps() : &po, prov, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &p.h);
    if (r)
        return r;
    p.pass = pk == 2 ? passNow : nullptr;
    return umfPoolGetIPCHandler(p.h, &p.handler);
}

static bool shm_exists(const std::string &n) {
    struct stat st;
    return stat(("/dev/shm/" + n).c_str(), &st) == 0;
}

static void history(Ctx &c) {
    no_stdin(c);
    size_t max = c.chance(1, 2) ? 0 : c.range(1, 3);
    umfTearDown();
    if (max)
        setenv("UMF_MAX_OPENED_IPC_HANDLES", std::to_string(max).c_str(), 1);
    else
        unsetenv("UMF_MAX_OPENED_IPC_HANDLES");
    umfInit();
    bool faults = c.chance(1, 3);
    c.note("max=%zu faults=%d", max, faults);
    std::vector<Pool> ps;
    std::map<uintptr_t, Blk> blks;
    std::vector<Hd> hs;
    std::vector<Open> op;
    uint64_t tag = 7;
    unsigned opens = 0, interior = 0, remote = 0, reuse = 0, splits = 0, aligned = 0, faultsSeen = 0;
    std::set<uintptr_t> seen;
    unsigned np = (unsigned)c.range(1, 3);
    Kind k0 = (Kind)c.range(0, 2);
    { // warm up what is opened once per process
        umf_memory_provider_handle_t p = make_prov(c, Memfd, "");
        umfMemoryProviderDestroy(p);
    }
    unsigned fds0 = open_fds();
    wm::on = true;
    static unsigned serial;
    // files named relative to the working directory, which is another one later
    bool rel = k0 == File && c.chance(1, 3);
    if (rel && chdir(c.scratch))
        c.fail("chdir", "chdir");
    for (unsigned i = 0; i < np; i++) {
        Pool p;
        // consumers and producers must speak the same kind of handle
        p.kind = k0 == File ? File : (Kind)(c.chance(1, 2) ? Memfd : Shm);
        if (i == 0)
            p.kind = k0;
        p.pk = (unsigned)c.weighted({3, 3, 3, 1});
        if (p.kind == File)
            p.name = std::string(c.scratch) + "/f" + std::to_string(c.chance(1, 4) ? 0 : i);
        else if (p.kind == Shm)
            p.name = "umfv_" + std::to_string(getpid()) + "_" + std::to_string(serial++);
        // two providers on one file would hand out the same bytes
        for (auto &x : ps)
            if (p.kind == File && x.name == p.name)
                p.name += "x";
        p.prov = make_prov(c, p.kind, rel && c.chance(3, 4) ? p.name.substr(strlen(c.scratch) + 1) : p.name);
        umf_result_t r = make_pool(p.pk, p.prov, p, c.oneof<size_t>({4096, 65536}));
        if (r == UMF_RESULT_ERROR_NOT_SUPPORTED && p.pk == 3)
            c.discard("no TBB");
        PCHECK(c, r == UMF_RESULT_SUCCESS, "pool", "pool kind %u: %s", p.pk, rs(r));
        c.note("pool %u: kind %d, pool %u", i, (int)p.kind, p.pk);
        ps.push_back(p);
    }
    if (rel) {
        std::string d = std::string(c.scratch) + "/elsewhere";
        mkdir(d.c_str(), 0700);
        for (auto &p : ps) // another file of that name
            if (c.chance(1, 2)) {
                int fd = open((d + p.name.substr(strlen(c.scratch))).c_str(), O_CREAT | O_RDWR, 0600);
                if (fd < 0 || ftruncate(fd, 4 << 20))
                    c.fail("scratch", "scratch file");
                close(fd);
            }
        if (chdir(d.c_str()))
            c.fail("chdir", "chdir");
        c.label("relative path");
    }
    auto cleanupShm = [&] {
        for (auto &p : ps)
            if (p.kind == Shm)
                unlink(("/dev/shm/" + p.name).c_str());
    };
    // failures must not leave names behind
#define CC(cond, ...)                                                                                                                                          \
    do {                                                                                                                                                       \
        if (!(cond)) {                                                                                                                                         \
            cleanupShm();                                                                                                                                      \
            c.fail(__VA_ARGS__);                                                                                                                               \
        }                                                                                                                                                      \
    } while (0)
    auto check = [&](uintptr_t a, const char *when) {
        Blk &b = blks[a];
        size_t bad = verify((void *)a, b.size, b.tag);
        CC(bad == SIZE_MAX, "content", "block %p..+%zu changed at %zu (%s)", (void *)a, b.size, bad, when);
        for (auto &o : op)
            if (o.blk == a) {
                char *v = o.q - (o.ptr - a); // the block, as seen through the handle
                bad = verify(v, b.size, b.tag);
                CC(bad == SIZE_MAX, "opened.content", "block %p..+%zu opened at %p differs from it at %zu (%s)", (void *)a, b.size, v, bad, when);
            }
    };
    auto closeOpen = [&](size_t i) {
        Open o = op[i];
        op.erase(op.begin() + (long)i);
        umf_result_t r = umfCloseIPCHandle(o.q);
        c.note("close %p -> %s", o.q, rs(r));
        CC(r == UMF_RESULT_SUCCESS, "close", "closing an open handle: %s", rs(r));
    };
    auto forget = [&](uintptr_t b) { // before the block changes
        for (size_t i = op.size(); i-- > 0;)
            if (op[i].blk == b)
                closeOpen(i);
        for (size_t i = hs.size(); i-- > 0;)
            if (hs[i].blk == b)
                hs.erase(hs.begin() + (long)i);
    };
    auto pickBlk = [&] {
        auto it = blks.begin();
        std::advance(it, (long)c.index_of(blks.size()));
        return it->first;
    };
    bool known = c.known("C12-shm-unlinked");
    // UMF removes the name of a shared memory file when a handle of it is
    // opened, so another mapping of it cannot be made any more
    auto nameGone = [&](unsigned producer) { return ps[producer].kind == Shm && ps[producer].opens && !shm_exists(ps[producer].name); };
    unsigned nops = (unsigned)c.range(5, 40);
    for (unsigned n = 0; n < nops; n++) {
        c.op();
        unsigned k = (unsigned)c.weighted({6, 3, 7, 12, 5, 3, 3, 1, 2});
        if (blks.empty())
            k = 0;
        else if (hs.empty() && (k == 3 || k == 7))
            k = 2;
        else if (op.empty() && k == 4)
            k = 3;
        if (hs.empty() && k == 3)
            k = 2;
        switch (k) {
        case 0: {
            unsigned pi = (unsigned)c.index_of(np);
            Pool &p = ps[pi];
            size_t s = c.chance(1, 2) ? c.range(1, 3000) : c.chance(1, 2) ? c.range(1, 40) * 4096 : c.range(1, 200000);
            size_t al = c.chance(1, 3) ? c.pow2(0, 16) : 0;
            if (p.pk == 2 && c.chance(1, 2))
                s = up(s, 4096);
            char *q = (char *)(al ? umfPoolAlignedMalloc(p.h, s, al) : umfPoolMalloc(p.h, s));
            c.note("pool %u alloc %zu/%zu = %p", pi, s, al, q);
            CC(q, "alloc", "allocation of %zu aligned to %zu failed", s, al);
            if (al > 4096)
                aligned++;
            auto nx = blks.lower_bound((uintptr_t)q);
            CC((nx == blks.end() || nx->first >= (uintptr_t)q + s) && (nx == blks.begin() || std::prev(nx)->first + std::prev(nx)->second.size <= (uintptr_t)q),
               "overlap", "%p..+%zu overlaps a live block", q, s);
            for (auto &o : op) {
                Blk &ob = blks[o.blk];
                char *v = o.q - (o.ptr - o.blk);
                CC(q + s <= v || v + ob.size <= q, "overlap.open", "%p..+%zu overlaps memory opened from a handle", q, s);
            }
            if (!seen.insert((uintptr_t)q).second)
                reuse++;
            Blk b = {pi, s, tag++ * 1315423911u};
            fill(q, s, b.tag);
            blks[(uintptr_t)q] = b;
            break;
        }
        case 1: {
            uintptr_t b = pickBlk();
            check(b, "before free");
            forget(b);
            umf_result_t r = umfPoolFree(ps[blks[b].pool].h, (void *)b);
            c.note("free %p -> %s", (void *)b, rs(r));
            CC(r == UMF_RESULT_SUCCESS, "free", "free: %s", rs(r));
            blks.erase(b);
            break;
        }
        case 2: {
            uintptr_t b = pickBlk();
            Blk &x = blks[b];
            size_t off = c.chance(1, 2) ? 0 : c.range(0, x.size - 1);
            umf_ipc_handle_t hd = nullptr;
            size_t sz = 0, sz2 = 0;
            umf_result_t r = umfGetIPCHandle((void *)(b + off), &hd, &sz);
            c.note("handle of %p+%zu -> %s", (void *)b, off, rs(r));
            CC(r == UMF_RESULT_SUCCESS, "get", "umfGetIPCHandle of %p+%zu: %s", (void *)b, off, rs(r));
            r = umfPoolGetIPCHandleSize(ps[x.pool].h, &sz2);
            CC(r == UMF_RESULT_SUCCESS && sz == sz2, "size", "handle size %zu, the pool's is %zu", sz, sz2);
            hs.push_back({std::vector<char>((char *)hd, (char *)hd + sz), b + off, b});
            CC(umfPutIPCHandle(hd) == UMF_RESULT_SUCCESS, "put", "umfPutIPCHandle");
            interior += off != 0;
            break;
        }
        case 3: {
            Hd &hd = hs[c.index_of(hs.size())];
            if (c.chance(1, 12)) { // through a provider that does not share its memory
                Pool np2;
                // ... or through one that was made only now, for the same file
                bool late = ps[blks[hd.blk].pool].kind == File && c.chance(1, 2);
                const Pool &pr = ps[blks[hd.blk].pool];
                umf_memory_provider_handle_t pv = make_prov(c, pr.kind == File ? File : Memfd, pr.name, late);
                umf_result_t r = make_pool(0, pv, np2, 0);
                void *q = nullptr;
                if (r == UMF_RESULT_SUCCESS) {
                    r = umfOpenIPCHandle(np2.handler, (umf_ipc_handle_t)hd.copy.data(), &q);
                    c.note("open handle of %p through %s -> %s", (void *)hd.ptr, late ? "a new pool" : "private memory", rs(r));
                    if (late) {
                        CC(r == UMF_RESULT_SUCCESS, "open.late", "through a new provider of the same file: %s", rs(r));
                        Blk &x = blks[hd.blk];
                        size_t bad = verify((char *)q - (hd.ptr - hd.blk), x.size, x.tag);
                        CC(bad == SIZE_MAX, "late.bytes", "byte %zu of block %p is another one through a new provider of the same file", bad, (void *)hd.blk);
                        CC(umfCloseIPCHandle(q) == UMF_RESULT_SUCCESS, "late.close", "umfCloseIPCHandle");
                    } else
                    CC(r != UMF_RESULT_SUCCESS && valid_code(r), "open.private", "a handle was opened through a provider of private memory: %s", rs(r));
                } else // no IPC handler
                    c.note("private pool: %s", rs(r));
                if (np2.h)
                    umfPoolDestroy(np2.h);
                else
                    umfMemoryProviderDestroy(pv);
                check(hd.blk, "after refused open");
                break;
            }
            unsigned pi = (unsigned)c.index_of(np), producer = blks[hd.blk].pool;
            uint64_t f0 = wm::nfailed;
            bool arm = faults && c.chance(1, 4);
            if (arm)
                wm::failIn = c.range(1, 2);
            uint64_t maps0 = wm::nmap;
            char *q = nullptr;
            bool gone = nameGone(producer);
            umf_result_t r = umfOpenIPCHandle(ps[pi].handler, (umf_ipc_handle_t)hd.copy.data(), (void **)&q);
            bool fired = wm::nfailed != f0;
            wm::failIn = 0;
            c.note("open handle of %p in pool %u -> %s %p%s", (void *)hd.ptr, pi, rs(r), q, fired ? " (fault)" : "");
            if (r != UMF_RESULT_SUCCESS) {
                CC(valid_code(r), "code", "result %d", (int)r);
                if (fired) {
                    faultsSeen++;
                    if (ps[producer].kind == Shm)
                        ps[producer].opens++;
                    break;
                }
                CC(known && gone, "open", "opening the handle of live memory %p: %s", (void *)hd.ptr, rs(r));
                break;
            }
            opens++;
            ps[producer].opens++;
            (void)maps0;
            op.push_back({pi, q, hd.ptr, hd.blk});
            check(hd.blk, "after open");
            break;
        }
        case 4:
            closeOpen(c.index_of(op.size()));
            break;
        case 5: { // write through an opened handle, or at the origin
            uintptr_t b;
            if (!op.empty() && c.chance(2, 3)) {
                Open &o = op[c.index_of(op.size())];
                b = o.blk;
                Blk &x = blks[b];
                x.tag = tag++ * 1315423911u;
                fill(o.q - (o.ptr - b), x.size, x.tag);
                c.note("write %p through %p", (void *)b, o.q);
            } else {
                b = pickBlk();
                blks[b].tag = tag++ * 1315423911u;
                fill((void *)b, blks[b].size, blks[b].tag);
            }
            check(b, "after writing");
            break;
        }
        case 6: { // split or merge
            uintptr_t b = pickBlk();
            Blk x = blks[b];
            Pool &p = ps[x.pool];
            if (p.pk != 2)
                break;
            auto nx = std::next(blks.find(b));
            check(b, "before split/merge");
            if (nx != blks.end() && nx->second.pool == x.pool && b + x.size == nx->first && c.chance(1, 2)) {
                uintptr_t b2 = nx->first;
                size_t t = x.size + nx->second.size;
                check(b2, "before merge");
                forget(b);
                forget(b2);
                umf_result_t r = umfMemoryProviderAllocationMerge(p.pass->p, (void *)b, (void *)b2, t);
                c.note("merge %p %p -> %s", (void *)b, (void *)b2, rs(r));
                CC(valid_code(r), "code", "result %d", (int)r);
                // refused when the two are not adjacent in the file
                if (!r) {
                    p.pass->sz[b] = t;
                    p.pass->sz.erase(b2);
                    blks.erase(b2);
                    blks[b].size = t;
                    blks[b].tag = tag++ * 1315423911u;
                    fill((void *)b, t, blks[b].tag);
                    splits++;
                }
            } else if (x.size > 4096) {
                size_t f = 4096 * c.range(1, (x.size - 1) / 4096);
                forget(b);
                umf_result_t r = umfMemoryProviderAllocationSplit(p.pass->p, (void *)b, x.size, f);
                c.note("split %p %zu/%zu -> %s", (void *)b, f, x.size, rs(r));
                CC(valid_code(r), "code", "result %d", (int)r);
                CC(r == UMF_RESULT_SUCCESS, "split", "split: %s", rs(r));
                p.pass->sz[b] = f;
                p.pass->sz[b + f] = x.size - f;
                for (auto y : {std::pair<uintptr_t, size_t>(b, f), std::pair<uintptr_t, size_t>(b + f, x.size - f)}) {
                    Blk z = {x.pool, y.second, tag++ * 1315423911u};
                    fill((void *)y.first, z.size, z.tag);
                    blks[y.first] = z;
                }
                splits++;
            }
            break;
        }
        case 7: { // another process opens them
            unsigned take = (unsigned)c.range(1, 4);
            std::vector<Hd> v;
            std::set<unsigned> shmUsed;
            for (unsigned i = 0; i < take; i++) {
                Hd &hd = hs[c.index_of(hs.size())];
                unsigned pr = blks[hd.blk].pool;
                if (known && ps[pr].kind == Shm && (ps[pr].opens || shmUsed.count(pr)))
                    continue;
                shmUsed.insert(pr);
                v.push_back(hd);
            }
            if (v.empty())
                break;
            unsigned cpk = (unsigned)c.range(0, 2);
            unsigned cmax = (unsigned)c.range(0, 2);
            uint64_t wtag = 0;
            bool wr = c.chance(1, 2);
            if (wr)
                wtag = tag++ * 1315423911u;
            for (auto &x : v)
                check(x.blk, "before another process opens it");
            int pp[2];
            if (pipe(pp))
                c.discard("pipe");
            pid_t pid = fork();
            if (pid == 0) { // consumer: its own pool and provider
                close(pp[0]);
                auto say = [&](const char *m) {
                    ssize_t z = write(pp[1], m, strlen(m));
                    (void)z;
                    _exit(1);
                };
                wm::on = false;
                alarm(10);
                Pool q;
                umf_memory_provider_handle_t pr = make_prov(c, k0 == File ? File : Memfd, std::string(c.scratch) + "/child");
                if (make_pool(cpk, pr, q, 65536))
                    say("the consumer's pool cannot be created");
                (void)cmax;
                std::vector<void *> o;
                for (auto &x : v) {
                    char *at = nullptr;
                    umf_result_t r = umfOpenIPCHandle(q.handler, (umf_ipc_handle_t)x.copy.data(), (void **)&at);
                    if (r == UMF_RESULT_ERROR_NOT_SUPPORTED || (r == UMF_RESULT_ERROR_INVALID_ARGUMENT && ps[blks[x.blk].pool].kind == Memfd && errno == EPERM))
                        say("SKIP");
                    if (r)
                        say(("opening in another process: " + std::string(rs(r))).c_str());
                    Blk &b = blks[x.blk];
                    char *vw = at - (x.ptr - x.blk);
                    if (verify(vw, b.size, b.tag) != SIZE_MAX)
                        say("the bytes seen in another process differ");
                    o.push_back(at);
                }
                if (wr)
                    for (size_t i = 0; i < v.size(); i++)
                        fill((char *)o[i] - (v[i].ptr - v[i].blk), blks[v[i].blk].size, wtag + (v[i].blk >> 4));
                for (void *x : o)
                    if (umfCloseIPCHandle(x))
                        say("closing in another process failed");
                umfPoolDestroy(q.h);
                _exit(0);
            }
            close(pp[1]);
            std::string msg;
            char buf[256];
            ssize_t z;
            while ((z = read(pp[0], buf, sizeof buf)) > 0)
                msg.append(buf, (size_t)z);
            close(pp[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            c.note("another process opens %zu handles: %s", v.size(), msg.empty() ? "ok" : msg.c_str());
            for (auto &x : v)
                ps[blks[x.blk].pool].opens++;
            if (msg == "SKIP") {
                c.label("other process may not take descriptors");
                for (auto &x : v)
                    check(x.blk, "after another process opened it");
                break;
            }
            CC(msg.empty() && WIFEXITED(st) && WEXITSTATUS(st) == 0, "remote", "another process: %s (status %d)", msg.c_str(), st);
            if (wr)
                for (auto &x : v)
                    blks[x.blk].tag = wtag + (x.blk >> 4);
            for (auto &x : v)
                check(x.blk, "after another process wrote it");
            remote++;
            break;
        }
        default: { // memory that is not shared has no handles
            umf_memory_provider_handle_t pr = make_prov(c, k0 == File ? File : Memfd, std::string(c.scratch) + "/priv", false);
            Pool q;
            umf_result_t r = make_pool(2 * (unsigned)c.range(0, 1), pr, q, 65536);
            CC(r == UMF_RESULT_SUCCESS, "pool", "pool: %s", rs(r));
            void *m = umfPoolMalloc(q.h, 100);
            umf_ipc_handle_t hd = (umf_ipc_handle_t)0x41;
            size_t sz = 0x42;
            r = umfGetIPCHandle(m, &hd, &sz);
            CC(r != UMF_RESULT_SUCCESS && valid_code(r) && hd == (umf_ipc_handle_t)0x41 && sz == 0x42, "private", "handle of private memory: %s", rs(r));
            r = umfPoolGetIPCHandleSize(q.h, &sz);
            CC(r != UMF_RESULT_SUCCESS, "private.size", "handle size of private memory: %s", rs(r));
            CC(umfPoolFree(q.h, m) == UMF_RESULT_SUCCESS, "free", "free");
            umfPoolDestroy(q.h);
        }
        }
    }
    for (auto &b : blks)
        check(b.first, "at the end");
    while (!op.empty())
        closeOpen(op.size() - 1);
    for (auto &b : blks)
        CC(umfPoolFree(ps[b.second.pool].h, (void *)b.first) == UMF_RESULT_SUCCESS, "free", "free");
    bool scal = false;
    for (auto &p : ps) {
        scal |= p.pk == 3;
        umfPoolDestroy(p.h);
    }
    cleanupShm();
    unsigned fds1 = open_fds();
    CC(fds1 == fds0, "fds", "%u descriptors open before, %u after", fds0, fds1);
    CC(wm::fileMaps.empty() || scal, "maps", "%zu mappings of files are left, one at %p..+%zu", wm::fileMaps.size(), (void *)wm::fileMaps.begin()->first,
       wm::fileMaps.begin()->second);
    wm::on = false;
    if (remote)
        c.label("other process");
    if (interior)
        c.label("interior pointers");
    if (reuse)
        c.label("address reused");
    if (splits)
        c.label("split/merge");
    if (aligned)
        c.label("over-aligned");
    if (faultsSeen)
        c.label("failing mmap");
    if (opens >= 2 || remote)
        c.nontrivial();
}

// ---- the provider's own IPC calls, without pools ---------------------------
static void direct(Ctx &c) {
    struct Prv {
        Kind kind;
        bool shared, rw;
        std::string name;
        umf_memory_provider_handle_t h = nullptr;
        bool opened = false; // UMF removes the name of a shared memory file when it is opened
        bool gone = false;   // the file was removed
    };
    struct B {
        unsigned pr;
        char *q;
        size_t size;
        uint64_t tag;
    };
    struct H {
        std::vector<char> d;
        unsigned pr;
        char *q;
        size_t size;
    };
    struct O {
        unsigned pr, from;
        char *v, *q;
        size_t size;
    };
    no_stdin(c);
    Probe probe;
    bool file = c.chance(1, 2);
    {
        umf_memory_provider_handle_t p = make_prov(c, Memfd, "");
        umfMemoryProviderDestroy(p);
    }
    unsigned fds = open_fds();
    wm::on = true;
    wm::dax = file && c.chance(1, 6);
    std::vector<Prv> ps((size_t)c.range(1, 4));
    static unsigned serial;
    // names that differ only at the end
    std::string stem = "/" + std::string(c.chance(1, 4) ? c.range(60, 200) : 1, 'd');
    for (size_t i = 0; i < ps.size(); i++) {
        Prv &p = ps[i];
        p.kind = file ? File : c.chance(1, 2) ? Memfd : Shm;
        p.shared = i == 0 || c.chance(4, 5);
        p.rw = c.chance(3, 4);
        unsigned prot = p.rw ? UMF_PROTECTION_READ | UMF_PROTECTION_WRITE : UMF_PROTECTION_READ;
        umf_memory_visibility_t vis = p.shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE;
        umf_result_t r;
        if (p.kind == File) {
            p.name = std::string(c.scratch) + stem + std::to_string(c.range(0, i));
            umf_file_memory_provider_params_handle_t hp = nullptr;
            umfFileMemoryProviderParamsCreate(&hp, p.name.c_str());
            umfFileMemoryProviderParamsSetVisibility(hp, vis);
            umfFileMemoryProviderParamsSetProtection(hp, prot);
            r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), hp, &p.h);
            umfFileMemoryProviderParamsDestroy(hp);
        } else {
            umf_os_memory_provider_params_handle_t hp = nullptr;
            umfOsMemoryProviderParamsCreate(&hp);
            umfOsMemoryProviderParamsSetVisibility(hp, vis);
            umfOsMemoryProviderParamsSetProtection(hp, prot);
            if (p.kind == Shm && p.shared) { // names of different lengths
                p.name = "umfd_" + std::to_string(getpid()) + "_" + std::to_string(serial++) + std::string(c.range(0, 2), 'x');
                umfOsMemoryProviderParamsSetShmName(hp, p.name.c_str());
            }
            r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), hp, &p.h);
            umfOsMemoryProviderParamsDestroy(hp);
        }
        c.note("provider %zu: kind %d %s shared=%d rw=%d -> %s", i, (int)p.kind, p.name.c_str(), p.shared, p.rw, rs(r));
        PCHECK(c, r == UMF_RESULT_SUCCESS, "create", "%s", rs(r));
    }
    std::vector<B> bs;
    std::vector<H> hs;
    std::vector<O> os;
    uint64_t tag = 3;
    unsigned good = 0, bad = 0;
    auto native = [&](umf_memory_provider_handle_t p, int osCode, int fileCode) {
        const char *m = nullptr;
        int32_t e = 0;
        umfMemoryProviderGetLastNativeError(p, &m, &e);
        PCHECK(c, m && e == (file ? fileCode : osCode), "native", "native error %d \"%s\"", e, m ? m : "");
    };
    for (unsigned n = (unsigned)c.range(6, 40); n > 0; n--) {
        c.op();
        unsigned k = (unsigned)c.weighted({5, 6, 6, 4, 3, 2, 2, 1});
        switch (k) {
        case 0: {
            unsigned i = (unsigned)c.index_of(ps.size());
            // providers over the same file hand out the same bytes of it
            for (unsigned j = 0; file && ps[i].shared && j < i; j++)
                if (ps[j].shared && ps[j].name == ps[i].name)
                    i = j;
            size_t s = c.chance(1, 2) ? 4096 * c.range(1, 8) : c.range(1, 60000);
            void *q = nullptr;
            umf_result_t r = umfMemoryProviderAlloc(ps[i].h, s, c.chance(1, 4) ? c.pow2(12, 16) : 0, &q);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "alloc", "%s", rs(r));
            c.note("alloc %zu of %u = %p", s, i, q);
            if (ps[i].rw)
                fill((char *)q, s, tag);
            bs.push_back({i, (char *)q, s, tag++});
            break;
        }
        case 1: {
            if (bs.empty())
                break;
            B &b = bs[c.index_of(bs.size())];
            Prv &p = ps[b.pr];
            size_t sz = 0;
            umf_result_t r = umfMemoryProviderGetIPCHandleSize(p.h, &sz);
            std::vector<char> d(r == UMF_RESULT_SUCCESS ? sz : 8192, (char)0xA5);
            PCHECK(c, r == (p.shared ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT), "size", "%s (shared %d)", rs(r), p.shared);
            unsigned wrong = (unsigned)c.weighted({8, 1, 1});
            char *q = wrong == 0 ? b.q : wrong == 1 ? b.q + (c.range(1, b.size) | 1) : (char *)&sz;
            for (auto &o : bs)
                if (wrong && o.q == q)
                    wrong = 0;
            r = umfMemoryProviderGetIPCHandle(p.h, q, b.size, d.data());
            c.note("get %p of %u -> %s", q, b.pr, rs(r));
            if (wrong || !p.shared) {
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "get.wrong", "a handle of %p, where no shared block begins: %s", q, rs(r));
                bad++;
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "get", "handle of %p: %s", q, rs(r));
            hs.push_back({d, b.pr, q, b.size});
            break;
        }
        case 2: { // open
            if (hs.empty())
                break;
            H &h = hs[c.index_of(hs.size())];
            unsigned i = (unsigned)c.index_of(ps.size());
            Prv &src = ps[h.pr], &p = ps[i];
            if (src.kind == Shm && src.opened && p.shared)
                break;
            void *v = nullptr;
            bool fault = c.chance(1, 6);
            uint64_t f0 = wm::nfailed;
            if (fault)
                wm::failIn = 1;
            umf_result_t r = umfMemoryProviderOpenIPCHandle(p.h, h.d.data(), &v);
            wm::failIn = 0;
            bool fired = wm::nfailed != f0;
            c.note("open handle of %p through %u -> %s%s", h.q, i, rs(r), fired ? " (fault)" : "");
            src.opened |= p.shared;
            if (!p.shared || (src.kind == File && src.gone)) {
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && !fired, "open.wrong", "opened through %s memory: %s", p.shared ? "a file that is gone" : "private", rs(r));
                bad++;
                break;
            }
            if (fired) {
                PCHECK(c, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "open.fault", "a refused mapping: %s", rs(r));
                native(p.h, UMF_OS_RESULT_ERROR_ALLOC_FAILED, UMF_FILE_RESULT_ERROR_ALLOC_FAILED);
                bad++;
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS && v, "open", "handle of %p: %s", h.q, rs(r));
            PCHECK(c, probe.readable((char *)v) && probe.readable((char *)v + h.size - 1), "open.read", "opened memory is not readable");
            char keep = *(char *)v;
            bool w = probe.writable((char *)v);
            PCHECK(c, w == src.rw, "open.prot", "opened memory is writable: %d, the block: %d", w, src.rw);
            if (w)
                *(char *)v = keep;
            os.push_back({i, h.pr, (char *)v, h.q, h.size});
            good++;
            break;
        }
        case 3: { // both see the same
            if (os.empty())
                break;
            O &o = os[c.index_of(os.size())];
            for (auto &b : bs)
                if (b.q == o.q && ps[b.pr].rw) {
                    size_t bd = verify(o.v, b.size, b.tag);
                    PCHECK(c, bd == SIZE_MAX, "bytes", "byte %zu differs through the handle", bd);
                    b.tag = tag++;
                    fill(c.chance(1, 2) ? o.v : b.q, b.size, b.tag);
                    bd = verify(o.v, b.size, b.tag);
                    PCHECK(c, bd == SIZE_MAX && verify(b.q, b.size, b.tag) == SIZE_MAX, "bytes", "a write is not seen on the other side");
                }
            break;
        }
        case 4: { // close
            if (os.empty())
                break;
            size_t j = c.index_of(os.size());
            O o = os[j];
            if (c.chance(1, 5)) {
                wm::failUnmapIn = 1;
                umf_result_t r = umfMemoryProviderCloseIPCHandle(ps[o.pr].h, o.v, o.size);
                wm::failUnmapIn = 0;
                PCHECK(c, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "close.fault", "a refused unmapping: %s", rs(r));
                native(ps[o.pr].h, UMF_OS_RESULT_ERROR_FREE_FAILED, UMF_FILE_RESULT_ERROR_FREE_FAILED);
                bad++;
            }
            umf_result_t r = umfMemoryProviderCloseIPCHandle(ps[o.pr].h, o.v, o.size);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "close", "%s", rs(r));
            PCHECK(c, !probe.readable(o.v), "close.map", "closed memory is still there");
            os.erase(os.begin() + (long)j);
            break;
        }
        case 5: { // put
            if (hs.empty())
                break;
            H &h = hs[c.index_of(hs.size())];
            unsigned i = (unsigned)c.index_of(ps.size());
            if (ps[i].kind != ps[h.pr].kind && ps[i].shared)
                break;
            bool ok = ps[i].shared && (i == h.pr || (file && ps[i].name == ps[h.pr].name));
            umf_result_t r = umfMemoryProviderPutIPCHandle(ps[i].h, h.d.data());
            c.note("put handle of %p to %u -> %s", h.q, i, rs(r));
            PCHECK(c, r == (ok ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT), "put", "a handle of provider %u given back to %u: %s", h.pr, i, rs(r));
            break;
        }
        case 6: { // free
            if (bs.empty())
                break;
            size_t j = c.index_of(bs.size());
            B b = bs[j];
            for (size_t x = 0; x < os.size();)
                if (os[x].q == b.q) {
                    PCHECK(c, umfMemoryProviderCloseIPCHandle(ps[os[x].pr].h, os[x].v, os[x].size) == UMF_RESULT_SUCCESS, "close", "close");
                    os.erase(os.begin() + (long)x);
                } else
                    x++;
            for (size_t x = 0; x < hs.size();)
                if (hs[x].q == b.q)
                    hs.erase(hs.begin() + (long)x);
                else
                    x++;
            umf_result_t r = umfMemoryProviderFree(ps[b.pr].h, b.q, b.size);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "%s", rs(r));
            bs.erase(bs.begin() + (long)j);
            char d[8192];
            if (!file && c.chance(1, 3)) { // the file provider keeps freed ranges mapped
                r = umfMemoryProviderGetIPCHandle(ps[b.pr].h, b.q, b.size, d);
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "get.freed", "a handle of a freed block: %s", rs(r));
            }
            break;
        }
        default: {
            unsigned i = (unsigned)c.index_of(ps.size());
            if (ps[i].kind == File && c.chance(1, 3)) {
                unlink(ps[i].name.c_str());
                for (auto &p : ps)
                    p.gone |= p.name == ps[i].name;
                c.note("file %s removed", ps[i].name.c_str());
            } else if (!ps[i].shared) {
                umf_result_t r = umfMemoryProviderCloseIPCHandle(ps[i].h, &r, 1);
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "close.private", "%s", rs(r));
            }
            break;
        }
        }
        for (auto &b : bs)
            if (ps[b.pr].rw) {
                size_t bd = verify(b.q, std::min<size_t>(b.size, 64), b.tag);
                PCHECK(c, bd == SIZE_MAX || bd >= 64, "disturbed", "byte %zu of block %p changed", bd, b.q);
            }
    }
    for (auto &o : os)
        PCHECK(c, umfMemoryProviderCloseIPCHandle(ps[o.pr].h, o.v, o.size) == UMF_RESULT_SUCCESS, "close", "close");
    for (auto &b : bs)
        PCHECK(c, umfMemoryProviderFree(ps[b.pr].h, b.q, b.size) == UMF_RESULT_SUCCESS, "free", "free");
    for (auto &p : ps) {
        umfMemoryProviderDestroy(p.h);
        if (p.kind == Shm)
            shm_unlink(p.name.c_str());
    }
    PCHECK(c, wm::fileMaps.empty(), "maps", "%zu mappings were left", wm::fileMaps.size());
    wm::on = false;
    PCHECK(c, open_fds() == fds, "fds", "%u open files, %u before", open_fds(), fds);
    if (good >= 2 && bad)
        c.nontrivial();
}

// ---- handles of memory whose producer is a process that went away ---------
static void gone(Ctx &c) {
    no_stdin(c);
    Kind k = (Kind)c.range(0, 2);
    // 0 it is there, 1 it ended, 2 it destroyed its provider and is there, 3 it freed the memory and is there
    unsigned mode = (unsigned)c.range(0, 3);
    std::string name = k == File ? std::string(c.scratch) + "/gone" : "umfg_" + std::to_string(getpid());
    if (k == Shm)
        shm_unlink(name.c_str());
    else if (k == File)
        unlink(name.c_str());
    std::string mine = k == File ? std::string(c.scratch) + "/mine" : "umfh_" + std::to_string(getpid());
    umf_memory_provider_handle_t pr = make_prov(c, k == Shm && c.chance(1, 2) ? Memfd : k, mine);
    size_t n = 4096 * c.range(1, 8), skip = c.chance(1, 2) ? 0 : 4096 * c.range(1, 5);
    uint64_t tag = c.range(1, 1 << 30);
    c.note("kind %d, producer %s, %zu bytes after %zu", (int)k, (const char *[]){"there", "ended", "destroyed its provider", "freed the memory"}[mode], n, skip);
    int up_[2], dn[2];
    if (pipe(up_) || pipe(dn))
        c.discard("pipe");
    pid_t pid = fork();
    if (pid == 0) {
        close(up_[0]);
        close(dn[1]);
        alarm(20);
        umf_memory_provider_handle_t q = make_prov(c, k, name);
        void *a = nullptr, *m = nullptr;
        size_t hs = 0;
        std::vector<char> hd;
        bool ok = q && (!skip || umfMemoryProviderAlloc(q, skip, 0, &a) == UMF_RESULT_SUCCESS) && umfMemoryProviderAlloc(q, n, 0, &m) == UMF_RESULT_SUCCESS &&
                  umfMemoryProviderGetIPCHandleSize(q, &hs) == UMF_RESULT_SUCCESS;
        if (ok) {
            fill(m, n, tag);
            hd.resize(hs);
            ok = umfMemoryProviderGetIPCHandle(q, m, n, hd.data()) == UMF_RESULT_SUCCESS;
        }
        if (ok && mode == 3)
            ok = umfMemoryProviderFree(q, m, n) == UMF_RESULT_SUCCESS;
        if (ok && mode == 2)
            umfMemoryProviderDestroy(q);
        if (ok)
            ok = write(up_[1], hd.data(), hs) == (ssize_t)hs;
        close(up_[1]);
        char b;
        if (mode != 1)
            (void)!read(dn[0], &b, 1);
        _exit(ok ? 0 : 1);
    }
    close(up_[1]);
    close(dn[0]);
    std::vector<char> hd(1 << 14);
    ssize_t got = 0, z;
    while ((z = read(up_[0], hd.data() + got, hd.size() - (size_t)got)) > 0)
        got += z;
    close(up_[0]);
    int st = 0;
    if (mode == 1)
        waitpid(pid, &st, 0);
    unsigned fds = open_fds();
    wm::on = true;
    size_t maps0 = wm::fileMaps.size();
    auto done = [&] {
        wm::on = false;
        close(dn[1]);
        if (mode != 1)
            waitpid(pid, &st, 0);
        if (k == Shm)
            shm_unlink(name.c_str());
    };
#define DC(cond, ...)                                                                                                                                            \
    do {                                                                                                                                                         \
        if (!(cond)) {                                                                                                                                           \
            done();                                                                                                                                              \
            c.fail(__VA_ARGS__);                                                                                                                                 \
        }                                                                                                                                                        \
    } while (0)
    DC(got > 0, "producer", "the producer made no handle");
    // memory of a process lives as long as the process has it; a named file as long as its name
    bool there = k == File || (k == Shm ? mode != 2 : mode == 0 || mode == 3), either = k == Shm && mode == 2;
    unsigned tries = (unsigned)c.range(1, 3);
    for (unsigned i = 0; i < tries; i++) {
        c.op();
        void *p0 = (void *)0x77, *p = p0;
        umf_result_t r = umfMemoryProviderOpenIPCHandle(pr, hd.data(), &p);
        c.note("open: %s", rs(r));
        if (k == Memfd && there && r != UMF_RESULT_SUCCESS && (errno == EPERM || r == UMF_RESULT_ERROR_NOT_SUPPORTED)) {
            done();
            c.discard("no descriptors of other processes here");
        }
        if (there && !(k == Shm && i)) { // UMF removes the name when it is opened
            DC(r == UMF_RESULT_SUCCESS, "gone.open", "opening a handle of memory that is there: %s", rs(r));
            if (mode != 3 || k == File)
                DC(verify(p, n, tag) == SIZE_MAX, "gone.content", "the bytes differ");
            r = umfMemoryProviderCloseIPCHandle(pr, p, n);
            DC(r == UMF_RESULT_SUCCESS, "gone.close", "closing: %s", rs(r));
        } else if (!there && !either) {
            DC(r != UMF_RESULT_SUCCESS && valid_code(r), "gone.opened", "a handle of memory that is gone was opened: %s", rs(r));
            DC(umfGetLastFailedMemoryProvider() == pr, "gone.last", "the failing provider is not the last failed one");
            c.nontrivial();
        } else if (r == UMF_RESULT_SUCCESS)
            umfMemoryProviderCloseIPCHandle(pr, p, n);
    }
    DC(open_fds() == fds, "gone.fds", "%u descriptors open before, %u after", fds, open_fds());
    DC(wm::fileMaps.size() == maps0, "gone.maps", "mappings of files are left");
    done();
    c.label(there ? "there" : "gone");
    if (there && skip)
        c.nontrivial();
    void *m = nullptr;
    PCHECK(c, umfMemoryProviderAlloc(pr, n, 0, &m) == UMF_RESULT_SUCCESS && umfMemoryProviderFree(pr, m, n) == UMF_RESULT_SUCCESS, "gone.own",
           "the consumer's own memory cannot be had any more");
    umfMemoryProviderDestroy(pr);
    PCHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "producer", "the producer failed: %d", st);
    if (k == Shm)
        shm_unlink(mine.c_str());
}

// ---- several producers that are copies of each other -------------------------
// Their memory has the same addresses and their handles the same numbers; what tells them apart is the process.
static void producers(Ctx &c) {
    size_t max = c.chance(1, 2) ? 0 : c.range(1, 4);
    umfTearDown();
    if (max)
        setenv("UMF_MAX_OPENED_IPC_HANDLES", std::to_string(max).c_str(), 1);
    else
        unsetenv("UMF_MAX_OPENED_IPC_HANDLES");
    umfInit();
    Kind kind = c.chance(1, 2) ? File : Memfd;
    unsigned np = (unsigned)c.range(2, 4), nb = (unsigned)c.range(1, 3), pk = c.chance(1, 2) ? 0 : 1;
    std::vector<size_t> size(nb);
    for (auto &x : size)
        x = c.chance(1, 2) ? 4096 * c.range(1, 6) : c.range(1, 20000);
    auto tagOf = [](unsigned p, unsigned b, uint64_t v) { return (p * 64 + b) * 7919 + v * 1000003 + 1; };
    struct Peer {
        pid_t pid = 0;
        int out = -1, in = -1; // commands to it, answers from it
        std::vector<std::vector<char>> hd;
        std::vector<uintptr_t> ptr;
        std::vector<uint64_t> ver;
        std::string name;
    };
    struct Cmd {
        unsigned op, blk; // op 0: are the bytes those of `ver`? 1: write those of `ver`; 2: end
        uint64_t ver;
    };
    std::vector<Peer> ps(np);
    static unsigned serial;
    unsigned gen = serial++;
    auto wr = [](int fd, const void *p, size_t n) { return write(fd, p, n) == (ssize_t)n; };
    auto rd = [](int fd, void *p, size_t n) {
        size_t got = 0;
        while (got < n) {
            ssize_t z = read(fd, (char *)p + got, n - got);
            if (z <= 0)
                return false;
            got += (size_t)z;
        }
        return true;
    };
    for (unsigned i = 0; i < np; i++) {
        Peer &p = ps[i];
        p.name = std::string(c.scratch) + "/p" + std::to_string(gen) + "_" + std::to_string(i);
        int a[2], b[2];
        if (pipe(a) || pipe(b))
            c.discard("pipe");
        p.pid = fork();
        if (p.pid == 0) {
            close(a[1]);
            close(b[0]);
            alarm(25);
            Pool me;
            umf_memory_provider_handle_t pr = make_prov(c, kind, p.name);
            if (make_pool(pk, pr, me, 65536))
                _exit(2);
            std::vector<char *> q(nb);
            for (unsigned k = 0; k < nb; k++) {
                umf_ipc_handle_t h = nullptr;
                size_t hs = 0;
                q[k] = (char *)umfPoolMalloc(me.h, size[k]);
                if (!q[k] || umfGetIPCHandle(q[k], &h, &hs))
                    _exit(3);
                fill(q[k], size[k], tagOf(i, k, 0));
                if (!wr(b[1], &hs, sizeof hs) || !wr(b[1], &q[k], sizeof q[k]) || !wr(b[1], h, hs))
                    _exit(4);
                umfPutIPCHandle(h);
            }
            Cmd cmd;
            while (rd(a[0], &cmd, sizeof cmd) && cmd.op != 2) {
                uint64_t t = tagOf(i, cmd.blk, cmd.ver);
                if (cmd.op == 1)
                    fill(q[cmd.blk], size[cmd.blk], t);
                uint64_t bad = verify(q[cmd.blk], size[cmd.blk], t);
                if (!wr(b[1], &bad, sizeof bad))
                    _exit(5);
            }
            _exit(0);
        }
        close(a[0]);
        close(b[1]);
        p.out = a[1];
        p.in = b[0];
    }
    auto done = [&] {
        for (auto &p : ps) {
            Cmd cmd = {2, 0, 0};
            (void)wr(p.out, &cmd, sizeof cmd);
            close(p.out);
            close(p.in);
            int st;
            waitpid(p.pid, &st, 0);
            unlink(p.name.c_str());
        }
    };
#define PC(cond, ...)                                                                                                                                            \
    do {                                                                                                                                                         \
        if (!(cond)) {                                                                                                                                           \
            done();                                                                                                                                              \
            c.fail(__VA_ARGS__);                                                                                                                                 \
        }                                                                                                                                                        \
    } while (0)
    bool same = false;
    for (unsigned i = 0; i < np; i++) {
        Peer &p = ps[i];
        for (unsigned k = 0; k < nb; k++) {
            size_t hs = 0;
            uintptr_t q = 0;
            PC(rd(p.in, &hs, sizeof hs) && hs < 65536 && rd(p.in, &q, sizeof q), "producer", "producer %u made no handle", i);
            p.hd.emplace_back(hs);
            PC(rd(p.in, p.hd.back().data(), hs), "producer", "producer %u", i);
            p.ptr.push_back(q);
            p.ver.push_back(0);
            for (unsigned j = 0; j < i; j++)
                same |= ps[j].ptr[k] == q;
        }
    }
    std::vector<Pool> cs((size_t)c.range(1, 2));
    std::vector<std::string> mine;
    for (size_t i = 0; i < cs.size(); i++) {
        mine.push_back(std::string(c.scratch) + "/c" + std::to_string(gen) + "_" + std::to_string(i));
        umf_memory_provider_handle_t pr = make_prov(c, kind, mine[i]);
        PC(make_pool((unsigned)c.range(0, 1), pr, cs[i], 65536) == UMF_RESULT_SUCCESS, "pool", "a consumer's pool");
    }
    struct O {
        unsigned peer, blk;
        char *v;
    };
    std::vector<O> os;
    unsigned opens = 0, live = 0;
    auto ask = [&](unsigned i, unsigned op, unsigned k) {
        Cmd cmd = {op, k, ps[i].ver[k]};
        uint64_t bad = 0;
        PC(wr(ps[i].out, &cmd, sizeof cmd) && rd(ps[i].in, &bad, sizeof bad), "producer", "producer %u does not answer", i);
        PC(bad == SIZE_MAX, "peer.bytes", "block %u of producer %u: byte %llu is another one on its own side", k, i, (unsigned long long)bad);
    };
    auto look = [&](const O &o, const char *when) {
        size_t bad = verify(o.v, size[o.blk], tagOf(o.peer, o.blk, ps[o.peer].ver[o.blk]));
        PC(bad == SIZE_MAX, "bytes", "block %u of producer %u opened at %p: byte %zu is another one (%s)", o.blk, o.peer, o.v, bad, when);
    };
    for (unsigned n = (unsigned)c.range(6, 40); n > 0; n--) {
        c.op();
        unsigned k = (unsigned)c.weighted({5, 3, 2, 2});
        if (os.empty())
            k = 0;
        switch (k) {
        case 0: {
            unsigned i = (unsigned)c.index_of(np), b = (unsigned)c.index_of(nb);
            void *v = nullptr;
            umf_result_t r = umfOpenIPCHandle(cs[c.index_of(cs.size())].handler, (umf_ipc_handle_t)ps[i].hd[b].data(), &v);
            c.note("open block %u (%p) of producer %u -> %s %p", b, (void *)ps[i].ptr[b], i, rs(r), v);
            PC(r == UMF_RESULT_SUCCESS, "open", "block %u of producer %u: %s", b, i, rs(r));
            os.push_back({i, b, (char *)v});
            look(os.back(), "after open");
            opens++;
            break;
        }
        case 1: {
            size_t j = c.index_of(os.size());
            O o = os[j];
            os.erase(os.begin() + (long)j);
            c.note("close %p", o.v);
            PC(umfCloseIPCHandle(o.v) == UMF_RESULT_SUCCESS, "close", "close");
            break;
        }
        case 2: { // write here, it is seen there
            O &o = os[c.index_of(os.size())];
            ps[o.peer].ver[o.blk]++;
            fill(o.v, size[o.blk], tagOf(o.peer, o.blk, ps[o.peer].ver[o.blk]));
            ask(o.peer, 0, o.blk);
            break;
        }
        default: { // write there
            O &o = os[c.index_of(os.size())];
            ps[o.peer].ver[o.blk]++;
            ask(o.peer, 1, o.blk);
        }
        }
        for (auto &o : os)
            look(o, "later");
        std::set<unsigned> who;
        for (auto &o : os)
            who.insert(o.peer);
        live = std::max(live, (unsigned)who.size());
    }
    for (unsigned i = 0; i < np; i++)
        for (unsigned k = 0; k < nb; k++)
            ask(i, 0, k);
    for (auto &o : os)
        PC(umfCloseIPCHandle(o.v) == UMF_RESULT_SUCCESS, "close", "close");
    for (auto &x : cs)
        umfPoolDestroy(x.h);
    done();
    for (auto &m : mine)
        unlink(m.c_str());
    if (same)
        c.label("producers with the same addresses");
    if (opens >= 2 && live >= 2)
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C12", "a history counts when at least two handles are opened in this process or some in another (direct: two opened and a request refused)",
                         {{"history", history, 20000, 400000, 30, false}, {"direct", direct, 20000, 300000}, {"gone", gone, 3000, 40000}, {"producers", producers, 2000, 30000}});
}

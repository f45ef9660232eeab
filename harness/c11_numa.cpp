// C11: where the OS provider asks the system to place memory.
#include "numah.hpp"
#include "wrapba.hpp"
#include "wrapmap.hpp"
using namespace nh;

static long bmLive = 0;
static unsigned bmFailIn = 0;
static bool bmFailed = false;
static bool bmRefuse() {
    if (bmFailIn && --bmFailIn == 0)
        return bmFailed = true;
    return false;
}
extern "C" {
hwloc_bitmap_t __real_hwloc_bitmap_alloc(void);
hwloc_bitmap_t __real_hwloc_bitmap_dup(hwloc_const_bitmap_t);
int __real_hwloc_bitmap_set(hwloc_bitmap_t, unsigned);
void __real_hwloc_bitmap_free(hwloc_bitmap_t);
hwloc_bitmap_t __wrap_hwloc_bitmap_alloc(void) {
    if (bmRefuse())
        return nullptr;
    hwloc_bitmap_t b = __real_hwloc_bitmap_alloc();
    bmLive += b != nullptr;
    return b;
}
hwloc_bitmap_t __wrap_hwloc_bitmap_dup(hwloc_const_bitmap_t s) {
    if (bmRefuse())
        return nullptr;
    hwloc_bitmap_t b = __real_hwloc_bitmap_dup(s);
    bmLive += b != nullptr;
    return b;
}
int __wrap_hwloc_bitmap_set(hwloc_bitmap_t b, unsigned i) { return bmRefuse() ? -1 : __real_hwloc_bitmap_set(b, i); }
void __wrap_hwloc_bitmap_free(hwloc_bitmap_t b) {
    bmLive -= b != nullptr;
    __real_hwloc_bitmap_free(b);
}
}

static Conf gen_conf(Ctx &c, const Topo &t) {
    Conf k;
    k.mode = c.oneof<umf_numa_mode_t>({UMF_NUMA_MODE_DEFAULT, UMF_NUMA_MODE_BIND, UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_PREFERRED, UMF_NUMA_MODE_SPLIT,
                                       UMF_NUMA_MODE_SPLIT, UMF_NUMA_MODE_SPLIT, UMF_NUMA_MODE_LOCAL});
    bool list = k.mode != UMF_NUMA_MODE_DEFAULT && k.mode != UMF_NUMA_MODE_LOCAL && !(k.mode == UMF_NUMA_MODE_PREFERRED && c.chance(1, 4));
    if (list) {
        std::vector<unsigned> all;
        for (auto &n : t.nodes)
            all.push_back(n.os);
        unsigned m = (unsigned)c.range(1, all.size());
        for (unsigned i = 0; i < m; i++) {
            size_t j = c.range(0, all.size() - 1);
            k.list.push_back(all[j]);
            if (!c.chance(1, 12)) // seldom: a node twice
                all.erase(all.begin() + (long)j);
            if (all.empty())
                break;
        }
    }
    if (k.mode == UMF_NUMA_MODE_INTERLEAVE && c.chance(4, 5))
        k.part = c.chance(1, 3) ? 4096 * c.range(1, 20) : c.chance(1, 2) ? c.range(1, 70000) : c.pow2(0, 21);
    if (k.mode == UMF_NUMA_MODE_SPLIT && c.chance(2, 3)) {
        unsigned m = (unsigned)c.range(1, 7);
        bool big = c.chance(1, 8);
        for (unsigned i = 0; i < m; i++)
            k.parts.push_back({(unsigned)(big ? c.range(1, UINT32_MAX) : c.chance(1, 3) ? 1 : c.range(1, c.oneof<size_t>({3, 10, 1000}))), k.list[c.range(0, k.list.size() - 1)]});
    }
    return k;
}
static umf_result_t create(const Conf &k, umf_memory_provider_handle_t *p) {
    umf_os_memory_provider_params_handle_t d = nullptr;
    umf_result_t r = umfOsMemoryProviderParamsCreate(&d);
    if (r)
        return r;
    // the caller's arrays are gone by the time the provider is made
    std::vector<unsigned> l = k.list;
    std::vector<umf_numa_split_partition_t> ps = k.parts;
    r = umfOsMemoryProviderParamsSetNumaMode(d, k.mode);
    if (!r)
        r = umfOsMemoryProviderParamsSetNumaList(d, l.empty() ? nullptr : l.data(), (unsigned)l.size());
    if (!r)
        r = umfOsMemoryProviderParamsSetPartSize(d, k.part);
    if (!r)
        r = umfOsMemoryProviderParamsSetPartitions(d, ps.empty() ? nullptr : ps.data(), (unsigned)ps.size());
    std::fill(l.begin(), l.end(), 77);
    for (auto &x : ps)
        x = {0, 78};
    if (!r)
        r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), d, p);
    umfOsMemoryProviderParamsDestroy(d);
    return r;
}
static void note_conf(Ctx &c, const Conf &k) {
    std::string s;
    for (unsigned x : k.list)
        s += std::to_string(x) + " ";
    s += "/";
    for (auto &p : k.parts)
        s += std::to_string(p.weight) + "@" + std::to_string(p.target) + " ";
    c.note("mode %d part %zu nodes %s", (int)k.mode, k.part, s.c_str());
}
static size_t gen_bytes(Ctx &c, const Conf &k) {
    if (k.part && c.chance(1, 2)) {
        size_t s = k.part * c.range(1, 40);
        return s > (64u << 20) ? k.part : c.chance(1, 3) ? s + c.range(0, 5000) : s;
    }
    return c.chance(1, 3) ? 4096 * c.range(1, 12) : c.chance(1, 2) ? 4096 * c.range(1, 2000) : c.range(1, 300000);
}

static void place(Ctx &c) {
    Topo t = gen_topo(c);
    use_topo(c, t);
    note_topo(c, t);
    wm::on = true;
    Conf k = gen_conf(c, t);
    note_conf(c, k);
    umf_memory_provider_handle_t p = nullptr;
    umf_result_t r = create(k, &p);
    PCHECK(c, r == UMF_RESULT_SUCCESS && p, "create", "creation: %s", rs(r));
    std::map<uintptr_t, size_t> live;
    unsigned n = (unsigned)c.range(1, c.size(12)), good = 0, refused = 0;
    bool onegap = false;
    for (unsigned i = 0; i < n; i++) {
        c.op();
        size_t s = gen_bytes(c, k), al = c.chance(1, 4) ? c.pow2(0, 22) : 0;
        binds.clear();
        if (c.chance(1, 8)) {
            bindFailIn = (unsigned)c.range(1, 4);
            bindErrno = c.oneof<int>({EINVAL, ENOMEM, EIO, EXDEV, ENOSYS});
        }
        long bm0 = bmLive;
        void *q = (void *)(uintptr_t)0x55;
        r = umfMemoryProviderAlloc(p, s, al, &q);
        bool hit = k.mode != UMF_NUMA_MODE_DEFAULT && binds.size() && bindFailIn == 0 && bindErrno;
        c.note("alloc %zu align %zu -> %s, %zu bindings, refused %d", s, al, rs(r), binds.size(), hit ? bindErrno : 0);
        if (hit && bindErrno != ENOSYS) {
            refused++;
            PCHECK(c, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "refused", "a refused binding (errno %d): alloc returned %s", bindErrno, rs(r));
            const char *msg = nullptr;
            int32_t err = 0;
            umfMemoryProviderGetLastNativeError(p, &msg, &err);
            PCHECK(c, err >= UMF_OS_RESULTS_START_FROM || err == UMF_OS_RESULT_ERROR_BIND_FAILED || err == bindErrno || err != 0, "native", "native error %d", err);
            for (auto &b : binds)
                PCHECK(c, wm::maps.upper_bound(b.a) == wm::maps.begin() || std::prev(wm::maps.upper_bound(b.a))->first + std::prev(wm::maps.upper_bound(b.a))->second <= b.a, "leak.map",
                       "the memory whose binding was refused is still mapped");
            PCHECK(c, bmLive == bm0, "leak.bitmap", "%ld node sets are lost after a refused binding", bmLive - bm0);
            onegap = true;
            if (k.mode == UMF_NUMA_MODE_INTERLEAVE)
                k.sumKnown = false; // whether a refused block counts as a turn is open
        } else {
            PCHECK(c, r == UMF_RESULT_SUCCESS, "alloc", "alloc of %zu: %s", s, rs(r));
            PCHECK(c, !al || (uintptr_t)q % al == 0, "align", "alignment");
            check_binds(c, k, &t, (uintptr_t)q, s);
            PCHECK(c, bmLive == bm0, "leak.bitmap", "%ld node sets are lost by an allocation", bmLive - bm0);
            for (auto &b : live)
                PCHECK(c, b.first + b.second <= (uintptr_t)q || (uintptr_t)q + s <= b.first, "overlap", "blocks overlap");
            live[(uintptr_t)q] = s;
            good++;
        }
        bindFailIn = 0;
        bindErrno = 0;
        if (!live.empty() && c.chance(1, 4)) {
            auto it = std::next(live.begin(), (long)c.index_of(live.size()));
            r = umfMemoryProviderFree(p, (void *)it->first, it->second);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free: %s", rs(r));
            live.erase(it);
        }
    }
    (void)onegap;
    for (auto &b : live)
        umfMemoryProviderFree(p, (void *)b.first, b.second);
    umfMemoryProviderDestroy(p);
    static const char *const names[] = {"default", "bind", "interleave", "preferred", "split", "local"};
    c.label(names[k.mode]);
    if (refused)
        c.label("refused binding");
    if (good >= 2 && (k.mode == UMF_NUMA_MODE_SPLIT || k.mode == UMF_NUMA_MODE_INTERLEAVE) && k.list.size() > 1)
        c.nontrivial();
}

// unusable configurations and no memory while creating
static void refuse(Ctx &c) {
    Topo t = gen_topo(c);
    use_topo(c, t);
    Conf k = gen_conf(c, t);
    // once, so that everything made on first use exists
    umf_memory_provider_handle_t p = nullptr;
    {
        Conf d;
        umf_result_t r = create(d, &p);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "create", "%s", rs(r));
        umfMemoryProviderDestroy(p);
    }
    long ba0 = ba::live, bm0 = bmLive;
    unsigned what = (unsigned)c.range(0, 8);
    umf_result_t want = UMF_RESULT_ERROR_INVALID_ARGUMENT, r;
    umf_memory_provider_handle_t q = nullptr;
    if (what == 0) { // nodes where there must be none
        k = Conf{};
        k.mode = c.chance(1, 2) ? UMF_NUMA_MODE_DEFAULT : UMF_NUMA_MODE_LOCAL;
        k.list = {t.nodes[0].os};
    } else if (what == 1) { // no nodes
        k = Conf{};
        k.mode = c.oneof<umf_numa_mode_t>({UMF_NUMA_MODE_BIND, UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_SPLIT});
    } else if (what == 2 || what == 3) { // a useless partition
        k.mode = UMF_NUMA_MODE_SPLIT;
        if (k.list.empty())
            k.list = {t.nodes[0].os};
        if (k.parts.empty())
            k.parts = {{1, k.list[0]}};
        size_t at = c.range(0, k.parts.size());
        umf_numa_split_partition_t bad = {what == 2 ? 0u : 1u, what == 2 ? k.list[0] : 99u};
        k.parts.insert(k.parts.begin() + (long)at, bad);
    } else if (what == 4) { // parts too large
        k.mode = UMF_NUMA_MODE_INTERLEAVE;
        k.parts.clear();
        if (k.list.empty())
            k.list = {t.nodes[0].os};
        k.part = SIZE_MAX - c.range(0, 4094);
    } else { // out of memory
        want = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        if (what == 5)
            bmFailIn = (unsigned)c.range(1, 12);
        else
            ba::failIn = (long)c.range(1, 14);
        ba::failed = 0;
    }
    note_conf(c, k);
    r = create(k, &q);
    bool hit = what == 5 ? bmFailed : ba::failed > 0;
    bmFailIn = 0;
    ba::failIn = 0;
    c.note("what %u hit %d -> %s", what, hit, rs(r));
    if (what < 5) {
        PCHECK(c, r == want, "code", "case %u: %s", what, rs(r));
        c.nontrivial();
    } else if (!hit) {
        PCHECK(c, r == UMF_RESULT_SUCCESS, "create", "%s", rs(r));
    } else if (r != UMF_RESULT_SUCCESS) {
        PCHECK(c, r == want, "oom.code", "out of memory while creating: %s", rs(r));
        c.nontrivial();
        c.label("no memory");
    }
    if (r) {
        PCHECK(c, !q, "out", "a refused creation left a handle");
        PCHECK(c, ba::live == ba0, "leak", "%ld pieces of the library's memory are lost after a refused creation (case %u)", ba::live - ba0, what);
        PCHECK(c, bmLive == bm0, "leak.bitmap", "%ld node sets are lost after a refused creation (case %u)", bmLive - bm0, what);
    } else { // also when memory ran out for something it can do without
        binds.clear();
        void *b = nullptr;
        size_t s = gen_bytes(c, k);
        if (hit && c.chance(1, 2))
            bmFailIn = 1;
        bmFailed = false;
        umf_result_t r2 = umfMemoryProviderAlloc(q, s, 0, &b);
        bmFailIn = 0;
        if (bmFailed)
            PCHECK(c, r2 != UMF_RESULT_SUCCESS, "oom.alloc", "an allocation without node set succeeded");
        else {
            PCHECK(c, r2 == UMF_RESULT_SUCCESS, "alloc", "%s", rs(r2));
            check_binds(c, k, &t, (uintptr_t)b, s);
            umfMemoryProviderFree(q, b, s);
        }
        umfMemoryProviderDestroy(q);
        PCHECK(c, bmLive == bm0, "leak.bitmap", "%ld node sets are lost", bmLive - bm0);
        PCHECK(c, ba::live == ba0, "leak", "%ld pieces of the library's memory are lost", ba::live - ba0);
    }
    // and it works afterwards
    Conf d = gen_conf(c, t);
    r = create(d, &q);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "after", "%s", rs(r));
    umfMemoryProviderDestroy(q);
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C11", "place: two blocks placed by parts or shares over several nodes; refuse: a refused creation",
                         {{"place", place, 60000, 1200000, 20}, {"refuse", refuse, 20000, 400000, 20}});
}

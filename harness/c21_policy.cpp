// C21: predefined memspaces and providers made from memspaces and policies.
#include "numah.hpp"
#include "wrapba.hpp"
#include "wrapmap.hpp"
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
using namespace nh;

static std::vector<unsigned> ids_of(Ctx &c, umf_const_memspace_handle_t h) {
    std::vector<unsigned> v;
    size_t n = umfMemspaceMemtargetNum(h);
    for (unsigned i = 0; i < n; i++) {
        unsigned id = ~0u;
        PCHECK(c, umfMemtargetGetId(umfMemspaceMemtargetGet(h, i), &id) == UMF_RESULT_SUCCESS, "id", "target %u", i);
        v.push_back(id);
    }
    return v;
}
// best nodes of a group
static std::set<unsigned> best(const Topo &t, unsigned g, bool lat) {
    std::set<unsigned> s;
    uint64_t b = 0;
    for (auto &n : t.nodes)
        if (n.group == g) {
            uint64_t v = lat ? UINT64_MAX - n.lat : n.bw;
            if (s.empty() || v > b)
                s = {n.os}, b = v;
            else if (v == b)
                s.insert(n.os);
        }
    return s;
}
static void check_best(Ctx &c, const Topo &t, umf_const_memspace_handle_t h, bool lat, const char *what) {
    bool have = lat ? t.latAll : t.bwAll;
    if (!have) {
        PCHECK(c, !h, "nohmat", "%s: a memspace without any description of it", what);
        return;
    }
    PCHECK(c, h, "best", "%s: no memspace", what);
    std::vector<unsigned> v = ids_of(c, h);
    std::set<unsigned> got(v.begin(), v.end()), may;
    PCHECK(c, got.size() == v.size(), "dup", "%s: a node is there twice", what);
    for (unsigned g = 0; g < t.groups; g++) {
        std::set<unsigned> b = best(t, g, lat);
        may.insert(b.begin(), b.end());
        bool one = false;
        for (unsigned x : b)
            one |= got.count(x);
        PCHECK(c, one, "best", "%s: %s has none of the best nodes %s of group %u", what, setstr(got).c_str(), setstr(b).c_str(), g);
    }
    for (unsigned x : got)
        PCHECK(c, may.count(x), "best", "%s: node %u is not the best one for any group", what, x);
}

static void predef_on(Ctx &c, const Topo &t) {
    unsigned order = (unsigned)c.range(0, 3);
    umf_const_memspace_handle_t all = nullptr, hc = nullptr, hb = nullptr, ll = nullptr;
    for (unsigned i = 0; i < 8; i++) { // in any order, and again
        umf_const_memspace_handle_t x;
        switch ((order + i) % 4) {
        case 0:
            x = umfMemspaceHostAllGet();
            PCHECK(c, i < 4 || x == all, "same", "another host-all memspace");
            all = x;
            break;
        case 1:
            x = umfMemspaceHighestCapacityGet();
            PCHECK(c, i < 4 || x == hc, "same", "another highest-capacity memspace");
            hc = x;
            break;
        case 2:
            x = umfMemspaceHighestBandwidthGet();
            PCHECK(c, i < 4 || x == hb, "same", "another highest-bandwidth memspace");
            hb = x;
            break;
        default:
            x = umfMemspaceLowestLatencyGet();
            PCHECK(c, i < 4 || x == ll, "same", "another lowest-latency memspace");
            ll = x;
        }
    }
    PCHECK(c, all && hc, "predef", "host-all or highest-capacity memspace is missing");
    std::vector<unsigned> v = ids_of(c, all);
    PCHECK(c, v.size() == t.nodes.size() && std::set<unsigned>(v.begin(), v.end()) == t.ids(), "all", "host-all consists of other nodes");
    v = ids_of(c, hc);
    PCHECK(c, !v.empty(), "capacity", "the highest-capacity memspace is empty");
    uint64_t mx = 0;
    for (auto &n : t.nodes)
        mx = std::max(mx, n.mem);
    for (size_t i = 0; i < v.size(); i++) {
        const Node *n = t.byOs(v[i]);
        PCHECK(c, n, "capacity", "node %u", v[i]);
        PCHECK(c, i || n->mem == mx, "capacity", "the first node has %llu bytes, the largest %llu", (unsigned long long)n->mem, (unsigned long long)mx);
        PCHECK(c, !i || t.byOs(v[i - 1])->mem >= n->mem, "capacity", "not sorted by capacity");
    }
    check_best(c, t, hb, false, "highest bandwidth");
    check_best(c, t, ll, true, "lowest latency");
    // providers of them
    unsigned n = (unsigned)c.range(1, 4);
    for (unsigned i = 0; i < n; i++) {
        unsigned w = (unsigned)c.range(0, 3);
        umf_const_memspace_handle_t h = w == 0 ? all : w == 1 ? hc : w == 2 ? hb : ll;
        if (!h)
            continue;
        umf_memory_provider_handle_t p = nullptr;
        umf_result_t r = umfMemoryProviderCreateFromMemspace(h, nullptr, &p);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "provider", "memspace %u: %s", w, rs(r));
        Conf k;
        if (w) {
            k.mode = UMF_NUMA_MODE_BIND;
            k.list = ids_of(c, h);
        }
        size_t s = 4096 * c.range(1, 50);
        binds.clear();
        void *q = nullptr;
        r = umfMemoryProviderAlloc(p, s, 0, &q);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "alloc", "memspace %u: %s", w, rs(r));
        if (w == 1) { // one node of the highest capacity
            PCHECK(c, binds.size() == 1 && binds[0].nodes.size() == 1 && t.byOs(*binds[0].nodes.begin()) && t.byOs(*binds[0].nodes.begin())->mem == mx, "capacity.bind",
                   "highest capacity: bound to %s", binds.empty() ? "nothing" : setstr(binds[0].nodes).c_str());
            k.list = {*binds[0].nodes.begin()};
        }
        check_binds(c, k, &t, (uintptr_t)q, s);
        umfMemoryProviderFree(p, q, s);
        umfMemoryProviderDestroy(p);
    }
    if (hb)
        c.label("bandwidth");
    if (ll)
        c.label("latency");
    if (t.nodes.size() > 1 && t.groups > 1)
        c.nontrivial();
}
static void predef(Ctx &c) {
    Topo t = gen_topo(c, 8, true);
    use_topo(c, t);
    note_topo(c, t);
    wm::on = true;
    predef_on(c, t);
    // the library is restarted, maybe on another machine
    for (unsigned n = c.chance(1, 3) ? (unsigned)c.range(1, 3) : 0; n; n--) {
        umfTearDown();
        for (unsigned k = (unsigned)c.range(0, 2); k; k--) {
            PCHECK(c, umfInit() == 0, "restart", "umfInit failed");
            umfTearDown();
        }
        c.note("restart");
        if (c.chance(1, 2)) {
            t = gen_topo(c, 8, true);
            use_topo(c, t);
            note_topo(c, t);
        }
        PCHECK(c, umfInit() == 0, "restart", "umfInit failed");
        if (c.chance(3, 4))
            predef_on(c, t);
        c.label("restarted");
    }
}

static void policy(Ctx &c) {
    Topo t = gen_topo(c, 8, true);
    use_topo(c, t);
    note_topo(c, t);
    wm::on = true;
    umf_const_memspace_handle_t all = umfMemspaceHostAllGet();
    umfMemspaceHighestCapacityGet();
    umf_memory_provider_handle_t p = nullptr;
    PCHECK(c, umfMemoryProviderCreateFromMemspace(all, nullptr, &p) == UMF_RESULT_SUCCESS, "provider", "host-all");
    umfMemoryProviderDestroy(p);
    long base = ba::live;
    // the memspace
    umf_memspace_handle_t own = nullptr;
    umf_const_memspace_handle_t ms = all;
    if (c.chance(3, 4)) {
        std::vector<unsigned> ids;
        for (auto &n : t.nodes)
            ids.push_back(n.os);
        for (size_t i = ids.size(); i-- > 1;)
            std::swap(ids[i], ids[c.range(0, i)]);
        ids.resize(c.range(1, ids.size()));
        umf_result_t r = umfMemspaceCreateFromNumaArray(ids.data(), ids.size(), &own);
        PCHECK(c, r == UMF_RESULT_SUCCESS, "memspace", "%s", rs(r));
        ms = own;
    }
    Conf k;
    k.list = ids_of(c, ms);
    umf_mempolicy_handle_t pol = nullptr;
    unsigned ty = (unsigned)c.weighted({2, 3, 2, 2, 4});
    umf_result_t want = UMF_RESULT_SUCCESS, r;
    std::vector<umf_mempolicy_split_partition_t> parts;
    if (ty == 0) {
        k.mode = ms == all ? UMF_NUMA_MODE_DEFAULT : UMF_NUMA_MODE_BIND;
    } else {
        umf_mempolicy_membind_t b[] = {UMF_MEMPOLICY_INTERLEAVE, UMF_MEMPOLICY_BIND, UMF_MEMPOLICY_PREFERRED, UMF_MEMPOLICY_SPLIT};
        umf_numa_mode_t m[] = {UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_BIND, UMF_NUMA_MODE_PREFERRED, UMF_NUMA_MODE_SPLIT};
        k.mode = m[ty - 1];
        if (c.chance(1, 8))
            ba::failIn = (long)c.range(1, 2);
        ba::failed = 0;
        r = umfMempolicyCreate(b[ty - 1], &pol);
        ba::failIn = 0;
        if (ba::failed) {
            PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "oom", "%s", rs(r));
            r = umfMempolicyCreate(b[ty - 1], &pol);
        }
        PCHECK(c, r == UMF_RESULT_SUCCESS && pol, "policy", "%s", rs(r));
        if (c.chance(1, 2)) { // settings of another policy
            if (ty != 1)
                PCHECK(c, umfMempolicySetInterleavePartSize(pol, 4096) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "other", "part size of a policy %u", ty);
            if (ty != 4) {
                umf_mempolicy_split_partition_t x = {1, k.list[0]};
                PCHECK(c, umfMempolicySetCustomSplitPartitions(pol, &x, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "other", "partitions of a policy %u", ty);
            }
            PCHECK(c, umfMempolicySetInterleavePartSize(nullptr, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT && umfMempolicySetCustomSplitPartitions(nullptr, nullptr, 0) == UMF_RESULT_ERROR_INVALID_ARGUMENT &&
                          umfMempolicyCreate(UMF_MEMPOLICY_BIND, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT,
                   "null", "a call without its arguments was accepted");
        }
        unsigned sets = ty == 1 || ty == 4 ? (unsigned)c.range(0, 2) : 0;
        for (unsigned s = 0; s < sets; s++) { // the last setting counts
            if (ty == 1) {
                k.part = c.chance(1, 6) ? 0 : c.chance(1, 2) ? 4096 * c.range(1, 20) : c.range(1, 70000);
                r = umfMempolicySetInterleavePartSize(pol, k.part);
                PCHECK(c, r == UMF_RESULT_SUCCESS, "part", "%s", rs(r));
            } else {
                want = UMF_RESULT_SUCCESS;
                parts.clear();
                k.parts.clear();
                unsigned m = (unsigned)c.range(1, 6);
                for (unsigned i = 0; i < m; i++) {
                    umf_mempolicy_split_partition_t x = {(unsigned)c.range(1, c.oneof<size_t>({2, 5, 1000})), k.list[c.range(0, k.list.size() - 1)]};
                    if (c.chance(1, 30))
                        x.weight = 0, want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                    if (c.chance(1, 30))
                        x.target = 97, want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                    parts.push_back(x);
                    k.parts.push_back({x.weight, x.target});
                }
                r = umfMempolicySetCustomSplitPartitions(pol, parts.data(), parts.size());
                PCHECK(c, r == UMF_RESULT_SUCCESS, "partitions", "%s", rs(r));
                // the caller's array is his own again
                std::fill(parts.begin(), parts.end(), umf_mempolicy_split_partition_t{0, 98});
            }
        }
    }
    c.note("mode %d part %zu, %zu partitions, memspace %s", (int)k.mode, k.part, k.parts.size(), ms == all ? "host-all" : "own");
    unsigned np = (unsigned)c.range(1, 2);
    for (unsigned i = 0; i < np; i++) {
        p = nullptr;
        ba::failed = 0;
        if (c.chance(1, 6))
            ba::failIn = (long)c.range(1, 14);
        r = umfMemoryProviderCreateFromMemspace(ms, pol, &p);
        ba::failIn = 0;
        if (ba::failed && r) {
            PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY && !p, "oom", "%s", rs(r));
            c.label("out of memory");
            continue;
        }
        PCHECK(c, r == want, "provider", "%s, expected %s", rs(r), rs(want));
        if (r)
            continue;
        if (i + 1 == np && own) { // the provider does not need them
            umfMemspaceDestroy(own);
            own = nullptr;
            if (pol)
                umfMempolicyDestroy(pol);
            pol = nullptr;
        }
        Conf kk = k;
        unsigned na = (unsigned)c.range(1, 4);
        for (unsigned j = 0; j < na; j++) {
            size_t s = kk.part && c.chance(1, 2) ? kk.part * c.range(1, 20) : c.chance(1, 2) ? 4096 * c.range(1, 60) : c.range(1, 300000);
            binds.clear();
            void *q = nullptr;
            r = umfMemoryProviderAlloc(p, s, 0, &q);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "alloc", "%s", rs(r));
            check_binds(c, kk, &t, (uintptr_t)q, s);
            umfMemoryProviderFree(p, q, s);
        }
        umfMemoryProviderDestroy(p);
    }
    if (own)
        umfMemspaceDestroy(own);
    if (pol)
        umfMempolicyDestroy(pol);
    PCHECK(c, ba::live == base, "leak", "%ld pieces of the library's memory are left", ba::live - base);
    static const char *const names[] = {"no policy", "interleave", "bind", "preferred", "split"};
    c.label(names[ty]);
    if (k.list.size() > 1 && ty)
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C21", "predef: several nodes in several groups; policy: a policy over several nodes",
                         {{"predef", predef, 30000, 600000, 20}, {"policy", policy, 40000, 800000, 20}});
}

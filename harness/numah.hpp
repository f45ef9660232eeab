// Generated NUMA topologies (hwloc XML files) and a recorder of the bindings
// the code under test asks for (linked with --wrap=hwloc_set_area_membind).
#pragma once
#include "umfh.hpp"
#include <cerrno>
#include <fstream>
#include <hwloc.h>
#include <set>
namespace nh {
using namespace h;
struct Node {
    unsigned os;
    uint64_t mem;
    unsigned group;
    bool hasBw = false, hasLat = false;
    uint64_t bw = 0, lat = 0; // seen from its own group
};
struct Topo {
    std::vector<Node> nodes; // in the order of the file
    unsigned groups = 1;
    bool bwAll = false, latAll = false;
    const Node *byOs(unsigned os) const {
        for (auto &n : nodes)
            if (n.os == os)
                return &n;
        return nullptr;
    }
    std::set<unsigned> ids() const {
        std::set<unsigned> s;
        for (auto &n : nodes)
            s.insert(n.os);
        return s;
    }
};
inline std::string bits(const std::set<unsigned> &s) {
    unsigned top = s.empty() ? 0 : *s.rbegin() / 32;
    std::string r;
    for (int w = (int)top; w >= 0; w--) {
        uint32_t v = 0;
        for (unsigned b : s)
            if (b / 32 == (unsigned)w)
                v |= 1u << (b % 32);
        char t[16];
        snprintf(t, sizeof t, "%s0x%08x", r.empty() ? "" : ",", v);
        r += t;
    }
    return r;
}
// draws a topology; attributes: whether bandwidths and latencies are described
inline Topo gen_topo(Ctx &c, unsigned maxNodes = 8, bool attrs = false) {
    Topo t;
    unsigned n = (unsigned)c.range(1, maxNodes);
    t.groups = (unsigned)c.range(1, n);
    bool sparse = c.chance(2, 3);
    std::set<unsigned> used;
    std::vector<unsigned> os;
    for (unsigned i = 0; i < n; i++) {
        unsigned o = i;
        if (sparse)
            do
                o = (unsigned)(c.chance(1, 6) ? c.range(0, 79) : c.range(0, 2 * n));
            while (used.count(o) && used.size() < 2 * n && (o = (o + 1) % 80, used.count(o)));
        while (used.count(o))
            o++;
        used.insert(o);
        os.push_back(o);
    }
    for (unsigned i = 0; i < n; i++) {
        Node d;
        d.os = os[i];
        d.group = i < t.groups ? i : (unsigned)c.range(0, t.groups - 1);
        d.mem = c.chance(1, 12) ? 0 : c.chance(1, 2) ? c.oneof<uint64_t>({1 << 20, 1 << 30, 1ull << 34}) : c.pow2(12, 44) + c.range(0, 4096);
        t.nodes.push_back(d);
    }
    std::stable_sort(t.nodes.begin(), t.nodes.end(), [](const Node &a, const Node &b) { return a.group < b.group; });
    if (attrs) {
        t.bwAll = c.chance(4, 5);
        t.latAll = c.chance(4, 5);
        for (auto &d : t.nodes) {
            d.hasBw = t.bwAll;
            d.hasLat = t.latAll;
            d.bw = c.chance(1, 3) ? c.range(1, 3) : c.range(1, 1000000);
            d.lat = c.chance(1, 3) ? c.range(1, 3) : c.range(1, 1000000);
        }
    }
    return t;
}
// writes the topology and makes hwloc use it
inline void use_topo(Ctx &c, const Topo &t) {
    std::string f = std::string(c.scratch) + "/topo.xml";
    std::ofstream o(f);
    std::set<unsigned> allc, alln = t.ids();
    auto cpus = [&](unsigned g) { return std::set<unsigned>{2 * g, 2 * g + 1}; };
    for (unsigned g = 0; g < t.groups; g++)
        for (unsigned x : cpus(g))
            allc.insert(x);
    auto sets = [&](const std::set<unsigned> &cs, const std::set<unsigned> &ns) {
        return " cpuset=\"" + bits(cs) + "\" complete_cpuset=\"" + bits(cs) + "\" nodeset=\"" + bits(ns) + "\" complete_nodeset=\"" + bits(ns) + "\"";
    };
    o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE topology SYSTEM \"hwloc2.dtd\">\n<topology version=\"2.0\">\n"
      << "<object type=\"Machine\" os_index=\"0\"" << sets(allc, alln) << " allowed_cpuset=\"" << bits(allc) << "\" allowed_nodeset=\"" << bits(alln) << "\" gp_index=\"1\">\n";
    unsigned gp = 2;
    std::map<unsigned, unsigned> ngp;
    for (unsigned g = 0; g < t.groups; g++) {
        std::set<unsigned> ns;
        for (auto &n : t.nodes)
            if (n.group == g)
                ns.insert(n.os);
        o << "<object type=\"Package\" os_index=\"" << g << "\"" << sets(cpus(g), ns) << " gp_index=\"" << gp++ << "\">\n";
        for (auto &n : t.nodes)
            if (n.group == g) {
                ngp[n.os] = gp;
                o << "<object type=\"NUMANode\" os_index=\"" << n.os << "\"" << sets(cpus(g), {n.os}) << " gp_index=\"" << gp++ << "\" local_memory=\"" << n.mem << "\">\n"
                  << "<page_type size=\"4096\" count=\"" << n.mem / 4096 << "\"/>\n</object>\n";
            }
        for (unsigned x : cpus(g))
            o << "<object type=\"PU\" os_index=\"" << x << "\"" << sets({x}, ns) << " gp_index=\"" << gp++ << "\"/>\n";
        o << "</object>\n";
    }
    o << "</object>\n<support name=\"discovery.pu\"/>\n<support name=\"discovery.numa\"/>\n<support name=\"discovery.numa_memory\"/>\n";
    for (int k = 0; k < 2; k++) {
        bool any = false;
        for (auto &n : t.nodes)
            any |= k ? n.hasLat : n.hasBw;
        if (!any)
            continue;
        o << "<memattr name=\"" << (k ? "Latency\" flags=\"6" : "Bandwidth\" flags=\"5") << "\">\n";
        for (auto &n : t.nodes)
            if (k ? n.hasLat : n.hasBw)
                o << "<memattr_value target_obj_type=\"NUMANode\" target_obj_gp_index=\"" << ngp[n.os] << "\" value=\"" << (k ? n.lat : n.bw) << "\" initiator_cpuset=\"" << bits(cpus(n.group)) << "\"/>\n";
        o << "</memattr>\n";
    }
    o << "</topology>\n";
    o.close();
    setenv("HWLOC_XMLFILE", f.c_str(), 1);
    unsetenv("HWLOC_SYNTHETIC");
}
inline void note_topo(Ctx &c, const Topo &t) {
    for (auto &n : t.nodes)
        c.note("node P%u group %u mem %llu bw %llu lat %llu", n.os, n.group, (unsigned long long)n.mem, (unsigned long long)(n.hasBw ? n.bw : 0), (unsigned long long)(n.hasLat ? n.lat : 0));
}
// ------------------------------------------------------------- bindings
struct Bind {
    uintptr_t a;
    size_t n;
    std::set<unsigned> nodes;
    int policy, flags;
};
inline std::vector<Bind> binds;
inline unsigned bindFailIn = 0; // refuse the k-th next binding
inline int bindErrno = 0;
} // namespace nh
extern "C" int __real_hwloc_set_area_membind(hwloc_topology_t, const void *, size_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int);
extern "C" int __wrap_hwloc_set_area_membind(hwloc_topology_t t, const void *a, size_t n, hwloc_const_bitmap_t s, hwloc_membind_policy_t p, int f) {
    nh::Bind b{(uintptr_t)a, n, {}, (int)p, f};
    for (int i = hwloc_bitmap_first(s); i != -1; i = hwloc_bitmap_next(s, i))
        b.nodes.insert((unsigned)i);
    nh::binds.push_back(b);
    if (nh::bindFailIn && --nh::bindFailIn == 0) {
        errno = nh::bindErrno;
        return -1;
    }
    return __real_hwloc_set_area_membind(t, a, n, s, p, f);
}
namespace nh {
inline std::string setstr(const std::set<unsigned> &s) {
    std::string r;
    for (unsigned x : s)
        r += (r.empty() ? "" : ",") + std::to_string(x);
    return "{" + r + "}";
}
// What the configuration of an OS provider asks for.
struct Conf {
    umf_numa_mode_t mode = UMF_NUMA_MODE_DEFAULT;
    std::vector<unsigned> list; // in order
    size_t part = 0;
    std::vector<umf_numa_split_partition_t> parts;
    uint64_t sum = 0;       // bytes allocated so far (interleaving by parts)
    bool sumKnown = true;   // all of them multiples of the part size
};
// checks the bindings recorded for one allocation
inline void check_binds(Ctx &c, Conf &k, const Topo *t, uintptr_t a, size_t size) {
    const size_t P = 4096;
    size_t len = up(size, P);
    std::set<unsigned> S(k.list.begin(), k.list.end());
    if (k.mode == UMF_NUMA_MODE_DEFAULT) {
        PCHECK(c, binds.empty(), "default", "%zu bindings in the default mode", binds.size());
        return;
    }
    // the pieces cover the block, each page once
    std::vector<Bind> v = binds;
    std::sort(v.begin(), v.end(), [](const Bind &x, const Bind &y) { return x.a < y.a; });
    uintptr_t cur = a;
    for (auto &b : v) {
        PCHECK(c, b.a == cur, "tile", "a block of %zu bytes: pieces are bound up to offset %zu, the next one starts at %zd", size, (size_t)(cur - a), (ssize_t)(b.a - a));
        PCHECK(c, b.n > 0, "tile", "an empty piece is bound");
        PCHECK(c, b.flags & HWLOC_MEMBIND_BYNODESET, "flags", "flags %x", b.flags);
        cur = b.a + b.n;
        if (up(cur, P) == a + len)
            cur = a + len;
    }
    PCHECK(c, cur == a + len, "tile", "a block of %zu bytes is bound up to offset %zu", size, (size_t)(cur - a));
    auto whole = [&](const char *what, const std::set<unsigned> &want, int pol, int strict) {
        for (auto &b : v) {
            PCHECK(c, want.empty() || b.nodes == want, "nodes", "%s: bound to nodes %s, asked for %s", what, setstr(b.nodes).c_str(), setstr(want).c_str());
            PCHECK(c, b.policy == pol, "policy", "%s: policy %d", what, b.policy);
            PCHECK(c, strict < 0 || !!(b.flags & HWLOC_MEMBIND_STRICT) == !!strict, "strict", "%s: flags %x", what, b.flags);
        }
    };
    switch (k.mode) {
    case UMF_NUMA_MODE_BIND:
        whole("bind", S, HWLOC_MEMBIND_BIND, 1);
        return;
    case UMF_NUMA_MODE_PREFERRED:
        whole("preferred", S.empty() && t ? t->ids() : S, HWLOC_MEMBIND_BIND, 0);
        return;
    case UMF_NUMA_MODE_LOCAL:
        return;
    case UMF_NUMA_MODE_INTERLEAVE: {
        if (!k.part) {
            whole("interleave", S, HWLOC_MEMBIND_INTERLEAVE, -1);
            return;
        }
        size_t part = up(k.part, P);
        size_t n = k.list.size();
        if (n == 1) {
            whole("interleave", S, HWLOC_MEMBIND_BIND, 1);
            return;
        }
        // node of every part: the list in turn
        size_t np = (len + part - 1) / part;
        std::vector<unsigned> at(np);
        for (size_t i = 0; i < np; i++) {
            uintptr_t p0 = a + i * part, p1 = std::min(p0 + part, a + len);
            const Bind *f = nullptr;
            for (auto &b : v) {
                if (b.a + b.n <= p0 || b.a >= p1)
                    continue;
                PCHECK(c, b.nodes.size() == 1 && b.policy == HWLOC_MEMBIND_BIND && (b.flags & HWLOC_MEMBIND_STRICT), "interleave", "part %zu is bound to %s with policy %d flags %x", i,
                       setstr(b.nodes).c_str(), b.policy, b.flags);
                PCHECK(c, !f || f->nodes == b.nodes, "interleave", "part %zu is bound to nodes %s and %s", i, setstr(f->nodes).c_str(), setstr(b.nodes).c_str());
                f = &b;
            }
            at[i] = *f->nodes.begin();
        }
        size_t first = n;
        for (size_t s = 0; s < n && first == n; s++) {
            bool ok = true;
            for (size_t i = 0; i < np && ok; i++)
                ok = k.list[(s + i) % n] == at[i];
            if (ok)
                first = s;
        }
        PCHECK(c, first != n, "order", "the parts of a block do not go round the list of nodes");
        if (k.sumKnown && k.part % P == 0) {
            size_t want = (k.sum / k.part) % n;
            PCHECK(c, k.list[want] == at[0], "round", "after %llu parts the next block starts on node %u, not on %u", (unsigned long long)(k.sum / k.part), at[0], k.list[want]);
        }
        k.sum += len;
        k.sumKnown &= len % k.part == 0;
        return;
    }
    case UMF_NUMA_MODE_SPLIT: {
        std::vector<umf_numa_split_partition_t> ps = k.parts;
        if (ps.empty())
            for (unsigned x : k.list)
                ps.push_back({1, x});
        unsigned __int128 sum = 0, cum = 0;
        for (auto &p : ps)
            sum += p.weight;
        size_t pages = len / P;
        // node set of every page, from the boundaries cum*pages/sum
        size_t bi = 0;
        std::vector<std::set<unsigned>> want;
        std::vector<std::pair<size_t, size_t>> rng; // page runs [from, to) -> nodes
        std::map<size_t, std::set<unsigned>> brk;   // pages shared by partitions
        std::vector<std::tuple<size_t, size_t, unsigned>> full;
        for (auto &p : ps) {
            unsigned __int128 lo = cum * pages, hi = (cum + p.weight) * pages; // in units of 1/sum page
            cum += p.weight;
            size_t f = (size_t)(lo / sum), l = (size_t)((hi + sum - 1) / sum); // pages touched [f, l)
            full.emplace_back(f, l, p.target);
        }
        (void)bi;
        auto nodesOf = [&](size_t pg) {
            std::set<unsigned> s;
            for (auto &x : full)
                if (std::get<0>(x) <= pg && pg < std::get<1>(x))
                    s.insert(std::get<2>(x));
            return s;
        };
        size_t j = 0;
        for (size_t pg = 0; pg < pages; pg++) {
            while (v[j].a + v[j].n <= a + pg * P)
                j++;
            std::set<unsigned> w = nodesOf(pg);
            PCHECK(c, v[j].nodes == w, "split", "page %zu of %zu is bound to nodes %s, its share belongs to %s", pg, pages, setstr(v[j].nodes).c_str(), setstr(w).c_str());
            PCHECK(c, v[j].policy == HWLOC_MEMBIND_BIND && (v[j].flags & HWLOC_MEMBIND_STRICT), "split", "policy %d flags %x", v[j].policy, v[j].flags);
        }
        return;
    }
    default:
        return;
    }
}
} // namespace nh

// C20: memspaces as sets of memory targets.
#include "numah.hpp"
#include "wrapba.hpp"
#include "wrapmap.hpp"
#include <umf/mempolicy.h>
#include <umf/memspace.h>
#include <umf/memtarget.h>
// the filter behind the predefined memspaces (memspace_internal.h)
extern "C" umf_result_t umfMemspaceFilter(umf_const_memspace_handle_t, umf_result_t (*)(umf_memtarget_handle_t, umf_memtarget_handle_t *, size_t, umf_memtarget_handle_t *),
                                          umf_memspace_handle_t *);
using namespace nh;

struct Ms {
    umf_memspace_handle_t h = nullptr;
    std::set<unsigned> ids;
};
struct FArg {
    Ctx *c;
    umf_const_memspace_handle_t ms;
    std::map<unsigned, int> verdict;
    std::set<unsigned> seen;
    std::set<umf_const_memtarget_handle_t> handles;
};
static int filt(umf_const_memspace_handle_t m, umf_const_memtarget_handle_t t, void *a) {
    FArg *f = (FArg *)a;
    unsigned id = ~0u;
    PCHECK(*f->c, m == f->ms, "filter.ms", "the filter got another memspace");
    PCHECK(*f->c, umfMemtargetGetId(t, &id) == UMF_RESULT_SUCCESS, "filter.id", "the filter got a target without id");
    PCHECK(*f->c, f->verdict.count(id), "filter.id", "the filter was asked about node %u", id);
    PCHECK(*f->c, f->seen.insert(id).second, "filter.twice", "the filter was asked twice about node %u", id);
    return f->verdict[id];
}

// each initiator's target
static struct {
    std::map<unsigned, unsigned> pick;
    std::vector<unsigned> asked;
    long failAt;
} tg;
static umf_result_t get_target(umf_memtarget_handle_t init, umf_memtarget_handle_t *nodes, size_t n, umf_memtarget_handle_t *out) {
    unsigned id = ~0u;
    umfMemtargetGetId(init, &id);
    tg.asked.push_back(id);
    if (tg.failAt && --tg.failAt == 0)
        return UMF_RESULT_ERROR_NOT_SUPPORTED;
    for (size_t i = 0; i < n; i++) {
        unsigned x = ~0u;
        umfMemtargetGetId(nodes[i], &x);
        if (tg.pick.count(id) && x == tg.pick[id]) {
            *out = nodes[i];
            return UMF_RESULT_SUCCESS;
        }
    }
    return UMF_RESULT_ERROR_UNKNOWN;
}

static void sets(Ctx &c) {
    Topo t = gen_topo(c);
    use_topo(c, t);
    note_topo(c, t);
    umf_const_memspace_handle_t all = umfMemspaceHostAllGet();
    PCHECK(c, all, "hostall", "no host-all memspace");
    umfMemspaceHighestCapacityGet(); // made on first use
    {
        umf_memory_provider_handle_t p = nullptr; // and what the first provider makes
        PCHECK(c, umfMemoryProviderCreateFromMemspace(all, nullptr, &p) == UMF_RESULT_SUCCESS, "provider", "host-all provider");
        umfMemoryProviderDestroy(p);
    }
    long base = ba::live;
    std::set<unsigned> known = t.ids();
    std::vector<Ms> ms;
    auto check = [&](umf_const_memspace_handle_t h, const std::set<unsigned> &want, const char *what) {
        size_t n = umfMemspaceMemtargetNum(h);
        PCHECK(c, n == want.size(), "num", "%s: %zu targets, expected %s", what, n, setstr(want).c_str());
        std::set<unsigned> got;
        for (unsigned i = 0; i < n; i++) {
            umf_const_memtarget_handle_t x = umfMemspaceMemtargetGet(h, i);
            PCHECK(c, x, "get", "%s: no target %u of %zu", what, i, n);
            unsigned id = ~0u;
            umf_memtarget_type_t ty = UMF_MEMTARGET_TYPE_UNKNOWN;
            PCHECK(c, umfMemtargetGetId(x, &id) == UMF_RESULT_SUCCESS && umfMemtargetGetType(x, &ty) == UMF_RESULT_SUCCESS && ty == UMF_MEMTARGET_TYPE_NUMA, "id", "%s: target %u", what, i);
            PCHECK(c, got.insert(id).second, "dup", "%s: node %u is there twice", what, id);
            size_t cap = 12345678;
            umf_result_t r = umfMemtargetGetCapacity(x, &cap);
            const Node *nd = t.byOs(id);
            if (nd)
                PCHECK(c, r == UMF_RESULT_SUCCESS && cap == nd->mem, "capacity", "node %u: %s, capacity %zu, described as %llu", id, rs(r), cap, (unsigned long long)nd->mem);
            else
                PCHECK(c, r != UMF_RESULT_SUCCESS, "capacity", "a node that does not exist has a capacity");
        }
        PCHECK(c, got == want, "set", "%s: targets %s, expected %s", what, setstr(got).c_str(), setstr(want).c_str());
        PCHECK(c, !umfMemspaceMemtargetGet(h, (unsigned)n) && !umfMemspaceMemtargetGet(h, ~0u), "get.beyond", "%s: a target beyond the last one", what);
    };
    check(all, known, "host-all");
    auto target = [&](unsigned *id) -> umf_const_memtarget_handle_t { // some target of some memspace
        for (int k = 0; k < 4; k++) {
            size_t i = c.range(0, ms.size());
            umf_const_memspace_handle_t h = i < ms.size() ? ms[i].h : all;
            size_t n = umfMemspaceMemtargetNum(h);
            if (!n)
                continue;
            umf_const_memtarget_handle_t x = umfMemspaceMemtargetGet(h, (unsigned)c.range(0, n - 1));
            umfMemtargetGetId(x, id);
            return x;
        }
        return nullptr;
    };
    unsigned nops = (unsigned)c.range(1, c.size(40)), adds = 0, removes = 0, filters = 0, emptied = 0, ooms = 0;
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        unsigned k = (unsigned)c.weighted({3, 3, 2, 6, 6, 3, 3, 4, 2, 3, 1, 2});
        if (ms.empty() && k > 2)
            k = (unsigned)c.range(0, 2);
        if (ms.size() >= 4 && k <= 2)
            k = 8;
        ba::failed = 0;
        if (k != 9 && c.chance(1, 6))
            ba::failIn = (long)c.range(1, 5);
        umf_result_t r = UMF_RESULT_SUCCESS;
        auto done = [&](const char *what) { // true: the operation went through
            ba::failIn = 0;
            bool oom = ba::failed > 0;
            c.note("%s -> %s%s", what, rs(r), oom ? " (out of memory)" : "");
            if (oom && r != UMF_RESULT_SUCCESS) {
                PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "oom.code", "%s without memory: %s", what, rs(r));
                ooms++;
                return false;
            }
            return true;
        };
        if (k == 0) {
            Ms m;
            r = umfMemspaceNew(&m.h);
            if (done("new")) {
                PCHECK(c, r == UMF_RESULT_SUCCESS, "new", "%s", rs(r));
                ms.push_back(m);
            }
        } else if (k == 1) {
            Ms m;
            unsigned n = (unsigned)c.range(1, 6);
            for (unsigned j = 0; j < n; j++)
                m.ids.insert(c.chance(4, 5) ? t.nodes[c.range(0, t.nodes.size() - 1)].os : (unsigned)c.range(0, 99));
            std::vector<unsigned> v(m.ids.begin(), m.ids.end());
            if (c.chance(1, 2))
                std::reverse(v.begin(), v.end());
            r = umfMemspaceCreateFromNumaArray(v.data(), v.size(), &m.h);
            std::fill(v.begin(), v.end(), 77);
            if (done("from array")) {
                PCHECK(c, r == UMF_RESULT_SUCCESS, "array", "%s", rs(r));
                ms.push_back(m);
            }
        } else if (k == 2) {
            Ms m;
            size_t j = c.range(0, ms.size());
            r = umfMemspaceClone(j < ms.size() ? ms[j].h : all, &m.h);
            if (done("clone")) {
                PCHECK(c, r == UMF_RESULT_SUCCESS, "clone", "clone of %s: %s", setstr(j < ms.size() ? ms[j].ids : known).c_str(), rs(r));
                m.ids = j < ms.size() ? ms[j].ids : known;
                ms.push_back(m);
            }
        } else if (k == 3 || k == 4) {
            Ms &m = ms[c.index_of(ms.size())];
            unsigned id = 0;
            umf_const_memtarget_handle_t x = target(&id);
            if (!x) {
                ba::failIn = 0;
                continue;
            }
            bool in = m.ids.count(id);
            if (k == 3) {
                r = umfMemspaceMemtargetAdd(m.h, x);
                if (done("add")) {
                    PCHECK(c, r == (in ? UMF_RESULT_ERROR_INVALID_ARGUMENT : UMF_RESULT_SUCCESS), "add", "adding node %u to %s: %s", id, setstr(m.ids).c_str(), rs(r));
                    if (!in)
                        m.ids.insert(id), adds++;
                }
            } else {
                r = umfMemspaceMemtargetRemove(m.h, x);
                if (done("remove")) {
                    PCHECK(c, r == (in ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_INVALID_ARGUMENT), "remove", "removing node %u from %s: %s", id, setstr(m.ids).c_str(), rs(r));
                    if (in)
                        m.ids.erase(id), removes++;
                    emptied += m.ids.empty();
                }
            }
        } else if (k == 5) {
            Ms &m = ms[c.index_of(ms.size())];
            std::vector<unsigned> v;
            unsigned n = (unsigned)c.range(1, 5);
            for (unsigned j = 0; j < n; j++)
                v.push_back(c.chance(4, 5) ? t.nodes[c.range(0, t.nodes.size() - 1)].os : (unsigned)c.range(0, 99));
            r = umfMemspaceFilterById(m.h, v.data(), v.size());
            if (done("filter by id")) {
                PCHECK(c, r == UMF_RESULT_SUCCESS, "filter.id", "%s", rs(r));
                std::set<unsigned> s;
                for (unsigned x : v)
                    if (m.ids.count(x))
                        s.insert(x);
                m.ids = s;
                filters++;
                emptied += s.empty();
            }
        } else if (k == 6) {
            Ms &m = ms[c.index_of(ms.size())];
            int64_t lim = c.chance(1, 12) ? -(int64_t)c.range(1, 1000) : (int64_t)t.nodes[c.range(0, t.nodes.size() - 1)].mem + (int64_t)c.range(0, 2) - 1;
            bool unk = false;
            for (unsigned x : m.ids)
                unk |= !t.byOs(x);
            r = umfMemspaceFilterByCapacity(m.h, lim);
            if (done("filter by capacity")) {
                if (lim < 0 || unk) {
                    PCHECK(c, r != UMF_RESULT_SUCCESS && r != UMF_RESULT_ERROR_UNKNOWN, "filter.cap", "limit %lld, unknown nodes %d: %s", (long long)lim, unk, rs(r));
                } else {
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "filter.cap", "%s", rs(r));
                    std::set<unsigned> s;
                    for (unsigned x : m.ids)
                        if ((int64_t)t.byOs(x)->mem >= lim)
                            s.insert(x);
                    m.ids = s;
                    filters++;
                    emptied += s.empty();
                }
            }
        } else if (k == 7) {
            Ms &m = ms[c.index_of(ms.size())];
            FArg f{&c, m.h, {}, {}, {}};
            std::set<unsigned> s;
            bool neg = false;
            bool mayneg = c.chance(1, 5);
            for (unsigned x : m.ids) {
                int v = mayneg && c.chance(1, 4) ? -(int)c.range(1, 5) : c.chance(1, 2) ? 0 : (int)c.range(1, 3);
                f.verdict[x] = v;
                neg |= v < 0;
                if (v > 0)
                    s.insert(x);
            }
            r = umfMemspaceUserFilter(m.h, filt, &f);
            if (done("user filter")) {
                if (neg)
                    PCHECK(c, r == UMF_RESULT_ERROR_USER_SPECIFIC, "filter.user", "the filter failed: %s", rs(r));
                else {
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "filter.user", "%s", rs(r));
                    PCHECK(c, f.seen == m.ids, "filter.user", "the filter was asked about %s only", setstr(f.seen).c_str());
                    m.ids = s;
                    filters++;
                    emptied += s.empty();
                }
            }
        } else if (k == 8) {
            ba::failIn = 0;
            size_t j = c.index_of(ms.size());
            umfMemspaceDestroy(ms[j].h);
            ms.erase(ms.begin() + (long)j);
        } else if (k == 9) {
            Ms &m = ms[c.index_of(ms.size())];
            umf_memory_provider_handle_t p = nullptr;
            r = umfMemoryProviderCreateFromMemspace(m.h, nullptr, &p);
            if (m.ids.empty())
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && !p, "provider", "provider of an empty memspace: %s", rs(r));
            else {
                PCHECK(c, r == UMF_RESULT_SUCCESS && p, "provider", "%s", rs(r));
                Conf kf;
                kf.mode = UMF_NUMA_MODE_BIND;
                kf.list.assign(m.ids.begin(), m.ids.end());
                bool unk = false;
                for (unsigned x : m.ids)
                    unk |= !t.byOs(x);
                binds.clear();
                void *q = nullptr;
                r = umfMemoryProviderAlloc(p, 8192, 0, &q);
                if (unk)
                    PCHECK(c, valid_code(r), "alloc", "code %d", (int)r);
                else
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "alloc", "%s", rs(r));
                if (!r) {
                    check_binds(c, kf, &t, (uintptr_t)q, 8192);
                    umfMemoryProviderFree(p, q, 8192);
                }
                umfMemoryProviderDestroy(p);
            }
        } else if (k == 11) { // the targets that some function picks for each member
            Ms n, &m = ms[c.index_of(ms.size())];
            if (m.ids.empty()) {
                ba::failIn = 0;
                continue;
            }
            std::vector<unsigned> v(m.ids.begin(), m.ids.end());
            tg.pick.clear();
            tg.asked.clear();
            tg.failAt = c.chance(1, 6) ? (long)c.range(1, v.size()) : 0;
            bool fails = tg.failAt != 0;
            for (unsigned x : v)
                n.ids.insert(tg.pick[x] = v[c.range(0, std::min<size_t>(v.size() - 1, 2))]);
            r = umfMemspaceFilter(m.h, get_target, &n.h);
            if (done("filter by target")) {
                if (fails)
                    PCHECK(c, r == UMF_RESULT_ERROR_NOT_SUPPORTED && !n.h, "filter.target", "the function failed: %s", rs(r));
                else {
                    PCHECK(c, r == UMF_RESULT_SUCCESS && n.h, "filter.target", "%s", rs(r));
                    PCHECK(c, std::set<unsigned>(tg.asked.begin(), tg.asked.end()) == m.ids && tg.asked.size() == v.size(), "filter.target", "asked %zu times about %zu nodes",
                           tg.asked.size(), v.size());
                    check(n.h, n.ids, "filtered by target");
                    filters++;
                    if (ms.size() < 4)
                        ms.push_back(n);
                    else
                        umfMemspaceDestroy(n.h);
                }
            }
        } else { // nothing happens without arguments
            ba::failIn = 0;
            umf_memspace_handle_t o = nullptr;
            unsigned one = 1;
            umf_memory_provider_handle_t p = nullptr;
            umf_memory_pool_handle_t pool = nullptr;
            const umf_result_t I = UMF_RESULT_ERROR_INVALID_ARGUMENT;
            umf_const_memtarget_handle_t x = umfMemspaceMemtargetGet(all, 0);
            size_t cap;
            umf_memtarget_type_t ty;
            PCHECK(c, umfMemspaceNew(nullptr) == I && umfMemspaceClone(nullptr, &o) == I && umfMemspaceClone(all, nullptr) == I && umfMemspaceCreateFromNumaArray(nullptr, 1, &o) == I &&
                          umfMemspaceCreateFromNumaArray(&one, 0, &o) == I && umfMemspaceCreateFromNumaArray(&one, 1, nullptr) == I && umfMemspaceMemtargetAdd(nullptr, x) == I &&
                          umfMemspaceMemtargetAdd(ms[0].h, nullptr) == I && umfMemspaceMemtargetRemove(nullptr, x) == I && umfMemspaceMemtargetRemove(ms[0].h, nullptr) == I &&
                          umfMemspaceFilterById(nullptr, &one, 1) == I && umfMemspaceFilterById(ms[0].h, nullptr, 1) == I && umfMemspaceFilterById(ms[0].h, &one, 0) == I &&
                          umfMemspaceFilterByCapacity(nullptr, 1) == I && umfMemspaceUserFilter(nullptr, filt, nullptr) == I && umfMemspaceUserFilter(ms[0].h, nullptr, nullptr) == I &&
                          umfMemoryProviderCreateFromMemspace(nullptr, nullptr, &p) == I && umfMemoryProviderCreateFromMemspace(all, nullptr, nullptr) == I &&
                          umfPoolCreateFromMemspace(nullptr, nullptr, &pool) == I && umfMemtargetGetId(nullptr, &one) == I && umfMemtargetGetId(x, nullptr) == I &&
                          umfMemtargetGetCapacity(nullptr, &cap) == I && umfMemtargetGetCapacity(x, nullptr) == I && umfMemtargetGetType(nullptr, &ty) == I && umfMemtargetGetType(x, nullptr) == I,
                   "null", "a call without its arguments was accepted");
            PCHECK(c, !o && !p && !pool, "null.out", "a refused call left a handle");
        }
        for (auto &m : ms)
            check(m.h, m.ids, "memspace");
    }
    check(all, known, "host-all");
    for (auto &m : ms)
        umfMemspaceDestroy(m.h);
    PCHECK(c, ba::live == base, "leak", "%ld pieces of the library's memory are left after all memspaces were destroyed", ba::live - base);
    if (emptied)
        c.label("emptied");
    if (ooms)
        c.label("out of memory");
    if (adds && removes && filters)
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C20", "additions, removals and filters that went through", {{"sets", sets, 60000, 1200000, 20}});
}

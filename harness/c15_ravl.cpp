// C15: the ordered tree (ravl) against std::map.
#include "umfh.hpp"
#include "wrapba.hpp"
#include <cerrno>
extern "C" {
#include "ravl.h"
}
using namespace h;

struct Elem {
    int64_t key;
    uint64_t payload;
    char pad[40];
};
static int cmp_e(const void *a, const void *b) {
    auto x = ((const Elem *)a)->key, y = ((const Elem *)b)->key;
    return x < y ? -1 : x > y;
}
static uint64_t ctorCalls;
static void ctor(void *data, size_t n, const void *arg) {
    memset(data, 0, n);
    memcpy(data, arg, std::min(n, sizeof(Elem)));
    ctorCalls++;
}
struct Seen {
    std::vector<std::pair<int64_t, uint64_t>> v;
    bool ptr;
};
static void cb(void *data, void *arg) {
    auto *s = (Seen *)arg;
    // for trees of pointers the callback gets the stored pointer's location
    Elem *e = s->ptr ? *(Elem **)data : (Elem *)data;
    s->v.push_back({e->key, e->payload});
}

static void run(Ctx &c) {
    bool ptr = c.chance(1, 3);
    size_t dsz = ptr ? sizeof(void *) : c.oneof<size_t>({sizeof(Elem), sizeof(Elem) + 8, 200, 1000, 16});
    __wrap_umf_ba_global_free(__wrap_umf_ba_global_alloc(1)); // the allocator exists
    const long live0 = ba::live;
    const bool oom = c.chance(1, 3);
    if (oom && c.chance(1, 10)) {
        ba::failIn = 1;
        struct ravl *x = ptr ? ravl_new(cmp_e) : ravl_new_sized(cmp_e, dsz);
        ba::failIn = 0;
        PCHECK(c, !x && ba::live == live0, "new.oom", "a tree was made without memory");
    }
    struct ravl *t = ptr ? ravl_new(cmp_e) : ravl_new_sized(cmp_e, dsz);
    PCHECK(c, t, "new", "no tree");
    std::map<int64_t, uint64_t> m;
    std::map<int64_t, Elem *> store;
    std::vector<Elem *> all;
    int64_t range = (int64_t)c.oneof<uint64_t>({8, 30, 100, 1000, 1ull << 40});
    unsigned nops = (unsigned)c.range(1, c.thorough ? 600 : 250), rem = 0, dup = 0;
    uint64_t val = 1;
    unsigned style = (unsigned)c.range(0, 3);
    int64_t seqk = 0;
    auto key = [&]() -> int64_t {
        if (!m.empty() && c.chance(1, 4)) {
            auto it = m.begin();
            std::advance(it, (long)c.index_of(m.size()));
            return it->first + (int64_t)c.range(0, 2) - 1;
        }
        switch (style) {
        case 1:
            return seqk++ % range;
        case 2:
            return -(seqk++ % range);
        default:
            return (int64_t)c.range(0, (uint64_t)range) - range / 2;
        }
    };
    auto is = [&](struct ravl_node *n, std::map<int64_t, uint64_t>::iterator e, const char *what, int64_t k) {
        if (e == m.end()) {
            PCHECK(c, !n, "query", "%s (%" PRId64 ") found key %" PRId64 ", expected none", what, k, ((Elem *)ravl_data(n))->key);
            return;
        }
        PCHECK(c, n, "query", "%s (%" PRId64 ") found nothing, expected %" PRId64, what, k, e->first);
        Elem *x = (Elem *)ravl_data(n);
        PCHECK(c, x->key == e->first && (dsz < 16 || x->payload == e->second), "query",
               "%s (%" PRId64 ") found %" PRId64 "/%" PRIu64 ", expected %" PRId64 "/%" PRIu64, what, k, x->key, x->payload, e->first, e->second);
    };
    auto findit = [&](int64_t k, unsigned pred) {
        auto lb = m.lower_bound(k), ub = m.upper_bound(k);
        auto eq = m.find(k);
        if ((pred & RAVL_PREDICATE_EQUAL) && eq != m.end())
            return eq;
        if (pred & RAVL_PREDICATE_GREATER)
            return ub;
        if (pred & RAVL_PREDICATE_LESS)
            return lb == m.begin() ? m.end() : std::prev(lb);
        return m.end();
    };
    std::vector<unsigned> wts = {(unsigned)c.range(2, 10), (unsigned)c.range(1, 7), 4, 1, 2, 1};
    if (c.chance(3, 4))
        wts[5] = 0;
    unsigned cleared = 0;
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted(wts)) {
        case 0: {
            int64_t k = key();
            Elem e{k, val++, {}};
            memset(e.pad, (int)k, sizeof(e.pad));
            Elem *p = nullptr;
            int r;
            errno = 0;
            uint64_t cc = ctorCalls;
            unsigned how = 0;
            long f0 = ba::failed;
            if (oom && c.chance(1, 4))
                ba::failIn = 1;
            if (ptr) {
                p = new Elem(e);
                all.push_back(p);
                r = ravl_insert(t, p);
            } else if (dsz == sizeof(Elem) && c.chance(1, 2)) {
                how = 1;
                r = ravl_emplace_copy(t, &e);
            } else {
                how = 2;
                r = ravl_emplace(t, ctor, &e);
                PCHECK(c, ctorCalls == cc + (ba::failed == f0), "ctor", "the constructor ran %d times", (int)(ctorCalls - cc));
            }
            c.note("insert(%" PRId64 ",how=%u)=%d", k, how, r);
            ba::failIn = 0;
            bool had = m.count(k);
            if (ba::failed != f0) {
                PCHECK(c, r != 0 && errno != EEXIST, "insert.oom", "insert without memory returned %d, errno %d", r, errno);
                c.label("refused memory");
                break;
            }
            PCHECK(c, (r != 0) == had, "insert", "insert of %s key %" PRId64 " returned %d", had ? "a duplicate" : "a new", k, r);
            if (had) {
                PCHECK(c, errno == EEXIST, "insert.errno", "duplicate insert: errno %d", errno);
                dup++;
            } else
                m[k] = e.payload;
            break;
        }
        case 1: {
            if (m.empty())
                break;
            auto it = m.begin();
            std::advance(it, (long)c.index_of(m.size()));
            Elem e{it->first, 0, {}};
            struct ravl_node *n = ravl_find(t, &e, RAVL_PREDICATE_EQUAL);
            is(n, it, "find to remove", it->first);
            c.note("remove(%" PRId64 ")", it->first);
            ravl_remove(t, n);
            m.erase(it);
            rem++;
            break;
        }
        case 2: {
            int64_t k = key();
            unsigned pred = c.oneof<unsigned>({RAVL_PREDICATE_EQUAL, RAVL_PREDICATE_GREATER, RAVL_PREDICATE_LESS, RAVL_PREDICATE_LESS_EQUAL,
                                               RAVL_PREDICATE_GREATER_EQUAL});
            Elem e{k, 0, {}};
            is(ravl_find(t, &e, (enum ravl_predicate)pred), findit(k, pred), pred == 1 ? "=" : pred == 2 ? ">" : pred == 4 ? "<" : pred == 5 ? "<=" : ">=", k);
            break;
        }
        case 3: {
            Seen s;
            s.ptr = ptr;
            ravl_foreach(t, cb, &s);
            PCHECK(c, s.v.size() == m.size(), "foreach", "foreach visited %zu of %zu", s.v.size(), m.size());
            size_t j = 0;
            for (auto &kv : m) {
                PCHECK(c, s.v[j].first == kv.first && s.v[j].second == kv.second, "foreach", "foreach: element %zu is %" PRId64 ", expected %" PRId64, j,
                       s.v[j].first, kv.first);
                j++;
            }
            break;
        }
        case 4: { // walk by successor/predecessor
            PCHECK(c, !!ravl_empty(t) == m.empty(), "empty", "ravl_empty disagrees with the model");
            bool fwd = c.chance(1, 2);
            struct ravl_node *n = fwd ? ravl_first(t) : ravl_last(t);
            if (fwd) {
                for (auto it = m.begin(); it != m.end(); ++it) {
                    is(n, it, "successor walk", it->first);
                    n = ravl_node_successor(n);
                }
            } else {
                for (auto it = m.rbegin(); it != m.rend(); ++it) {
                    is(n, std::prev(it.base()), "predecessor walk", it->first);
                    n = ravl_node_predecessor(n);
                }
            }
            PCHECK(c, !n, "walk.end", "the walk goes on past the last element");
            break;
        }
        case 5:
            if (c.chance(1, 10)) {
                ravl_clear(t);
                m.clear();
                cleared++;
                PCHECK(c, ravl_empty(t) && !ravl_first(t) && !ravl_last(t), "clear", "a cleared tree is not empty");
            }
            break;
        }
    }
    PCHECK(c, ba::live - live0 == (long)m.size() + 1, "memory", "a tree of %zu elements holds %ld objects", m.size(), ba::live - live0);
    Seen s;
    s.ptr = ptr;
    ravl_delete_cb(t, cb, &s);
    PCHECK(c, ba::live == live0, "leak", "%ld objects of the deleted tree are left", ba::live - live0);
    PCHECK(c, s.v.size() == m.size(), "delete_cb", "delete_cb visited %zu of %zu", s.v.size(), m.size());
    size_t j = 0;
    for (auto &kv : m) {
        PCHECK(c, s.v[j].first == kv.first && s.v[j].second == kv.second, "delete_cb", "delete_cb element %zu", j);
        j++;
    }
    if (rem >= 2 && m.size() >= 3)
        c.nontrivial();
    c.label(ptr ? "pointers" : "inplace");
    if (dup)
        c.label("duplicates");
    if (cleared)
        c.label("cleared");
}
int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C15",
                         "histories of insert/emplace/remove/find by predicate/first/last/successor/predecessor/foreach/clear on trees of pointers "
                         "and of in-place elements of several sizes against std::map; random, ascending and descending keys; non-trivial: two "
                         "removals and three elements left",
                         {{"ravl", run, 30000, 500000}});
}

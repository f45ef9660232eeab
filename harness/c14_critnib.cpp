// C14: the address index (critnib) against an ordered map; concurrent readers
// against writers with per-thread ownership of keys.
#include "umfh.hpp"
#include "wrapba.hpp"
#include <atomic>
#include <cerrno>
#include <thread>
extern "C" {
#include "critnib.h"
}
using namespace h;

struct Gen {
    Ctx &c;
    std::vector<uint64_t> base;
    unsigned style;
    explicit Gen(Ctx &cc) : c(cc) {
        style = (unsigned)c.range(0, 4);
        unsigned n = (unsigned)c.range(1, 5);
        for (unsigned i = 0; i < n; i++)
            base.push_back(c.chance(1, 2) ? c.range(0, UINT64_MAX) : c.range(0, 1ull << 47) & ~0xfffull);
    }
    uint64_t key() {
        uint64_t b = c.pick(base);
        switch (c.range(0, 7)) {
        case 0:
            return c.oneof<uint64_t>({0, 1, 15, 16, 255, 256, UINT64_MAX, UINT64_MAX - 1, 1ull << 63, (1ull << 63) - 1,
                                      0xfffffffffffffff0ull});
        case 1:
            return b + c.range(0, 40);
        case 2:
            return b ^ (1ull << c.range(0, 63));
        case 3:
            return b ^ (c.range(1, 15) << (4 * c.range(0, 15)));
        case 4:
            return (b & ~0xfffull) + 4096 * c.range(0, 64);
        case 5:
            return style < 2 ? c.range(0, 64) : c.range(0, UINT64_MAX);
        case 6:
            return b - c.range(0, 300);
        default: {
            unsigned sh = (unsigned)c.range(0, 15) * 4;
            return (b >> sh << sh) | (c.range(0, 3) ? 0 : ((1ull << sh) - 1));
        }
        }
    }
};

struct ItAcc {
    std::vector<std::pair<uint64_t, void *>> got;
    size_t stop = SIZE_MAX;
};
static int it_cb(uintptr_t k, void *v, void *p) {
    auto *a = (ItAcc *)p;
    a->got.push_back({k, v});
    return a->got.size() >= a->stop;
}

static void seq(Ctx &c) {
    __wrap_umf_ba_global_free(__wrap_umf_ba_global_alloc(1)); // the allocator exists
    const long live0 = ba::live;
    if (c.chance(1, 20)) { // no memory for the index itself
        long k = (long)c.range(1, 3), f0 = ba::failed;
        ba::failIn = k;
        critnib *x = critnib_new();
        ba::failIn = 0;
        bool refused = ba::failed != f0;
        PCHECK(c, !x == refused, "new.oom", "critnib_new gave %p, memory was %srefused", (void *)x, refused ? "" : "not ");
        if (x)
            critnib_delete(x);
        PCHECK(c, ba::live == live0, "new.leak", "%ld objects are left by critnib_new", ba::live - live0);
    }
    critnib *t = critnib_new();
    PCHECK(c, t, "new", "critnib_new failed");
    const bool oom = c.chance(1, 3);
    size_t maxLive = 0;
    unsigned refusedN = 0;
    // A leaf per key, at most one inner node less than keys, and what the
    // grace period of removed ones keeps back.
    auto bounded = [&]() {
        long most = 2 * (long)(maxLive + 1) + 2 * 17 + 1;
        PCHECK(c, ba::live - live0 <= most, "memory", "%ld objects are held by an index that never had more than %zu keys", ba::live - live0, maxLive);
    };
    std::map<uint64_t, void *> m;
    Gen g(c);
    unsigned nops = (unsigned)c.range(1, c.thorough ? 400 : 150), rem = 0, q = 0;
    uint64_t val = 1;
    std::vector<unsigned> wts = {(unsigned)c.range(2, 8), (unsigned)c.range(1, 6), 3, 3, 4, 2, 1};
    auto anykey = [&]() {
        if (!m.empty() && c.chance(1, 2)) {
            auto it = m.begin();
            std::advance(it, (long)c.index_of(m.size()));
            return it->first + (c.chance(1, 3) ? c.range(0, 2) - 1 : 0);
        }
        return g.key();
    };
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted(wts)) {
        case 0: {
            uint64_t k = g.key();
            void *v = (void *)(val++ << 4);
            int upd = c.chance(1, 2);
            bool had = m.count(k);
            long f0 = ba::failed;
            if (oom && c.chance(1, 4))
                ba::failIn = (long)c.range(1, 2);
            int r = critnib_insert(t, k, v, upd);
            ba::failIn = 0;
            c.note("insert(%#" PRIx64 ",%p,upd=%d)=%d%s", k, v, upd, r, ba::failed != f0 ? " (no memory)" : "");
            if (ba::failed != f0) {
                PCHECK(c, r == ENOMEM && !had, "insert.oom", "insert of %s key %#" PRIx64 " without memory: %d", had ? "an existing" : "a new", k, r);
                refusedN++;
                break;
            }
            PCHECK(c, r == (had && !upd ? EEXIST : 0), "insert.result", "insert of %s key %#" PRIx64 " update=%d: %d",
                   had ? "an existing" : "a new", k, upd, r);
            if (!had || upd)
                m[k] = v;
            maxLive = std::max(maxLive, m.size());
            bounded();
            break;
        }
        case 1: {
            uint64_t k = anykey();
            void *v = critnib_remove(t, k);
            c.note("remove(%#" PRIx64 ")=%p", k, v);
            auto it = m.find(k);
            PCHECK(c, v == (it == m.end() ? nullptr : it->second), "remove.result", "remove(%#" PRIx64 ")=%p", k, v);
            if (it != m.end()) {
                m.erase(it);
                rem++;
            }
            break;
        }
        case 2: {
            uint64_t k = anykey();
            void *v = critnib_get(t, k);
            auto it = m.find(k);
            PCHECK(c, v == (it == m.end() ? nullptr : it->second), "get", "get(%#" PRIx64 ")=%p", k, v);
            q++;
            break;
        }
        case 3: {
            uint64_t k = anykey();
            void *v = critnib_find_le(t, k);
            auto it = m.upper_bound(k);
            void *e = it == m.begin() ? nullptr : std::prev(it)->second;
            PCHECK(c, v == e, "find_le", "find_le(%#" PRIx64 ")=%p, expected %p", k, v, e);
            q++;
            break;
        }
        case 4: {
            uint64_t k = anykey();
            auto dir = c.oneof({FIND_L, FIND_LE, FIND_EQ, FIND_GE, FIND_G});
            uintptr_t rk = 0x77;
            void *rv = (void *)0x99;
            bool wantk = c.chance(3, 4), wantv = c.chance(3, 4);
            int r = critnib_find(t, k, dir, wantk ? &rk : nullptr, wantv ? &rv : nullptr);
            std::map<uint64_t, void *>::iterator e = m.end();
            if (dir == FIND_EQ)
                e = m.find(k);
            else if (dir == FIND_GE)
                e = m.lower_bound(k);
            else if (dir == FIND_G)
                e = m.upper_bound(k);
            else {
                auto it = dir == FIND_L ? m.lower_bound(k) : m.upper_bound(k);
                if (it != m.begin())
                    e = std::prev(it);
            }
            c.note("find(%#" PRIx64 ",%d)=%d %#" PRIx64, k, (int)dir, r, (uint64_t)rk);
            PCHECK(c, !!r == (e != m.end()), "find.result", "find(%#" PRIx64 ", dir %d) returned %d", k, (int)dir, r);
            if (r) {
                PCHECK(c, !wantk || rk == e->first, "find.key", "find(%#" PRIx64 ", dir %d) found key %#" PRIx64 ", expected %#" PRIx64, k,
                       (int)dir, (uint64_t)rk, e->first);
                PCHECK(c, !wantv || rv == e->second, "find.value", "find(%#" PRIx64 ", dir %d) gave value %p", k, (int)dir, rv);
            }
            q++;
            break;
        }
        case 5: {
            uint64_t a = anykey(), b = anykey();
            if (c.chance(1, 4))
                a = 0, b = UINT64_MAX;
            else if (a > b && c.chance(7, 8))
                std::swap(a, b);
            ItAcc acc;
            if (c.chance(1, 4))
                acc.stop = c.range(1, 5);
            critnib_iter(t, a, b, it_cb, &acc);
            std::vector<std::pair<uint64_t, void *>> exp;
            for (auto it = m.lower_bound(a); it != m.end() && it->first <= b && exp.size() < acc.stop; ++it)
                exp.push_back({it->first, it->second});
            c.note("iter(%#" PRIx64 "..%#" PRIx64 ") -> %zu", a, b, acc.got.size());
            PCHECK(c, acc.got == exp, "iter", "iteration over [%#" PRIx64 ", %#" PRIx64 "] gave %zu entries, expected %zu (or another order)", a,
                   b, acc.got.size(), exp.size());
            q++;
            break;
        }
        case 6: { // many removals: node recycling
            if (c.chance(1, 3)) { // one key comes and goes
                uint64_t k = g.key();
                if (!m.count(k)) {
                    unsigned n = (unsigned)c.range(20, 120);
                    c.note("%u times insert and remove %#" PRIx64, n, k);
                    maxLive = std::max(maxLive, m.size() + 1);
                    for (unsigned i2 = 0; i2 < n; i2++) {
                        void *v = (void *)(val++ << 4);
                        PCHECK(c, critnib_insert(t, k, v, (int)(n & 1)) == 0, "insert.result", "insert of a new key");
                        void *w = critnib_remove(t, k);
                        PCHECK(c, w == v, "remove.result", "remove(%#" PRIx64 ")=%p", k, w);
                    }
                    rem += n;
                    bounded();
                    break;
                }
            }
            unsigned n = (unsigned)c.range(1, 24);
            for (unsigned k = 0; k < n && !m.empty(); k++) {
                auto it = m.begin();
                std::advance(it, (long)c.index_of(m.size()));
                void *v = critnib_remove(t, it->first);
                PCHECK(c, v == it->second, "remove.result", "remove(%#" PRIx64 ")=%p", it->first, v);
                m.erase(it);
                rem++;
            }
            break;
        }
        }
    }
    ItAcc acc;
    critnib_iter(t, 0, UINT64_MAX, it_cb, &acc);
    std::vector<std::pair<uint64_t, void *>> exp(m.begin(), m.end());
    PCHECK(c, acc.got == exp, "final", "final contents differ from the model: %zu vs %zu entries", acc.got.size(), exp.size());
    critnib_delete(t);
    PCHECK(c, ba::live == live0, "leak", "%ld objects of the deleted index are left", ba::live - live0);
    if (refusedN)
        c.label("refused memory");
    if (rem && q && m.size() + rem >= 4)
        c.nontrivial();
    c.label(rem > 16 ? "recycling" : "no-recycling");
}

// Writers insert and remove keys of their own; "stable" keys stay for the
// whole run.  A value encodes its key.
static void conc(Ctx &c) {
    critnib *t = critnib_new();
    Gen g(c);
    // keys in a few clusters, so that the writers work on the same nodes
    std::set<uint64_t> pool;
    unsigned want = (unsigned)c.range(8, 80);
    uint64_t base = c.range(0, 1ull << 46) << 12;
    unsigned mode = (unsigned)c.range(0, 2);
    for (unsigned i = 0; i < want; i++)
        pool.insert(mode == 0 ? base + c.range(0, 127) : mode == 1 ? base + 4096 * c.range(0, 255) : g.key() | 1);
    pool.erase(0);
    std::vector<uint64_t> keys(pool.begin(), pool.end());
    unsigned nw = (unsigned)c.range(1, 3), nr = (unsigned)c.range(1, 4);
    auto enc = [](uint64_t k) { return (void *)(mixu(k) | 1); };
    std::vector<uint64_t> stable;
    std::vector<std::vector<uint64_t>> own(nw);
    for (size_t i = 0; i < keys.size(); i++) {
        unsigned o = (unsigned)c.range(0, nw);
        if (o == nw) {
            stable.push_back(keys[i]);
            critnib_insert(t, keys[i], enc(keys[i]), 0);
        } else
            own[o].push_back(keys[i]);
    }
    uint64_t seed = c.range(0, UINT64_MAX);
    unsigned iters = c.thorough ? 20000 : 5000;
    std::atomic<bool> stop{false};
    std::atomic<int> bad{0};
    char msg[256] = "";
    std::atomic<int> msgset{0};
    auto err = [&](const char *fmt, auto... a) {
        if (!msgset.exchange(1)) {
            snprintf(msg, sizeof(msg), fmt, a...);
            bad = 1;
        }
        stop = true;
    };
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    for (unsigned w = 0; w < nw; w++)
        th.emplace_back([&, w] {
            uint64_t r = seed + w * 7919;
            std::set<uint64_t> in;
            ready++;
            while (ready < nw + nr)
                ;
            if (own[w].empty())
                return;
            for (unsigned i = 0; i < iters && !stop; i++) {
                r = mixu(r + i);
                uint64_t k = own[w][r % own[w].size()];
                if (in.count(k)) {
                    void *v = critnib_remove(t, k);
                    if (v != enc(k))
                        err("remove of an inserted key %#lx returned %p", k, v);
                    in.erase(k);
                } else {
                    int rc = critnib_insert(t, k, enc(k), 0);
                    if (rc)
                        err("insert of an absent key %#lx returned %d", k, rc);
                    in.insert(k);
                }
                uint64_t k2 = own[w][(r >> 20) % own[w].size()];
                void *v = critnib_get(t, k2);
                if (v != (in.count(k2) ? enc(k2) : nullptr))
                    err("get of the thread's own key %#lx: %p, inserted=%d", k2, v, (int)in.count(k2));
            }
            for (auto k : in)
                critnib_remove(t, k);
        });
    std::sort(stable.begin(), stable.end());
    for (unsigned rd = 0; rd < nr; rd++)
        th.emplace_back([&, rd] {
            uint64_t r = seed + 104729 * (rd + 1);
            ready++;
            while (ready < nw + nr)
                ;
            for (unsigned i = 0; i < iters && !stop; i++) {
                r = mixu(r + i);
                uint64_t q = keys[r % keys.size()] + ((r >> 32) % 5) - 2;
                auto ub = std::upper_bound(stable.begin(), stable.end(), q);
                auto lb = std::lower_bound(stable.begin(), stable.end(), q);
                switch ((r >> 40) % 4) {
                case 0: {
                    if (stable.empty())
                        break;
                    uint64_t s = stable[r % stable.size()];
                    if (critnib_get(t, s) != enc(s))
                        err("get lost the stable key %#lx", s);
                    break;
                }
                case 1: {
                    uintptr_t rk = 0;
                    void *rv = nullptr;
                    int f = critnib_find(t, q, FIND_LE, &rk, &rv);
                    if (f && (rk > q || rv != enc(rk)))
                        err("find(<= %#lx) gave key %#lx value %p", q, rk, rv);
                    if (ub != stable.begin()) {
                        uint64_t s = *std::prev(ub);
                        if (!f || rk < s)
                            err("find(<= %#lx) missed the stable key %#lx (found=%d key %#lx)", q, s, f, rk);
                    }
                    break;
                }
                case 2: {
                    uintptr_t rk = 0;
                    void *rv = nullptr;
                    int f = critnib_find(t, q, FIND_GE, &rk, &rv);
                    if (f && (rk < q || rv != enc(rk)))
                        err("find(>= %#lx) gave key %#lx value %p", q, rk, rv);
                    if (lb != stable.end() && (!f || rk > *lb))
                        err("find(>= %#lx) missed the stable key %#lx (found=%d key %#lx)", q, *lb, f, rk);
                    break;
                }
                case 3: {
                    void *v = critnib_find_le(t, q);
                    if (ub != stable.begin() && !v)
                        err("find_le(%#lx) missed the stable key %#lx", q, *std::prev(ub));
                    break;
                }
                }
            }
        });
    for (auto &x : th)
        x.join();
    PCHECK(c, !bad, "concurrent", "%s", msg);
    ItAcc acc;
    critnib_iter(t, 0, UINT64_MAX, it_cb, &acc);
    PCHECK(c, acc.got.size() == stable.size(), "concurrent.final", "%zu entries left, %zu expected", acc.got.size(), stable.size());
    critnib_delete(t);
    c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C14",
                         "histories of insert/update/remove/get/find/iterate over clustered, bit-flipped and extreme keys against an ordered "
                         "map; concurrent: 1-3 writers over keys of their own, 1-4 readers that must always see the stable keys; non-trivial: a "
                         "removal and a query on a tree of at least 4 keys (sequential), every concurrent case",
                         {{"seq", seq, 30000, 400000}, {"conc", conc, 1500, 12000, 60, true}});
}

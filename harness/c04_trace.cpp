// C04: the statistics and messages a disjoint pool traces are what happened to it.
#include <atomic>
#include "umfh.hpp"
#include <cerrno>
#include <set>
#include <thread>
#include <sys/syscall.h>
extern "C" {
#include "utils_log.h"
}
#undef LOG_DEBUG
#undef LOG_INFO
using namespace h;

namespace {
size_t bucket_of(size_t size, size_t minBucket) {
    size_t b = std::max<size_t>(minBucket, 8);
    while (true) { // 8, 12, 16, 24, 32, ...
        if (size <= b)
            return b;
        if (size <= b + b / 2)
            return b + b / 2;
        b *= 2;
    }
}
struct Log { // what was printed since the last look, by lines
    int fd = -1;
    off_t at = 0;
    void start(int level) {
        fd = (int)syscall(SYS_memfd_create, "log", 0);
        std::string e = std::string("level:") + (level ? "info" : "debug") + ";flush:debug;output:file,/proc/self/fd/" + std::to_string(fd);
        setenv("UMF_LOG", e.c_str(), 1);
        utils_log_init();
        take();
    }
    std::vector<std::string> take() {
        std::string s;
        char b[65536];
        ssize_t n;
        while ((n = pread(fd, b, sizeof b, at)) > 0)
            s.append(b, (size_t)n), at += n;
        std::vector<std::string> v;
        for (size_t i = 0; i < s.size();) {
            size_t e = s.find('\n', i);
            if (e == std::string::npos)
                e = s.size();
            v.push_back(s.substr(i, e - i));
            i = e + 1;
        }
        return v;
    }
};
struct Bk {
    size_t allocs = 0, frees = 0, fromPool = 0, maxUse = 0, maxPool = 0;
    size_t slab = 0;
};
struct Slab {
    size_t bucket, live, size;
};
struct Row {
    size_t b, a, f, p, u, q;
};
struct Stats {
    bool begun = false;
    std::string name;
    std::vector<Row> rows;
    bool total = false;
    uint64_t size = 0;
    std::string hint;
};
// the table printed at the end of a pool
Stats table(Ctx &c, const std::vector<std::string> &l) {
    Stats s;
    for (auto &x : l) {
        size_t k = x.find("\" pool memory statistics");
        if (k != std::string::npos) {
            PCHECK(c, !s.begun, "table.twice", "the statistics are printed twice");
            s.begun = true;
            size_t q = x.find('"');
            s.name = x.substr(q + 1, k - q - 1);
            continue;
        }
        if (!s.begun || s.total)  {
            if ((k = x.find("suggested setting=;")) != std::string::npos)
                s.hint = x.substr(k + 19);
            continue;
        }
        k = x.find("current pool size: ");
        if (k != std::string::npos) {
            s.total = true;
            s.size = strtoull(x.c_str() + k + 19, nullptr, 10);
            continue;
        }
        // six numbers at the end of the line
        Row r;
        size_t *f[] = {&r.q, &r.u, &r.p, &r.f, &r.a, &r.b};
        std::string y = x;
        bool ok = true;
        for (auto p : f) {
            while (!y.empty() && y.back() == ' ')
                y.pop_back();
            size_t e = y.size();
            while (e && isdigit((unsigned char)y[e - 1]))
                e--;
            ok &= e < y.size();
            *p = strtoull(y.c_str() + e, nullptr, 10);
            y.resize(e);
        }
        if (ok)
            s.rows.push_back(r);
    }
    return s;
}
struct P {
    Mock *mock = new Mock;
    umf_memory_provider_ops_t ops;
    umf_memory_provider_handle_t prov = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    DPar d;
    std::string name;
    std::map<uintptr_t, Slab> slabs;
    std::map<uintptr_t, size_t> direct;
    std::map<size_t, Bk> bk;
    Model m;
    size_t kept() const {
        size_t n = 0;
        for (auto &s : slabs)
            if (!s.second.live)
                n += s.second.size;
        return n;
    }
    void peaks() {
        std::map<size_t, std::pair<size_t, size_t>> n;
        for (auto &s : slabs)
            (s.second.live ? n[s.second.bucket].first : n[s.second.bucket].second)++;
        for (auto &x : n) {
            bk[x.first].maxUse = std::max(bk[x.first].maxUse, x.second.first);
            bk[x.first].maxPool = std::max(bk[x.first].maxPool, x.second.second);
        }
    }
};
std::string gen_name(Ctx &c) {
    if (c.chance(1, 4))
        return "disjoint_pool";
    if (c.chance(1, 5))
        return "N" + std::string(c.oneof<const char *>({"%s%s%n", "%zu", " 12 34", "\\n", "from pool", ";a:1,2"}));
    std::string s;
    for (size_t i = 0, n = c.range(1, c.chance(1, 4) ? 63 : 12); i < n; i++)
        s += (char)c.oneof<int>({'a' + (int)c.range(0, 25), 'A' + (int)c.range(0, 25), '0' + (int)c.range(0, 9), '_', '-'});
    return s;
}
void make(Ctx &c, P &p, umf_disjoint_pool_shared_limits_handle_t lim) {
    auto hp = disjoint_params(p.d, lim);
    umf_result_t r = umfDisjointPoolParamsSetName(hp, p.name.c_str());
    PCHECK(c, r == UMF_RESULT_SUCCESS, "name", "%s", rs(r));
    r = umfPoolCreate(umfDisjointPoolOps(), p.prov, hp, 0, &p.pool);
    umfDisjointPoolParamsDestroy(hp);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "pool.create", "%s", rs(r));
}
// compares the table with what happened
void check_table(Ctx &c, const Stats &s, P &p, uint64_t total, bool exactPeaks) {
    if (p.d.trace < 2) {
        PCHECK(c, !s.begun, "table.unasked", "trace level %d prints the statistics", p.d.trace);
        return;
    }
    PCHECK(c, s.begun && s.total, "table.none", "trace level %d: no statistics at the end", p.d.trace);
    PCHECK(c, s.name == p.name, "table.name", "the statistics are those of \"%s\", the pool is \"%s\"", s.name.c_str(), p.name.c_str());
    size_t want = 0, hb = 0, hu = 0;
    for (auto &x : p.bk) {
        hu = std::max(hu, x.second.maxUse);
        if (!x.second.allocs)
            continue;
        want++;
        hb = std::max(hb, x.second.slab);
        const Row *r = nullptr;
        for (auto &y : s.rows)
            if (y.b == x.first)
                r = &y;
        PCHECK(c, r, "table.row", "no line for the blocks of %zu bytes", x.first);
        PCHECK(c, r->a == x.second.allocs, "stat.allocs", "blocks of %zu bytes: %zu allocations, printed are %zu", x.first, x.second.allocs, r->a);
        PCHECK(c, r->f == x.second.frees, "stat.frees", "blocks of %zu bytes: %zu were freed, printed are %zu", x.first, x.second.frees, r->f);
        if (exactPeaks) {
            PCHECK(c, r->p == x.second.fromPool, "stat.pooled", "blocks of %zu bytes: %zu allocations without the provider, printed are %zu", x.first, x.second.fromPool, r->p);
            PCHECK(c, r->u == x.second.maxUse, "stat.use", "blocks of %zu bytes: at most %zu slabs were in use, printed are %zu", x.first, x.second.maxUse, r->u);
            PCHECK(c, r->q == x.second.maxPool, "stat.kept", "blocks of %zu bytes: at most %zu slabs were kept, printed are %zu", x.first, x.second.maxPool, r->q);
        }
    }
    PCHECK(c, s.rows.size() == want, "table.rows", "%zu lines for %zu sizes of blocks", s.rows.size(), want);
    PCHECK(c, s.size == total, "stat.size", "the pools keep %llu bytes, printed are %llu", (unsigned long long)total, (unsigned long long)s.size);
    if (exactPeaks) {
        std::string h = std::string(1, (char)tolower(p.name[0])) + p.name.substr(1) + ":" + std::to_string(hb) + "," + std::to_string(hu) + ",64K";
        PCHECK(c, s.hint == h, "stat.hint", "suggested is \"%s\", expected \"%s\"", s.hint.c_str(), h.c_str());
    }
}

void history(Ctx &c) {
    Log log;
    bool quiet = c.chance(1, 12); // the messages are of the level "debug"
    log.start(quiet);
    unsigned np = (unsigned)c.range(1, 3);
    bool shared = c.chance(1, 2);
    umf_disjoint_pool_shared_limits_handle_t lim = nullptr;
    if (shared) {
        lim = umfDisjointPoolSharedLimitsCreate(c.chance(1, 3) ? SIZE_MAX : 65536 * c.range(0, 12));
        PCHECK(c, lim, "limits.create", "shared limits");
    }
    std::vector<P> ps(np);
    for (unsigned i = 0; i < np; i++) {
        P &p = ps[i];
        p.ops = mock_ops(true);
        p.mock->open(&c, 2ull << 30, 4096);
        p.mock->place = (unsigned)c.range(0, 2);
        p.mock->protect = false;
        p.mock->keepLog = true;
        p.prov = mock_provider(c, p.mock, &p.ops);
        p.d = gen_dpar(c);
        p.d.trace = (int)c.weighted({1, 1, 3, 4});
        p.name = gen_name(c);
        make(c, p, lim);
        c.note("pool %u: name %s trace %d slab_min=%zu max_poolable=%zu capacity=%zu min_bucket=%zu", i, p.name.c_str(), p.d.trace, p.d.slabMin, p.d.maxPool, p.d.capacity, p.d.minBucket);
    }
    auto total = [&](const P *only) {
        uint64_t n = 0;
        for (auto &p : ps)
            if (p.pool && (shared || &p == only))
                n += p.kept();
        return n;
    };
    std::vector<size_t> classes;
    for (unsigned i = 0, n = (unsigned)c.range(1, 4); i < n; i++)
        classes.push_back(c.size(c.chance(1, 4) ? (1u << 20) : 40000));
    size_t liveBytes = 0, tables = 0, traced = 0, reused = 0;
    log.take();
    auto lines = [&](const char *what) { // those about blocks
        std::vector<std::string> v, l = log.take();
        for (auto &x : l)
            if (x.find(what) != std::string::npos)
                v.push_back(x);
        return v;
    };
    auto drop = [&](P &p) {
        for (auto &b : p.direct)
            PCHECK(c, umfPoolFree(p.pool, (void *)b.first) == UMF_RESULT_SUCCESS, "free", "free failed");
        uint64_t t = total(&p);
        log.take();
        umfPoolDestroy(p.pool);
        Stats s = table(c, log.take());
        if (quiet)
            PCHECK(c, !s.begun, "quiet", "the statistics are printed at the level \"info\"");
        else
            check_table(c, s, p, t, true);
        tables += s.begun && s.rows.size() > 0;
        umfMemoryProviderDestroy(p.prov);
        p.pool = nullptr;
        p.slabs.clear();
    };
    unsigned nops = (unsigned)c.range(1, 90);
    std::vector<unsigned> wts = {(unsigned)c.range(2, 6), (unsigned)c.range(2, 8), 1};
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        P &p = ps[c.index_of(np)];
        if (!p.pool)
            continue;
        unsigned pi = (unsigned)(&p - &ps[0]);
        switch (c.weighted(wts)) {
        case 0: {
            size_t s = c.chance(4, 5) ? c.pick(classes) : c.size(c.chance(1, 8) ? (2u << 20) : 70000);
            size_t al = c.chance(1, 4) ? c.pow2(0, 14) : 0;
            if (liveBytes + s + al > (64u << 20))
                break;
            if (c.chance(1, 20))
                p.mock->failAllAllocs = !p.mock->failAllAllocs;
            p.mock->allocLog.clear();
            log.take();
            void *q = al ? umfPoolAlignedMalloc(p.pool, s, al) : umfPoolMalloc(p.pool, s);
            std::vector<std::string> l = lines("Allocated ");
            uintptr_t a = (uintptr_t)q;
            bool isDirect = q && p.mock->allocLog.size() == 1 && p.mock->allocLog[0].first == a && (al <= 1 ? s : al <= 4096 ? up(s, al) : s + al - 1) > p.d.maxPool;
            bool made = !p.mock->allocLog.empty();
            c.note("pool %u: alloc(%zu, %zu)=%p%s", pi, s, al, q, isDirect ? " direct" : made ? " new slab" : "");
            if (!q || isDirect || p.d.trace < 3 || quiet)
                PCHECK(c, l.empty(), "msg.unasked", "\"%s\" is printed", l[0].c_str());
            else {
                PCHECK(c, l.size() == 1, "msg.alloc", "%zu messages about one allocation", l.size());
                std::string want = "Allocated ";
                char t[300];
                snprintf(t, sizeof t, "%8zu %s bytes ", s, p.name.c_str());
                want += t;
                if (al > 1)
                    want += "aligned at " + std::to_string(al) + " ";
                want += std::string("from ") + (made ? "provider" : "pool") + " -> 0x";
                size_t k = l[0].find(want);
                PCHECK(c, k != std::string::npos, "msg.alloc", "the message is \"%s\", expected \"%s...\"", l[0].c_str(), want.c_str());
                uintptr_t pr = strtoull(l[0].c_str() + k + want.size(), nullptr, 16);
                PCHECK(c, al > 1 ? pr <= a && a - pr < al : pr == a, "msg.address", "the block is %p, the message \"%s\"", q, l[0].c_str());
                traced++;
            }
            if (!q) {
                PCHECK(c, p.mock->failAllAllocs, "malloc.null", "%zu bytes were refused", s);
                break;
            }
            liveBytes += s;
            if (isDirect) {
                p.direct[a] = s;
                break;
            }
            size_t us = umfPoolMallocUsableSize(p.pool, q);
            if (made) {
                PCHECK(c, p.mock->allocLog.size() == 1, "slab", "%zu provider calls", p.mock->allocLog.size());
                uintptr_t base = p.mock->allocLog[0].first;
                // the first block of the slab
                p.slabs[base] = {us + (a - base), 0, p.mock->allocLog[0].second};
            }
            auto it = p.slabs.upper_bound(a);
            PCHECK(c, it != p.slabs.begin(), "slab.none", "%p is in no slab", q);
            Slab &sl = std::prev(it)->second;
            if (al <= 1)
                PCHECK(c, sl.bucket == bucket_of(s, p.d.minBucket), "class", "%zu bytes are in blocks of %zu", s, sl.bucket);
            reused += !made;
            sl.live++;
            Bk &b = p.bk[sl.bucket];
            b.slab = sl.size;
            b.allocs++;
            b.fromPool += !made;
            p.m.live[a] = {s, 0, 0, us};
            p.peaks();
            break;
        }
        case 1: {
            unsigned n = (unsigned)c.range(1, 8);
            for (unsigned k = 0; k < n && !p.m.live.empty(); k++) {
                uintptr_t a = p.m.nth(c.chance(1, 2) ? p.m.live.size() - 1 : c.index_of(p.m.live.size()));
                liveBytes -= p.m.live[a].size;
                p.m.live.erase(a);
                p.mock->freeLog.clear();
                log.take();
                umf_result_t r = umfPoolFree(p.pool, (void *)a);
                std::vector<std::string> l = lines("freed ");
                PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free: %s", rs(r));
                auto it = std::prev(p.slabs.upper_bound(a));
                Slab &sl = it->second;
                sl.live--;
                p.bk[sl.bucket].frees++;
                bool gone = !p.mock->freeLog.empty();
                c.note("pool %u: free(%p)%s", pi, (void *)a, gone ? " slab returned" : "");
                if (gone) {
                    PCHECK(c, p.mock->freeLog.size() == 1 && p.mock->freeLog[0].first == it->first && !sl.live, "slab.gone", "something else was returned to the provider");
                    p.slabs.erase(it);
                }
                p.peaks();
                if (p.d.trace < 3 || quiet) {
                    PCHECK(c, l.empty(), "msg.unasked", "\"%s\" is printed", l[0].c_str());
                    continue;
                }
                PCHECK(c, l.size() == 1, "msg.free", "%zu messages about one freed block", l.size());
                char t[500];
                snprintf(t, sizeof t, "freed %s %p to %s, current total pool size: %llu, current pool size for %s: %zu", p.name.c_str(), (void *)a, gone ? "provider" : "pool", (unsigned long long)total(&p),
                         p.name.c_str(), p.kept());
                PCHECK(c, l[0].size() >= strlen(t) && l[0].compare(l[0].size() - strlen(t), strlen(t), t) == 0, "msg.free", "the message is \"%s\", expected \"...%s\"", l[0].c_str(), t);
                traced++;
            }
            break;
        }
        default:
            if (np > 1 && c.chance(1, 6)) {
                c.note("pool %u: destroy with %zu blocks", pi, p.m.live.size());
                drop(p);
            }
        }
    }
    for (auto &p : ps)
        if (p.pool)
            drop(p);
    if (lim)
        umfDisjointPoolSharedLimitsDestroy(lim);
    if (tables && reused)
        c.nontrivial();
    if (traced)
        c.label("messages");
    if (tables)
        c.label("statistics");
    if (shared)
        c.label("shared limits");
}

// the same with threads: nothing is counted twice or forgotten
void threads(Ctx &c) {
    Log log;
    log.start(0);
    unsigned np = (unsigned)c.range(1, 2), nt = (unsigned)c.range(2, 4);
    umf_disjoint_pool_shared_limits_handle_t lim = c.chance(1, 2) ? umfDisjointPoolSharedLimitsCreate(c.chance(1, 2) ? SIZE_MAX : 65536 * c.range(0, 12)) : nullptr;
    std::vector<P> ps(np);
    for (auto &p : ps) {
        p.ops = mock_ops(true);
        p.mock->open(&c, 2ull << 30, 4096);
        p.mock->protect = false;
        p.prov = mock_provider(c, p.mock, &p.ops);
        p.d = gen_dpar(c);
        p.d.slabMin = c.oneof<size_t>({4096, 65536});
        p.d.maxPool = std::max<size_t>(p.d.maxPool, 4096);
        p.d.trace = 2;
        p.name = gen_name(c);
        make(c, p, lim);
    }
    std::vector<size_t> classes;
    for (unsigned i = 0, n = (unsigned)c.range(1, 3); i < n; i++)
        classes.push_back(c.range(1, 4096));
    struct Op { unsigned pool; size_t cls; unsigned n; };
    struct T {
        std::vector<Op> ops;
        std::map<std::pair<unsigned, size_t>, Bk> n;
        bool bad = false;
        std::vector<std::pair<unsigned, void *>> left;
    };
    std::vector<T> ts(nt);
    size_t ops = 0;
    for (auto &t : ts)
        for (unsigned i = 0, n = (unsigned)c.range(1, 30); i < n; i++)
            t.ops.push_back({(unsigned)c.range(0, np - 1), c.pick(classes), (unsigned)c.range(1, 40)}), ops += t.ops.back().n;
    unsigned keep = (unsigned)c.range(0, 3);
    std::atomic<unsigned> ready{0};
    auto body = [&](T &t) {
        ready++;
        while (ready < nt)
            ;
        for (auto &o : t.ops) {
            P &p = ps[o.pool];
            size_t b = bucket_of(o.cls, p.d.minBucket);
            std::vector<void *> v;
            for (unsigned i = 0; i < o.n; i++) {
                void *q = umfPoolMalloc(p.pool, o.cls);
                if (!q)
                    return void(t.bad = true);
                t.n[{o.pool, b}].allocs++;
                v.push_back(q);
            }
            for (unsigned i = 0; i < v.size(); i++)
                if (i < keep)
                    t.left.push_back({o.pool, v[i]});
                else {
                    t.bad |= umfPoolFree(p.pool, v[i]) != UMF_RESULT_SUCCESS;
                    t.n[{o.pool, b}].frees++;
                }
        }
    };
    std::vector<std::thread> th;
    for (auto &t : ts)
        th.emplace_back(body, std::ref(t));
    for (auto &x : th)
        x.join();
    for (unsigned i = 0; i < np; i++)
        for (auto &t : ts) {
            PCHECK(c, !t.bad, "threads", "a call failed");
            for (auto &x : t.n)
                if (x.first.first == i) {
                    Bk &b = ps[i].bk[x.first.second];
                    b.allocs += x.second.allocs, b.frees += x.second.frees;
                }
        }
    // what is left is freed here: then everything held is kept
    for (auto &t : ts)
        for (auto &l : t.left) {
            PCHECK(c, umfPoolMallocUsableSize(ps[l.first].pool, l.second) > 0, "usable", "%p", l.second);
            ps[l.first].bk[umfPoolMallocUsableSize(ps[l.first].pool, l.second)].frees++;
            PCHECK(c, umfPoolFree(ps[l.first].pool, l.second) == UMF_RESULT_SUCCESS, "free", "free failed");
        }
    for (unsigned i = 0; i < np; i++) {
        P &p = ps[i];
        uint64_t t = 0;
        for (unsigned j = 0; j < np; j++)
            if (ps[j].pool && (lim || j == i))
                t += ps[j].mock->liveBytes;
        uint64_t slabs = p.mock->nalloc;
        log.take();
        umfPoolDestroy(p.pool);
        Stats s = table(c, log.take());
        check_table(c, s, p, t, false);
        size_t made = 0;
        for (auto &r : s.rows) {
            PCHECK(c, r.p <= r.a && r.u >= 1 && r.u <= r.a - r.p, "stat.range", "blocks of %zu bytes: %zu allocations, %zu of them from the pool, at most %zu slabs in use", r.b, r.a, r.p, r.u);
            made += r.a - r.p;
        }
        PCHECK(c, made == slabs, "stat.made", "%llu slabs were made, printed are %zu allocations from the provider", (unsigned long long)slabs, made);
        umfMemoryProviderDestroy(p.prov);
        p.pool = nullptr;
    }
    if (lim)
        umfDisjointPoolSharedLimitsDestroy(lim);
    if (ops > 100)
        c.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C04", "history: a pool printed statistics of at least one size and a block came from a slab it already had; threads: more than 100 allocations",
                         {{"history", history, 20000, 300000}, {"threads", threads, 4000, 60000, 30, true}});
}

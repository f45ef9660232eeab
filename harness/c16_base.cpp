// C16: the internal allocators UMF keeps its own state in (fixed-size pools,
// linear pools, the global size-class allocator), with mappings that fail.
#include "umfh.hpp"
#include "wrapmap.hpp"
#include <atomic>
#include <thread>
extern "C" {
#include "base_alloc.h"
#include "base_alloc_global.h"
#include "base_alloc_linear.h"
}
using namespace h;

struct Blk {
    size_t n;
    uint64_t tag;
};
struct BM {
    Ctx &c;
    std::map<uintptr_t, Blk> live;
    uint64_t tag = 7;
    void add(void *p, size_t n, size_t al) {
        uintptr_t a = (uintptr_t)p;
        PCHECK(c, a % (al ? al : 8) == 0, "align", "block %p of %zu is not aligned to %zu", p, n, al);
        auto it = live.upper_bound(a);
        if (it != live.end())
            PCHECK(c, it->first >= a + n, "overlap", "block %p of %zu overlaps the live block %p", p, n, (void *)it->first);
        if (it != live.begin()) {
            auto q = std::prev(it);
            PCHECK(c, q->first + q->second.n <= a, "overlap", "block %p of %zu overlaps the live block %p of %zu", p, n, (void *)q->first,
                   q->second.n);
        }
        {
            std::lock_guard<std::mutex> g(wm::mx);
            PCHECK(c, wm::covered(a, n), "unmapped", "block %p of %zu is not inside memory obtained from the system", p, n);
        }
        Blk b{n, tag++ * 2654435761u};
        fill(p, n, b.tag);
        live[a] = b;
    }
    uintptr_t any() {
        auto it = live.begin();
        std::advance(it, (long)c.index_of(live.size()));
        return it->first;
    }
    Blk take(uintptr_t a) {
        Blk b = live[a];
        size_t bad = verify((void *)a, b.n, b.tag);
        PCHECK(c, bad == SIZE_MAX, "content", "block %p of %zu changed at %zu", (void *)a, b.n, bad);
        live.erase(a);
        return b;
    }
    void verify_all() {
        for (auto &kv : live) {
            size_t bad = verify((void *)kv.first, kv.second.n, kv.second.tag);
            PCHECK(c, bad == SIZE_MAX, "content", "block %p of %zu changed at %zu", (void *)kv.first, kv.second.n, bad);
        }
    }
};

static void pool(Ctx &c) {
    size_t before = wm::liveBytes;
    wm::on = true;
    size_t sz = c.chance(1, 2) ? c.range(1, 300) : c.size(20000);
    if (c.chance(1, 12)) {
        wm::failIn = 1;
        umf_ba_pool_t *p = umf_ba_create(sz);
        wm::failIn = 0;
        PCHECK(c, !p, "create.oom", "a pool was created although the system has no memory");
    }
    umf_ba_pool_t *p = umf_ba_create(sz);
    PCHECK(c, p, "create", "umf_ba_create(%zu) failed", sz);
    BM m{c};
    unsigned nops = (unsigned)c.range(1, c.thorough ? 800 : 300), oom = 0, frees = 0;
    size_t maxlive = std::max<size_t>(8, std::min<size_t>(1200, (2u << 20) / sz));
    unsigned wa = (unsigned)c.range(1, 6), wf = (unsigned)c.range(1, 6), burst = (unsigned)c.range(1, 60);
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted({wa, wf, 1})) {
        case 0: {
            unsigned n = (unsigned)c.range(1, burst);
            if (c.chance(1, 10))
                wm::failAll = true;
            for (unsigned k = 0; k < n && m.live.size() < maxlive; k++) {
                uint64_t f = wm::nfailed;
                void *q = umf_ba_alloc(p);
                if (!q) {
                    PCHECK(c, wm::nfailed > f, "null", "allocation failed although no mapping failed");
                    oom++;
                    break;
                }
                PCHECK(c, wm::nfailed == f, "oom", "allocation succeeded although the mapping it needed failed");
                m.add(q, sz, 8);
            }
            wm::failAll = false;
            break;
        }
        case 1: {
            unsigned n = (unsigned)c.range(1, burst);
            for (unsigned k = 0; k < n && !m.live.empty(); k++) {
                uintptr_t a = m.any();
                m.take(a);
                umf_ba_free(p, (void *)a);
                frees++;
            }
            break;
        }
        case 2:
            umf_ba_free(p, nullptr);
            m.verify_all();
            break;
        }
    }
    m.verify_all();
    // reuse: with everything freed, as many blocks again need no new memory
    size_t n = m.live.size();
    while (!m.live.empty()) {
        uintptr_t a = m.any();
        m.take(a);
        umf_ba_free(p, (void *)a);
    }
    uint64_t nm = wm::nmap;
    for (size_t k = 0; k < n; k++) {
        void *q = umf_ba_alloc(p);
        PCHECK(c, q, "null", "allocation failed");
        m.add(q, sz, 8);
    }
    PCHECK(c, wm::nmap == nm, "reuse", "%zu blocks that had all been freed needed %d new mappings", n, (int)(wm::nmap - nm));
    while (!m.live.empty()) {
        uintptr_t a = m.any();
        m.take(a);
        umf_ba_free(p, (void *)a);
    }
    umf_ba_destroy(p);
    wm::on = false;
    PCHECK(c, wm::liveBytes == before, "leak", "%zu bytes still mapped after the pool was destroyed", wm::liveBytes - before);
    PCHECK(c, !wm::badUnmap, "bad.unmap", "memory was unmapped that is not mapped");
    if (frees && nops > 5)
        c.nontrivial();
    if (oom)
        c.label("pool.oom");
}

static void linear(Ctx &c) {
    size_t before = wm::liveBytes;
    wm::on = true;
    size_t sz = c.chance(1, 2) ? c.range(0, 20000) : c.size(1 << 20);
    umf_ba_linear_pool_t *p = umf_ba_linear_create(sz);
    PCHECK(c, p, "create", "umf_ba_linear_create(%zu) failed", sz);
    BM m{c};
    unsigned nops = (unsigned)c.range(1, c.thorough ? 500 : 200), oom = 0, frees = 0, grown = 0;
    size_t total = 0;
    unsigned wa = (unsigned)c.range(1, 8), wf = (unsigned)c.range(0, 6);
    size_t freedBytes = 0;
    char stack[16];
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted({wa, wf, 3, 1})) {
        case 0: {
            size_t n = c.chance(1, 6) ? 4096 * c.range(1, 3) - c.range(0, 48) : c.chance(1, 2) ? c.range(1, 200) : c.size(30000);
            if (total + n > (6u << 20))
                break;
            if (c.chance(1, 10))
                wm::failAll = true;
            uint64_t f = wm::nfailed, mm = wm::nmap;
            void *q = umf_ba_linear_alloc(p, n);
            wm::failAll = false;
            c.note("alloc(%zu)=%p", n, q);
            if (!q) {
                PCHECK(c, wm::nfailed > f, "null", "allocation of %zu failed although no mapping failed", n);
                oom++;
                break;
            }
            grown += wm::nmap > mm;
            total += n;
            m.add(q, n, 8);
            break;
        }
        case 1: {
            if (m.live.empty())
                break;
            uintptr_t a = m.any();
            Blk b = m.take(a);
            int r = umf_ba_linear_free(p, (void *)a);
            c.note("free(%p)=%d", (void *)a, r);
            PCHECK(c, r == 0, "free", "free of a live block %p returned %d", (void *)a, r);
            freedBytes += b.n;
            frees++;
            break;
        }
        case 2: {
            if (m.live.empty())
                break;
            uintptr_t a = m.any();
            size_t n = m.live[a].n, off = c.range(0, n - 1);
            size_t r = umf_ba_linear_pool_contains_pointer(p, (char *)a + off);
            PCHECK(c, r >= n - off, "contains", "contains_pointer of byte %zu of a block of %zu returned %zu", off, n, r);
            std::lock_guard<std::mutex> g(wm::mx);
            PCHECK(c, wm::covered(a + off, r), "contains.size", "contains_pointer says %zu bytes follow, they are not all mapped", r);
            break;
        }
        case 3: {
            PCHECK(c, !umf_ba_linear_alloc(p, 0), "zero", "an allocation of 0 bytes succeeded");
            PCHECK(c, !umf_ba_linear_alloc(p, SIZE_MAX - c.range(0, 64)), "huge", "an allocation of about SIZE_MAX bytes succeeded");
            PCHECK(c, umf_ba_linear_free(p, stack) == -1, "free.foreign", "free of a foreign pointer succeeded");
            PCHECK(c, umf_ba_linear_pool_contains_pointer(p, stack) == 0, "contains.foreign", "the pool claims a foreign pointer");
            m.verify_all();
            break;
        }
        }
    }
    m.verify_all();
    umf_ba_linear_destroy(p);
    wm::on = false;
    PCHECK(c, wm::liveBytes == before, "leak", "%zu bytes still mapped after the pool was destroyed", wm::liveBytes - before);
    PCHECK(c, !wm::badUnmap, "bad.unmap", "memory was unmapped that is not mapped");
    if (grown && frees)
        c.nontrivial();
    c.label(grown ? "linear.grown" : "linear.one");
    if (oom)
        c.label("linear.oom");
}

static void global(Ctx &c) {
    wm::on = true;
    BM m{c};
    unsigned nops = (unsigned)c.range(1, c.thorough ? 600 : 250), oom = 0, frees = 0, os = 0;
    if (c.chance(1, 10)) { // creating some of the size classes fails
        wm::failIn = c.range(1, 6);
        void *q = umf_ba_global_alloc(c.range(1, 100));
        wm::failIn = 0;
        if (q) {
            umf_ba_global_free(q);
            c.label("class-missing");
        }
    }
    size_t total = 0;
    unsigned wf = (unsigned)c.range(1, 6);
    std::map<uintptr_t, size_t> usable;
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        switch (c.weighted({4, 3, wf, 1, 1})) {
        case 0:
        case 1: {
            bool al = c.chance(1, 3);
            size_t a = al ? c.pow2(0, 14) : 0;
            unsigned n = (unsigned)c.range(1, 30);
            size_t s = c.chance(2, 3) ? c.range(1, 300) : c.size(100000);
            if (c.chance(1, 10))
                wm::failAll = true;
            for (unsigned k = 0; k < n && total + s < (4u << 20); k++) {
                uint64_t f = wm::nfailed, mm = wm::nmap;
                void *q = al ? umf_ba_global_aligned_alloc(s, a) : umf_ba_global_alloc(s);
                if (!q) {
                    PCHECK(c, wm::nfailed > f, "null", "allocation of %zu aligned %zu failed although no mapping failed", s, a);
                    oom++;
                    break;
                }
                os += wm::nmap > mm;
                size_t us = umf_ba_global_malloc_usable_size(q);
                PCHECK(c, us >= s, "usable", "usable size %zu of a block of %zu", us, s);
                m.add(q, us, std::max<size_t>(a, 8));
                usable[(uintptr_t)q] = us;
                total += us;
            }
            wm::failAll = false;
            break;
        }
        case 2: {
            unsigned n = (unsigned)c.range(1, 30);
            for (unsigned k = 0; k < n && !m.live.empty(); k++) {
                uintptr_t a = m.any();
                Blk b = m.take(a);
                PCHECK(c, umf_ba_global_malloc_usable_size((void *)a) == b.n, "usable", "the usable size of a live block changed");
                umf_ba_global_free((void *)a);
                total -= b.n;
                frees++;
            }
            break;
        }
        case 3:
            m.verify_all();
            umf_ba_global_free(nullptr);
            PCHECK(c, umf_ba_global_malloc_usable_size(nullptr) == 0, "usable.null", "usable size of NULL");
            PCHECK(c, !umf_ba_global_alloc(0), "zero", "an allocation of 0 bytes succeeded");
            break;
        case 4: {
            size_t big = SIZE_MAX - c.range(0, 64);
            PCHECK(c, !umf_ba_global_alloc(big), "huge", "an allocation of %zu bytes succeeded", big);
            PCHECK(c, !umf_ba_global_aligned_alloc(big - 4096, 8192), "huge", "an aligned allocation of %zu bytes succeeded", big);
            // a block too large for the allocator's bookkeeping: refused or usable
            size_t mid = ((size_t)c.range(1, 3) << 32) - c.range(0, 64);
            char *q = (char *)umf_ba_global_alloc(mid);
            if (q) {
                size_t us = umf_ba_global_malloc_usable_size(q);
                PCHECK(c, us >= mid, "usable", "usable size %zu of a block of %zu", us, mid);
                q[0] = q[mid - 1] = 1;
                umf_ba_global_free(q);
                std::lock_guard<std::mutex> g(wm::mx);
                PCHECK(c, !wm::covered((uintptr_t)q, mid), "large.leak", "a freed block of %zu bytes is still mapped", mid);
            }
            break;
        }
        }
    }
    m.verify_all();
    while (!m.live.empty()) {
        uintptr_t a = m.any();
        m.take(a);
        umf_ba_global_free((void *)a);
    }
    PCHECK(c, !wm::badUnmap, "bad.unmap", "memory was unmapped that is not mapped");
    wm::on = false;
    if (frees > 3)
        c.nontrivial();
    if (oom)
        c.label("global.oom");
}

static void threads(Ctx &c) {
    wm::on = false;
    unsigned nt = (unsigned)c.range(2, 4);
    size_t psz = c.range(8, 600);
    umf_ba_pool_t *p = umf_ba_create(psz);
    umf_ba_linear_pool_t *lp = umf_ba_linear_create(c.range(0, 8000));
    uint64_t seed = c.range(0, UINT64_MAX);
    std::atomic<unsigned> ready{0};
    std::atomic<int> bad{0};
    std::vector<std::thread> th;
    unsigned iters = c.thorough ? 6000 : 1500;
    for (unsigned t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            uint64_t r = mixu(seed + t);
            struct E {
                void *p;
                size_t n;
                unsigned how;
                uint64_t tag;
            };
            std::vector<E> v;
            ready++;
            while (ready < nt)
                ;
            for (unsigned i = 0; i < iters; i++) {
                r = mixu(r + i);
                if (v.size() < 40 && (r & 3)) {
                    E e;
                    e.how = (unsigned)((r >> 8) % 4);
                    e.n = e.how == 0 ? psz : 1 + (r >> 16) % 400;
                    e.tag = r;
                    e.p = e.how == 0 ? umf_ba_alloc(p) : e.how == 1 ? umf_ba_linear_alloc(lp, e.n) : umf_ba_global_alloc(e.n);
                    if (!e.p) {
                        bad = 1;
                        return;
                    }
                    fill(e.p, e.n, e.tag);
                    v.push_back(e);
                } else if (!v.empty()) {
                    size_t k = (r >> 20) % v.size();
                    E e = v[k];
                    v[k] = v.back();
                    v.pop_back();
                    if (verify(e.p, e.n, e.tag) != SIZE_MAX) {
                        bad = 2;
                        return;
                    }
                    if (e.how == 0)
                        umf_ba_free(p, e.p);
                    else if (e.how == 1) {
                        if (umf_ba_linear_free(lp, e.p))
                            bad = 3;
                    } else
                        umf_ba_global_free(e.p);
                }
            }
            for (auto &e : v) {
                if (verify(e.p, e.n, e.tag) != SIZE_MAX)
                    bad = 2;
                if (e.how == 0)
                    umf_ba_free(p, e.p);
                else if (e.how > 1)
                    umf_ba_global_free(e.p);
            }
        });
    for (auto &x : th)
        x.join();
    PCHECK(c, !bad, "threads", "%s", bad == 1 ? "an allocation failed" : bad == 2 ? "a block owned by one thread was changed by another" : "a linear free failed");
    umf_ba_destroy(p);
    umf_ba_linear_destroy(lp);
    c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C16",
                         "histories of alloc/free/inspect on fixed-size pools, linear pools and the global size-class allocator with generated "
                         "sizes, alignments and failing system mappings, against a model of live blocks and of the mappings made; 2-4 threads with "
                         "blocks of their own; non-trivial: frees happened (linear: and the pool grew)",
                         {{"pool", pool, 9000, 90000},
                          {"linear", linear, 12000, 120000},
                          {"global", global, 9000, 90000},
                          {"threads", threads, 800, 8000, 60, true}});
}

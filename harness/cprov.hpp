// Histories over a memory provider backed by the coarse block manager (fixed,
// file, devdax), through the public provider API, against an interval model.
#pragma once
#include "umfh.hpp"
#include "wrapmap.hpp"
#include <dirent.h>
namespace h {
inline unsigned open_fds() {
    unsigned n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (d && readdir(d))
        n++;
    if (d)
        closedir(d);
    return n;
}
// can the kernel write to / read from this page?
struct Probe {
    int p[2];
    Probe() { if (pipe(p)) p[0] = p[1] = -1; }
    ~Probe() { close(p[0]); close(p[1]); }
    bool readable(void *a) {
        char b;
        return write(p[1], a, 1) == 1 && read(p[0], &b, 1) == 1;
    }
    bool writable(void *a) { // keeps the byte when it is readable
        char b = 0;
        if (readable(a))
            b = *(volatile char *)a;
        return write(p[1], &b, 1) == 1 && (read(p[0], a, 1) == 1 || (read(p[0], &b, 1), false));
    }
};

struct CBlk {
    size_t size;
    uint64_t tag;
};
struct CProv {
    Ctx &c;
    umf_memory_provider_handle_t p = nullptr;
    size_t page = 4096;
    bool region = false; // all memory comes from [lo, hi)
    uintptr_t lo = 0, hi = 0;
    bool writable = true;
    enum { Keep, Zero, Any } purged = Keep; // what force purging does to whole pages
    size_t budget = SIZE_MAX; // growable: stop growing after that many bytes were asked for
    size_t maxReq = 1 << 20;
    std::function<bool()> arm;     // arm a fault for the next allocation
    std::function<bool()> fired;   // did it fire (and disarm)
    std::map<uintptr_t, CBlk> live;
    uint64_t tag = 1;
    unsigned reused = 0, splits = 0, merges = 0, aligned = 0, faults = 0, exhausted = 0;
    std::set<uintptr_t> seen;
    std::map<uintptr_t, size_t> was; // sizes of freed blocks
    explicit CProv(Ctx &cc) : c(cc) {}

    void stamp(uintptr_t a, CBlk &b) {
        b.tag = tag++ * 1315423911u;
        if (writable)
            fill((void *)a, b.size, b.tag);
    }
    void verifyBlk(uintptr_t a, const CBlk &b, const char *when) {
        if (!writable)
            return;
        size_t bad = verify((void *)a, b.size, b.tag);
        PCHECK(c, bad == SIZE_MAX, "content", "contents of live block %p..+%zu changed at offset %zu (%s)", (void *)a,
               b.size, bad, when);
    }
    // is there room for it, whatever the block list looks like
    bool surelyFits(size_t s, size_t al) {
        uintptr_t at = lo;
        size_t need = s + std::max(al, page);
        if (need < s)
            return false;
        for (auto &x : live) {
            if (x.first - at >= need)
                return true;
            at = x.first + x.second.size;
        }
        return hi - at >= need;
    }
    bool couldFit(size_t s, size_t al) {
        al = std::max(al, page);
        uintptr_t at = lo;
        auto gap = [&](uintptr_t g, uintptr_t e) {
            uintptr_t st = (g + al - 1) / al * al;
            return st >= g && st <= e && e - st >= s;
        };
        for (auto &x : live) {
            if (gap(at, x.first))
                return true;
            at = x.first + x.second.size;
        }
        return gap(at, hi);
    }
    uintptr_t pickBlk() {
        auto it = live.begin();
        std::advance(it, (long)c.index_of(live.size()));
        return it->first;
    }
    void alloc(size_t s, size_t al, bool mayFault) {
        bool pow = (al & (al - 1)) == 0;
        bool armed = mayFault && arm && arm();
        void *q = (void *)0x1;
        umf_result_t r = umfMemoryProviderAlloc(p, s, al, &q);
        bool f = armed && fired();
        c.note("alloc(%zu,%zu)=%p %s%s", s, al, q, rs(r), f ? " (fault)" : "");
        if (s == 0) {
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "alloc.zero", "allocating 0 bytes: %s", rs(r));
            return;
        }
        if (!pow) {
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ALIGNMENT, "alloc.badalign", "alignment %zu: %s", al, rs(r));
            return;
        }
        if (r != UMF_RESULT_SUCCESS) {
            PCHECK(c, valid_code(r), "alloc.code", "result %d", (int)r);
            if (f) {
                faults++;
                return;
            }
            if (region) {
                PCHECK(c, !surelyFits(s, al), "alloc.refused", "alloc(%zu,%zu) failed (%s) although it fits", s, al, rs(r));
                PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "alloc.oom", "out of memory is reported as %s", rs(r));
                exhausted++;
            } else
                PCHECK(c, s > (SIZE_MAX >> 3) || al > (SIZE_MAX >> 3), "alloc.refused", "alloc(%zu,%zu) failed: %s", s, al, rs(r));
            return;
        }
        uintptr_t a = (uintptr_t)q;
        size_t eff = std::max(al, page);
        PCHECK(c, a % eff == 0, "align", "%p is not aligned to %zu (page %zu)", q, al, page);
        if (region) {
            PCHECK(c, a >= lo && a < hi && hi - a >= s, "outside", "%p..+%zu is outside the memory given to the provider", q, s);
        }
        auto nx = live.upper_bound(a);
        PCHECK(c, (nx == live.end() || nx->first - a >= s) &&
                      (nx == live.begin() || std::prev(nx)->first + std::prev(nx)->second.size <= a),
               "overlap", "%p..+%zu overlaps a live block", q, s);
        if (seen.count(a))
            reused++;
        seen.insert(a);
        if (eff > page)
            aligned++;
        CBlk b{s, 0};
        stamp(a, b);
        live[a] = b;
        if (!region)
            budget = budget > s + al ? budget - s - al : 0;
    }
    void freeBlk(uintptr_t a) {
        CBlk b = live[a];
        verifyBlk(a, b, "at free");
        umf_result_t r = umfMemoryProviderFree(p, (void *)a, b.size);
        c.note("free(%#zx,%zu) %s", (size_t)a, b.size, rs(r));
        PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free of live block %#zx..+%zu: %s", (size_t)a, b.size, rs(r));
        was[a] = b.size;
        live.erase(a);
        if (c.chance(1, 4)) {
            r = umfMemoryProviderFree(p, (void *)a, b.size);
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "free.twice", "second free of %#zx: %s", (size_t)a, rs(r));
        }
    }
    void split(uintptr_t a) {
        CBlk b = live[a];
        if (b.size < 2)
            return;
        size_t f = c.chance(1, 2) && b.size > page ? page * c.range(1, (b.size - 1) / page) : c.range(1, b.size - 1);
        umf_result_t r = umfMemoryProviderAllocationSplit(p, (void *)a, b.size, f);
        c.note("split(%#zx,%zu,%zu) %s", (size_t)a, b.size, f, rs(r));
        PCHECK(c, r == UMF_RESULT_SUCCESS, "split", "split of live block: %s", rs(r));
        verifyBlk(a, b, "after split");
        CBlk lo2{f, 0}, hi2{b.size - f, 0};
        stamp(a, lo2);
        stamp(a + f, hi2);
        live[a] = lo2;
        live[a + f] = hi2;
        splits++;
    }
    void merge() {
        if (live.size() < 2)
            return;
        auto it = live.begin();
        std::advance(it, (long)c.index_of(live.size() - 1));
        if (c.chance(7, 8))
            for (auto j = it; std::next(j) != live.end(); ++j)
                if (j->first + j->second.size == std::next(j)->first) {
                    it = j;
                    break;
                }
        auto nx = std::next(it);
        bool adj = it->first + it->second.size == nx->first;
        bool wrong = c.chance(1, 10);
        size_t tot = it->second.size + nx->second.size + (wrong ? c.range(1, 9) : 0);
        umf_result_t r = umfMemoryProviderAllocationMerge(p, (void *)it->first, (void *)nx->first, tot);
        c.note("merge(%#zx,%#zx,%zu) %s", (size_t)it->first, (size_t)nx->first, tot, rs(r));
        if (!adj || wrong)
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "merge.bad", "merging (adjacent %d, total %s): %s", adj,
                   wrong ? "wrong" : "right", rs(r));
        else if (region)
            PCHECK(c, r == UMF_RESULT_SUCCESS, "merge", "merging adjacent blocks: %s", rs(r));
        else // blocks of different mappings can be refused
            PCHECK(c, r == UMF_RESULT_SUCCESS || r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "merge", "merging adjacent blocks: %s", rs(r));
        verifyBlk(it->first, it->second, "after merge");
        verifyBlk(nx->first, nx->second, "after merge");
        if (r == UMF_RESULT_SUCCESS) {
            it->second.size += nx->second.size;
            live.erase(nx);
            stamp(it->first, it->second);
            merges++;
        }
    }
    void purge(uintptr_t a) {
        CBlk b = live[a];
        bool lazy = c.chance(1, 3);
        bool whole = a % page == 0 && b.size >= page;
        if (lazy) {
            umf_result_t r = umfMemoryProviderPurgeLazy(p, (void *)a, b.size);
            PCHECK(c, r == UMF_RESULT_ERROR_NOT_SUPPORTED, "purge.lazy", "lazy purge: %s", rs(r));
        } else if (a % 4096 != 0) {
            umf_result_t r = umfMemoryProviderPurgeForce(p, (void *)a, b.size);
            PCHECK(c, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC, "purge.unaligned", "purging unaligned %#zx: %s", (size_t)a, rs(r));
            const char *msg = nullptr;
            int32_t e = 0;
            umfMemoryProviderGetLastNativeError(p, &msg, &e);
            PCHECK(c, msg && strstr(msg, "purg") && e != 0, "purge.native", "native error %d (%s) after a failed purge", e,
                   msg ? msg : "NULL");
        } else if (whole && writable) {
            size_t n = b.size / page * page;
            umf_result_t r = umfMemoryProviderPurgeForce(p, (void *)a, n);
            c.note("purge_force(%#zx,%zu) %s", (size_t)a, n, rs(r));
            PCHECK(c, r == UMF_RESULT_SUCCESS, "purge", "forced purge of %#zx: %s", (size_t)a, rs(r));
            if (purged == Zero) {
                for (size_t i = 0; i < n; i += n / 64 + 1)
                    PCHECK(c, ((volatile char *)a)[i] == 0, "purge.zero", "byte %zu survived a forced purge", i);
                for (size_t i = n; i < b.size; i++)
                    ; // the partial page is not ours to judge
                stamp(a, live[a]);
            } else if (purged == Any)
                stamp(a, live[a]);
        } else
            return;
        if (live[a].tag == b.tag)
            verifyBlk(a, b, "after purge");
    }
    uintptr_t freed() { // where a block was that is free now
        std::vector<uintptr_t> v;
        for (uintptr_t x : seen) {
            auto i = live.upper_bound(x);
            if (i == live.begin() || std::prev(i)->first + std::prev(i)->second.size <= x)
                v.push_back(x);
        }
        return v.empty() ? 0 : c.pick(v);
    }
    void invalid() {
        umf_result_t r = UMF_RESULT_ERROR_INVALID_ARGUMENT;
        void *q = nullptr;
        unsigned k = (unsigned)c.range(0, 11);
        uintptr_t a = live.empty() ? 0 : pickBlk();
        CBlk b = live.empty() ? CBlk{0, 0} : live[a];
        switch (k) {
        case 0:
            r = umfMemoryProviderFree(p, (void *)(0x10000 + 4096 * c.range(0, 3)), c.range(0, 2) * 4096);
            break;
        case 1:
            if (a)
                r = umfMemoryProviderFree(p, (void *)a, b.size + c.range(1, 3));
            break;
        case 2:
            if (a && b.size > 1)
                r = umfMemoryProviderFree(p, (void *)(a + c.range(1, b.size - 1)), 0);
            break;
        case 3:
            if (a)
                r = umfMemoryProviderAllocationSplit(p, (void *)a, b.size + c.range(1, 9), 1);
            break;
        case 4:
            if (a)
                r = umfMemoryProviderAllocationSplit(p, (void *)a, b.size, b.size + c.range(1, 9));
            break;
        case 5:
            if (live.size() >= 2) // in the wrong order
                r = umfMemoryProviderAllocationMerge(p, (void *)std::next(live.begin())->first, (void *)live.begin()->first,
                                                     live.begin()->second.size + std::next(live.begin())->second.size);
            break;
        case 6:
            alloc(0, 0, false);
            break;
        case 7: { // a part of memory that is free
            uintptr_t g = freed();
            size_t n = g && was[g] > 1 && c.chance(3, 4) ? was[g] : page * c.range(1, 3) + 2;
            if (g)
                r = umfMemoryProviderAllocationSplit(p, (void *)g, n, c.range(1, n - 1));
            break;
        }
        case 8: // the inside of a block
            if (a && b.size > 3) {
                size_t o = c.range(1, b.size - 3);
                r = umfMemoryProviderAllocationSplit(p, (void *)(a + o), b.size - o, 1);
            }
            break;
        case 9: { // with what is free behind it
            if (!a || live.count(a + b.size))
                break;
            auto nx = live.upper_bound(a);
            uintptr_t e = nx != live.end() ? nx->first : hi;
            size_t n = e > a + b.size && c.chance(3, 4) ? e - a - b.size : page * c.range(1, 3);
            r = umfMemoryProviderAllocationMerge(p, (void *)a, (void *)(a + b.size), b.size + n);
            break;
        }
        case 10: { // free memory with a block behind it
            uintptr_t g = freed();
            auto nx = live.upper_bound(g);
            if (g && c.chance(3, 4)) // where the free memory begins
                g = nx != live.begin() ? std::prev(nx)->first + std::prev(nx)->second.size : lo ? lo : g;
            if (g && nx != live.end() && g < nx->first)
                r = umfMemoryProviderAllocationMerge(p, (void *)g, (void *)nx->first, nx->first + nx->second.size - g);
            break;
        }
        default:
            alloc(page, c.chance(1, 2) ? 3 * c.range(1, 5000) : c.pow2(13, 40) + 4096, false);
        }
        (void)q;
        c.note("invalid request %u: %s", k, rs(r));
        PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "invalid", "invalid request %u: %s", k, rs(r));
    }
    void history(unsigned nops) {
        size_t cls = page * c.range(1, 4);
        std::vector<unsigned> w = {(unsigned)c.range(2, 8), (unsigned)c.range(2, 8), 2, 2, 1, 1, 1};
        for (unsigned i = 0; i < nops; i++) {
            c.op();
            switch (c.weighted(w)) {
            case 0: {
                size_t s = c.chance(1, 2) ? cls : c.chance(1, 2) ? page * c.range(1, 8) : c.range(1, maxReq);
                size_t al = c.chance(1, 2) ? 0 : c.pow2(0, region ? 25 : 21);
                if (c.chance(1, 12))
                    s = c.oneof<size_t>({(size_t)1 << 62, SIZE_MAX, SIZE_MAX - page, (size_t)1 << 63});
                if (!region && s < ((size_t)1 << 60) && s + al > budget)
                    break;
                alloc(s, al, true);
                break;
            }
            case 1:
                if (!live.empty())
                    freeBlk(pickBlk());
                break;
            case 2:
                if (!live.empty())
                    split(pickBlk());
                break;
            case 3:
                merge();
                break;
            case 4:
                invalid();
                break;
            case 5:
                if (!live.empty())
                    purge(pickBlk());
                break;
            case 6: {
                umf_result_t r = umfMemoryProviderFree(p, nullptr, c.range(0, 9));
                PCHECK(c, r == UMF_RESULT_SUCCESS, "free.null", "free(NULL): %s", rs(r));
                size_t x = 0;
                r = umfMemoryProviderGetMinPageSize(p, nullptr, &x);
                PCHECK(c, r == UMF_RESULT_SUCCESS && x == page, "minpage", "min page size %zu (%s), expected %zu", x, rs(r), page);
                x = 0;
                r = umfMemoryProviderGetRecommendedPageSize(p, c.size(1 << 30), &x);
                PCHECK(c, r == UMF_RESULT_SUCCESS && x >= page && (x & (x - 1)) == 0, "recpage", "recommended page size %zu", x);
                break;
            }
            }
        }
        for (auto &x : live)
            verifyBlk(x.first, x.second, "at the end");
    }
    void freeAll() {
        while (!live.empty())
            freeBlk(pickBlk());
    }
};
} // namespace h

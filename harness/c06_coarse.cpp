// C06: the coarse-grained block manager behind the fixed, file and devdax
// providers, against a partition model; the upstream callbacks keep their own
// partition and can fail.
#include "umfh.hpp"
extern "C" {
#include "coarse.h"
}
using namespace h;

struct Up {
    Ctx *c;
    std::map<uintptr_t, size_t> part; // the partition the upstream knows
    std::map<uintptr_t, size_t> regions;
    uintptr_t next;
    size_t page;
    bool adjacent;
    bool mergeAcross; // merges of blocks from different regions are allowed
    std::set<uintptr_t> excused; // boundaries whose merge was asked for and made to fail
    umf_result_t code = UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    uint64_t failSplitIn = 0, failMergeIn = 0, failAllocIn = 0;
    uint64_t splitFails = 0, mergeFails = 0, allocs = 0, frees = 0, crossRefused = 0;
    uintptr_t regionOf(uintptr_t p) {
        auto it = regions.upper_bound(p);
        return std::prev(it)->first;
    }
};

static umf_result_t up_alloc(void *p, size_t size, size_t align, void **out) {
    Up *u = (Up *)p;
    if (u->failAllocIn && --u->failAllocIn == 0)
        return u->code;
    uintptr_t a = (uintptr_t)up(u->next, std::max(align, u->page));
    u->next = a + up(size, u->page);
    if (!u->adjacent)
        u->next += u->page * u->c->range(1, 3);
    u->part[a] = size;
    u->regions[a] = size;
    u->allocs++;
    *out = (void *)a;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_free(void *p, void *ptr, size_t size) {
    Up *u = (Up *)p;
    auto it = u->part.find((uintptr_t)ptr);
    PCHECK(*u->c, it != u->part.end() && it->second == size, "up.free",
           "upstream asked to free %p size %zu, which is not one of its blocks", ptr, size);
    u->part.erase(it);
    u->frees++;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_split(void *p, void *ptr, size_t total, size_t first) {
    Up *u = (Up *)p;
    auto it = u->part.find((uintptr_t)ptr);
    PCHECK(*u->c, it != u->part.end() && it->second == total && first > 0 && first < total, "up.split",
           "upstream asked to split %p %zu at %zu, its block there is %zu long", ptr, total, first,
           it == u->part.end() ? 0 : it->second);
    if (u->failSplitIn && --u->failSplitIn == 0) {
        u->splitFails++;
        return u->code;
    }
    it->second = first;
    u->part[(uintptr_t)ptr + first] = total - first;
    return UMF_RESULT_SUCCESS;
}
static umf_result_t up_merge(void *p, void *lo, void *hi, size_t total) {
    Up *u = (Up *)p;
    auto a = u->part.find((uintptr_t)lo), b = u->part.find((uintptr_t)hi);
    PCHECK(*u->c, a != u->part.end() && b != u->part.end() && a->first + a->second == b->first &&
                      a->second + b->second == total,
           "up.merge", "upstream asked to merge %p and %p total %zu, not two adjacent blocks of it", lo, hi, total);
    if (!u->mergeAcross && u->regionOf(a->first) != u->regionOf(b->first)) {
        u->crossRefused++;
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    }
    if (u->failMergeIn && --u->failMergeIn == 0) {
        u->mergeFails++;
        u->excused.insert(b->first);
        return u->code;
    }
    u->excused.erase(b->first);
    u->part.erase(b);
    a->second = total;
    return UMF_RESULT_SUCCESS;
}

static void coarse(Ctx &c) {
    Up u;
    u.c = &c;
    u.page = c.oneof<size_t>({4096, 4096, 65536, 2u << 20});
    u.next = 0x100000000000ull + u.page * c.range(0, 5);
    u.adjacent = c.chance(1, 2);
    u.mergeAcross = c.chance(1, 2);
    bool fixed = c.chance(2, 5);
    bool withFree = !fixed && c.chance(1, 2);
    coarse_params_t pr;
    memset(&pr, 0, sizeof(pr));
    pr.provider = &u;
    pr.page_size = u.page;
    pr.allocation_strategy = (coarse_strategy_t)c.range(0, 2);
    pr.cb.alloc = fixed ? nullptr : up_alloc;
    pr.cb.free = withFree ? up_free : nullptr;
    pr.cb.split = up_split;
    pr.cb.merge = up_merge;
    coarse_t *cs = nullptr;
    umf_result_t r = coarse_new(&pr, &cs);
    PCHECK(c, r == UMF_RESULT_SUCCESS && cs, "new", "coarse_new: %s", rs(r));
    c.note("page=%zu strategy=%d fixed=%d free_cb=%d adjacent=%d", u.page, (int)pr.allocation_strategy, fixed, withFree,
           u.adjacent);
    bool faulty = c.chance(1, 3); // callbacks fail now and then

    std::map<uintptr_t, size_t> used; // the caller's blocks
    auto total = [&]() {
        size_t n = 0;
        for (auto &x : u.regions)
            n += x.second;
        return n;
    };
    auto usedBytes = [&]() {
        size_t n = 0;
        for (auto &x : used)
            n += x.second;
        return n;
    };
    auto addFixed = [&]() {
        size_t sz = c.chance(1, 2) ? u.page * c.range(1, 40) : c.range(1, u.page * 20);
        uintptr_t a = u.next + (c.chance(1, 4) ? c.range(0, u.page - 1) : 0);
        u.next = up(a + sz, u.page) + (u.adjacent ? 0 : u.page * c.range(1, 3));
        if (u.adjacent && c.chance(1, 2))
            u.next = a + sz;
        u.regions[a] = sz;
        u.part[a] = sz;
        umf_result_t r1 = coarse_add_memory_fixed(cs, (void *)a, sz);
        c.note("add_memory_fixed(%#zx, %zu): %s", (size_t)a, sz, rs(r1));
        PCHECK(c, r1 == UMF_RESULT_SUCCESS, "add", "adding memory failed: %s", rs(r1));
    };
    auto check = [&]() {
        coarse_stats_t st = coarse_get_stats(cs);
        PCHECK(c, st.used_size == usedBytes(), "stats.used", "used_size %zu, the live blocks add up to %zu", st.used_size,
               usedBytes());
        PCHECK(c, st.alloc_size == total(), "stats.alloc", "alloc_size %zu, the regions add up to %zu", st.alloc_size,
               total());
        PCHECK(c, st.num_all_blocks - st.num_free_blocks == used.size(), "stats.blocks",
               "%zu blocks, %zu free, but %zu are in use", st.num_all_blocks, st.num_free_blocks, used.size());
        PCHECK(c, st.num_all_blocks == u.part.size(), "stats.part",
               "%zu blocks, the upstream was left with %zu", st.num_all_blocks, u.part.size());
        // every used block is exactly one upstream block
        for (auto &x : used) {
            auto it = u.part.find(x.first);
            PCHECK(c, it != u.part.end() && it->second == x.second, "part.used",
                   "live block %#zx..+%zu is not a block of the upstream", (size_t)x.first, x.second);
        }
        // free neighbours are merged, except where the upstream refused
        {
            uintptr_t pe = 0, pstart = 0;
            bool pfree = false;
            for (auto &x : u.part) {
                bool fr = !used.count(x.first);
                if (pfree && fr && pe == x.first && !u.excused.count(x.first))
                    PCHECK(c, !u.mergeAcross && u.regionOf(x.first) != u.regionOf(pstart), "unmerged",
                           "free blocks %#zx and %#zx are adjacent but not merged", (size_t)pstart, (size_t)x.first);
                pfree = fr;
                pe = x.first + x.second;
                pstart = x.first;
            }
        }
    };
    auto maxFreeRun = [&]() {
        size_t m = 0;
        for (auto &x : u.part)
            if (!used.count(x.first))
                m = std::max(m, x.second);
        return m;
    };
    if (fixed)
        for (unsigned i = 0, n = (unsigned)c.range(1, 3); i < n; i++)
            addFixed();
    check();
    size_t cls = u.page * c.range(1, 4);
    unsigned nops = (unsigned)c.range(1, c.thorough ? 160 : 90);
    unsigned reused = 0, splits = 0, merges = 0, aligned = 0;
    std::vector<unsigned> wts = {(unsigned)c.range(2, 8), (unsigned)c.range(2, 8), 2, 2, 1, 1, 1};
    for (unsigned i = 0; i < nops; i++) {
        c.op();
        if (faulty)
            u.code = gen_error(c);
        u.failSplitIn = faulty && c.chance(1, 4) ? c.range(1, 3) : 0;
        u.failMergeIn = faulty && c.chance(1, 4) ? c.range(1, 2) : 0;
        u.failAllocIn = faulty && c.chance(1, 8) ? 1 : 0;
        switch (c.weighted(wts)) {
        case 0: {
            size_t s = c.chance(1, 2) ? cls : c.chance(1, 2) ? u.page * c.range(1, 16) : c.range(1, u.page * 8);
            size_t al = c.chance(1, 2) ? 0 : c.pow2(0, 24);
            size_t eff = std::max(al ? al : u.page, u.page);
            size_t run = maxFreeRun();
            uint64_t sf = u.splitFails, ua = u.allocs;
            uint64_t injAlloc = u.failAllocIn;
            void *p = nullptr;
            r = coarse_alloc(cs, s, al, &p);
            c.note("alloc(%zu,%zu)=%p %s", s, al, p, rs(r));
            if (r != UMF_RESULT_SUCCESS) {
                bool fits = run >= s + eff;
                PCHECK(c, u.splitFails != sf || injAlloc || (fixed && !fits), "alloc.fail",
                       "alloc(%zu,%zu) failed (%s) although %s", s, al, rs(r),
                       fixed ? "a free block is large enough" : "the upstream can provide memory");
                PCHECK(c, !fixed || u.splitFails != sf || r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "alloc.code",
                       "out of fixed memory is reported as %s", rs(r));
                break;
            }
            uintptr_t a = (uintptr_t)p;
            PCHECK(c, a % eff == 0, "align", "%p is not aligned to %zu", p, eff);
            bool inside = false;
            for (auto &g : u.regions)
                inside |= a >= g.first && a + s <= g.first + g.second;
            if (!inside && u.mergeAcross && u.adjacent)
                inside = u.part.count(a) && u.part[a] == s;
            PCHECK(c, inside, "outside", "%p..+%zu is not inside the managed memory", p, s);
            auto nx = used.upper_bound(a);
            PCHECK(c, (nx == used.end() || nx->first >= a + s) &&
                          (nx == used.begin() || std::prev(nx)->first + std::prev(nx)->second <= a),
                   "overlap", "%p..+%zu overlaps a live block", p, s);
            PCHECK(c, ua == u.allocs || run < s + eff, "alloc.upstream",
                   "alloc(%zu,%zu) took new upstream memory although a free block of %zu fits", s, al, run);
            if (ua == u.allocs)
                reused++;
            if (eff > u.page)
                aligned++;
            used[a] = s;
            break;
        }
        case 1: {
            if (used.empty())
                break;
            auto it = used.begin();
            std::advance(it, (long)c.index_of(used.size()));
            bool zero = c.chance(1, 3);
            u.excused.erase(it->first); // freeing has to try again
            u.excused.erase(it->first + it->second);
            r = coarse_free(cs, (void *)it->first, zero ? 0 : it->second);
            c.note("free(%#zx,%zu) %s", (size_t)it->first, zero ? 0 : it->second, rs(r));
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free", "free of a live block: %s", rs(r));
            used.erase(it);
            break;
        }
        case 2: { // split
            if (used.empty())
                break;
            auto it = used.begin();
            std::advance(it, (long)c.index_of(used.size()));
            if (it->second < 2)
                break;
            size_t first = c.chance(1, 2) && it->second > u.page ? u.page * c.range(1, (it->second - 1) / u.page)
                                                                 : c.range(1, it->second - 1);
            uint64_t sf = u.splitFails;
            r = coarse_split(cs, (void *)it->first, it->second, first);
            c.note("split(%#zx,%zu,%zu) %s", (size_t)it->first, it->second, first, rs(r));
            PCHECK(c, (r == UMF_RESULT_SUCCESS) == (u.splitFails == sf), "split", "split of a live block: %s", rs(r));
            if (r == UMF_RESULT_SUCCESS) {
                used[it->first + first] = it->second - first;
                it->second = first;
                splits++;
            }
            break;
        }
        case 3: { // merge two neighbours (if adjacent) or try two that are not
            if (used.size() < 2)
                break;
            auto it = used.begin();
            std::advance(it, (long)c.index_of(used.size() - 1));
            // prefer adjacent ones
            if (c.chance(3, 4)) {
                for (auto j = it; std::next(j) != used.end(); ++j)
                    if (j->first + j->second == std::next(j)->first) {
                        it = j;
                        break;
                    }
            }
            auto nx = std::next(it);
            bool adj = it->first + it->second == nx->first;
            bool wrongTotal = c.chance(1, 10);
            size_t tot = it->second + nx->second + (wrongTotal ? 1 : 0);
            uint64_t mf = u.mergeFails + u.crossRefused;
            r = coarse_merge(cs, (void *)it->first, (void *)nx->first, tot);
            c.note("merge(%#zx,%#zx,%zu) %s", (size_t)it->first, (size_t)nx->first, tot, rs(r));
            bool expect = adj && !wrongTotal && u.mergeFails + u.crossRefused == mf;
            PCHECK(c, (r == UMF_RESULT_SUCCESS) == expect, "merge", "merge (adjacent=%d, total %s): %s", adj,
                   wrongTotal ? "wrong" : "right", rs(r));
            if (expect) {
                it->second += nx->second;
                used.erase(nx);
                merges++;
            }
            break;
        }
        case 4: { // invalid requests change nothing
            unsigned k = (unsigned)c.range(0, 6);
            uintptr_t bad = 0x200000000000ull + c.range(0, 100);
            void *p = nullptr;
            switch (k) {
            case 0:
                r = coarse_free(cs, (void *)bad, 0);
                break;
            case 1: // double free / free of a free block
                for (auto &x : u.part)
                    if (!used.count(x.first)) {
                        bad = x.first;
                        break;
                    }
                r = coarse_free(cs, (void *)bad, 0);
                break;
            case 2:
                if (used.empty())
                    r = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                else
                    r = coarse_free(cs, (void *)used.begin()->first, used.begin()->second + c.range(1, 9));
                break;
            case 3:
                if (used.empty())
                    r = UMF_RESULT_ERROR_INVALID_ARGUMENT;
                else
                    r = coarse_split(cs, (void *)used.begin()->first, used.begin()->second + 1, 1);
                break;
            case 4:
                r = coarse_alloc(cs, u.page, 3 * c.range(1, 1000), &p);
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ALIGNMENT, "bad.align", "alignment not a power of two: %s", rs(r));
                break;
            case 5:
                r = coarse_alloc(cs, 0, u.page, &p);
                break;
            default:
                for (auto &x : u.part)
                    if (!used.count(x.first) && x.second > 1) {
                        r = coarse_split(cs, (void *)x.first, x.second, 1);
                        PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "bad.split.free", "split of a free block: %s", rs(r));
                        break;
                    }
                r = UMF_RESULT_ERROR_INVALID_ARGUMENT;
            }
            c.note("invalid request %u: %s", k, rs(r));
            PCHECK(c, r != UMF_RESULT_SUCCESS && valid_code(r), "bad", "invalid request %u returned %s", k, rs(r));
            if (k < 4)
                PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "bad.code", "invalid request %u returned %s", k, rs(r));
            break;
        }
        case 5:
            if (fixed) {
                if (u.regions.size() < 6)
                    addFixed();
            } else {
                u.failSplitIn = u.failMergeIn = u.failAllocIn = 0;
                size_t before = total();
                size_t sz = u.page * c.range(1, 8);
                r = coarse_add_memory_from_provider(cs, sz);
                PCHECK(c, r == UMF_RESULT_SUCCESS && (total() == before + sz || total() == before), "add.provider", "%s", rs(r));
                c.note("add_memory_from_provider(%zu)", sz);
            }
            break;
        case 6: {
            r = coarse_free(cs, nullptr, 0);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "free.null", "free(NULL): %s", rs(r));
            break;
        }
        }
        check();
    }
    u.failSplitIn = u.failMergeIn = u.failAllocIn = 0;
    if (c.chance(1, 2))
        for (auto it = used.begin(); it != used.end(); it = used.erase(it))
            PCHECK(c, coarse_free(cs, (void *)it->first, it->second) == UMF_RESULT_SUCCESS, "free.final", "final free");
    coarse_delete(cs);
    if (withFree)
        PCHECK(c, u.part.empty(), "delete.leak", "%zu upstream blocks were not freed", u.part.size());
    if (reused >= 2 && (splits || merges || aligned))
        c.nontrivial();
    c.label(fixed ? "fixed" : "growing");
    if (u.splitFails)
        c.label("split.failed");
    if (u.mergeFails)
        c.label("merge.failed");
    if (u.crossRefused)
        c.label("merge.refused");
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C06",
                         "histories of alloc/free/split/merge/add-memory/invalid requests on the block manager (all "
                         "strategies, fixed and growing, adjacent and scattered regions, failing callbacks) against a "
                         "partition model; non-trivial: at least two allocations from recycled blocks and a split, "
                         "merge or over-aligned allocation",
                         {{"coarse", coarse, 60000, 700000}});
}

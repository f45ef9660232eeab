// C08: the fixed provider hands out exactly the user's buffer.
#include "cprov.hpp"
#include <atomic>
#include <thread>
using namespace h;

static umf_memory_provider_handle_t make_fixed(Ctx &c, void *base, size_t size) {
    umf_fixed_memory_provider_params_handle_t hp = nullptr;
    umf_result_t r = umfFixedMemoryProviderParamsCreate(&hp, base, size);
    PCHECK(c, r == UMF_RESULT_SUCCESS && hp, "params", "params: %s", rs(r));
    umf_memory_provider_handle_t p = nullptr;
    r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), hp, &p);
    PCHECK(c, r == UMF_RESULT_SUCCESS && p, "create", "create over a buffer of %zu bytes: %s", size, rs(r));
    // the provider must not depend on the params afterwards
    umfFixedMemoryProviderParamsDestroy(hp);
    return p;
}

static void fixed(Ctx &c) {
    CProv f(c);
    f.region = true;
    f.purged = CProv::Zero;
    size_t size = c.chance(1, 2) ? 4096 * c.range(1, 600) : c.range(1, 2u << 20);
    size_t skew = c.chance(1, 3) ? c.range(1, 4095) : 0;
    size_t room = up(size + skew, 4096);
    // guard pages on both sides; the slack inside the outer pages holds a pattern
    unsigned char *m = (unsigned char *)mmap(nullptr, room + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(m + 4096, room, PROT_READ | PROT_WRITE);
    unsigned char *base = m + 4096 + skew;
    memset(m + 4096, 0x5a, skew);
    memset(base + size, 0x5a, room - skew - size);
    f.lo = (uintptr_t)base;
    f.hi = f.lo + size;
    f.maxReq = std::max<size_t>(size / c.range(1, 6), 1);
    c.note("buffer %p..+%zu", base, size);
    f.p = make_fixed(c, base, size);
    PCHECK(c, !strcmp(umfMemoryProviderGetName(f.p), "FIXED"), "name", "name");
    f.history((unsigned)c.range(4, c.thorough ? 200 : 100));
    // free everything: the whole buffer must be available again as one block
    f.freeAll();
    uintptr_t st = up(f.lo, 4096);
    // an unaligned buffer: the block manager looks for size + alignment
    size_t s = skew ? (size > 4096 ? size - 4096 : 0) : size;
    if (s) {
        void *q = nullptr;
        umf_result_t r = umfMemoryProviderAlloc(f.p, s, 0, &q);
        PCHECK(c, r == UMF_RESULT_SUCCESS && (uintptr_t)q == st, "whole",
               "after freeing everything, allocating the whole buffer (%zu) gives %p %s", s, q, rs(r));
        memset(q, 0x11, s);
        PCHECK(c, umfMemoryProviderFree(f.p, q, s) == UMF_RESULT_SUCCESS, "whole.free", "free");
    }
    umfMemoryProviderDestroy(f.p);
    for (size_t i = 0; i < skew; i++)
        PCHECK(c, m[4096 + i] == 0x5a, "slack", "a byte before the buffer was changed");
    for (size_t i = skew + size; i < room; i++)
        PCHECK(c, m[4096 + i] == 0x5a, "slack", "a byte after the buffer was changed");
    if (f.reused >= 2 && (f.splits || f.merges || f.aligned))
        c.nontrivial();
    if (f.exhausted)
        c.label("exhausted");
    if (skew)
        c.label("unaligned buffer");
    if (f.merges)
        c.label("merge");
}

// any history drains back: fill the buffer with blocks of one size until it
// is exhausted: no byte is lost to bookkeeping
static void drain(Ctx &c) {
    size_t pages = c.range(1, 200);
    unsigned char *base = (unsigned char *)mmap(nullptr, pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    CProv f(c);
    f.region = true;
    f.lo = (uintptr_t)base;
    f.hi = f.lo + pages * 4096;
    f.purged = CProv::Zero;
    f.maxReq = pages * 2048;
    f.p = make_fixed(c, base, pages * 4096);
    f.history((unsigned)c.range(0, 40));
    f.freeAll();
    size_t bs = 4096 * c.range(1, 8), n = 0;
    void *q;
    std::vector<void *> v;
    while (umfMemoryProviderAlloc(f.p, bs, 0, &q) == UMF_RESULT_SUCCESS) {
        PCHECK(c, (uintptr_t)q >= f.lo && (uintptr_t)q + bs <= f.hi, "outside", "%p..+%zu outside", q, bs);
        memset(q, (int)n, bs);
        v.push_back(q);
        PCHECK(c, ++n <= pages, "toomany", "more blocks than the buffer holds");
    }
    PCHECK(c, n == pages * 4096 / bs, "drain", "%zu blocks of %zu bytes from a buffer of %zu", n, bs, pages * 4096);
    for (size_t i = 0; i < n; i++)
        PCHECK(c, *(unsigned char *)v[i] == (unsigned char)i && ((unsigned char *)v[i])[bs - 1] == (unsigned char)i, "drain.alias",
               "blocks %zu alias", i);
    // free in random order
    while (!v.empty()) {
        size_t k = c.index_of(v.size());
        PCHECK(c, umfMemoryProviderFree(f.p, v[k], bs) == UMF_RESULT_SUCCESS, "drain.free", "free");
        v.erase(v.begin() + (long)k);
    }
    umf_result_t r = umfMemoryProviderAlloc(f.p, pages * 4096, 0, &q);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "drain.whole", "whole buffer after a drain: %s", rs(r));
    umfMemoryProviderFree(f.p, q, pages * 4096);
    umfMemoryProviderDestroy(f.p);
    if (n >= 3 && f.reused)
        c.nontrivial();
}

// several threads on one provider
static void conc(Ctx &c) {
    size_t pages = c.range(30, 300);
    unsigned char *base = (unsigned char *)mmap(nullptr, pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    umf_memory_provider_handle_t p = make_fixed(c, base, pages * 4096);
    unsigned nt = (unsigned)c.range(2, 4), nops = (unsigned)c.range(30, 150);
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < nt; i++)
        seeds.push_back(c.range(0, UINT32_MAX));
    std::vector<std::thread> ts;
    std::atomic<int> go{0};
    for (unsigned t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            uint64_t x = h::mixu(seeds[t] + 1);
            auto rnd = [&](uint64_t n) { return (x = h::mixu(x + 0x9e3779b97f4a7c15ull)) % n; };
            std::vector<std::pair<char *, size_t>> v;
            go++;
            while (go.load() < (int)nt)
                ;
            for (unsigned i = 0; i < nops; i++) {
                unsigned k = (unsigned)rnd(8);
                if (k < 4 || v.empty()) {
                    size_t s = 4096 * (1 + rnd(4));
                    void *q = nullptr;
                    if (umfMemoryProviderAlloc(p, s, rnd(3) ? 0 : 8192, &q) == UMF_RESULT_SUCCESS) {
                        memset(q, (int)t + 1, s);
                        v.push_back({(char *)q, s});
                    }
                } else {
                    size_t j = rnd(v.size());
                    auto [q, s] = v[j];
                    for (size_t b = 0; b < s; b += 509)
                        PCHECK(c, q[b] == (char)(t + 1), "conc.content", "thread %u: its block was overwritten", t);
                    if (k == 4 && s > 4096) {
                        size_t f = 4096 * (1 + rnd(s / 4096 - 1));
                        umf_result_t r = umfMemoryProviderAllocationSplit(p, q, s, f);
                        PCHECK(c, r == UMF_RESULT_SUCCESS, "conc.split", "split: %s", rs(r));
                        v[j].second = f;
                        v.push_back({q + f, s - f});
                        if (rnd(2)) {
                            r = umfMemoryProviderAllocationMerge(p, q, q + f, s);
                            PCHECK(c, r == UMF_RESULT_SUCCESS, "conc.merge", "merge: %s", rs(r));
                            v[j].second = s;
                            v.pop_back();
                        }
                    } else {
                        umf_result_t r = umfMemoryProviderFree(p, q, s);
                        PCHECK(c, r == UMF_RESULT_SUCCESS, "conc.free", "free: %s", rs(r));
                        v.erase(v.begin() + (long)j);
                    }
                }
            }
            for (auto &b : v)
                PCHECK(c, umfMemoryProviderFree(p, b.first, b.second) == UMF_RESULT_SUCCESS, "conc.free", "free");
        });
    for (auto &t : ts)
        t.join();
    void *q;
    umf_result_t r = umfMemoryProviderAlloc(p, pages * 4096, 0, &q);
    PCHECK(c, r == UMF_RESULT_SUCCESS && q == base, "conc.whole", "whole buffer after all threads freed: %s", rs(r));
    umfMemoryProviderFree(p, q, pages * 4096);
    umfMemoryProviderDestroy(p);
    for (unsigned i = 0; i < nt * nops; i++)
        c.op();
    c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C08",
                         "histories of alloc/free/split/merge/purge/invalid requests on a fixed provider over a guarded buffer of "
                         "any base and size, drains of the buffer, and several threads; non-trivial: at least two reused blocks and "
                         "a split, merge or over-aligned allocation",
                         {{"fixed", fixed, 30000, 400000}, {"drain", drain, 8000, 100000}, {"conc", conc, 600, 20000, 60, true}});
}

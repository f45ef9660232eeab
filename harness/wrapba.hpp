// Stand-ins for the base allocator's general entry points (linked with --wrap):
// count what is alive and can refuse the k-th next request. With WBA_POOLS also
// its pools of fixed-size entries.
#pragma once
#include <atomic>
#include <cstddef>
extern "C" {
void *__real_umf_ba_global_alloc(size_t);
void *__real_umf_ba_global_aligned_alloc(size_t, size_t);
void __real_umf_ba_global_free(void *);
}
namespace ba {
inline std::atomic<long> live{0};
inline std::atomic<long> failIn{0}; // 1: the next one
inline std::atomic<long> failed{0}, calls{0};
inline thread_local int depth = 0; // inside the general allocator
inline void *pools[256];
inline bool refuse() {
    calls++;
    if (failIn.load() > 0 && failIn.fetch_sub(1) == 1) {
        failed++;
        return true;
    }
    return false;
}
} // namespace ba
#ifdef BA_DEBUG // who allocated what is left: scan the log for unmatched addresses
#include <cstdio>
#include <execinfo.h>
inline void ba_trace(const char *w, void *p) {
    void *b[8];
    int n = backtrace(b, 8);
    static FILE *f = fopen(BA_DEBUG, "a");
    if (!p)
        return;
    fprintf(f, "BA %s %p", w, p);
    for (int i = 2; i < n; i++)
        fprintf(f, " %p", b[i]);
    fprintf(f, "\n");
    fflush(f);
}
#else
inline void ba_trace(const char *, void *) {}
#endif
extern "C" inline void *ba_wrapped(void *p) {
    ba_trace("+", p);
    if (p)
        ba::live++;
    return p;
}
extern "C" void *__wrap_umf_ba_global_alloc(size_t n) {
    if (ba::refuse())
        return nullptr;
    ba::depth++;
    void *p = ba_wrapped(__real_umf_ba_global_alloc(n));
    ba::depth--;
    return p;
}
extern "C" void *__wrap_umf_ba_global_aligned_alloc(size_t n, size_t a) {
    if (ba::refuse())
        return nullptr;
    ba::depth++;
    void *p = ba_wrapped(__real_umf_ba_global_aligned_alloc(n, a));
    ba::depth--;
    return p;
}
extern "C" void __wrap_umf_ba_global_free(void *p) {
    if (p)
        ba_trace("-", p), ba::live--;
    ba::depth++;
    __real_umf_ba_global_free(p);
    ba::depth--;
}
#ifdef WBA_POOLS
extern "C" {
struct umf_ba_pool;
void *__real_umf_ba_alloc(umf_ba_pool *);
void __real_umf_ba_free(umf_ba_pool *, void *);
umf_ba_pool *__real_umf_ba_create(size_t);
void __real_umf_ba_destroy(umf_ba_pool *);
// pools are counted, too; the general allocator's own are not
umf_ba_pool *__wrap_umf_ba_create(size_t n) {
    if (ba::depth)
        return __real_umf_ba_create(n);
    if (ba::refuse())
        return nullptr;
    umf_ba_pool *p = __real_umf_ba_create(n);
    for (auto &s : ba::pools)
        if (p && !s) {
            s = p;
            ba_wrapped(p);
            break;
        }
    return p;
}
void __wrap_umf_ba_destroy(umf_ba_pool *p) {
    for (auto &s : ba::pools)
        if (p && s == p) {
            s = nullptr;
            ba::live--;
            ba_trace("-", p);
            break;
        }
    __real_umf_ba_destroy(p);
}
void *__wrap_umf_ba_alloc(umf_ba_pool *p) {
    if (ba::depth)
        return __real_umf_ba_alloc(p);
    return ba::refuse() ? nullptr : ba_wrapped(__real_umf_ba_alloc(p));
}
void __wrap_umf_ba_free(umf_ba_pool *p, void *x) {
    if (!ba::depth && x)
        ba::live--, ba_trace("-", x);
    __real_umf_ba_free(p, x);
}
}
#endif

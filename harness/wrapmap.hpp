// Stand-ins for mmap/munmap (linked with --wrap): record the mappings the
// code under test makes and can make the k-th next one fail.
#pragma once
#include <algorithm>
#include <cerrno>
#include <map>
#include <mutex>
#include <sys/mman.h>
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
}
namespace wm {
inline std::mutex mx;
inline bool on = false;
inline std::map<uintptr_t, size_t> maps; // live, page granular
inline uint64_t nmap = 0, nunmap = 0, nfailed = 0;
inline uint64_t failIn = 0; // fail the k-th next anonymous mapping
inline bool failAll = false;
inline uint64_t failUnmapIn = 0; // fail the k-th next unmapping
inline uint64_t badUnmap = 0;
inline size_t liveBytes = 0;
inline bool dax = false; // files are on a DAX file system: synchronous mappings exist, in huge pages
inline std::map<uintptr_t, size_t> fileMaps; // live mappings of files, page granular
// cut [p, e) out of the records of m; the bytes that went
inline size_t cut(std::map<uintptr_t, size_t> &m, uintptr_t p, uintptr_t e) {
    size_t gone = 0;
    auto it = m.upper_bound(p);
    if (it != m.begin())
        --it;
    while (it != m.end() && it->first < e) {
        uintptr_t s = it->first, t = s + it->second;
        if (t <= p) {
            ++it;
            continue;
        }
        gone += std::min(t, e) - std::max(s, p);
        it = m.erase(it);
        if (s < p)
            m[s] = p - s;
        if (t > e)
            it = std::next(m.emplace(e, t - e).first);
    }
    return gone;
}
inline bool covered(uintptr_t p, size_t n) {
    auto it = maps.upper_bound(p);
    while (n) {
        if (it == maps.begin())
            return false;
        auto q = std::prev(it);
        if (q->first + q->second <= p)
            return false;
        size_t k = q->first + q->second - p;
        if (k >= n)
            return true;
        p += k;
        n -= k;
        it = maps.upper_bound(p);
    }
    return true;
}
} // namespace wm
extern "C" inline void *wm_map(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (!wm::on)
        return __real_mmap(a, n, pr, fl, fd, o);
    std::lock_guard<std::mutex> g(wm::mx);
    if (wm::failAll || (wm::failIn && --wm::failIn == 0)) {
        wm::nfailed++;
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *p;
    if (wm::dax && fd >= 0 && (fl & 0x80000 /* MAP_SYNC */)) {
        const size_t H = 2u << 20;
        char *r = (char *)__real_mmap(nullptr, n + H, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        char *q = (char *)(((uintptr_t)r + H - 1) & ~(uintptr_t)(H - 1));
        size_t l = (n + 4095) & ~4095ul;
        if (q > r)
            __real_munmap(r, (size_t)(q - r));
        __real_munmap(q + l, (size_t)(r + ((n + H + 4095) & ~4095ul) - (q + l)));
        p = __real_mmap(q, n, pr, (fl & ~(0x80000 | MAP_TYPE)) | MAP_SHARED | MAP_FIXED, fd, o);
    } else
        p = __real_mmap(a, n, pr, fl, fd, o);
    if (p != MAP_FAILED) {
        wm::nmap++;
        size_t l = (n + 4095) & ~4095ul;
        if (fd >= 0)
            wm::fileMaps[(uintptr_t)p] = l;
        if (!(fl & MAP_FIXED)) {
            wm::maps[(uintptr_t)p] = l;
            wm::liveBytes += l;
        }
    }
    return p;
}
extern "C" inline int wm_unmap(void *a, size_t n) {
    if (!wm::on)
        return __real_munmap(a, n);
    std::lock_guard<std::mutex> g(wm::mx);
    size_t l = (n + 4095) & ~4095ul;
    uintptr_t p = (uintptr_t)a, e = p + l;
    if (wm::failUnmapIn && --wm::failUnmapIn == 0) {
        wm::nfailed++;
        errno = ENOMEM;
        return -1;
    }
    if (!wm::covered(p, l))
        wm::badUnmap++;
    wm::cut(wm::fileMaps, p, e);
    wm::liveBytes -= wm::cut(wm::maps, p, e);
    wm::nunmap++;
    return __real_munmap(a, n);
}
#ifndef WM_NO_DEFS
extern "C" void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return wm_map(a, n, pr, fl, fd, o); }
extern "C" int __wrap_munmap(void *a, size_t n) { return wm_unmap(a, n); }
#endif

// C28: the devdax provider over a stand-in for /dev/dax (open, stat, mmap and
// munmap replaced): 2 MB granular, mappings with MAP_SYNC.
#define WM_NO_DEFS
#include "cprov.hpp"
using namespace h;

static int dfd = -1;           // the device's memory
static size_t dsize = 0;
static bool isDax = true, isChr = true, present = true;
static uint64_t failMapIn = 0, dmaps = 0;
static std::map<uintptr_t, size_t> dlive; // mappings of the device
static std::string bad;        // a request a device would refuse
static const size_t M2 = 2u << 20;
static std::set<int> dfds;     // open descriptors of the device
static uint64_t opens = 0;

extern "C" {
int __real_open(const char *, int, ...);
int __real_close(int);
int __real_stat(const char *, struct stat *);
int __wrap_open(const char *path, int fl, int mode) {
    if (strncmp(path, "/dev/dax", 8))
        return __real_open(path, fl, mode);
    if (!present) {
        errno = ENOENT;
        return -1;
    }
    opens++;
    int fd = dup(dfd);
    dfds.insert(fd);
    return fd;
}
int __wrap_close(int fd) {
    dfds.erase(fd);
    return __real_close(fd);
}
int __wrap_stat(const char *path, struct stat *st) {
    if (strncmp(path, "/dev/dax", 8))
        return __real_stat(path, st);
    memset(st, 0, sizeof *st);
    st->st_mode = (isChr ? S_IFCHR : S_IFREG) | 0600;
    return 0;
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (fd < 0 || !dfds.count(fd))
        return __real_mmap(a, n, pr, fl, fd, o);
    if ((fl & MAP_SYNC) && !isDax) {
        errno = EOPNOTSUPP;
        return MAP_FAILED;
    }
    if (failMapIn && --failMapIn == 0) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    if (o % (off_t)M2 || n == 0 || (size_t)o + n > dsize) {
        errno = EINVAL;
        return MAP_FAILED;
    }
    if (!(fl & (MAP_SHARED | MAP_SHARED_VALIDATE)) || a) {
        errno = EINVAL;
        return MAP_FAILED;
    }
    // device mappings are 2 MB aligned
    size_t len = up(n, M2);
    char *m = (char *)__real_mmap(nullptr, len + M2, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char *al = (char *)up((size_t)m, M2);
    if (al > m)
        __real_munmap(m, (size_t)(al - m));
    __real_munmap(al + len, (size_t)(m + len + M2 - (al + len)));
    void *r = __real_mmap(al, n, pr, MAP_SHARED | MAP_FIXED, fd, o);
    if (r == MAP_FAILED)
        return r;
    dmaps++;
    dlive[(uintptr_t)r] = n;
    return r;
}
int __wrap_munmap(void *a, size_t n) {
    auto it = dlive.find((uintptr_t)a);
    if (it != dlive.end()) {
        if (up(it->second, M2) != up(n, M2) || n % M2) {
            if (n != it->second) {
                bad = "munmap of a part of a device mapping";
            }
        }
        dlive.erase(it);
    } else {
        for (auto &x : dlive)
            if ((uintptr_t)a < x.first + x.second && (uintptr_t)a + n > x.first)
                bad = "munmap inside a device mapping";
    }
    return __real_munmap(a, n);
}
}

static umf_result_t make_dax(Ctx &c, const char *path, size_t size, unsigned prot, umf_memory_provider_handle_t *out) {
    umf_devdax_memory_provider_params_handle_t hp = nullptr;
    umf_result_t r = umfDevDaxMemoryProviderParamsCreate(&hp, path, size);
    PCHECK(c, r == UMF_RESULT_SUCCESS && hp, "params", "params: %s", rs(r));
    r = umfDevDaxMemoryProviderParamsSetProtection(hp, prot);
    if (r == UMF_RESULT_SUCCESS)
        r = umfMemoryProviderCreate(umfDevDaxMemoryProviderOps(), hp, out);
    umfDevDaxMemoryProviderParamsDestroy(hp);
    return r;
}
static void device(Ctx &c, size_t n) {
    std::string f = std::string(c.scratch) + "/dax";
    dfd = __real_open(f.c_str(), O_RDWR | O_CREAT, 0600);
    PCHECK(c, dfd >= 0 && ftruncate(dfd, (off_t)n) == 0, "setup", "stand-in device");
    dsize = n;
}

static void devdax(Ctx &c) {
    no_stdin(c);
    size_t pages = c.range(1, 24);
    device(c, pages * M2);
    CProv f(c);
    unsigned prot = c.chance(5, 6) ? (UMF_PROTECTION_READ | UMF_PROTECTION_WRITE) : UMF_PROTECTION_READ;
    f.writable = prot & UMF_PROTECTION_WRITE;
    size_t size = c.range(1, pages) * M2;
    unsigned fds = open_fds();
    umf_result_t r = make_dax(c, "/dev/dax0.0", size, prot, &f.p);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "create", "create: %s", rs(r));
    PCHECK(c, dlive.size() == 1 && dlive.begin()->second == size, "map", "the device is not mapped once as a whole");
    PCHECK(c, open_fds() == fds && dfds.empty(), "fds", "the device stays open");
    PCHECK(c, !strcmp(umfMemoryProviderGetName(f.p), "DEVDAX"), "name", "name");
    f.region = true;
    f.page = M2;
    f.purged = CProv::Keep;
    f.lo = dlive.begin()->first;
    f.hi = f.lo + size;
    f.maxReq = size;
    f.history((unsigned)c.range(4, c.thorough ? 120 : 60));
    // the contents are in the device, at the address's offset
    if (f.writable)
        for (auto &x : f.live) {
            std::string b(std::min<size_t>(x.second.size, 16384), 0);
            PCHECK(c, pread(dfd, &b[0], b.size(), (off_t)(x.first - f.lo)) == (ssize_t)b.size(), "pread", "pread");
            PCHECK(c, !memcmp(b.data(), (void *)x.first, b.size()), "persist", "the device does not hold the contents of %#zx", (size_t)x.first);
        }
    unsigned nipc = 0;
    // IPC: what is opened from a handle is the same memory
    for (unsigned i = 0, n = (unsigned)c.range(0, 4); i < n && !f.live.empty(); i++) {
        uintptr_t a = f.pickBlk();
        if ((a - f.lo) % M2) // the device can be mapped only at its granularity
            continue;
        size_t bs = f.live[a].size, hs = 0;
        r = umfMemoryProviderGetIPCHandleSize(f.p, &hs);
        PCHECK(c, r == UMF_RESULT_SUCCESS && hs, "ipc.size", "%s", rs(r));
        std::vector<char> hd(hs);
        r = umfMemoryProviderGetIPCHandle(f.p, (void *)a, bs, hd.data());
        PCHECK(c, r == UMF_RESULT_SUCCESS, "ipc.get", "get: %s", rs(r));
        void *q = nullptr;
        bool inj = c.chance(1, 5);
        failMapIn = inj;
        size_t before = dlive.size();
        r = umfMemoryProviderOpenIPCHandle(f.p, hd.data(), &q);
        failMapIn = 0;
        if (inj) {
            PCHECK(c, r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC && dlive.size() == before && dfds.empty(), "ipc.open.fail", "failed open: %s", rs(r));
            const char *msg = nullptr;
            int32_t e = 0;
            umfMemoryProviderGetLastNativeError(f.p, &msg, &e);
            PCHECK(c, msg && strstr(msg, "alloc") && e, "ipc.native", "native error %d %s", e, msg ? msg : "NULL");
            continue;
        }
        PCHECK(c, r == UMF_RESULT_SUCCESS && q, "ipc.open", "open: %s", rs(r));
        PCHECK(c, dfds.empty(), "ipc.fd", "opening a handle leaves the device open");
        PCHECK(c, !memcmp(q, (void *)a, bs), "ipc.content", "the opened memory differs from the block");
        if (f.writable) {
            ((char *)q)[bs - 1] ^= 0x55;
            PCHECK(c, ((char *)q)[bs - 1] == ((char *)a)[bs - 1], "ipc.alias", "a write through the opened memory is not seen");
            ((char *)q)[bs - 1] ^= 0x55;
        }
        r = umfMemoryProviderCloseIPCHandle(f.p, q, bs);
        PCHECK(c, r == UMF_RESULT_SUCCESS && dlive.size() == before && bad.empty(), "ipc.close", "close: %s %s", rs(r), bad.c_str());
        r = umfMemoryProviderPutIPCHandle(f.p, hd.data());
        PCHECK(c, r == UMF_RESULT_SUCCESS, "ipc.put", "put: %s", rs(r));
        nipc++;
    }
    for (auto &x : f.live)
        f.verifyBlk(x.first, x.second, "after IPC");
    f.freeAll();
    void *q = nullptr;
    r = umfMemoryProviderAlloc(f.p, size, 0, &q);
    PCHECK(c, r == UMF_RESULT_SUCCESS && (uintptr_t)q == f.lo, "whole", "the whole device after freeing everything: %s", rs(r));
    umfMemoryProviderFree(f.p, q, size);
    umfMemoryProviderDestroy(f.p);
    PCHECK(c, dlive.empty() && bad.empty(), "unmap", "the device stays mapped %s", bad.c_str());
    if (f.reused >= 1 && (f.splits || f.merges || f.aligned))
        c.nontrivial();
    if (nipc)
        c.label("ipc");
    if (f.exhausted)
        c.label("exhausted");
}

static void create(Ctx &c) {
    device(c, c.range(1, 4) * M2);
    unsigned fds = open_fds();
    for (unsigned i = 0, n = (unsigned)c.range(1, 5); i < n; i++) {
        c.op();
        std::string path = "/dev/dax0.0";
        unsigned prot = UMF_PROTECTION_READ | UMF_PROTECTION_WRITE;
        size_t size = dsize;
        umf_result_t want = UMF_RESULT_SUCCESS;
        isDax = isChr = present = true;
        failMapIn = 0;
        unsigned k = (unsigned)c.range(0, 8);
        switch (k) {
        case 0:
            path = c.oneof<const char *>({"/dev/da", "dev/dax0.0", "/tmp//dev/dax", " /dev/dax0.0", "/dev/Dax"});
            want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
            break;
        case 1:
            present = false;
            want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
            break;
        case 2:
            isChr = false;
            want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
            break;
        case 3:
            isDax = false;
            want = UMF_RESULT_ERROR_UNKNOWN;
            break;
        case 4:
            failMapIn = 1;
            want = UMF_RESULT_ERROR_UNKNOWN;
            break;
        case 5:
            prot = c.oneof<unsigned>({0x100, 16 | 1, 0x80000000u});
            want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
            break;
        case 6:
            path += std::string(4096 - path.size() + c.range(0, 20), 'x');
            want = UMF_RESULT_ERROR_INVALID_ARGUMENT;
            break;
        case 7:
            size = dsize + M2 * c.range(1, 100);
            want = UMF_RESULT_ERROR_UNKNOWN;
            break;
        }
        umf_memory_provider_handle_t p = nullptr;
        umf_result_t r = make_dax(c, path.c_str(), size, prot, &p);
        c.note("case %u: %s", k, rs(r));
        PCHECK(c, r == want, "create", "case %u: %s, expected %s", k, rs(r), rs(want));
        if (r == UMF_RESULT_SUCCESS) {
            void *q = nullptr;
            PCHECK(c, umfMemoryProviderAlloc(p, size, 0, &q) == UMF_RESULT_SUCCESS, "alloc", "alloc");
            umfMemoryProviderDestroy(p);
        }
        PCHECK(c, dlive.empty() && bad.empty(), "unmap", "case %u: the device stays mapped %s", k, bad.c_str());
        PCHECK(c, dfds.empty() && open_fds() == fds, "fds", "case %u: the device stays open", k);
    }
    c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C28",
                         "histories of alloc/free/split/merge/purge/IPC/invalid requests on a devdax provider over a stand-in "
                         "device, and creation with every kind of unusable device; non-trivial: a reused block and a split, merge "
                         "or over-aligned allocation (create: all)",
                         {{"devdax", devdax, 8000, 100000}, {"create", create, 4000, 40000}});
}

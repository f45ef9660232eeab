// C09: the file provider.  Histories as for the other coarse-backed
// providers, with refused mappings and file growth; what is in a shared
// block is in the file, what is in a private one is not.
#include <atomic>
#include "cprov.hpp"
#include <thread>
using namespace h;

extern "C" int __real_posix_fallocate(int, off_t, off_t);
static uint64_t failGrowIn = 0;
static uint64_t growFails = 0;
extern "C" int __wrap_posix_fallocate(int fd, off_t o, off_t n) {
    if (failGrowIn && --failGrowIn == 0) {
        growFails++;
        return ENOSPC;
    }
    return __real_posix_fallocate(fd, o, n);
}

static std::string slurp(const std::string &f) {
    std::string s;
    FILE *h = fopen(f.c_str(), "rb");
    if (!h)
        return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, h)))
        s.append(b, n);
    fclose(h);
    return s;
}

struct FileOpt {
    bool shared;
    unsigned prot;
};
static umf_memory_provider_handle_t make_file(Ctx &c, const std::string &path, FileOpt o) {
    umf_file_memory_provider_params_handle_t hp = nullptr;
    umf_result_t r = umfFileMemoryProviderParamsCreate(&hp, path.c_str());
    PCHECK(c, r == UMF_RESULT_SUCCESS, "params", "params: %s", rs(r));
    umfFileMemoryProviderParamsSetVisibility(hp, o.shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
    umfFileMemoryProviderParamsSetProtection(hp, o.prot);
    umf_memory_provider_handle_t p = nullptr;
    r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), hp, &p);
    PCHECK(c, r == UMF_RESULT_SUCCESS && p, "create", "create: %s", rs(r));
    umfFileMemoryProviderParamsDestroy(hp);
    return p;
}

static void file(Ctx &c) {
    no_stdin(c);
    CProv f(c);
    std::string path = std::string(c.scratch) + "/data";
    FileOpt o;
    o.shared = c.chance(1, 2);
    o.prot = c.chance(5, 6) ? (UMF_PROTECTION_READ | UMF_PROTECTION_WRITE) : c.oneof<unsigned>({UMF_PROTECTION_READ, UMF_PROTECTION_READ | UMF_PROTECTION_EXEC, UMF_PROTECTION_READ | UMF_PROTECTION_WRITE | UMF_PROTECTION_EXEC});
    f.writable = o.prot & UMF_PROTECTION_WRITE;
    if (c.chance(1, 3)) { // the file exists already
        FILE *h = fopen(path.c_str(), "wb");
        std::string junk(c.size(5 << 20), 'j');
        fwrite(junk.data(), 1, junk.size(), h);
        fclose(h);
        c.label("existing file");
    }
    f.budget = 24u << 20;
    f.maxReq = c.oneof<size_t>({8192, 65536, 1 << 20});
    f.purged = o.shared ? CProv::Keep : CProv::Any;
    unsigned fds = open_fds();
    wm::on = true;
    wm::dax = c.chance(1, 10);
    f.p = make_file(c, path, o);
    f.page = wm::dax && o.shared ? 2u << 20 : 4096;
    if (f.page > 4096) {
        f.budget = 96u << 20;
        f.maxReq = 3u << 20;
        c.label("dax");
    }
    size_t ps = 0;
    PCHECK(c, umfMemoryProviderGetMinPageSize(f.p, nullptr, &ps) == UMF_RESULT_SUCCESS && ps == f.page, "page", "minimum page size %zu, expected %zu", ps, f.page);
    bool faulty = c.chance(1, 3);
    uint64_t base = 0;
    f.arm = [&] {
        if (!faulty || !c.chance(1, 4))
            return false;
        base = wm::nfailed + growFails;
        if (c.chance(1, 2))
            wm::failIn = 1;
        else
            failGrowIn = 1;
        return true;
    };
    f.fired = [&] {
        wm::failIn = failGrowIn = 0;
        return wm::nfailed + growFails != base;
    };
    c.note("shared=%d prot=%u faulty=%d", o.shared, o.prot, faulty);
    f.history((unsigned)c.range(4, f.page > 4096 ? 24 : c.thorough ? 120 : 60));
    if (!f.live.empty()) {
        Probe pr;
        uintptr_t a = f.pickBlk();
        char *q = (char *)a + c.range(0, f.live[a].size - 1);
        PCHECK(c, pr.readable(q), "prot.read", "memory is not readable");
        char keep = *q;
        bool w = pr.writable(q);
        PCHECK(c, w == f.writable, "prot.write", "memory writable: %d, asked for protection %u", w, o.prot);
        if (w)
            *q = keep;
    }
    // magic values into up to 8 blocks
    struct Mg {
        uintptr_t a;
        size_t n;
        std::string img;
    };
    std::vector<Mg> mg;
    if (f.writable)
        for (unsigned i = 0; i < 8 && !f.live.empty(); i++) {
            uintptr_t a = f.pickBlk();
            size_t n = f.live[a].size;
            if (n < 32)
                continue;
            bool dup = false;
            for (auto &x : mg)
                dup |= x.a == a;
            if (dup)
                continue;
            uint64_t v[4] = {0xfeedfacecafe0000ull + i, h::mixu(i + 77), h::mixu(a), ~h::mixu(i + 99)};
            memcpy((void *)a, v, 32);
            mg.push_back({a, n, std::string((char *)a, n)});
        }
    umfMemoryProviderDestroy(f.p);
    PCHECK(c, wm::fileMaps.empty(), "maps", "%zu mappings of the file were not removed", wm::fileMaps.size());
    wm::on = false;
    PCHECK(c, open_fds() == fds, "fds", "%u open files, %u before", open_fds(), fds);
    if (f.writable) {
        std::string all = slurp(path);
        size_t found = 0;
        std::map<size_t, size_t> at;
        for (auto &x : mg) {
            size_t k = all.find(x.img.substr(0, 32));
            if (!o.shared) {
                PCHECK(c, k == std::string::npos, "private", "what was written to private memory is in the file");
                continue;
            }
            PCHECK(c, k != std::string::npos, "persist", "what was written to the shared block %#zx..+%zu is not in the file", (size_t)x.a, x.n);
            PCHECK(c, k % f.page == x.a % f.page, "persist.offset", "file offset %zu of address %#zx", k, (size_t)x.a);
            PCHECK(c, all.compare(k, x.n, x.img) == 0, "persist.content", "the file does not hold the contents of block %#zx..+%zu at %zu", (size_t)x.a, x.n, k);
            for (auto &y : at)
                PCHECK(c, k + x.n <= y.first || y.first + y.second <= k, "persist.overlap", "two blocks overlap in the file");
            at[k] = x.n;
            found++;
        }
        if (found)
            c.label("persistence checked");
    }
    if (f.reused >= 1 && (f.splits || f.merges || f.aligned))
        c.nontrivial();
    if (f.faults)
        c.label("fault");
    c.label(o.shared ? "shared" : "private");
}

// the size of the file cannot be had, or not set
static int refuseSize = 0; // 1 fstat, 2 ftruncate
static unsigned sizeRefused = 0;
extern "C" {
int __real_fstat(int, struct stat *);
int __real_ftruncate(int, off_t);
int __wrap_fstat(int fd, struct stat *s) {
    if (refuseSize == 1)
        return sizeRefused++, errno = EIO, -1;
    return __real_fstat(fd, s);
}
int __wrap_ftruncate(int fd, off_t n) {
    if (refuseSize == 2)
        return sizeRefused++, errno = EFBIG, -1;
    return __real_ftruncate(fd, n);
}
}

// bad paths, visibilities and protections are refused, and nothing is left behind
static void params(Ctx &c) {
    std::string dir = c.scratch;
    unsigned fds = open_fds();
    {
        umf_file_memory_provider_params_handle_t hp = nullptr;
        umf_memory_provider_handle_t p = nullptr;
        PCHECK(c, umfFileMemoryProviderParamsCreate(&hp, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "null", "no path");
        PCHECK(c, umfFileMemoryProviderParamsCreate(nullptr, "x") == UMF_RESULT_ERROR_INVALID_ARGUMENT, "null", "no handle");
        PCHECK(c, umfFileMemoryProviderParamsSetPath(nullptr, "x") == UMF_RESULT_ERROR_INVALID_ARGUMENT, "null", "no handle");
        PCHECK(c, umfFileMemoryProviderParamsSetProtection(nullptr, 3) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "null", "no handle");
        PCHECK(c, umfFileMemoryProviderParamsSetVisibility(nullptr, UMF_MEM_MAP_SHARED) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "null", "no handle");
        PCHECK(c, umfFileMemoryProviderParamsDestroy(nullptr) == UMF_RESULT_SUCCESS, "null", "no handle");
        PCHECK(c, umfMemoryProviderCreate(umfFileMemoryProviderOps(), nullptr, &p) == UMF_RESULT_ERROR_INVALID_ARGUMENT && !p, "null", "no parameters");
    }
    for (unsigned i = 0, n = (unsigned)c.range(1, 6); i < n; i++) {
        c.op();
        std::string path = dir + "/p";
        unsigned prot = UMF_PROTECTION_READ | UMF_PROTECTION_WRITE;
        int vis = c.chance(1, 2) ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE;
        bool bad = true;
        unsigned k = (unsigned)c.range(0, 7);
        switch (k) {
        case 0:
            path = dir + "/no/such/dir";
            break;
        case 1:
            path = dir;
            break;
        case 2: // too long
            path = dir;
            while (path.size() < 4090)
                path += "/.";
            while (path.size() < 4096 + c.range(0, 40))
                path += c.chance(1, 2) ? "/" : "a";
            break;
        case 3:
            prot = (unsigned)c.oneof<unsigned>({0x100, 0x80000000u, 16 | 1, 32, 0xffffffffu});
            break;
        case 4:
            vis = c.oneof<int>({0, 3, 4, 17, -1});
            break;
        case 5: // the longest acceptable path
            while (path.size() < 3000)
                path = dir + "/./" + path.substr(dir.size() + 1);
            bad = false;
            break;
        case 6:
            path = dir + "/" + std::string(c.range(256, 600), 'x'); // component too long
            break;
        default:
            bad = false;
        }
        umf_file_memory_provider_params_handle_t hp = nullptr;
        bool later = c.chance(1, 2); // the path is set later
        umf_result_t r = umfFileMemoryProviderParamsCreate(&hp, later ? (dir + "/other").c_str() : path.c_str());
        if (later) {
            PCHECK(c, r == UMF_RESULT_SUCCESS, "params", "params: %s", rs(r));
            PCHECK(c, umfFileMemoryProviderParamsSetPath(hp, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "null", "no path");
            r = umfFileMemoryProviderParamsSetPath(hp, path.c_str());
            if (r != UMF_RESULT_SUCCESS)
                umfFileMemoryProviderParamsDestroy(hp);
        }
        if (r != UMF_RESULT_SUCCESS) {
            PCHECK(c, bad && r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "params", "params: %s", rs(r));
            continue;
        }
        umf_result_t r1 = umfFileMemoryProviderParamsSetProtection(hp, prot);
        umf_result_t r2 = umfFileMemoryProviderParamsSetVisibility(hp, (umf_memory_visibility_t)vis);
        umf_memory_provider_handle_t p = (umf_memory_provider_handle_t)0x1;
        if (!bad && c.chance(1, 3)) {
            if (c.chance(1, 2))
                unlink(path.c_str());
            sizeRefused = 0;
            refuseSize = (int)c.range(1, 2);
            r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), hp, &p);
            c.note("%s refused %u times: %s", refuseSize == 1 ? "fstat" : "ftruncate", sizeRefused, rs(r));
            refuseSize = 0;
            if (sizeRefused) {
                c.label("create: refused call");
                PCHECK(c, r != UMF_RESULT_SUCCESS && valid_code(r) && p == (umf_memory_provider_handle_t)0x1, "create.refused",
                       "the size of the file cannot be had or set, the creation gives %s", rs(r));
                PCHECK(c, open_fds() == fds, "fds", "%u open files after a refused creation, %u before", open_fds(), fds);
            } else {
                PCHECK(c, r == UMF_RESULT_SUCCESS, "create", "nothing was refused: %s", rs(r));
                umfMemoryProviderDestroy(p);
                p = (umf_memory_provider_handle_t)0x1;
            }
        }
        r = r1 ? r1 : r2 ? r2 : umfMemoryProviderCreate(umfFileMemoryProviderOps(), hp, &p);
        c.note("case %u path length %zu prot %#x vis %d: %s", k, path.size(), prot, vis, rs(r));
        PCHECK(c, (r == UMF_RESULT_SUCCESS) == !bad, "create", "case %u (path of %zu bytes, prot %#x, visibility %d): %s", k, path.size(), prot, vis, rs(r));
        if (bad) {
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "create.code", "case %u: %s", k, rs(r));
        } else {
            void *q = nullptr;
            r = umfMemoryProviderAlloc(p, c.range(1, 100000), 0, &q);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "alloc", "%s", rs(r));
            *(char *)q = 1;
            umfMemoryProviderDestroy(p);
        }
        umfFileMemoryProviderParamsDestroy(hp);
        PCHECK(c, open_fds() == fds, "fds", "%u open files, %u before (case %u)", open_fds(), fds, k);
    }
    c.nontrivial();
}

static void conc(Ctx &c) {
    no_stdin(c);
    std::string path = std::string(c.scratch) + "/data";
    umf_memory_provider_handle_t p = make_file(c, path, {c.chance(1, 2), UMF_PROTECTION_READ | UMF_PROTECTION_WRITE});
    unsigned nt = (unsigned)c.range(2, 4), nops = (unsigned)c.range(20, 80);
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < nt; i++)
        seeds.push_back(c.range(0, UINT32_MAX));
    std::atomic<int> go{0};
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            uint64_t x = h::mixu(seeds[t] + 1);
            auto rnd = [&](uint64_t n) { return (x = h::mixu(x + 0x9e3779b97f4a7c15ull)) % n; };
            std::vector<std::pair<char *, size_t>> v;
            go++;
            while (go.load() < (int)nt)
                ;
            for (unsigned i = 0; i < nops; i++) {
                if (rnd(2) || v.empty()) {
                    size_t s = 4096 * (1 + rnd(4));
                    void *q = nullptr;
                    umf_result_t r = umfMemoryProviderAlloc(p, s, rnd(3) ? 0 : 8192, &q);
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "conc.alloc", "alloc: %s", rs(r));
                    memset(q, (int)t + 1, s);
                    v.push_back({(char *)q, s});
                } else {
                    size_t j = rnd(v.size());
                    auto [q, s] = v[j];
                    for (size_t b = 0; b < s; b += 509)
                        PCHECK(c, q[b] == (char)(t + 1), "conc.content", "thread %u: its block was overwritten", t);
                    umf_result_t r = umfMemoryProviderFree(p, q, s);
                    PCHECK(c, r == UMF_RESULT_SUCCESS, "conc.free", "free: %s", rs(r));
                    v.erase(v.begin() + (long)j);
                }
            }
            for (auto &b : v) {
                for (size_t k = 0; k < b.second; k += 509)
                    PCHECK(c, b.first[k] == (char)(t + 1), "conc.content", "thread %u: its block was overwritten", t);
                PCHECK(c, umfMemoryProviderFree(p, b.first, b.second) == UMF_RESULT_SUCCESS, "conc.free", "free");
            }
        });
    for (auto &t : ts)
        t.join();
    umfMemoryProviderDestroy(p);
    for (unsigned i = 0; i < nt * nops; i++)
        c.op();
    c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C09",
                         "histories of alloc/free/split/merge/purge/invalid requests on a file provider (private and shared, all "
                         "protections, new and existing files) with refused mappings and file growth, parameters, and several "
                         "threads; non-trivial: a reused block and a split, merge or over-aligned allocation (params, conc: all)",
                         {{"file", file, 9000, 120000}, {"params", params, 2000, 20000}, {"conc", conc, 500, 15000, 60, true}});
}

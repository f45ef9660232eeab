// C19: settings objects.  Whatever the history of a settings object - settings
// given twice, refused, interrupted by a lack of memory, caller buffers reused,
// the object changed or destroyed after something was made from it - what is
// made from it behaves like what is made from a fresh object that was given
// the same final values once.
#include "numah.hpp"
#include "wrapba.hpp"
#include <atomic>
#include <fstream>
#include <functional>
#include <sstream>
#include <sys/mman.h>
#include <umf/ipc.h>
#include <umf/mempolicy.h>
#include <umf/memspace.h>
using namespace nh;

static std::string *tr = nullptr; // transcript being written
static int daxfd = -1;
static void logf(const char *f, ...) __attribute__((format(printf, 1, 2)));
static void logf(const char *f, ...) {
    if (!tr)
        return;
    char b[600];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    *tr += b;
    *tr += '\n';
}
static bool quiet = false; // this call is the harness's own
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_open(const char *, int, ...);
int __real_stat(const char *, struct stat *);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    struct stat st;
    bool dax = false;
    if (tr && !quiet && fd >= 0) {
        char l[64], t[256] = "";
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        if (readlink(l, t, sizeof t - 1) < 0)
            t[0] = 0;
        if (strstr(t, "/topo.xml"))
            return __real_mmap(a, n, pr, fl, fd, o);
        // the memory of the provider: which file, and where in it
        const char *b = strrchr(t, '/');
        logf("map %zu prot %x flags %x file %s off %ld", n, pr, fl & ~MAP_FIXED, strncmp(t, "/memfd", 6) ? (b ? b : t) : "memfd", (long)o);
        dax = fstat(fd, &st) == 0 && strstr(t, "/daxmem");
    } else if (tr && !quiet && (fl & MAP_ANONYMOUS))
        logf("map %zu prot %x flags %x", n, pr, fl);
    if (dax) { // 2 MB aligned
        const size_t M2 = 2u << 20;
        char *m = (char *)__real_mmap(nullptr, n + M2, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return __real_mmap((char *)up((size_t)m, M2), n, pr, MAP_SHARED | MAP_FIXED, fd, o);
    }
    return __real_mmap(a, n, pr, fl, fd, o);
}
int __wrap_open(const char *path, int fl, int mode) {
    if (strncmp(path, "/dev/dax", 8))
        return __real_open(path, fl, mode);
    logf("open %s", path);
    return dup(daxfd);
}
int __wrap_stat(const char *path, struct stat *st) {
    if (strncmp(path, "/dev/dax", 8))
        return __real_stat(path, st);
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFCHR | 0600;
    return 0;
}
}

// ------------------------------------------------------------------ kinds
struct Act { // one call of a setter
    unsigned k = 0;
    std::string desc;
    std::function<umf_result_t(void *)> apply;
    bool ok = true; // must it be accepted?
};
struct Kind {
    const char *name;
    unsigned nset;
    std::function<umf_result_t(void **)> create;
    std::function<void(void *)> destroy;
    std::function<Act(unsigned)> draw;
    // makes something of the settings, calls the function, uses what was made
    std::function<void(void *, const std::function<void()> &)> use;
};
// a copy of v in memory of its own that is overwritten after the call
template <class T, class F> static umf_result_t lent(const std::vector<T> &v, F f) {
    size_t n = v.size() * sizeof(T);
    char *p = (char *)malloc(n ? n : 1);
    if (n)
        memcpy(p, v.data(), n);
    umf_result_t r = f((T *)p);
    memset(p, 0x5a, n);
    free(p);
    return r;
}
template <class F> static umf_result_t lents(const std::string &s, F f) {
    std::vector<char> v(s.begin(), s.end());
    v.push_back(0);
    return lent(v, [&](char *p) { return f((const char *)p); });
}

static long balance = 0; // objects of the library made by settings, less those freed
struct Acc {
    long b = ba::live;
    ~Acc() { balance += ba::live - b; }
};
static void life(Ctx &c, const Kind &k0) {
    Kind k = k0;
    k.create = [&](void **p) { Acc a; return k0.create(p); };
    k.destroy = [&](void *p) { Acc a; k0.destroy(p); };
    k.draw = [&](unsigned i) {
        Act x = k0.draw(i);
        auto f = x.apply;
        x.apply = [f](void *p) { Acc a; return f(p); };
        return x;
    };
    balance = 0;
    typedef std::map<unsigned, Act> Final;
    auto fresh = [&](const Final &f) {
        void *p = nullptr;
        PCHECK(c, k.create(&p) == UMF_RESULT_SUCCESS && p, "create", "%s: creating a settings object", k.name);
        std::vector<const Act *> v;
        for (auto &x : f)
            v.push_back(&x.second);
        if (v.size() > 1 && c.chance(1, 2))
            std::reverse(v.begin(), v.end());
        for (auto *a : v) {
            umf_result_t r = a->apply(p);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "fresh", "%s: %s: %s on a fresh object, it was accepted before", k.name, a->desc.c_str(), rs(r));
        }
        return p;
    };
    // once, so that everything made on first use exists
    {
        Final none;
        void *p = fresh(none);
        std::string t;
        tr = &t;
        k.use(p, [] {});
        tr = nullptr;
        k.destroy(p);
    }
    void *p = nullptr;
    if (c.chance(1, 8)) {
        void *q = (void *)0x77;
        ba::failIn = 1;
        ba::failed = 0;
        umf_result_t r = k.create(&q);
        ba::failIn = 0;
        if (ba::failed) {
            PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "create.oom", "%s: creating without memory: %s", k.name, rs(r));
            PCHECK(c, balance == 0, "leak", "%s: %ld objects are lost when creating without memory", k.name, balance);
        } else
            k.destroy(q);
    }
    Final fin;
    PCHECK(c, k.create(&p) == UMF_RESULT_SUCCESS && p, "create", "%s: creating a settings object", k.name);
    unsigned repeats = 0, refused = 0, made = 0, late = 0;
    auto set = [&](bool after) {
        Act a = k.draw((unsigned)c.range(0, k.nset - 1));
        bool oom = c.chance(1, 8);
        ba::failed = 0;
        ba::failIn = oom ? 1 : 0;
        umf_result_t r = a.apply(p);
        ba::failIn = 0;
        bool hit = ba::failed > 0;
        c.note("%s%s%s -> %s", after ? "later: " : "", a.desc.c_str(), hit ? " [no memory]" : "", rs(r));
        if (!a.ok) {
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT || (hit && r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY), "refuse", "%s: %s: %s", k.name, a.desc.c_str(), rs(r));
            refused++;
        } else if (hit) {
            PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY, "oom", "%s: %s without memory: %s", k.name, a.desc.c_str(), rs(r));
            refused++;
        } else {
            PCHECK(c, r == UMF_RESULT_SUCCESS, "accept", "%s: %s: %s", k.name, a.desc.c_str(), rs(r));
            repeats += (unsigned)fin.count(a.k);
            fin[a.k] = a;
        }
    };
    unsigned rounds = (unsigned)c.range(1, 3);
    for (unsigned i = 0; i < rounds; i++) {
        unsigned n = (unsigned)c.range(0, c.size(8));
        for (unsigned j = 0; j < n; j++) {
            c.op();
            set(false);
        }
        Final was = fin;
        bool gone = i + 1 == rounds && c.chance(1, 2);
        unsigned m = gone ? 0 : (unsigned)c.range(0, 3);
        std::string a, b;
        c.note("make one%s", gone ? ", then destroy the settings" : "");
        tr = &a;
        k.use(p, [&] {
            std::string *keep = tr;
            tr = nullptr;
            if (gone) {
                k.destroy(p);
                p = nullptr;
            } else
                for (unsigned j = 0; j < m; j++, late++)
                    set(true);
            tr = keep;
        });
        tr = nullptr;
        void *q = fresh(was);
        tr = &b;
        k.use(q, [] {});
        tr = nullptr;
        k.destroy(q);
        made++;
        if (a != b) {
            size_t x = 0;
            while (x < a.size() && x < b.size() && a[x] == b[x])
                x++;
            size_t la = a.rfind('\n', x ? x - 1 : 0), lb = b.rfind('\n', x ? x - 1 : 0);
            std::string s = a.substr(la == std::string::npos ? 0 : la + 1, 160), t = b.substr(lb == std::string::npos ? 0 : lb + 1, 160);
            c.fail("differs", "%s: what was made of the settings object differs from what is made of a fresh one with the same final values:\n<<%s>>\n<<%s>>", k.name, s.c_str(), t.c_str());
        }
    }
    if (p)
        k.destroy(p);
    PCHECK(c, balance == 0, "leak", "%s: %ld objects of the library are left over", k.name, balance);
    c.label(k.name);
    if (refused)
        c.label("refused setting");
    if (late)
        c.label("changed after use");
    if (repeats && made)
        c.nontrivial();
}

static umf_memory_visibility_t gen_vis(Ctx &c) { return c.chance(1, 10) ? (umf_memory_visibility_t)c.range(0, 5) : c.chance(1, 2) ? UMF_MEM_MAP_PRIVATE : UMF_MEM_MAP_SHARED; }
static unsigned gen_prot(Ctx &c) {
    return c.chance(1, 10) ? (unsigned)c.range(0, 64) : c.oneof<unsigned>({UMF_PROTECTION_READ | UMF_PROTECTION_WRITE, UMF_PROTECTION_READ, UMF_PROTECTION_NONE, UMF_PROTECTION_READ | UMF_PROTECTION_EXEC});
}
// the calls made on a provider
struct Use {
    std::vector<std::pair<size_t, size_t>> blocks;
};
static Use gen_use(Ctx &c, size_t maxn) {
    Use u;
    unsigned n = (unsigned)c.range(1, 4);
    for (unsigned i = 0; i < n; i++)
        u.blocks.push_back({c.chance(1, 2) ? 4096 * c.range(1, 40) : c.range(1, maxn), c.chance(1, 4) ? c.pow2(3, 16) : 0});
    return u;
}
static void use_provider(umf_memory_provider_ops_t *ops, void *p, const std::function<void()> &after, const Use &u, uintptr_t base = 0) {
    umf_memory_provider_handle_t h = nullptr;
    umf_result_t r = umfMemoryProviderCreate(ops, p, &h);
    logf("create %s", rs(r));
    after();
    if (r != UMF_RESULT_SUCCESS)
        return;
    std::vector<std::pair<void *, size_t>> v;
    for (auto &x : u.blocks) {
        void *q = nullptr;
        binds.clear();
        r = umfMemoryProviderAlloc(h, x.first, x.second, &q);
        logf("alloc %zu %zu %s", x.first, x.second, rs(r));
        for (auto &b : binds)
            logf("bind %zd+%zu %s %d %x", r ? 0 : (ssize_t)(b.a - (uintptr_t)q), b.n, setstr(b.nodes).c_str(), b.policy, b.flags);
        if (r)
            continue;
        if (base)
            logf("at %zu", (size_t)((uintptr_t)q - base));
        v.push_back({q, x.first});
        std::ifstream m("/proc/self/maps");
        std::string l;
        while (std::getline(m, l)) {
            unsigned long s = 0, e = 0;
            char pr[8] = "";
            sscanf(l.c_str(), "%lx-%lx %7s", &s, &e, pr);
            if (s <= (uintptr_t)q && (uintptr_t)q < e)
                logf("page %s", pr);
        }
    }
    size_t z = 0;
    r = umfMemoryProviderGetIPCHandleSize(h, &z);
    logf("ipc size %s %zu", rs(r), r ? 0 : z);
    for (auto &x : v)
        logf("free %s", rs(umfMemoryProviderFree(h, x.first, x.second)));
    umfMemoryProviderDestroy(h);
}

static void os(Ctx &c) {
    Topo t = gen_topo(c, 5);
    use_topo(c, t);
    Use u = gen_use(c, 300000);
    std::vector<unsigned> all;
    for (auto &n : t.nodes)
        all.push_back(n.os);
    // shared memory in files of this process's own
    std::string sname = "umfv19_" + std::to_string(getpid()) + "_";
    // tend towards a mode that uses the rest
    umf_numa_mode_t fav = c.oneof<umf_numa_mode_t>({UMF_NUMA_MODE_DEFAULT, UMF_NUMA_MODE_BIND, UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_SPLIT, UMF_NUMA_MODE_PREFERRED});
    typedef umf_os_memory_provider_params_handle_t H;
    Kind k{"os", 7,
           [](void **p) { return umfOsMemoryProviderParamsCreate((H *)p); },
           [](void *p) { umfOsMemoryProviderParamsDestroy((H)p); },
           [&](unsigned s) {
               Act a;
               a.k = s;
               switch (s) {
               case 0: { unsigned v = gen_prot(c); a.desc = "protection " + std::to_string(v); a.apply = [v](void *p) { return umfOsMemoryProviderParamsSetProtection((H)p, v); }; break; }
               case 1: { auto v = gen_vis(c); if (fav != UMF_NUMA_MODE_DEFAULT && c.chance(2, 3)) v = UMF_MEM_MAP_PRIVATE; a.desc = "visibility " + std::to_string(v); a.apply = [v](void *p) { return umfOsMemoryProviderParamsSetVisibility((H)p, v); }; break; }
               case 2: {
                   if (c.chance(1, 3)) {
                       a.desc = "no shm name";
                       a.apply = [](void *p) { return umfOsMemoryProviderParamsSetShmName((H)p, nullptr); };
                   } else {
                       std::string v = sname + std::string(c.range(0, 40), 'x') + std::to_string(c.range(0, 9));
                       a.desc = "shm name " + v;
                       a.apply = [v](void *p) { return lents(v, [&](const char *s) { return umfOsMemoryProviderParamsSetShmName((H)p, s); }); };
                   }
                   break;
               }
               case 3: {
                   std::vector<unsigned> v;
                   unsigned n = (unsigned)(c.chance(1, 8) ? 0 : c.range(1, all.size()));
                   for (unsigned i = 0; i < n; i++)
                       v.push_back(all[c.range(0, all.size() - 1)]);
                   bool bad = n && c.chance(1, 8);
                   a.ok = !bad;
                   a.desc = bad ? "node list NULL of " + std::to_string(n) : "nodes";
                   for (unsigned x : v)
                       a.desc += " " + std::to_string(x);
                   a.apply = [v, bad](void *p) { return lent(v, [&](unsigned *q) { return umfOsMemoryProviderParamsSetNumaList((H)p, bad || v.empty() ? nullptr : q, (unsigned)v.size()); }); };
                   break;
               }
               case 4: { auto v = c.chance(2, 3) ? fav : c.oneof<umf_numa_mode_t>({UMF_NUMA_MODE_DEFAULT, UMF_NUMA_MODE_BIND, UMF_NUMA_MODE_INTERLEAVE, UMF_NUMA_MODE_PREFERRED, UMF_NUMA_MODE_SPLIT, UMF_NUMA_MODE_LOCAL});
                   a.desc = "mode " + std::to_string(v); a.apply = [v](void *p) { return umfOsMemoryProviderParamsSetNumaMode((H)p, v); }; break; }
               case 5: { size_t v = c.chance(1, 3) ? 0 : c.chance(1, 2) ? 4096 * c.range(1, 9) : c.range(1, 70000); a.desc = "part size " + std::to_string(v); a.apply = [v](void *p) { return umfOsMemoryProviderParamsSetPartSize((H)p, v); }; break; }
               default: {
                   std::vector<umf_numa_split_partition_t> v;
                   unsigned n = (unsigned)c.range(0, 4);
                   for (unsigned i = 0; i < n; i++)
                       v.push_back({(unsigned)c.range(c.chance(1, 12) ? 0 : 1, 5), all[c.range(0, all.size() - 1)]});
                   bool bad = n && c.chance(1, 8);
                   a.ok = !bad;
                   a.desc = bad ? "partitions NULL of " + std::to_string(n) : "partitions";
                   for (auto &x : v)
                       a.desc += " " + std::to_string(x.weight) + "@" + std::to_string(x.target);
                   a.apply = [v, bad](void *p) { return lent(v, [&](umf_numa_split_partition_t *q) { return umfOsMemoryProviderParamsSetPartitions((H)p, bad || v.empty() ? nullptr : q, (unsigned)v.size()); }); };
               }
               }
               return a;
           },
           [&](void *p, const std::function<void()> &after) { use_provider(umfOsMemoryProviderOps(), p, after, u); }};
    life(c, k);
}

static void file(Ctx &c) {
    Use u = gen_use(c, 100000);
    std::string dir = c.scratch;
    auto path = [&] { return dir + "/" + std::string(c.range(0, 30), 'p') + std::to_string(c.range(0, 4)); };
    std::string first = path();
    typedef umf_file_memory_provider_params_handle_t H;
    Kind k{"file", 3,
           [&](void **p) { return lents(first, [&](const char *s) { return umfFileMemoryProviderParamsCreate((H *)p, s); }); },
           [](void *p) { umfFileMemoryProviderParamsDestroy((H)p); },
           [&](unsigned s) {
               Act a;
               a.k = s;
               switch (s) {
               case 0: { unsigned v = gen_prot(c); a.desc = "protection " + std::to_string(v); a.apply = [v](void *p) { return umfFileMemoryProviderParamsSetProtection((H)p, v); }; break; }
               case 1: { auto v = gen_vis(c); a.desc = "visibility " + std::to_string(v); a.apply = [v](void *p) { return umfFileMemoryProviderParamsSetVisibility((H)p, v); }; break; }
               default: {
                   std::string v = c.chance(1, 10) ? "" : c.chance(1, 12) ? dir + "/no/such" : path();
                   bool null = c.chance(1, 12);
                   a.ok = !null && !v.empty();
                   a.desc = null ? "path NULL" : "path " + (v.empty() ? "empty" : v.substr(dir.size()));
                   a.apply = [v, null](void *p) { return lents(v, [&](const char *s) { return umfFileMemoryProviderParamsSetPath((H)p, null ? nullptr : s); }); };
               }
               }
               return a;
           },
           [&](void *p, const std::function<void()> &after) {
               for (int i = 0; i < 31; i++) // no files left of earlier ones
                   for (int j = 0; j < 5; j++)
                       unlink((dir + "/" + std::string((size_t)i, 'p') + std::to_string(j)).c_str());
               use_provider(umfFileMemoryProviderOps(), p, after, u);
           }};
    life(c, k);
}

static void devdax(Ctx &c) {
    Use u = gen_use(c, 100000);
    const size_t M2 = 2u << 20;
    daxfd = __real_open((std::string(c.scratch) + "/daxmem").c_str(), O_RDWR | O_CREAT, 0600);
    PCHECK(c, daxfd >= 0 && ftruncate(daxfd, 8 * (off_t)M2) == 0, "setup", "stand-in device");
    auto path = [&] { return "/dev/dax" + std::to_string(c.range(0, 12)) + ".0" + std::string(c.range(0, 30), '1'); };
    std::string first = path();
    size_t fsize = M2 * c.range(1, 4);
    typedef umf_devdax_memory_provider_params_handle_t H;
    Kind k{"devdax", 2,
           [&](void **p) { return lents(first, [&](const char *s) { return umfDevDaxMemoryProviderParamsCreate((H *)p, s, fsize); }); },
           [](void *p) { umfDevDaxMemoryProviderParamsDestroy((H)p); },
           [&](unsigned s) {
               Act a;
               a.k = s;
               if (s == 0) {
                   unsigned v = gen_prot(c);
                   a.ok = v && !(v & ~15u);
                   a.desc = "protection " + std::to_string(v);
                   a.apply = [v](void *p) { return umfDevDaxMemoryProviderParamsSetProtection((H)p, v); };
               } else {
                   std::string v = c.chance(1, 10) ? "" : path();
                   size_t z = c.chance(1, 10) ? 0 : M2 * c.range(1, 4);
                   bool null = c.chance(1, 12);
                   a.ok = !null && !v.empty();
                   a.desc = null ? "device NULL" : "device " + v + " " + std::to_string(z);
                   a.apply = [v, z, null](void *p) { return lents(v, [&](const char *s) { return umfDevDaxMemoryProviderParamsSetDeviceDax((H)p, null ? nullptr : s, z); }); };
               }
               return a;
           },
           [&](void *p, const std::function<void()> &after) { use_provider(umfDevDaxMemoryProviderOps(), p, after, u); }};
    life(c, k);
}

static void fixed(Ctx &c) {
    Use u = gen_use(c, 60000);
    quiet = true;
    char *buf = (char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    quiet = false;
    size_t o0 = 4096 * c.range(0, 100), s0 = 4096 * c.range(1, 100);
    typedef umf_fixed_memory_provider_params_handle_t H;
    Kind k{"fixed", 1,
           [&](void **p) { return umfFixedMemoryProviderParamsCreate((H *)p, buf + o0, s0); },
           [](void *p) { umfFixedMemoryProviderParamsDestroy((H)p); },
           [&](unsigned s) {
               Act a;
               a.k = s;
               void *q = c.chance(1, 8) ? nullptr : buf + 4096 * c.range(0, 100) + (c.chance(1, 3) ? c.range(0, 4095) : 0);
               size_t z = c.chance(1, 8) ? 0 : c.chance(1, 2) ? 4096 * c.range(1, 100) : c.range(1, 400000);
               a.ok = q && z;
               a.desc = "memory at " + (q ? std::to_string((size_t)((char *)q - buf)) : std::string("NULL")) + " of " + std::to_string(z);
               a.apply = [q, z](void *p) { return umfFixedMemoryProviderParamsSetMemory((H)p, q, z); };
               return a;
           },
           [&](void *p, const std::function<void()> &after) { use_provider(umfFixedMemoryProviderOps(), p, after, u, (uintptr_t)buf); }};
    life(c, k);
}

// ------------------------------------------------------------------ pools
static Mock *mk;
static void use_pool(Ctx &c, umf_memory_pool_ops_t *ops, void *p, const std::function<void()> &after, const std::vector<size_t> &sizes, bool few) {
    Mock m;
    m.open(&c, 512u << 20, 4096);
    m.place = 1;
    m.keepLog = true;
    m.c = &c;
    mk = &m;
    umf_memory_provider_ops_t mo = mock_ops();
    umf_memory_provider_handle_t h = nullptr;
    PCHECK(c, umfMemoryProviderCreate(&mo, &m, &h) == UMF_RESULT_SUCCESS, "setup", "mock");
    umf_memory_pool_handle_t pool = nullptr;
    umf_result_t r = umfPoolCreate(ops, h, p, UMF_POOL_CREATE_FLAG_NONE, &pool);
    logf("pool %s", rs(r));
    after();
    auto flush = [&] {
        for (auto &x : m.allocLog)
            logf("provider alloc +%zu %zu", few ? 0 : (size_t)(x.first - (uintptr_t)m.arena), x.second);
        for (auto &x : m.freeLog)
            logf("provider free +%zu %zu", few ? 0 : (size_t)(x.first - (uintptr_t)m.arena), x.second);
        m.allocLog.clear();
        m.freeLog.clear();
    };
    if (!r) {
        std::vector<void *> v;
        for (size_t s : sizes) {
            if (s) {
                void *q = umfPoolMalloc(pool, s);
                logf("malloc %zu %s", s, q ? "ok" : rs(umfPoolGetLastAllocationError(pool)));
                if (q)
                    v.push_back(q);
            } else if (!v.empty()) {
                logf("free %s", rs(umfPoolFree(pool, v.back())));
                v.pop_back();
            }
            flush();
        }
        for (void *q : v)
            umfPoolFree(pool, q);
        flush();
        umfPoolDestroy(pool);
        flush();
    }
    umfMemoryProviderDestroy(h);
    munmap(m.arena, 512u << 20);
}
static std::vector<size_t> gen_sizes(Ctx &c, size_t maxn) {
    std::vector<size_t> v;
    unsigned n = (unsigned)c.range(1, c.size(30));
    for (unsigned i = 0; i < n; i++)
        v.push_back(c.chance(1, 3) ? 0 : c.chance(1, 2) ? c.pow2(3, 15) : c.range(1, maxn));
    return v;
}

static std::string logFile;
static void disjoint(Ctx &c) {
    std::vector<size_t> sizes = gen_sizes(c, 40000);
    umf_disjoint_pool_shared_limits_handle_t lim[3] = {nullptr, nullptr, nullptr};
    lim[1] = umfDisjointPoolSharedLimitsCreate(c.range(1, 20000));
    lim[2] = umfDisjointPoolSharedLimitsCreate(c.range(1, 200000));
    typedef umf_disjoint_pool_params_handle_t H;
    Kind k{"disjoint", 7,
           [](void **p) { return umfDisjointPoolParamsCreate((H *)p); },
           [](void *p) { umfDisjointPoolParamsDestroy((H)p); },
           [&](unsigned s) {
               Act a;
               a.k = s;
               switch (s) {
               case 0: { size_t v = c.chance(1, 2) ? c.pow2(6, 17) : c.range(0, 70000); a.desc = "slab " + std::to_string(v); a.apply = [v](void *p) { return umfDisjointPoolParamsSetSlabMinSize((H)p, v); }; break; }
               case 1: { size_t v = c.chance(1, 2) ? c.pow2(6, 17) : c.range(0, 70000); a.desc = "poolable " + std::to_string(v); a.apply = [v](void *p) { return umfDisjointPoolParamsSetMaxPoolableSize((H)p, v); }; break; }
               case 2: { size_t v = c.range(0, 5); a.desc = "capacity " + std::to_string(v); a.apply = [v](void *p) { return umfDisjointPoolParamsSetCapacity((H)p, v); }; break; }
               case 3: { size_t v = c.chance(3, 4) ? c.pow2(0, 13) : c.range(0, 3000); a.ok = v && !(v & (v - 1)); a.desc = "bucket " + std::to_string(v); a.apply = [v](void *p) { return umfDisjointPoolParamsSetMinBucketSize((H)p, v); }; break; }
               case 4: { int v = (int)c.range(0, 3); a.desc = "trace " + std::to_string(v); a.apply = [v](void *p) { return umfDisjointPoolParamsSetTrace((H)p, v); }; break; }
               case 5: { auto v = lim[c.range(0, 2)]; a.desc = v == lim[0] ? "no limits" : v == lim[1] ? "limits 1" : "limits 2"; a.apply = [v](void *p) { return umfDisjointPoolParamsSetSharedLimits((H)p, v); }; break; }
               default: {
                   std::string v = "n" + std::string(c.chance(1, 4) ? c.range(0, 90) : c.range(0, 6), 'm') + std::to_string(c.range(0, 9));
                   bool null = c.chance(1, 10);
                   a.ok = !null;
                   a.desc = null ? "name NULL" : "name " + v;
                   a.apply = [v, null](void *p) { return lents(v, [&](const char *s) { return umfDisjointPoolParamsSetName((H)p, null ? nullptr : s); }); };
               }
               }
               return a;
           },
           [&](void *p, const std::function<void()> &after) {
               // what the pool reports of itself is in the log
               struct stat st;
               off_t at = __real_stat(logFile.c_str(), &st) ? 0 : st.st_size;
               use_pool(c, umfDisjointPoolOps(), p, after, sizes, false);
               std::ifstream f(logFile);
               f.seekg(at);
               std::string l;
               while (std::getline(f, l)) {
                   size_t x = l.find("] ");
                   while (x != std::string::npos && l.find("] ", x + 1) != std::string::npos)
                       x = l.find("] ", x + 1);
                   l = x == std::string::npos ? l : l.substr(x + 2);
                   std::string o;
                   for (size_t i = 0; i < l.size();) {
                       if (l[i] == '0' && i + 1 < l.size() && l[i + 1] == 'x') {
                           o += "P";
                           i += 2;
                           while (i < l.size() && isxdigit((unsigned char)l[i]))
                               i++;
                       } else
                           o += l[i++];
                   }
                   if (o.find("umfDisjointPoolParams") == std::string::npos) // about the settings object itself
                       logf("log %s", o.c_str());
               }
           }};
    life(c, k);
    umfDisjointPoolSharedLimitsDestroy(lim[1]);
    umfDisjointPoolSharedLimitsDestroy(lim[2]);
}
static void disjoint_entry(Ctx &c) {
    logFile = std::string(c.scratch) + "/log";
    umfTearDown();
    setenv("UMF_LOG", ("level:debug;flush:debug;output:file," + logFile).c_str(), 1);
    umfInit();
    disjoint(c);
}

// the name given to a disjoint pool, or the default one, is the one it goes by
static void names(Ctx &c) {
    logFile = std::string(c.scratch) + "/log";
    umfTearDown();
    setenv("UMF_LOG", ("level:debug;flush:debug;output:file," + logFile).c_str(), 1);
    umfInit();
    umf_disjoint_pool_params_handle_t p = nullptr;
    PCHECK(c, umfDisjointPoolParamsCreate(&p) == UMF_RESULT_SUCCESS, "create", "settings");
    std::string want = "disjoint_pool";
    unsigned n = (unsigned)c.range(0, 3);
    for (unsigned i = 0; i < n; i++) {
        want = "n";
        unsigned len = (unsigned)c.range(0, c.chance(1, 4) ? 90 : 10);
        for (unsigned j = 0; j < len; j++)
            want += (char)c.range('a', 'z');
        want += "q";
        umf_result_t r = lents(want, [&](const char *s) { return umfDisjointPoolParamsSetName(p, s); });
        PCHECK(c, r == UMF_RESULT_SUCCESS, "name", "setting a name: %s", rs(r));
        c.note("name %s", want.c_str());
    }
    umfDisjointPoolParamsSetTrace(p, 3);
    umfDisjointPoolParamsSetSlabMinSize(p, 4096);
    umfDisjointPoolParamsSetMaxPoolableSize(p, 4096);
    umfDisjointPoolParamsSetCapacity(p, 4);
    Mock m;
    m.open(&c, 64u << 20, 4096);
    umf_memory_provider_ops_t mo = mock_ops();
    umf_memory_provider_handle_t h = nullptr;
    umf_memory_pool_handle_t pool = nullptr;
    PCHECK(c, umfMemoryProviderCreate(&mo, &m, &h) == UMF_RESULT_SUCCESS && umfPoolCreate(umfDisjointPoolOps(), h, p, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &pool) == UMF_RESULT_SUCCESS, "setup", "pool");
    umfDisjointPoolParamsDestroy(p);
    void *q = umfPoolMalloc(pool, c.range(1, 4096));
    PCHECK(c, q, "malloc", "malloc");
    umfPoolFree(pool, q);
    umfPoolDestroy(pool);
    std::ifstream f(logFile);
    std::string l;
    unsigned seen = 0, other = 0;
    std::string ex, cut = want.substr(0, 63);
    while (std::getline(f, l)) {
        // "Allocated <size> <name> bytes from ..."
        char nm[200] = "";
        unsigned long z;
        size_t x = l.find("Allocated ");
        if (x == std::string::npos || sscanf(l.c_str() + x, "Allocated %lu %199s bytes from", &z, nm) != 2)
            continue;
        if (cut == nm)
            seen++;
        else {
            other++;
            ex = l;
        }
    }
    c.note("%u lines with the name, %u without", seen, other);
    PCHECK(c, other == 0, "name", "the pool named %s reports: %s", cut.c_str(), ex.c_str());
    PCHECK(c, seen, "name", "the pool reports no allocation by its name");
    c.nontrivial();
    c.label(n ? "given name" : "default name");
}

static void scalable(Ctx &c) {
    std::vector<size_t> sizes = gen_sizes(c, 3000000);
    typedef umf_scalable_pool_params_handle_t H;
    Kind k{"scalable", 2,
           [](void **p) { return umfScalablePoolParamsCreate((H *)p); },
           [](void *p) { umfScalablePoolParamsDestroy((H)p); },
           [&](unsigned s) {
               Act a;
               a.k = s;
               if (s) {
                   bool v = c.chance(1, 2);
                   a.desc = v ? "keep all" : "keep none";
                   a.apply = [v](void *p) { return umfScalablePoolParamsSetKeepAllMemory((H)p, v); };
               } else {
                   size_t v = c.chance(1, 8) ? 0 : c.oneof<size_t>({65536, 1u << 20, 2u << 20, 4u << 20, 3u << 20});
                   a.ok = v != 0;
                   a.desc = "granularity " + std::to_string(v);
                   a.apply = [v](void *p) { return umfScalablePoolParamsSetGranularity((H)p, v); };
               }
               return a;
           },
           [&](void *p, const std::function<void()> &after) { use_pool(c, umfScalablePoolOps(), p, after, sizes, true); }};
    life(c, k);
}

// ----------------------------------------------------------------- policies
static void policy(Ctx &c) {
    Topo t = gen_topo(c, 5);
    use_topo(c, t);
    Use u = gen_use(c, 300000);
    std::vector<unsigned> all, ms;
    for (auto &n : t.nodes)
        all.push_back(n.os);
    unsigned nn = (unsigned)c.range(1, all.size());
    for (unsigned i = 0; i < nn; i++) {
        size_t j = c.range(0, all.size() - 1);
        ms.push_back(all[j]);
        all.erase(all.begin() + (long)j);
        if (all.empty())
            break;
    }
    auto type = c.oneof<umf_mempolicy_membind_t>({UMF_MEMPOLICY_INTERLEAVE, UMF_MEMPOLICY_SPLIT, UMF_MEMPOLICY_SPLIT, UMF_MEMPOLICY_BIND, UMF_MEMPOLICY_PREFERRED});
    typedef umf_mempolicy_handle_t H;
    Kind k{"policy", 2,
           [&](void **p) { return umfMempolicyCreate(type, (H *)p); },
           [](void *p) { umfMempolicyDestroy((H)p); },
           [&](unsigned s) {
               Act a;
               a.k = s;
               if (s == 0) {
                   size_t v = c.chance(1, 3) ? 0 : c.chance(1, 2) ? 4096 * c.range(1, 9) : c.range(1, 70000);
                   a.ok = type == UMF_MEMPOLICY_INTERLEAVE;
                   a.desc = "part size " + std::to_string(v);
                   a.apply = [v](void *p) { return umfMempolicySetInterleavePartSize((H)p, v); };
               } else {
                   std::vector<umf_mempolicy_split_partition_t> v;
                   unsigned n = (unsigned)c.range(0, 4);
                   for (unsigned i = 0; i < n; i++)
                       v.push_back({(unsigned)c.range(1, 5), ms[c.range(0, ms.size() - 1)]});
                   bool null = n && c.chance(1, 8);
                   a.ok = type == UMF_MEMPOLICY_SPLIT && !null;
                   a.desc = null ? "partitions NULL of " + std::to_string(n) : "partitions";
                   for (auto &x : v)
                       a.desc += " " + std::to_string(x.weight) + "@" + std::to_string(x.target);
                   a.apply = [v, null](void *p) { return lent(v, [&](umf_mempolicy_split_partition_t *q) { return umfMempolicySetCustomSplitPartitions((H)p, null || v.empty() ? nullptr : q, v.size()); }); };
               }
               return a;
           },
           [&](void *p, const std::function<void()> &after) {
               umf_memspace_handle_t s = nullptr;
               umf_result_t r = lent(ms, [&](unsigned *q) { return umfMemspaceCreateFromNumaArray(q, ms.size(), &s); });
               PCHECK(c, r == UMF_RESULT_SUCCESS, "memspace", "memspace: %s", rs(r));
               umf_memory_provider_handle_t h = nullptr;
               r = umfMemoryProviderCreateFromMemspace(s, (umf_const_mempolicy_handle_t)p, &h);
               logf("create %s", rs(r));
               umfMemspaceDestroy(s);
               after();
               if (r)
                   return;
               std::vector<std::pair<void *, size_t>> v;
               for (auto &x : u.blocks) {
                   void *q = nullptr;
                   binds.clear();
                   r = umfMemoryProviderAlloc(h, x.first, x.second, &q);
                   logf("alloc %zu %zu %s", x.first, x.second, rs(r));
                   for (auto &b : binds)
                       logf("bind %zd+%zu %s %d %x", r ? 0 : (ssize_t)(b.a - (uintptr_t)q), b.n, setstr(b.nodes).c_str(), b.policy, b.flags);
                   if (!r)
                       v.push_back({q, x.first});
               }
               for (auto &x : v)
                   logf("free %s", rs(umfMemoryProviderFree(h, x.first, x.second)));
               umfMemoryProviderDestroy(h);
           }};
    life(c, k);
}

// ---------------------------------------------------------------- arguments
// Unusable arguments are refused, nothing is called or written, and what was
// there goes on working.
struct Fn {
    const char *name;
    unsigned n; // arguments that can be made unusable
    std::function<bool(unsigned)> call; // bit i of the mask: argument i is unusable; was it refused?
};
static void arguments(Ctx &c) {
    Topo t = gen_topo(c, 4);
    use_topo(c, t);
    Mock m;
    m.open(&c, 256u << 20, 4096);
    umf_memory_provider_ops_t mo = mock_ops();
    umf_memory_provider_handle_t pr = nullptr;
    umf_memory_pool_handle_t pool = nullptr, dpool = nullptr;
    PCHECK(c, umfMemoryProviderCreate(&mo, &m, &pr) == UMF_RESULT_SUCCESS, "setup", "mock");
    PCHECK(c, umfPoolCreate(umfProxyPoolOps(), pr, nullptr, UMF_POOL_CREATE_FLAG_NONE, &pool) == UMF_RESULT_SUCCESS, "setup", "pool");
    umf_disjoint_pool_params_handle_t dp = nullptr;
    umfDisjointPoolParamsCreate(&dp);
    umfDisjointPoolParamsSetSlabMinSize(dp, 4096);
    umfDisjointPoolParamsSetMaxPoolableSize(dp, 4096);
    umfDisjointPoolParamsSetCapacity(dp, 2);
    PCHECK(c, umfPoolCreate(umfDisjointPoolOps(), pr, dp, UMF_POOL_CREATE_FLAG_NONE, &dpool) == UMF_RESULT_SUCCESS, "setup", "pool");
    std::vector<unsigned> ids;
    for (auto &n : t.nodes)
        ids.push_back(n.os);
    umf_memspace_handle_t ms = nullptr, ems = nullptr;
    PCHECK(c, umfMemspaceCreateFromNumaArray(ids.data(), ids.size(), &ms) == UMF_RESULT_SUCCESS && umfMemspaceNew(&ems) == UMF_RESULT_SUCCESS, "setup", "memspace");
    umf_const_memtarget_handle_t tg = umfMemspaceMemtargetGet(ms, (unsigned)c.range(0, ids.size() - 1));
    umf_mempolicy_handle_t ip = nullptr, sp = nullptr, bp = nullptr;
    umfMempolicyCreate(UMF_MEMPOLICY_INTERLEAVE, &ip);
    umfMempolicyCreate(UMF_MEMPOLICY_SPLIT, &sp);
    umfMempolicyCreate(UMF_MEMPOLICY_BIND, &bp);
    char *blk = nullptr, *pb = (char *)umfPoolMalloc(pool, 8192), *db = (char *)umfPoolMalloc(dpool, 100);
    PCHECK(c, umfMemoryProviderAlloc(pr, 8192, 0, (void **)&blk) == UMF_RESULT_SUCCESS && pb && db, "setup", "blocks");
    fill(blk, 8192, 1), fill(pb, 8192, 2), fill(db, 100, 3);
    umfPoolSetTag(pool, (void *)0x1234, nullptr);
    static char S[64];
    auto clean = [] {
        memset(S, 0x3c, sizeof S);
    };
    auto out = [](unsigned m, unsigned i) -> void * { return m >> i & 1 ? nullptr : S; };
#define BAD(i) (mask >> (i) & 1)
#define INV(e) [&](unsigned mask) { (void)mask; return (e) == UMF_RESULT_ERROR_INVALID_ARGUMENT; }
#define NIL(e) [&](unsigned mask) { (void)mask; return !(e); }
#define O(T, i) ((T)out(mask, i))
#define P(x, i) (BAD(i) ? nullptr : (x))
    size_t one = c.range(1, 8191);
    umf_const_memspace_handle_t cms = ms;
    std::vector<Fn> fns = {
        {"umfMemoryProviderCreate", 2, INV(umfMemoryProviderCreate(P(&mo, 0), &m, O(umf_memory_provider_handle_t *, 1)))},
        {"umfMemoryProviderAlloc", 2, INV(umfMemoryProviderAlloc(P(pr, 0), one, 0, O(void **, 1)))},
        {"umfMemoryProviderFree", 1, INV(umfMemoryProviderFree(P(pr, 0), blk, 8192))},
        {"umfMemoryProviderGetName", 1, NIL(umfMemoryProviderGetName(P(pr, 0)))},
        {"umfMemoryProviderGetRecommendedPageSize", 2, INV(umfMemoryProviderGetRecommendedPageSize(P(pr, 0), one, O(size_t *, 1)))},
        {"umfMemoryProviderGetMinPageSize", 2, INV(umfMemoryProviderGetMinPageSize(P(pr, 0), blk, O(size_t *, 1)))},
        {"umfMemoryProviderPurgeLazy", 2, INV(umfMemoryProviderPurgeLazy(P(pr, 0), P(blk, 1), 8192))},
        {"umfMemoryProviderPurgeForce", 2, INV(umfMemoryProviderPurgeForce(P(pr, 0), P(blk, 1), 8192))},
        {"umfMemoryProviderAllocationSplit", 5, INV(umfMemoryProviderAllocationSplit(P(pr, 0), P(blk, 1), BAD(2) ? 0 : 8192, BAD(3) ? 0 : BAD(4) ? 8192 + one - 1 : one))},
        {"umfMemoryProviderAllocationMerge", 6,
         INV(umfMemoryProviderAllocationMerge(P(pr, 0), BAD(1) ? nullptr : BAD(4) ? blk + one : blk, BAD(2) ? nullptr : BAD(4) ? blk : blk + one, BAD(3) ? 0 : BAD(5) ? c.range(1, one) : 8192))},
        {"umfMemoryProviderGetIPCHandleSize", 2, INV(umfMemoryProviderGetIPCHandleSize(P(pr, 0), O(size_t *, 1)))},
        {"umfMemoryProviderGetIPCHandle", 3, INV(umfMemoryProviderGetIPCHandle(P(pr, 0), P(blk, 1), 8192, O(void *, 2)))},
        {"umfMemoryProviderPutIPCHandle", 2, INV(umfMemoryProviderPutIPCHandle(P(pr, 0), O(void *, 1)))},
        {"umfMemoryProviderOpenIPCHandle", 3, INV(umfMemoryProviderOpenIPCHandle(P(pr, 0), P(blk, 1), O(void **, 2)))},
        {"umfMemoryProviderCloseIPCHandle", 2, INV(umfMemoryProviderCloseIPCHandle(P(pr, 0), P(blk, 1), 8192))},
        {"umfPoolCreate", 3, INV(umfPoolCreate(P(umfProxyPoolOps(), 0), P(pr, 1), nullptr, c.range(0, 3), O(umf_memory_pool_handle_t *, 2)))},
        {"umfPoolMalloc", 1, NIL(umfPoolMalloc(P(pool, 0), one))},
        {"umfPoolAlignedMalloc", 1, NIL(umfPoolAlignedMalloc(P(pool, 0), one, 64))},
        {"umfPoolCalloc", 1, NIL(umfPoolCalloc(P(pool, 0), 3, one))},
        {"umfPoolRealloc", 1, NIL(umfPoolRealloc(P(pool, 0), pb, one))},
        {"umfPoolMallocUsableSize", 1, NIL(umfPoolMallocUsableSize(P(pool, 0), pb))},
        {"umfPoolFree", 1, INV(umfPoolFree(P(pool, 0), pb))},
        {"umfPoolGetLastAllocationError", 1, INV(umfPoolGetLastAllocationError(P(pool, 0)))},
        {"umfPoolGetMemoryProvider", 2, INV(umfPoolGetMemoryProvider(P(pool, 0), O(umf_memory_provider_handle_t *, 1)))},
        {"umfPoolSetTag", 1, INV(umfPoolSetTag(P(pool, 0), S, (void **)S))},
        {"umfPoolGetTag", 2, INV(umfPoolGetTag(P(pool, 0), O(void **, 1)))},
        {"umfPoolGetIPCHandleSize", 2, INV(umfPoolGetIPCHandleSize(P(pool, 0), O(size_t *, 1)))},
        {"umfPoolGetIPCHandler", 2, INV(umfPoolGetIPCHandler(P(pool, 0), O(umf_ipc_handler_handle_t *, 1)))},
        {"umfGetIPCHandle", 4, INV(umfGetIPCHandle(BAD(3) && !BAD(0) ? blk : P(pb, 0), O(umf_ipc_handle_t *, 1), O(size_t *, 2)))},
        {"umfOpenIPCHandle", 3, [&](unsigned mask) {
             umf_ipc_handler_handle_t ih = nullptr;
             umfPoolGetIPCHandler(pool, &ih);
             return umfOpenIPCHandle(P(ih, 0), (umf_ipc_handle_t)P(blk, 1), O(void **, 2)) == UMF_RESULT_ERROR_INVALID_ARGUMENT;
         }},
        {"umfCloseIPCHandle", 2, INV(umfCloseIPCHandle(BAD(0) ? nullptr : c.chance(1, 2) ? blk : pb))},
        {"umfMemspaceNew", 1, INV(umfMemspaceNew(O(umf_memspace_handle_t *, 0)))},
        {"umfMemspaceCreateFromNumaArray", 3, INV(umfMemspaceCreateFromNumaArray(P(ids.data(), 0), BAD(1) ? 0 : ids.size(), O(umf_memspace_handle_t *, 2)))},
        {"umfMemspaceClone", 2, INV(umfMemspaceClone(P(cms, 0), O(umf_memspace_handle_t *, 1)))},
        {"umfMemspaceMemtargetNum", 1, NIL(umfMemspaceMemtargetNum(P(cms, 0)))},
        {"umfMemspaceMemtargetGet", 2, NIL(umfMemspaceMemtargetGet(P(cms, 0), BAD(1) ? (unsigned)(ids.size() + (c.chance(1, 2) ? 0 : c.range(0, UINT32_MAX - ids.size()))) : 0))},
        {"umfMemspaceMemtargetAdd", 3, INV(umfMemspaceMemtargetAdd(P(ms, 0), P(tg, 1)))}, // a target it has
        {"umfMemspaceMemtargetRemove", 3, INV(umfMemspaceMemtargetRemove(BAD(2) && !BAD(0) ? ems : P(ms, 0), P(tg, 1)))},
        {"umfMemspaceFilterById", 3, INV(umfMemspaceFilterById(P(ms, 0), P(ids.data(), 1), BAD(2) ? 0 : 1))},
        {"umfMemspaceFilterByCapacity", 2, INV(umfMemspaceFilterByCapacity(P(ms, 0), BAD(1) ? -(int64_t)c.pow2(0, 62) : 1))},
        {"umfMemspaceUserFilter", 2, INV(umfMemspaceUserFilter(P(ms, 0), BAD(1) ? nullptr : +[](umf_const_memspace_handle_t, umf_const_memtarget_handle_t, void *x) { *(char *)x = 1; return 0; }, S))},
        {"umfPoolCreateFromMemspace", 3, INV(umfPoolCreateFromMemspace(BAD(2) && !BAD(0) ? ems : P(cms, 0), bp, O(umf_memory_pool_handle_t *, 1)))},
        {"umfMemoryProviderCreateFromMemspace", 3, INV(umfMemoryProviderCreateFromMemspace(BAD(2) && !BAD(0) ? ems : P(cms, 0), bp, O(umf_memory_provider_handle_t *, 1)))},
        {"umfMemtargetGetType", 2, INV(umfMemtargetGetType(P(tg, 0), O(umf_memtarget_type_t *, 1)))},
        {"umfMemtargetGetCapacity", 2, INV(umfMemtargetGetCapacity(P(tg, 0), O(size_t *, 1)))},
        {"umfMemtargetGetId", 2, INV(umfMemtargetGetId(P(tg, 0), O(unsigned *, 1)))},
        {"umfMempolicyCreate", 1, INV(umfMempolicyCreate(UMF_MEMPOLICY_BIND, O(umf_mempolicy_handle_t *, 0)))},
        {"umfMempolicySetInterleavePartSize", 2, INV(umfMempolicySetInterleavePartSize(BAD(0) ? nullptr : c.chance(1, 2) ? bp : sp, 4096))},
        {"umfMempolicySetCustomSplitPartitions (more than there can be)", 1, INV(umfMempolicySetCustomSplitPartitions(sp, (umf_mempolicy_split_partition_t *)S, SIZE_MAX / 8 + 1 + c.range(0, 3)))},
        {"umfMempolicySetCustomSplitPartitions", 2, INV(umfMempolicySetCustomSplitPartitions(BAD(0) ? nullptr : c.chance(1, 2) ? bp : ip, (umf_mempolicy_split_partition_t *)S, 1))},
        {"umfOsMemoryProviderParamsCreate", 1, INV(umfOsMemoryProviderParamsCreate(nullptr))},
        {"umfOsMemoryProviderParamsSetProtection", 1, INV(umfOsMemoryProviderParamsSetProtection(nullptr, 1))},
        {"umfOsMemoryProviderParamsSetVisibility", 1, INV(umfOsMemoryProviderParamsSetVisibility(nullptr, UMF_MEM_MAP_PRIVATE))},
        {"umfOsMemoryProviderParamsSetShmName", 1, INV(umfOsMemoryProviderParamsSetShmName(nullptr, "x"))},
        {"umfOsMemoryProviderParamsSetNumaList", 1, INV(umfOsMemoryProviderParamsSetNumaList(nullptr, ids.data(), 1))},
        {"umfOsMemoryProviderParamsSetNumaMode", 1, INV(umfOsMemoryProviderParamsSetNumaMode(nullptr, UMF_NUMA_MODE_BIND))},
        {"umfOsMemoryProviderParamsSetPartSize", 1, INV(umfOsMemoryProviderParamsSetPartSize(nullptr, 1))},
        {"umfOsMemoryProviderParamsSetPartitions", 1, INV(umfOsMemoryProviderParamsSetPartitions(nullptr, (umf_numa_split_partition_t *)S, 1))},
        {"umfFileMemoryProviderParamsCreate", 3, INV(umfFileMemoryProviderParamsCreate(O(umf_file_memory_provider_params_handle_t *, 0), BAD(1) ? nullptr : BAD(2) ? "" : "x"))},
        {"umfFileMemoryProviderParamsSetPath", 1, INV(umfFileMemoryProviderParamsSetPath(nullptr, "x"))},
        {"umfFileMemoryProviderParamsSetProtection", 1, INV(umfFileMemoryProviderParamsSetProtection(nullptr, 1))},
        {"umfFileMemoryProviderParamsSetVisibility", 1, INV(umfFileMemoryProviderParamsSetVisibility(nullptr, UMF_MEM_MAP_PRIVATE))},
        {"umfDevDaxMemoryProviderParamsCreate", 3, INV(umfDevDaxMemoryProviderParamsCreate(O(umf_devdax_memory_provider_params_handle_t *, 0), BAD(1) ? nullptr : BAD(2) ? "" : "x", 1))},
        {"umfDevDaxMemoryProviderParamsSetDeviceDax", 1, INV(umfDevDaxMemoryProviderParamsSetDeviceDax(nullptr, "x", 1))},
        {"umfDevDaxMemoryProviderParamsSetProtection", 1, INV(umfDevDaxMemoryProviderParamsSetProtection(nullptr, 1))},
        {"umfFixedMemoryProviderParamsCreate", 3, INV(umfFixedMemoryProviderParamsCreate(O(umf_fixed_memory_provider_params_handle_t *, 0), P(blk, 1), BAD(2) ? 0 : one))},
        {"umfFixedMemoryProviderParamsSetMemory", 1, INV(umfFixedMemoryProviderParamsSetMemory(nullptr, blk, one))},
        {"umfDisjointPoolParamsCreate", 1, INV(umfDisjointPoolParamsCreate(nullptr))},
        {"umfDisjointPoolParamsSetSlabMinSize", 1, INV(umfDisjointPoolParamsSetSlabMinSize(nullptr, 64))},
        {"umfDisjointPoolParamsSetMaxPoolableSize", 1, INV(umfDisjointPoolParamsSetMaxPoolableSize(nullptr, 64))},
        {"umfDisjointPoolParamsSetCapacity", 1, INV(umfDisjointPoolParamsSetCapacity(nullptr, 64))},
        {"umfDisjointPoolParamsSetMinBucketSize", 2, INV(umfDisjointPoolParamsSetMinBucketSize(P(dp, 0), BAD(1) ? c.range(1, 1000) * 6 : 64))},
        {"umfDisjointPoolParamsSetTrace", 1, INV(umfDisjointPoolParamsSetTrace(nullptr, 1))},
        {"umfDisjointPoolParamsSetSharedLimits", 1, INV(umfDisjointPoolParamsSetSharedLimits(nullptr, nullptr))},
        {"umfDisjointPoolParamsSetName", 2, INV(umfDisjointPoolParamsSetName(P(dp, 0), P("x", 1)))},
        {"umfScalablePoolParamsCreate", 1, INV(umfScalablePoolParamsCreate(nullptr))},
        {"umfScalablePoolParamsSetGranularity", 1, INV(umfScalablePoolParamsSetGranularity(nullptr, 64))},
        {"umfScalablePoolParamsSetKeepAllMemory", 1, INV(umfScalablePoolParamsSetKeepAllMemory(nullptr, true))},
    };
    unsigned n = (unsigned)c.range(1, c.size(20)), multi = 0;
    for (unsigned i = 0; i < n; i++) {
        c.op();
        Fn &f = fns[c.range(0, fns.size() - 1)];
        unsigned mask = (unsigned)c.range(1, (1u << f.n) - 1);
        multi += (mask & (mask - 1)) != 0;
        clean();
        long b0 = ba::live;
        uint64_t k0 = m.nalloc + m.nfree + m.nsplit + m.nmerge + m.init + m.fini;
        c.note("%s with unusable arguments %x", f.name, mask);
        bool ok = f.call(mask);
        PCHECK(c, ok, "refuse", "%s with unusable arguments (mask %x) was not refused", f.name, mask);
        for (char x : S)
            PCHECK(c, x == 0x3c, "written", "%s with unusable arguments (mask %x) wrote its result", f.name, mask);
        PCHECK(c, ba::live == b0, "leak", "%s with unusable arguments (mask %x) left %ld objects", f.name, mask, ba::live - b0);
        PCHECK(c, k0 == m.nalloc + m.nfree + m.nsplit + m.nmerge + m.init + m.fini, "called", "%s with unusable arguments (mask %x) called the provider", f.name, mask);
    }
    // everything is as it was
    void *tag = nullptr;
    PCHECK(c, umfPoolGetTag(pool, &tag) == UMF_RESULT_SUCCESS && tag == (void *)0x1234, "state", "the tag of the pool changed");
    PCHECK(c, umfMemspaceMemtargetNum(ms) == ids.size() && umfMemspaceMemtargetNum(ems) == 0, "state", "a memspace changed");
    PCHECK(c, verify(blk, 8192, 1) == SIZE_MAX && verify(pb, 8192, 2) == SIZE_MAX && verify(db, 100, 3) == SIZE_MAX, "state", "a block changed");
    PCHECK(c, umfPoolByPtr(pb) == pool && umfPoolByPtr(db) == dpool && !umfPoolByPtr(blk), "state", "the pool of a block changed");
    PCHECK(c, umfPoolFree(pool, pb) == UMF_RESULT_SUCCESS && umfPoolFree(dpool, db) == UMF_RESULT_SUCCESS && umfMemoryProviderFree(pr, blk, 8192) == UMF_RESULT_SUCCESS, "state", "a block cannot be freed");
    umfDisjointPoolParamsDestroy(dp);
    umfPoolDestroy(pool);
    umfPoolDestroy(dpool);
    umfMemoryProviderDestroy(pr);
    PCHECK(c, m.live.empty(), "state", "memory of the provider is left over");
    umfMemspaceDestroy(ms);
    umfMemspaceDestroy(ems);
    umfMempolicyDestroy(ip);
    umfMempolicyDestroy(sp);
    umfMempolicyDestroy(bp);
    c.label("arguments");
    if (multi)
        c.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C19",
                         "a setting was given more than once before something was made of the settings; or several arguments of a call were unusable",
                         {{"os", os, 3000, 60000},
                          {"file", file, 2000, 40000},
                          {"devdax", devdax, 2000, 40000},
                          {"fixed", fixed, 2000, 40000},
                          {"disjoint", disjoint_entry, 3000, 60000},
                          {"names", names, 500, 10000},
                          {"scalable", scalable, 600, 10000},
                          {"policy", policy, 2000, 40000},
                          {"arguments", arguments, 3000, 40000}});
}

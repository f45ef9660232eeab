// C29: the Level Zero provider over a stand-in driver. The driver checks every
// call (context, device, pointer, descriptor), keeps the state of the memory
// and of IPC handles, and can refuse any call with any code.
#include "c29/ze.h"
#include <atomic>
#include "umfh.hpp"
#include "wrapba.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <umf/ipc.h>
#include <umf/providers/provider_level_zero.h>
using namespace h;

namespace {
enum Fn { HOST, DEVICE, SHARED, FREE, GETIPC, PUTIPC, OPENIPC, CLOSEIPC, RESIDENT, DEVPROP, FREEEXT, MEMPROP, NFN };
const char *FNAME[] = {"zeMemAllocHost", "zeMemAllocDevice", "zeMemAllocShared", "zeMemFree", "zeMemGetIpcHandle", "zeMemPutIpcHandle",
                       "zeMemOpenIpcHandle", "zeMemCloseIpcHandle", "zeContextMakeMemoryResident", "zeDeviceGetProperties", "zeMemFreeExt",
                       "zeMemGetAllocProperties"};
struct Call {
    Fn fn;
    ze_context_handle_t ctx;
    ze_device_handle_t dev;
    void *ptr;
    size_t size, align;
    uint32_t ordinal, policy;
    bool relaxed;
};
struct Mem {
    ze_context_handle_t ctx;
    size_t size, maplen;
    Fn kind;
    int fd;
    uint64_t ino;
    void *map;
};
struct Opened {
    uint64_t ino;
    size_t len;
    ze_context_handle_t ctx;
};
struct Drv {
    Ctx *c = nullptr;
    std::map<uintptr_t, Mem> mem;
    std::map<int, uint64_t> tokens; // handle fd -> inode
    std::map<uintptr_t, Opened> opened;
    std::vector<Call> log;
    long failIn[NFN] = {};
    ze_result_t failCode = ZE_RESULT_ERROR_DEVICE_LOST;
    uint64_t nfailed = 0;
    std::map<ze_device_handle_t, uint64_t> maxAlloc;
    size_t pageSize = 4096;
    bool strictIpc = true; // fds given to open must be tokens
    uint64_t lastOpenIno = 0;
} D;

bool refuse(Fn f) {
    if (D.failIn[f] > 0 && --D.failIn[f] == 0) {
        D.nfailed++;
        return true;
    }
    return false;
}
uint64_t ino_of(int fd) {
    struct stat st;
    return fstat(fd, &st) ? 0 : (uint64_t)st.st_ino;
}
ze_result_t do_alloc(Fn f, ze_context_handle_t x, size_t size, size_t align, ze_device_handle_t dev, void **out, uint32_t ord, bool relaxed) {
    D.log.push_back({f, x, dev, nullptr, size, align, ord, 0, relaxed});
    if (refuse(f))
        return D.failCode;
    if (size == 0)
        return ZE_RESULT_ERROR_UNSUPPORTED_SIZE;
    if (align & (align - 1))
        return ZE_RESULT_ERROR_UNSUPPORTED_ALIGNMENT;
    if (size > (1ull << 30))
        return ZE_RESULT_ERROR_OUT_OF_DEVICE_MEMORY;
    size_t al = std::max<size_t>(align, 4096), len = up(size, 4096);
    int fd = memfd_create("ze", MFD_CLOEXEC);
    if (fd < 0 || ftruncate(fd, (off_t)len))
        D.c->discard("memfd");
    char *r = (char *)mmap(nullptr, len + al, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED)
        D.c->discard("no address space");
    char *p = (char *)up((size_t)r, al);
    if (p > r)
        munmap(r, (size_t)(p - r));
    munmap(p + len, (size_t)(r + al - p));
    // device memory cannot be touched by the host
    void *m = mmap(p, len, f == DEVICE ? PROT_NONE : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
    if (m == MAP_FAILED)
        D.c->discard("mmap");
    D.mem[(uintptr_t)p] = {x, size, len, f, fd, ino_of(fd), p};
    D.log.back().ptr = p;
    *out = p;
    return ZE_RESULT_SUCCESS;
}
bool relaxed_desc(const void *pNext) {
    if (!pNext)
        return false;
    auto *d = (const ze_relaxed_allocation_limits_exp_desc_t *)pNext;
    PCHECK(*D.c, d->stype == ZE_STRUCTURE_TYPE_RELAXED_ALLOCATION_LIMITS_EXP_DESC && d->flags == ZE_RELAXED_ALLOCATION_LIMITS_EXP_FLAG_MAX_SIZE && !d->pNext,
           "driver.desc", "extension descriptor: stype %#x flags %#x", (int)d->stype, d->flags);
    return true;
}
ze_result_t zHost(ze_context_handle_t x, const ze_host_mem_alloc_desc_t *d, size_t s, size_t a, void **p) {
    PCHECK(*D.c, d && d->stype == ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC && d->flags == 0 && !d->pNext, "driver.desc", "host descriptor");
    return do_alloc(HOST, x, s, a, nullptr, p, 0, false);
}
ze_result_t zDevice(ze_context_handle_t x, const ze_device_mem_alloc_desc_t *d, size_t s, size_t a, ze_device_handle_t dev, void **p) {
    PCHECK(*D.c, d && d->stype == ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC && d->flags == 0, "driver.desc", "device descriptor");
    return do_alloc(DEVICE, x, s, a, dev, p, d->ordinal, relaxed_desc(d->pNext));
}
ze_result_t zShared(ze_context_handle_t x, const ze_device_mem_alloc_desc_t *d, const ze_host_mem_alloc_desc_t *hd, size_t s, size_t a,
                    ze_device_handle_t dev, void **p) {
    PCHECK(*D.c, d && d->stype == ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC && d->flags == 0 && hd && hd->stype == ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC && hd->flags == 0,
           "driver.desc", "shared descriptors");
    return do_alloc(SHARED, x, s, a, dev, p, d->ordinal, relaxed_desc(d->pNext));
}
ze_result_t do_free(Fn f, ze_context_handle_t x, void *p, uint32_t pol) {
    D.log.push_back({f, x, nullptr, p, 0, 0, 0, pol, false});
    auto it = D.mem.find((uintptr_t)p);
    PCHECK(*D.c, it != D.mem.end(), "driver.free.bad", "%s(%p): not an allocation", FNAME[f], p);
    PCHECK(*D.c, it->second.ctx == x, "driver.ctx", "%s: wrong context", FNAME[f]);
    if (refuse(f))
        return D.failCode;
    munmap(it->second.map, it->second.maplen);
    close(it->second.fd);
    D.mem.erase(it);
    return ZE_RESULT_SUCCESS;
}
ze_result_t zFree(ze_context_handle_t x, void *p) { return do_free(FREE, x, p, 0); }
ze_result_t zFreeExt(ze_context_handle_t x, const ze_memory_free_ext_desc_t *d, void *p) {
    PCHECK(*D.c, d && d->stype == ZE_STRUCTURE_TYPE_MEMORY_FREE_EXT_DESC && !d->pNext, "driver.desc", "free descriptor");
    return do_free(FREEEXT, x, p, d->freePolicy);
}
ze_result_t zResident(ze_context_handle_t x, ze_device_handle_t d, void *p, size_t s) {
    D.log.push_back({RESIDENT, x, d, p, s, 0, 0, 0, false});
    auto it = D.mem.find((uintptr_t)p);
    PCHECK(*D.c, it != D.mem.end() && it->second.ctx == x && it->second.size == s, "driver.resident", "making %p+%zu resident", p, s);
    return refuse(RESIDENT) ? D.failCode : ZE_RESULT_SUCCESS;
}
ze_result_t zDevProp(ze_device_handle_t d, ze_device_properties_t *p) {
    D.log.push_back({DEVPROP, nullptr, d, nullptr, 0, 0, 0, 0, false});
    PCHECK(*D.c, p && p->stype == ZE_STRUCTURE_TYPE_DEVICE_PROPERTIES && !p->pNext && D.maxAlloc.count(d), "driver.desc", "device properties");
    if (refuse(DEVPROP))
        return D.failCode;
    p->maxMemAllocSize = D.maxAlloc[d];
    return ZE_RESULT_SUCCESS;
}
ze_result_t zMemProp(ze_context_handle_t x, const void *p, ze_memory_allocation_properties_t *q, ze_device_handle_t *) {
    D.log.push_back({MEMPROP, x, nullptr, (void *)p, 0, 0, 0, 0, false});
    PCHECK(*D.c, q && q->stype == ZE_STRUCTURE_TYPE_MEMORY_ALLOCATION_PROPERTIES && !q->pNext, "driver.desc", "allocation properties");
    auto it = D.mem.upper_bound((uintptr_t)p);
    PCHECK(*D.c, it != D.mem.begin() && (--it, it->first + it->second.maplen > (uintptr_t)p) && it->second.ctx == x, "driver.memprop", "properties of %p", p);
    if (refuse(MEMPROP))
        return D.failCode;
    q->pageSize = it->second.size >= (2u << 20) ? D.pageSize * 16 : D.pageSize;
    return ZE_RESULT_SUCCESS;
}
ze_result_t zGetIpc(ze_context_handle_t x, const void *p, ze_ipc_mem_handle_t *hd) {
    D.log.push_back({GETIPC, x, nullptr, (void *)p, 0, 0, 0, 0, false});
    auto it = D.mem.find((uintptr_t)p);
    PCHECK(*D.c, it != D.mem.end() && it->second.ctx == x, "driver.getipc", "IPC handle of %p, which is not the start of an allocation", p);
    if (refuse(GETIPC))
        return D.failCode;
    int fd = fcntl(it->second.fd, F_DUPFD_CLOEXEC, 100);
    if (fd < 0)
        D.c->discard("dup");
    memset(hd, 0x5a, sizeof *hd);
    memcpy(hd->data, &fd, sizeof fd);
    uint64_t ino = it->second.ino;
    memcpy(hd->data + 8, &ino, 8);
    uint64_t len = it->second.maplen;
    memcpy(hd->data + 16, &len, 8);
    D.tokens[fd] = ino;
    return ZE_RESULT_SUCCESS;
}
ze_result_t zPutIpc(ze_context_handle_t x, ze_ipc_mem_handle_t hd) {
    int fd;
    memcpy(&fd, hd.data, sizeof fd);
    D.log.push_back({PUTIPC, x, nullptr, nullptr, (size_t)fd, 0, 0, 0, false});
    PCHECK(*D.c, D.tokens.count(fd), "driver.putipc", "a handle was put that is not outstanding");
    if (refuse(PUTIPC))
        return D.failCode;
    D.tokens.erase(fd);
    close(fd);
    return ZE_RESULT_SUCCESS;
}
ze_result_t zOpenIpc(ze_context_handle_t x, ze_device_handle_t dev, ze_ipc_mem_handle_t hd, ze_ipc_memory_flags_t fl, void **out) {
    int fd;
    uint64_t ino, len;
    memcpy(&fd, hd.data, sizeof fd);
    memcpy(&ino, hd.data + 8, 8);
    memcpy(&len, hd.data + 16, 8);
    D.log.push_back({OPENIPC, x, dev, nullptr, 0, 0, 0, 0, false});
    PCHECK(*D.c, fl == 0, "driver.openipc", "flags %#x", fl);
    PCHECK(*D.c, fcntl(fd, F_GETFD) >= 0 && ino_of(fd) == ino, "driver.openipc", "the descriptor in the handle (%d) is not the memory's", fd);
    if (D.strictIpc)
        PCHECK(*D.c, D.tokens.count(fd), "driver.openipc", "the handle is not outstanding");
    if (refuse(OPENIPC))
        return D.failCode;
    void *p = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED)
        D.c->discard("mmap");
    D.opened[(uintptr_t)p] = {ino, len, x};
    *out = p;
    return ZE_RESULT_SUCCESS;
}
ze_result_t zCloseIpc(ze_context_handle_t x, const void *p) {
    D.log.push_back({CLOSEIPC, x, nullptr, (void *)p, 0, 0, 0, 0, false});
    auto it = D.opened.find((uintptr_t)p);
    PCHECK(*D.c, it != D.opened.end(), "driver.closeipc", "closing %p, which is not an opened handle", p);
    PCHECK(*D.c, it->second.ctx == x, "driver.ctx", "zeMemCloseIpcHandle: wrong context");
    if (refuse(CLOSEIPC))
        return D.failCode;
    munmap((void *)p, it->second.len);
    D.opened.erase(it);
    return ZE_RESULT_SUCCESS;
}

ze_context_handle_t ctxh(size_t i) { return (ze_context_handle_t)(0xc0000 + i * 64); }
ze_device_handle_t devh(size_t i) { return (ze_device_handle_t)(0xd0000 + i * 64); }

enum Loader { NEW, OLD, BROKEN, NONE };
void *load(Ctx &c, Loader l) {
    D.c = &c;
    if (l == NONE)
        return nullptr;
    const char *b = getenv("VERIF_BUILD");
    std::string f = std::string(b ? b : "") + (l == NEW ? "/bin/libzestub.so" : l == OLD ? "/bin/libzestub_old.so" : "/bin/libzestub_broken.so");
    void *so = dlopen(f.c_str(), RTLD_NOW | RTLD_GLOBAL);
    if (!so)
        c.discard("the stand-in loader is missing");
    auto *z = (struct zestub *)dlsym(so, "zestub");
    z->zeMemAllocHost = zHost;
    z->zeMemAllocDevice = zDevice;
    z->zeMemAllocShared = zShared;
    z->zeMemFree = zFree;
    z->zeMemGetIpcHandle = zGetIpc;
    z->zeMemPutIpcHandle = zPutIpc;
    z->zeMemOpenIpcHandle = zOpenIpc;
    z->zeMemCloseIpcHandle = zCloseIpc;
    z->zeContextMakeMemoryResident = zResident;
    z->zeDeviceGetProperties = zDevProp;
    z->zeMemFreeExt = zFreeExt;
    z->zeMemGetAllocProperties = zMemProp;
    for (size_t i = 0; i < 4; i++)
        D.maxAlloc[devh(i)] = c.oneof<uint64_t>({1, 4096, 65536, 1 << 20, 1ull << 34, UINT64_MAX});
    D.pageSize = c.oneof<size_t>({1, 64, 4096, 65536, 2u << 20});
    return so;
}
ze_result_t gen_code(Ctx &c) {
    return c.oneof<ze_result_t>({ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY, ZE_RESULT_ERROR_INVALID_ARGUMENT, ZE_RESULT_ERROR_DEVICE_LOST, ZE_RESULT_NOT_READY,
                                 ZE_RESULT_ERROR_OUT_OF_DEVICE_MEMORY, ZE_RESULT_ERROR_UNSUPPORTED_SIZE, ZE_RESULT_ERROR_UNINITIALIZED, ZE_RESULT_ERROR_UNKNOWN});
}
umf_result_t mapped(ze_result_t z) {
    return z == ZE_RESULT_SUCCESS                     ? UMF_RESULT_SUCCESS
           : z == ZE_RESULT_ERROR_OUT_OF_HOST_MEMORY ? UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY
           : z == ZE_RESULT_ERROR_INVALID_ARGUMENT   ? UMF_RESULT_ERROR_INVALID_ARGUMENT
                                                      : UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
}

struct Prov {
    umf_memory_provider_handle_t h = nullptr;
    ze_context_handle_t ctx = nullptr;
    ze_device_handle_t dev = nullptr;
    int type = 0;
    std::vector<ze_device_handle_t> res;
    int policy = 0;
    uint32_t ordinal = 0;
    size_t minPage = 0;
    std::map<uintptr_t, size_t> live;
};

// what the driver must be asked for one allocation by this provider; checks log[from..]
void check_alloc_calls(Ctx &c, const Prov &p, size_t from, size_t size, size_t align, bool ok, const char *what) {
    size_t i = from;
    PCHECK(c, i < D.log.size(), "alloc.nocall", "%s: the driver was not asked", what);
    const Call &a = D.log[i++];
    Fn want = p.type == UMF_MEMORY_TYPE_HOST ? HOST : p.type == UMF_MEMORY_TYPE_DEVICE ? DEVICE : SHARED;
    PCHECK(c, a.fn == want, "alloc.fn", "%s: %s was called for memory type %d", what, FNAME[a.fn], p.type);
    PCHECK(c, a.ctx == p.ctx && a.dev == p.dev && a.size == size && a.align == align, "alloc.args",
           "%s: context %p device %p size %zu alignment %zu; expected %p %p %zu %zu", what, (void *)a.ctx, (void *)a.dev, a.size, a.align, (void *)p.ctx,
           (void *)p.dev, size, align);
    if (want != HOST) {
        PCHECK(c, a.ordinal == p.ordinal, "alloc.ordinal", "%s: ordinal %u, not %u", what, a.ordinal, p.ordinal);
        PCHECK(c, a.relaxed == (size > D.maxAlloc[p.dev]), "alloc.relaxed", "%s: size %zu, limit %" PRIu64 ", relaxed limits %d", what, size, D.maxAlloc[p.dev], a.relaxed);
    }
    if (!ok)
        return;
    for (auto d : p.res) {
        PCHECK(c, i < D.log.size() && D.log[i].fn == RESIDENT && D.log[i].dev == d && D.log[i].ptr == a.ptr, "alloc.resident",
               "%s: not made resident on every device asked for, in turn", what);
        i++;
    }
}

Prov gen_prov(Ctx &c, bool valid) {
    Prov p;
    p.ctx = ctxh(c.range(0, 1));
    p.type = c.oneof<int>({UMF_MEMORY_TYPE_DEVICE, UMF_MEMORY_TYPE_SHARED, UMF_MEMORY_TYPE_HOST});
    if (p.type != UMF_MEMORY_TYPE_HOST)
        p.dev = devh(c.range(0, 3));
    for (size_t n = c.chance(1, 2) ? c.range(0, 4) : 0; n > 0; n--)
        p.res.push_back(devh(c.range(0, 3)));
    p.policy = (int)c.range(0, 2);
    p.ordinal = (uint32_t)c.oneof<uint64_t>({0, 1, 7, UINT32_MAX});
    if (!valid) {
        switch (c.range(0, 3)) {
        case 0:
            p.ctx = nullptr;
            break;
        case 1: // device where none belongs, or none where one is needed
            p.dev = p.dev ? nullptr : devh(0);
            break;
        case 2:
            p.type = c.oneof<int>({UMF_MEMORY_TYPE_UNKNOWN, 4, 77});
            p.dev = devh(0);
            break;
        default:
            p.type = UMF_MEMORY_TYPE_UNKNOWN;
            p.dev = nullptr;
        }
    }
    return p;
}

umf_level_zero_memory_provider_params_handle_t make_params(Ctx &c, const Prov &p, std::vector<ze_device_handle_t> &res) {
    umf_level_zero_memory_provider_params_handle_t hp = nullptr;
    umf_result_t r = umfLevelZeroMemoryProviderParamsCreate(&hp);
    PCHECK(c, r == UMF_RESULT_SUCCESS && hp, "params.create", "%s", rs(r));
    res = p.res;
    if (p.ctx)
        PCHECK(c, umfLevelZeroMemoryProviderParamsSetContext(hp, p.ctx) == UMF_RESULT_SUCCESS, "params.ctx", "set context");
    else
        PCHECK(c, umfLevelZeroMemoryProviderParamsSetContext(hp, nullptr) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "params.ctx", "a NULL context was accepted");
    PCHECK(c, umfLevelZeroMemoryProviderParamsSetDevice(hp, p.dev) == UMF_RESULT_SUCCESS, "params.dev", "set device");
    PCHECK(c, umfLevelZeroMemoryProviderParamsSetMemoryType(hp, (umf_usm_memory_type_t)p.type) == UMF_RESULT_SUCCESS, "params.type", "set type");
    PCHECK(c, umfLevelZeroMemoryProviderParamsSetResidentDevices(hp, nullptr, 1) == UMF_RESULT_ERROR_INVALID_ARGUMENT, "params.res", "no array, one device");
    PCHECK(c, umfLevelZeroMemoryProviderParamsSetResidentDevices(hp, res.empty() ? nullptr : res.data(), (uint32_t)res.size()) == UMF_RESULT_SUCCESS, "params.res", "set resident");
    PCHECK(c, umfLevelZeroMemoryProviderParamsSetFreePolicy(hp, (umf_level_zero_memory_provider_free_policy_t)p.policy) == UMF_RESULT_SUCCESS, "params.policy", "set policy");
    PCHECK(c, umfLevelZeroMemoryProviderParamsSetDeviceOrdinal(hp, p.ordinal) == UMF_RESULT_SUCCESS, "params.ord", "set ordinal");
    return hp;
}

void check_native(Ctx &c, umf_memory_provider_handle_t hp, umf_result_t r, ze_result_t code) {
    if (r != UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC)
        return;
    const char *msg = (const char *)0x10; // a value no one may leave there
    int32_t err = -12345;
    umfMemoryProviderGetLastNativeError(hp, &msg, &err);
    PCHECK(c, err == (int32_t)code, "native", "native error %#x, the driver's was %#x", err, (int)code);
    PCHECK(c, msg != (const char *)0x10, "native.msg", "the message is left unset");
    if (msg)
        (void)!strlen(msg);
}

// creates with possible failures; returns whether it exists
bool create(Ctx &c, Prov &p, bool valid, Loader l) {
    std::vector<ze_device_handle_t> res;
    auto hp = make_params(c, p, res);
    size_t mem0 = D.mem.size();
    long live0 = ba::live;
    memset(D.failIn, 0, sizeof D.failIn);
    uint64_t f0 = D.nfailed;
    long bf0 = ba::failed;
    D.failCode = gen_code(c);
    Fn ff = NFN;
    if (c.chance(1, 4)) {
        ff = c.oneof<Fn>({HOST, DEVICE, SHARED, RESIDENT, DEVPROP, MEMPROP, FREE, FREEEXT});
        D.failIn[ff] = (long)c.range(1, 2);
    } else if (c.chance(1, 5))
        ba::failIn = (long)c.range(1, 3);
    size_t from = D.log.size();
    p.h = (umf_memory_provider_handle_t)(uintptr_t)0x77;
    umf_memory_provider_handle_t hh = nullptr;
    umf_result_t r = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), hp, &hh);
    ba::failIn = 0;
    memset(D.failIn, 0, sizeof D.failIn);
    bool refused = D.nfailed > f0, oom = ba::failed > bf0;
    c.note("create type %d ctx %p dev %p resident %zu policy %d -> %s%s%s", p.type, (void *)p.ctx, (void *)p.dev, p.res.size(), p.policy, rs(r),
           refused ? " (driver refused)" : "", oom ? " (no memory)" : "");
    c.op();
    bool freeRefused = refused && (ff == FREE || ff == FREEEXT);
    // the params may go or change as soon as the provider exists
    for (auto &d : res)
        d = devh(3);
    umfLevelZeroMemoryProviderParamsDestroy(hp);
    if (!valid || l == NONE || l == BROKEN || oom || (refused && !freeRefused) || (l == OLD && p.policy != 0)) {
        if (!oom || r != UMF_RESULT_SUCCESS) // some refusals are harmless
            PCHECK(c, r != UMF_RESULT_SUCCESS && valid_code(r), "create.accepted", "creation succeeded although %s", !valid ? "the parameters are invalid" : l != NEW ? "the driver lacks what is needed" : "the driver refused a call");
        if (oom)
            PCHECK(c, r == UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY || r == UMF_RESULT_SUCCESS, "create.oom", "out of memory, yet %s", rs(r));
        else if (valid && (l == NONE || l == BROKEN))
            PCHECK(c, r == UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE, "create.dep", "without a usable driver creation said %s", rs(r));
        else if (valid && refused && l == NEW)
            PCHECK(c, r == mapped(D.failCode), "create.code", "the driver said %#x, creation %s", (int)D.failCode, rs(r));
        else if (!valid && (!p.ctx || (p.type == UMF_MEMORY_TYPE_HOST) == (p.dev != nullptr)))
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT, "create.invalid", "invalid parameters gave %s", rs(r));
        if (r != UMF_RESULT_SUCCESS) {
            PCHECK(c, D.mem.size() == mem0, "create.leak", "failed creation left %zu blocks of driver memory", D.mem.size() - mem0);
            PCHECK(c, ba::live - live0 <= -1, "create.baleak", "failed creation left %ld pieces of the library's memory", ba::live - live0 + 1);
            return false;
        }
    }
    PCHECK(c, r == UMF_RESULT_SUCCESS && hh, "create.refused", "valid parameters gave %s", rs(r));
    p.h = hh;
    if (!freeRefused)
        PCHECK(c, D.mem.size() == mem0, "create.leak", "creation left %zu blocks of driver memory", D.mem.size() - mem0);
    // any probe allocations were made like real ones
    for (size_t i = from; i < D.log.size(); i++)
        if (D.log[i].fn <= SHARED)
            check_alloc_calls(c, p, i, D.log[i].size, D.log[i].align, true, "probe");
    p.minPage = D.pageSize;
    size_t pg = 0;
    r = umfMemoryProviderGetMinPageSize(hh, nullptr, &pg);
    PCHECK(c, r == UMF_RESULT_SUCCESS && pg == p.minPage, "minpage", "%s %zu, the driver's is %zu", rs(r), pg, p.minPage);
    r = umfMemoryProviderGetRecommendedPageSize(hh, 0, &pg);
    PCHECK(c, r == UMF_RESULT_SUCCESS && pg == p.minPage, "recpage", "%s %zu, the driver's is %zu", rs(r), pg, p.minPage);
    PCHECK(c, !strcmp(umfMemoryProviderGetName(hh), "LEVEL_ZERO"), "name", "%s", umfMemoryProviderGetName(hh));
    return true;
}

size_t gen_size(Ctx &c, const Prov &p) {
    uint64_t m = p.dev ? D.maxAlloc[p.dev] : 65536;
    if (m <= (64u << 20) && c.chance(1, 2))
        return (size_t)(m + c.range(0, 2) - (m > 1 ? 1 : 0));
    return c.chance(1, 12) ? c.oneof<size_t>({0, (1ull << 30) + 1, SIZE_MAX}) : c.size(4 << 20);
}

void prov_life(Ctx &c, Loader l, unsigned most) {
    void *so = load(c, l);
    std::vector<Prov> ps;
    size_t leaked = 0;
    int n = (int)c.range(1, most);
    for (int i = 0; i < n; i++) {
        if (ps.size() < 3 && (ps.empty() || c.chance(1, 8))) {
            bool valid = !c.chance(1, 5);
            Prov p = gen_prov(c, valid);
            size_t m0 = D.mem.size();
            if (create(c, p, valid, l)) {
                leaked += D.mem.size() - m0;
                ps.push_back(p);
            } else
                c.label("creation refused");
            continue;
        }
        size_t k = c.index_of(ps.size());
        Prov &p = ps[k];
        memset(D.failIn, 0, sizeof D.failIn);
        D.failCode = gen_code(c);
        uint64_t f0 = D.nfailed;
        size_t from = D.log.size();
        c.op();
        switch (c.weighted({8, 6, 2, 1, 1, 2})) {
        case 0: {
            size_t s = gen_size(c, p), a = c.oneof<size_t>({0, 1, 8, 64, 4096, 65536, 3});
            if (c.chance(1, 4)) {
                Fn want = p.type == UMF_MEMORY_TYPE_HOST ? HOST : p.type == UMF_MEMORY_TYPE_DEVICE ? DEVICE : SHARED;
                if (!p.res.empty() && c.chance(2, 3))
                    D.failIn[RESIDENT] = (long)c.range(1, p.res.size());
                else
                    D.failIn[want] = 1;
            }
            size_t m0 = D.mem.size();
            void *q = nullptr;
            umf_result_t r = umfMemoryProviderAlloc(p.h, s, a, &q);
            bool ref = D.nfailed > f0;
            c.note("P%zu alloc %zu align %zu -> %s %p%s", k, s, a, rs(r), q, ref ? " (refused)" : "");
            ze_result_t natural = s == 0 ? ZE_RESULT_ERROR_UNSUPPORTED_SIZE : (a & (a - 1)) ? ZE_RESULT_ERROR_UNSUPPORTED_ALIGNMENT : s > (1ull << 30) ? ZE_RESULT_ERROR_OUT_OF_DEVICE_MEMORY : ZE_RESULT_SUCCESS;
            ze_result_t z = ref ? D.failCode : natural;
            PCHECK(c, r == mapped(z), "alloc.code", "the driver said %#x, the allocation %s", (int)z, rs(r));
            check_alloc_calls(c, p, from, s, a, z == ZE_RESULT_SUCCESS, "alloc");
            if (z != ZE_RESULT_SUCCESS) {
                PCHECK(c, D.mem.size() == m0, "alloc.leak", "a failed allocation left %zu blocks of driver memory", D.mem.size() - m0);
                check_native(c, p.h, r, z);
                c.label("failed allocations");
                if (ref)
                    c.nontrivial();
            } else {
                PCHECK(c, q == D.log[from].ptr, "alloc.ptr", "returned %p, the driver gave %p", q, D.log[from].ptr);
                PCHECK(c, D.log.size() == from + 1 + p.res.size(), "alloc.calls", "%zu calls for one allocation", D.log.size() - from);
                p.live[(uintptr_t)q] = s;
            }
            break;
        }
        case 1: {
            if (p.live.empty())
                break;
            auto it = p.live.begin();
            std::advance(it, (long)c.index_of(p.live.size()));
            Fn want = p.policy && l == NEW ? FREEEXT : FREE;
            if (c.chance(1, 6))
                D.failIn[want] = 1;
            umf_result_t r = umfMemoryProviderFree(p.h, (void *)it->first, c.chance(1, 2) ? it->second : 0);
            bool ref = D.nfailed > f0;
            c.note("P%zu free %p -> %s%s", k, (void *)it->first, rs(r), ref ? " (refused)" : "");
            PCHECK(c, D.log.size() == from + 1 && D.log[from].fn == want, "free.fn", "freed with %s", D.log.size() > from ? FNAME[D.log[from].fn] : "nothing");
            PCHECK(c, D.log[from].ptr == (void *)it->first && D.log[from].ctx == p.ctx, "free.args", "freed %p", D.log[from].ptr);
            uint32_t pol = p.policy == UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_BLOCKING_FREE ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_BLOCKING_FREE
                           : p.policy == UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFER_FREE  ? ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_DEFER_FREE
                                                                                                 : 0;
            PCHECK(c, D.log[from].policy == pol, "free.policy", "policy %#x, asked for %#x", D.log[from].policy, pol);
            PCHECK(c, r == (ref ? mapped(D.failCode) : UMF_RESULT_SUCCESS), "free.code", "the driver said %#x, the free %s", ref ? (int)D.failCode : 0, rs(r));
            if (ref)
                check_native(c, p.h, r, D.failCode);
            else
                p.live.erase(it);
            break;
        }
        case 2: {
            if (p.live.empty())
                break;
            auto it = p.live.begin();
            std::advance(it, (long)c.index_of(p.live.size()));
            if (c.chance(1, 6))
                D.failIn[MEMPROP] = 1;
            size_t pg = 0;
            umf_result_t r = umfMemoryProviderGetMinPageSize(p.h, (void *)it->first, &pg);
            bool ref = D.nfailed > f0;
            if (ref) {
                PCHECK(c, r == mapped(D.failCode), "minpage.code", "%s", rs(r));
                check_native(c, p.h, r, D.failCode);
            } else
                PCHECK(c, r == UMF_RESULT_SUCCESS && pg == (it->second >= (2u << 20) ? D.pageSize * 16 : D.pageSize), "minpage.ptr", "%s %zu", rs(r), pg);
            break;
        }
        case 3: {
            umf_result_t r = umfMemoryProviderFree(p.h, nullptr, 0);
            PCHECK(c, r == UMF_RESULT_SUCCESS && D.log.size() == from, "free.null", "freeing NULL: %s, %zu driver calls", rs(r), D.log.size() - from);
            if (!p.live.empty()) {
                void *q = (void *)p.live.begin()->first;
                size_t s = p.live.begin()->second;
                umf_result_t e[4] = {umfMemoryProviderPurgeLazy(p.h, q, s), umfMemoryProviderPurgeForce(p.h, q, s),
                                     s > 1 ? umfMemoryProviderAllocationSplit(p.h, q, s, s / 2) : UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_NOT_SUPPORTED};
                for (auto x : e)
                    PCHECK(c, x == UMF_RESULT_ERROR_NOT_SUPPORTED, "unsupported", "%s", rs(x));
            }
            break;
        }
        case 5: { // handles, each call of the driver refusable
            if (p.live.empty())
                break;
            auto it = p.live.begin();
            std::advance(it, (long)c.index_of(p.live.size()));
            size_t hs = 0;
            PCHECK(c, umfMemoryProviderGetIPCHandleSize(p.h, &hs) == UMF_RESULT_SUCCESS && hs && D.log.size() == from, "ipc.size", "handle size");
            std::vector<char> hd(hs, 0x3c);
            auto tok0 = D.tokens;
            // a call that may be refused: the code is the driver's, and it can be made again
            auto call = [&](Fn f, const char *what, auto &&fn) {
                bool again = c.chance(1, 3);
                for (int t = 0; t < (again ? 2 : 1); t++) {
                    memset(D.failIn, 0, sizeof D.failIn);
                    if (again && t == 0)
                        D.failIn[f] = 1;
                    uint64_t g0 = D.nfailed;
                    size_t l0 = D.log.size();
                    umf_result_t r = fn();
                    bool ref = D.nfailed > g0;
                    c.note("P%zu %s -> %s%s", k, what, rs(r), ref ? " (refused)" : "");
                    PCHECK(c, r == (ref ? mapped(D.failCode) : UMF_RESULT_SUCCESS), "ipc.code", "%s: the driver said %#x, the provider %s", what, ref ? (int)D.failCode : 0,
                           rs(r));
                    if (ref)
                        check_native(c, p.h, r, D.failCode), c.label("refused IPC calls"), c.nontrivial();
                    bool none = f == PUTIPC && D.log.size() == l0; // a driver without this call
                    PCHECK(c, none || (D.log.size() == l0 + 1 && D.log[l0].fn == f && D.log[l0].ctx == p.ctx), "ipc.calls", "%s made %zu driver calls", what,
                           D.log.size() - l0);
                }
            };
            call(GETIPC, "get IPC", [&] { return umfMemoryProviderGetIPCHandle(p.h, (void *)it->first, it->second, hd.data()); });
            void *q = nullptr;
            call(OPENIPC, "open IPC", [&] { return umfMemoryProviderOpenIPCHandle(p.h, hd.data(), &q); });
            auto o = D.opened.find((uintptr_t)q);
            PCHECK(c, o != D.opened.end() && o->second.ino == D.mem[it->first].ino, "ipc.open.ptr", "%p is not the mapping of the block", q);
            call(CLOSEIPC, "close IPC", [&] { return umfMemoryProviderCloseIPCHandle(p.h, q, it->second); });
            PCHECK(c, !D.opened.count((uintptr_t)q), "ipc.close", "%p is still open", q);
            call(PUTIPC, "put IPC", [&] { return umfMemoryProviderPutIPCHandle(p.h, hd.data()); });
            if (l == OLD)
                for (auto &t : std::map(D.tokens))
                    if (!tok0.count(t.first))
                        close(t.first), D.tokens.erase(t.first);
            PCHECK(c, D.tokens == tok0, "ipc.tokens", "%zu handles outstanding, %zu before", D.tokens.size(), tok0.size());
            break;
        }
        default:
            if (p.live.empty() && ps.size() > 1) {
                umfMemoryProviderDestroy(p.h);
                ps.erase(ps.begin() + (long)k);
            }
        }
        size_t live = leaked;
        for (auto &x : ps)
            live += x.live.size();
        PCHECK(c, D.mem.size() == live, "balance", "%zu blocks live in the driver, %zu handed out", D.mem.size(), live);
        if (live > 2)
            c.nontrivial();
    }
    memset(D.failIn, 0, sizeof D.failIn);
    for (auto &p : ps) {
        for (auto &b : p.live)
            PCHECK(c, umfMemoryProviderFree(p.h, (void *)b.first, b.second) == UMF_RESULT_SUCCESS, "free.end", "free");
        umfMemoryProviderDestroy(p.h);
    }
    PCHECK(c, D.mem.size() == leaked, "balance.end", "%zu blocks left in the driver", D.mem.size());
    umfTearDown();
    PCHECK(c, ba::live == 0, "baleak.end", "%ld pieces of the library's memory left", ba::live.load());
    if (so)
        dlclose(so);
}
void prov_case(Ctx &c) { prov_life(c, c.chance(1, 12) ? (Loader)c.range(1, 3) : NEW, c.thorough ? 160 : 60); }
// the library is started again, with another loader or none
void restart_case(Ctx &c) {
    unsigned n = (unsigned)c.range(2, 4);
    for (unsigned i = 0; i < n; i++) {
        Loader l = c.chance(1, 2) ? (Loader)c.range(1, 3) : NEW;
        c.note("life %u: loader %d", i, (int)l);
        prov_life(c, l, 12);
        D = Drv();
        PCHECK(c, umfInit() == 0, "init", "umfInit failed");
    }
    c.nontrivial();
}

// ---- pools over the provider, and IPC ------------------------------------
struct Blk {
    size_t pool, size;
    uint64_t tag;
    bool host; // can be touched
};
struct Hd {
    umf_ipc_handle_t h;
    size_t size;
    uintptr_t ptr;
};
struct PoolS {
    Prov p;
    umf_memory_pool_handle_t h = nullptr;
    int kind = 0;
    DPar d;
};
void gen_pool(Ctx &c, PoolS &s, Loader l) {
    s.p = gen_prov(c, true);
    if (l == OLD)
        s.p.policy = 0;
    s.kind = (int)c.weighted({3, 3, s.p.type == UMF_MEMORY_TYPE_DEVICE ? 0u : 1u});
    s.d = gen_dpar(c);
    s.d.slabMin = c.oneof<size_t>({4096, 65536, 1u << 20});
    s.d.trace = 0;
}
// draws nothing: the consumer process uses it as well
void make_pool(Ctx &c, PoolS &s) {
    std::vector<ze_device_handle_t> res;
    auto hp = make_params(c, s.p, res);
    umf_result_t r = umfMemoryProviderCreate(umfLevelZeroMemoryProviderOps(), hp, &s.p.h);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "create.refused", "valid parameters gave %s", rs(r));
    umfLevelZeroMemoryProviderParamsDestroy(hp);
    if (s.kind == 0)
        r = umfPoolCreate(umfProxyPoolOps(), s.p.h, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &s.h);
    else if (s.kind == 1) {
        auto dp = disjoint_params(s.d, nullptr);
        r = umfPoolCreate(umfDisjointPoolOps(), s.p.h, dp, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &s.h);
        umfDisjointPoolParamsDestroy(dp);
    } else
        r = umfPoolCreate(umfScalablePoolOps(), s.p.h, nullptr, UMF_POOL_CREATE_FLAG_OWN_PROVIDER, &s.h);
    PCHECK(c, r == UMF_RESULT_SUCCESS && s.h, "pool.create", "pool kind %d: %s", s.kind, rs(r));
}
const std::pair<const uintptr_t, Mem> *mem_of(uintptr_t p) {
    auto it = D.mem.upper_bound(p);
    if (it == D.mem.begin())
        return nullptr;
    --it;
    return it->first + it->second.maplen > p ? &*it : nullptr;
}
int count_fds() {
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) {
        while (readdir(d))
            n++;
        closedir(d);
    }
    return n;
}

// the consumer process: opens what it is sent, checks it, closes it
struct Msg {
    uint32_t hsize; // 0: finish
    uint64_t off, size, tag, ino;
    uint32_t host;
    uint32_t keep; // leave it open until the end
    uint32_t fail; // the driver refuses to open it with this code
    unsigned char handle[512];
};
[[noreturn]] void consumer(Ctx &c, int rd, int wr, PoolS s) {
    D.strictIpc = false;
    // so that descriptors mean different things here
    for (int i = 0; i < 5; i++)
        (void)!open("/dev/null", O_RDONLY);
    make_pool(c, s);
    umf_ipc_handler_handle_t hd = nullptr;
    PCHECK(c, umfPoolGetIPCHandler(s.h, &hd) == UMF_RESULT_SUCCESS, "ipc.handler", "no handler");
    std::vector<void *> kept;
    Msg m;
    while (read(rd, &m, sizeof m) == (ssize_t)sizeof m && m.hsize) {
        int fds = count_fds();
        void *p = nullptr;
        size_t from = D.log.size();
        if (m.fail) {
            D.failCode = (ze_result_t)m.fail;
            D.failIn[OPENIPC] = 1;
        }
        umf_result_t r = umfOpenIPCHandle(hd, (umf_ipc_handle_t)m.handle, &p);
        if (m.fail) {
            bool asked = D.failIn[OPENIPC] == 0;
            memset(D.failIn, 0, sizeof D.failIn);
            PCHECK(c, asked ? r == mapped(D.failCode) : r == UMF_RESULT_SUCCESS, "ipc.open.code", "the driver said %#x in another process, %s", (int)m.fail, rs(r));
            PCHECK(c, count_fds() == fds, "ipc.fd", "a refused open left %d descriptors", count_fds() - fds);
            if (!r)
                PCHECK(c, umfCloseIPCHandle(p) == UMF_RESULT_SUCCESS, "ipc.close", "close");
            char ok = 1;
            (void)!write(wr, &ok, 1);
            continue;
        }
        PCHECK(c, r == UMF_RESULT_SUCCESS, "ipc.open", "opening in another process: %s", rs(r));
        for (size_t i = from; i < D.log.size(); i++)
            if (D.log[i].fn == OPENIPC)
                PCHECK(c, D.log[i].ctx == s.p.ctx && D.log[i].dev == s.p.dev, "ipc.open.args", "opened with another context or device");
        auto it = D.opened.upper_bound((uintptr_t)p);
        PCHECK(c, it != D.opened.begin() && (--it, it->first + it->second.len > (uintptr_t)p), "ipc.open.ptr", "%p is not in an opened mapping", p);
        PCHECK(c, it->second.ino == m.ino && (uintptr_t)p - it->first == m.off, "ipc.open.where", "opened at offset %zu, not %" PRIu64 ", %s memory",
               (size_t)((uintptr_t)p - it->first), m.off, it->second.ino == m.ino ? "of the right" : "of other");
        if (m.host)
            PCHECK(c, verify(p, m.size, m.tag) == SIZE_MAX, "ipc.open.content", "other bytes are seen");
        PCHECK(c, count_fds() == fds, "ipc.fd", "opening left %d descriptors", count_fds() - fds);
        if (m.keep)
            kept.push_back(p);
        else
            PCHECK(c, umfCloseIPCHandle(p) == UMF_RESULT_SUCCESS, "ipc.close", "close");
        char ok = 1;
        (void)!write(wr, &ok, 1);
    }
    for (void *p : kept)
        PCHECK(c, umfCloseIPCHandle(p) == UMF_RESULT_SUCCESS, "ipc.close", "close");
    umfPoolDestroy(s.h);
    PCHECK(c, D.opened.empty(), "ipc.balance", "%zu handles still open when the pool is gone", D.opened.size());
    _exit(0);
}

void pool_case(Ctx &c) {
    Loader l = c.chance(1, 6) ? OLD : NEW;
    load(c, l);
    // consumer first, so that it inherits nothing
    int a[2], b[2];
    pid_t kid = 0;
    bool remote = c.chance(1, 3);
    prctl(PR_SET_PTRACER, PR_SET_PTRACER_ANY);
    if (remote) {
        if (pipe(a) || pipe(b))
            c.discard("pipe");
        PoolS cs;
        gen_pool(c, cs, l);
        kid = fork();
        if (kid == 0) {
            close(a[1]);
            close(b[0]);
            consumer(c, a[0], b[1], cs);
        }
        close(a[0]);
        close(b[1]);
    }
    std::vector<PoolS> pools(c.range(1, 3));
    for (auto &s : pools) {
        gen_pool(c, s, l);
        make_pool(c, s);
    }
    std::map<uintptr_t, Blk> live;
    std::vector<Hd> handles;
    std::vector<std::pair<void *, size_t>> opens; // ptr, handle's block
    uint64_t tag = 1;
    int n = (int)c.range(1, c.thorough ? 200 : 80);
    for (int i = 0; i < n; i++) {
        c.op();
        switch (c.weighted({8, 5, 4, 3, 3, 2})) {
        case 0: {
            size_t k = c.index_of(pools.size());
            size_t s = c.size(c.chance(1, 4) ? 4 << 20 : 70000), al = c.oneof<size_t>({1, 8, 64, 4096});
            if (pools[k].kind == 0 && s == 0)
                s = 1;
            bool inject = c.chance(1, 8);
            uint64_t f0 = D.nfailed;
            if (inject) {
                D.failCode = gen_code(c);
                D.failIn[pools[k].p.type == UMF_MEMORY_TYPE_HOST ? HOST : pools[k].p.type == UMF_MEMORY_TYPE_DEVICE ? DEVICE : SHARED] = 1;
                if (!pools[k].p.res.empty() && c.chance(1, 2)) {
                    memset(D.failIn, 0, sizeof D.failIn);
                    D.failIn[RESIDENT] = (long)c.range(1, pools[k].p.res.size());
                }
            }
            void *p = al > 8 ? umfPoolAlignedMalloc(pools[k].h, s, al) : umfPoolMalloc(pools[k].h, s);
            bool ref = D.nfailed > f0;
            memset(D.failIn, 0, sizeof D.failIn);
            c.note("pool %zu alloc %zu -> %p%s", k, s, p, ref ? " (refused)" : "");
            if (!p) {
                PCHECK(c, ref, "pool.alloc", "allocation of %zu bytes from pool kind %d failed, the driver did not", s, pools[k].kind);
                c.label("refused");
                c.nontrivial();
                break;
            }
            auto *m = mem_of((uintptr_t)p);
            PCHECK(c, m && (uintptr_t)p + s <= m->first + m->second.maplen && m->second.ctx == pools[k].p.ctx, "pool.where", "%p+%zu is not in the driver's memory", p, s);
            bool host = m->second.kind != DEVICE;
            auto nx = live.lower_bound((uintptr_t)p);
            PCHECK(c, nx == live.end() || nx->first >= (uintptr_t)p + std::max<size_t>(s, 1), "pool.overlap", "overlaps the next block");
            if (nx != live.begin())
                PCHECK(c, (--nx)->first + nx->second.size <= (uintptr_t)p, "pool.overlap", "overlaps the previous block");
            if (host)
                fill(p, s, tag);
            live[(uintptr_t)p] = {k, s, tag++, host};
            break;
        }
        case 1: {
            if (live.empty())
                break;
            auto it = live.begin();
            std::advance(it, (long)c.index_of(live.size()));
            // no handle of it is open or kept
            bool used = false;
            for (auto &x : handles)
                used |= x.ptr == it->first;
            for (auto &x : opens)
                used |= x.second == it->first;
            if (used)
                break;
            if (it->second.host)
                PCHECK(c, verify((void *)it->first, it->second.size, it->second.tag) == SIZE_MAX, "pool.content", "content changed");
            umf_result_t r = umfFree((void *)it->first);
            c.note("free %p -> %s", (void *)it->first, rs(r));
            PCHECK(c, r == UMF_RESULT_SUCCESS, "pool.free", "%s", rs(r));
            live.erase(it);
            break;
        }
        case 2: {
            if (live.empty())
                break;
            auto it = live.begin();
            std::advance(it, (long)c.index_of(live.size()));
            bool inject = c.chance(1, 8);
            uint64_t f0 = D.nfailed;
            if (inject) {
                D.failCode = gen_code(c);
                D.failIn[GETIPC] = 1;
            }
            umf_ipc_handle_t hd = nullptr;
            size_t hs = 0;
            umf_result_t r = umfGetIPCHandle((void *)it->first, &hd, &hs);
            bool ref = D.nfailed > f0;
            memset(D.failIn, 0, sizeof D.failIn);
            c.note("get IPC of %p -> %s", (void *)it->first, rs(r));
            if (ref) {
                PCHECK(c, r == mapped(D.failCode), "ipc.get.code", "the driver said %#x, %s", (int)D.failCode, rs(r));
                c.nontrivial();
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS && hd && hs <= sizeof(Msg::handle), "ipc.get", "%s size %zu", rs(r), hs);
            handles.push_back({hd, hs, it->first});
            break;
        }
        case 3: {
            if (handles.empty())
                break;
            size_t k = c.index_of(handles.size());
            PCHECK(c, umfPutIPCHandle(handles[k].h) == UMF_RESULT_SUCCESS, "ipc.put", "put");
            handles.erase(handles.begin() + (long)k);
            break;
        }
        case 4: {
            if (handles.empty())
                break;
            Hd &x = handles[c.index_of(handles.size())];
            auto *m = mem_of(x.ptr);
            PCHECK(c, m, "pool.where", "block without memory");
            Blk &bl = live[x.ptr];
            c.nontrivial();
            if (remote && c.chance(1, 2)) {
                Msg ms{};
                ms.hsize = (uint32_t)x.size;
                ms.off = x.ptr - m->first;
                ms.size = bl.size;
                ms.tag = bl.tag;
                ms.ino = m->second.ino;
                ms.host = bl.host;
                ms.keep = 0;
                ms.fail = c.chance(1, 6) ? (uint32_t)gen_code(c) : 0;
                memcpy(ms.handle, x.h, x.size);
                char ok = 0;
                if (write(a[1], &ms, sizeof ms) != (ssize_t)sizeof ms || read(b[0], &ok, 1) != 1) {
                    int st = 0;
                    waitpid(kid, &st, 0);
                    if (c.sh->failed)
                        _exit(1); // the consumer reported
                    c.fail("ipc.consumer", "the consumer process died (%#x)", st);
                }
                c.label("opened in another process");
                break;
            }
            size_t k = c.index_of(pools.size());
            umf_ipc_handler_handle_t hd = nullptr;
            PCHECK(c, umfPoolGetIPCHandler(pools[k].h, &hd) == UMF_RESULT_SUCCESS, "ipc.handler", "no handler");
            bool inject = c.chance(1, 8);
            uint64_t f0 = D.nfailed;
            if (inject) {
                D.failCode = gen_code(c);
                D.failIn[OPENIPC] = 1;
            }
            void *p = nullptr;
            size_t from = D.log.size();
            umf_result_t r = umfOpenIPCHandle(hd, x.h, &p);
            bool ref = D.nfailed > f0;
            memset(D.failIn, 0, sizeof D.failIn);
            c.note("open in pool %zu -> %s %p", k, rs(r), p);
            for (size_t j = from; j < D.log.size(); j++)
                if (D.log[j].fn == OPENIPC)
                    PCHECK(c, D.log[j].ctx == pools[k].p.ctx && D.log[j].dev == pools[k].p.dev, "ipc.open.args", "opened with another context or device");
            if (ref) {
                PCHECK(c, r == mapped(D.failCode), "ipc.open.code", "the driver said %#x, %s", (int)D.failCode, rs(r));
                break;
            }
            PCHECK(c, r == UMF_RESULT_SUCCESS, "ipc.open", "%s", rs(r));
            auto it = D.opened.upper_bound((uintptr_t)p);
            PCHECK(c, it != D.opened.begin() && (--it, it->first + it->second.len > (uintptr_t)p), "ipc.open.ptr", "%p is not in an opened mapping", p);
            PCHECK(c, it->second.ino == m->second.ino && (uintptr_t)p - it->first == x.ptr - m->first, "ipc.open.where", "opened at the wrong place");
            if (bl.host)
                PCHECK(c, verify(p, bl.size, bl.tag) == SIZE_MAX, "ipc.open.content", "other bytes are seen");
            opens.push_back({p, x.ptr});
            break;
        }
        default: {
            if (opens.empty())
                break;
            size_t k = c.index_of(opens.size());
            umf_result_t r = umfCloseIPCHandle(opens[k].first);
            PCHECK(c, r == UMF_RESULT_SUCCESS, "ipc.close", "%s", rs(r));
            opens.erase(opens.begin() + (long)k);
        }
        }
        PCHECK(c, opens.empty() || !D.opened.empty(), "ipc.open.count", "opens are gone");
    }
    for (auto &o : opens)
        PCHECK(c, umfCloseIPCHandle(o.first) == UMF_RESULT_SUCCESS, "ipc.close", "close");
    for (auto &x : handles)
        PCHECK(c, umfPutIPCHandle(x.h) == UMF_RESULT_SUCCESS, "ipc.put", "put");
    for (auto &x : live) {
        if (x.second.host)
            PCHECK(c, verify((void *)x.first, x.second.size, x.second.tag) == SIZE_MAX, "pool.content", "content changed");
        PCHECK(c, umfFree((void *)x.first) == UMF_RESULT_SUCCESS, "pool.free", "free");
    }
    if (remote) {
        Msg ms{};
        (void)!write(a[1], &ms, sizeof ms);
        int st = 0;
        waitpid(kid, &st, 0);
        if (c.sh->failed)
            _exit(1);
        PCHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "ipc.consumer", "the consumer process died (%#x)", st);
    }
    for (auto &s : pools)
        umfPoolDestroy(s.h);
    PCHECK(c, D.mem.empty(), "balance.end", "%zu blocks left in the driver", D.mem.size());
    PCHECK(c, D.opened.empty(), "ipc.balance", "%zu handles left open", D.opened.size());
    if (l == NEW)
        PCHECK(c, D.tokens.empty(), "ipc.balance", "%zu handles never put", D.tokens.size());
    umfTearDown();
    PCHECK(c, ba::live == 0, "baleak.end", "%ld pieces of the library's memory left", ba::live.load());
}
} // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C29", "a driver call was refused, several blocks were live at once, or an IPC handle was opened",
                         {{"provider", prov_case, 12000, 120000}, {"pool", pool_case, 6000, 60000, 60, true}, {"restart", restart_case, 4000, 40000}});
}

// C25: the proxy library as the allocator of a whole program.  A generated
// script is run by a driver program (c25/driver.c) preloaded with the library:
// before, in and after main, by one or several threads, under generated
// UMF_PROXY settings.
#include "pbt.hpp"
#include "c25/script.h"
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
using pbt::Ctx;

#ifdef NDEBUG
#define VAR "rel"
#else
#define VAR "dbg"
#endif
struct Plan {
    uint32_t threads = 1, rounds = 1, disp = 0;
    uint64_t thr = 0;
    std::string env; // UMF_PROXY, empty for none
    bool refuse = false;
    std::vector<c25_op> ops;
};
static uint64_t gsize(Ctx &c, uint64_t thr) {
    switch (c.weighted({8, 4, 2, 2, 1})) {
    case 0: return c.range(0, 300);
    case 1: return c.pow2(0, 15) + c.range(0, 2) - 1;
    case 2: return thr ? (thr < 3000000 ? thr + 2 - c.range(0, thr < 2 ? 2 : 4) : 100) : c.range(1, 10000);
    case 3: return c.range(1, 70000);
    default: return c.range(1, 3000000);
    }
}
static const char *opn[] = {"malloc", "calloc", "realloc", "aligned_alloc", "free", "usable", "strdup", "nulls", "huge", "asprintf", "fork", "badalign", "kind", "reuse"};

static void run_plan(Ctx &c, Plan &p) {
    const char *bd = getenv("VERIF_BUILD");
    std::string drv = std::string(bd) + "/bin/c25_driver", lib = std::string(bd) + "/umf-" VAR "-so/lib/libumf_proxy.so";
    size_t len = sizeof(c25_script) + p.ops.size() * sizeof(c25_op);
    int fd = memfd_create("c25", 0);
    if (fd < 0 || ftruncate(fd, (off_t)len))
        c.discard("no program");
    c25_script *s = (c25_script *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    s->nops = (uint32_t)p.ops.size(), s->threads = p.threads, s->rounds = p.rounds, s->disposition = p.disp, s->threshold = p.thr;
    memcpy(s->ops, p.ops.data(), p.ops.size() * sizeof(c25_op));
    c.note("UMF_PROXY='%s' threads %u rounds %u", p.env.c_str(), p.threads, p.rounds);
    for (size_t i = 0; i < p.ops.size(); i++)
        c.note("%zu: phase %u round %u thread %u: %s slot %u a=%llu b=%llu", i, p.ops[i].phase, p.ops[i].round, p.ops[i].thr, opn[p.ops[i].op], p.ops[i].slot,
               (unsigned long long)p.ops[i].a, (unsigned long long)p.ops[i].b);
    std::string pre = "LD_PRELOAD=" + lib, px = "UMF_PROXY=" + p.env;
    std::vector<char *> envp{(char *)pre.c_str(), (char *)"PATH=/usr/bin:/bin"};
    if (!p.env.empty())
        envp.push_back((char *)px.c_str());
    envp.push_back(nullptr);
    char *argv[] = {(char *)drv.c_str(), nullptr};
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(40);
        dup2(fd, C25_FD);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2), dup2(nul, 1);
        execve(drv.c_str(), argv, envp.data());
        _exit(127);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    char shm[64];
    snprintf(shm, sizeof shm, "/dev/shm/umf_proxy_lib_shm_pid_%d", (int)pid);
    if (p.disp == 2)
        unlink(shm); // the library leaves it to the system
    if (WIFEXITED(st) && WEXITSTATUS(st) == 127)
        c.discard("no program");
    if (s->failed) {
        s->sig[sizeof s->sig - 1] = s->msg[sizeof s->msg - 1] = 0;
        c.fail(s->sig, "%s (op %u)", s->msg, s->opdone);
    }
    if (p.refuse) {
        PCHECK(c, !s->done[PH_MAIN] && WIFEXITED(st) && WEXITSTATUS(st), "config", "the program ran with UMF_PROXY='%s'", p.env.c_str());
        return;
    }
    PCHECK(c, !WIFSIGNALED(st), "crash", "the program was ended by signal %d (op %u, phases done %u%u%u%u%u%u)", WTERMSIG(st), s->opdone, s->done[0], s->done[1], s->done[2], s->done[3], s->done[4], s->done[5]);
    PCHECK(c, WEXITSTATUS(st) == 0, "exit", "the program ended with %d after op %u", WEXITSTATUS(st), s->opdone);
    for (int i = 0; i < PH_COUNT; i++)
        PCHECK(c, s->done[i], "phase", "phase %d was not run", i);
}
static std::string conf(Ctx &c, Plan &p, bool bad) {
    std::vector<std::string> parts;
    p.disp = (uint32_t)c.weighted({5, 1, 1});
    if (p.disp)
        parts.push_back(p.disp == 1 ? "page.disposition=shared-fd" : "page.disposition=shared-shm");
    if (bad) {
        p.refuse = true;
        parts.push_back("size.threshold=" + std::string(c.oneof<const char *>({"", "abc", "-1", "-64", " 5", "+7", "x10", ".5"})));
    } else if (c.chance(1, 2)) {
        p.thr = c.oneof<uint64_t>({0, 1, 2, 8, 16, 17, 64, 100, 128, 1000, 4096, 5000, 65536, 1000000, 4000000, 1ull << 40});
        std::string z = c.chance(1, 8) ? "00" : "";
        parts.push_back("size.threshold=" + z + std::to_string(p.thr));
    }
    if (parts.size() > 1 && c.chance(1, 2))
        std::swap(parts[0], parts[1]);
    std::string e;
    for (auto &x : parts)
        e += (e.empty() ? "" : ";") + x;
    if (!e.empty() && c.chance(1, 4))
        e += ";";
    return e;
}
struct Gen {
    Ctx &c;
    Plan &p;
    int live[C25_SLOTS] = {}; // 0 none, 1+phase
    unsigned nlive = 0, nreuse = 0;
    bool did_re = false, did_free = false;
    void op(int phase, int round, int step) {
        c25_op o{};
        o.phase = (uint8_t)phase, o.round = (uint16_t)round;
        unsigned ns = p.threads > 1 ? C25_SLOTS : 48;
        o.slot = (uint16_t)c.range(0, ns - 1);
        o.thr = (uint8_t)(p.threads > 1 ? (o.slot + (unsigned)(round * step)) % p.threads : 0);
        bool l = live[o.slot];
        int w;
        if (l) {
            static const int k[] = {OP_REALLOC, OP_FREE, OP_USABLE, OP_HUGE, OP_NULLS, OP_KIND, OP_FORK};
            w = k[c.weighted({8, 8, 4, 1, 1, 1, phase == PH_MAIN && p.threads == 1 ? 1u : 0u})];
        } else {
            static const int k[] = {OP_MALLOC, OP_CALLOC, OP_ALIGNED, OP_STRDUP, OP_ASPRINTF, OP_NULLS, OP_HUGE, OP_BADALIGN, OP_REUSE};
            w = k[c.weighted({80, 40, 40, 10, 10, 20, 10, 10, phase == PH_MAIN && p.threads == 1 && nreuse < 2 ? 3u : 0u})];
        }
        o.op = (uint8_t)w;
        switch (w) {
        case OP_MALLOC:
        case OP_NULLS: o.a = gsize(c, p.thr); break;
        case OP_REUSE: o.a = gsize(c, p.thr), o.b = c.range(0, 3), nreuse++, c.label("reuse"); break;
        case OP_CALLOC: {
            uint64_t n = gsize(c, p.thr);
            o.a = c.oneof<uint64_t>({1, 2, 3, 8, 10, 100});
            if (c.chance(1, 6))
                o.a = 0, o.b = n;
            else
                o.b = n / o.a;
            if (c.chance(1, 2))
                std::swap(o.a, o.b);
            break;
        }
        case OP_REALLOC: o.a = c.chance(1, 12) ? 0 : gsize(c, p.thr); break;
        case OP_ALIGNED: o.a = c.pow2(0, 16), o.b = gsize(c, p.thr); break;
        default: o.a = c.range(0, 100000), o.b = c.range(0, 100000);
        }
        switch (w) {
        case OP_MALLOC:
        case OP_CALLOC:
        case OP_ALIGNED:
        case OP_STRDUP:
        case OP_ASPRINTF: live[o.slot] = 1, nlive++; break;
        case OP_NULLS: live[o.slot] = 1; break;
        case OP_FREE: live[o.slot] = 0, did_free = true; break;
        case OP_REALLOC: live[o.slot] = o.a ? 1 : 0, did_re = true; break;
        }
        p.ops.push_back(o);
        c.op();
    }
};
static void program(Ctx &c) {
    Plan p;
    p.env = conf(c, p, false);
    p.threads = c.chance(1, 4) ? (uint32_t)c.range(2, C25_MAXTHR) : 1;
    Gen g{c, p};
    int step = (int)c.range(1, 5);
    static const unsigned mx[] = {20, 20, 0, 15, 15, 15};
    for (int ph = 0; ph < PH_COUNT; ph++) {
        if (ph == PH_MAIN) {
            p.rounds = p.threads > 1 ? (uint32_t)c.range(1, 5) : 1;
            for (uint32_t r = 0; r < p.rounds; r++) {
                unsigned n = (unsigned)c.size(p.threads > 1 ? 300 : 200);
                for (unsigned i = 0; i < n; i++)
                    g.op(ph, (int)r, step);
            }
        } else if (c.chance(1, 2)) {
            unsigned n = (unsigned)c.size(mx[ph]);
            uint32_t t = p.threads;
            for (unsigned i = 0; i < n; i++)
                g.op(ph, 0, 1);
            p.threads = t;
        }
    }
    c.label(p.threads > 1 ? "threads" : "single");
    c.label(p.thr ? "threshold" : "all in the pool");
    if (g.nlive >= 5 && g.did_free && g.did_re)
        c.nontrivial();
    run_plan(c, p);
}
static void refused(Ctx &c) {
    Plan p;
    p.env = conf(c, p, true);
    Gen g{c, p};
    unsigned n = (unsigned)c.range(1, 5);
    for (unsigned i = 0; i < n; i++)
        g.op(PH_MAIN, 0, 1);
    c.nontrivial();
    run_plan(c, p);
}
int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C25", "a program that makes at least five allocations and both frees and reallocates, or a refused setting",
                         {{"program", program, 9000, 90000, 50}, {"refused", refused, 300, 2000, 30}});
}

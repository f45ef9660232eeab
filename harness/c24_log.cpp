// C24: what UMF_LOG asks for is what is printed, and printing changes nothing else.
#include <atomic>
#include "umfh.hpp"
#include "wrapmap.hpp"
#include <ctime>
#include <errno.h>
#include <thread>
#include <signal.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <umf/ipc.h>
extern "C" {
#include "utils_log.h"
}
#undef LOG_DEBUG
#undef LOG_INFO
using namespace h;

namespace {
std::string slurp(const std::string &f) {
    std::string s;
    if (FILE *p = fopen(f.c_str(), "r")) {
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, p)) > 0)
            s.append(b, n);
        fclose(p);
    }
    return s;
}
const char *LV[] = {"debug", "info", "warning", "error", "fatal"};
const char *LS[] = {"DEBUG", "INFO", "WARN", "ERROR", "FATAL"};

struct Conf {
    int level = 3, flush = 3, ts = 0, pid = 0;
    int out = -1; // -1 none, 0 stdout, 1 stderr, 2 file
};
// a setting and what it means
std::string gen_conf(Ctx &c, Conf &k, const std::string &file) {
    std::vector<std::string> o;
    if (!c.chance(1, 10)) {
        k.out = (int)c.range(0, 2);
        o.push_back(k.out == 0 ? "output:stdout" : k.out == 1 ? "output:stderr" : "output:file," + file);
    }
    if (c.chance(3, 4))
        o.push_back(std::string("level:") + LV[k.level = (int)c.range(0, 4)]);
    if (c.chance(1, 2))
        o.push_back(std::string("flush:") + LV[k.flush = (int)c.range(0, 4)]);
    if (c.chance(1, 2))
        o.push_back(std::string("timestamp:") + ((k.ts = (int)c.range(0, 1)) ? "yes" : "no"));
    if (c.chance(1, 2))
        o.push_back(std::string("pid:") + ((k.pid = (int)c.range(0, 1)) ? "yes" : "no"));
    // things that are no settings
    for (size_t n = c.weighted({3, 1, 1}); n > 0; n--)
        o.push_back(c.oneof<std::string>({"", "level:", "level:debugs", "levels:debug", "output:file", "output:filed,x", "output:stdouts", "xoutput:stderr", "pid:yes,1",
                                          "timestamp:yess", "verbose", "pid", ":", ",", "level", "flush:all", " level:debug", "Level:debug", "xpid:yes", "flush:debug "}));
    for (size_t i = o.size(); i > 1; i--)
        std::swap(o[i - 1], o[c.index_of(i)]);
    std::string s;
    for (size_t i = 0; i < o.size(); i++)
        s += (i ? ";" : "") + o[i];
    if (c.chance(1, 4))
        s += ";";
    return s;
}

// ---- what is printed -----------------------------------------------------
void print_case(Ctx &c) {
    // memory-backed files, reached by name through /proc
    int fd[3];
    std::string f[3];
    for (int i = 0; i < 3; i++) {
        fd[i] = (int)syscall(SYS_memfd_create, "o", 0);
        f[i] = "/proc/self/fd/" + std::to_string(fd[i]);
    }
    std::string named;
    if (c.chance(1, 6)) {
        f[2] = named = std::string(c.scratch) + "/log" + std::to_string(getpid()) + std::string(c.range(1, 60), 'p') +
                       c.oneof<std::string>({"", ":x", ",y", "level:debug", "output:stdout", "pid:yes"});
        unlink(named.c_str());
    }
    bool old = c.chance(1, 2); // a log of an earlier run is kept
    if (old) {
        int o = open(f[2].c_str(), O_WRONLY | O_CREAT, 0600);
        PCHECK(c, o >= 0 && write(o, "old\n", 4) == 4, "setup", "cannot write %s", f[2].c_str());
        close(o);
    }
    Conf k;
    // the file may have a long name, too long a name, or be none that can be written
    std::string path = f[2], refused;
    if (c.chance(1, 4)) {
        if (c.chance(1, 2)) {
            size_t want = c.oneof<size_t>({254, 255, 256, 257, 258, 300, 511, 512, 1000, 1900});
            while (path.size() < want)
                path = (path.size() + 1 == want ? "/" : "/.") + path;
            if (path.size() > 256)
                refused = "Cannot open output file - path too long";
        } else {
            path = c.oneof<std::string>({"/proc/self/fd", "/proc/nothing/here", "/proc/version/x", ""});
            refused = "Cannot open output file " + path + " - logging disabled: ";
        }
        c.label(refused.empty() ? "long path" : "refused path");
    }
    std::string env = gen_conf(c, k, path);
    bool set = !c.chance(1, 20);
    if (k.out != 2)
        refused.clear();
    if (!refused.empty())
        k.out = -1;
    fflush(nullptr);
    int keep1 = dup(1), keep2 = dup(2);
    for (int i = 0; i < 2; i++) {
        int o = open(f[i].c_str(), O_WRONLY | O_APPEND);
        dup2(o, i + 1);
        close(o);
    }
    if (set)
        setenv("UMF_LOG", env.c_str(), 1);
    else
        unsetenv("UMF_LOG"), k = Conf();
    time_t t0 = time(nullptr);
    utils_log_init();
    auto restore = [&] {
        fflush(nullptr);
        dup2(keep1, 1);
        dup2(keep2, 2);
    };
#define FAIL(sig, ...)                                                                                                                                           \
    do {                                                                                                                                                         \
        restore();                                                                                                                                               \
        c.note("UMF_LOG=%s", env.c_str());                                                                                                                       \
        c.fail(sig, __VA_ARGS__);                                                                                                                                \
    } while (0)
    struct Exp {
        std::string text; // whole text, maybe longer than a line may be
        int level;
        int prefixOnly = 0;
        long tid = getpid();
    };
    std::vector<Exp> exp;
    if (k.out < 0) {
        if (set && !refused.empty())
            exp.push_back({"utils_log_init: " + refused, 3, 1});
        else if (set)
            exp.push_back({"utils_log_init: Logging output not set - logging disabled (UMF_LOG = \"" + env + "\")", 3});
        k.level = 3; // the settings were not read
        k.ts = k.pid = 0;
    } else if (k.level <= 1)
        exp.push_back({"utils_log_init: Logger enabled (", 1, 1});
    int dst = k.out < 0 ? 1 : k.out;
    int n = (int)c.range(0, 12);
    for (int i = 0; i < n; i++) {
        c.op();
        int lv = (int)c.range(0, 4);
        size_t len = c.chance(1, 4) ? 8150 + c.range(0, 60) : c.chance(1, 6) ? c.range(1, 30000) : c.range(1, 200);
        std::string m(len, ' ');
        for (size_t j = 0; j < len; j++)
            m[j] = (char)('!' + (j * 7 + (size_t)i * 13 + (size_t)lv) % 90);
        bool fmt = c.chance(1, 3);
        bool pl = c.chance(1, 3);
        int e = c.oneof<int>({0, ENOMEM, EINVAL, EBADF, ENOSPC, 12345});
        const char *fn = c.oneof<const char *>({"f", "umfSomething", "a_function_with_quite_a_long_name_so_that_the_text_is_shifted"});
        long tid = getpid();
        std::string full = std::string(fn) + ": " + m;
        if (fmt)
            full += "-42%";
        auto call = [&] {
            tid = syscall(SYS_gettid);
            errno = e;
            if (fmt)
                (pl ? utils_plog : utils_log)((utils_log_level_t)lv, fn, "%s%d%%", m.c_str(), -42);
            else
                (pl ? utils_plog : utils_log)((utils_log_level_t)lv, fn, "%s", m.c_str());
        };
        if (c.chance(1, 6))
            std::thread(call).join();
        else
            call();
        if (pl) {
            char eb[256];
            full += std::string(": ") + strerror_r(e, eb, sizeof eb);
        }
        bool shown = (k.out >= 0 && lv >= k.level) || lv == 4;
        if (!shown)
            continue;
        exp.push_back({full, lv, 0, tid});
        c.nontrivial();
        if (lv >= k.flush || k.out == 1) { // on its way already
            std::string s = slurp(f[dst]);
            if (s.empty() || s.back() != '\n' || (size_t)std::count(s.begin(), s.end(), '\n') != exp.size() + (old && dst == 2))
                FAIL("flush", "a message of level %s is not in the output after the call (flush level %s): %zu lines of %zu", LV[lv], LV[k.flush],
                     (size_t)std::count(s.begin(), s.end(), '\n'), exp.size());
        }
    }
    time_t t1 = time(nullptr);
    restore();
    c.note("UMF_LOG=%s (%d messages)", set ? env.c_str() : "(unset)", n);
    for (int i = 0; i < 3; i++) {
        std::string s = slurp(f[i]);
        if (i == 2 && old) {
            PCHECK(c, s.compare(0, 4, "old\n") == 0, "lost", "what the file contained before is gone: %.100s", s.c_str());
            s.erase(0, 4);
        }
        if (i != dst) {
            PCHECK(c, s.empty(), "elsewhere", "%s was written to: %.100s", i == 0 ? "stdout" : i == 1 ? "stderr" : "the file", s.c_str());
            continue;
        }
        size_t pos = 0, j = 0;
        while (pos < s.size()) {
            size_t nl = s.find('\n', pos);
            PCHECK(c, nl != std::string::npos, "line", "an unfinished line");
            std::string ln = s.substr(pos, nl - pos);
            pos = nl + 1;
            PCHECK(c, j < exp.size(), "extra", "a line too many: %.200s", ln.c_str());
            const Exp &e = exp[j++];
            size_t at = 0;
            auto eat = [&](const std::string &x, const char *what) {
                PCHECK(c, ln.compare(at, x.size(), x) == 0, "header", "%s: expected \"%s\" at %zu of: %.200s", what, x.c_str(), at, ln.c_str());
                at += x.size();
            };
            eat("[", "start");
            if (k.ts) {
                bool ok = false;
                for (time_t t = t0; t <= t1 && !ok; t++) {
                    char b[64];
                    struct tm tm;
                    localtime_r(&t, &tm);
                    strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S ", &tm);
                    if (ln.compare(at, strlen(b), b) == 0) {
                        ok = true;
                        at += strlen(b);
                    }
                }
                PCHECK(c, ok, "header", "timestamp: %.100s", ln.c_str());
            }
            if (k.pid) {
                char b[64];
                snprintf(b, sizeof b, "PID:%-6lu TID:%-6lu ", (unsigned long)getpid(), (unsigned long)e.tid);
                eat(b, "pid");
            }
            char b[32];
            snprintf(b, sizeof b, "%-5s UMF] ", LS[e.level]);
            eat(b, "level");
            std::string rest = ln.substr(at);
            if (e.prefixOnly) {
                PCHECK(c, rest.compare(0, e.text.size(), e.text) == 0, "text", "expected %s..., printed %.200s", e.text.c_str(), rest.c_str());
                continue;
            }
            if (e.text.size() <= 8180)
                PCHECK(c, rest == e.text, "text", "expected (%zu) %.200s, printed (%zu) %.200s", e.text.size(), e.text.c_str(), rest.size(), rest.c_str());
            else if (rest != e.text) {
                const std::string mk = "[truncated...]";
                PCHECK(c, rest.size() > 8100 && rest.size() >= mk.size() && rest.compare(rest.size() - mk.size(), mk.size(), mk) == 0, "truncated",
                       "a long message (%zu) came out as %zu characters ending in %s", e.text.size(), rest.size(), rest.substr(rest.size() > 20 ? rest.size() - 20 : 0).c_str());
                rest.resize(rest.size() - mk.size());
                PCHECK(c, e.text.compare(0, rest.size(), rest) == 0, "truncated", "a truncated message shows other text");
                c.label("truncated");
            } else
                PCHECK(c, e.text.size() < 16384, "long", "a line of %zu", rest.size());
        }
        PCHECK(c, j == exp.size(), "missing", "%zu of %zu messages were printed", j, exp.size());
    }
}

// ---- printing changes nothing --------------------------------------------
struct Script {
    std::vector<uint64_t> v;
    size_t i = 0;
    uint64_t next() { return v[i++ % v.size()]; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + next() % (hi - lo + 1); }
    bool chance(uint64_t a, uint64_t b) { return next() % b < a; }
};
struct Out {
    char buf[1 << 16];
    size_t n;
};
void say(Out *o, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int k = vsnprintf(o->buf + o->n, sizeof o->buf - o->n, fmt, ap);
    va_end(ap);
    if (k > 0)
        o->n = std::min(sizeof o->buf - 1, o->n + (size_t)k);
}
void native(Out *o, umf_memory_provider_handle_t p, umf_result_t r) {
    if (r == UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC) {
        const char *m = nullptr;
        int32_t e = 0;
        umfMemoryProviderGetLastNativeError(p, &m, &e);
        say(o, " native %d \"%s\"", e, m ? m : "");
    }
}
void history(Script &S, const std::string &dir, Out *o) {
    wm::on = true;
    signal(SIGXFSZ, SIG_IGN);
    struct P {
        umf_memory_provider_handle_t h;
        umf_memory_pool_handle_t pool;
        int kind;
        std::vector<std::pair<void *, size_t>> live, plive;
    };
    std::vector<P> ps;
    static char buf[1 << 20];
    int n = (int)S.range(5, 60);
    for (int i = 0; i < n; i++) {
        int op = (int)S.range(0, 11);
        if (op <= 1 || ps.empty()) {
            if (ps.size() > 5)
                continue;
            P p{};
            p.kind = (int)S.range(0, 2);
            umf_result_t r;
            if (S.chance(1, 6))
                wm::failIn = 1;
            if (p.kind == 0) {
                umf_os_memory_provider_params_handle_t q = nullptr;
                umfOsMemoryProviderParamsCreate(&q);
                if (S.chance(1, 2))
                    umfOsMemoryProviderParamsSetVisibility(q, (umf_memory_visibility_t)S.range(0, 3));
                if (S.chance(1, 4))
                    umfOsMemoryProviderParamsSetProtection(q, (unsigned)S.range(0, 20));
                if (S.chance(1, 4))
                    umfOsMemoryProviderParamsSetShmName(q, S.chance(1, 2) ? "/no/such" : "");
                if (S.chance(1, 4))
                    umfOsMemoryProviderParamsSetNumaMode(q, (umf_numa_mode_t)S.range(0, 5));
                r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), q, &p.h);
                umfOsMemoryProviderParamsDestroy(q);
            } else if (p.kind == 1) {
                umf_file_memory_provider_params_handle_t q = nullptr;
                std::string f = S.chance(1, 4) ? dir + "/none/f" : dir + "/f" + std::to_string(i);
                umf_result_t r0 = umfFileMemoryProviderParamsCreate(&q, f.c_str());
                say(o, "params %d\n", (int)r0);
                r = umfMemoryProviderCreate(umfFileMemoryProviderOps(), q, &p.h);
                umfFileMemoryProviderParamsDestroy(q);
            } else {
                umf_fixed_memory_provider_params_handle_t q = nullptr;
                umfFixedMemoryProviderParamsCreate(&q, buf, S.chance(1, 5) ? 0 : S.range(1, sizeof buf));
                r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), q, &p.h);
                if (q)
                    umfFixedMemoryProviderParamsDestroy(q);
            }
            say(o, "provider %d -> %d\n", p.kind, (int)r);
            wm::failIn = 0;
            if (r == UMF_RESULT_SUCCESS) {
                umf_disjoint_pool_params_handle_t dp = nullptr;
                umfDisjointPoolParamsCreate(&dp);
                say(o, "set %d\n", (int)umfDisjointPoolParamsSetMinBucketSize(dp, S.range(0, 20)));
                r = S.chance(1, 2) ? umfPoolCreate(umfDisjointPoolOps(), p.h, dp, 0, &p.pool) : umfPoolCreate(umfProxyPoolOps(), p.h, nullptr, 0, &p.pool);
                umfDisjointPoolParamsDestroy(dp);
                say(o, "pool -> %d\n", (int)r);
                ps.push_back(p);
            }
            continue;
        }
        P &p = ps[S.next() % ps.size()];
        // a file must not take the whole disk
        struct rlimit rl;
        getrlimit(RLIMIT_FSIZE, &rl);
        rl.rlim_cur = p.kind == 1 ? (1ul << 30) : rl.rlim_max;
        setrlimit(RLIMIT_FSIZE, &rl);
        if (S.chance(1, 5))
            wm::failIn = (long)S.range(1, 2);
        if (S.chance(1, 5))
            wm::failUnmapIn = (long)S.range(1, 2);
        switch (op) {
        case 2:
        case 3: {
            void *q = nullptr;
            size_t s = S.chance(1, 6) ? (size_t)1 << S.range(40, 63) : S.range(0, 50000), al = S.chance(1, 4) ? S.range(0, 70000) : 0;
            errno = 0;
            umf_result_t r = umfMemoryProviderAlloc(p.h, s, al, &q);
            say(o, "alloc %zu %zu -> %d", s, al, (int)r);
            native(o, p.h, r);
            say(o, "\n");
            if (r == UMF_RESULT_SUCCESS && q)
                p.live.push_back({q, s});
            break;
        }
        case 4: {
            if (p.live.empty())
                break;
            size_t k = S.next() % p.live.size();
            umf_result_t r = umfMemoryProviderFree(p.h, p.live[k].first, S.chance(1, 6) ? p.live[k].second + 1 : p.live[k].second);
            say(o, "free -> %d", (int)r);
            native(o, p.h, r);
            say(o, "\n");
            if (r == UMF_RESULT_SUCCESS)
                p.live.erase(p.live.begin() + (long)k);
            break;
        }
        case 5: {
            if (!p.pool)
                break;
            size_t s = S.chance(1, 8) ? (size_t)1 << S.range(40, 63) : S.range(1, 50000);
            void *q = umfPoolMalloc(p.pool, s);
            say(o, "malloc %zu -> %d err %d", s, q != nullptr, q ? 0 : (int)umfPoolGetLastAllocationError(p.pool));
            say(o, " usable %zu\n", q ? umfPoolMallocUsableSize(p.pool, q) : 0);
            if (q)
                p.plive.push_back({q, s});
            break;
        }
        case 6: {
            if (p.plive.empty())
                break;
            say(o, "pfree -> %d\n", (int)umfPoolFree(p.pool, p.plive.back().first));
            if (wm::failUnmapIn || wm::failIn || true)
                p.plive.pop_back();
            break;
        }
        case 7: {
            if (p.live.empty())
                break;
            auto &b = p.live[S.next() % p.live.size()];
            void *a = (char *)b.first + (S.chance(1, 3) ? 1 : 0);
            umf_result_t r = S.chance(1, 2) ? umfMemoryProviderPurgeLazy(p.h, a, b.second) : umfMemoryProviderPurgeForce(p.h, a, b.second);
            say(o, "purge -> %d", (int)r);
            native(o, p.h, r);
            say(o, "\n");
            break;
        }
        case 8: {
            size_t v = 0;
            say(o, "ctl -> %d %zu\n", (int)umfCtlGet(S.chance(1, 2) ? "umf.provider.by_handle.stats.allocated_memory" : "umf.provider.by_handle.nothing", p.h, &v), v);
            break;
        }
        case 9: {
            umf_ipc_handle_t hd = nullptr;
            size_t hs = 0;
            void *q = p.plive.empty() ? (void *)buf : p.plive.back().first;
            umf_result_t r = umfGetIPCHandle(q, &hd, &hs);
            say(o, "ipc -> %d\n", (int)r);
            if (r == UMF_RESULT_SUCCESS)
                say(o, "put -> %d\n", (int)umfPutIPCHandle(hd));
            break;
        }
        case 10: {
            size_t v = 0;
            void *q = p.live.empty() ? nullptr : p.live[0].first;
            umf_result_t r = umfMemoryProviderGetMinPageSize(p.h, q, &v);
            say(o, "minpage -> %d %zu\n", (int)r, v);
            break;
        }
        default: {
            if (p.live.empty())
                break;
            auto &b = p.live[S.next() % p.live.size()];
            if (b.second < 8192)
                break;
            umf_result_t r = umfMemoryProviderAllocationSplit(p.h, b.first, b.second, S.chance(1, 3) ? 100 : 4096);
            say(o, "split -> %d", (int)r);
            if (r == UMF_RESULT_SUCCESS) {
                size_t fs = S.chance(1, 1) ? 4096 : 0;
                (void)fs;
            }
            say(o, "\n");
            break;
        }
        }
        wm::failIn = 0;
        wm::failUnmapIn = 0;
    }
    say(o, "nfailed %ld\n", (long)wm::nfailed);
}
void same_case(Ctx &c) {
    Script S;
    for (size_t k = c.range(10, 400); k > 0; k--)
        S.v.push_back(c.range(0, 99999));
    auto *o = (Out *)mmap(nullptr, 3 * sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string conf[3];
    conf[0] = "";
    // a full device makes every flushed message fail, and changes errno
    conf[1] = "level:debug;flush:debug;output:file,/dev/full";
    Conf k;
    conf[2] = gen_conf(c, k, std::string(c.scratch) + "/lg");
    std::string dir = std::string(c.scratch) + "/d";
    for (int i = 0; i < 3; i++) {
        mkdir(dir.c_str(), 0700);
        pid_t p = fork();
        if (p == 0) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(nul, 2);
            if (i) {
                setenv("UMF_LOG", conf[i].c_str(), 1);
                utils_log_init();
            }
            history(S, dir, &o[i]);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        for (int j = 0; j < 70; j++)
            unlink((dir + "/f" + std::to_string(j)).c_str());
        PCHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "died", "the history died with UMF_LOG=\"%s\": status %#x after:\n%s", conf[i].c_str(), st, o[i].buf + (o[i].n > 300 ? o[i].n - 300 : 0));
    }
    for (int i = 1; i < 3; i++)
        if (strcmp(o[0].buf, o[i].buf)) {
            size_t k = 0;
            while (o[0].buf[k] == o[i].buf[k])
                k++;
            while (k > 0 && o[0].buf[k - 1] != '\n')
                k--;
            c.fail("differs", "without a log: %.*s; with UMF_LOG=\"%s\": %.*s", (int)strcspn(o[0].buf + k, "\n"), o[0].buf + k, conf[i].c_str(), (int)strcspn(o[i].buf + k, "\n"), o[i].buf + k);
        }
    if (strstr(o[0].buf, "native"))
        c.nontrivial();
    c.note("%s", o[0].buf);
    c.op();
}
} // namespace

int main(int argc, char **argv) {
    return pbt::run_main(argc, argv, "C24", "a message was printed, or a history contained a native error",
                         {{"print", print_case, 12000, 120000}, {"same", same_case, 5000, 50000}});
}

#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/personality.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

Ctx *cur = nullptr;
static std::set<std::string> g_known;

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static uint64_t hash_str(const char *s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++)
        h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

uint64_t Ctx::next() {
    rng += 0x9e3779b97f4a7c15ull;
    return mix(rng);
}

uint64_t Ctx::range(uint64_t lo, uint64_t hi) {
    if (hi <= lo)
        return lo; // no choice: nothing recorded
    uint64_t span = hi - lo; // inclusive
    uint64_t v;
    uint32_t i = sh->ntape;
    if (replaying) {
        v = i < in->size() ? (*in)[i] : 0;
        if (v > span)
            v = span;
    } else {
        uint64_t r = next();
        v = span == UINT64_MAX ? r : r % (span + 1);
    }
    if (i < MAX_TAPE) {
        sh->tape[i] = v;
        sh->ntape = i + 1;
    } else {
        discard("tape too long");
    }
    return lo + v;
}

bool Ctx::chance(unsigned num, unsigned den) {
    // true on the high values so that shrinking goes to false
    return range(0, den - 1) >= den - num;
}

size_t Ctx::weighted(const std::vector<unsigned> &w) {
    uint64_t tot = 0;
    for (auto x : w)
        tot += x;
    uint64_t r = range(0, tot ? tot - 1 : 0);
    for (size_t i = 0; i < w.size(); i++) {
        if (r < w[i])
            return i;
        r -= w[i];
    }
    return 0;
}

uint64_t Ctx::size(uint64_t max) {
    if (max <= 1)
        return max;
    unsigned lg = 63 - __builtin_clzll(max);
    switch (range(0, 3)) {
    case 0:
        return range(1, max < 64 ? max : 64);
    case 1: {
        uint64_t p = 1ull << range(0, lg);
        int64_t d = (int64_t)range(0, 2);
        uint64_t v = d == 2 ? p - 1 : p + (uint64_t)d;
        if (v < 1)
            v = 1;
        return v > max ? max : v;
    }
    default: {
        uint64_t l = range(0, lg);
        uint64_t hi = l >= 63 ? UINT64_MAX : (2ull << l) - 1;
        if (hi > max)
            hi = max;
        return range(1ull << l, hi);
    }
    }
}

void Ctx::label(const char *name, uint64_t n) {
    for (uint32_t i = 0; i < sh->nlabels; i++) {
        if (!strcmp(sh->labels[i].name, name)) {
            sh->labels[i].count += n;
            return;
        }
    }
    if (sh->nlabels < MAX_LABELS) {
        Label &l = sh->labels[sh->nlabels];
        snprintf(l.name, sizeof(l.name), "%s", name);
        l.count = n;
        sh->nlabels++;
    }
}

void Ctx::note(const char *fmt, ...) {
    if (sh->tracelen >= TRACE_CAP - 512)
        return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(sh->trace + sh->tracelen, 500, fmt, ap);
    va_end(ap);
    if (n > 499)
        n = 499;
    if (n > 0)
        sh->tracelen += (uint32_t)n;
    sh->trace[sh->tracelen++] = '\n';
    sh->trace[sh->tracelen] = 0;
}

void Ctx::fail(const char *sig, const char *fmt, ...) {
    if (__sync_bool_compare_and_swap(&sh->failed, 0, 1)) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
        va_end(ap);
        snprintf(sh->sig, sizeof(sh->sig), "%s", sig);
    }
    _exit(99);
}

void Ctx::discard(const char *why) {
    (void)why;
    sh->discarded = 1;
    _exit(0);
}

bool Ctx::known(const char *id) {
    return !ignore_known && g_known.count(id) != 0;
}

// ---------------------------------------------------------------------------

struct Outcome {
    bool failed = false;
    bool inconclusive = false; // killed from outside, discarded
    std::string sig, msg;
};

struct Opts {
    uint64_t seed = 1;
    bool thorough = false;
    double time_cap = 60;
    unsigned workers = 8;
    double scale = 1.0;
    std::string out, replaydir = "/tmp", known, replay, only, scratch;
    bool ignore_known = false;
    bool noaslimit = false;
    bool verbose = false, first = false;
    unsigned max_fail = 3;
};
static Opts O;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void wipe_dir(const std::string &d) {
    DIR *dir = opendir(d.c_str());
    if (!dir)
        return;
    while (dirent *e = readdir(dir)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
            continue;
        unlink((d + "/" + e->d_name).c_str());
    }
    closedir(dir);
}

// Runs one case in a forked child.
static Outcome run_case(const Suite &s, Shared *sh, int errfd, bool replaying,
                        const std::vector<uint64_t> *in, uint64_t caseseed,
                        uint64_t index, const std::string &scratch) {
    sh->ntape = 0;
    sh->failed = 0;
    sh->nontrivial = 0;
    sh->discarded = 0;
    sh->ops = 0;
    sh->sig[0] = sh->msg[0] = 0;
    sh->tracelen = 0;
    sh->trace[0] = 0;
    if (ftruncate(errfd, 0)) {
    }
    lseek(errfd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() == 1)
            _exit(0);
        setpgid(0, 0);
        dup2(errfd, 2);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        if (!O.noaslimit) {
            rl.rlim_cur = rl.rlim_max = 24ull << 30;
            setrlimit(RLIMIT_AS, &rl);
        }
        signal(SIGALRM, SIG_DFL);
        signal(SIGPIPE, SIG_DFL);
        alarm(s.timeout_s);
        Ctx c{};
        c.sh = sh;
        c.replaying = replaying;
        c.in = in;
        c.rng = caseseed;
        c.index = index;
        c.thorough = O.thorough;
        c.ignore_known = O.ignore_known;
        c.scratch = scratch.c_str();
        cur = &c;
        // address-space layout is part of the case: randomization is off and
        // the first free address is shifted by a drawn number of pages
        uint64_t pages = c.chance(1, 2) ? c.range(1, 511) : 0;
        if (pages)
            mmap(nullptr, pages * 4096, PROT_NONE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        s.fn(c);
        // run exit handlers of the code under test only where a suite wants
        // them (it calls exit itself)
        _exit(0);
    }
    Outcome o;
    if (pid < 0) {
        o.inconclusive = true;
        return o;
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    kill(-pid, SIGKILL); // leftovers of the case's process group
    wipe_dir(scratch);
    if (sh->failed) {
        o.failed = true;
        o.sig = sh->sig;
        o.msg = sh->msg;
    } else if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGKILL) {
            o.inconclusive = true; // memory pressure or an outside kill
            return o;
        }
        o.failed = true;
        if (sg == SIGALRM) {
            o.sig = "hang";
            o.msg = "case did not finish within its time limit";
        } else {
            o.sig = std::string("signal.") + std::to_string(sg);
            o.msg = std::string("killed by signal ") + strsignal(sg);
        }
    } else if (WEXITSTATUS(st) != 0) {
        o.failed = true;
        o.sig = "exit." + std::to_string(WEXITSTATUS(st));
        o.msg = "child exited with status " + std::to_string(WEXITSTATUS(st));
    } else if (sh->discarded) {
        o.inconclusive = true;
    }
    if (o.failed) {
        char buf[6000];
        off_t sz = lseek(errfd, 0, SEEK_END);
        off_t from = sz > (off_t)sizeof(buf) - 1 ? sz - (off_t)sizeof(buf) + 1 : 0;
        // sanitizer headers come first
        if (sz > 0) {
            ssize_t n = pread(errfd, buf, sizeof(buf) - 1, 0);
            if (n > 0) {
                buf[n] = 0;
                const char *p;
                if ((p = strstr(buf, "Assertion `")) ||
                    (p = strstr(buf, "[ASSERT")) ||
                    (p = strstr(buf, "ERROR: AddressSanitizer")) ||
                    (p = strstr(buf, "WARNING: ThreadSanitizer")) ||
                    (p = strstr(buf, "runtime error"))) {
                    std::string line(p, strcspn(p, "\n"));
                    // drop addresses from the signature
                    std::string clean;
                    for (size_t i = 0; i < line.size(); i++) {
                        if (line[i] == '0' && i + 1 < line.size() &&
                            line[i + 1] == 'x') {
                            i += 2;
                            while (i < line.size() && isxdigit(line[i]))
                                i++;
                            i--;
                            clean += '#';
                        } else
                            clean += line[i];
                    }
                    if (o.sig.compare(0, 6, "signal") == 0 ||
                        o.sig.compare(0, 4, "exit") == 0)
                        o.sig += ":" + clean.substr(0, 120);
                }
            }
            n = pread(errfd, buf, sizeof(buf) - 1, from);
            if (n > 0) {
                buf[n] = 0;
                o.msg += std::string("\nstderr: ") + buf;
            }
        }
    }
    return o;
}

static std::vector<uint64_t> tape_of(Shared *sh) {
    return std::vector<uint64_t>(sh->tape, sh->tape + sh->ntape);
}

static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += (char)ch;
        } else if (ch == '\n')
            r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", ch);
            r += b;
        } else
            r += (char)ch;
    }
    return r;
}

// Greedy tape shrinking; keeps the failure's signature.
static std::vector<uint64_t> shrink(const Suite &s, Shared *sh, int errfd,
                                    std::vector<uint64_t> best,
                                    const std::string &sig,
                                    const std::string &scratch, double budget,
                                    unsigned tries) {
    double end = now() + budget;
    auto still = [&](const std::vector<uint64_t> &t) {
        for (unsigned k = 0; k < tries; k++) {
            if (now() > end)
                return false;
            Outcome o = run_case(s, sh, errfd, true, &t, 0, 0, scratch);
            if (o.failed && o.sig == sig)
                return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // 1. cut the tail
        for (size_t keep = best.size() / 2; keep < best.size() && now() < end;) {
            std::vector<uint64_t> t(best.begin(), best.begin() + keep);
            if (still(t)) {
                best = t;
                progress = true;
                keep = best.size() / 2;
            } else {
                size_t step = (best.size() - keep) / 2;
                if (!step)
                    break;
                keep += step;
            }
        }
        // 2. delete blocks
        for (size_t k = 64; k >= 1 && now() < end; k /= 2) {
            for (size_t i = best.size(); i >= k && now() < end;) {
                size_t at = i - k;
                std::vector<uint64_t> t(best.begin(), best.begin() + at);
                t.insert(t.end(), best.begin() + at + k, best.end());
                if (still(t)) {
                    best = t;
                    progress = true;
                    i = std::min(i - k, best.size());
                } else
                    i = i > k ? i - (k > 4 ? k / 2 : 1) : 0;
            }
        }
        // 3. lower values
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            if (!best[i])
                continue;
            std::vector<uint64_t> t = best;
            t[i] = 0;
            if (still(t)) {
                best = t;
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = best[i];
            while (hi - lo > 1 && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                t = best;
                t[i] = mid;
                if (still(t)) {
                    best = t;
                    hi = mid;
                    progress = true;
                } else
                    lo = mid;
            }
        }
    }
    return best;
}

struct WorkerResult {
    uint64_t evals, discarded, ops, nontriv;
};

static void write_replay(const std::string &path, const char *property,
                         const Suite &s, const std::vector<uint64_t> &tape,
                         const Outcome &o, const char *trace, uint64_t seed,
                         uint64_t idx) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f)
        return;
    fprintf(f, "property %s\nsuite %s\nseed %" PRIu64 "\nindex %" PRIu64 "\n",
            property, s.name, seed, idx);
    fprintf(f, "tape %zu", tape.size());
    for (auto v : tape)
        fprintf(f, " %" PRIu64, v);
    fprintf(f, "\nsig %s\n--- message\n%s\n--- trace\n%s\n", o.sig.c_str(),
            o.msg.c_str(), trace);
    fclose(f);
}

static bool load_replay(const std::string &path, std::string &suite,
                        std::vector<uint64_t> &tape, std::string &sig) {
    FILE *f = fopen(path.c_str(), "r");
    if (!f)
        return false;
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "suite ", 6))
            suite = line + 6;
        else if (!strncmp(line, "sig ", 4))
            sig = line + 4;
        else if (!strncmp(line, "tape ", 5)) {
            char *p = line + 5, *e;
            size_t n = strtoull(p, &e, 10);
            p = e;
            for (size_t i = 0; i < n; i++) {
                tape.push_back(strtoull(p, &e, 10));
                p = e;
            }
        } else if (!strncmp(line, "---", 3))
            break;
    }
    free(line);
    fclose(f);
    return !suite.empty();
}

struct GlobalShared {
    uint64_t nfail; // failures found so far by all workers
    uint64_t next[64];
};

int run_main(int argc, char **argv, const char *property, const char *rule,
             const std::vector<Suite> &suites) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC")) {
        setenv("PBT_REEXEC", "1", 1);
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed")
            O.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--thorough")
            O.thorough = true;
        else if (a == "--time")
            O.time_cap = atof(val().c_str());
        else if (a == "--workers")
            O.workers = (unsigned)atoi(val().c_str());
        else if (a == "--scale")
            O.scale = atof(val().c_str());
        else if (a == "--out")
            O.out = val();
        else if (a == "--replaydir")
            O.replaydir = val();
        else if (a == "--known")
            O.known = val();
        else if (a == "--replay")
            O.replay = val();
        else if (a == "--suite")
            O.only = val();
        else if (a == "--ignore-known")
            O.ignore_known = true;
        else if (a == "--no-as-limit")
            O.noaslimit = true;
        else if (a == "--verbose")
            O.verbose = true;
        else if (a == "--first") // stop at the first failure, unshrunk
            O.first = true;
        else if (a == "--scratch")
            O.scratch = val();
    }
    if (!O.known.empty()) {
        // one known-finding id per line
        FILE *f = fopen(O.known.c_str(), "r");
        char b[256];
        while (f && fgets(b, sizeof(b), f)) {
            b[strcspn(b, "\n")] = 0;
            g_known.insert(b);
        }
        if (f)
            fclose(f);
    }
    std::string scratch_root = O.scratch;
    if (scratch_root.empty()) {
        char tmpl[] = "/tmp/pbt.XXXXXX";
        char *d = mkdtemp(tmpl);
        scratch_root = d ? d : "/tmp";
    }

    auto alloc_shared = [](size_t n) {
        void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        return p;
    };

    if (!O.replay.empty()) {
        std::string sn, sig;
        std::vector<uint64_t> tape;
        if (!load_replay(O.replay, sn, tape, sig)) {
            fprintf(stderr, "cannot load %s\n", O.replay.c_str());
            return 2;
        }
        for (auto &s : suites) {
            if (sn != s.name)
                continue;
            Shared *sh = (Shared *)alloc_shared(sizeof(Shared));
            int errfd = memfd_create("err", 0);
            std::string scr = scratch_root + "/r";
            mkdir(scr.c_str(), 0777);
            unsigned tries = s.concurrent ? 300 : 1;
            int rc = 0;
            for (unsigned k = 0; k < tries && !rc; k++) {
                Outcome o =
                    run_case(s, sh, errfd, true, &tape, 0, 0, scr);
                if (o.failed) {
                    printf("FAIL sig=%s\n%s\n--- trace\n%s\n", o.sig.c_str(),
                           o.msg.c_str(), sh->trace);
                    rc = 1;
                }
            }
            if (!rc)
                printf("PASS\n%s\n", O.verbose ? sh->trace : "");
            rmdir(scr.c_str());
            if (O.scratch.empty())
                rmdir(scratch_root.c_str());
            return rc;
        }
        fprintf(stderr, "no suite %s\n", sn.c_str());
        return 2;
    }

    double t0 = now();
    auto *G = (GlobalShared *)alloc_shared(sizeof(GlobalShared));
    std::vector<pid_t> pids;
    for (unsigned w = 0; w < O.workers; w++) {
        pid_t pid = fork();
        if (pid)  {
            pids.push_back(pid);
            continue;
        }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Shared *sh = (Shared *)alloc_shared(sizeof(Shared));
        memset(sh, 0, offsetof(Shared, tape));
        int errfd = memfd_create("err", 0);
        std::string scr = scratch_root + "/w" + std::to_string(w);
        mkdir(scr.c_str(), 0777);
        std::string outp = scratch_root + "/res" + std::to_string(w);
        FILE *res = fopen(outp.c_str(), "w");
        std::unordered_set<uint64_t> seen;
        uint64_t evals = 0, ops = 0, disc = 0;
        std::map<std::string, uint64_t> per;
        std::set<std::string> reported; // suite+sig already reported here
        unsigned samples = 0;
        // All suites are interleaved so that a time cap cuts them evenly.
        std::vector<uint64_t> quota;
        uint64_t maxq = 1;
        for (auto &s : suites) {
            uint64_t q = (uint64_t)((O.thorough ? s.thorough : s.quick) * O.scale);
            if (!O.only.empty() && O.only != s.name)
                q = 0;
            quota.push_back(q);
            maxq = std::max(maxq, q);
        }
        const uint64_t ROUNDS = std::min<uint64_t>(maxq, 200);
        bool stop = false;
        for (uint64_t r = 0; r < ROUNDS && !stop; r++) {
            for (size_t si = 0; si < suites.size() && !stop; si++) {
                const Suite &s = suites[si];
                uint64_t from = quota[si] * r / ROUNDS,
                         to = quota[si] * (r + 1) / ROUNDS;
                for (;;) {
                    // dynamic distribution of the round's indexes
                    uint64_t idx = 0;
                    bool got = false;
                    uint64_t curv = __atomic_load_n(&G->next[si], __ATOMIC_RELAXED);
                    while (curv < to) {
                        if (__atomic_compare_exchange_n(&G->next[si], &curv,
                                                        curv + 1, false,
                                                        __ATOMIC_RELAXED,
                                                        __ATOMIC_RELAXED)) {
                            idx = curv;
                            got = true;
                            break;
                        }
                    }
                    if (!got)
                        break;
                    (void)from;
                    if (now() - t0 > O.time_cap || G->nfail >= O.max_fail) {
                        stop = true;
                        break;
                    }
                    uint64_t cs =
                        mix(mix(O.seed) ^ hash_str(s.name) ^ mix(idx * 7919 + 13));
                    Outcome o =
                        run_case(s, sh, errfd, false, nullptr, cs, idx, scr);
                    if (o.inconclusive) {
                        disc++;
                        continue;
                    }
                    evals++;
                    per[s.name]++;
                    ops += sh->ops;
                    uint64_t h = hash_str(s.name);
                    for (uint32_t i = 0; i < sh->ntape; i++)
                        h = mix(h ^ sh->tape[i]);
                    if (sh->nontrivial && !o.failed && seen.insert(h).second) {
                        if (samples < 3 &&
                            (idx % 5 == w % 5)) {
                            samples++;
                            std::string tr(sh->trace,
                                           std::min<size_t>(sh->tracelen, 900));
                            fprintf(res, "sample %s #%" PRIu64 ": %s\n", s.name,
                                    idx, esc(tr).c_str());
                        }
                    }
                    if (o.failed) {
                        std::vector<uint64_t> tape = tape_of(sh);
                        std::string key = std::string(s.name) + "|" + o.sig;
                        if (!reported.insert(key).second)
                            continue;
                        // reproduce 3x (schedule-dependent suites: at least
                        // once in many)
                        std::string trace(sh->trace, sh->tracelen);
                        unsigned rep = 0, tries = s.concurrent ? 60 : 3, need = 3;
                        // a hang is confirmed with a shorter limit, twice, and is
                        // not shrunk: each try costs the whole limit
                        bool hang = o.sig == "hang";
                        Suite hs = s;
                        if (hang) {
                            hs.timeout_s = std::max(10u, (unsigned)s.timeout_s / 2);
                            if (!s.concurrent)
                                tries = need = 2;
                        }
                        double tend = now() + (s.concurrent ? 60 : 200);
                        for (unsigned k = 0; k < tries && now() < tend; k++) {
                            Outcome p = run_case(hang ? hs : s, sh, errfd, true, &tape, 0,
                                                 idx, scr);
                            if (p.failed && p.sig == o.sig)
                                rep++;
                            if (s.concurrent && rep)
                                break;
                        }
                        bool confirmed =
                            s.concurrent ? (rep > 0 || o.sig != "hang")
                                         : rep == need;
                        if (!confirmed) {
                            fprintf(res,
                                    "flaky %s #%" PRIu64 " sig=%s rep=%u "
                                    "msg=%s\n",
                                    s.name, idx, esc(o.sig).c_str(), rep,
                                    esc(o.msg).c_str());
                            fflush(res);
                            reported.erase(key);
                            continue;
                        }
                        __atomic_fetch_add(&G->nfail, O.first ? 1u << 20 : 1, __ATOMIC_RELAXED);
                        std::vector<uint64_t> best = tape;
                        Outcome fo = o;
                        if (!O.first && !hang && (!s.concurrent || rep)) {
                            best = shrink(s, sh, errfd, tape, o.sig, scr,
                                          O.thorough ? 60 : 25,
                                          s.concurrent ? 5 : 1);
                            for (unsigned k = 0; k < (s.concurrent ? 20u : 1u);
                                 k++) {
                                Outcome p = run_case(s, sh, errfd, true, &best,
                                                     0, idx, scr);
                                if (p.failed) {
                                    fo = p;
                                    trace.assign(sh->trace, sh->tracelen);
                                    break;
                                }
                            }
                        }
                        char nm[64];
                        snprintf(nm, sizeof(nm), "%016" PRIx64,
                                 mix(hash_str(key.c_str()) ^ O.seed ^ idx));
                        std::string rp = O.replaydir + "/" +
                                         program_invocation_short_name + "-" +
                                         s.name + "-" + nm + ".replay";
                        write_replay(rp, property, s, best, fo, trace.c_str(),
                                     O.seed, idx);
                        fprintf(res, "failure\t%s\t%s\t%s\t%s\n", s.name,
                                esc(fo.sig).c_str(), rp.c_str(),
                                esc(fo.msg).c_str());
                        fflush(res);
                    }
                }
            }
        }
        for (auto &p : per)
            fprintf(res, "per %s %" PRIu64 "\n", p.first.c_str(), p.second);
        for (uint32_t i = 0; i < sh->nlabels; i++)
            fprintf(res, "label %" PRIu64 " %s\n", sh->labels[i].count,
                    sh->labels[i].name);
        fprintf(res, "stats %" PRIu64 " %" PRIu64 " %" PRIu64 "\n", evals, disc,
                ops);
        for (auto h : seen)
            fprintf(res, "h %" PRIx64 "\n", h);
        fclose(res);
        rmdir(scr.c_str());
        _exit(0);
    }
    int bad = 0;
    for (auto p : pids) {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            bad++;
    }
    // merge
    uint64_t evals = 0, disc = 0, ops = 0;
    std::map<std::string, uint64_t> per, labels;
    std::vector<std::string> samples, failures, flaky;
    std::unordered_set<uint64_t> seen;
    std::set<std::string> failkeys;
    for (unsigned w = 0; w < O.workers; w++) {
        std::string outp = scratch_root + "/res" + std::to_string(w);
        FILE *f = fopen(outp.c_str(), "r");
        if (!f)
            continue;
        char *line = nullptr;
        size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            line[strcspn(line, "\n")] = 0;
            if (!strncmp(line, "h ", 2))
                seen.insert(strtoull(line + 2, 0, 16));
            else if (!strncmp(line, "sample ", 7))
                samples.push_back(line + 7);
            else if (!strncmp(line, "per ", 4)) {
                char nm[128];
                uint64_t n;
                if (sscanf(line + 4, "%127s %" SCNu64, nm, &n) == 2)
                    per[nm] += n;
            } else if (!strncmp(line, "label ", 6)) {
                char *e;
                uint64_t n = strtoull(line + 6, &e, 10);
                labels[e + 1] += n;
            } else if (!strncmp(line, "stats ", 6)) {
                uint64_t a, b, d;
                if (sscanf(line + 6, "%" SCNu64 " %" SCNu64 " %" SCNu64, &a, &b,
                           &d) == 3) {
                    evals += a;
                    disc += b;
                    ops += d;
                }
            } else if (!strncmp(line, "failure\t", 8))
                failures.push_back(line + 8);
            else if (!strncmp(line, "flaky ", 6))
                flaky.push_back(line + 6);
        }
        free(line);
        fclose(f);
        unlink(outp.c_str());
    }
    if (O.scratch.empty())
        rmdir(scratch_root.c_str());
    FILE *out = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
    if (!out)
        out = stdout;
    fprintf(out, "{\"property\":\"%s\",\"rule\":\"%s\",\"evaluations\":%" PRIu64
                 ",\"distinct_nontrivial\":%zu,\"inconclusive\":%" PRIu64
                 ",\"operations\":%" PRIu64 ",\"dead_workers\":%d,",
            property, esc(rule).c_str(), evals, seen.size(), disc, ops, bad);
    fprintf(out, "\"per_suite\":{");
    const char *sep = "";
    for (auto &p : per) {
        fprintf(out, "%s\"%s\":%" PRIu64, sep, p.first.c_str(), p.second);
        sep = ",";
    }
    fprintf(out, "},\"labels\":{");
    sep = "";
    for (auto &p : labels) {
        fprintf(out, "%s\"%s\":%" PRIu64, sep, esc(p.first).c_str(), p.second);
        sep = ",";
    }
    fprintf(out, "},\"samples\":[");
    sep = "";
    // spread the samples over suites
    std::map<std::string, int> persamp;
    std::vector<std::string> chosen;
    for (auto &x : samples) {
        std::string sn = x.substr(0, x.find(' '));
        if (persamp[sn]++ < 2)
            chosen.push_back(x);
    }
    for (auto &x : chosen) {
        fprintf(out, "%s\"%s\"", sep, x.c_str());
        sep = ",";
    }
    fprintf(out, "],\"flaky\":[");
    sep = "";
    for (auto &x : flaky) {
        fprintf(out, "%s\"%s\"", sep, esc(x).c_str());
        sep = ",";
    }
    fprintf(out, "],\"failures\":[");
    sep = "";
    for (auto &x : failures) {
        std::vector<std::string> p;
        size_t at = 0;
        for (int i = 0; i < 3; i++) {
            size_t t = x.find('\t', at);
            p.push_back(x.substr(at, t - at));
            at = t + 1;
        }
        p.push_back(x.substr(at));
        // the same failure found by several workers is reported once
        if (!failkeys.insert(p[0] + "|" + p[1]).second) {
            unlink(p[2].c_str());
            continue;
        }
        fprintf(out,
                "%s{\"suite\":\"%s\",\"sig\":\"%s\",\"replay\":\"%s\",\"msg\":\"%s\"}",
                sep, p[0].c_str(), p[1].c_str(), esc(p[2]).c_str(),
                p[3].c_str());
        sep = ",";
    }
    fprintf(out, "],\"wall_s\":%.2f}\n", now() - t0);
    if (out != stdout)
        fclose(out);
    return failures.empty() ? 0 : 1;
}

} // namespace pbt

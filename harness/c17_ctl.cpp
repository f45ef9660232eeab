// C17: the CTL interface against a reference model: generated trees, query
// names, configuration strings and files; and the public entry points.
#include "poolw.hpp"
#include <deque>
#include <sys/resource.h>
extern "C" {
#include "ctl.h"
}
using namespace h;

// ---------------------------------------------------------------- handlers
struct Call {
    int leaf, kind;
    void *ctx;
    umf_ctl_query_source_t src;
    void *arg;
    std::vector<char> bytes; // what a config argument decoded to
    std::string extra;
    bool hasExtra;
    umf_ctl_query_type_t qt;
    std::vector<std::pair<std::string, long>> idx; // most recent first
};
static std::vector<Call> calls;
constexpr int NLEAF = 48, NOWN = 45; // the last ones are the global tree's
static int leafRet[NLEAF];
static size_t leafBytes[NLEAF];
template <int I, int K>
static int cb(void *ctx, umf_ctl_query_source_t src, void *arg, umf_ctl_index_utlist_t *ix, const char *extra, umf_ctl_query_type_t qt) {
    Call c{I, K, ctx, src, arg, {}, extra ? extra : "", extra != nullptr, qt, {}};
    if (src == CTL_QUERY_CONFIG_INPUT && arg)
        c.bytes.assign((char *)arg, (char *)arg + leafBytes[I]);
    for (; ix; ix = ix->next)
        if (ix->name)
            c.idx.push_back({ix->name, ix->value});
    calls.push_back(c);
    return leafRet[I];
}
static node_callback table[NLEAF][4];
template <int I> struct Fill {
    static void go() {
        table[I][0] = cb<I, 0>;
        table[I][1] = cb<I, 1>;
        table[I][2] = cb<I, 2>;
        table[I][3] = cb<I, 3>;
        Fill<I - 1>::go();
    }
};
template <> struct Fill<-1> {
    static void go() {}
};

// ------------------------------------------------------------------- trees
enum ArgT { A_INT, A_BOOL, A_LL, A_U8, A_STR, A_PAIR, A_N };
static const ctl_argument *argOf(ArgT t) {
    static const ctl_argument *tab[A_N];
    if (!tab[0]) {
        auto mk = [](size_t dest, std::vector<ctl_argument_parser> ps) {
            ctl_argument *a = (ctl_argument *)calloc(1, sizeof(ctl_argument) + (ps.size() + 1) * sizeof(ctl_argument_parser));
            a->dest_size = dest;
            for (size_t i = 0; i < ps.size(); i++)
                a->parsers[i] = ps[i];
            return (const ctl_argument *)a;
        };
        tab[A_INT] = mk(4, {{0, 4, ctl_arg_integer}});
        tab[A_BOOL] = mk(4, {{0, 4, ctl_arg_boolean}});
        tab[A_LL] = mk(8, {{0, 8, ctl_arg_integer}});
        tab[A_U8] = mk(1, {{0, 1, ctl_arg_integer}});
        tab[A_STR] = mk(8, {{0, 8, ctl_arg_string}});
        tab[A_PAIR] = mk(16, {{0, 8, ctl_arg_integer}, {8, 8, ctl_arg_string}});
    }
    return tab[t];
}
struct Node {
    std::string name;
    int type;     // ctl_node_type
    int leaf = 0; // handlers
    unsigned mask = 0;
    ArgT at = A_INT;
    std::vector<Node> kids;
};
struct Tree {
    std::vector<Node> mods; // its own
    std::vector<Node> glob; // of all trees, looked up first
    std::deque<std::vector<umf_ctl_node_t>> store;
    std::deque<std::string> names;
    int leaves = 0;
};
static const char *WORDS[] = {"a", "b", "ab", "stats", "heap", "x_y", "a-b", "A", "params", "long_name_of_a_node_in_the_tree", "z0", "é"};
static void gen(Ctx &c, Tree &t, std::vector<Node> &out, unsigned depth) {
    unsigned n = (unsigned)c.range(1, 4);
    std::set<std::string> used;
    bool indexed = false;
    for (unsigned i = 0; i < n; i++) {
        Node d;
        d.name = WORDS[c.index_of(12)];
        if (!used.insert(d.name).second)
            continue;
        unsigned k = depth ? (unsigned)c.weighted({4, 3, 2, 1}) : 0;
        if (k && t.leaves >= NOWN)
            continue;
        if (k == 0) {
            d.type = CTL_NODE_LEAF;
            if (t.leaves >= NOWN)
                continue;
            d.leaf = t.leaves++;
            d.mask = (unsigned)c.range(0, 7);
            d.at = (ArgT)c.range(0, A_N - 1);
            leafRet[d.leaf] = c.chance(3, 4) ? 0 : c.oneof<int>({-1, 3, -7});
            leafBytes[d.leaf] = argOf(d.at)->dest_size;
        } else if (k == 1) {
            d.type = CTL_NODE_NAMED;
            gen(c, t, d.kids, depth - 1);
        } else if (k == 2) {
            if (indexed)
                continue;
            indexed = true;
            d.type = CTL_NODE_INDEXED;
            gen(c, t, d.kids, depth - 1);
        } else {
            d.type = CTL_NODE_SUBTREE;
            d.leaf = t.leaves++;
            leafRet[d.leaf] = c.chance(3, 4) ? 0 : c.oneof<int>({-1, 3});
            leafBytes[d.leaf] = 0;
        }
        out.push_back(d);
    }
}
static umf_ctl_node_t *build(Tree &t, const std::vector<Node> &ns) {
    std::vector<umf_ctl_node_t> v;
    for (auto &n : ns) {
        umf_ctl_node_t m;
        memset(&m, 0, sizeof m);
        t.names.push_back(n.name);
        m.name = t.names.back().c_str();
        m.type = (ctl_node_type)n.type;
        if (n.type == CTL_NODE_LEAF) {
            for (int k = 0; k < 3; k++)
                if (n.mask >> k & 1)
                    m.cb[k] = table[n.leaf][k];
            m.arg = argOf(n.at);
        } else if (n.type == CTL_NODE_SUBTREE)
            m.cb[3] = table[n.leaf][3];
        else
            m.children = build(t, n.kids);
        v.push_back(m);
    }
    umf_ctl_node_t end;
    memset(&end, 0, sizeof end);
    v.push_back(end);
    t.store.push_back(v);
    return t.store.back().data();
}

// -------------------------------------------------------------- the model
struct Found {
    const Node *n = nullptr;
    std::vector<std::pair<std::string, long>> idx; // most recent first
    std::string extra;
    bool hasExtra = false;
};
static bool isIndex(const std::string &s, long &v) {
    if (s.empty() || s.find_first_not_of("0123456789", s[0] == '-') != std::string::npos || s == "-")
        return false;
    v = strtol(s.c_str(), nullptr, 0);
    return true;
}
// a token that only begins like a number is no name and no index
static bool vague(const std::string &q) {
    size_t i = 0;
    while (i < q.size()) {
        size_t j = q.find('.', i);
        if (j == std::string::npos)
            j = q.size();
        std::string t = q.substr(i, j - i);
        char *e;
        strtol(t.c_str(), &e, 0);
        long v;
        if (e != t.c_str() && !isIndex(t, v))
            return true;
        i = j + 1;
    }
    return false;
}
static Found findIn(const std::vector<Node> &mods, const std::string &q) {
    Found f;
    const std::vector<Node> *lv = &mods;
    size_t i = 0;
    while (true) {
        while (i < q.size() && q[i] == '.')
            i++;
        if (i >= q.size())
            break;
        size_t j = q.find('.', i);
        if (j == std::string::npos)
            j = q.size();
        std::string tok = q.substr(i, j - i);
        if (f.n && f.n->type == CTL_NODE_SUBTREE) {
            f.extra = q.substr(i);
            f.hasExtra = true;
            return f;
        }
        if (f.n && f.n->type == CTL_NODE_LEAF)
            return Found();
        long v;
        bool ix = isIndex(tok, v);
        const Node *m = nullptr;
        for (auto &n : *lv)
            if ((ix && n.type == CTL_NODE_INDEXED) || n.name == tok) {
                m = &n;
                break;
            }
        if (!m)
            return Found();
        if (ix)
            f.idx.insert(f.idx.begin(), {m->name, v});
        f.n = m;
        lv = &m->kids;
        i = j;
    }
    return f;
}

static Found find(const Tree &t, const std::string &q) {
    Found f = findIn(t.glob, q);
    return f.n ? f : findIn(t.mods, q);
}

// ------------------------------------------------------------- query names
static std::string path(Ctx &c, const std::vector<Node> &lv, unsigned want) {
    std::string s;
    const std::vector<Node> *l = &lv;
    while (!l->empty()) {
        const Node &n = c.pick(*l);
        if (!s.empty())
            s += '.';
        if (n.type == CTL_NODE_INDEXED && c.chance(7, 8))
            s += c.chance(3, 4) ? std::to_string((long)c.range(0, 40)) : c.oneof<std::string>({"-1", "007", "9223372036854775807", "2147483648"});
        else
            s += n.name;
        if (n.type == CTL_NODE_SUBTREE && c.chance(3, 4)) {
            unsigned k = (unsigned)c.range(1, 3);
            while (k--)
                s += std::string(".") + (c.chance(1, 4) ? "7" : WORDS[c.index_of(12)]);
        }
        if (n.type == CTL_NODE_LEAF || n.type == CTL_NODE_SUBTREE || (!want && c.chance(1, 8)))
            break;
        l = &n.kids;
    }
    return s;
}
static std::string mutate(Ctx &c, std::string s) {
    switch (c.range(0, 7)) {
    case 0: return s.substr(0, c.range(0, s.size()));
    case 1: return s + "." + WORDS[c.index_of(12)];
    case 2: return s + "." + std::to_string(c.range(0, 3));
    case 3: return "." + s;
    case 4: return s + ".";
    case 5: {
        size_t p = s.find('.', c.range(0, s.size()));
        return p == std::string::npos ? s + ".." : s.insert(p, ".");
    }
    case 6: {
        if (s.empty())
            return s;
        size_t p = c.range(0, s.size() - 1);
        if (s[p] != '.')
            s[p] = c.oneof<char>({'q', 'a', '_', 'Z'});
        return s;
    }
    default: return WORDS[c.index_of(12)] + std::string(".") + s;
    }
}

// a module of the global tree: nodes are searched there first, then in the query's own tree
static const std::vector<Node> &global_tree() {
    static Tree g;
    if (g.mods.empty()) {
        auto leaf = [](const char *n, int l) {
            Node d;
            d.name = n;
            d.type = CTL_NODE_LEAF;
            d.leaf = l;
            d.mask = 7;
            leafBytes[l] = argOf(d.at)->dest_size;
            return d;
        };
        Node m, ix, nm;
        nm.name = "stats";
        nm.type = CTL_NODE_NAMED;
        nm.kids = {leaf("ab", NOWN)};
        ix.name = "heap";
        ix.type = CTL_NODE_INDEXED;
        ix.kids = {leaf("a", NOWN + 1), nm};
        m.name = "gl";
        m.type = CTL_NODE_NAMED;
        m.kids = {ix, leaf("z0", NOWN + 2)};
        g.mods = {m};
        ctl_register_module_node(nullptr, "gl", build(g, g.mods[0].kids));
    }
    return g.mods;
}
static struct ctl *make(Ctx &c, Tree &t) {
    t.glob = global_tree();
    for (int l = NOWN; l < NLEAF; l++)
        leafRet[l] = 0;
    struct ctl *ctl = ctl_new();
    PCHECK(c, ctl, "new", "ctl_new");
    unsigned nmod = (unsigned)c.range(1, 4);
    std::set<std::string> used;
    for (unsigned i = 0; i < nmod; i++) {
        Node m;
        m.name = c.chance(1, 5) ? "gl" : WORDS[c.index_of(12)];
        if (!used.insert(m.name).second)
            continue;
        m.type = CTL_NODE_NAMED;
        gen(c, t, m.kids, (unsigned)c.range(0, 4));
        t.mods.push_back(m);
    }
    for (auto &m : t.mods) {
        t.names.push_back(m.name);
        const char *nm = t.names.back().c_str();
        ctl_register_module_node(ctl, nm, build(t, m.kids));
    }
    return ctl;
}

static void tree(Ctx &c) {
    Tree t;
    struct ctl *ctl = make(c, t);
    unsigned hits = 0, subs = 0, ixs = 0, misses = 0;
    unsigned nq = (unsigned)c.range(4, 40);
    for (unsigned i = 0; i < nq; i++) {
        c.op();
        std::string q = path(c, c.chance(1, 6) ? t.glob : t.mods, 1);
        if (c.chance(1, 3))
            q = mutate(c, q);
        if (vague(q))
            continue;
        umf_ctl_query_type_t ty = (umf_ctl_query_type_t)c.range(0, 2);
        Found f = find(t, q);
        // every token must be a plain name or a plain number
        int argv = 5;
        void *arg = c.chance(1, 12) ? nullptr : (void *)&argv;
        void *ctx = (void *)(uintptr_t)c.range(0, 99);
        calls.clear();
        errno = 0;
        int r = ctl_query(ctl, ctx, CTL_QUERY_PROGRAMMATIC, q.c_str(), ty, arg);
        c.note("query %d '%s' arg %p -> %d (%zu calls)", (int)ty, q.c_str(), arg, r, calls.size());
        bool sub = f.n && f.n->type == CTL_NODE_SUBTREE;
        bool ok = f.n && (sub || (f.n->type == CTL_NODE_LEAF && (f.n->mask >> ty & 1)));
        if (ok && !sub && ty != CTL_QUERY_RUNNABLE && !arg)
            ok = false;
        if (!ok) {
            misses++;
            PCHECK(c, r < 0, "found", "'%s' (type %d) names nothing, the result is %d", q.c_str(), (int)ty, r);
            PCHECK(c, calls.empty(), "called", "'%s' names nothing but handler %d was called", q.c_str(), calls[0].leaf);
            PCHECK(c, errno == EINVAL, "errno", "'%s': errno %d", q.c_str(), errno);
            continue;
        }
        PCHECK(c, calls.size() == 1, "calls", "'%s': %zu handlers called", q.c_str(), calls.size());
        Call &k = calls[0];
        PCHECK(c, k.leaf == f.n->leaf && k.kind == (sub ? 3 : (int)ty), "handler", "'%s' (type %d) reached handler %d/%d, not %d", q.c_str(), (int)ty, k.leaf,
               k.kind, f.n->leaf);
        PCHECK(c, k.ctx == ctx && k.arg == arg && k.src == CTL_QUERY_PROGRAMMATIC, "args", "'%s': ctx %p arg %p source %d", q.c_str(), k.ctx, k.arg, (int)k.src);
        PCHECK(c, r == leafRet[f.n->leaf], "result", "'%s': %d, the handler returned %d", q.c_str(), r, leafRet[f.n->leaf]);
        if (sub) {
            subs++;
            PCHECK(c, k.qt == ty, "type", "'%s': type %d became %d", q.c_str(), (int)ty, (int)k.qt);
            if (f.hasExtra)
                PCHECK(c, k.extra == f.extra, "extra", "'%s': the rest is '%s', got '%s'", q.c_str(), f.extra.c_str(), k.extra.c_str());
        }
        PCHECK(c, k.idx == f.idx, "indexes", "'%s': %zu indexes were passed, there are %zu (first %ld, %ld)", q.c_str(), k.idx.size(), f.idx.size(),
               k.idx.empty() ? -1 : k.idx[0].second, f.idx.empty() ? -1 : f.idx[0].second);
        if (!f.idx.empty())
            ixs++;
        hits++;
    }
    ctl_delete(ctl);
    if (subs)
        c.label("subtree");
    if (ixs)
        c.label("indexes");
    if (misses)
        c.label("unknown names");
    if (hits >= 3 && misses)
        c.nontrivial();
}

// ---------------------------------------------------------- configurations
struct Val {
    std::string text;
    bool ok;
    std::vector<char> bytes;
};
template <class T> static std::vector<char> raw(T v) { return std::vector<char>((char *)&v, (char *)&v + sizeof v); }
static Val genInt(Ctx &c, size_t sz) {
    Val v;
    if (c.chance(1, 8)) {
        v.text = c.oneof<std::string>({"abc", "-", "x1", "99999999999999999999", "-99999999999999999999", "+-1"});
        v.ok = false;
        return v;
    }
    long long n;
    switch (c.range(0, 3)) {
    case 0: n = (long long)c.range(0, 300) - 20; break;
    case 1: n = c.oneof<long long>({INT32_MAX, INT32_MIN, (long long)INT32_MAX + 1, (long long)INT32_MIN - 1, 255, 256, -1, 0, 128, INT64_MAX, INT64_MIN + 1, 1ll << 32}); break;
    case 2: n = (long long)c.size(INT64_MAX); break;
    default: n = -(long long)c.size(INT64_MAX);
    }
    char b[64];
    if (n >= 0 && c.chance(1, 4))
        snprintf(b, sizeof b, c.chance(1, 2) ? "0x%llx" : "0%llo", (unsigned long long)n);
    else
        snprintf(b, sizeof b, "%lld", n);
    v.text = b;
    v.ok = sz == 8 || (sz == 4 && n >= INT32_MIN && n <= INT32_MAX) || (sz == 1 && n >= 0 && n <= 255);
    v.bytes = sz == 8 ? raw(n) : sz == 4 ? raw((int)n) : raw((uint8_t)n);
    return v;
}
static Val genStr(Ctx &c) {
    Val v;
    v.text = std::string(c.range(1, 10), (char)('a' + c.range(0, 25)));
    v.ok = v.text.size() < 8;
    v.bytes.assign(8, 0);
    if (v.ok)
        memcpy(v.bytes.data(), v.text.data(), v.text.size());
    return v;
}
static Val genVal(Ctx &c, ArgT t) {
    switch (t) {
    case A_INT: return genInt(c, 4);
    case A_LL: return genInt(c, 8);
    case A_U8: return genInt(c, 1);
    case A_BOOL: {
        static const struct {
            const char *s;
            int v;
        } W[] = {{"1", 1}, {"0", 0}, {"y", 1}, {"n", 0}, {"Yes", 1}, {"NO", 0}, {"maybe", -1}, {"2", -1}, {"true", -1}};
        auto &w = W[c.index_of(9)];
        return {w.s, w.v >= 0, raw(w.v)};
    }
    case A_STR: return genStr(c);
    default: {
        Val a = genInt(c, 8);
        if (c.chance(1, 6))
            return {a.text, false, {}};
        Val b = genStr(c);
        a.text += "," + b.text;
        a.ok &= b.ok;
        a.bytes.resize(8);
        a.bytes.insert(a.bytes.end(), b.bytes.begin(), b.bytes.end());
        return a;
    }
    }
}
static void junk(Ctx &c, std::string &out) { // what a file may have anywhere between characters
    switch (c.range(0, 5)) {
    case 0: out += '\n'; break;
    case 1: out += ' '; break;
    case 2: out += "\t"; break;
    case 3: out += "# comment; a.b=1 = \n"; break;
    default:;
    }
}
static void config(Ctx &c) {
    Tree t;
    struct ctl *ctl = make(c, t);
    unsigned set = 0, bad = 0, nfile = 0;
    unsigned rounds = (unsigned)c.range(1, 6);
    for (unsigned rd = 0; rd < rounds; rd++) {
        c.op();
        void *ctx = c.chance(1, 2) ? nullptr : (void *)(uintptr_t)c.range(1, 9);
        struct Exp {
            const Node *n;
            std::vector<char> bytes;
        };
        std::vector<Exp> exp;
        std::string text;
        int want = 0;
        bool stopped = false;
        unsigned ne = (unsigned)c.range(0, 8);
        for (unsigned i = 0; i < ne; i++) {
            std::string q = path(c, c.chance(1, 6) ? t.glob : t.mods, 1);
            if (c.chance(1, 8))
                q = mutate(c, q);
            if (vague(q))
                continue;
            Found f = find(t, q);
            bool broken = c.chance(1, 20);
            ArgT at = f.n && f.n->type == CTL_NODE_LEAF ? f.n->at : A_INT;
            Val v = genVal(c, at);
            std::string e;
            if (broken || q.empty())
                e = c.chance(1, 2) || q.empty() ? "name_only" : q + "=1=2";
            else
                e = q + "=" + v.text;
            if (!text.empty() || c.chance(1, 10))
                text += c.chance(1, 10) ? ";;" : ";";
            text += e;
            if (stopped)
                continue;
            if (broken || q.empty()) {
                want = -1;
                stopped = true;
                bad++;
                continue;
            }
            bool sub = f.n && f.n->type == CTL_NODE_SUBTREE;
            bool call = f.n && (sub || (f.n->type == CTL_NODE_LEAF && (f.n->mask >> 1 & 1) && v.ok));
            int r = call ? leafRet[f.n->leaf] : -1;
            if (call) {
                exp.push_back({f.n, sub ? std::vector<char>() : v.bytes});
                set++;
            } else
                bad++;
            if (r < 0 && ctx) {
                want = -1;
                stopped = true;
            }
        }
        if (!text.empty() && c.chance(1, 4))
            text += ";";
        calls.clear();
        int r;
        bool file = c.chance(1, 2);
        if (file) {
            nfile++;
            std::string ft, fn = std::string(c.scratch) + "/cfg";
            for (char ch : text) {
                if (c.chance(1, 16))
                    junk(c, ft);
                ft += ch;
            }
            bool large = c.chance(1, 60);
            if (large)
                ft = "# " + std::string((1 << 20) + 100, 'c') + "\n" + ft;
            unsigned how = (unsigned)c.weighted({30, 1, 1, 1});
            FILE *fp = fopen(fn.c_str(), "w");
            fwrite(ft.data(), 1, ft.size(), fp);
            fclose(fp);
            if (how == 1)
                fn += "/none";
            else if (how == 2)
                fn = c.scratch;
            else if (how == 3)
                fn = "/proc/self/status"; // longer than it says
            r = ctl_load_config_from_file(ctl, ctx, fn.c_str());
            c.note("file (%zu bytes, how %u, ctx %p) '%s' -> %d", ft.size(), how, ctx, text.c_str(), r);
            if (how || large) {
                if (how != 3)
                    PCHECK(c, r == -1, "file.bad", "unusable file: %d", r);
                PCHECK(c, calls.empty(), "file.calls", "unusable file: %zu calls", calls.size());
                unlink((std::string(c.scratch) + "/cfg").c_str());
                continue;
            }
            unlink(fn.c_str());
        } else {
            r = ctl_load_config_from_string(ctl, ctx, text.c_str());
            c.note("string (ctx %p) '%s' -> %d", ctx, text.c_str(), r);
        }
        PCHECK(c, r == want, "config.result", "loading '%s': %d, should be %d", text.c_str(), r, want);
        PCHECK(c, calls.size() == exp.size(), "config.calls", "loading '%s': %zu handlers called, should be %zu", text.c_str(), calls.size(), exp.size());
        for (size_t i = 0; i < exp.size(); i++) {
            const Node *n = exp[i].n;
            Call &k = calls[i];
            PCHECK(c, k.leaf == n->leaf && k.kind == (n->type == CTL_NODE_SUBTREE ? 3 : 1), "config.handler", "entry %zu of '%s' reached handler %d/%d, not %d", i,
                   text.c_str(), k.leaf, k.kind, n->leaf);
            PCHECK(c, k.ctx == ctx && k.src == CTL_QUERY_CONFIG_INPUT, "config.args", "entry %zu: ctx %p source %d", i, k.ctx, (int)k.src);
            if (n->type == CTL_NODE_LEAF)
                PCHECK(c, k.bytes == exp[i].bytes, "config.value", "entry %zu of '%s' was decoded to other bytes", i, text.c_str());
        }
    }
    ctl_delete(ctl);
    if (nfile)
        c.label("files");
    if (bad)
        c.label("bad entries");
    if (set >= 2)
        c.nontrivial();
}

// -------------------------------------------------------------- public API
struct UCtl {
    unsigned n = 0;
    void *h;
    std::string name;
    void *arg;
    umf_ctl_query_type_t qt;
    umf_result_t ret;
};
static UCtl uc;
static umf_result_t u_ctl(void *h, int, const char *name, void *arg, umf_ctl_query_type_t qt) {
    uc.n++;
    uc.h = h;
    uc.name = name ? name : "(null)";
    uc.arg = arg;
    uc.qt = qt;
    return uc.ret;
}
static umf_result_t poolq_init(umf_memory_provider_handle_t, void *, void **priv) {
    *priv = (void *)0x77;
    return UMF_RESULT_SUCCESS;
}
static void api(Ctx &c) {
    // 0 user provider with ctl, 1 without, 2 OS provider, 3 fixed, 4 user pool, 5 pool without ctl, 6 scalable, 7 disjoint
    unsigned kind = (unsigned)c.range(0, 7);
    bool pool = kind >= 4, track = c.chance(1, 2);
    Mock mock;
    umf_memory_provider_ops_t po = mock_ops();
    po.ctl = kind == 0 ? u_ctl : nullptr;
    umf_memory_provider_handle_t p = nullptr;
    umf_memory_pool_handle_t h = nullptr;
    bool shared = c.chance(1, 2);
    static char buf[1 << 16];
    umf_result_t r;
    if (kind == 2) {
        umf_os_memory_provider_params_handle_t hp = nullptr;
        umfOsMemoryProviderParamsCreate(&hp);
        umfOsMemoryProviderParamsSetVisibility(hp, shared ? UMF_MEM_MAP_SHARED : UMF_MEM_MAP_PRIVATE);
        r = umfMemoryProviderCreate(umfOsMemoryProviderOps(), hp, &p);
        umfOsMemoryProviderParamsDestroy(hp);
    } else if (kind == 3) {
        umf_fixed_memory_provider_params_handle_t hp = nullptr;
        umfFixedMemoryProviderParamsCreate(&hp, buf, sizeof buf);
        r = umfMemoryProviderCreate(umfFixedMemoryProviderOps(), hp, &p);
        umfFixedMemoryProviderParamsDestroy(hp);
    } else
        r = umfMemoryProviderCreate(&po, &mock, &p);
    PCHECK(c, r == UMF_RESULT_SUCCESS, "provider", "provider: %s", rs(r));
    umf_memory_pool_ops_t qo;
    memset(&qo, 0, sizeof qo);
    if (pool) {
        qo.version = UMF_POOL_OPS_VERSION_CURRENT;
        qo = *umfProxyPoolOps();
        qo.initialize = poolq_init;
        qo.finalize = [](void *) {};
        qo.ctl = kind == 4 ? u_ctl : nullptr;
        umf_memory_pool_ops_t *ops = kind == 6 ? umfScalablePoolOps() : kind == 7 ? umfDisjointPoolOps() : &qo;
        umf_disjoint_pool_params_handle_t dp = nullptr;
        if (kind == 7)
            umfDisjointPoolParamsCreate(&dp);
        r = umfPoolCreate(ops, p, dp, track ? 0 : UMF_POOL_CREATE_FLAG_DISABLE_TRACKING, &h);
        if (dp)
            umfDisjointPoolParamsDestroy(dp);
        if (kind == 6 && r != UMF_RESULT_SUCCESS)
            c.discard("no TBB");
        PCHECK(c, r == UMF_RESULT_SUCCESS, "pool", "pool: %s", rs(r));
    }
    void *handle = pool ? (void *)h : (void *)p;
    std::string pre = pool ? "umf.pool.by_handle" : "umf.provider.by_handle";
    const char *leaves[] = {"params.ipc_enabled", "stats.allocated_memory", "stats.peak_memory", "stats.reset", "params.tracking_enabled", "params", "stats", "x"};
    unsigned nq = (unsigned)c.range(3, 20), ok = 0, no = 0;
    for (unsigned i = 0; i < nq; i++) {
        c.op();
        int leaf = (int)c.index_of(8), ty = (int)c.range(0, 2);
        std::string rest = leaves[leaf];
        unsigned how = (unsigned)c.weighted({10, 2, 2, 2, 1, 1});
        if (how == 1)
            rest += c.oneof<std::string>({".y", ".0", ".params", "z", ".reset"});
        else if (how == 2)
            rest = rest.substr(0, c.range(1, rest.size() - 1 ? rest.size() - 1 : 1));
        std::string q = pre + "." + rest;
        if (how == 3)
            q = c.oneof<std::string>({"", ".", "umf", "umf.provider", "umf.pool", "um", "umf.x.by_handle.a", "provider.by_handle.stats.reset", "by_handle",
                                      "umf.provider.by_name.stats", "umf..", "params.ipc_enabled", "stats.reset", "umf.pool.x"});
        char out[64], ref[64];
        memset(out, 0x5a, sizeof out);
        memset(ref, 0x5a, sizeof ref);
        uc.n = 0;
        uc.ret = c.oneof<umf_result_t>({UMF_RESULT_SUCCESS, UMF_RESULT_SUCCESS, UMF_RESULT_ERROR_NOT_SUPPORTED, UMF_RESULT_ERROR_INVALID_ARGUMENT, UMF_RESULT_ERROR_UNKNOWN});
        unsigned nul = how == 4 ? (unsigned)c.range(1, 3) : 0;
        auto fn = ty == 0 ? umfCtlGet : ty == 1 ? umfCtlSet : umfCtlExec;
        r = fn(nul == 1 ? nullptr : q.c_str(), nul == 2 ? nullptr : handle, nul == 3 ? nullptr : (void *)out);
        c.note("%s('%s')%s on %u -> %s", ty == 0 ? "get" : ty == 1 ? "set" : "exec", q.c_str(), nul ? " NULL argument" : "", kind, rs(r));
        if (nul) {
            PCHECK(c, r == UMF_RESULT_ERROR_INVALID_ARGUMENT && uc.n == 0, "null", "NULL argument %u: %s, %u calls", nul, rs(r), uc.n);
            no++;
            continue;
        }
        if (how == 3) {
            PCHECK(c, r == UMF_RESULT_ERROR_UNKNOWN && uc.n == 0, "api.unknown", "'%s': %s, %u calls", q.c_str(), rs(r), uc.n);
            PCHECK(c, !memcmp(out, ref, sizeof out), "api.arg", "'%s' failed but wrote its argument", q.c_str());
            no++;
            continue;
        }
        if (kind == 0 || kind == 4) {
            PCHECK(c, uc.n == 1, "api.calls", "'%s': the operation was called %u times", q.c_str(), uc.n);
            PCHECK(c, uc.name == rest && uc.arg == (void *)out && (int)uc.qt == ty, "api.forward", "'%s': name '%s' arg %p (%p) type %d", q.c_str(), uc.name.c_str(),
                   uc.arg, (void *)out, (int)uc.qt);
            if (kind == 4)
                PCHECK(c, uc.h == (void *)h, "api.handle", "the pool's operation got %p, the pool is %p", uc.h, (void *)h);
            else
                PCHECK(c, uc.h == (void *)&mock, "api.handle", "the provider's operation got %p, its state is %p", uc.h, (void *)&mock);
            PCHECK(c, r == (uc.ret == UMF_RESULT_SUCCESS ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_UNKNOWN), "api.result", "'%s': %s, the operation returned %s",
                   q.c_str(), rs(r), rs(uc.ret));
            ok++;
            continue;
        }
        // built-in names
        bool want = false;
        size_t wr = 0;
        uint64_t val = 0;
        if (kind == 2) {
            want = (rest == leaves[0] && ty == 0) || (rest == leaves[1] && ty == 0) || (rest == leaves[2] && ty == 0) || (rest == leaves[3] && ty == 2);
            wr = rest == leaves[0] ? 4 : rest == leaves[3] ? 0 : 8;
            val = rest == leaves[0] ? shared : 0;
        } else if (kind == 6) {
            want = rest == leaves[4] && ty == 0;
            wr = 4;
            val = track;
        }
        PCHECK(c, r == (want ? UMF_RESULT_SUCCESS : UMF_RESULT_ERROR_UNKNOWN), "api.builtin", "%s('%s') on kind %u: %s", ty == 0 ? "get" : ty == 1 ? "set" : "exec",
               q.c_str(), kind, rs(r));
        if (want) {
            memcpy(ref, &val, wr);
            ok++;
        } else
            no++;
        PCHECK(c, !memcmp(out, ref, sizeof out), "api.value", "'%s' on kind %u (shared %d, tracking %d): wrong value or bytes written", q.c_str(), kind, shared, track);
    }
    if (h)
        umfPoolDestroy(h);
    umfMemoryProviderDestroy(p);
    if (ok && no)
        c.nontrivial();
    else if (ok >= 3 || no >= 3)
        c.nontrivial();
}

int main(int argc, char **argv) {
    Fill<NLEAF - 1>::go();
    return pbt::run_main(argc, argv, "C17",
                         "tree: three names found and one not; config: two handlers called; api: queries both answered and refused, or three of one kind",
                         {{"tree", tree, 60000, 1500000, 20, false}, {"config", config, 60000, 1500000, 20, false}, {"api", api, 12000, 300000, 20, false}});
}

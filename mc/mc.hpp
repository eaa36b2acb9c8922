// Small exhaustive-exploration engine used by every sequential harness.
//
// Two explorers, both running the real itlib code:
//  * explore_bfs<World>: explicit-state search over operation histories. A state is the history that reaches it,
//    rebuilt from scratch for every transition; states are merged by a canonical key (never before depth `nomerge`).
//  * explore_choices(body): stateless exhaustive enumeration of every sequence of choose(n) answers in body().
//
// The running history is kept in a file mapping so that the parent can report it after a crash, an ASan abort or a hang.
#pragma once
#include <bits/stdc++.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace mc {
template <class...> struct make_void { typedef void type; };
template <class... A> using void_t = typename make_void<A...>::type;

struct Op { int code = 0, a = 0, b = 0, c = 0; };
inline bool operator==(const Op& x, const Op& y) { return x.code == y.code && x.a == y.a && x.b == y.b && x.c == y.c; }

constexpr unsigned MAXOPS = 4096;
struct Shared {
    volatile uint64_t beat;
    volatile uint32_t nops;
    volatile uint32_t failed;
    int32_t ops[MAXOPS][4];
    char msg[2048];
};

inline Shared* sh = nullptr;
inline bool replaying = false;
inline std::vector<Op> replay_ops;
inline bool thorough = false;
inline std::chrono::steady_clock::time_point deadline;
inline bool verbose = false;
inline bool in_fail = false;

inline bool out_of_time() { return std::chrono::steady_clock::now() > deadline; }

[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
    char buf[1800];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (sh) { snprintf(sh->msg, sizeof sh->msg, "%s", buf); sh->failed = 1; }
    fprintf(stderr, "MC-FAIL: %s\n", buf); fflush(stderr); fflush(stdout);
    _exit(41);
}
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::failat(__FILE__, __LINE__, #cond, "" __VA_ARGS__); } while (0)
[[noreturn]] inline void failat(const char* file, int line, const char* cond, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
[[noreturn]] inline void failat(const char* file, int line, const char* cond, const char* fmt, ...) {
    char buf[1400];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    const char* b = strrchr(file, '/');
    fail("%s:%d: expected %s %s", b ? b + 1 : file, line, cond, buf);
}

// ---------------------------------------------------------------- live allocation accounting (leaks)
inline long live_blocks = 0;
#if defined(__SANITIZE_ADDRESS__)
inline void hook_m(const volatile void*, size_t) { ++live_blocks; }
inline void hook_f(const volatile void* p) { if (p) --live_blocks; }
#endif
inline void install_hooks() {
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
#endif
}

struct Quiet { long s = live_blocks; ~Quiet() { live_blocks = s; } };   // engine-internal allocations do not count

// ---------------------------------------------------------------- hashing
struct Hash { uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full; };
inline bool operator==(const Hash& x, const Hash& y) { return x.a == y.a && x.b == y.b; }
struct HashHash { size_t operator()(const Hash& h) const { return size_t(h.a); } };
inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
struct Key {   // canonical form of a state
    std::vector<int64_t> w;
    std::vector<int64_t> names;      // values relabelled by order of first occurrence
    void add(int64_t v) { w.push_back(v); }
    void label(int64_t v) {
        for (size_t i = 0; i < names.size(); ++i) if (names[i] == v) { w.push_back(1000000 + int64_t(i)); return; }
        names.push_back(v); w.push_back(1000000 + int64_t(names.size() - 1));
    }
    Hash hash() const {
        Hash h;
        for (auto v : w) { h.a = mix(h.a ^ uint64_t(v)) + 0x9E3779B97F4A7C15ull; h.b = mix(h.b + uint64_t(v) * 0xD6E8FEB86659FD93ull) ^ 0x85EBCA6B; }
        return h;
    }
};

struct Stats {
    std::string config;
    uint64_t states = 0, transitions = 0, executions = 0, merged = 0, outcomes = 0;
    int depth = 0, depth_goal = 0;
    bool complete = true;
    std::vector<std::string> samples;
};
inline Stats stats;

inline void record(const Op* o, size_t n) {
    if (!sh) return;
    if (n > MAXOPS) n = MAXOPS;
    for (size_t i = 0; i < n; ++i) { sh->ops[i][0] = o[i].code; sh->ops[i][1] = o[i].a; sh->ops[i][2] = o[i].b; sh->ops[i][3] = o[i].c; }
    sh->nops = uint32_t(n);
    sh->beat = sh->beat + 1;
}

#ifndef MC_SHALLOW
#define MC_SHALLOW 0        // the second build of a harness (the release build) explores histories shorter by this
#endif
struct BfsOpt {
    int depth = 3;          // history length explored exhaustively
    int nomerge = 1;        // histories up to this length are never merged
    uint64_t max_states = 40000000;
};

template <class World, class Cfg>
std::string op_text(const Cfg& cfg, const std::vector<Op>& h) {
    std::string s;
    for (auto& o : h) { if (!s.empty()) s += "; "; s += World::text(cfg, o); }
    return s;
}


// one execution: fresh world, replay, optional key; checks that nothing leaked
inline std::vector<Op>& op_buf() { static std::vector<Op> v; return v; }

template <class World, class Cfg>
Hash run_history(const Cfg& cfg, const std::vector<Op>& h, bool enumerate) {
    Hash res;
    record(h.data(), h.size());
    auto& en = op_buf();
    if (en.capacity() < 65536) en.reserve(65536);
    for (int attempt = 0;; ++attempt) {
        long before = live_blocks;
        {
            Key k; k.w.reserve(128);
            World w(cfg);
            for (size_t i = 0; i < h.size(); ++i) w.apply(h[i]);
            w.observe(k);
            res = k.hash();
            en.clear();
            if (enumerate) w.enumerate(en);
            w.finish();
        }
        if (live_blocks == before) break;
        // lazily created library caches only show up the first time
        if (attempt >= 3) fail("memory leak: %ld block(s) still allocated after everything was destroyed", live_blocks - before);
    }
    ++stats.executions;
    return res;
}

template <class World, class Cfg>
void explore_bfs(const Cfg& cfg, BfsOpt opt) {
    if (replaying) {
        fprintf(stderr, "replaying: %s\n", op_text<World>(cfg, replay_ops).c_str());
        for (size_t n = 0; n <= replay_ops.size(); ++n) {   // every prefix is observed too
            std::vector<Op> h(replay_ops.begin(), replay_ops.begin() + long(n));
            run_history<World>(cfg, h, false);
        }
        return;
    }
    struct Node { uint32_t parent; int16_t code, a, b, c; };
    std::vector<Node> nodes;
    std::unordered_set<Hash, HashHash> seen, outcomes;
    std::vector<uint32_t> level, next;
    auto history = [&](uint32_t n, std::vector<Op>& out) {
        out.clear();
        while (n != 0) { auto& x = nodes[n]; out.push_back(Op{x.code, x.a, x.b, x.c}); n = x.parent; }
        std::reverse(out.begin(), out.end());
    };
    nodes.push_back({0, 0, 0, 0, 0});
    if (opt.depth > MC_SHALLOW) opt.depth -= MC_SHALLOW;
    std::vector<Op> h;
    seen.insert(run_history<World>(cfg, h, false));
    level.push_back(0);
    stats.depth_goal = opt.depth;
    std::vector<Op> ops;
    for (int d = 0; d < opt.depth && !level.empty(); ++d) {
        next.clear();
        for (uint32_t n : level) {
            history(n, h);
            run_history<World>(cfg, h, true);
            ops = op_buf();
            for (auto& o : ops) {
                h.push_back(o);
                auto key = run_history<World>(cfg, h, false);
                h.pop_back();
                ++stats.transitions;
                bool fresh = seen.insert(key).second;
                if (!fresh) ++stats.merged;
                if (d + 1 < opt.depth && (fresh || d + 1 <= opt.nomerge)) {
                    if (nodes.size() >= opt.max_states) { stats.complete = false; goto done; }
                    nodes.push_back({n, int16_t(o.code), int16_t(o.a), int16_t(o.b), int16_t(o.c)});
                    next.push_back(uint32_t(nodes.size() - 1));
                }
                if ((stats.transitions == 7 || stats.transitions == 1000 || stats.transitions == 50000) && stats.samples.size() < 3) {
                    h.push_back(o); stats.samples.push_back(op_text<World>(cfg, h)); h.pop_back();
                }
                if ((stats.transitions & 63) == 0 && out_of_time()) { stats.complete = false; goto done; }
            }
        }
        stats.depth = d + 1;
        level.swap(next);
        if (level.empty()) { stats.depth = opt.depth; break; }
    }
done:
    stats.states = seen.size();
    stats.outcomes = seen.size();
    if (stats.samples.empty()) { history(uint32_t(nodes.size() - 1), h); stats.samples.push_back(op_text<World>(cfg, h)); }
}

// ---------------------------------------------------------------- stateless choice exploration
struct ChoiceState {
    std::vector<Op> trail;            // code = answer, a = number of alternatives
    size_t pos = 0;
    std::unordered_set<Hash, HashHash> outcomes;
};
inline ChoiceState* cur_choice = nullptr;
inline std::string case_text;          // human readable description of the current case (only filled on replay/sample)
inline bool want_text = false;
inline void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void say(const char* fmt, ...) {
    if (!want_text) return;
    Quiet q;
    char buf[512]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    case_text += buf; case_text += "; ";
    if (replaying) fprintf(stderr, "  %s\n", buf);
}
inline int choose(int n) {
    Quiet q;
    auto& c = *cur_choice;
    if (n <= 0) fail("harness error: choose(%d)", n);
    if (c.pos < c.trail.size()) {
        auto& t = c.trail[c.pos];
        if (t.a == 0) t.a = n;         // replayed from a file
        if (t.a != n || t.code >= n) fail("nondeterminism: choice %zu had %d alternatives, now %d", c.pos, t.a, n);
    } else {
        c.trail.push_back(Op{0, n, 0, 0});
        ++stats.transitions;
        if (sh && c.pos < MAXOPS) { sh->ops[c.pos][0] = 0; sh->ops[c.pos][1] = n; }
    }
    int r = c.trail[c.pos].code;
    ++c.pos;
    if (sh) sh->nops = uint32_t(std::min<size_t>(c.pos, MAXOPS));
    return r;
}
inline int choose_of(std::initializer_list<int> l) { return *(l.begin() + choose(int(l.size()))); }
template <class T> const T& pick(const std::vector<T>& v) { return v[size_t(choose(int(v.size())))]; }
inline void outcome(const Key& k) { Quiet q; if (cur_choice->outcomes.size() < 5000000) cur_choice->outcomes.insert(k.hash()); }
inline void outcome(int64_t v) { Key k; k.add(v); outcome(k); }

template <class F>
void explore_choices(F&& body) {
    ChoiceState cs; cur_choice = &cs;
    cs.trail.reserve(4096);
    if (replaying) { cs.trail = replay_ops; want_text = true; }
    bool done = false;
    while (!done) {
        if (sh) {
            for (size_t i = 0; i < cs.trail.size() && i < MAXOPS; ++i) { sh->ops[i][0] = cs.trail[i].code; sh->ops[i][1] = cs.trail[i].a; }
            sh->nops = 0;
            sh->beat = sh->beat + 1;
        }
        want_text = replaying || stats.executions == 5 || stats.executions == 500 || stats.executions == 50000;
        for (int attempt = 0;; ++attempt) {
            cs.pos = 0; case_text.clear();
            long before = live_blocks;
            body();
            if (live_blocks == before) break;
            if (attempt >= 3) fail("memory leak: %ld block(s) still allocated at the end of the case", live_blocks - before);
        }
        if (cs.pos != cs.trail.size()) fail("nondeterminism: case ended after %zu of %zu choices", cs.pos, cs.trail.size());
        ++stats.executions;
        if (want_text && !replaying) stats.samples.push_back(case_text);
        if (replaying) return;
        stats.depth = std::max(stats.depth, int(cs.trail.size()));
        while (!cs.trail.empty() && cs.trail.back().code + 1 >= cs.trail.back().a) cs.trail.pop_back();
        if (cs.trail.empty()) done = true; else { ++cs.trail.back().code; ++stats.transitions; }
        if (!done && (stats.executions & 15) == 0 && out_of_time()) { stats.complete = false; done = true; }
    }
    stats.states = stats.transitions + 1;      // nodes of the choice tree
    stats.outcomes = cs.outcomes.size();
    stats.depth_goal = stats.depth;
    cur_choice = nullptr;
}

// ---------------------------------------------------------------- configurations and main
struct Config { std::string name; std::function<void()> run; int tier; /* 0: both, 1: thorough only */ };
inline std::vector<Config>& configs() { static std::vector<Config> c; return c; }
inline void add(std::string name, std::function<void()> f, int tier = 0) { configs().push_back({std::move(name), std::move(f), tier}); }

inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o + "\"";
}

inline int main_(int argc, char** argv, void (*setup)()) {
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    std::string config, state; double budget = 100; 
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--list") list = true;
        else if (a == "--config") config = val();
        else if (a == "--state") state = val();
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--thorough") thorough = true;
        else if (a == "--replay") {
            replaying = true;
            std::istringstream is(val());
            Op o; char c;
            while (is >> o.code >> c >> o.a >> c >> o.b >> c >> o.c) replay_ops.push_back(o);
        }
    }
    setup();
    if (list) { for (auto& c : configs()) if (thorough || c.tier == 0) puts(c.name.c_str()); return 0; }
    if (!state.empty()) {
        int fd = open(state.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("state"); return 2; }
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) { perror("mmap"); return 2; }
        sh = static_cast<Shared*>(p);
    }
    deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(long(budget * 1000));
    install_hooks();
    for (auto& c : configs()) if (c.name == config) {
        stats.config = config;
        try { c.run(); }
        catch (const std::exception& e) { fail("unexpected exception escaped: %s", e.what()); }
        catch (...) { fail("unexpected exception escaped"); }
        if (replaying) { printf("REPLAY-OK\n"); return 0; }
        std::string s = "{\"config\":" + json_str(stats.config);
        auto num = [&](const char* n, uint64_t v) { s += std::string(",\"") + n + "\":" + std::to_string(v); };
        num("states", stats.states); num("transitions", stats.transitions); num("executions", stats.executions);
        num("merged", stats.merged); num("outcomes", stats.outcomes); num("depth", uint64_t(stats.depth)); num("depth_goal", uint64_t(stats.depth_goal));
        s += std::string(",\"complete\":") + (stats.complete ? "true" : "false") + ",\"samples\":[";
        for (size_t i = 0; i < stats.samples.size(); ++i) { if (i) s += ","; s += json_str(stats.samples[i].substr(0, 600)); }
        s += "]}";
        printf("MC-STATS %s\n", s.c_str());
        fflush(stdout);
        return 0;
    }
    fprintf(stderr, "no such config %s\n", config.c_str());
    return 2;
}
}

void mc_setup();   // registers the configurations
#if !defined(MC_NO_MAIN)
int main(int argc, char** argv) { return mc::main_(argc, argv, mc_setup); }
#endif

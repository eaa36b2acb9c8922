// C03: strong_try_rec_mutex
#include "mc_sched.hpp"
#include <itlib/mutex.hpp>
using namespace mc;

enum Code { TRY, UNLOCK };
struct Cfg { int nthreads, len; bool hold; };

struct Spec {
    struct State { int owner = 0, depth = 0; };
    bool accept(const State& s) const { return s.owner == 0 && s.depth == 0; }
    bool apply(State& s, const sched::LogEntry& e) const {
        if (e.code == TRY) {
            bool can = s.owner == 0 || s.owner == e.tid;
            if (e.r) { if (!can) return false; s.owner = e.tid; ++s.depth; return true; }
            return !can;
        }
        if (s.owner != e.tid || s.depth <= 0) return false;
        if (--s.depth == 0) s.owner = 0;
        return true;
    }
};

static itlib::strong_try_rec_mutex* mut;
static long* data;                 // what the mutex protects
static int inside[sched::MAXT];    // harness view (not instrumented through Pause): depth per thread

struct Prog {
    const Cfg& c; std::vector<unsigned> th;
    static uint64_t nseq(const Cfg& c) { return 1ull << c.len; }
    static uint64_t count(const Cfg& c) { uint64_t k = nseq(c), r = 1; for (int i = 0; i < c.nthreads; ++i) r = r * (k + uint64_t(i)) / uint64_t(i + 1); return r; }
    Prog(const Cfg& cfg, uint64_t index) : c(cfg), th(size_t(cfg.nthreads), 0) {
        for (uint64_t i = 0; i < index; ++i) {
            size_t k = th.size();
            while (k-- > 0) if (th[k] + 1 < nseq(c)) { unsigned v = th[k] + 1; for (size_t j = k; j < th.size(); ++j) th[j] = v; break; }
        }
    }
    int threads() const { return c.nthreads; }
    std::string text() const {
        std::string r;
        for (size_t t = 0; t < th.size(); ++t) {
            r += (t ? " | T" : "T") + std::to_string(t + 1) + ":";
            for (int i = 0; i < c.len; ++i) r += (th[t] >> i & 1) ? " unlock" : " try_lock";
            if (!c.hold) r += " unlock-all";
        }
        return r;
    }
    void setup() {
        { sched::Pause p; memset(inside, 0, sizeof inside); }
        mut = new itlib::strong_try_rec_mutex;
        data = new long(0);
    }
    static void others(int t) {
        sched::Pause p;
        for (int o = 1; o < sched::MAXT; ++o) if (o != t && inside[o]) sched::fail("threads %d and %d both own the mutex", o, t);
    }
    void body(int t) {
        unsigned prog; int len; bool hold; { sched::Pause p; prog = th[size_t(t - 1)]; len = c.len; hold = c.hold; }
        int depth = 0;
        auto unlock = [&] {
            others(t);
            *data += 10;
            { sched::Pause p; inside[t] = --depth; }
            int s = sched::op_begin(UNLOCK);
            mut->unlock();
            sched::op_end(s);
        };
        for (int i = 0; i < len; ++i) {
            if (prog >> i & 1) { if (depth) unlock(); continue; }
            int s = sched::op_begin(TRY);
            bool ok = mut->try_lock();
            sched::op_end(s, ok);
            if (ok) {
                others(t);
                { sched::Pause p; inside[t] = ++depth; }
                *data += 1;
            } else if (depth) sched::fail("the owner of the mutex could not lock it again");
        }
        while (depth) unlock();
    }
    void final() {
        Spec sp; bool lin;
        { sched::Pause p; lin = linearizable(sp, Spec::State{}, sched::log_, sched::log_n); }
        if (!lin) {
            sched::Pause p; std::string h;
            for (int i = 0; i < sched::log_n; ++i) { auto& e = sched::log_[i]; char b[200]; snprintf(b, sizeof b, " T%d:%s->%lld@[%u,%u]", e.tid, e.code == TRY ? "try_lock" : "unlock", (long long)e.r, e.inv, e.ret); h += b; }
            sched::fail("the history has no explanation as a recursive lock without spurious failures:%s", h.c_str());
        }
        long sum = 0; { sched::Pause p; for (int i = 0; i < sched::log_n; ++i) { auto& e = sched::log_[i]; sum += e.code == TRY ? e.r : 10; } }
        if (*data != sum) sched::fail("protected data is %ld, expected %ld", *data, sum);
        if (!mut->try_lock()) sched::fail("the mutex is not free after all its locks were released");
        mut->unlock();
        delete mut; delete data;
    }
};

// deep recursion: one thread holds the mutex many times
struct Deep {
    int n, left, ok;
    static uint64_t count(const Cfg&) { return 2 * 6; }
    Deep(const Cfg&, uint64_t i) { static const int d[] = {2, 100, 130, 300, 33000, 70000}; n = d[i / 2]; left = int(i % 2); }
    int threads() const { return 2; }
    std::string text() const { return std::to_string(n) + " nested locks, all but " + std::to_string(left) + " released, then two threads try"; }
    void setup() {
        ok = 0;
        mut = new itlib::strong_try_rec_mutex;
        for (int i = 0; i < n; ++i) if (!mut->try_lock()) sched::fail("the owner could not take lock number %d", i + 1);
        for (int i = left; i < n; ++i) mut->unlock();
    }
    void body(int) {
        bool got = mut->try_lock();
        if (got && left) sched::fail("another thread took the mutex while it was owned");
        { sched::Pause p; ok += got; }
        if (got) mut->unlock();
    }
    void final() {
        if (!left && !ok) sched::fail("the mutex was not free after all %d locks were released", n);
        if (left) mut->unlock();
        if (!mut->try_lock()) sched::fail("the mutex is not free at the end");
        mut->unlock();
        delete mut;
    }
};

static void cfg(const char* name, Cfg c, int shards = 1, int tier = 0) {
    for (int shard = 0; shard < shards; ++shard) add(name + (shards > 1 ? "_" + std::to_string(shard) : std::string()), [=] {
        static Cfg k; k = c;
        sched::Options o;
        explore_sched<Prog>(k, o, shard, shards);
    }, tier);
}
void mc_setup() {
    cfg("two_threads_4", Cfg{2, 4});
    cfg("two_threads_5", Cfg{2, 5}, 4);
    cfg("two_threads_6", Cfg{2, 6}, 8);
    cfg("three_threads_2", Cfg{3, 2}, 4);
    cfg("three_threads_3", Cfg{3, 3}, 16);
    add("deep", [] { static Cfg k{2, 1}; explore_sched<Deep>(k); });
    cfg("two_threads_8", Cfg{2, 8}, 32, 1);
    cfg("three_threads_4", Cfg{3, 4}, 32, 1);
}

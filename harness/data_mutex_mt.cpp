// C04, several threads: data_mutex over std::mutex and std::shared_mutex under the controlled scheduler
#include "mc_sched.hpp"
#include <itlib/data_mutex.hpp>
#include <mutex>
#include <shared_mutex>
using namespace mc;

enum Code { UNIQUE, CUNIQUE, TRY, CTRY, SHARED, TSHARED, UNIQUE_MOVED, SHARED_MOVED, TRY_MOVED, NOPS };
static const char* opname[] = {"unique_lock", "const unique_lock", "try_unique_lock", "const try_unique_lock", "shared_lock", "try_shared_lock", "unique_lock moved", "shared_lock moved", "try_unique_lock moved"};
struct Cfg { std::vector<int> alphabet; int nthreads, len; };

struct Data { long v = 0, w = 0; };
static int writers, readers;      // harness view of who is inside

struct In {      // in the critical section, as the harness sees it
    bool ex;
    explicit In(bool e) : ex(e) {
        sched::Pause p;
        if (writers || (ex && readers)) sched::fail("%s while %d writer(s) and %d reader(s) hold the lock", ex ? "exclusive access" : "shared access", writers, readers);
        ++(ex ? writers : readers);
    }
    ~In() { sched::Pause p; --(ex ? writers : readers); }
};

template <class M> struct Prog {
    typedef itlib::data_mutex<Data, M> DM;
    const Cfg& c; std::vector<std::vector<int>> th; DM* dm; 
    static uint64_t nseq(const Cfg& c) { uint64_t r = 1; for (int i = 0; i < c.len; ++i) r *= c.alphabet.size(); return r; }
    static uint64_t count(const Cfg& c) { uint64_t k = nseq(c), r = 1; for (int i = 0; i < c.nthreads; ++i) r = r * (k + uint64_t(i)) / uint64_t(i + 1); return r; }
    Prog(const Cfg& cfg, uint64_t index) : c(cfg) {
        std::vector<uint64_t> s(size_t(c.nthreads), 0);
        for (uint64_t i = 0; i < index; ++i) {
            size_t k = s.size();
            while (k-- > 0) if (s[k] + 1 < nseq(c)) { auto v = s[k] + 1; for (size_t j = k; j < s.size(); ++j) s[j] = v; break; }
        }
        for (auto v : s) { th.emplace_back(); for (int i = 0; i < c.len; ++i) { th.back().push_back(c.alphabet[v % c.alphabet.size()]); v /= c.alphabet.size(); } }
    }
    int threads() const { return c.nthreads; }
    std::string text() const {
        std::string r;
        for (auto& t : th) { r += r.empty() ? "" : " |"; for (int o : t) r += std::string(" ") + opname[o] + ","; }
        return r;
    }
    void setup() { { sched::Pause p; writers = readers = 0; } dm = new DM; }
    template <class A> static void write(A& a) { In in(true); ++a->v; if (a->v != a->w + 1) sched::fail("torn data"); (*a).w++; }
    template <class A> static void read(A& a, bool ex) { In in(ex); if (a->v != (*a).w) sched::fail("torn data"); }
    void body(int t) {
        const int* ops; int n; { sched::Pause p; ops = th[size_t(t - 1)].data(); n = int(th[size_t(t - 1)].size()); }
        const DM& cdm = *dm;
        for (int i = 0; i < n; ++i) {
            int code; { sched::Pause p; code = ops[i]; }
            int s = sched::op_begin(code, 0);
            switch (code) {
            case UNIQUE: { auto l = dm->unique_lock(); write(l); break; }
            case CUNIQUE: { auto l = cdm.unique_lock(); read(l, true); break; }
            case TRY: { bool ok; { auto l = dm->try_unique_lock(); ok = bool(l); if (l) write(l); } sched::op_end(s, ok); continue; }
            case CTRY: { bool ok; { auto l = cdm.try_unique_lock(); ok = bool(l); if (l) read(l, true); } sched::op_end(s, ok); continue; }
            case UNIQUE_MOVED: { auto l = dm->unique_lock(); auto m = std::move(l); write(m); break; }
            case TRY_MOVED: { bool ok; { auto l = dm->try_unique_lock(); ok = bool(l); auto m = std::move(l); if (m) write(m); } sched::op_end(s, ok); continue; }
            default: if constexpr (!std::is_same<M, std::mutex>::value) switch (code) {
                case SHARED: { auto l = cdm.shared_lock(); read(l, false); break; }
                case TSHARED: { bool ok; { auto l = dm->try_shared_lock(); ok = bool(l); if (l) read(l, false); } sched::op_end(s, ok); continue; }
                case SHARED_MOVED: { auto l = dm->shared_lock(); auto m = std::move(l); read(m, false); break; }
            } }
            sched::op_end(s, 1);
        }
    }
    void final() {
        // exclusive: every failed try must overlap an operation of another thread which holds the lock
        {
            sched::Pause p;
            for (int i = 0; i < sched::log_n; ++i) {
                auto& e = sched::log_[i];
                if (e.r) continue;
                bool why = false;
                for (int j = 0; j < sched::log_n; ++j) { auto& o = sched::log_[j]; if (o.tid != e.tid && o.r && o.inv < e.ret && e.inv < o.ret && !(e.code == TSHARED && (o.code == SHARED || o.code == TSHARED || o.code == SHARED_MOVED))) why = true; }
                if (!why) sched::fail("%s of thread %d failed although nobody held the lock", opname[e.code], e.tid);
            }
        }
        long expect = 0;
        { sched::Pause p; for (int i = 0; i < sched::log_n; ++i) { auto& e = sched::log_[i]; if (e.r && (e.code == UNIQUE || e.code == TRY || e.code == UNIQUE_MOVED || e.code == TRY_MOVED)) ++expect; } }
        { auto l = dm->try_unique_lock(); if (!l) sched::fail("the mutex is still locked after all accessors are gone"); if (l->v != expect || l->w != expect) sched::fail("%ld updates were made, the data saw %ld", expect, l->v); }
        delete dm;
    }
};

template <class M> static void cfg(const std::string& name, Cfg c, int shards = 1, int tier = 0) {
    for (int shard = 0; shard < shards; ++shard) add(name + (shards > 1 ? "_" + std::to_string(shard) : std::string()), [=] {
        static Cfg k; k = c;
        explore_sched<Prog<M>>(k, sched::Options{}, shard, shards);
    }, tier);
}
void mc_setup() {
    std::vector<int> ex{UNIQUE, CUNIQUE, TRY, CTRY, UNIQUE_MOVED, TRY_MOVED}, all{UNIQUE, CUNIQUE, TRY, CTRY, SHARED, TSHARED, UNIQUE_MOVED, SHARED_MOVED, TRY_MOVED}, some{UNIQUE, TRY, SHARED, TSHARED};
    cfg<std::mutex>("mutex_2x2", Cfg{ex, 2, 2});
#if MC_SHALLOW
    if (!thorough) { cfg<std::shared_mutex>("shared_2x2", Cfg{all, 2, 2}, 2); return; }
#endif
    cfg<std::mutex>("mutex_2x3", Cfg{ex, 2, 3}, 4);
    cfg<std::mutex>("mutex_3x1", Cfg{ex, 3, 1});
    cfg<std::shared_mutex>("shared_2x2", Cfg{all, 2, 2}, 2);
    cfg<std::shared_mutex>("shared_3x1", Cfg{all, 3, 1}, 2);
    cfg<std::shared_mutex>("shared_2x3", Cfg{some, 2, 3}, 4);
    cfg<std::mutex>("mutex_3x2", Cfg{{UNIQUE, TRY}, 3, 2}, 8);
    cfg<std::shared_mutex>("shared_3x2", Cfg{some, 3, 2}, 16);
    cfg<std::shared_mutex>("shared_2x4", Cfg{some, 2, 4}, 16, 1);
    cfg<std::shared_mutex>("shared_2x3_all", Cfg{all, 2, 3}, 16, 1);
    cfg<std::shared_mutex>("shared_3x3", Cfg{{UNIQUE, SHARED, TSHARED}, 3, 3}, 32, 1);
}

// C01 (linearizable cell, ownership) and C02 (publication without data races) of atomic_shared_ptr_storage.
#include "mc_sched.hpp"
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <mutex>
using namespace mc;

struct Obj;
using Ptr = std::shared_ptr<Obj>;
using Storage = itlib::atomic_shared_ptr_storage<Obj>;

static Storage* storage;
static int destroyed[64];
static bool reentrant;

struct Obj {
    int id, payload[2];
    explicit Obj(int i) : id(i) { payload[0] = i * 3; payload[1] = i * 5; }
    ~Obj() {
        int i = id;
        if (payload[0] != i * 3 || payload[1] != i * 5) sched::fail("object %d is corrupt in its destructor", i);
        { sched::Pause p; if (++destroyed[i] != 1) sched::fail("object %d destroyed twice", i); }
        if (reentrant && storage) { Ptr p = storage->load(); if (p && p->id == i) sched::fail("object %d is destroyed but still stored", i); }
        payload[0] = -1;
    }
};
// a second owner of an object (or of nothing): pointers with the same address, or null, which differ in what they own
struct Owner { int id; Ptr keep; void operator()(Obj*) { { sched::Pause p; if (++destroyed[id] != 1) sched::fail("owner %d destroyed twice", id); } keep.reset(); } };
static int idof(const Ptr& p) {
    if (Owner* o = std::get_deleter<Owner>(p)) {
        int i = o->id;
        if (p.get() != o->keep.get()) sched::fail("the pointer of owner %d was changed", i);
        if (p && (p->payload[0] != p->id * 3 || p->payload[1] != p->id * 5)) sched::fail("the object of owner %d is not what was stored", i);
        { sched::Pause q; if (destroyed[i]) sched::fail("owner %d was obtained after its destruction", i); }
        return i;
    }
    if (!p) return 0;
    int i = p->id;
    if (p->payload[0] != i * 3 || p->payload[1] != i * 5) sched::fail("object %d obtained from the storage is not what was stored", i);
    { sched::Pause q; if (destroyed[i]) sched::fail("object %d was obtained after its destruction", i); }
    return i;
}

static int ident(const Ptr& p) { if (Owner* o = std::get_deleter<Owner>(p)) return o->id; return p ? p->id : 0; }
enum Code { LOAD, STORE, STORE0, EXCH, CAS_INIT, CAS_LAST, STORE_AGAIN, EXCH0, CAS_NULL, STORE_OWNER, EXCH_OWNER, STORE_OWNED_NULL, NOPS };
static const char* opname[] = {"load", "store(new)", "store(null)", "exchange(new)", "compare_exchange(initial,new)", "compare_exchange(last seen,new)", "store(last seen)", "exchange(null)", "compare_exchange(null,new)", "store(other owner of last seen)", "exchange(other owner of last seen)", "store(null with owner)"};

struct Cfg { std::vector<std::vector<int>> alphabet; int nthreads, len; bool null_init, reent, keep; };

struct Spec {
    typedef int State;
    int last;                 // id in the storage at the end
    bool accept(int s) const { return s == last; }
    bool apply(int& s, const sched::LogEntry& e) const {
        switch (e.code) {
        case LOAD: return e.r == s;
        case STORE: s = e.a; return true;
        case EXCH: if (e.r != s) return false; s = e.a; return true;
        default:      // compare exchange: b expected, r success, r2 expected afterwards
            if (e.r) { if (s != e.b || e.r2 != e.b) return false; s = e.a; return true; }
            return s != e.b && e.r2 == s;
        }
    }
};

struct Prog {
    const Cfg& c; std::vector<std::vector<int>> th;
    Ptr* init_;  // initial pointer, kept alive by the main thread in an arena object
    static std::vector<std::vector<int>> seqs(const Cfg& c) {
        std::vector<std::vector<int>> r{{}};
        for (int l = 0; l < c.len; ++l) { std::vector<std::vector<int>> n; for (auto& s : r) for (int o : c.alphabet[size_t(l) % c.alphabet.size()]) { auto t = s; t.push_back(o); n.push_back(t); } r.swap(n); }
        return r;
    }
    static uint64_t count(const Cfg& c) { uint64_t k = seqs(c).size(), r = 1; for (int i = 0; i < c.nthreads; ++i) r = r * (k + uint64_t(i)) / uint64_t(i + 1); return r; }
    Prog(const Cfg& cfg, uint64_t index) : c(cfg) {
        auto s = seqs(c);
        // index-th multiset of sequences
        std::vector<size_t> ix(size_t(c.nthreads), 0);
        for (uint64_t i = 0; i < index; ++i) {
            size_t k = ix.size();
            while (k-- > 0) if (ix[k] + 1 < s.size()) { size_t v = ix[k] + 1; for (size_t j = k; j < ix.size(); ++j) ix[j] = v; break; }
        }
        for (size_t i : ix) th.push_back(s[i]);
    }
    int threads() const { return c.nthreads; }
    std::string text() const {
        std::string r = c.null_init ? "initially null" : "initially an object";
        for (size_t t = 0; t < th.size(); ++t) { r += " | T" + std::to_string(t + 1) + ":"; for (int o : th[t]) r += std::string(" ") + opname[o]; }
        return r;
    }
    void setup() {
        { sched::Pause p; memset(destroyed, 0, sizeof destroyed); reentrant = c.reent; storage = nullptr; }
        Ptr i = c.null_init ? nullptr : std::make_shared<Obj>(1);
        init_ = new Ptr(i);
        storage = new Storage(std::move(i));
        if (c.reent) { Ptr(std::move(*init_)); init_->reset(); }
    }
    void body(int t) {
        const std::vector<int>* ops; { sched::Pause p; ops = &th[size_t(t - 1)]; }
        size_t n; { sched::Pause p; n = ops->size(); }
        Ptr last;
        { bool uses; { sched::Pause p; uses = !ops->empty() && ((*ops)[0] == CAS_LAST || (*ops)[0] == STORE_AGAIN || (*ops)[0] == STORE_OWNER || (*ops)[0] == EXCH_OWNER); } if (uses) last = *init_; }
        Ptr kept[4];
        Ptr fresh;
        for (size_t k = 0; k < n; ++k) {
            int code; { sched::Pause p; code = (*ops)[k]; }
            int nid = t * 10 + int(k);
            if (code == STORE || code == EXCH || code == CAS_INIT || code == CAS_LAST || code == CAS_NULL) fresh = k % 2 ? Ptr(new Obj(nid)) : std::make_shared<Obj>(nid);
            if (code == STORE_OWNER || code == EXCH_OWNER) { Obj* raw = last.get(); fresh = Ptr(raw, Owner{nid, last}); }
            if (code == STORE_OWNED_NULL) fresh = Ptr(static_cast<Obj*>(nullptr), Owner{nid, nullptr});
            switch (code) {
            case STORE_OWNER: case STORE_OWNED_NULL: { int s = sched::op_begin(STORE, nid); storage->store(std::move(fresh)); sched::op_end(s); break; }
            case EXCH_OWNER: { int s = sched::op_begin(EXCH, nid); Ptr p = storage->exchange(std::move(fresh)); int i = ident(p); sched::op_end(s, i); idof(p); last = std::move(p); break; }
            case LOAD: { int s = sched::op_begin(LOAD); Ptr p = storage->load(); int i = ident(p); sched::op_end(s, i); idof(p); last = std::move(p); break; }
            case STORE: { int s = sched::op_begin(STORE, nid); storage->store(std::move(fresh)); sched::op_end(s); break; }
            case STORE0: { int s = sched::op_begin(STORE, 0); storage->store(nullptr); sched::op_end(s); break; }
            case STORE_AGAIN: { int s = sched::op_begin(STORE, ident(last)); storage->store(last); sched::op_end(s); break; }
            case EXCH: { int s = sched::op_begin(EXCH, nid); Ptr p = storage->exchange(std::move(fresh)); int i = ident(p); sched::op_end(s, i); idof(p); last = std::move(p); break; }
            case EXCH0: { int s = sched::op_begin(EXCH, 0); Ptr p = storage->exchange(nullptr); int i = ident(p); sched::op_end(s, i); idof(p); last = std::move(p); break; }
            default: {
                Ptr expect; if (code == CAS_INIT) expect = *init_; else if (code == CAS_LAST) expect = c.reent ? std::move(last) : last;
                int eid = expect ? expect->id : 0;
                int s = sched::op_begin(CAS_INIT, nid, eid);
                bool ok = storage->compare_exchange(expect, std::move(fresh));
                sched::op_end(s, ok, expect ? expect->id : 0);
                idof(expect);
                last = std::move(expect);
                break; }
            }
            if (c.keep) kept[k] = last;
            fresh.reset();
        }
    }
    void final() {
        Ptr end = storage->load();
        Spec sp; sp.last = idof(end);
        bool lin;
        { sched::Pause p; lin = linearizable(sp, c.null_init ? 0 : 1, sched::log_, sched::log_n); }
        if (!lin) {
            sched::Pause p; std::string h;
            for (int i = 0; i < sched::log_n; ++i) { auto& e = sched::log_[i]; char b[200]; snprintf(b, sizeof b, " T%d:%s(a=%d,expected=%d)->%lld,%lld@[%u,%u]", e.tid, opname[e.code], e.a, e.b, (long long)e.r, (long long)e.r2, e.inv, e.ret); h += b; }
            sched::fail("history is not linearizable, storage holds %d at the end:%s", sp.last, h.c_str());
        }
        long cnt = end.use_count();
        long want = sp.last ? 2 : 0;
        if (sp.last == 1 && *init_) ++want;
        if (cnt != want) sched::fail("use_count of the stored object is %ld, expected %ld", cnt, want);
        int lastid = sp.last;
        end.reset();
        if (lastid && destroyed[lastid]) sched::fail("the stored object was destroyed");
        Storage* s = storage;
        if (reentrant) storage = nullptr;
        delete s;
        bool init_live = !c.null_init && !c.reent;
        if (lastid && !(lastid == 1 && init_live) && !destroyed[lastid]) sched::fail("object %d outlived the storage and all owners", lastid);
        if (init_live && destroyed[1]) sched::fail("the initial object was destroyed while owned");
        delete init_;
        storage = nullptr;
    }
};

static void cfg(const char* name, Cfg c, int shards = 1, int tier = 0) {
    for (int shard = 0; shard < shards; ++shard) add(name + (shards > 1 ? "_" + std::to_string(shard) : std::string()), [=] {
        static Cfg k; k = c;
        sched::Options o;
        o.races = RACES;
        explore_sched<Prog>(k, o, shard, shards);
    }, tier);
}

void mc_setup() {
    std::vector<int> all{LOAD, STORE, STORE0, EXCH, CAS_INIT, CAS_LAST}, some{LOAD, STORE, EXCH, CAS_LAST}, extra{LOAD, STORE_AGAIN, EXCH0, CAS_NULL, CAS_INIT};
    cfg("two_threads_two_ops", Cfg{{all}, 2, 2, false, false, false});
#if MC_SHALLOW
    if (!thorough) return;
#endif
    cfg("two_threads_two_ops_null", Cfg{{all}, 2, 2, true, false, true});
    cfg("two_threads_two_ops_extra", Cfg{{extra}, 2, 2, false, false, false}, 3);
    cfg("two_threads_two_ops_extra_null", Cfg{{extra}, 2, 2, true, false, true}, 1);
#if __cplusplus >= 202002L
    cfg("three_threads_one_op", Cfg{{{LOAD, STORE, EXCH}}, 3, 1, false, false, false}, 8);
    cfg("three_threads_one_op_all", Cfg{{all}, 3, 1, false, false, false}, 16, 1);
#else
    cfg("three_threads_one_op", Cfg{{all}, 3, 1, false, false, false}, 4);
#endif
    cfg("three_threads_one_op_null", Cfg{{extra}, 3, 1, true, false, false});
#if !RACES && __cplusplus >= 202002L
    cfg("two_threads_reentrant", Cfg{{{LOAD, STORE, EXCH}, {LOAD, STORE0}}, 2, 2, false, true, false}, 6);
    cfg("two_threads_reentrant_all", Cfg{{{LOAD, STORE, EXCH}, {LOAD, STORE0, EXCH, CAS_LAST, CAS_NULL}}, 2, 2, false, true, false}, 8, 1);
#elif !RACES
    cfg("two_threads_reentrant", Cfg{{{LOAD, STORE, EXCH}, {LOAD, STORE0, EXCH, CAS_LAST, CAS_NULL}}, 2, 2, false, true, false}, 3);
#endif
    cfg("two_threads_owners", Cfg{{{LOAD, STORE_OWNER, EXCH_OWNER, STORE_OWNED_NULL}}, 2, 2, false, false, false}, __cplusplus >= 202002L ? 4 : 2);
    cfg("two_threads_owners_null", Cfg{{{LOAD, STORE_OWNED_NULL, STORE}, {LOAD, STORE_OWNER, EXCH0, STORE0}}, 2, 2, true, false, false}, 1);
    cfg("two_threads_kept", Cfg{{{LOAD, STORE, EXCH}, {LOAD, STORE_AGAIN, EXCH0, CAS_LAST}}, 2, 2, false, false, true}, 6, 1);
    cfg("two_threads_three_ops", Cfg{{some}, 2, 3, false, false, false}, 16, 1);
    cfg("two_threads_three_ops_null", Cfg{{extra}, 2, 3, true, false, false}, 16, 1);
    cfg("three_threads_two_ops_null", Cfg{{{LOAD, STORE, EXCH, CAS_LAST}, {LOAD, EXCH0}}, 3, 2, true, false, false}, 16, 1);
}

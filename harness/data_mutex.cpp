// C04, one thread: every history of creating, moving, using and destroying accessors over a recording, throwing mutex
#include "mc.hpp"
#include <itlib/data_mutex.hpp>
#include <memory>
using namespace mc;

static int excl, shrd, fail_in, calls;      // what the mutex has seen; fail_in: 1 = the next locking call throws
struct LockError {};
static void maybe_throw() { ++calls; if (fail_in == 1) { fail_in = 0; throw LockError{}; } }
struct Mut {
    Mut() = default; Mut(const Mut&) = delete;
    void lock() { maybe_throw(); if (excl || shrd) fail("blocking lock although the lock is held (deadlock)"); ++excl; }
    bool try_lock() { maybe_throw(); if (excl || shrd) return false; ++excl; return true; }
    void unlock() { ++calls; if (excl != 1) fail("unlock of a mutex which is not locked"); --excl; }
    void lock_shared() { maybe_throw(); if (excl) fail("blocking shared lock although the lock is held"); ++shrd; }
    bool try_lock_shared() { maybe_throw(); if (excl) return false; ++shrd; return true; }
    void unlock_shared() { ++calls; if (shrd < 1) fail("shared unlock of a mutex which is not locked in shared mode"); --shrd; }
};
struct ExMut {     // no shared mode
    ExMut() = default; ExMut(const ExMut&) = delete;
    void lock() { maybe_throw(); if (excl) fail("blocking lock although the lock is held (deadlock)"); ++excl; }
    bool try_lock() { maybe_throw(); if (excl) return false; ++excl; return true; }
    void unlock() { ++calls; if (excl != 1) fail("unlock of a mutex which is not locked"); --excl; }
};
struct Data {
    int v, w; std::unique_ptr<int> p;
    Data(int a, std::unique_ptr<int> q, int& out) : v(a), w(-a), p(std::move(q)) { out = a; }
};

struct Acc { virtual ~Acc() {} virtual std::unique_ptr<Acc> move_() = 0; virtual int owns() = 0; virtual const Data* get() = 0; bool ex = false, own = false; };
template <class A> constexpr auto conv(A& a, int) -> decltype(static_cast<bool>(a)) { return static_cast<bool>(a); }
template <class A> constexpr bool conv(A&, long) { return true; }
template <class A> struct AccT : Acc {
    A a;
    template <class F> AccT(F&& f, int) : a(f()) {}
    AccT(A&& o) : a(std::move(o)) {}
    std::unique_ptr<Acc> move_() override { auto r = std::make_unique<AccT>(std::move(a)); r->ex = ex; r->own = own; own = false; return r; }
    int owns() override { return conv(a, 0); }
    const Data* get() override {
        const A& c = a;
        if (&*a != a.operator->() || &*c != &*a || c.operator->() != &*a) fail("the accessor does not refer to one object");
        return &*a;
    }
};
template <class F> std::unique_ptr<Acc> mk(F f) { return std::make_unique<AccT<decltype(f())>>(f, 0); }

template <class M, class = void> struct HasShared : std::false_type {};
template <class M> struct HasShared<M, decltype(std::declval<M&>().lock_shared())> : std::true_type {};

enum { UNIQUE, CUNIQUE, TRY, CTRY, SHARED, TSHARED, CSHARED, CTSHARED };
static const char* kn[] = {"unique_lock()", "const unique_lock()", "try_unique_lock()", "const try_unique_lock()", "shared_lock()", "try_shared_lock()", "const shared_lock()", "const try_shared_lock()"};

template <class M> void body(int depth) {
    typedef itlib::data_mutex<Data, M> DM;
    static_assert(!std::is_copy_constructible<DM>::value && !std::is_move_constructible<DM>::value && !std::is_copy_assignable<DM>::value && !std::is_move_assignable<DM>::value, "");
    static_assert(std::is_same<decltype(*std::declval<DM&>().unique_lock()), Data&>::value, "");
    static_assert(std::is_same<decltype(*std::declval<const DM&>().unique_lock()), const Data&>::value, "");
    static_assert(std::is_same<decltype(*std::declval<DM&>().try_unique_lock()), Data&>::value, "");
    static_assert(std::is_same<decltype(*std::declval<const DM&>().try_unique_lock()), const Data&>::value, "");
    if constexpr (HasShared<M>::value) {
        static_assert(std::is_same<decltype(*std::declval<DM&>().shared_lock()), const Data&>::value, "");
        static_assert(std::is_same<decltype(*std::declval<DM&>().try_shared_lock()), const Data&>::value, "");
    }
    static_assert(!std::is_copy_constructible<decltype(std::declval<DM&>().unique_lock())>::value, "");
    excl = shrd = fail_in = calls = 0;
    int out = 0;
    auto pi = std::make_unique<int>(7); int* raw = pi.get();
    {
        DM dm(5, std::move(pi), out);
        const DM& cdm = dm;
        if (calls || out != 5) fail("construction");
        std::unique_ptr<Acc> slot[3];
        int mex = 0, msh = 0;        // model
        const Data* addr = nullptr; { auto l = dm.unique_lock(); addr = &*l; if (l->v != 5 || l->w != -5 || l->p.get() != raw) fail("the data was not constructed from the arguments"); }
        if (excl) fail("still locked");
        for (int step = 0; step < depth; ++step) {
            struct Act { int what, a, b; };
            Act acts[64]; int n = 0;
            int kinds = HasShared<M>::value ? 8 : 4;
            int free_ = -1;
            for (int i = 0; i < 3 && free_ < 0; ++i) if (!slot[i]) free_ = i;
            if (free_ >= 0) for (int k = 0; k < kinds; ++k) {
                bool blocks = k <= CUNIQUE ? (mex || msh) : (k == SHARED || k == CSHARED) ? mex > 0 : false;
                if (!blocks) acts[n++] = {0, k, 0};
                acts[n++] = {0, k, 1};          // the mutex throws
            }
            for (int i = 0; i < 3; ++i) if (slot[i]) {
                acts[n++] = {1, i, 0};          // destroy
                if (free_ >= 0) { acts[n++] = {2, i, 0}; acts[n++] = {2, i, 1}; }     // move, keep / destroy the source
                if (slot[i]->ex && slot[i]->own) acts[n++] = {3, i, 0};  // use
            }
            Act a = acts[choose(n)];
            int c0 = calls;
            switch (a.what) {
            case 0: {
                say("%s%s", a.b ? "throwing " : "", kn[a.a]);
                fail_in = a.b;
                bool threw = false;
                try {
                    switch (a.a) {
                    case UNIQUE: slot[free_] = mk([&] { return dm.unique_lock(); }); break;
                    case CUNIQUE: slot[free_] = mk([&] { return cdm.unique_lock(); }); break;
                    case TRY: slot[free_] = mk([&] { return dm.try_unique_lock(); }); break;
                    case CTRY: slot[free_] = mk([&] { return cdm.try_unique_lock(); }); break;
                    default: if constexpr (HasShared<M>::value) switch (a.a) {
                        case SHARED: slot[free_] = mk([&] { return dm.shared_lock(); }); break;
                        case TSHARED: slot[free_] = mk([&] { return dm.try_shared_lock(); }); break;
                        case CSHARED: slot[free_] = mk([&] { return cdm.shared_lock(); }); break;
                        case CTSHARED: slot[free_] = mk([&] { return cdm.try_shared_lock(); }); break;
                    }
                    }
                } catch (LockError&) { threw = true; }
                if (threw != (a.b != 0)) fail("the exception of the mutex was swallowed, or the mutex was not asked");
                if (threw) { if (slot[free_]) fail("?"); break; }
                bool ok; Acc& s = *slot[free_];
                if (a.a <= CTRY) { ok = !mex && !msh; if (ok) mex = 1; s.ex = true; } else { ok = !mex; if (ok) ++msh; }
                s.own = ok;
                if (s.owns() != ok) fail("%s converts to %d, the lock was %sacquired", kn[a.a], s.owns(), ok ? "" : "not ");
                break; }
            case 1: {
                say("destroy %d", a.a);
                bool own = slot[a.a]->own;
                if (own) { if (slot[a.a]->ex) mex = 0; else --msh; }
                slot[a.a].reset();
                if (calls != c0 + own) fail("destruction of an accessor made %d calls of the mutex", calls - c0);
                break; }
            case 2: {
                say("move %d to %d%s", a.a, free_, a.b ? " and destroy the source" : "");
                slot[free_] = slot[a.a]->move_();
                if (slot[a.a]->owns() && dynamic_cast<AccT<decltype(dm.try_unique_lock())>*>(slot[a.a].get())) fail("a moved-from try accessor still converts to true");
                if (a.b) slot[a.a].reset();
                if (calls != c0) fail("moving an accessor called the mutex");
                break; }
            case 3: {
                say("use %d", a.a);
                if (auto* x = dynamic_cast<AccT<decltype(dm.unique_lock())>*>(slot[a.a].get())) { x->a->v++; (*x->a).w--; }
                else if (auto* y = dynamic_cast<AccT<decltype(dm.try_unique_lock())>*>(slot[a.a].get())) { y->a->v++; (*y->a).w--; }
                break; }
            }
            fail_in = 0;
            if (excl != mex || shrd != msh) fail("mutex is locked %d times exclusively and %d times shared, the accessors own %d and %d", excl, shrd, mex, msh);
            for (auto& s : slot) if (s && s->own) { const Data* d = s->get(); if (d != addr || d->v != -d->w) fail("the accessor does not refer to the data"); }
        }
        outcome(mex * 100 + msh);
        for (auto& s : slot) s.reset();
        if (excl || shrd) fail("the mutex is still locked after all accessors are gone");
    }
}
void mc_setup() {
    for (int d = 3; d <= 5; ++d) {
        add("shared_mutex_depth" + std::to_string(d), [d] { explore_choices([d] { body<Mut>(d); }); });
        add("exclusive_mutex_depth" + std::to_string(d), [d] { explore_choices([d] { body<ExMut>(d); }); });
    }
    add("shared_mutex_depth6", [] { explore_choices([] { body<Mut>(6); }); }, 1);
    add("exclusive_mutex_depth6", [] { explore_choices([] { body<ExMut>(6); }); }, 1);
}

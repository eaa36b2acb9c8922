// K02: enable_shared_from hands out pointers which share the one owner
#include "tracked.hpp"
#include <itlib/shared_from.hpp>
#include <itlib/shared_from.hpp>
using namespace mc;
typedef itlib::enable_shared_from ESF;
struct Other { Tracked pad; long x = 5; Other(int v) : pad(v) {} virtual ~Other() {} };
// Layouts: the base first, after another base, behind a virtual base, and in a class derived further
struct First : ESF { Tracked m; First(int v) : m(v) {} ~First(); };
struct Second : Other, ESF { Tracked m; Second(int v) : Other(v + 1), m(v) {} ~Second(); };
struct Mid : virtual ESF { long y = 3; virtual ~Mid() {} };
struct Virt : Other, Mid { Tracked m; Virt(int v) : Other(v + 1), m(v) {} ~Virt(); };
struct Deep0 : Other, ESF { Tracked m; Deep0(int v) : Other(v + 1), m(v) {} virtual ~Deep0(); };
struct Deep : Deep0 { Tracked extra; Deep(int v) : Deep0(v), extra(v + 2) {} ~Deep(); };
static int died;
// the protected interface, reached like any derived class reaches it
template <class T> struct Api : T {
    using T::T; using T::shared_from_this; using T::weak_from_this; using T::shared_from; using T::weak_from;
    std::shared_ptr<T> self() { return T::shared_from(static_cast<T*>(this)); } std::shared_ptr<const T> self() const { return T::shared_from(static_cast<const T*>(this)); }
};
template <class T> static void dying(T* t) { ++died; auto& a = static_cast<Api<T>&>(*t); (void)a; }
First::~First() { ++died; try { auto p = shared_from_this(); fail("an object being destroyed was given a new owner"); } catch (std::bad_weak_ptr&) {} try { auto p = shared_from(this); fail("an object being destroyed was given a new owner"); } catch (std::bad_weak_ptr&) {} }
Second::~Second() { ++died; try { auto p = shared_from(&m); fail("an object being destroyed was given a new owner"); } catch (std::bad_weak_ptr&) {} }
Virt::~Virt() { ++died; }
Deep0::~Deep0() { ++died; }
Deep::~Deep() {}

typedef std::shared_ptr<void> PV; typedef std::weak_ptr<const void> WV;
template <class T> struct World {
    typedef Api<T> A;
    struct M { int obj = -1; const void* ptr = nullptr; };
    struct Cfg { int objects; };
    const Cfg& c;
    A* raw[8] = {}; bool managed[8] = {}, living[8] = {}; int n = 0;           // every object made
    A* uniq = nullptr; int uniq_id = -1;                                            // held by no shared pointer
    std::shared_ptr<const void> s[2]; M ms[2]; WV w[2]; M mw[2]; std::shared_ptr<T> owner; M mo;
    World(const Cfg& cfg) : c(cfg) { reg.clear(); throw_in = 0; died = 0; }
    enum { NEW, NEW_MAKE, NEW_VOID, NEW_DELETER, NEW_UNIQUE, ADOPT, COPY_OBJECT, ASSIGN_OBJECT, SFT, SFT_C, WFT, WFT_C, SF_SELF, SF_SELF_C, SF_M, SF_OTHER, SF_NULL, WF_SELF, WF_M, WF_M_C, RESET_S, RESET_W, RESET_O, COPY_S, MOVE_S, LOCK, OWNER_FROM, TEMP };
    static std::string text(const Cfg&, const Op& o) { static const char* t[] = {"own new object", "own make_shared object", "own object as void", "own object with deleter", "make an unowned object", "own the unowned object", "copy construct an unowned object from an owned one", "assign objects", "shared_from_this", "const shared_from_this", "weak_from_this", "const weak_from_this", "shared_from(this)", "const shared_from(this)", "shared_from(member)", "shared_from(unrelated)", "shared_from(null)", "weak_from(this)", "weak_from(member)", "const weak_from(member)", "reset pointer", "reset weak", "reset owner", "copy pointer", "move pointer", "lock weak", "owner = shared_from(this)", "temporary weak"}; return std::string(t[o.code]) + " " + std::to_string(o.a) + "," + std::to_string(o.b); }
    long owners(int obj) const { if (obj < 0) return 0; long k = mo.obj == obj; for (auto& m : ms) k += m.obj == obj; return k; }
    void enumerate(std::vector<Op>& out) {
        if (n < c.objects) { for (int k : {NEW, NEW_MAKE, NEW_DELETER}) out.push_back(Op{k, 0, 0, 0}); for (int i = 0; i < 2; ++i) out.push_back(Op{NEW_VOID, i, 0, 0}); if (!uniq) out.push_back(Op{NEW_UNIQUE, 0, 0, 0}); }
        if (uniq) out.push_back(Op{ADOPT, 0, 0, 0});
        for (int k = 0; k < n; ++k) if (living[k]) {
            if (n < c.objects && !uniq) out.push_back(Op{COPY_OBJECT, 0, k, 0});
            for (int l = 0; l < n; ++l) if (living[l]) out.push_back(Op{ASSIGN_OBJECT, l, k, 0});
            for (int i = 0; i < 2; ++i) for (int code : {SFT, SFT_C, WFT, WFT_C, SF_SELF, SF_SELF_C, SF_M, SF_OTHER, SF_NULL, WF_SELF, WF_M, WF_M_C}) out.push_back(Op{code, i, k, 0});
            out.push_back(Op{OWNER_FROM, 0, k, 0}); out.push_back(Op{TEMP, 0, k, 0});
        }
        for (int i = 0; i < 2; ++i) for (int k : {RESET_S, RESET_W, COPY_S, MOVE_S, LOCK}) out.push_back(Op{k, i, 0, 0});
        out.push_back(Op{RESET_O, 0, 0, 0});
    }
    static int outside;
    int made(A* a, bool mg) { raw[n] = a; managed[n] = mg; living[n] = true; return n++; }
    // runs what obtains a pointer; an object which nobody owns must refuse
    template <class G> void obtain(int obj, G g, bool weak = false) {
        bool own = owners(obj) > 0; size_t live = reg.live;
        try { g(); if (!own) { if (!weak) fail("a shared pointer to an object which nobody owns was created"); } } catch (std::bad_weak_ptr&) { if (own) fail("bad_weak_ptr for an owned object"); }
        if (reg.live < live) {}     // overwriting the last pointer to something else may destroy it
    }
    void set_s(int i, std::shared_ptr<const void> p, int obj, const void* at) { ms[i] = M{obj, at}; s[i] = std::move(p); }
    void set_w(int i, const WV& p, int obj, const void* at) { if (owners(obj) <= 0) { if (!p.expired()) fail("a weak pointer to an object which nobody owns is alive"); w[i].reset(); mw[i] = M(); return; } w[i] = p; mw[i] = M{obj, at}; }
    void apply(const Op& o) {
        int i = o.a, k = o.b; A* r = raw[k]; const A* cr = r; const void* ev = r && living[k] ? static_cast<ESF*>(r) : nullptr;
        switch (o.code) {
        case NEW: { A* p = new A(n * 10); int id = made(p, true); mo = M{id, static_cast<T*>(p)}; owner = std::shared_ptr<A>(p); break; }
        case NEW_MAKE: { auto p = std::make_shared<A>(n * 10); int id = made(p.get(), true); mo = M{id, static_cast<T*>(p.get())}; owner = std::move(p); break; }
        case NEW_DELETER: { A* p = new A(n * 10); int id = made(p, true); mo = M{id, static_cast<T*>(p)}; owner = std::shared_ptr<A>(p, [](A* q) { delete q; }); break; }
        case NEW_VOID: { A* p = new A(n * 10); int id = made(p, true); set_s(i, std::shared_ptr<A>(p), id, p); break; }
        case NEW_UNIQUE: uniq = new A(n * 10); uniq_id = made(uniq, false); break;
        case ADOPT: { A* p = uniq; uniq = nullptr; managed[uniq_id] = true; mo = M{uniq_id, static_cast<T*>(p)}; owner = std::unique_ptr<A>(p); break; }
        case COPY_OBJECT: uniq = new A(*r); uniq->m.v = n * 10; uniq_id = made(uniq, false); break;
        case ASSIGN_OBJECT: { A& d = *raw[i]; const A& sr = *r; d = sr; d.m.v = i * 10; break; }
        case SFT: obtain(k, [&] { auto p = r->shared_from_this(); static_assert(std::is_same<decltype(p), std::shared_ptr<void>>::value, ""); set_s(i, p, k, ev); }); break;
        case SFT_C: obtain(k, [&] { auto p = cr->shared_from_this(); static_assert(std::is_same<decltype(p), std::shared_ptr<const void>>::value, ""); set_s(i, p, k, ev); }); break;
        case SF_SELF: obtain(k, [&] { auto p = r->shared_from(r); static_assert(std::is_same<decltype(p), std::shared_ptr<A>>::value, ""); set_s(i, p, k, r); }); break;
        case SF_SELF_C: obtain(k, [&] { auto p = cr->shared_from(cr); static_assert(std::is_same<decltype(p), std::shared_ptr<const A>>::value, ""); set_s(i, p, k, cr); }); break;
        case SF_M: obtain(k, [&] { auto p = r->shared_from(&r->m); static_assert(std::is_same<decltype(p), std::shared_ptr<Tracked>>::value, ""); set_s(i, p, k, &r->m); }); break;
        case SF_OTHER: obtain(k, [&] { auto p = cr->shared_from(&outside); static_assert(std::is_same<decltype(p), std::shared_ptr<int>>::value, ""); set_s(i, p, k, &outside); }); break;
        case SF_NULL: obtain(k, [&] { auto p = r->shared_from(static_cast<int*>(nullptr)); set_s(i, p, k, nullptr); }); break;
        case WFT: obtain(k, [&] { auto p = r->weak_from_this(); static_assert(std::is_same<decltype(p), std::weak_ptr<void>>::value, ""); set_w(i, p, k, ev); }, true); break;
        case WFT_C: obtain(k, [&] { auto p = cr->weak_from_this(); static_assert(std::is_same<decltype(p), std::weak_ptr<const void>>::value, ""); set_w(i, p, k, ev); }, true); break;
        case WF_SELF: obtain(k, [&] { auto p = r->weak_from(r); static_assert(std::is_same<decltype(p), std::weak_ptr<A>>::value, ""); set_w(i, p, k, r); }, true); break;
        case WF_M: obtain(k, [&] { auto p = r->weak_from(&r->m); static_assert(std::is_same<decltype(p), std::weak_ptr<Tracked>>::value, ""); set_w(i, p, k, &r->m); }, true); break;
        case WF_M_C: obtain(k, [&] { auto p = cr->weak_from(&cr->m); static_assert(std::is_same<decltype(p), std::weak_ptr<const Tracked>>::value, ""); set_w(i, p, k, &r->m); }, true); break;
        case RESET_S: ms[i] = M(); s[i].reset(); break;
        case RESET_W: mw[i] = M(); w[i].reset(); break;
        case RESET_O: mo = M(); owner.reset(); break;
        case COPY_S: ms[i] = ms[!i]; s[i] = s[!i]; break;
        case MOVE_S: ms[i] = ms[!i]; ms[!i] = M(); s[i] = std::move(s[!i]); break;
        case LOCK: { M m = owners(mw[i].obj) ? mw[i] : M(); ms[i] = m; s[i] = w[i].lock(); break; }
        case OWNER_FROM: obtain(k, [&] { auto p = r->self(); mo = M{k, static_cast<T*>(r)}; owner = std::move(p); }); break;
        case TEMP: if (owners(k)) { long u = owners(k), x = r->shared_from_this().use_count(); if (x != u + 1) fail("a temporary pointer counts %ld, expected %ld", x, u + 1); x = r->weak_from(&r->m).use_count(); if (x != u) fail("weak_from counts %ld", x); x = r->weak_from_this().use_count(); if (x != u) fail("weak_from_this counts %ld", x); if (cr->weak_from_this().lock().get() != ev) fail("weak_from_this points elsewhere"); } break;
        }
        settle(); check();
    }
    void settle() { for (int k = 0; k < n; ++k) if (managed[k] && living[k] && !owners(k)) living[k] = false; }
    template <class P> void one(const P& p, const M& m, const char* what) { const void* got = p.get(); if (got != m.ptr) fail("%s points at %p, expected %p", what, got, m.ptr); if (p.use_count() != owners(m.obj)) fail("%s: use_count %ld, expected %ld", what, p.use_count(), owners(m.obj)); }
    void check() {
        one(s[0], ms[0], "pointer 0"); one(s[1], ms[1], "pointer 1"); one(owner, mo, "owner");
        auto same = [&](auto& a, const M& x, auto& b, const M& y, const char* what) { bool eq = !a.owner_before(b) && !b.owner_before(a); if (eq != (x.obj == y.obj)) fail("%s %s ownership", what, eq ? "wrongly share" : "do not share"); };
        same(s[0], ms[0], s[1], ms[1], "the pointers"); same(s[0], ms[0], owner, mo, "pointer 0 and the owner"); same(s[1], ms[1], owner, mo, "pointer 1 and the owner");
        for (int i = 0; i < 2; ++i) { bool exp = mw[i].obj < 0 || !owners(mw[i].obj); if (w[i].expired() != exp) fail("weak pointer %d %s expired", i, exp ? "is not" : "is"); if (w[i].use_count() != owners(mw[i].obj)) fail("weak pointer %d counts %ld owners", i, w[i].use_count()); if (!exp && w[i].lock().get() != mw[i].ptr) fail("weak pointer %d points elsewhere", i); }
        size_t live = 0; int dead = 0; const size_t per = std::is_same<T, First>::value ? 1 : std::is_same<T, Deep>::value ? 3 : 2; for (int k = 0; k < n; ++k) { if (living[k]) { live += per; if (raw[k]->m.get() != k * 10) fail("object %d changed", k); } else ++dead; }
        if (reg.live != live) fail("%zu tracked parts are alive, expected %zu", reg.live, live); if (died != dead) fail("%d objects were destroyed, expected %d", died, dead);
    }
    void observe(Key& key) {
        check(); Quiet q; auto put = [&](const M& m) { key.add(m.obj); int cls = 0; if (m.ptr && m.obj >= 0) { A* r = raw[m.obj]; cls = m.ptr == &outside ? 1 : m.ptr == static_cast<ESF*>(r) ? 2 : m.ptr == &r->m ? 3 : 4; } key.add(cls); };
        put(ms[0]); put(ms[1]); put(mo); for (auto& m : mw) { if (m.obj >= 0 && owners(m.obj)) put(m); else key.add(-7); } key.add(n); for (int k = 0; k < n; ++k) { key.add(living[k]); key.add(managed[k]); }
    }
    void finish() { ms[0] = ms[1] = mo = M(); s[0].reset(); s[1].reset(); owner.reset(); if (uniq) { delete uniq; uniq = nullptr; } if (reg.live) fail("%zu parts outlive their owners", reg.live); if (died != n) fail("%d of %d objects were destroyed", died, n); w[0].reset(); w[1].reset(); }
};
template <class T> int World<T>::outside = 0;
// objects which no heap owner ever had
static void unowned() {
    reg.clear(); died = 0; int k = choose(3); { Api<First> a(1); Api<Second> b(2); auto no = [](auto g) { bool t = false; try { auto p = g(); } catch (std::bad_weak_ptr&) { t = true; } if (!t) fail("a local object was given an owner"); };
    if (k == 0) { no([&] { return a.shared_from_this(); }); no([&] { return b.shared_from(&b.m); }); no([&] { return static_cast<const Api<Second>&>(b).shared_from_this(); }); }
    if (k == 1) { auto p = std::make_shared<Api<First>>(5); Api<First> copy(*p); no([&] { return copy.shared_from_this(); }); a = *p; no([&] { return a.shared_from(&a); }); Api<First> mv(std::move(*p)); no([&] { return mv.shared_from_this(); }); if (p->shared_from(p.get()) != p) fail("assigning from an object disowned it"); *p = a; if (p.use_count() != 1 || p->shared_from(p.get()) != p) fail("assigning to an object disowned it"); }
    if (k == 2) { Api<First>* raw; { auto p = std::make_shared<Api<First>>(6); raw = p.get(); std::weak_ptr<void> w = raw->weak_from_this(); auto m = p->shared_from(&p->m); p.reset(); if (died) fail("a pointer to a member does not keep the object"); if (w.use_count() != 1) fail("use count"); m.reset(); if (!w.expired() || died != 1) fail("not destroyed"); } } }
    if (reg.live) fail("leak"); outcome(k);
}
template <class T> static void add_world(const char* name, int depth, int tdepth) { add(name, [=] { explore_bfs<World<T>>(typename World<T>::Cfg{2}, BfsOpt{thorough ? tdepth : depth, 1}); }); }
void mc_setup() { add_world<First>("first", 6, 11); add_world<Second>("second_base", 6, 11); add_world<Virt>("virtual_base", 6, 11); add_world<Deep>("derived", 6, 11); add("unowned", [] { explore_choices(unowned); }); }

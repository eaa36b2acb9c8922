// A01: any holds exactly the given value. A02: allocation and destruction, also when something throws.
// PROP=1: default-like and stateful allocators, no faults; PROP=2: two unequal allocators, a fault at every allocation and constructor
#include "tracked.hpp"
#include <itlib/any.hpp>
#include <itlib/any.hpp>      // a header may be included twice
#include <any>
using namespace mc;
#ifndef PROP
#define PROP 1
#endif

// bytes allocator with an identity; all comparisons and accounting by id
static std::map<void*, std::tuple<size_t, size_t, int>> blocks; static int fail_in; static long n_alloc;
static void* get(size_t n, size_t a, int id) {
    if (fail_in > 0 && --fail_in == 0) throw std::bad_alloc();
    if (!n || !a || (a & (a - 1)) || n % a) fail("allocate_bytes(%zu, %zu)", n, a);
    void* raw = nullptr; if (posix_memalign(&raw, 256, n + 512)) fail("harness: no memory");
    char* p = static_cast<char*>(raw) + 256 - 0;
    p += a;      // aligned to a and to nothing more
    __asan_poison_memory_region(raw, n + 512); __asan_unpoison_memory_region(p, n); memset(p, 0xA5, n);
    Quiet q; blocks[p] = {n, a, id}; ++n_alloc; return p;
}
static void put(void* p, size_t n, size_t a, int id) {
    auto i = blocks.find(p); if (i == blocks.end()) fail("deallocation of a block which is not allocated");
    auto [bn, ba, bid] = i->second;
    if (bn != n || ba != a) fail("block of %zu bytes aligned to %zu returned as %zu bytes aligned to %zu", bn, ba, n, a);
    if (bid != id) fail("block of allocator %d returned to unequal allocator %d", bid, id);
    if (reg.within(p, static_cast<char*>(p) + n)) fail("block freed while an object in it is alive");
    { Quiet q; blocks.erase(i); }
    char* raw = static_cast<char*>(p) - 256 - a; __asan_unpoison_memory_region(raw, n + 512); free(raw);
}
template <int Kind> struct IdAlloc {      // Kind 0: stateful; 1: stateful, assignment deleted like polymorphic_allocator's
    int id;
    explicit IdAlloc(int i = 0) : id(i) {}
    IdAlloc(const IdAlloc&) = default;
    IdAlloc& operator=(const IdAlloc&) = delete;
    template <int K> IdAlloc(const IdAlloc<K>& o) : id(o.id) {}
    void* allocate_bytes(size_t n, size_t a) { return get(n, a, id); }
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept { put(p, n, a, id); }
    friend bool operator==(const IdAlloc& x, const IdAlloc& y) { return x.id == y.id; }
    friend bool operator!=(const IdAlloc& x, const IdAlloc& y) { return x.id != y.id; }
};
struct EmptyAlloc { void* allocate_bytes(size_t n, size_t a) { return get(n, a, 0); } void deallocate_bytes(void* p, size_t n, size_t a) noexcept { put(p, n, a, 0); } };
template <class A> A mkalloc(int id) { if constexpr (std::is_empty<A>::value) return A(); else return A(id); }
template <class A> int allocid(const A& a) { if constexpr (std::is_empty<A>::value) return 0; else return a.id; }

struct Pinned : TrackedBase<8, 7> { Pinned(int i) : TrackedBase<8, 7>(i) {} Pinned(Pinned&&) = delete; };
struct Multi : TrackedBase<8, 8> { Multi(const Tracked& t, std::unique_ptr<int>&& p, int& out) : TrackedBase<8, 8>(t.get() + *p) { auto q = std::move(p); out = 1; } Multi(const Multi&) = default; Multi(Multi&&) = default; };
struct ByInit : TrackedBase<32, 9> { using TrackedBase<32, 9>::TrackedBase; };
enum { T_NONE, T_INT, T_STR, T_TRACK, T_MOVE, T_COPY, T_OVER, T_TMOVE, T_ANY, T_PIN, NT };
template <int> struct Ty; template <> struct Ty<T_INT> { typedef int t; }; template <> struct Ty<T_STR> { typedef std::string t; }; template <> struct Ty<T_TRACK> { typedef Tracked t; };
template <> struct Ty<T_MOVE> { typedef MoveOnly t; }; template <> struct Ty<T_COPY> { typedef CopyOnly t; }; template <> struct Ty<T_OVER> { typedef OverAligned t; }; template <> struct Ty<T_TMOVE> { typedef ThrowMove t; }; template <> struct Ty<T_PIN> { typedef Pinned t; };
static const char* tname[] = {"nothing", "int", "string", "Tracked", "MoveOnly", "CopyOnly", "OverAligned", "ThrowMove", "any", "Pinned"};

struct Val { int ty = T_NONE, v = 0; bool operator==(const Val& o) const { return ty == o.ty && v == o.v; } };
struct State { Val out, in; };        // in: what the stored any holds when out.ty == T_ANY
struct Cfg { std::vector<int> types; bool same = true, faults = false; bool lite = false; };

template <class Al> struct World {
    typedef itlib::any<Al> A;
    const Cfg& c; A a, b; State m[2]; int next = 1;
    World(const Cfg& cfg) : c(cfg), a(std::allocator_arg, mkalloc<Al>(1)), b(std::allocator_arg, mkalloc<Al>(cfg.same ? 1 : 2)) { fail_in = 0; throw_in = 0; reg.clear(); reset_counts(); }
    A& obj(int i) { return i ? b : a; }
    int fresh() { next = next % 9 + 1; return next; }
    enum { ASSIGN_L, ASSIGN_CL, ASSIGN_R, EMPLACE, CTOR_L, CTOR_R, CTOR_AL, EMPLACE_MULTI, RESET, COPY, MOVE, SELF_COPY, SELF_MOVE, OWN_L, OWN_R, OWN_ANY, OWN_ANY_MOVE, NEST, NEST_MOVE, COPY_CTOR, COPY_CTOR_AL, MOVE_CTOR, COPY_OTHER, WRITE, CAST_MOVE, ALLOC_CTOR, COPY_FROM, DECAY, OWN_SIBLING };
    static std::string text(const Cfg&, const Op& o) {
        static const char* n[] = {"= lvalue", "= const lvalue", "= rvalue", "emplace", "construct from lvalue", "construct from rvalue", "construct with allocator from lvalue", "emplace from several arguments", "reset", "= other", "= move(other)", "= itself", "= move(itself)", "= own value", "= move(own value)", "= own stored any", "= move(own stored any)", "emplace<any>(other)", "emplace<any>(move(other))", "copy construct", "copy construct with allocator", "move construct", "copy to any with another allocator type", "write through any_cast", "any_cast of rvalue", "construct from allocator", "copy_from", "array and function decay", "= part of own value"};
        std::string s = std::string(o.b ? "b" : "a") + " " + n[o.code]; if (o.a) s += std::string(" ") + tname[o.a];
        if (o.c) s += (o.c % 8 == 7 ? " [constructor throws]" : " [fault " + std::to_string(o.c) + "]");
        return s;
    }
    void enumerate(std::vector<Op>& out) {
        auto addf = [&](int code, int t, int i, bool alloc, bool ctor) {
            out.push_back(Op{code, t, i, 0});
            if (c.faults) { if (alloc) out.push_back(Op{code, t, i, 1}); if (ctor) { out.push_back(Op{code, t, i, 7}); if (code == NEST) out.push_back(Op{code, t, i, 2}); } }
        };
        for (int i = 0; i < (c.lite ? 1 : 2); ++i) {
            for (int t : c.types) {
                bool copyable = t != T_MOVE, thr = t == T_TRACK || t == T_COPY || t == T_OVER || t == T_TMOVE;
                if (t == T_PIN) { addf(EMPLACE, t, i, true, true); continue; }
                if (copyable) { addf(ASSIGN_L, t, i, true, thr); addf(ASSIGN_CL, t, i, true, thr); if (i == 0) { addf(CTOR_L, t, i, true, thr); addf(CTOR_AL, t, i, true, thr); } }
                addf(ASSIGN_R, t, i, true, t == T_COPY); addf(EMPLACE, t, i, true, thr || t == T_MOVE); if (i == 0) addf(CTOR_R, t, i, true, false);
            }
            const State& s = m[i]; const State& o = m[!i];
            out.push_back(Op{RESET, 0, i, 0}); out.push_back(Op{SELF_COPY, 0, i, 0}); out.push_back(Op{SELF_MOVE, 0, i, 0});
            bool othr = o.out.ty == T_TRACK || o.out.ty == T_COPY || o.out.ty == T_OVER || o.out.ty == T_TMOVE, sthr = s.out.ty == T_TRACK || s.out.ty == T_COPY || s.out.ty == T_OVER || s.out.ty == T_TMOVE;
            addf(COPY, 0, i, true, othr); addf(MOVE, 0, i, !c.same, false);
            if (s.out.ty && s.out.ty != T_ANY) { if (s.out.ty != T_MOVE && s.out.ty != T_PIN) addf(OWN_L, 0, i, true, sthr); if (s.out.ty != T_PIN) addf(OWN_R, 0, i, true, false); out.push_back(Op{WRITE, 0, i, 0}); if (s.out.ty != T_PIN) out.push_back(Op{CAST_MOVE, 0, i, 0}); }
            if (s.out.ty == T_STR) out.push_back(Op{OWN_SIBLING, 0, i, 0});
            if (s.out.ty == T_ANY) { addf(OWN_ANY, 0, i, true, false); addf(OWN_ANY_MOVE, 0, i, false, false); }
            if (o.out.ty != T_ANY) { addf(NEST, 0, i, true, othr); addf(NEST_MOVE, 0, i, true, false); }
            if (i == 0) { addf(EMPLACE_MULTI, 0, i, true, true); addf(COPY_CTOR, 0, i, true, sthr); addf(COPY_CTOR_AL, 0, i, true, sthr); addf(MOVE_CTOR, 0, i, false, false); addf(COPY_OTHER, 0, i, true, sthr); out.push_back(Op{ALLOC_CTOR, 0, i, 0}); out.push_back(Op{DECAY, 0, i, 0}); }
            addf(COPY_FROM, 0, i, true, othr);
        }
    }
    template <class F> static void with(int ty, F f) {
        switch (ty) {
        case T_INT: f(Ty<T_INT>()); break; case T_STR: f(Ty<T_STR>()); break; case T_TRACK: f(Ty<T_TRACK>()); break; case T_MOVE: f(Ty<T_MOVE>()); break; case T_COPY: f(Ty<T_COPY>()); break;
        case T_OVER: f(Ty<T_OVER>()); break; case T_TMOVE: f(Ty<T_TMOVE>()); break; case T_PIN: f(Ty<T_PIN>()); break; default: fail("harness: type %d", ty);
        }
    }
    bool copyable(const State& s) { int t = s.out.ty == T_ANY ? s.in.ty : s.out.ty; return t != T_MOVE && t != T_PIN; }
    // runs f; `will_throw` says that it must throw bad_cast; otherwise only an injected fault may come out
    template <class F> int run(const Op& o, F f) {
        if (o.c == 7) throw_in = 1; else fail_in = o.c;
        int r = 0;
        try { f(); } catch (Boom&) { r = 1; if (o.c != 7) fail("stray exception"); } catch (std::bad_alloc&) { r = 2; if (o.c == 7 || !o.c) fail("stray bad_alloc"); } catch (std::bad_cast&) { r = 3; }
        throw_in = 0; fail_in = 0;
        return r;
    }
    // after a failed operation the any is empty or unchanged
    void settle(int i) {
        if (!obj(i).has_value()) m[i] = State();
    }
    void apply(const Op& o) {
        int i = o.b; A& x = obj(i); State& s = m[i]; A& y = obj(!i); State& so = m[!i];
        switch (o.code) {
        case ASSIGN_L: case ASSIGN_CL: case ASSIGN_R: case EMPLACE: case CTOR_L: case CTOR_R: case CTOR_AL: with(o.a, [&](auto tag) {
            typedef typename decltype(tag)::t T; int v = fresh(); int r = 0; State ns; ns.out = Val{o.a, v};
            if constexpr (!std::is_same<T, Pinned>::value) {
                T q = make<T>(v);
                if constexpr (std::is_copy_constructible<T>::value) {
                    if (o.code == ASSIGN_L) r = run(o, [&] { A& ret = (x = q); if (&ret != &x) fail("result of assignment"); });
                    if (o.code == ASSIGN_CL) { const T& cq = q; r = run(o, [&] { x = cq; }); }
                    if (o.code == CTOR_L || o.code == CTOR_AL) r = run(o, [&] {
                        if (o.code == CTOR_L) { A t(q); State u; u.out = Val{o.a, v}; check(t, u, "constructed any"); with_changed(q, t, u); if (allocid(t.get_allocator()) != allocid(Al())) fail("allocator"); }
                        else { A t(std::allocator_arg, mkalloc<Al>(5), q); State u; u.out = Val{o.a, v}; check(t, u, "constructed any"); with_changed(q, t, u); if (allocid(t.get_allocator()) != allocid(mkalloc<Al>(5))) fail("allocator"); } });
                    if (o.code <= ASSIGN_CL && idof(q) != v) fail("the assigned lvalue was modified");
                }
                if (o.code == ASSIGN_R) r = run(o, [&] { x = std::move(q); });
                if (o.code == CTOR_R) { r = run(o, [&] { A t(std::move(q)); State u; u.out = Val{o.a, v}; check(t, u, "constructed any"); }); }
            }
            if (o.code == EMPLACE) r = run(o, [&] { if constexpr (std::is_same<T, std::string>::value) { std::string z = make<T>(v); auto& e = x.template emplace<T>(z.c_str(), z.size()); if (&e != x.template tdata<T>()) fail("emplace result"); } else { auto& e = x.template emplace<T>(v); if (&e != x.template tdata<T>()) fail("emplace result"); } });
            if (r == 3) fail("bad_cast"); if (o.c && !r && !(o.c == 7 && false)) { /* the fault was not reached */ }
            if (o.code == CTOR_L || o.code == CTOR_R || o.code == CTOR_AL) return;
            if (r) settle(i); else s = ns;
        }); break;
        case EMPLACE_MULTI: { std::unique_ptr<int> p(new int(3)); int out = 0; Tracked t(2); int r = run(o, [&] { auto& e = x.template emplace<Multi>(static_cast<const Tracked&>(t), std::move(p), out); if (e.get() != 5) fail("emplaced value is %d", e.get()); }); if (t.get() != 2) fail("argument changed"); if (!r) { if (!out || p) fail("arguments were not forwarded"); if (x.type() != typeid(Multi) || itlib::any_cast<Multi>(&x)->get() != 5) fail("emplaced value"); x.reset(); s = State(); } else settle(i); break; }
        case RESET: x.reset(); s = State(); break;
        case COPY: case COPY_FROM: { bool can = copyable(so); int r = run(o, [&] { const A& cy = y; if (o.code == COPY) { A& ret = (x = cy); if (&ret != &x) fail("result of assignment"); } else x.copy_from(cy); }); if (!can && r != 3 && r != 2) fail("copying a non-copyable value did not throw bad_cast"); if (can && r == 3) fail("bad_cast from a copyable value"); if (r) settle(i); else s = so; break; }
        case MOVE: { int r = run(o, [&] { A& ret = (x = std::move(y)); if (&ret != &x) fail("result of assignment"); });
            if (r) { if (c.same) fail("move assignment threw"); if (r == 3 && so.out.ty != T_PIN) fail("bad_cast"); settle(i); settle(!i); break; }
            s = so; so = State(); if (y.has_value()) fail("the moved-from any is not empty"); break; }
        case SELF_COPY: { A& r = x; int q = run(o, [&] { x = r; }); if (q == 3) { if (copyable(s)) fail("bad_cast"); settle(i); } else if (q) fail("threw"); break; }
        case SELF_MOVE: { A& r = x; x = std::move(r); break; }
        case OWN_L: case OWN_R: with(s.out.ty, [&](auto tag) { typedef typename decltype(tag)::t T; int r = 0;
            if constexpr (!std::is_same<T, Pinned>::value) {
                if constexpr (std::is_copy_constructible<T>::value) if (o.code == OWN_L) r = run(o, [&] { x = itlib::any_cast<T&>(x); });
                if (o.code == OWN_R) r = run(o, [&] { x = std::move(itlib::any_cast<T&>(x)); });
            }
            if (r == 3) fail("bad_cast"); if (r) { settle(i); if (x.has_value() && o.code == OWN_R) { /* moved from */ } } }); break;
        case OWN_SIBLING: { auto& str = itlib::any_cast<std::string&>(x); int v = s.out.v; const char* p = str.c_str(); (void)p; std::string exp(str); x = std::string(str.data(), str.size()); if (itlib::any_cast<std::string&>(x) != exp) fail("value"); (void)v; break; }
        case OWN_ANY: { auto& inner = *x.template tdata<A>(); bool can = s.in.ty != T_MOVE && s.in.ty != T_PIN; int r = run(o, [&] { x = static_cast<const A&>(inner); }); if (!can && r != 3 && r != 2) fail("copying a non-copyable value did not throw"); if (r) { if (can && r == 3) fail("bad_cast"); settle(i); } else { s.out = s.in; s.in = Val(); } break; }
        case OWN_ANY_MOVE: { auto& inner = *x.template tdata<A>(); int r = run(o, [&] { x = std::move(inner); }); if (r == 3 && s.in.ty != T_PIN) fail("bad_cast"); if (r) { settle(i); } else { s.out = s.in; s.in = Val(); } break; }
        case NEST: { bool can = copyable(so); int r = run(o, [&] { x.template emplace<A>(static_cast<const A&>(y)); }); if (!can && r != 3 && r != 2) fail("copying a non-copyable value did not throw"); if (r) settle(i); else { s.in = so.out; s.out = Val{T_ANY, 0}; } break; }
        case NEST_MOVE: { int r = run(o, [&] { x.template emplace<A>(std::move(y)); }); if (r) settle(i); else { s.in = so.out; s.out = Val{T_ANY, 0}; so = State(); } break; }
        case COPY_CTOR: case COPY_CTOR_AL: case COPY_OTHER: { bool can = copyable(s); int r = run(o, [&] {
                const A& cx = x;
                if (o.code == COPY_CTOR) { A t(cx); check(t, s, "the copy"); if (allocid(t.get_allocator()) != allocid(Al())) fail("allocator of a copy"); t.reset(); check(x, s, "the original"); }
                else if (o.code == COPY_CTOR_AL) { const Al al = mkalloc<Al>(4); A t(cx, al); if (allocid(t.get_allocator()) != allocid(al)) fail("allocator of a copy"); check(t, s, "the copy"); }
                else { typedef IdAlloc<3> Al3; itlib::any<Al3> t(cx, Al3(6)); if (t.has_value() != cx.has_value() || t.type() != cx.type()) fail("the copy has another type"); if (s.out.ty && s.out.ty != T_ANY) with(s.out.ty, [&](auto tag) { typedef typename decltype(tag)::t T; if (idof(itlib::any_cast<const T&>(t)) != s.out.v) fail("value of the copy"); });
                    itlib::any<Al3> u(std::allocator_arg, Al3(7)); u = 5; u.copy_from(cx); if (u.type() != cx.type()) fail("copy_from another allocator type"); } });
            if (!can && r != 3 && r != 2) fail("copying a non-copyable value did not throw"); if (can && r == 3) fail("bad_cast"); break; }
        case MOVE_CTOR: { const void* p = x.data(); long n0 = n_alloc; A t(std::move(x)); if (t.data() != p || n_alloc != n0) fail("move construction did not take the value over"); check(t, s, "the moved-to any"); check(x, State(), "the moved-from any"); if (allocid(t.get_allocator()) != allocid(x.get_allocator())) fail("allocator of a moved any"); x = std::move(t); break; }
        case WRITE: with(s.out.ty, [&](auto tag) { typedef typename decltype(tag)::t T; if constexpr (!std::is_same<T, Pinned>::value) { int v = fresh(); itlib::any_cast<T&>(x) = make<T>(v); s.out.v = v; } }); break;
        case CAST_MOVE: with(s.out.ty, [&](auto tag) { typedef typename decltype(tag)::t T; if constexpr (!std::is_same<T, Pinned>::value) { T t = itlib::any_cast<T>(std::move(x)); if (idof(t) != s.out.v) fail("any_cast of an rvalue gave %d", idof(t)); if (!x.has_value() || x.type() != typeid(T) || !itlib::any_cast<T>(&x)) fail("any_cast of an rvalue emptied the any"); itlib::any_cast<T&>(x) = std::move(t); T&& rr = itlib::any_cast<T&&>(std::move(x)); if (&rr != itlib::any_cast<T>(&x) || idof(rr) != s.out.v) fail("any_cast of an rvalue to a reference"); } }); break;
        case ALLOC_CTOR: { const Al al = mkalloc<Al>(3); A t(al); if (t.has_value() || t.type() != typeid(void) || allocid(t.get_allocator()) != allocid(al)) fail("constructed from an allocator"); t = 5; A u; if (u) fail("default"); if (itlib::any_cast<int>(t) != 5) fail("value"); Al al2 = mkalloc<Al>(3); A w(al2); if (w.has_value() || allocid(w.get_allocator()) != allocid(al)) fail("an any constructed from its allocator has a value"); A z(mkalloc<Al>(3)); if (z.has_value() || allocid(z.get_allocator()) != allocid(al)) fail("an any constructed from its allocator has a value"); break; }
        case DECAY: { const int k = 7; A t(k); const int& rk = itlib::any_cast<const int&>(t); if (t.type() != typeid(int) || rk != 7 || &rk == &k) fail("const lvalue"); A u("ab"); if (u.type() != typeid(const char*) || std::string(itlib::any_cast<const char*>(u)) != "ab") fail("array"); A w(&blocks_size); w = blocks_size; if (w.type() != typeid(size_t (*)())) fail("function"); if (itlib::any_cast<size_t (*)()>(w)() != blocks.size()) fail("function"); const std::string cs("x"); w = cs; A v(std::move(cs)); if (itlib::any_cast<std::string>(w) != "x" || itlib::any_cast<const std::string&>(v) != "x") fail("const string"); break; }
        }
    }
    static size_t blocks_size() { return blocks.size(); }
    template <class T> void with_changed(T& q, A& t, const State& u) { // changing the original does not change the any
        q = make<T>(u.out.v + 1); check(t, u, "any after its argument changed");
    }
    template <int I> void cast1(A& x, const State& s, const char* w) {
        typedef typename Ty<I>::t T; const A& cx = x; bool is = s.out.ty == I;
        T* p = itlib::any_cast<T>(&x); const T* cp = itlib::any_cast<T>(&cx); const T* cc = itlib::any_cast<const T>(&x); { const T* c2 = itlib::any_cast<const T>(&cx); const volatile T* c3 = itlib::any_cast<const volatile T>(&x); if (c2 != cp || c3 != cp) fail("%s: any_cast to a const or volatile type", w); }
        if (bool(p) != is || p != cp || cc != cp) fail("%s: any_cast<%s> of %s", w, tname[I], tname[s.out.ty]);
        if (!is && I != T_INT && I != (s.out.ty == T_TRACK ? T_TMOVE : T_TRACK)) return;      // throwing is slow: two wrong types are enough
        bool t1 = false, t2 = false, t3 = false;
        try { T& r = itlib::any_cast<T&>(x); if (&r != p) fail("%s: any_cast to a reference", w); if (idof(r) != s.out.v) fail("%s: value is %d, expected %d", w, idof(r), s.out.v); } catch (std::bad_cast&) { t1 = true; }
        try { const T& r = itlib::any_cast<const T&>(cx); if (&r != p) fail("%s: any_cast of const", w); } catch (std::bad_cast&) { t2 = true; }
        if constexpr (std::is_copy_constructible<T>::value) { try { T r = itlib::any_cast<T>(x); if (idof(r) != s.out.v) fail("%s: any_cast value", w); } catch (std::bad_cast&) { t3 = true; } if (t3 == is) fail("%s: any_cast<%s>", w, tname[I]); }
        if (t1 == is || t2 == is) fail("%s: any_cast<%s&> of %s", w, tname[I], tname[s.out.ty]);
        if (is && x.type() != typeid(T)) fail("%s: type()", w);
        if (is && (x.template tdata<T>() != p || cx.template tdata<T>() != p)) fail("%s: tdata", w);
        if (is && reinterpret_cast<uintptr_t>(p) % alignof(T)) fail("%s: misaligned value", w);
    }
    void check(A& x, const State& s, const char* w) {
        const A& cx = x;
        if (x.has_value() != (s.out.ty != T_NONE) || bool(x) != x.has_value()) fail("%s: has_value is %d, expected to hold %s", w, x.has_value(), tname[s.out.ty]);
        if ((x.data() != nullptr) != x.has_value() || cx.data() != x.data()) fail("%s: data()", w);
        if (!s.out.ty && x.type() != typeid(void)) fail("%s: type of an empty any", w);
        cast1<T_INT>(x, s, w); cast1<T_STR>(x, s, w); cast1<T_TRACK>(x, s, w); cast1<T_MOVE>(x, s, w); cast1<T_COPY>(x, s, w); cast1<T_OVER>(x, s, w); cast1<T_TMOVE>(x, s, w); cast1<T_PIN>(x, s, w);
        if (s.out.ty == T_ANY) { A* p = itlib::any_cast<A>(&x); if (!p || x.type() != typeid(A)) fail("%s: any_cast to any", w); State in; in.out = s.in; check(*p, in, "stored any"); }
        if (x.has_value()) {
            bool ok = false; for (auto& e : blocks) if (x.data() >= e.first && x.data() < static_cast<char*>(e.first) + std::get<0>(e.second)) { ok = true; if (std::get<2>(e.second) != allocid(x.get_allocator())) fail("%s: its block belongs to allocator %d, its allocator is %d", w, std::get<2>(e.second), allocid(x.get_allocator())); }
            if (!ok) fail("%s: the value is not in memory of the allocator", w);
        }
    }
    void observe(Key& key) {
        // own moved-from strings have an unspecified value: resynchronise after a failed move of own value is not needed, it never fails after moving
        check(a, m[0], "a"); check(b, m[1], "b");
        size_t nb = 0; for (auto& s : m) { nb += s.out.ty != T_NONE; nb += s.in.ty != T_NONE; }
        if (blocks.size() != nb) fail("%zu blocks are allocated for %zu values", blocks.size(), nb);
        size_t live = 0; for (auto& s : m) for (int t : {s.out.ty, s.in.ty}) live += t == T_TRACK || t == T_MOVE || t == T_COPY || t == T_OVER || t == T_TMOVE || t == T_PIN;
        if (reg.live != live) fail("%zu objects are alive, %zu are stored", reg.live, live);
        for (auto& s : m) { key.add(s.out.ty); key.label(s.out.v); key.add(s.in.ty); key.label(s.in.v); }
        key.add(allocid(a.get_allocator())); key.add(allocid(b.get_allocator()));
    }
    void finish() { a.reset(); b.reset(); if (reg.live) fail("%zu objects were never destroyed", reg.live); if (!blocks.empty()) fail("%zu blocks were never returned", blocks.size()); }
};
// the default allocator, against std::any
static void defaults() {
    itlib::any<> a[2]; std::any r[2];
    for (int step = 0; step < 3; ++step) {
        int op = choose(9), i = choose(2); say("operation %d on %d", op, i);
        switch (op) {
        case 0: a[i] = step; r[i] = step; break;
        case 1: { std::string s(size_t(20 + step), 'q'); a[i] = s; r[i] = s; s[0] = 'z'; break; }
        case 2: a[i].reset(); r[i].reset(); break;
        case 3: a[i] = a[!i]; r[i] = r[!i]; break;
        case 4: a[i] = std::move(a[!i]); r[i] = std::move(r[!i]); break;
        case 5: a[i] = a[i]; break;
        case 6: a[i].emplace<OverAligned>(step); r[i].emplace<OverAligned>(step); break;
        case 7: std::swap(a[0], a[1]); std::swap(r[0], r[1]); break;
        case 8: { itlib::any<> t(a[i]); t.reset(); itlib::any<> u(a[i]); a[i] = std::move(u); break; }
        }
        for (int k = 0; k < 2; ++k) {
            if (a[k].type() != r[k].type() || a[k].has_value() != r[k].has_value()) fail("types differ");
            if (r[k].type() == typeid(int) && itlib::any_cast<int>(a[k]) != std::any_cast<int>(r[k])) fail("int");
            if (r[k].type() == typeid(std::string) && itlib::any_cast<std::string>(a[k]) != std::any_cast<std::string>(r[k])) fail("string");
            if (r[k].type() == typeid(OverAligned)) { if (itlib::any_cast<OverAligned&>(a[k]).get() != std::any_cast<OverAligned&>(r[k]).get()) fail("OverAligned"); if (reinterpret_cast<uintptr_t>(a[k].data()) % 64) fail("misaligned"); }
        }
    }
    if (itlib::any_cast<int>(static_cast<itlib::any<>*>(nullptr)) || itlib::any_cast<int>(static_cast<const itlib::any<>*>(nullptr)) || itlib::any_cast<int>(nullptr)) fail("any_cast of a null pointer");
}
template <class W> static void hist(const char* name, Cfg c, int depth, int tdepth, int nomerge) { add(name, [=] { static Cfg k; k = c; explore_bfs<W>(k, BfsOpt{thorough ? tdepth : depth, thorough ? nomerge + 1 : nomerge}); }); }
void mc_setup() {
    bool f = PROP == 2;
    Cfg c; c.types = {T_INT, T_STR, T_TRACK, T_MOVE, T_COPY, T_OVER, T_TMOVE, T_PIN}; c.faults = f;
    hist<World<EmptyAlloc>>("empty_alloc", c, 5, 7, 1);
    hist<World<IdAlloc<0>>>("equal_alloc", c, 5, 7, 1);
    c.same = false; hist<World<IdAlloc<0>>>("unequal_alloc", c, 5, 7, 1);
    Cfg d = c; d.types = {T_TRACK, T_MOVE}; hist<World<IdAlloc<1>>>("unequal_deep", d, 6, 8, 2);
    d.types = {T_STR, T_OVER}; d.same = true; hist<World<EmptyAlloc>>("empty_deep", d, 6, 8, 2);
    d.types = {T_PIN, T_COPY}; d.same = false; hist<World<IdAlloc<0>>>("unequal_pinned", d, 6, 8, 2);
    add("default_alloc", [] { explore_choices(defaults); });
}

// F01: ufunction calls and owns exactly one callable
#include "tracked.hpp"
#include <itlib/ufunction.hpp>
#include <itlib/ufunction.hpp>
using namespace mc;
typedef itlib::ufunction<int(int)> F;
static int free_a(int x) { return x * 100 + 1; }
static int free_b(int x) { return x * 100 + 2; }
static long calls;
template <class B> struct Call : B { using B::B; Call(const Call&) = default; Call(Call&&) = default; Call& operator=(Call&&) = default; Call& operator=(const Call&) = default; int n = 0; int operator()(int x) { ++calls; return x * 100 + this->get() * 10 + n++; } };
typedef Call<Tracked> Small;
struct Big : Call<Tracked> { using Call<Tracked>::Call; char pad[200] = {}; };
struct Over : TrackedBase<64, 31> { using TrackedBase<64, 31>::TrackedBase; int n = 0; int operator()(int x) { ++calls; if (reinterpret_cast<uintptr_t>(this) % 64) fail("the callable is misaligned"); return x * 100 + this->get() * 10 + n++; } };
struct MoveF : MoveOnly { using MoveOnly::MoveOnly; int n = 0; int operator()(int x) { ++calls; return x * 100 + this->get() * 10 + n++; } };
struct ConstF : TrackedBase<8, 32> { using TrackedBase<8, 32>::TrackedBase; mutable int n = 0; int operator()(int x) const { ++calls; return x * 100 + this->get() * 10 + n++; } };
struct Thrower : TrackedBase<8, 33> { using TrackedBase<8, 33>::TrackedBase; int n = 0; int operator()(int x) { ++calls; if (x == 5) throw Boom{9}; return x * 100 + this->get() * 10 + n++; } };
struct TMove : ThrowMove { using ThrowMove::ThrowMove; int n = 0; int operator()(int x) { ++calls; return x * 100 + this->get() * 10 + n++; } };
enum { NONE, SMALL, BIG, OVER, MOVEF, CONSTF, THROWER, TMOVE, FREE, LAMBDA };
template <int> struct Ty; template <> struct Ty<SMALL> { typedef Small t; }; template <> struct Ty<BIG> { typedef Big t; }; template <> struct Ty<OVER> { typedef Over t; }; template <> struct Ty<MOVEF> { typedef MoveF t; }; template <> struct Ty<CONSTF> { typedef ConstF t; }; template <> struct Ty<THROWER> { typedef Thrower t; }; template <> struct Ty<TMOVE> { typedef TMove t; };
struct Cfg { std::vector<int> types; };
struct World {
    struct M { int ty = NONE, v = 0, n = 0; };
    const Cfg& c; std::optional<F> f[2]; M m[2]; int next = 0;
    World(const Cfg& cfg) : c(cfg) { reg.clear(); reset_counts(); throw_in = 0; f[0].emplace(); f[1].emplace(); }
    enum { NEW_R, NEW_L, NEW_CL, SET_R, SET_L, SET_CL, SET_FREE, SET_NULL, SET_NULLPTR_FN, NEW_NULL, NEW_NULLFN, NEW_FREE, MOVE, MOVE_CTOR, SWAP, CALL, CALL_THROW, SET_LAMBDA, VECTOR, COPY_THROWS };
    static std::string text(const Cfg&, const Op& o) { static const char* n[] = {"new(rvalue)", "new(lvalue)", "new(const lvalue)", "= rvalue", "= lvalue", "= const lvalue", "= free function", "= nullptr", "= null function pointer", "new(nullptr)", "new(null function pointer)", "new(free function)", "= move(other)", "move construct", "swap", "call", "call that throws", "= lambda owning a unique_ptr", "grow a vector of ufunctions", "= lvalue whose copy throws"}; return std::string(o.b ? "g " : "f ") + n[o.code] + " " + std::to_string(o.a); }
    void enumerate(std::vector<Op>& out) {
        for (int i = 0; i < 2; ++i) {
            for (int t : c.types) { bool cp = t != MOVEF; out.push_back(Op{NEW_R, t, i, 0}); out.push_back(Op{SET_R, t, i, 0}); if (cp) { for (int code : {NEW_L, NEW_CL, SET_L, SET_CL}) out.push_back(Op{code, t, i, 0}); out.push_back(Op{COPY_THROWS, t, i, 0}); } }
            for (int code : {SET_FREE, NEW_FREE}) { out.push_back(Op{code, 0, i, 0}); out.push_back(Op{code, 1, i, 0}); }
            for (int code : {SET_NULL, SET_NULLPTR_FN, NEW_NULL, NEW_NULLFN, MOVE, MOVE_CTOR, SET_LAMBDA, VECTOR}) out.push_back(Op{code, 0, i, 0});
            if (i == 0) out.push_back(Op{SWAP, 0, 0, 0});
            out.push_back(Op{CALL, 0, i, 0}); if (m[i].ty == THROWER) out.push_back(Op{CALL_THROW, 0, i, 0});
        }
    }
    template <class G> static void with(int t, G g) { switch (t) { case SMALL: g(Ty<SMALL>()); break; case BIG: g(Ty<BIG>()); break; case OVER: g(Ty<OVER>()); break; case MOVEF: g(Ty<MOVEF>()); break; case CONSTF: g(Ty<CONSTF>()); break; case THROWER: g(Ty<THROWER>()); break; case TMOVE: g(Ty<TMOVE>()); break; } }
    void apply(const Op& o) {
        int i = o.b; auto& x = f[i]; M& s = m[i];
        switch (o.code) {
        case NEW_R: case NEW_L: case NEW_CL: case SET_R: case SET_L: case SET_CL: with(o.a, [&](auto tag) {
            typedef typename decltype(tag)::t T; int v = ++next; T q(v); long c0 = n_copies;
            if (o.code == NEW_R) { x.reset(); x.emplace(std::move(q)); } if (o.code == SET_R) { auto& r = (*x = std::move(q)); if (&r != &*x) fail("result of assignment"); }
            if constexpr (std::is_copy_constructible<T>::value) { const T& cq = q; if (o.code == NEW_L) { x.reset(); x.emplace(q); } if (o.code == NEW_CL) { x.reset(); x.emplace(cq); } if (o.code == SET_L) *x = q; if (o.code == SET_CL) *x = cq; }
            bool r = o.code == NEW_R || o.code == SET_R; long n = n_copies - c0;
            if (n > (r ? 0 : 1)) fail("the callable was copied %ld times", n);
            if (!r && q.get() != v) fail("the lvalue callable was modified");
            s = M{o.a, v, 0};
        }); break;
        case COPY_THROWS: with(o.a, [&](auto tag) { typedef typename decltype(tag)::t T; if constexpr (std::is_copy_constructible<T>::value) { T q(50); throw_in = 1; bool t = false; try { *x = q; } catch (Boom&) { t = true; } if (!t) fail("the exception disappeared"); throw_in = 0; } }); break;
        case SET_FREE: *x = o.a ? free_b : free_a; s = M{FREE, o.a + 1, 0}; break;
        case NEW_FREE: x.reset(); if (o.a) x.emplace(free_b); else x.emplace(&free_a); s = M{FREE, o.a + 1, 0}; break;
        case SET_NULL: *x = nullptr; s = M(); break;
        case SET_NULLPTR_FN: { int (*p)(int) = nullptr; *x = p; s = M(); break; }
        case NEW_NULL: x.reset(); x.emplace(nullptr); s = M(); break;
        case NEW_NULLFN: { int (*p)(int) = nullptr; x.reset(); x.emplace(p); s = M(); break; }
        case MOVE: { long c0 = n_copies; auto& r = (*x = std::move(*f[!i])); if (&r != &*x) fail("result"); if (n_copies != c0) fail("copied while moving"); s = m[!i]; m[!i] = M(); break; }
        case MOVE_CTOR: { long c0 = n_copies; F t(std::move(*x)); if (bool(*x)) fail("a moved-from ufunction is not empty"); M em; checkcall(t, s, 1); *x = std::move(t); if (bool(t)) fail("a moved-from ufunction is not empty"); if (n_copies != c0) fail("copied while moving"); break; }
        case SWAP: std::swap(*f[0], *f[1]); std::swap(m[0], m[1]); break;
        case CALL: checkcall(*x, s, 7); break;
        case CALL_THROW: { bool t = false; try { (*x)(5); } catch (Boom& b) { t = b.v == 9; } if (!t) fail("the exception of the callable disappeared"); break; }
        case SET_LAMBDA: { int v = ++next; std::unique_ptr<Tracked> p(new Tracked(v)); *x = [p = std::move(p), n = 0](int a) mutable { return a * 100 + p->get() * 10 + n++; }; s = M{LAMBDA, v, 0}; break; }
        case VECTOR: { long c0 = n_copies; std::vector<F> v; v.push_back(std::move(*x)); v.emplace_back(free_a); v.push_back(F(free_b)); v.emplace_back(nullptr); checkcall(v[0], s, 2); if (v[1](1) != 101 || v[2](1) != 102 || v[3]) fail("functions in a vector"); *x = std::move(v[0]); if (n_copies != c0) fail("copied in a vector"); break; }
        }
    }
    void checkcall(F& x, M& s, int a) {
        if (bool(x) != (s.ty != NONE)) fail("operator bool is %d", bool(x));
        if (s.ty == NONE) { bool t = false; try { x(a); } catch (std::bad_function_call&) { t = true; } if (!t) fail("an empty ufunction could be called"); return; }
        long c0 = calls; int want = s.ty == FREE ? a * 100 + s.v : a * 100 + s.v * 10 + s.n++; const F& cx = x;
        int got = a % 2 ? cx(a) : x(a); if (got != want) fail("the call gave %d, expected %d", got, want);
        if (s.ty != FREE && s.ty != LAMBDA && calls != c0 + 1) fail("the callable was called %ld times", calls - c0);
    }
    void observe(Key& key) {
        size_t live = 0; for (auto& s : m) live += s.ty != NONE && s.ty != FREE;
        if (reg.live != live) fail("%zu callables are alive, %zu are owned", reg.live, live);
        for (int i = 0; i < 2; ++i) { if (bool(*f[i]) != (m[i].ty != NONE)) fail("operator bool is %d", bool(*f[i])); if (bool(*f[i])) checkcall(*f[i], m[i], 3); key.add(m[i].ty); key.add(std::min(m[i].n, 2)); if (m[i].ty == FREE) key.add(m[i].v); }
    }
    void finish() { f[0].reset(); f[1].reset(); if (reg.live) fail("a callable was never destroyed"); }
};
// argument and result passing
struct Cat { int operator()(Tracked& t) const { t.v += 1; return 1; } int operator()(const Tracked&) const { return 2; } int operator()(Tracked&& t) const { Tracked u(std::move(t)); return 3; } int operator()(const Tracked&&) const { return 4; } };
static int g_ret = 77; static int& ret_ref(int& x) { return x; } static const int& ret_cref() { return g_ret; }
static void signatures() {
    reg.clear(); reset_counts();
    switch (choose(13)) {
    case 0: { itlib::ufunction<int(Tracked&)> f = Cat(); Tracked t(1); if (f(t) != 1 || t.get() != 2) fail("reference argument"); break; }
    case 1: { itlib::ufunction<int(const Tracked&)> f = Cat(); Tracked t(1); if (f(t) != 2 || f(Tracked(3)) != 2 || n_copies) fail("const reference argument"); break; }
    case 2: { itlib::ufunction<int(Tracked&&)> f = Cat(); Tracked t(1); if (f(std::move(t)) != 3 || t.v != MOVED || n_copies) fail("rvalue argument"); break; }
    case 3: { itlib::ufunction<int(Tracked)> f = Cat(); Tracked t(1); if (f(std::move(t)) != 3 || n_copies) fail("value argument"); Tracked u(1); if (f(u) != 3 || u.get() != 1 || n_copies != 1) fail("value argument from an lvalue"); break; }
    case 4: { itlib::ufunction<std::unique_ptr<int>(std::unique_ptr<int>)> f = [](std::unique_ptr<int> p) { ++*p; return p; }; auto r = f(std::unique_ptr<int>(new int(4))); if (!r || *r != 5) fail("move-only argument and result"); break; }
    case 5: { itlib::ufunction<int&(int&)> f = ret_ref; int x = 1; if (&f(x) != &x) fail("reference result"); f = [](int& y) -> int& { return y; }; if (&f(x) != &x) fail("reference result"); break; }
    case 6: { itlib::ufunction<const int&()> f = ret_cref; if (&f() != &g_ret) fail("const reference result"); f = []() -> const int& { return g_ret; }; if (&f() != &g_ret) fail("const reference result"); break; }
    case 7: { int n = 0; itlib::ufunction<void()> f = [&n] { ++n; }; f(); f(); if (n != 2) fail("void"); f = [&n] { return ++n; }; f(); if (n != 3) fail("void from a result"); break; }
    case 8: { itlib::ufunction<long(char, short, const std::string&)> f = [](int a, int b, const std::string& s) { return a + b + int(s.size()); }; if (f(1, 2, "abc") != 6) fail("converted arguments"); break; }
    case 9: { int n = 0; auto l = [&n](int k) { n += k; return n; }; itlib::ufunction<int(int)> f = std::ref(l), g = std::ref(l); f(2); if (g(3) != 5) fail("reference_wrapper"); break; }
    case 10: { std::function<int(int)> s = Small(4); itlib::ufunction<int(int)> f = s; if (f(1) != 140 || s(1) != 140 || f(1) != 141) fail("a std::function is copied in"); itlib::ufunction<int(int)> g = std::move(s); if (g(1) != 141) fail("a std::function is moved in"); break; }
    case 11: { itlib::ufunction<int(int)> in = MoveF(3); itlib::ufunction<long(int)> f = std::move(in); if (f(1) != 130 || f(2) != 231) fail("a ufunction in a ufunction"); break; }
    case 12: { std::vector<int> log; { struct D { std::vector<int>* l; int id; D(std::vector<int>* a, int b) : l(a), id(b) {} D(D&& o) noexcept : l(o.l), id(o.id) { o.l = nullptr; } ~D() { if (l) l->push_back(id); } void operator()() { l->push_back(id + 10); } };
        itlib::ufunction<void()> f = D(&log, 1); f(); f = D(&log, 2); f(); f = nullptr; f = D(&log, 3); itlib::ufunction<void()> g = std::move(f); f = D(&log, 4); g(); g = std::move(f); g(); } if (log != std::vector<int>{11, 1, 12, 2, 13, 3, 14, 4}) fail("order of calls and destruction"); break; }
    }
}
static_assert(!std::is_copy_constructible<F>::value && !std::is_copy_assignable<F>::value && std::is_nothrow_move_constructible<F>::value && std::is_nothrow_move_assignable<F>::value, "");
static_assert(!std::is_constructible<bool, F>::value == false && !std::is_convertible<F, bool>::value, "");
template <class W> static void hist(const char* name, Cfg c, int depth, int tdepth) { add(name, [=] { static Cfg k; k = c; explore_bfs<W>(k, BfsOpt{thorough ? tdepth : depth, thorough ? 3 : 2}); }); }
void mc_setup() {
    hist<World>("all", Cfg{{SMALL, BIG, OVER, MOVEF, CONSTF, THROWER, TMOVE}}, 3, 4);
    hist<World>("small_moveonly", Cfg{{SMALL, MOVEF}}, 5, 6); hist<World>("big_over", Cfg{{BIG, OVER}}, 5, 6); hist<World>("thrower_const", Cfg{{THROWER, CONSTF}}, 5, 6);
    add("signatures", [] { explore_choices(signatures); });
}

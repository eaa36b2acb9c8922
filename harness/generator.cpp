// G01: generator yields exactly the produced sequence, with safe lifetime
#include "tracked.hpp"
#include <itlib/generator.hpp>
#include <itlib/generator.hpp>
#include <iterator>
#include <functional>
using namespace mc;
struct Script { int n, end, style; };   // n values, then 0 return, 1 throw, 2 a throwing copy in co_yield; style: 0 temporaries, 1 a local, 2 exceptions caught inside, 3 elements of a pool
static std::vector<int> steps, touched;   // touched: the last value of a coroutine changed through its reference
 static std::vector<int> locals_alive, params_alive, destroyed;
struct Local { int id; Local(int i) : id(i) { ++locals_alive[i]; } Local(const Local&) = delete; ~Local() { if (--locals_alive[id] < 0) fail("a local of the coroutine was destroyed twice"); } };
struct Param { int id; Tracked t; Param(int i) : id(i), t(-5) { ++params_alive[i]; } Param(Param&& o) : id(o.id), t(std::move(o.t)) { ++params_alive[id]; } ~Param() { if (--params_alive[id] < 0) fail("a parameter of the coroutine was destroyed twice"); } };
static Tracked* pool;
template <class T> struct Val;       // how a generator of T yields, and what its values are
struct ByValue {
    template <class O> static int read(O& o) { return o.get(); }
};
template <> struct Val<Tracked> : ByValue { typedef Tracked E; static constexpr bool ref = false, copyable = true; };
template <> struct Val<MoveOnly> : ByValue { typedef MoveOnly E; static constexpr bool ref = false, copyable = false; };
template <> struct Val<Tracked&> : ByValue { typedef Tracked E; static constexpr bool ref = true, copyable = true; };
template <> struct Val<const Tracked&> : ByValue { typedef Tracked E; static constexpr bool ref = true, copyable = true; };
template <> struct Val<int> { typedef int E; static constexpr bool ref = false, copyable = true; static int read(int i) { return i; } };
template <> struct Val<const int> { typedef const int E; static constexpr bool ref = false, copyable = true; static int read(int i) { return i; } };
// nobody holds a yielded value any more when the coroutine goes on
template <class E> static void gone(int v) { if constexpr (is_tracked<E>::value) for (auto p : reg.slot) if (p && *static_cast<const int*>(p) == v) fail("the value which was pulled before is still alive while the next one is produced"); }
static int value_of(int frame, int i) { return frame * 10 + i + 1; }
template <class T> itlib::generator<T> coro(Param p, int id, Script s) {
    typedef typename Val<T>::E E; typedef std::remove_const_t<E> M;
    Local l1(id); steps[id] = 0;
    M keep(0); 
    for (int i = 0; i < s.n; ++i) {
        Local l2(id);
        if (s.style == 2) { try { Local l3(id); throw 5; } catch (int) {} }
        int v = value_of(id, i);
        if constexpr (std::is_same_v<T, Tracked&>) { if (s.style == 1) { keep = M(v); co_yield keep; if (keep.get() != v + (touched[id] == i ? 1000 : 0)) fail("the change through the reference is not visible in the coroutine"); } else { pool[id * 4 + i].v = v; co_yield pool[id * 4 + i]; if (pool[id * 4 + i].get() != v + (touched[id] == i ? 1000 : 0)) fail("the change through the reference is lost"); } }
        else if constexpr (std::is_same_v<T, const Tracked&>) { if (s.style == 1) { keep = M(v); co_yield keep; } else if (s.style == 3) { pool[id * 4 + i].v = v; co_yield pool[id * 4 + i]; } else co_yield M(v); }
        else if constexpr (Val<T>::copyable) { if (s.style == 1) { keep = M(v); co_yield keep; if (Val<T>::read(keep) != v) fail("yielding a local modified it"); } else { co_yield M(v); gone<E>(v); } }
        else { if (s.style == 1) { keep = M(v); co_yield std::move(keep); } else co_yield M(v); gone<E>(v); }
        steps[id] = i + 1;
    }
    steps[id] = s.n;
    if (s.end == 1) { Local l4(id); throw Boom{100 + id}; }
    if (s.end == 2) { if constexpr (std::is_same_v<T, Tracked>) { keep = M(7); throw_in = 1; co_yield keep; fail("the copy did not throw"); } else throw Boom{100 + id}; }
    steps[id] = 100 + s.n;
}
struct Cfg { std::vector<Script> scripts; int iters; };
template <class T> struct World {
    typedef itlib::generator<T> G; typedef typename G::pseudo_iterator It;
    struct Frame { Script s; int pos = 0; bool started = false, finished = false, alive = true; int cur = -1; };   // pos values were produced; cur: index of the value an iterator may look at
    const Cfg& c; std::optional<G> g[2]; int fr[2] = {-1, -1}; std::vector<Frame> f; std::optional<It> it; int itf = -1; Tracked poolv[24];
    World(const Cfg& cfg) : c(cfg) { throw_in = 0; steps.clear(); touched.clear(); locals_alive.clear(); params_alive.clear(); reset_counts(); pool = poolv; }
    ~World() { Quiet q; it.reset(); g[0].reset(); g[1].reset(); }
    enum { NEW, ASSIGN_NEW, NEXT, BEGIN, INC, DEREF, MOVE, MOVE_CTOR, RESET, DESTROY, SELF, SWAP, REST, BREAK, VECTOR, TAKE };
    static std::string text(const Cfg& c, const Op& o) {
        static const char* n[] = {"create", "= new generator", "next", "begin", "++", "deref", "= move(other)", "move construct", "reset", "destroy", "= move(self)", "swap", "range-for to the end", "range-for, break after the first", "grow a vector of generators", "move the value out of the iterator"};
        std::string r = std::string(o.b ? "g1 " : "g0 ") + n[o.code]; if (o.code <= ASSIGN_NEW) { auto& s = c.scripts[size_t(o.a)]; r += " (yields " + std::to_string(s.n) + (s.end ? s.end == 1 ? ", throws" : ", throws in a copy" : "") + ", style " + std::to_string(s.style) + ")"; } return r;
    }
    Frame* of(int i) { return fr[i] < 0 ? nullptr : &f[size_t(fr[i])]; }
    void enumerate(std::vector<Op>& out) {
        for (int i = 0; i < 2; ++i) {
            if (f.size() < 4) for (int s = 0; s < int(c.scripts.size()); ++s) out.push_back(Op{g[i] ? ASSIGN_NEW : NEW, s, i, 0});
            if (!g[i]) { if (g[!i] && i == 1) out.push_back(Op{MOVE, 0, i, 0}); continue; }
            if (of(i)) { out.push_back(Op{NEXT, 0, i, 0}); out.push_back(Op{REST, 0, i, 0}); if (c.iters) { out.push_back(Op{BEGIN, 0, i, 0}); out.push_back(Op{BREAK, 0, i, 0}); } }
            if (g[!i]) out.push_back(Op{MOVE, 0, i, 0});
            for (int code : {MOVE_CTOR, RESET, DESTROY, SELF, VECTOR}) out.push_back(Op{code, 0, i, 0});
        }
        if (g[0] && g[1]) out.push_back(Op{SWAP, 0, 0, 0});
        if (it && f[size_t(itf)].alive) { Frame& k = f[size_t(itf)]; if (!k.finished) { out.push_back(Op{INC, 0, 0, 0}); out.push_back(Op{INC, 1, 0, 0}); if (k.cur >= 0) { out.push_back(Op{DEREF, 0, 0, 0}); if (!Val<T>::ref) out.push_back(Op{TAKE, 0, 0, 0}); } } }
    }
    int make(int s) { int id = int(f.size()); f.push_back(Frame{c.scripts[size_t(s)]}); steps.push_back(-1); touched.push_back(-1); locals_alive.push_back(0); params_alive.push_back(0); return id; }
    void kill(int& i) { if (i >= 0) f[size_t(i)].alive = false; i = -1; }
    // what one resumption must do: 0 a value, 1 the end, 2 an exception
    int advance(Frame& k) { if (k.finished) return 1; k.started = true; k.cur = -1; if (k.pos < k.s.n) { ++k.pos; return 0; } k.finished = true; return k.s.end ? 2 : 1; }
    template <class F> int call(int id, F fn) { try { return fn() ? 0 : 1; } catch (Boom& b) { throw_in = 0; int want = f[size_t(id)].s.end == 2 && std::is_same_v<T, Tracked> ? 1 : 100 + id; if (b.v != want) fail("another exception came out: %d", b.v); return 2; } }
    template <class V> void check(V& v, int id, bool change) {
        Frame& k = f[size_t(id)]; int i = k.pos - 1, want = value_of(id, i); auto& r = const_cast<std::remove_const_t<std::remove_reference_t<V>>&>(v);
        if constexpr (std::is_same_v<T, Tracked&>) { if (k.s.style != 1 && &r != &pool[id * 4 + i]) fail("the reference refers to another object"); int got = r.get(); bool was = touched[id] == i; if (change) { r.v = want + 1000; touched[id] = i; } if (got != (was ? want + 1000 : want)) fail("got the value %d, expected %d", got, want); }
        else { if constexpr (std::is_same_v<T, const Tracked&>) if (k.s.style == 3 && &r != &pool[id * 4 + i]) fail("the reference refers to another object"); int got = Val<T>::read(r); if (got != want) fail("got the value %d, expected %d", got, want); }
    }
    void same(int got, int want, const char* w) { static const char* n[] = {"a value", "the end", "an exception"}; if (got != want) fail("%s: gave %s, expected %s", w, n[got], n[want]); }
    void apply(const Op& o) {
        int i = o.b; auto& x = g[i]; long c0 = n_copies; int copies_allowed = 0;
        switch (o.code) {
        case NEW: { int id = make(o.a); x.emplace(coro<T>(Param(id), id, c.scripts[size_t(o.a)])); fr[i] = id; break; }
        case ASSIGN_NEW: { int id = make(o.a); auto& r = (*x = coro<T>(Param(id), id, c.scripts[size_t(o.a)])); if (&r != &*x) fail("result"); kill(fr[i]); fr[i] = id; break; }
        case NEXT: { Frame& k = *of(i); copies_allowed = k.s.style == 1; int want = advance(k);
            int got = call(fr[i], [&] { auto v = x->next(); if (v.has_value() != bool(v)) fail("has_value and bool differ"); if (v) { check(*v, fr[i], true); if constexpr (!Val<T>::ref) { auto w = std::move(v); check(*w, fr[i], false); if (&*w == &*v) fail("?"); } } return bool(v); });
            same(got, want, "next"); break; }
        case BEGIN: { Frame& k = *of(i); copies_allowed = k.s.style == 1; int want = advance(k); int id = fr[i]; std::optional<It> n; int got = call(id, [&] { n.emplace(x->begin()); return ends(*n); }); same(got, want, "begin"); if (n) { it = n; itf = id; } if (want == 0) k.cur = k.pos - 1; break; }
        case INC: { Frame& k = f[size_t(itf)]; copies_allowed = k.s.style == 1; int want = advance(k); It copy = *it; It& target = o.a ? copy : *it; int got = call(itf, [&] { auto& r = ++target; if (&r != &target) fail("result of ++"); return ends(target); }); same(got, want, "++"); if (want == 0) k.cur = k.pos - 1; break; }
        case DEREF: { It& t = *it; auto&& a = *t; check(a, itf, false); auto&& b = *t; if (std::addressof(a) != std::addressof(b)) fail("two dereferences give different objects"); check(b, itf, true); break; }
        case TAKE: if constexpr (!Val<T>::ref && !std::is_const_v<T>) { auto w = std::move(**it); check(w, itf, false); f[size_t(itf)].cur = -1; } break;
        case MOVE: { if (!x) { x.emplace(std::move(*g[!i])); } else { auto& r = (*x = std::move(*g[!i])); if (&r != &*x) fail("result"); } kill(fr[i]); fr[i] = fr[!i]; fr[!i] = -1; break; }
        case MOVE_CTOR: { G t(std::move(*x)); if (*x) fail("a moved-from generator is not empty"); if (bool(t) != (fr[i] >= 0)) fail("the new generator"); G u = std::move(t); if (t) fail("a moved-from generator is not empty"); *x = std::move(u); break; }
        case RESET: x->reset(); if (*x) fail("reset"); kill(fr[i]); break;
        case DESTROY: x.reset(); kill(fr[i]); break;
        case SELF: { auto& y = *x; *x = std::move(y); break; }
        case SWAP: std::swap(*g[0], *g[1]); std::swap(fr[0], fr[1]); break;
        case VECTOR: { std::vector<G> v; v.push_back(std::move(*x)); int id = make(0); v.push_back(coro<T>(Param(id), id, c.scripts[0])); id = make(0); v.emplace_back(coro<T>(Param(id), id, c.scripts[0])); *x = std::move(v[0]); f.resize(f.size() - 2); v.clear(); for (int n = 0; n < 2; ++n) { if (params_alive.back() || locals_alive.back()) fail("a generator in a vector was not destroyed"); steps.pop_back(); touched.pop_back(); params_alive.pop_back(); locals_alive.pop_back(); } break; }
        case REST: case BREAK: { Frame& k = *of(i); int id = fr[i]; copies_allowed = k.s.style == 1 ? 100 : 0; bool left = false; int seen = 0, want = -1;
            int got = call(id, [&] { for (auto&& v : *x) { if ((want = advance(k)) != 0) fail("the loop gave a value past the end"); k.cur = k.pos - 1; check(v, id, true); ++seen; if (o.code == BREAK) { left = true; break; } } return left; });
            if (!left) { want = advance(k); same(got, want, "range-for"); } break; }
        }
        if (n_copies - c0 > copies_allowed) fail("values were copied");
    }
    bool ends(It& n) { typename It::end_t e; bool at = n == e; if (at != (e == n) || at == (n != e) || at == (e != n)) fail("comparisons with the end disagree"); return !at; }
    void observe(Key& key) {
        for (int i = 0; i < 2; ++i) { key.add(!!g[i]); if (!g[i]) continue; if (bool(*g[i]) != (fr[i] >= 0)) fail("operator bool is %d", bool(*g[i])); if (fr[i] >= 0) { Frame& k = f[size_t(fr[i])]; if (g[i]->done() != k.finished) fail("done() is %d", g[i]->done()); key.add(k.s.n * 16 + k.s.end * 4 + k.s.style); key.add(k.pos * 4 + k.started * 2 + k.finished); key.add(k.cur); key.add(fr[i] == itf ? 1 : 0); } else key.add(-1); }
        key.add(std::min<int>(int(f.size()), 4)); key.add(it ? f[size_t(itf)].alive ? 2 : 1 : 0);
        for (size_t j = 0; j < f.size(); ++j) { Frame& k = f[j];
            if (params_alive[j] != (k.alive ? 1 : 0)) fail("%d coroutine frames are alive where there should be %d", params_alive[j], int(k.alive));
            bool in = k.alive && k.started && !k.finished; if ((locals_alive[j] != 0) != in) fail("the locals of the coroutine are %s", in ? "gone" : "still alive");
            int want = !k.started ? -1 : k.finished ? (k.s.end ? k.s.n : 100 + k.s.n) : k.pos - 1; if (k.alive && steps[j] != want) fail("the coroutine ran to step %d, it was asked for %d", steps[j], want);
            if (it && size_t(itf) == j && k.alive && ends(*it) == k.finished) fail("the iterator does not know about the end");
            if (it && size_t(itf) == j && k.alive && k.cur >= 0 && !k.finished) check(**it, itf, false);
        }
    }
    void finish() { g[0].reset(); g[1].reset(); for (size_t j = 0; j < f.size(); ++j) if (params_alive[j] || locals_alive[j]) fail("a coroutine frame leaked"); if (reg.live != 24) fail("%zd objects leaked", ssize_t(reg.live) - 24); }
};
// generators made of generators
struct Tree { int v; std::vector<Tree> kids; };
static Tree grow(int& budget, int& next, int depth) { Tree t{next++, {}}; while (budget > 0 && depth < 3 && choose(2)) { --budget; t.kids.push_back(grow(budget, next, depth + 1)); } return t; }
static void flat(const Tree& t, std::vector<int>& out) { out.push_back(t.v); for (auto& k : t.kids) flat(k, out); }
static itlib::generator<const Tree&> walk(const Tree& t, int bad) { if (t.v == bad) throw Boom{t.v}; co_yield t; for (auto& k : t.kids) for (auto& s : walk(k, bad)) co_yield s; }
static itlib::generator<int> map(itlib::generator<const Tree&> in, std::function<int(int)> fn) { while (auto v = in.next()) co_yield fn((*v).v); }
static itlib::generator<int> filter(itlib::generator<int> in, int m) { for (int v : in) if (v % m) co_yield v; }
static void nested() {
    int budget = 5, next = 1; Tree t = grow(budget, next, 0); std::vector<int> all; flat(t, all); int bad = choose(next + 1), m = choose_of({2, 3, 100}), stop = choose(int(all.size()) + 1), how = choose(2);
    std::vector<int> want, got; bool wt = false, gt = false; for (int v : all) { if (v == bad) { wt = true; break; } if (v * 7 % m) want.push_back(v * 7); } if (int(want.size()) > stop) { want.resize(size_t(stop)); wt = false; } else if (int(want.size()) == stop) wt = false;
    { auto g = filter(map(walk(t, bad), [](int v) { return v * 7; }), m); int n = 0;
      try { if (how) { if (stop) for (int v : g) { got.push_back(v); if (++n == stop) break; } } else while (n < stop) { auto v = g.next(); if (!v) break; got.push_back(v.value()); ++n; } } catch (Boom& b) { gt = true; if (b.v != bad) fail("another exception"); } if (gt && !g.done()) fail("not done after an exception"); }
    if (want != got) fail("nested generators gave %zu values, expected %zu", got.size(), want.size()); if (gt != wt) fail("exception from a nested generator: %d, expected %d", gt, wt);
    outcome(int(got.size()) * 2 + gt);
}
static_assert(std::is_same_v<itlib::generator<int>::value_ret_t, int&> && std::is_same_v<itlib::generator<int&>::value_ret_t, int&> && std::is_same_v<itlib::generator<const int&>::value_ret_t, const int&>);
static_assert(!std::is_copy_constructible_v<itlib::generator<int>> && !std::is_copy_assignable_v<itlib::generator<int>> && std::is_nothrow_move_constructible_v<itlib::generator<int>> && std::is_nothrow_move_assignable_v<itlib::generator<int>>);
static_assert(std::is_same_v<itlib::generator<const int&>::pseudo_iterator::value_type, int>);
template <class T> static void hist(const char* name, Cfg c, int depth, int tdepth) { add(name, [=] { static Cfg k; k = c; explore_bfs<World<T>>(k, BfsOpt{thorough ? tdepth : depth, thorough ? 3 : 2}); }); }
template <class T> static void all(const std::string& n, int D = 0) {
    std::vector<Script> every; for (int y = 0; y <= 3; ++y) for (int e = 0; e < 3; ++e) for (int s = 0; s < 4; ++s) every.push_back(Script{y, e, s});
    static std::vector<std::string> names; names.reserve(64);
    names.push_back(n + "_all"); hist<T>(names.back().c_str(), Cfg{every, 1}, 3, 4);
    names.push_back(n + "_return"); hist<T>(names.back().c_str(), Cfg{{{3, 0, 0}, {0, 0, 0}}, 1}, 7 + D, 9 + D);
    names.push_back(n + "_throw"); hist<T>(names.back().c_str(), Cfg{{{1, 1, 2}, {2, 1, 1}}, 1}, 6 + D, 8 + D);
    names.push_back(n + "_mixed"); hist<T>(names.back().c_str(), Cfg{{{2, 0, 3}, {1, 2, 1}, {0, 1, 0}}, 1}, 6 + D, 8 + D);
}
void mc_setup() {
    all<Tracked>("value"); all<Tracked&>("ref"); all<const Tracked&>("cref"); all<MoveOnly>("moveonly"); all<int>("int"); all<const int>("cint");
    add("nested", [] { explore_choices(nested); });
}

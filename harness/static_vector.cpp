// V04, V05: itlib::static_vector explored in lockstep with a bounded std::vector.
#include "seq.hpp"
#include <itlib/static_vector.hpp>
using namespace mc; using namespace seq;

template <class E_, size_t N, bool Copyable = true>
struct SV : Base {
    using E = E_;
    using V = itlib::static_vector<E, N>;
    using Bigger = itlib::static_vector<E, N + 2>;
    static constexpr bool copyable = Copyable, bounded = true;
    static constexpr int cap = int(N), val_limit = 0;
    static void reset() {}
    static void finish() {}
    template <class X> static int alloc_id(int id) { return id; }
    template <class... Args> static void construct(Guarded<V>& g, int, Args&&... args) { g.make(args...); }
    template <class F> static void check_ret(V&, V&, F f) { f(); }
    template <class F> static void resize_ret(V&, F f) { f(); }
    static bool is_static(const V&) { return true; }
    static int new_value() { return 0; }
    static E& emplace_back(V& v, int x) { if constexpr (std::is_same<E, std::string>::value) return v.emplace_back(make<E>(x)); else return v.emplace_back(x); }
    template <class It> static typename V::iterator emplace(V& v, It it, int x) { if constexpr (std::is_same<E, std::string>::value) return v.emplace(it, make<E>(x)); else return v.emplace(it, x); }
    static void swap(V& a, V& b) { a.swap(b); }
    static void check_copied(V&, const V&) {}
    static void check_moved(V&, const E*, bool, size_t) {}
    static bool alloc_is(V&, int) { return true; }
    static void shrink_to_fit(V&) {}
    static void placement(V&, int, const E*, size_t, size_t, bool, size_t, long) {}
    static void placement_new(V&, int, size_t, long) {}
    static void state(V& v, Guarded<V>& g, Key&) {
        const V& c = v;
        if (!g.holds(c.data()) || !g.holds(reinterpret_cast<const char*>(c.data() + N) - 1)) fail("the elements are not stored inside the object");
        if (c.capacity() != N || c.max_size() != N || V::capacity() != N) fail("capacity is wrong");
    }
    static void blocks(V&, V*) {}
    static void compare(V& a, V& b, bool eq) {
        const V &x = a, &y = b;
        if ((x == y) != eq || (y == x) != eq || (x != y) == eq) fail("operator==/!= gave the wrong answer");
    }
    static void compare_model(V& a, std::vector<int>& m) {
        Quiet q;
        Bigger o;
        for (int x : m) o.emplace_back(make<E>(x));
        if (!(a == o) || a != o || !(o == a)) fail("equal vectors of different capacity compare unequal");
        o.emplace_back(make<E>(m.empty() ? 1 : m[0] + 1));
        if (a == o || !(o != a)) fail("vector equals a longer one");
        o.pop_back();
        for (size_t i = 0; i < m.size(); ++i) { o[i] = make<E>(m[i] + 1); if (a == o || o == a) fail("vectors differing at %zu compare equal", i); o[i] = make<E>(m[i]); }
        if (!m.empty()) { o.pop_back(); if (a == o || o == a) fail("vector equals a shorter one"); }
    }
};
template <class P> void add_cfg(const char* name, Cfg c, int depth, int nomerge, int tdepth = 0) {
    add(name, [=] { static Cfg cfg; cfg = c; explore_bfs<World<P>>(cfg, BfsOpt{thorough && tdepth ? tdepth : depth, nomerge}); });
}
static Cfg T(Cfg c, int n) { c.throws = n; return c; }
static Cfg C(int a, int b, bool pair, bool bad, int lite) { Cfg c; c.init_a = a; c.init_b = b; c.max_size = 0; c.pair = pair; c.bad = bad; c.lite = lite; return c; }

void mc_setup() {
#if PROP == 4
#if PART == 0
    add_cfg<SV<int, 3>>("int_3", C(0, -1, false, true, 0), 4, 2, 6);
    add_cfg<SV<int, 1>>("int_1", C(0, -1, false, true, 0), 5, 2, 6);
#elif PART == 1
    add_cfg<SV<int, 4>>("int_pair_4", C(1, 4, true, true, 0), 3, 1, 4);
    add_cfg<SV<int, 5>>("int_5", C(3, -1, false, true, 1), 4, 1, 5);
#elif PART == 2
    add_cfg<SV<std::string, 3>>("string_pair_3", C(1, 3, true, false, 0), 3, 1, 4);
    add_cfg<SV<char, 7>>("char_7", C(6, -1, false, true, 1), 3, 1, 4);
#elif PART == 3
    add_cfg<SV<MoveOnly, 3, false>>("moveonly_pair_3", C(2, 1, true, false, 0), 4, 1, 5);
    add_cfg<SV<Tracked, 2>>("tracked_pair_2", C(0, 2, true, true, 0), 4, 1, 5);
#endif
#elif PROP == 5
#if PART == 0
    add_cfg<SV<Tracked, 3>>("tracked_3", C(0, -1, false, true, 0), 4, 2, 6);
    add_cfg<SV<Tracked, 1>>("tracked_1", C(0, 1, true, true, 0), 4, 2, 6);
#elif PART == 1
    add_cfg<SV<Tracked, 4>>("tracked_pair_4", C(1, 4, true, true, 0), 3, 1, 4);
    add_cfg<SV<OverAligned, 2>>("overaligned_pair_2", C(2, 1, true, false, 0), 3, 1, 4);
#elif PART == 2
    add_cfg<SV<ThrowMove, 3>>("throwmove_pair_3", C(0, 2, true, false, 0), 3, 1, 4);
    add_cfg<SV<CopyOnly, 3>>("copyonly_pair_3", C(1, 3, true, true, 0), 3, 1, 4);
#elif PART == 3
    add_cfg<SV<MoveOnly, 3, false>>("moveonly_pair_3", C(3, 0, true, false, 0), 4, 2, 5);
    add_cfg<SV<Tracked, 5>>("tracked_5", C(4, -1, false, true, 1), 4, 1, 5);
#endif
#elif PROP == 9
    // an element whose construction throws, at every place of every operation
#if PART == 0
    add_cfg<SV<Tracked, 3>>("tracked_3", T(C(0, -1, false, true, 0), 4), 4, 1, 6);
    add_cfg<SV<Tracked, 1>>("tracked_1", T(C(0, 1, true, true, 0), 2), 4, 1, 6);
#elif PART == 1
    add_cfg<SV<Tracked, 4>>("tracked_pair_4", T(C(1, 4, true, true, 0), 5), 3, 1, 4);
#elif PART == 2
    add_cfg<SV<OverAligned, 2>>("overaligned_pair_2", T(C(2, 1, true, false, 0), 3), 4, 1, 5);
    add_cfg<SV<Tracked, 5>>("tracked_5", T(C(4, -1, false, true, 1), 4), 4, 1, 5);
#elif PART == 3
    add_cfg<SV<MoveOnly, 3, false>>("moveonly_pair_3", T(C(3, 0, true, false, 0), 2), 4, 2, 5);
#endif
#endif
}

// V01, V02, V03: itlib::small_vector explored in lockstep with std::vector.
#include "seq.hpp"
#include <itlib/small_vector.hpp>
using namespace mc; using namespace seq;

template <class E_, size_t N, size_t R, class A = std::allocator<E_>, bool Copyable = true>
struct SV : Base {
    using E = E_;
    using V = itlib::small_vector<E, N, R, A>;
    static constexpr bool reserve = true, shrink = true, revert = true, copyable = Copyable, bad_positions = true;
    static constexpr bool alloc = !std::is_same<A, std::allocator<E>>::value, alloc_ctor = alloc;
    static constexpr int cap = int(N), revert_below = int(R), val_limit = 0;
    static void reset() {}
    static void finish() {}
    template <class X> static int alloc_id(int id) { return id; }
    template <class... Args> static void construct(Guarded<V>& g, int id, const Args&... args) { if constexpr (alloc) g.make(args..., A(id)); else { (void)id; g.make(args...); } }
    template <class F> static void check_ret(V&, V&, F f) { f(); }
    template <class F> static void resize_ret(V&, F f) { f(); }
    static bool is_static(const V& v) { return v.is_static(); }
    static int new_value() { return 0; }
    static E& emplace_back(V& v, int x) { if constexpr (std::is_same<E, std::string>::value) return v.emplace_back(make<E>(x)); else return v.emplace_back(x); }
    template <class It> static typename V::iterator emplace(V& v, It it, int x) { if constexpr (std::is_same<E, std::string>::value) return v.emplace(it, make<E>(x)); else return v.emplace(it, x); }
    static void swap(V& a, V& b) { std::swap(a, b); }
    static void check_copied(V& v, const V& s) { if constexpr (alloc) { if (v.get_allocator() != std::allocator_traits<A>::select_on_container_copy_construction(s.get_allocator())) fail("copy has the wrong allocator"); } }
    static void check_moved(V& v, const E* d, bool st, size_t) { if (!st && v.data() != d) fail("moving a vector in dynamic memory did not hand over its buffer"); }
    static bool alloc_is(V& v, int id) { if constexpr (alloc) return v.get_allocator().id == id; else return true; }
    static void shrink_to_fit(V& v) {
        const E* d = v.data(); size_t c = v.capacity();
        bool r = v.shrink_to_fit();
        if (r != (v.data() != d)) fail("shrink_to_fit returned %d but data %s", r, v.data() != d ? "moved" : "did not move");
        if (!r && v.capacity() != c) fail("shrink_to_fit returned false but changed the capacity");
        if (v.size() <= N) { if (!v.is_static()) fail("shrink_to_fit left %zu elements in dynamic memory although %zu fit inside", v.size(), N); }
        else if (v.capacity() != v.size()) fail("capacity %zu after shrink_to_fit of %zu elements", v.capacity(), v.size());
    }
    static void placement(V& v, int code, const E* d0, size_t cap0, size_t size0, bool st0, size_t peak, long allocs) {
        bool removing = code == POP || code == ERASE || code == ERASE_R || code == CLEAR || ((code == RESIZE || code == RESIZE_V || code == A_RESIZE) && v.size() < size0);
        bool growing = code == PUSH_C || code == PUSH_M || code == EMPLACE_B || code == DEF_EMPLACE_B || (code >= INS_C && code <= EMPLACE) || code == RESERVE || (code >= A_PUSH && code <= A_PUSH_MOVE_OUT) || code == RESIZE || code == RESIZE_V;
        if (code == ASSIGN_IL) return;      // partly goes through a temporary vector
        if (code == SWAP || code == MOVE_ASSIGN) { if (allocs && alloc) fail("swap or move assignment allocated"); return; }
        if (alloc && st0 && peak <= N && allocs) fail("allocation although %zu elements fit into the inline storage", peak);
        if (st0 && peak <= N && !v.is_static()) fail("left the inline storage although %zu elements fit", peak);
        if (alloc && peak <= cap0 && allocs && code != SHRINK && code != REVERT && code != COPY_ASSIGN && code != MOVE_ASSIGN && code != SWAP) fail("allocation although the capacity %zu was enough for %zu", cap0, peak);
        if (removing) {
            if (v.is_static() && !st0) {
                if (!(R > 0 && v.size() < R)) fail("reverted to the inline storage at size %zu, threshold %zu", v.size(), R);
            } else {
                if (v.data() != d0 || v.capacity() != cap0) fail("removing elements moved the storage");
                if (!st0 && v.size() < R && v.size() < size0 && code != RESIZE && code != RESIZE_V && code != A_RESIZE) fail("size fell to %zu, below the revert threshold %zu, but the storage is still dynamic", v.size(), R);
                if (!st0 && code == CLEAR && R > 0) fail("clear did not revert to the inline storage");
            }
        } else if (growing && peak <= cap0) {
            if (v.data() != d0 || v.capacity() != cap0) fail("storage changed although capacity %zu was enough for %zu", cap0, peak);
        } else if (code == SET || code == SELF_COPY || code == SELF_MOVE) {
            if (v.data() != d0 || v.capacity() != cap0) fail("storage changed by an operation that must not touch it");
        }
        if (code == MOVE_ASSIGN && alloc && allocs) fail("move assignment allocated");
    }
    static void placement_new(V& v, int, size_t peak, long allocs) { (void)peak; if (alloc && v.size() <= N && allocs) fail("constructing %zu elements allocated", v.size()); if (v.size() <= N && peak <= N && alloc && allocs) fail("allocated"); }
    static void state(V& v, Guarded<V>& g, Key& k) {
        const V& c = v;
        bool in = g.holds(c.data());
        if (c.is_static() != in) fail("is_static is %d but the elements are %s the object", c.is_static(), in ? "inside" : "outside");
        if (in && c.capacity() != N) fail("inline capacity reported as %zu, is %zu", c.capacity(), N);
        if (!in && c.capacity() <= N && N) fail("dynamic capacity %zu not above the inline capacity", c.capacity());
        if constexpr (alloc) if (!in) {
            auto b = alog.containing(c.data());
            if (!b || b->p != c.data()) fail("elements are not in memory from the allocator");
            if (b->n != c.capacity()) fail("capacity %zu but %zu elements were allocated", c.capacity(), b->n);
            if (b->id != c.get_allocator().id) fail("memory comes from allocator %d, the vector's is %d", b->id, c.get_allocator().id);
        }
        k.add(in); k.add(int64_t(c.capacity()));
        if constexpr (alloc) k.add(c.get_allocator().id);
    }
    static void blocks(V& a, V* b) {
        if constexpr (alloc) { size_t n = !a.is_static() + (b && !b->is_static()); if (alog.blocks.size() != n) fail("%zu blocks allocated for %zu dynamic vectors", alog.blocks.size(), n); }
        (void)a; (void)b;
    }
    static void compare(V& a, V& b, bool eq) {
        const V &x = a, &y = b;
        if ((x == y) != eq || (y == x) != eq || (x != y) == eq) fail("operator==/!= gave the wrong answer");
    }
    static void compare_model(V& a, std::vector<int>& m) {
        if constexpr (Copyable) {
            Quiet q;
            itlib::small_vector<E, N + 3, 0> o; o.reserve(m.size() + 2);
            for (int x : m) o.push_back(make<E>(x));
            if (!(a == o) || a != o || !(o == a)) fail("equal vectors of different inline capacity compare unequal");
            o.push_back(make<E>(m.empty() ? 1 : m[0] + 1));
            if (a == o || !(o != a)) fail("vector equals a longer one");
            o.pop_back();
            for (size_t i = 0; i < m.size(); ++i) { o[i] = make<E>(m[i] + 1); if (a == o || o == a) fail("vectors differing at %zu compare equal", i); o[i] = make<E>(m[i]); }
            if (!m.empty()) { o.pop_back(); if (a == o || o == a) fail("vector equals a shorter one"); }
        }
    }
};
template <class P> void add_cfg(const char* name, Cfg c, int depth, int nomerge, int tdepth = 0) {
    add(name, [=] { static Cfg cfg; cfg = c; explore_bfs<World<P>>(cfg, BfsOpt{thorough && tdepth ? tdepth : depth, nomerge}); });
}
static Cfg C(int a, int b, int mx, bool faults, bool pair, bool bad, int lite, int from = -1) { Cfg c; c.init_a = a; c.init_b = b; c.max_size = mx; c.faults = faults; c.pair = pair; c.bad = bad; c.lite = lite; c.reserve_from = from; return c; }
static Cfg T(Cfg c, int n) { c.throws = n; return c; }
using TA = TrackAlloc<Tracked>;
using TAI = TrackAlloc<int>;


void mc_setup() {
#if PROP == 1
    // values: every operation, all positions, from empty and around the storage switch
#if PART == 0
    add_cfg<SV<int, 2, 0>>("int_2_0", C(0, -1, 6, false, false, true, 0), 4, 1, 5);
    add_cfg<SV<int, 1, 2>>("int_1_2_deep", C(0, -1, 4, false, false, false, 1), 7, 1, 9);
#elif PART == 1
    add_cfg<SV<int, 3, 3>>("int_3_3_dyn", C(5, -1, 7, false, false, true, 0), 3, 1, 4);
    add_cfg<SV<int, 16, 0>>("int_16_0_edge", C(15, -1, 19, false, false, false, 1), 3, 1, 4);
#elif PART == 2
    add_cfg<SV<std::string, 2, 1>>("string_2_1", C(1, -1, 5, false, false, false, 0), 3, 1, 4);
    add_cfg<SV<std::string, 2, 0>>("string_pair", C(1, 3, 5, false, true, false, 1), 4, 1, 5);
#elif PART == 3
    add_cfg<SV<MoveOnly, 2, 1, std::allocator<MoveOnly>, false>>("moveonly_2_1", C(1, 3, 5, false, true, true, 0), 4, 1, 5);
    add_cfg<SV<int, 2, 2>>("int_pair_2_2", C(2, 3, 4, false, true, false, 1), 5, 1, 6);
#endif
#elif PROP == 2
#if PART == 0
    add_cfg<SV<Tracked, 2, 0, TA>>("tracked_2_0", C(0, -1, 5, true, false, true, 0), 3, 1, 4);
    add_cfg<SV<Tracked, 2, 2, TA>>("tracked_2_2_dyn", C(4, -1, 6, true, false, true, 0), 3, 1, 4);
#elif PART == 1
    add_cfg<SV<Tracked, 1, 2, TA>>("tracked_1_2_deep", C(0, -1, 3, true, false, false, 1), 6, 1, 7);
    add_cfg<SV<Tracked, 2, 1, TA>>("tracked_pair", C(1, 3, 4, true, true, false, 1), 4, 1, 5);
#elif PART == 2
    add_cfg<SV<Tracked, 2, 3, TrackAlloc<Tracked, true>>>("tracked_pair_prop", C(2, 4, 4, true, true, false, 1), 3, 1, 4);
    add_cfg<SV<ThrowMove, 2, 0, TrackAlloc<ThrowMove>>>("throwmove_2_0", C(2, 2, 5, false, true, false, 1), 4, 1, 5);
#elif PART == 3
    add_cfg<SV<CopyOnly, 2, 1, TrackAlloc<CopyOnly>>>("copyonly_2_1", C(3, -1, 5, false, false, false, 1), 4, 1, 6);
    add_cfg<SV<MoveOnly, 2, 0, TrackAlloc<MoveOnly>, false>>("moveonly_2_0", C(1, 3, 5, true, true, false, 0), 4, 1, 5);
#endif
#elif PROP == 3
#if PART == 0
    add_cfg<SV<Tracked, 3, 0, TA>>("tracked_3_0", C(2, -1, 6, false, false, false, 1), 4, 1, 6);
    add_cfg<SV<Tracked, 3, 2, TA>>("tracked_3_2", C(3, -1, 6, false, false, false, 1), 4, 1, 6);
#elif PART == 1
    add_cfg<SV<int, 3, 4, TAI>>("int_3_4", C(3, -1, 6, false, false, false, 1), 5, 1, 6);
    add_cfg<SV<int, 3, 3, TAI>>("int_3_3_reserved", C(1, -1, 6, false, false, false, 1, 9), 5, 1, 6);
#elif PART == 2
    add_cfg<SV<int, 2, 0, TAI>>("int_2_0_deep", C(0, -1, 8, false, false, false, 1), 5, 1, 6);
    add_cfg<SV<OverAligned, 2, 1, TrackAlloc<OverAligned>>>("overaligned_2_1", C(1, 3, 4, false, true, false, 1), 4, 1, 5);
#elif PART == 3
    add_cfg<SV<char, 5, 0, TrackAlloc<char>>>("char_5_0_pair", C(5, 7, 8, false, true, false, 1), 3, 1, 4);
    add_cfg<SV<int, 16, 0, TAI>>("int_16_0_edge", C(16, -1, 26, false, false, false, 1), 3, 1, 4);
#endif
#elif PROP == 8
    // an element whose construction throws, at every place of every operation
#if PART == 0
    add_cfg<SV<Tracked, 2, 0, TA>>("tracked_2_0", T(C(0, -1, 5, true, false, false, 0), 4), 3, 1, 4);
    add_cfg<SV<Tracked, 2, 2, TA>>("tracked_2_2_dyn", T(C(4, -1, 6, false, false, false, 0), 4), 2, 1, 4);
#elif PART == 1
    add_cfg<SV<Tracked, 1, 2, TA>>("tracked_1_2_deep", T(C(0, -1, 3, false, false, false, 1), 3), 5, 1, 7);
    add_cfg<SV<Tracked, 2, 1, TA>>("tracked_pair", T(C(1, 3, 4, false, true, false, 1), 4), 4, 1, 5);
#elif PART == 2
    add_cfg<SV<Tracked, 2, 3, TrackAlloc<Tracked, true>>>("tracked_pair_prop", T(C(2, 4, 4, false, true, false, 1), 4), 3, 1, 4);
    add_cfg<SV<OverAligned, 3, 0>>("overaligned_3_0", T(C(2, -1, 5, false, false, false, 0), 3), 3, 1, 4);
#elif PART == 3
    add_cfg<SV<Tracked, 3, 4, TA>>("tracked_3_4", T(C(2, -1, 5, false, false, true, 0), 4), 3, 1, 4);
    add_cfg<SV<MoveOnly, 2, 0, TrackAlloc<MoveOnly>, false>>("moveonly_2_0", T(C(1, 3, 5, true, true, false, 0), 2), 4, 1, 5);
#endif
#endif
}

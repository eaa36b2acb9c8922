// V06, V07: itlib::pod_vector explored in lockstep with std::vector.
#include "seq.hpp"
#include <itlib/pod_vector.hpp>
using namespace mc; using namespace seq;

struct P3 { uint8_t x, y, z; static P3 of(int i) { return {uint8_t(i), uint8_t(i >> 8), 7}; } int get() const { return x | y << 8; } };
struct alignas(32) P32 { int v; int w[3]; static P32 of(int i) { return {i, {i, i, i}}; } int get() const { return (w[0] == v && w[2] == v) ? v : -5; } };
struct alignas(128) P128 { int v; static P128 of(int i) { P128 p; memset(&p, 0, sizeof p); p.v = i; return p; } int get() const { return v; } };
struct Big { int v; char pad[1500]; static Big of(int i) { Big b; memset(&b, i, sizeof b); b.v = i; return b; } int get() const { return pad[1499] == char(v) || v == 0 ? v : -6; } };

template <class E_, class A, bool Custom>
struct PV : Base {
    using E = E_;
    using V = itlib::pod_vector<E, A>;
    static constexpr bool reserve = true, shrink = true, pod = true, move_ops = false, alloc_ctor = Custom;
    static constexpr int val_limit = sizeof(E) == 1 ? 120 : 0;
    static void reset() { plog.reset(); }
    static void finish() { if (!plog.blocks.empty()) fail("%zu block(s) were never freed", plog.blocks.size()); }
    template <class X> static int alloc_id(int id) { return id; }
    template <class... Args> static void construct(Guarded<V>& g, int id, const Args&... args) { if constexpr (Custom) g.make(args..., A(id)); else { (void)id; g.make(args...); } }
    template <class F> static void check_ret(V& v, V&, F f) { E& r = f(); if (&r != v.data() + v.size() - 1) fail("push_back did not return the new element"); }
    template <class F> static void resize_ret(V& v, F f) {
        const E* d = v.data();
        bool r = f();
        if (r != (v.data() != d)) fail("returned %d but the data %s", r, v.data() != d ? "moved" : "did not move");
    }
    static bool is_static(const V&) { return false; }
    static int new_value() { return A::zero_fill_new() ? 0 : World<PV>::UNSPEC; }
    static E& emplace_back(V& v, int x) { return v.emplace_back(make<E>(x)); }
    template <class It> static typename V::iterator emplace(V& v, It it, int x) { return v.emplace(it, make<E>(x)); }
    static void swap(V& a, V& b) { const E *x = a.data(), *y = b.data(); a.swap(b); if (a.data() != y || b.data() != x) fail("swap did not exchange the buffers"); }
    static void check_copied(V&, const V&) {}
    static void check_moved(V& v, const E* d, bool, size_t) { if (v.data() != d) fail("moving did not hand over the buffer"); }
    static bool alloc_is(V& v, int id) { if constexpr (Custom) return v.get_allocator().id == id; else return true; }
    static void shrink_to_fit(V& v) {
        const E* d = v.data();
        bool r = v.shrink_to_fit();
        if (r != (v.data() != d)) fail("shrink_to_fit returned %d but the data %s", r, v.data() != d ? "moved" : "did not move");
        if (v.capacity() != v.size()) fail("capacity %zu after shrink_to_fit of %zu elements", v.capacity(), v.size());
    }
    static void placement(V& v, int code, const E* d0, size_t cap0, size_t, bool, size_t peak, long) {
        if (code == SHRINK || code == ASSIGN_IL || code == COPY_ASSIGN || code == MOVE_ASSIGN || code == SWAP) return;
        if (peak <= cap0 && (v.data() != d0 || v.capacity() != cap0)) fail("storage changed although capacity %zu was enough for %zu", cap0, peak);
    }
    static void placement_new(V&, int, size_t, long) {}
    static void state(V& v, Guarded<V>&, Key& k) {
        const V& c = v;
        if (c.byte_size() != c.size() * sizeof(E)) fail("byte_size is wrong");
        if constexpr (Custom) {
            if (c.capacity()) {
                auto b = plog.containing(c.data());
                if (!b) fail("elements are not in memory from the allocation policy");
                if (b->id != c.get_allocator().id) fail("memory belongs to allocator %d, the vector's is %d", b->id, c.get_allocator().id);
                if (reinterpret_cast<const char*>(c.data() + c.capacity()) > b->p + b->size) fail("capacity %zu exceeds the allocated block", c.capacity());
            }
            k.add(c.get_allocator().id);
            if (A::alloc_align() < alignof(E)) k.add(plog.phase);
        }
        k.add(int64_t(c.capacity()));
    }
    static void blocks(V& a, V* b) {
        if constexpr (Custom) { size_t n = (a.data() != nullptr) + (b && b->data()); if (plog.blocks.size() != n) fail("%zu blocks allocated for %zu vectors with storage", plog.blocks.size(), n); }
        (void)a; (void)b;
    }
    static void compare(V& a, V& b, bool eq) {
        const V &x = a, &y = b;
        if ((x == y) != eq || (y == x) != eq || (x != y) == eq) fail("operator==/!= gave the wrong answer");
    }
    static void compare_model(V& a, std::vector<int>& m) {
        V o; o.reserve(m.size() + 2);
        for (int x : m) o.push_back(make<E>(x));
        for (int x : m) if (idof(make<E>(x)) != x) return;     // adopted unspecified values
        for (size_t i = 0; i < m.size(); ++i) if (memcmp(&a[i], &o[i], sizeof(E))) return;
        if (!(a == o) || a != o || !(o == a)) fail("equal vectors compare unequal");
        o.push_back(make<E>(m.empty() ? 1 : m[0] + 1));
        if (a == o || !(o != a)) fail("vector equals a longer one");
        o.pop_back();
        for (size_t i = 0; i < m.size(); ++i) { o[i] = make<E>(m[i] + 1); if (a == o || o == a || !(a != o)) fail("vectors differing at %zu compare equal", i); o[i] = make<E>(m[i]); }
        if (!m.empty()) { o.pop_back(); if (a == o || o == a) fail("vector equals a shorter one"); }
        if (plog.blocks.size() > 2 + 1) fail("too many blocks");
    }
};
template <class E, class A, bool Custom> void add_cfg(const char* name, Cfg c, int depth, int nomerge, int tdepth = 0) {
    add(name, [=] { static Cfg cfg; cfg = c; explore_bfs<World<PV<E, A, Custom>>>(cfg, BfsOpt{thorough && tdepth ? tdepth : depth, nomerge}); });
}
static Cfg C(int a, int b, int mx, bool pair, int lite, int from = -1) { Cfg c; c.init_a = a; c.init_b = b; c.max_size = mx; c.pair = pair; c.lite = lite; c.reserve_from = from; return c; }

using Def = itlib::impl::pod_allocator;
template <bool E, size_t S, size_t W, bool Z = true, bool Sh = true> using PA = PodAlloc<16, E, S, W, Z, Sh>;

void mc_setup() {
#if PROP == 6
#if PART == 0
    add_cfg<int, Def, false>("int_default", C(0, -1, 5, false, 0), 3, 1, 4);
    add_cfg<uint8_t, Def, false>("byte_default", C(3, -1, 6, false, 1), 4, 1, 5);
#elif PART == 1
    add_cfg<P3, PA<false, 0, 6>, true>("p3_realloc", C(0, -1, 5, false, 1), 5, 1, 6);
    add_cfg<int, PA<true, 24, 0, false>, true>("int_expand", C(2, -1, 6, false, 1), 5, 1, 6);
#elif PART == 2
    add_cfg<P32, Def, false>("p32_pair", C(1, 3, 4, true, 1), 4, 1, 5);
    add_cfg<Big, Def, false>("big_default", C(3, -1, 6, false, 1, 4), 3, 1, 4);
#elif PART == 3
    add_cfg<double, PA<false, 64, 4096, false>, true>("double_pair", C(1, 3, 4, true, 1), 4, 1, 5);
    add_cfg<int, PA<false, 0, 0>, true>("int_malloc_copy", C(3, -1, 5, false, 0), 3, 1, 4);
#endif
#elif PROP == 7
#if PART == 0
    add_cfg<int, PA<true, 20, 0>, true>("int_expand", C(0, -1, 5, false, 0), 3, 1, 4);
    add_cfg<P32, PA<true, 400, 0, true, false>, true>("p32_expand_noshrink", C(1, -1, 5, false, 1), 5, 1, 6);
#elif PART == 1
    add_cfg<P32, PA<false, 0, 4096>, true>("p32_realloc", C(0, -1, 5, false, 1), 5, 1, 6);
    add_cfg<P128, PodAlloc<8, false, 300, 4096, true>, true>("p128_align8", C(1, 2, 4, true, 1), 4, 1, 5);
#elif PART == 2
    add_cfg<int, PA<false, 0, 8>, true>("int_realloc_pair", C(1, 3, 5, true, 1), 4, 1, 5);
    add_cfg<P128, PodAlloc<1, true, 700, 0, false>, true>("p128_expand_align1", C(1, -1, 4, false, 1), 4, 1, 5);
#elif PART == 3
    add_cfg<P3, PA<false, 12, 4, true>, true>("p3_inplace", C(2, -1, 5, false, 0), 3, 1, 4);
    add_cfg<double, PodAlloc<4, false, 0, 0, false>, true>("double_align4", C(1, 2, 5, true, 1), 4, 1, 5);
#endif
#endif
}

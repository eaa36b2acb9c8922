// V07: pod_vector recasts. Every (source length, spare capacity, destination length, allocator ids, follow-up operations)
// within the bounds, compared byte by byte with what was in the source.
#include "tracked.hpp"
#include <itlib/pod_vector.hpp>
using namespace mc;

template <size_t N, size_t A> struct alignas(A) Blob { unsigned char b[N]; };
template <class T> T filled(int seed) { T t; unsigned char* p = reinterpret_cast<unsigned char*>(&t); for (size_t i = 0; i < sizeof(T); ++i) p[i] = (unsigned char)(seed * 37 + int(i) * 11 + 1); return t; }

template <class T, class A> using V = itlib::pod_vector<T, A>;
using Bytes = std::vector<unsigned char>;
template <class W> Bytes bytes(const W& v) { auto p = reinterpret_cast<const unsigned char*>(v.data()); return Bytes(p, p + v.size() * sizeof(typename W::value_type)); }

template <class W> void verify(const W& v, const Bytes& want, const char* what) {
    Quiet q;
    if (v.size() * sizeof(typename W::value_type) != want.size()) fail("%s: %zu elements, expected %zu", what, v.size(), want.size() / sizeof(typename W::value_type));
    if (v.byte_size() != want.size()) fail("%s: byte_size", what);
    if (v.capacity() < v.size()) fail("%s: capacity below size", what);
    if (reinterpret_cast<uintptr_t>(v.data()) % alignof(typename W::value_type)) fail("%s: misaligned storage", what);
    if (bytes(v) != want) fail("%s: wrong contents", what);
    if (v.capacity()) {
        auto b = plog.containing(v.data());
        if (!b) fail("%s: storage is not from the policy", what);
        if (b->id != v.get_allocator().id) fail("%s: storage belongs to another allocator", what);
        if (reinterpret_cast<const char*>(v.data() + v.capacity()) > b->p + b->size) fail("%s: capacity %zu exceeds the block", what, v.capacity());
    }
}
template <class T> void put(Bytes& b, size_t pos, const T& t, size_t n) {
    Quiet q; auto p = reinterpret_cast<const unsigned char*>(&t);
    for (size_t i = 0; i < n; ++i) b.insert(b.begin() + long(pos * sizeof(T)), p, p + sizeof(T));
}
template <class W> void more(W& v, Bytes& m, const char* who) {
    using T = typename W::value_type;
    int op = choose(9);
    size_t n = v.size();
    say("%s op %d", who, op);
    const T x = filled<T>(op + 50);
    switch (op) {
    case 0: break;
    case 1: v.push_back(x); put(m, n, x, 1); break;
    case 2: v.insert(v.begin(), x); put(m, 0, x, 1); break;
    case 3: v.insert(v.begin() + long(n / 2), 3, x); put(m, n / 2, x, 3); break;
    case 4: v.reserve(n + 5); break;
    case 5: v.shrink_to_fit(); if (v.capacity() != n) fail("shrink_to_fit left capacity %zu for %zu", v.capacity(), n); break;
    case 6: v.resize(n + 4, x); put(m, n, x, 4); break;
    case 7: if (n) { v.erase(v.begin()); Quiet q; m.erase(m.begin(), m.begin() + long(sizeof(T))); } break;
    case 8: { size_t c = v.capacity(); size_t k = c - n; Quiet q; for (size_t i = 0; i < k; ++i) { v.push_back(x); put(m, n + i, x, 1); } break; }   // fill up to the reported capacity
    }
    verify(v, m, who);
}

template <class T, class U, class A> void body() {
    Quiet all_of_it;                 // leaks are found through plog
    plog.reset();
    {
        if (A::alloc_align() < std::max(alignof(T), alignof(U))) plog.phase = unsigned(choose(3));
        int n = choose(5), spare = choose(4), take = choose(2), m = choose(3), ids = choose(2);
        V<U, A> src{A(1)};
        src.reserve(size_t(n + spare) + (spare == 3 ? 40 / sizeof(U) : 0));
        for (int i = 0; i < n; ++i) src.push_back(filled<U>(i));
        V<T, A> dst{A(ids ? 2 : 1)};
        for (int i = 0; i < m; ++i) dst.push_back(filled<T>(20 + i));

        Bytes all = bytes(src), want(all.begin(), all.begin() + long(all.size() / sizeof(T) * sizeof(T)));
        const void* d = src.data(); size_t cap = src.capacity();
        say("source of %d elements (%zu bytes each, capacity %zu), destination of %d elements (%zu bytes each), %s", n, sizeof(U), cap, m, sizeof(T), take ? "take" : "copy");
        if (take) {
            dst.recast_take_from(std::move(src));
            if (dst.data() != d) fail("recast_take_from did not take the buffer");
            if (src.size() || !src.empty() || src.capacity() || src.data()) fail("source is not empty after recast_take_from");
            if (dst.get_allocator().id != 1) fail("allocator did not move with the buffer");
            if (dst.capacity() != cap * sizeof(U) / sizeof(T)) fail("capacity %zu after taking %zu bytes", dst.capacity(), cap * sizeof(U));
            all.clear();
        } else {
            dst.recast_copy_from(src);
            if (src.data() != d || src.capacity() != cap) fail("recast_copy_from changed the source");
            if (dst.get_allocator().id != (ids ? 2 : 1)) fail("allocator changed by a copy");
        }
        verify(dst, want, "destination"); verify(src, all, "source");
        more(dst, want, "destination"); 
        verify(src, all, "source");
        more(dst, want, "destination");
        more(src, all, "source");
        verify(dst, want, "destination");
        if (choose(2)) {    // back again
            V<U, A> back{A(3)};
            size_t bs = want.size() / sizeof(U) * sizeof(U);
            Bytes w2(want.begin(), want.begin() + long(bs));
            if constexpr (alignof(U) <= alignof(T)) { back.recast_take_from(std::move(dst)); verify(back, w2, "second destination"); more(back, w2, "second destination"); verify(dst, Bytes(), "first destination"); }
            else { back.recast_copy_from(dst); verify(back, w2, "second destination"); }
        }
        if (plog.blocks.size() > 3) fail("too many blocks");
        Key k; k.add(int64_t(want.size())); k.add(int64_t(all.size())); k.add(int64_t(dst.capacity())); outcome(k);
    }
    if (!plog.blocks.empty()) fail("%zu blocks were never freed", plog.blocks.size());
}
template <class T, class U, class A> void add_cfg(const char* n) { add(n, [] { explore_choices(body<T, U, A>); }); }

void mc_setup() {
    using R = PodAlloc<16, false, 0, 16, true>;         // realloc
    using X = PodAlloc<16, true, 64, 0, false>;         // expand in place
    using UR = PodAlloc<1, false, 0, 4096, true>;       // no alignment guarantee
    using UX = PodAlloc<8, true, 512, 0, false>;        // expand, less aligned than the elements
#if PART == 0
    add_cfg<uint8_t, int, R>("byte_from_int");
    add_cfg<int, uint8_t, R>("int_from_byte");
    add_cfg<Blob<3, 1>, Blob<8, 8>, X>("blob3_from_blob8");
    add_cfg<Blob<8, 8>, Blob<12, 4>, X>("blob8_from_blob12");
    add_cfg<float, int, UR>("float_from_int_unaligned");
#elif PART == 1
    add_cfg<Blob<16, 16>, Blob<32, 32>, UR>("blob16_from_blob32_unaligned");
#elif PART == 2
    add_cfg<Blob<32, 16>, Blob<128, 128>, UX>("blob32_from_blob128_expand_unaligned");
    add_cfg<Blob<16, 16>, Blob<48, 16>, UX>("blob16_from_blob48_expand_unaligned");
#endif
}

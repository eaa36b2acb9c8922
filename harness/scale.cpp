// Objects whose sizes lie around 2^8, 2^16, 2^31 and 2^32: every value and position at which a counter or an offset could be
// too narrow. WHAT names the property; each of its checks also has the smaller, deeper explorations of its own harness.
#include "tracked.hpp"
using namespace mc;
// memory which costs nothing until it is touched; a file of 2 MB mapped again and again where it has to be written
struct Huge {
    char* p; size_t n;
    explicit Huge(size_t bytes, bool written = false) : n((bytes + (4u << 20)) & ~size_t((2u << 20) - 1)) {
        p = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (p == MAP_FAILED) fail("harness: no address space");
        if (written) {
            int fd = memfd_create("scale", 0); if (fd < 0 || ftruncate(fd, 2 << 20)) fail("harness: memfd");
            for (size_t i = 0; i < n; i += 2u << 20) if (mmap(p + i, 2 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) fail("harness: mapping");
            close(fd);
        }
    }
    Huge(const Huge&) = delete;
    ~Huge() { munmap(p, n); }
};
static const size_t G2 = size_t(1) << 31, G4 = size_t(1) << 32;

#if WHAT == 1 || WHAT == 2      // A01, A02: any with big and over-aligned values
#include <itlib/any.hpp>
static std::map<void*, std::pair<size_t, size_t>> blocks; static int fail_in;
static void* get(size_t n, size_t a) {
    if (fail_in > 0 && --fail_in == 0) throw std::bad_alloc();
    if (!n || !a || (a & (a - 1)) || n % a) fail("allocate_bytes(%zu, %zu)", n, a);
    void* p = nullptr; if (posix_memalign(&p, 2 * a, n + a)) fail("harness: no memory"); p = static_cast<char*>(p) + a; Quiet q; blocks[p] = {n, a}; return p;     // aligned as asked for and not more
}
static void put(void* p, size_t n, size_t a) {
    auto i = blocks.find(p); if (i == blocks.end()) fail("deallocation of a block which is not allocated");
    if (i->second != std::make_pair(n, a)) fail("block of %zu bytes aligned to %zu returned as %zu bytes aligned to %zu", i->second.first, i->second.second, n, a);
    { Quiet q; blocks.erase(i); } free(static_cast<char*>(p) - a);
}
struct EmptyAlloc { void* allocate_bytes(size_t n, size_t a) { return get(n, a); } void deallocate_bytes(void* p, size_t n, size_t a) noexcept { put(p, n, a); } };
struct IdAlloc { int id; explicit IdAlloc(int i = 0) : id(i) {} IdAlloc(const IdAlloc&) = default; void* allocate_bytes(size_t n, size_t a) { return get(n, a); } void deallocate_bytes(void* p, size_t n, size_t a) noexcept { put(p, n, a); }
    friend bool operator==(const IdAlloc& x, const IdAlloc& y) { return x.id == y.id; } friend bool operator!=(const IdAlloc& x, const IdAlloc& y) { return x.id != y.id; } };
struct DefAlloc : itlib::anyimpl::default_allocator { friend bool operator==(DefAlloc, DefAlloc) { return true; } };
template <size_t N, size_t A> struct alignas(A) Blob { unsigned char first, body[N - 2], last; explicit Blob(int v) : first(static_cast<unsigned char>(v)), last(static_cast<unsigned char>(v + 1)) { body[(N - 2) / 2] = first; } int value() const { if (reinterpret_cast<uintptr_t>(this) % A) fail("the value is not aligned to %zu", A); return last == static_cast<unsigned char>(first + 1) && body[(N - 2) / 2] == first ? first : -1; } };
template <class Al> static Al mk(int i) { if constexpr (std::is_constructible<Al, int>::value) return Al(i); else return Al(); }
template <class Al, class T, class U> static void pair_case() {
    typedef itlib::any<Al> A; fail_in = 0;
    {
        A a(std::allocator_arg, mk<Al>(1)), b(std::allocator_arg, mk<Al>(choose(2))); int av = -1, bv = -1, at = 0, bt = 0;      // type 1: T, 2: U
        auto check = [&](A& x, int t, int v, const char* n) {
            if (x.has_value() != (t != 0)) fail("%s: has_value() is wrong", n); if (t == 0) { if (x.type() != typeid(void)) fail("%s: type", n); return; }
            if (x.type() != (t == 1 ? typeid(T) : typeid(U))) fail("%s: type() is wrong", n);
            if (t == 1) { auto p = itlib::any_cast<T>(&x); if (!p || p->value() != v) fail("%s: the value is not what was stored", n); } else { auto p = itlib::any_cast<U>(&x); if (!p || p->value() != v) fail("%s: the value is not what was stored", n); }
        };
        for (int step = 0; step < 3; ++step) {
            int op = choose(10), v = 10 * step + 3; say("operation %d", op); bool boom = WHAT == 2 && choose(2); fail_in = boom ? 1 : 0; int oat = at, oav = av, obt = bt, obv = bv;
            try {
                switch (op) {
                case 0: at = 1; av = v; a = T(v); break;
                case 1: at = 1; av = v; oat = 0; a.template emplace<T>(v); break;      // the old value is gone first
                case 2: bt = 2; bv = v; b = U(v); break;
                case 3: at = bt; av = bv; a = b; break;
                case 4: { bt = at; bv = av; at = 0; b = std::move(a); break; }
                case 5: a.reset(); at = 0; break;
                case 6: { A c(a, mk<Al>(2)); check(c, at, av, "copy"); break; }
                case 7: { A c(std::move(b)); check(c, bt, bv, "moved"); bt = 0; break; }
                case 8: { A c(std::allocator_arg, mk<Al>(3), U(v)); check(c, 2, v, "new"); a = c; at = 2; av = v; break; }
                case 9: { itlib::any<DefAlloc> d(b); a = d; at = bt; av = bv; break; }
                }
            } catch (std::bad_alloc&) { if (!boom) fail("unexpected bad_alloc"); at = oat; av = oav; bt = obt; bv = obv; }
            fail_in = 0; check(a, at, av, "a"); check(b, bt, bv, "b");
            { Quiet q; size_t want = size_t(at != 0) + size_t(bt != 0); if (blocks.size() != want) fail("%zu blocks are allocated, expected %zu", blocks.size(), want); }
        }
    }
    if (!blocks.empty()) fail("%zu blocks were never returned", blocks.size());
}
template <class Al> static void anys() {
    switch (choose(11)) {
    case 9: pair_case<Al, Blob<16, 16>, Blob<48, 32>>(); break;
    case 10: pair_case<Al, Blob<4, 4>, Blob<64, 64>>(); break;
    case 0: pair_case<Al, Blob<65520, 8>, Blob<65535, 1>>(); break;
    case 1: pair_case<Al, Blob<65536, 8>, Blob<65528, 16>>(); break;
    case 2: pair_case<Al, Blob<65544, 8>, Blob<200, 8>>(); break;
    case 3: pair_case<Al, Blob<232, 8>, Blob<248, 8>>(); break;
    case 4: pair_case<Al, Blob<65536 + 240, 8>, Blob<131072, 64>>(); break;
    case 5: pair_case<Al, Blob<128, 128>, Blob<256, 256>>(); break;
    case 6: pair_case<Al, Blob<512, 512>, Blob<1024, 1024>>(); break;
    case 7: pair_case<Al, Blob<4096, 4096>, Blob<256, 64>>(); break;
    case 8: pair_case<Al, Blob<65536, 65536>, Blob<(1 << 20) + 8, 8>>(); break;
    }
}
void mc_setup() { add("scale_empty", [] { explore_choices(anys<EmptyAlloc>); }); add("scale_id", [] { explore_choices(anys<IdAlloc>); }); }

#elif WHAT >= 3 && WHAT <= 6     // V01..V03, V04/V05, V06/V07: vectors with 2^8 and 2^16 elements
#if WHAT <= 4
#include <itlib/small_vector.hpp>
#elif WHAT == 5
#include <itlib/static_vector.hpp>
#else
#include <itlib/pod_vector.hpp>
#endif
template <class T> static T val(int i) { if constexpr (std::is_same<T, std::string>::value) return std::to_string(i); else return T(i); }
template <class V, class M> static void same(const V& v, const M& m, const char* when) {
    if (v.size() != m.size() || v.empty() != m.empty()) fail("%s: size() is %zu, expected %zu", when, size_t(v.size()), m.size());
    if (size_t(v.end() - v.begin()) != m.size() || v.capacity() < v.size() || v.data() != &*v.begin() + 0) fail("%s: the range of the elements is wrong", when);
    for (size_t i = 0; i < m.size(); ++i) if (v.data()[i] != m[i]) fail("%s: element %zu is wrong", when, i);
    if (!m.empty()) { size_t n = m.size(); if (v.front() != m[0] || v.back() != m[n - 1] || v[n - 1] != m[n - 1] || v.at(n / 2) != m[n / 2] || *v.rbegin() != m[n - 1] || size_t(v.rend() - v.rbegin()) != n) fail("%s: access", when); }
}
template <class V, size_t Cap, bool Deep> static void vec(const std::vector<size_t>& sizes) {
    typedef typename V::value_type T; size_t n = pick(sizes); say("%zu elements", n);
    { Quiet q; static std::map<size_t, std::vector<T>> bases; auto& base = bases[n]; if (base.empty()) for (size_t i = 0; i < n; ++i) base.push_back(val<T>(int(i * 7 % 1000)));
        static std::vector<T> m; m = base; V v(base.begin(), base.end()); same(v, m, "construction");
        for (int step = 0; step < (Deep ? 2 : 1); ++step) {
            size_t k = m.size(); std::vector<size_t> pos{0, k}; if (Deep) { for (size_t x : {size_t(254), size_t(255), size_t(256), k - 1, size_t(65535), size_t(65536)}) if (x < k) pos.push_back(x); } else for (size_t x : {size_t(1), size_t(254), size_t(255), size_t(256), size_t(257), size_t(65534), size_t(65535), size_t(65536), size_t(65537), k / 2, k - 1}) if (x < k && x > 0) pos.push_back(x);
            std::sort(pos.begin(), pos.end()); pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
            static const std::vector<size_t> cnt = Deep ? std::vector<size_t>{1, 2, 256} : std::vector<size_t>{0, 1, 2, 255, 256, 257, 65536}; auto fits = [&](size_t extra) { return !Cap || m.size() + extra <= Cap; };
            auto P = [](size_t i) { return ptrdiff_t(i); };
            int op = choose(13); T x = val<T>(500 + step); 
            switch (op) {
            case 0: say("push_back"); if (fits(1)) { v.push_back(x); m.push_back(x); } else { bool t = false; try { v.push_back(x); } catch (std::exception&) { t = true; } if (!t) fail("push_back beyond the capacity"); } break;
            case 1: say("pop_back"); if (k) { v.pop_back(); m.pop_back(); } break;
            case 2: { size_t p = pick(pos); say("insert at %zu", p); if (!fits(1)) break; auto i = v.insert(v.begin() + P(p), x); if (size_t(i - v.begin()) != p) fail("insert returned %td", i - v.begin()); m.insert(m.begin() + P(p), x); break; }
            case 3: { size_t p = pick(pos), c = pick(cnt); say("insert %zu at %zu", c, p); if (!fits(c)) break; auto i = v.insert(v.begin() + P(p), c, x); if (size_t(i - v.begin()) != p) fail("insert returned %td", i - v.begin()); m.insert(m.begin() + P(p), c, x); break; }
            case 4: { size_t p = pick(pos), c = pick(cnt); say("insert a range of %zu at %zu", c, p); if (!fits(c)) break; std::vector<T> r; for (size_t i = 0; i < c; ++i) r.push_back(val<T>(int(i % 300))); auto i = v.insert(v.begin() + P(p), r.begin(), r.end()); if (size_t(i - v.begin()) != p) fail("insert returned %td", i - v.begin()); m.insert(m.begin() + P(p), r.begin(), r.end()); break; }
            case 5: { size_t p = pick(pos); say("erase at %zu", p); if (p == k) break; auto i = v.erase(v.begin() + P(p)); if (size_t(i - v.begin()) != p) fail("erase returned %td", i - v.begin()); m.erase(m.begin() + P(p)); break; }
            case 6: { size_t p = pick(pos), q = pick(pos); if (p > q) break; say("erase %zu..%zu", p, q); auto i = v.erase(v.begin() + P(p), v.begin() + P(q)); if (size_t(i - v.begin()) != p) fail("erase returned %td", i - v.begin()); m.erase(m.begin() + P(p), m.begin() + P(q)); break; }
            case 7: { size_t r = pick(sizes); int how = choose(2); say("resize to %zu", r); if (Cap && r > Cap) break; if (how) { v.resize(r, x); m.resize(r, x); } else { v.resize(r); m.resize(r); } break; }
            case 8: { size_t r = pick(sizes); int how = choose(2); say("assign %zu", r); if (Cap && r > Cap) break; if (how) { v.assign(r, x); m.assign(r, x); } else { std::vector<T> t; for (size_t i = 0; i < r; ++i) t.push_back(val<T>(int(i % 77))); v.assign(t.begin(), t.end()); m = t; } break; }
            case 9: { say("copies"); V c(v); same(c, m, "copy"); V d; d.push_back(x); d = v; same(d, m, "copy assignment"); same(v, m, "source"); break; }
            case 10: { say("moves"); V c(std::move(v)); same(c, m, "move"); v = std::move(c); break; }
            case 11: { say("swap"); V c; c.push_back(x); std::swap(c, v); same(c, m, "swap"); if (v.size() != 1) fail("swap"); std::swap(v, c); break; }
#if WHAT != 5
            case 12: { size_t r = pick(sizes); say("reserve %zu, shrink", r); v.reserve(r); if (v.capacity() < r) fail("reserve(%zu): capacity %zu", r, size_t(v.capacity())); same(v, m, "reserve"); v.shrink_to_fit(); break; }
#else
            case 12: say("clear"); v.clear(); m.clear(); break;
#endif
            }
            same(v, m, "then"); V e(m.begin(), m.end()); if (!(v == e) || v != e) fail("equal vectors compare unequal");
            if (!m.empty()) { e.back() = val<T>(77777 % 120); if (m.back() != val<T>(77777 % 120) && (v == e || !(v != e))) fail("vectors differing in the last element compare equal"); }
            outcome(int64_t(m.size()) * 16 + op);
        }
    }
}
static const std::vector<size_t> S8{255, 256, 257}, S16{65534, 65535, 65536, 65537, 65600}, SMIX{3, 256, 65536, 65540};
#if WHAT <= 4
template <class T, size_t N, size_t R> using SVec = itlib::small_vector<T, N, R>;
void mc_setup() {
    add("scale_8bit", [] { explore_choices([] { vec<SVec<int, 16, 0>, 0, true>(S8); }); });
    add("scale_8bit_static", [] { explore_choices([] { vec<SVec<int, 256, 0>, 0, true>(S8); }); });
    add("scale_8bit_revert", [] { explore_choices([] { vec<SVec<int, 256, 255>, 0, true>(S8); }); });
    add("scale_8bit_string", [] { explore_choices([] { vec<SVec<std::string, 256, 255>, 0, false>({254, 255, 256, 257, 300}); }); });
    add("scale_16bit", [] { explore_choices([] { vec<SVec<int, 4, 0>, 0, false>(S16); }); });
    add("scale_16bit_static", [] { explore_choices([] { vec<SVec<short, 65536, 65536>, 0, false>(S16); }); });
    add("scale_16bit_deep", [] { explore_choices([] { vec<SVec<int, 4, 0>, 0, true>(SMIX); }); }, 1);
    add("scale_16bit_string", [] { explore_choices([] { vec<SVec<std::string, 4, 0>, 0, false>(SMIX); }); });
}
#elif WHAT == 5
void mc_setup() {
    add("scale_255", [] { explore_choices([] { vec<itlib::static_vector<int, 255>, 255, true>({253, 254, 255}); }); });
    add("scale_256", [] { explore_choices([] { vec<itlib::static_vector<int, 256>, 256, true>({254, 255, 256}); }); });
    add("scale_300", [] { explore_choices([] { vec<itlib::static_vector<std::string, 300>, 300, true>({254, 255, 256, 257, 300}); }); });
    add("scale_65535", [] { explore_choices([] { vec<itlib::static_vector<short, 65535>, 65535, false>({256, 65533, 65534, 65535}); }); });
    add("scale_65536", [] { explore_choices([] { vec<itlib::static_vector<short, 65536>, 65536, false>({256, 65534, 65535, 65536}); }); });
    add("scale_65700", [] { explore_choices([] { vec<itlib::static_vector<int, 65700>, 65700, false>({256, 65534, 65535, 65536, 65537, 65700}); }); });
}
#else
// more than 2^32 elements, which are never touched
struct MapAlloc { using size_type = size_t; static std::map<void*, size_t>& all() { static std::map<void*, size_t> m; return m; }
    static void* malloc(size_type n) { Quiet q; void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) fail("malloc(%zu)", n); all()[p] = n; return p; }
    static void free(void* p) { Quiet q; if (!p) return; auto i = all().find(p); if (i == all().end()) fail("free of something else"); munmap(p, i->second); all().erase(i); }
    static constexpr size_type max_size() { return ~size_type(0); } static constexpr bool zero_fill_new() { return false; } static constexpr size_type alloc_align() { return 4096; } static constexpr bool has_expand() { return false; } static bool expand(void*, size_t) { return false; }
    static void* realloc(void* o, size_type n) { if (!o) return malloc(n); Quiet q; auto i = all().find(o); if (i == all().end()) fail("realloc of something else"); void* p = mremap(o, i->second, n, MREMAP_MAYMOVE); if (p == MAP_FAILED) fail("realloc(%zu)", n); all().erase(i); all()[p] = n; return p; }
    static constexpr size_type realloc_wasteful_copy_size() { return ~size_type(0); } };
template <class T> static void huge_pod() {
    size_t n = std::vector<size_t>{G2 - 1, G2, G2 + 3, G4 - 1, G4, G4 + 3}[size_t(choose(6))]; say("%zu elements", n);
    { itlib::pod_vector<T, MapAlloc> v; size_t m = n;
        v.resize(n); size_t marks[] = {0, 255, 65536, G2 - 2, n / 2, n - 1}; for (size_t i : marks) v[i] = T(i % 251 + 1);
        for (int step = 0; step < 2; ++step) {
            int op = choose(8); say("operation %d", op);
            switch (op) {
            case 0: v.push_back(T(9)); ++m; if (v.back() != T(9)) fail("push_back"); break;
            case 1: v.pop_back(); --m; break;
            case 2: v.resize(m + 70000); m += 70000; break;
            case 3: v.reserve(n + n / 2); if (v.capacity() < n + n / 2) fail("reserve"); break;
            case 4: { itlib::pod_vector<T, MapAlloc> w(std::move(v)); if (v.size()) fail("move"); v = std::move(w); break; }
            case 5: { auto i = v.insert(v.end() - 1, T(8)); if (size_t(i - v.begin()) != m - 1 || *i != T(8)) fail("insert at the end"); v.erase(i); break; }
            case 6: { itlib::pod_vector<T, MapAlloc> w; w.push_back(T(5)); v.swap(w); if (w.size() != m || v.size() != 1) fail("swap"); w.swap(v); break; }
            case 7: { v.erase(v.end() - 2, v.end()); m -= 2; T a[3] = {T(1), T(2), T(3)}; v.insert(v.end(), a, a + 3); m += 3; if (v.back() != T(3) || v[m - 3] != T(1)) fail("insert of a range at the end"); break; }
            }
            if (v.size() != m || v.byte_size() != m * sizeof(T) || size_t(v.end() - v.begin()) != m || v.capacity() < m) fail("size() is %zu, expected %zu", v.size(), m);
            for (size_t i : marks) if (i < n - 4 && v[i] != T(i % 251 + 1)) fail("element %zu is wrong", i);
            if (&v.back() != v.data() + m - 1 || &v.at(m - 1) != v.data() + m - 1 || v.data() + m != v.end()) fail("back()");
        }
        outcome(int64_t(m)); }
    if (!MapAlloc::all().empty()) fail("blocks were never freed");
}
void mc_setup() {
    add("scale_8bit", [] { explore_choices([] { vec<itlib::pod_vector<int>, 0, true>(S8); }); });
    add("scale_16bit", [] { explore_choices([] { vec<itlib::pod_vector<int>, 0, false>(S16); }); });
    add("scale_16bit_short", [] { explore_choices([] { vec<itlib::pod_vector<short>, 0, false>(S16); }); });
    add("scale_16bit_byte", [] { explore_choices([] { vec<itlib::pod_vector<unsigned char>, 0, false>(SMIX); }); });
    add("scale_16bit_deep", [] { explore_choices([] { vec<itlib::pod_vector<int>, 0, true>(SMIX); }); }, 1);
    add("scale_32bit_byte", [] { explore_choices(huge_pod<unsigned char>); });
    add("scale_32bit_int", [] { explore_choices(huge_pod<int>); });
}
#endif

#elif WHAT == 7     // B01: bitsets
#include <itlib/dynamic_bitset.hpp>
template <class W> static void helpers() {
    typedef itlib::dynamic_bitset<std::vector<W>> B; constexpr unsigned b = sizeof(W) * 8;
    static const size_t at[] = {0, 1, 63, 64, 65, 254, 255, 256, 65535, 65536, G2 - 1, G2, G4 - 1, G4, G4 + 1, G4 * 8, G4 * 64 - 1, G4 * 64, G4 * 64 + 5, G4 * 1024, ~size_t(0) - 2000};
    size_t base = at[size_t(choose(int(sizeof at / sizeof *at)))]; size_t i = base + size_t(choose(130)); say("%zu", i);
    if (B::word_index(i) != i / b) fail("word_index(%zu) is %zu", i, size_t(B::word_index(i))); if (B::bit_index(i) != i % b) fail("bit_index(%zu)", i);
    if (B::word_size(i) != i / b + (i % b != 0)) fail("word_size(%zu) is %zu", i, size_t(B::word_size(i))); if (B::word_mask(i) != W(W(1) << (i % b))) fail("word_mask(%zu)", i);
    outcome(int64_t(i / b));
}
template <class W> static void bits() {
    typedef itlib::dynamic_bitset<std::vector<W>> B; static const std::vector<size_t> sizes{250, 255, 256, 257, 2040, 65535, 65536, 65537}, more{256, 2040, 65536, 524280, 524288, 524290};
    int op = choose(9); bool resizing = op >= 3 && op <= 5; size_t n = pick(resizing ? more : sizes); say("%zu bits", n); B s(n); std::vector<bool> m(n); for (size_t i = 0; i < n; i += 3) { s.set(i); m[i] = true; }
    auto same = [](const B& s, const std::vector<bool>& m, const char* when) {
        if (s.size() != m.size() || s.empty() != m.empty() || s.byte_size() != (m.size() + 7) / 8 || s.word_size() != (m.size() + sizeof(W) * 8 - 1) / (sizeof(W) * 8)) fail("%s: size() is %zu, expected %zu", when, s.size(), m.size());
        bool any = false, all = !m.empty(); for (size_t i = 0; i < m.size(); ++i) { if (s.test(i) != m[i]) fail("%s: bit %zu is wrong", when, i); any |= m[i]; all &= m[i]; }
        if (s.any() != any || s.none() == any || s.all() != all) fail("%s: any, none or all", when);
        size_t k = 0; for (bool b : s) { if (k >= m.size() || b != m[k]) fail("%s: iteration at %zu", when, k); ++k; } if (k != m.size()) fail("%s: iteration ends at %zu", when, k);
    };
    auto place = [&] { std::vector<size_t> p; for (size_t x : {size_t(255), size_t(256), size_t(65535), size_t(65536)}) if (x < n - 1) p.push_back(x); p.push_back(n - 1); return pick(p); };
    say("operation %d", op);
    switch (op) {
    case 0: { size_t p = place(); s.flip(p); m[p] = !m[p]; break; }
    case 1: { size_t p = place(); s[p] = true; m[p] = true; break; }
    case 2: { size_t p = place(); s.reset(p); m[p] = false; break; }
    case 3: { size_t r = pick(more); size_t o = m.size(); s.resize(r); m.resize(r); for (size_t i = o; i < r; ++i) if (s.test(i)) { fail("bit %zu is set by resize", i); } break; }
    case 4: { B t; size_t c = pick(std::vector<size_t>{1, 7, 256, 65536, 65539}); t.resize(c); for (size_t i = 0; i < c; i += 5) t.set(i); s.append(t); for (size_t i = 0; i < c; ++i) m.push_back(i % 5 == 0); break; }
    case 5: s.push_back(true); m.push_back(true); break;
    case 6: { size_t p = place(), q = place(); if (p >= q) break; size_t off = size_t(choose_of({0, 1, 8, 31})); B t(q - p + off); for (size_t i = 0; i < t.size(); i += 2) t.set(i); auto a = s.begin(); auto b = s.begin(); auto c = static_cast<const B&>(t).begin();
        s.copy(a + ptrdiff_t(p), b + ptrdiff_t(q), c + ptrdiff_t(off)); for (size_t i = p; i < q; ++i) m[i] = (i - p + off) % 2 == 0; break; }
    case 7: { for (size_t i = 0; i < n; ++i) { s.set(i, true); m[i] = true; } size_t p = place(); if (choose(2)) { s.reset(p); m[p] = false; } break; }
    case 8: { for (size_t i = 0; i < n; ++i) { s.set(i, false); m[i] = false; } size_t p = place(); if (choose(2)) { s.set(p); m[p] = true; } break; }
    }
    same(s, m, "then"); B c(s); if (c.size() != n && !resizing) fail("size of a copy"); B d(std::move(c)); if (d.buffer() != s.buffer() || d.size() != s.size()) fail("moved copy"); outcome(int64_t(m.size()) * 16 + op);
}
void mc_setup() {
    add("scale_helpers8", [] { explore_choices(helpers<uint8_t>); }); add("scale_helpers16", [] { explore_choices(helpers<uint16_t>); }); add("scale_helpers32", [] { explore_choices(helpers<uint32_t>); }); add("scale_helpers64", [] { explore_choices(helpers<uint64_t>); });
    add("scale_bits8", [] { explore_choices(bits<uint8_t>); }); add("scale_bits32", [] { explore_choices(bits<uint32_t>); }); add("scale_bits64", [] { explore_choices(bits<uint64_t>); });
}

#elif WHAT == 8     // M01, M02: flat containers with more than 2^8 and 2^16 elements
#if MAP
#include <itlib/flat_map.hpp>
typedef itlib::flat_map<int, int> F; static F::value_type item(int k) { return {k, k + 1}; } static int key(const F::value_type& v) { return v.first; }
#else
#include <itlib/flat_set.hpp>
typedef itlib::flat_set<int> F; static int item(int k) { return k; } static int key(int v) { return v; }
#endif
static void flats() {
    static const std::vector<int> sizes{254, 255, 256, 257, 65535, 65536, 65537, 66000}; int n = pick(sizes); int order = choose(3); say("%d elements", n);
    // the keys are the even numbers up to 2n; the model is the sorted sequence
    static std::map<std::pair<int, int>, std::pair<std::vector<int>, F>> built;     { Quiet q; auto& b = built[{n, order}]; if (b.first.empty()) { std::vector<F::value_type> in; for (int i = 0; i < n; ++i) { b.first.push_back(2 * i); in.push_back(item(2 * (order == 0 ? i : order == 1 ? n - 1 - i : int((int64_t(i) * 7919) % n)))); if (i % 1000 == 7) in.push_back(in[size_t(i) / 2]); } b.second = F(in.begin(), in.end()); }
    }
    auto& base = built[{n, order}]; std::vector<int> r(base.first); F f(base.second);
    int special = INT_MIN;      // the key whose value has been changed
    auto check = [&](const F& x, const char* when) { if (x.size() != r.size() || x.empty() != r.empty()) fail("%s: size() is %zu, expected %zu", when, size_t(x.size()), r.size()); size_t i = 0; for (auto j = x.begin(); j != x.end(); ++j, ++i) {
        if (key(*j) != r[i]) fail("%s: element %zu is wrong", when, i);
#if MAP
        if (j->second != (r[i] == special ? 7 : r[i] + 1)) fail("%s: the value of element %zu is wrong", when, i);
#endif
    } };
    check(f, "construction"); int k = std::vector<int>{-1, 0, 1, 508, 509, 510, 511, 512, 513, 131068, 131069, 131070, 131071, 131072, 131073, 2 * n - 2, 2 * n - 1, 2 * n}[size_t(choose(18))]; say("key %d", k);
    const F& cf = f; auto lb = std::lower_bound(r.begin(), r.end(), k); size_t at = size_t(lb - r.begin()); bool has = lb != r.end() && *lb == k;
    if (cf.count(k) != size_t(has)) fail("count(%d)", k); if ((cf.find(k) != cf.end()) != has) fail("find(%d)", k); if (has && size_t(cf.find(k) - cf.begin()) != at) fail("find(%d) gave another element", k);
    if (size_t(cf.lower_bound(k) - cf.begin()) != at || size_t(f.lower_bound(k) - f.begin()) != at) fail("lower_bound(%d)", k);
    auto er = cf.equal_range(k); if (size_t(er.first - cf.begin()) != at || size_t(er.second - er.first) != size_t(has)) fail("equal_range(%d)", k);
    switch (choose(5)) {
    case 0: { auto a = f.insert(item(k)); if (a.second == has || size_t(a.first - f.begin()) != at) fail("insert(%d)", k); if (!has) r.insert(lb, k); break; }
    case 1: { auto a = f.erase(k); if (a != size_t(has)) fail("erase(%d)", k); if (has) r.erase(lb); break; }
    case 2: { auto p = f.lower_bound(k); if (p == f.end()) break; auto q = f.erase(p); if (size_t(q - f.begin()) != at) fail("erase of an iterator"); r.erase(lb); break; }
#if MAP
    case 3: f[k] = 7; special = k; if (!has) r.insert(lb, k); break;
#else
    case 3: { auto a = f.emplace(k); if (a.second == has || size_t(a.first - f.begin()) != at) fail("emplace(%d)", k); if (!has) r.insert(lb, k); break; }
#endif
    case 4: { F g(f); check(g, "copy"); if (!(g == f) || g != f) fail("copies compare unequal"); F h(std::move(g)); check(h, "move"); f = h; F e; f.swap(e); if (f.size()) fail("swap"); f.swap(e); break; }
    }
    check(f, "then"); outcome(int64_t(f.size()));
}
void mc_setup() { add("scale", [] { explore_choices(flats); }); }

#elif WHAT == 9     // S01: writes and streams beyond 2^16, 2^31 and 2^32 elements
#include <itlib/mem_streambuf.hpp>
// a container in memory which is the same 2 MB again and again
struct Far { typedef char value_type; char* p = nullptr; size_t n = 0, cap = 0; static size_t& limit() { static size_t l; return l; } static std::unique_ptr<Huge>& mem() { static std::unique_ptr<Huge> m; return m; }
    char* data() { return p; } const char* data() const { return p; } size_t size() const { return n; } size_t capacity() const { return cap; } void clear() { n = 0; }
    void resize(size_t x) { if (x > limit()) throw std::length_error("Far"); if (!p) p = mem()->p; n = x; if (x > cap) { cap = std::max(x, std::min(cap * 2, limit())); } } };
static void farwrite() {
    static std::unique_ptr<Huge> src; { Quiet q; if (!src) { src.reset(new Huge(G4 + (1 << 20))); Far::limit() = 3 * G4; Far::mem().reset(new Huge(3 * G4 + (1 << 20), true)); } }
    itlib::mem_ostreambuf<Far> b; size_t pos = 0;
    auto at = [&](const char* when) { if (b.poff() != pos) fail("poff() is %zu, expected %zu, %s", b.poff(), pos, when); auto p = b.pubseekoff(0, std::ios_base::cur, std::ios_base::out); if (std::streamoff(p) != std::streamoff(pos)) fail("the position is %lld, expected %zu, %s", (long long)std::streamoff(p), pos, when);
        b.sputc('x'); ++pos; if (Far::mem()->p[pos - 1] != 'x') fail("a character after %zu elements went elsewhere", pos - 1); Far::mem()->p[pos - 1] = 0; if (b.sputn("yz", 2) != 2) fail("sputn"); pos += 2; if (memcmp(Far::mem()->p + pos - 2, "yz", 2)) fail("characters after %zu elements went elsewhere", pos - 2); if (b.poff() != pos) fail("poff() is %zu, expected %zu", b.poff(), pos); };
    int how = choose(2); size_t n = std::vector<size_t>{65535, 65536, G2 - 1, G2, G2 + 5, G4 - 1, G4, G4 + 7}[size_t(choose(8))];
    if (how == 0) { say("write %zu", n); if (b.sputn(src->p, std::streamsize(n)) != std::streamsize(n)) fail("sputn of %zu", n); pos = n; at("after the write"); if (choose(2)) { n = G2 + 1; if (b.sputn(src->p, std::streamsize(n)) != std::streamsize(n)) fail("sputn of %zu", n); pos += n; at("after the second write"); } }
    else { say("seek to %zu", n); if (b.sputn(src->p, 10) != 10) fail("sputn"); pos = 10; { itlib::mem_ostreambuf<Far> t(2 * G4); auto r = t.pubseekpos(std::streamoff(n), std::ios_base::out); if (std::streamoff(r) != std::streamoff(n)) fail("seek to %zu", n); if (t.poff() != n) fail("poff() after a seek to %zu is %zu", n, t.poff());
        auto q = t.pubseekoff(-3, std::ios_base::cur, std::ios_base::out); if (std::streamoff(q) != std::streamoff(n) - 3) fail("relative seek"); t.sputc('w'); if (Far::mem()->p[n - 3] != 'w') fail("the character went elsewhere"); auto e = t.pubseekoff(0, std::ios_base::end, std::ios_base::out); if (std::streamoff(e) != std::streamoff(n)) fail("the end is %lld, expected %zu", (long long)std::streamoff(e), n); auto g = t.get_container(); if (g.size() != n) fail("get_container of %zu elements has %zu", n, g.size()); } at("other buffer"); }
    outcome(int64_t(pos));
}
template <class Ch> static void wide() {
    typedef std::vector<Ch> C; itlib::mem_ostreambuf<C> b; C m; static const std::vector<size_t> sizes{1, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
    for (int i = 0; i < 3; ++i) { size_t n = pick(sizes); say("write %zu", n); C s; for (size_t k = 0; k < n; ++k) s.push_back(Ch(k * 3 + size_t(i) + 1)); if (b.sputn(s.data(), std::streamsize(n)) != std::streamsize(n)) fail("sputn of %zu", n); m.insert(m.end(), s.begin(), s.end()); if (b.poff() != m.size()) fail("poff() is %zu, expected %zu", b.poff(), m.size()); b.sputc(Ch('c')); m.push_back(Ch('c')); }
    auto r = b.get_container(); if (r != m) fail("get_container gave %zu elements, expected %zu, or other ones", r.size(), m.size()); outcome(int64_t(m.size()));
}
void mc_setup() {
    add("scale_far", [] { explore_choices(farwrite); });
    add("scale_char", [] { explore_choices(wide<char>); }); add("scale_char16", [] { explore_choices(wide<char16_t>); }); add("scale_char32", [] { explore_choices(wide<char32_t>); }); add("scale_wchar", [] { explore_choices(wide<wchar_t>); });
}

#elif WHAT == 10    // S02: data beyond 2^31 and 2^32 elements
#include <itlib/mem_streambuf.hpp>
#include <istream>
static char mark(size_t i) { return char(mix(i) % 200 + 1); }
static void farread() {
    static std::unique_ptr<Huge> mem, dst; static const size_t N = 2 * G4 + 100; static const size_t at[] = {0, 255, 256, 65535, 65536, G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 1, G4 + G2, N - 1, N};
    { Quiet q; if (!mem) { mem.reset(new Huge(N)); dst.reset(new Huge(N, true)); for (size_t p : at) for (size_t i = p < 20 ? 0 : p - 20; i < p + 40 && i < N; ++i) mem->p[i] = mark(i); } }
    size_t n = std::vector<size_t>{N, G2 - 1, G2 + 1, G4, G4 + G2}[size_t(choose(5))]; itlib::mem_istreambuf<char> b(mem->p, n); std::istream in(&b); in.imbue(std::locale::classic()); say("%zu bytes", n); size_t pos = 0;
    if (b.size() != n || b.goff() != 0) fail("size() is %zu, expected %zu", b.size(), n);
    auto look = [&](const char* when) { if (b.goff() != pos) fail("goff() is %zu, expected %zu, %s", b.goff(), pos, when); auto p = b.pubseekoff(0, std::ios_base::cur, std::ios_base::in); if (std::streamoff(p) != std::streamoff(pos)) fail("the position is %lld, expected %zu, %s", (long long)std::streamoff(p), pos, when);
        if (std::streamoff(in.tellg()) != std::streamoff(pos)) fail("tellg()"); size_t left = n - pos; if (pos < n && size_t(b.in_avail()) != left) fail("in_avail() is %zu, expected %zu", size_t(b.in_avail()), left); };
    for (int step = 0; step < 2; ++step) {
        int op = choose(6); bool big = false; std::vector<size_t> t; for (size_t p : at) if (p <= n && (!step || (p != 255 && p != 65535 && p != G2 && p != G4))) t.push_back(p); t.push_back(n);
        switch (op) {
        case 0: { size_t p = pick(t); say("seek to %zu", p); if (std::streamoff(b.pubseekpos(std::streamoff(p), std::ios_base::in)) != std::streamoff(p)) fail("seek to %zu", p); pos = p; break; }
        case 1: { size_t p = pick(t); say("relative seek to %zu", p); auto d = std::streamoff(p) - std::streamoff(pos); if (std::streamoff(b.pubseekoff(d, std::ios_base::cur, std::ios_base::in)) != std::streamoff(p)) fail("relative seek to %zu", p); pos = p; break; }
        case 2: { size_t p = pick(t); say("seek to %zu from the end", p); in.seekg(std::streamoff(p) - std::streamoff(n), std::ios_base::end); if (!in) fail("seek to %zu from the end", p); pos = p; break; }
        case 3: { size_t p = pick(t); if (p < pos) break; size_t k = p - pos; if (k > 100000 && (step || n != N || p == G2 || p == G2 - 1 || p == G4 || p == G4 - 1)) break; big = k > 100000; say("read %zu", k); if (size_t(b.sgetn(dst->p, std::streamsize(k))) != k) fail("reading %zu", k); pos = p; break; }
        case 4: { size_t p = size_t(choose(3)); if (p) p = p == 1 ? G4 : size_t(INT64_MAX) / 4; say("read beyond the end"); size_t k = n - pos; if (k > 100000 && (step || p != G4)) break; big = k > 100000; if (size_t(b.sgetn(dst->p, std::streamsize(k + 5 + p))) != k) fail("reading beyond the end after %zu", pos); pos = n; break; }
        case 5: say("a seek out of range"); if (std::streamoff(b.pubseekpos(std::streamoff(n + 1), std::ios_base::in)) != -1 || std::streamoff(b.pubseekoff(-1 - std::streamoff(pos), std::ios_base::cur, std::ios_base::in)) != -1) fail("a seek out of range succeeded"); break;
        }
        look("then"); char buf[8]; if (pos + 8 <= n) { if (b.sgetn(buf, 8) != 8) fail("reading 8"); bool known = false; for (size_t p : at) if (pos + 20 >= p && pos + 8 <= p + 40) known = true; if (known) for (size_t i = 0; i < 8; ++i) if (buf[i] != mark(pos + i)) fail("the byte at %zu is wrong", pos + i); pos += 8; if (b.sbumpc() == EOF && pos < n) fail("sbumpc"); if (pos < n) ++pos; if (b.sungetc() == EOF) fail("sungetc"); --pos; look("after reading"); }
        else if (pos == n && b.sgetc() != EOF) fail("reading at the end");
        if (big) break;
    }
    outcome(int64_t(pos));
}
void mc_setup() { add("scale_far", [] { explore_choices(farread); }); }

#elif WHAT >= 11 && WHAT <= 14     // P01..P04: views with indices, sizes and offsets beyond 2^31 and 2^32
#if WHAT == 11
#include <itlib/span.hpp>
#elif WHAT == 12
#include <itlib/stride_span.hpp>
#elif WHAT == 13
#include <itlib/poly_span.hpp>
#else
#include <itlib/memory_view.hpp>
#endif
static const size_t AT[] = {0, 1, 255, 256, 65535, 65536, G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 1};
static std::unique_ptr<Huge>& memory(size_t bytes) { static std::unique_ptr<Huge> m; Quiet q; if (!m || m->n < bytes) { m.reset(); m.reset(new Huge(bytes)); } return m; }
#if WHAT == 13
static int ident(char& c) { return c ? c : -1; }
#endif
template <class V, class Make> static void view(size_t n, size_t stride, char* p, Make make) {
    V v = make(p, n); std::vector<size_t> at; for (size_t x : AT) if (x < n) at.push_back(x); at.push_back(n - 1); at.push_back(n);
    // where the element i is; each touched page is marked
    auto here = [&](V& w, size_t i, char* expected) {
#if WHAT == 13
        *expected = 77; int g = w.at(i), h = w[i]; *expected = 0; if (g != 77 || h != 77) fail("element %zu is somewhere else", i); auto it = w.begin(); it += ptrdiff_t(i); *expected = 78; g = *it; *expected = 0; if (g != 78) fail("iterator to %zu", i);
#else
        if (reinterpret_cast<char*>(&w.at(i)) != expected || reinterpret_cast<char*>(&w[i]) != expected) fail("element %zu is somewhere else", i); const V& cw = w; if (reinterpret_cast<const char*>(&cw.at(i)) != expected) fail("const element %zu", i); auto it = w.begin(); it += ptrdiff_t(i); if (reinterpret_cast<char*>(&*it) != expected || reinterpret_cast<char*>(&*(w.end() - ptrdiff_t(w.size() - i))) != expected || reinterpret_cast<char*>(&*(w.rbegin() + ptrdiff_t(w.size() - 1 - i))) != expected) fail("iterator to %zu", i);
#endif
        if (w.begin() + ptrdiff_t(i) - w.begin() != ptrdiff_t(i)) fail("difference of iterators");
    };
    auto whole = [&](V& w, size_t size, char* start, const char* what) {
        if (w.size() != size || w.empty() != !size || size_t(w.end() - w.begin()) != size) fail("%s: size() is %zu, expected %zu", what, w.size(), size);
        for (size_t i : at) if (i < size) here(w, i, start + i * stride); if (size) here(w, size - 1, start + (size - 1) * stride);
#if WHAT != 13
        if (size && (reinterpret_cast<char*>(&w.back()) != start + (size - 1) * stride || reinterpret_cast<char*>(&w.front()) != start)) fail("%s: back()", what);
#endif
    };
    whole(v, n, p, "construction"); size_t a = pick(at); int op = choose(5);
    switch (op) {
#if WHAT == 14
    case 0: { size_t b = pick(at); say("slice(%zu, %zu)", a, b); V w = v.slice(a, b); whole(w, std::min(b, n - a), p + a * stride, "slice"); break; }
    case 1: { say("slice(%zu)", a); V w = v.slice(a); whole(w, n - a, p + a * stride, "slice"); break; }
    case 2: { say("reset(%zu)", a); v.reset(a); whole(v, a, p, "reset"); break; }
#else
    case 0: { size_t b = pick(at); say("subspan(%zu, %zu)", a, b); V w = v.subspan(a, b); whole(w, std::min(b, n - a), p + a * stride, "subspan"); break; }
    case 1: { say("first(%zu)", a); V w = v.first(a); whole(w, a, p, "first"); break; }
    case 2: { say("last(%zu)", a); V w = v.last(a); whole(w, a, p + (n - a) * stride, "last"); break; }
#endif
    case 3: { say("remove_prefix(%zu)", a); v.remove_prefix(a); whole(v, n - a, p + a * stride, "remove_prefix"); break; }
    case 4: { say("remove_suffix(%zu)", a); v.remove_suffix(a); whole(v, n - a, p, "remove_suffix"); break; }
    }
    outcome(int64_t(v.size()) * 8 + op);
}
static void views() {
    size_t n = std::vector<size_t>{256, 65536, G2 - 1, G2, G2 + 2, G4 - 1, G4, G4 + 9}[size_t(choose(8))]; say("%zu elements", n); char* p = memory(G4 * 8 + (1 << 24))->p;
#if WHAT == 11
    if (choose(2)) { typedef itlib::span<int64_t> V; auto mk = [](char* q, size_t k) { return V(reinterpret_cast<int64_t*>(q), k); }; V w = mk(p, n); if (w.size_bytes() != n * 8 || w.as_bytes().size() != n * 8 || w.as_writable_bytes().size() != n * 8) fail("size_bytes"); view<V>(n, 8, p, mk); }
    else { typedef itlib::span<char> V; view<V>(n, 1, p, [](char* q, size_t k) { return V(q, q + k); }); }
#elif WHAT == 12
    if (choose(2)) { typedef itlib::stride_span<char> V; size_t st = size_t(1 + choose(3)); view<V>(n, st, p, [&](char* q, size_t k) { return V(reinterpret_cast<uint8_t*>(q), st, k); }); }
    else { typedef itlib::stride_span<char> V; size_t st = std::vector<size_t>{255, 256, 65535, 65536, G2 - 1, G2, G2 + 1, G4 - 1, G4, G4 + 1}[size_t(choose(10))]; size_t k = st > 70000 ? 5 : 300; p = memory(G4 * 8 + (1 << 24))->p; view<V>(k, st, p, [&](char* q, size_t c) { return V(reinterpret_cast<uint8_t*>(q), st, c); }); }
#elif WHAT == 13
    typedef itlib::poly_span<int> V; view<V>(n, 1, p, [](char* q, size_t k) { return V(q, k, ident); });
#else
    typedef itlib::memory_view<char> V; view<V>(n, 1, p, [](char* q, size_t k) { return V(q, k); });
#endif
}
#if WHAT == 13
template <size_t N> struct Wide { char c; char pad[N - 1]; }; template <size_t N> static int ofwide(Wide<N>& w) { return w.c ? w.c : -1; }
template <size_t N> static void wides() { typedef itlib::poly_span<int> V; char* p = memory(G4 * 8 + (1 << 24))->p; view<V>(N > 70000 ? 5 : 300, N, p, [](char* q, size_t k) { return V(reinterpret_cast<Wide<N>*>(q), k, ofwide<N>); }); }
#endif
void mc_setup() {
    add("scale", [] { explore_choices(views); });
#if WHAT == 13
    add("scale_255", [] { explore_choices(wides<255>); }); add("scale_256", [] { explore_choices(wides<256>); }); add("scale_65536", [] { explore_choices(wides<65536>); }); add("scale_65537", [] { explore_choices(wides<65537>); }); add("scale_2g", [] { explore_choices(wides<(size_t(1) << 31)>); }); add("scale_4g", [] { explore_choices(wides<(size_t(1) << 32) + 1>); });
#endif
}
#endif

// P01: span  P02: stride_span  P03: poly_span  P04: memory_view, const_memory_view
#include "tracked.hpp"
#include <csetjmp>
#if PROP == 1
#   include <itlib/span.hpp>
#   include <itlib/span.hpp>
#elif PROP == 2
#   include <itlib/stride_span.hpp>
#   include <itlib/stride_span.hpp>
#elif PROP == 3
#   include <itlib/poly_span.hpp>
#   include <itlib/poly_span.hpp>
#else
#   include <itlib/memory_view.hpp>
#   include <itlib/memory_view.hpp>
#endif
#include <array>
#include <algorithm>
#include <numeric>
using namespace mc;

// bounds checks are assertions: an expected one comes back here
static jmp_buf back; static volatile bool expecting;
extern "C" void __assert_fail(const char* what, const char* file, unsigned line, const char*) noexcept { if (expecting) longjmp(back, 1); fail("Assertion `%s' failed at %s:%u", what, file, line); abort(); }
template <class F> static bool asserts(F f) { expecting = true; bool a = true; if (!setjmp(back)) { f(); a = false; } expecting = false; return a; }

struct S12 { int a; int v; int c; friend bool operator==(const S12& x, const S12& y) { return x.a == y.a && x.v == y.v && x.c == y.c; } };
template <class T> struct Mk { static T at(int i) { return T(i); } };
template <> struct Mk<std::string> { static std::string at(int i) { return std::string(size_t(i) * 3 + 1, char('a' + i)); } };
template <> struct Mk<S12> { static S12 at(int i) { return S12{i, i * 2, -i}; } };
static const size_t MAX = size_t(-1);
// offsets and counts to try on a view of n elements of sz bytes (distance between elements)
static std::vector<size_t> amounts(size_t n, size_t sz) {
    std::vector<size_t> r; for (size_t i = 0; i <= n + 2; ++i) { r.push_back(i); r.push_back(MAX - i); }
    for (size_t x : {MAX / 2, MAX / 2 + 1, MAX / sz, MAX / 2 / sz, MAX / sz + 1, MAX / 2 / sz + 1}) for (size_t d = 0; d <= n + 1; ++d) { r.push_back(x + d); r.push_back(x - d); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
struct Slice { size_t off, n; };
static Slice sub(size_t n, size_t off, size_t count) { if (off > n) return {n, 0}; return {off, std::min(count, n - off)}; }

// everything an iterator can do, for all pairs of positions
template <class It, class Rev, class Addr> static void iterate(It b, It e, Rev rb, Rev re, size_t n, Addr same, bool arith = true) {
    ptrdiff_t N = ptrdiff_t(n); size_t k = 0;
    for (It i = b; i != e; ++i, ++k) { if (k >= n) fail("iteration goes past the end"); if (!same(*i, k)) fail("iteration yields the wrong element at %zu", k); } if (k != n) fail("iteration yields %zu elements of %zu", k, n);
    for (It i = e; i != b;) { --i; --k; if (!same(*i, k)) fail("backward iteration yields the wrong element at %zu", k); }
    k = n; for (Rev i = rb; i != re; ++i) { if (!k) fail("reverse iteration goes past the start"); --k; if (!same(*i, k)) fail("reverse iteration yields the wrong element at %zu", k); } if (k) fail("reverse iteration stops early");
    if (!arith) return;
    std::vector<It> none(2); const It &v1 = none[0], &v2 = none[1]; volatile ptrdiff_t dist = v1 - v2; if (v1 != v2 || !(v1 == v2) || v1 < v2 || dist) fail("iterators of nothing differ");
    for (ptrdiff_t i = 0; i <= N; ++i) for (ptrdiff_t j = 0; j <= N; ++j) {
        It x = b + i, y = e - (N - j);
        if (x - y != i - j) fail("the difference of the iterators %td and %td is %td", i, j, x - y);
        if ((x == y) != (i == j) || (x != y) != (i != j) || (x < y) != (i < j) || (x > y) != (i > j) || (x <= y) != (i <= j) || (x >= y) != (i >= j)) fail("comparison of the iterators %td and %td", i, j);
        It z = x; if (&(z += j - i) != &z || z != y) fail("iterator += %td", j - i); if (&(z -= j - i) != &z || z != x) fail("iterator -= %td", j - i);
        if (x + (j - i) != y || x - (i - j) != y) fail("iterator +- %td", j - i); if (std::distance(x, y) != j - i) fail("std::distance"); It w = x; std::advance(w, j - i); if (w != y) fail("std::advance");
        if (j < N && !same(*(x + (j - i)), size_t(j))) fail("the wrong element at %td", j);
        if (i < N) { It p = x; if (&++p != &p || p != b + (i + 1)) fail("++"); if (&--p != &p || p != x) fail("--"); }
        Rev r = rb + i, s = re - (N - j); if (r - s != i - j || (r < s) != (i < j) || (r == s) != (i == j)) fail("reverse iterators %td and %td", i, j); if (i < N && !same(*r, size_t(N - 1 - i))) fail("the wrong element in reverse at %td", i);
    }
}
// bounds checks of at and []
template <class V> static void bounds(V& v, size_t n) {
#ifndef NDEBUG
    for (size_t i : {n, n + 1, MAX, MAX / 2, size_t(1) << 32, (size_t(1) << 32) + 1, MAX / 4 + 1, MAX / 8 + 1}) if (i >= n) { if (!asserts([&] { (void)v.at(i); })) fail("at(%zu) of %zu elements is not checked", i, n); if (!asserts([&] { (void)v[i]; })) fail("[%zu] of %zu elements is not checked", i, n); }
#endif
    for (size_t i = 0; i < n; ++i) { (void)v.at(i); (void)v[i]; }
}
struct Cfg { int n; size_t stride; };
enum { SUB, SUB1, FIRST, LAST, PREFIX, SUFFIX, COPY, MOVE, ASSIGN, MOVEASSIGN, SELF, RESETS, RESIZE };
template <class W> struct Chains {
    static std::string text(const Cfg&, const Op& o) { static const char* n[] = {"subspan", "subspan", "first", "last", "remove_prefix", "remove_suffix", "copy", "move", "assign", "move assign", "self assign", "reset", "reset size"}; return std::string(n[o.code]) + "(#" + std::to_string(o.a) + ", #" + std::to_string(o.b) + ")"; }
};
template <class V> struct Adapt;     // differences between the views
#if PROP == 1
template <class T> struct Adapt<itlib::span<T>> {
    typedef typename std::remove_const<T>::type E; static constexpr bool shallow = true, cst = std::is_const<T>::value; static itlib::span<T> make(E* p, size_t, size_t n) { return itlib::span<T>(p, n); } static itlib::span<T> sub(itlib::span<T>& v, size_t a, size_t b) { return v.subspan(a, b); } static itlib::span<T> sub(itlib::span<T>& v, size_t a) { return v.subspan(a); } static constexpr bool slices = true, resets = false;
    static size_t dist(size_t) { return sizeof(T); }
};
#elif PROP == 2
template <class T> struct Adapt<itlib::stride_span<T>> {
    typedef typename std::remove_const<T>::type E; typedef itlib::stride_span<T> V; static constexpr bool shallow = false, cst = std::is_const<T>::value; static V make(E* p, size_t st, size_t n) { return V(reinterpret_cast<typename V::byte_t*>(p), st * sizeof(E), n); } static V sub(V& v, size_t a, size_t b) { return v.subspan(a, b); } static V sub(V& v, size_t a) { return v.subspan(a); } static constexpr bool slices = true, resets = false;
    static size_t dist(size_t st) { return sizeof(T) * st; }
};
#elif PROP == 3
template <class E> static E& ident(E& e) { return e; }
template <class T> struct Adapt<itlib::poly_span<T&>> {
    typedef typename std::remove_const<T>::type E; typedef itlib::poly_span<T&> V; static constexpr bool shallow = true, cst = std::is_const<T>::value; static V make(E* p, size_t, size_t n) { return V(static_cast<T*>(p), n, ident<T>); } static V sub(V& v, size_t a, size_t b) { return v.subspan(a, b); } static V sub(V& v, size_t a) { return v.subspan(a); } static constexpr bool slices = true, resets = false;
    static size_t dist(size_t) { return sizeof(T); }
};
#else
template <class T> struct Adapt<itlib::memory_view<T>> {
    typedef T E; typedef itlib::memory_view<T> V; static constexpr bool shallow = false, cst = false; static V make(E* p, size_t, size_t n) { return V(p, n); } static V sub(V& v, size_t a, size_t b) { return v.slice(a, b); } static V sub(V& v, size_t a) { return v.slice(a); } static constexpr bool slices = false, resets = true; static size_t dist(size_t) { return sizeof(T); }
};
template <class T> struct Adapt<itlib::const_memory_view<T>> {
    typedef T E; typedef itlib::const_memory_view<T> V; static constexpr bool shallow = false, cst = true; static V make(E* p, size_t, size_t n) { return V(p, n); } static V sub(V& v, size_t a, size_t b) { return v.slice(a, b); } static V sub(V& v, size_t a) { return v.slice(a); } static constexpr bool slices = false, resets = true; static size_t dist(size_t) { return sizeof(T); }
};
#endif
template <class V> struct World : Chains<World<V>> {
    typedef Adapt<V> A; typedef typename A::E E;
    const Cfg& c; std::unique_ptr<E[]> mem; size_t total; E* base; V v; size_t off = 0, n; std::vector<size_t> am;
    // the memory around the view is addressable: a view reaching too far is found by its addresses
    World(const Cfg& cfg) : c(cfg), mem(new E[(size_t(cfg.n) + 8) * cfg.stride]), total((size_t(cfg.n) + 8) * cfg.stride), base(mem.get() + 4 * cfg.stride), v(A::make(base, cfg.stride, size_t(cfg.n))), n(size_t(cfg.n)) { for (size_t i = 0; i < total; ++i) mem[i] = Mk<E>::at(int(i)); am = amounts(n, A::dist(c.stride)); }
    void enumerate(std::vector<Op>& o) {
        am = amounts(n, A::dist(c.stride)); int k = int(am.size());
        for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) { size_t b = am[size_t(j)]; if (thorough || b <= n + 1 || b >= MAX - 1 || b == MAX / 2 || b == MAX / A::dist(c.stride) + 1) o.push_back(Op{SUB, i, j, 0}); } o.push_back(Op{SUB1, i, 0, 0}); if (A::slices) { o.push_back(Op{FIRST, i, 0, 0}); o.push_back(Op{LAST, i, 0, 0}); } if (am[size_t(i)] <= n) { o.push_back(Op{PREFIX, i, 0, 0}); o.push_back(Op{SUFFIX, i, 0, 0}); if (A::resets) { o.push_back(Op{RESETS, i, 0, 0}); o.push_back(Op{RESIZE, i, 0, 0}); } } }
        for (int code : {COPY, MOVE, ASSIGN, MOVEASSIGN, SELF}) o.push_back(Op{code, 0, 0, 0});
    }
    void became(Slice s) { off += s.off; n = s.n; }
    void apply(const Op& o) {
        am = amounts(n, A::dist(c.stride)); size_t a = am[size_t(o.a)], b = am[size_t(o.b)]; V x(v);
        switch (o.code) {
        case SUB: v = A::sub(x, a, b); became(sub(n, a, b)); break;
        case SUB1: v = A::sub(x, a); became(sub(n, a, MAX)); break;
        case FIRST: if constexpr (A::slices) { v = x.first(a); became(sub(n, 0, a)); } break;
        case LAST: if constexpr (A::slices) { v = x.last(a); if (a <= n) became({n - a, a}); else { // more than there is: anything inside
                ptrdiff_t d = reinterpret_cast<const char*>(v.data()) - reinterpret_cast<const char*>(base + off * c.stride); size_t dist = A::dist(c.stride); if (v.size() > n || d < 0 || size_t(d) > n * dist || size_t(d) % dist || size_t(d) / dist + v.size() > n) fail("last(%zu) of %zu elements reaches outside: %zu elements from byte %td", a, n, v.size(), d); became({size_t(d) / dist, v.size()}); } } break;
        case PREFIX: v.remove_prefix(a); became({a, n - a}); break;
        case SUFFIX: v.remove_suffix(a); became({0, n - a}); break;
        case COPY: { V y(v); v.remove_suffix(n); v = y; break; }
        case MOVE: { V y(std::move(v)); V z = std::move(y); v = z; break; }
        case ASSIGN: { V y; y = v; v.remove_prefix(n); v = y; break; }
        case MOVEASSIGN: { V y; y = std::move(v); v = std::move(y); break; }
        case SELF: { V& y = v; v = y; break; }
        case RESETS: if constexpr (A::resets) { V y; if (y) fail("a default view is not empty"); y.reset(base + off + a, n - a); v.reset(); if (v || v.size() || v.data() || !v.empty()) fail("reset()"); v = y; became({a, n - a}); } break;
        case RESIZE: if constexpr (A::resets) { v.reset(a); became({0, a}); } break;
        }
    }
    template <class X> void reads(X& x) {
        auto addr = [&](size_t i) { return base + (off + i) * c.stride; };
        auto same = [&](auto& e, size_t i) { return static_cast<const volatile void*>(&e) == static_cast<const volatile void*>(addr(i)); };
        if (x.size() != n || x.empty() != (n == 0)) fail("size() is %zu, expected %zu", x.size(), n); if (!x) fail("a view of memory is false");
        if (reinterpret_cast<const char*>(x.data()) != reinterpret_cast<const char*>(addr(0))) fail("data() is off by %td bytes", reinterpret_cast<const char*>(x.data()) - reinterpret_cast<const char*>(addr(0)));
        for (size_t i = 0; i < n; ++i) if (!same(x[i], i) || !same(x.at(i), i)) fail("element %zu is elsewhere", i); if (n && (!same(x.front(), 0) || !same(x.back(), n - 1))) fail("front or back");
        iterate(x.begin(), x.end(), x.rbegin(), x.rend(), n, same);
        if (x.cbegin() != static_cast<const X&>(x).begin() || x.cend() != static_cast<const X&>(x).end()) fail("cbegin or cend"); bounds(x, n);
#if PROP == 1 || PROP == 4
        iterate(x.cbegin(), x.cend(), x.crbegin(), x.crend(), n, same);
#endif
#if PROP == 2
        if (x.stride() != c.stride * sizeof(E)) fail("stride()"); { size_t k = 0; for (auto i = x.begin(); i != x.end(); ++i, ++k) if (!same(*i.ptr(), k) || !same(*i.operator->(), k)) fail("ptr of the iterator"); }
#elif PROP == 3
        if (x.stride() != sizeof(E)) fail("stride()");
#endif
#if PROP == 1
        if (x.size_bytes() != n * sizeof(E)) fail("size_bytes()"); auto by = x.as_bytes(); auto wb = x.as_writable_bytes(); if (by.size() != n * sizeof(E) || wb.size() != by.size() || static_cast<const void*>(by.data()) != addr(0) || static_cast<const void*>(wb.data()) != addr(0)) fail("as_bytes");
        static_assert(std::is_same<decltype(by), itlib::span<const uint8_t>>::value && std::is_same<decltype(wb), itlib::span<typename std::conditional<A::cst, const uint8_t, uint8_t>::type>>::value, "");
#endif
    }
    // writing through the view changes exactly its elements
    template <class F> void writes(const char* what, F f) {
        std::vector<E> before(mem.get(), mem.get() + total); f();
        for (size_t i = 0; i < total; ++i) { size_t k = i - size_t(base - mem.get()); bool in = i >= size_t(base - mem.get()) + off * c.stride && k % c.stride == 0 && k / c.stride < off + n; if ((mem[i] == before[i]) == in) fail("%s: element %zu of the memory is %s", what, i, in ? "not written" : "written"); }
        for (size_t i = 0; i < total; ++i) mem[i] = before[i];
    }
    void observe(Key& key) {
        reads(v); reads(static_cast<const V&>(v));
        if constexpr (!A::cst) { E w = Mk<E>::at(100);
            writes("[]", [&] { for (size_t i = 0; i < v.size(); ++i) v[i] = w; }); writes("iterators", [&] { for (auto& e : v) e = w; }); writes("std::fill", [&] { std::fill(v.begin(), v.end(), w); }); writes("reverse", [&] { for (auto i = v.rbegin(); i != v.rend(); ++i) *i = w; });
            if (n) { auto s = v; writes("front and back", [&] { for (size_t i = 0; i < n; ++i) { if (i % 2) { s.front() = w; s.remove_prefix(1); } else { s.back() = w; s.remove_suffix(1); } } }); }
        }
        key.add(int64_t(off)); key.add(int64_t(n));
    }
    void finish() {}
};
template <class V> static void views(const std::string& name, int maxn, std::vector<size_t> strides = {1}) { if (MC_SHALLOW && maxn > 3) --maxn; for (int n = 0; n <= maxn; ++n) for (size_t s : strides) { static std::vector<std::string> names; names.reserve(256); names.push_back(name + (strides.size() > 1 ? "_" + std::to_string(s) : "") + "_" + std::to_string(n)); add(names.back().c_str(), [=] { static Cfg k; k = Cfg{n, s}; explore_bfs<World<V>>(k, BfsOpt{thorough ? 12 : 8, thorough && n < 4 ? 2 : 1}); }); } }
#if PROP == 1
template <class C, class V> static void from(C& c, V v, bool cst) { typedef typename std::remove_pointer<decltype(v.data())>::type T; if (v.data() != c.data() || v.size() != c.size()) fail("a span of a container"); if (std::is_const<T>::value != cst) fail("constness"); }
template <int N> static void array() { int a[N]; const int* p = a; std::iota(a, a + N, 0); itlib::span<int> s(a); itlib::span<const int> t(a); itlib::span<const int> u(p, p + N); const int ca[N] = {1}; itlib::span<const int> w(ca); if (s.data() != a || s.size() != N || t.data() != a || t.size() != N || u.data() != a || u.size() != N || w.data() != ca || w.size() != N) fail("a span of an array"); auto m = itlib::make_span(a); auto cm = itlib::make_span(ca); static_assert(std::is_same<decltype(m), itlib::span<int>>::value && std::is_same<decltype(cm), itlib::span<const int>>::value, ""); if (m.data() != a || m.size() != N || cm.data() != ca || cm.size() != N) fail("make_span of an array"); }
static void constructions() {
    int n = choose(7); std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); const auto& cv = v; std::array<int, 4> ar{{1, 2, 3, 4}}; const auto& car = ar; std::string str(size_t(n), 'x'); const std::string& cstr = str;
    from(v, itlib::span<int>(v), false); from(v, itlib::span<const int>(v), true); from(cv, itlib::span<const int>(cv), true); from(ar, itlib::span<int>(ar), false); from(car, itlib::span<const int>(car), true); from(str, itlib::span<char>(str), false); from(cstr, itlib::span<const char>(cstr), true); from(str, itlib::span<const char>(str), true);
    from(v, itlib::make_span(v), false); from(cv, itlib::make_span(cv), true); from(ar, itlib::make_span(ar), false); from(car, itlib::make_span(car), true); from(v, itlib::make_span(v.data(), v.size()), false); from(v, itlib::make_span(cv.data(), v.data() ? v.size() : 0), true); from(v, itlib::make_span(v.data(), v.data() + v.size()), false);
    itlib::span<int> s(v); itlib::span<const int> c(s), d; d = s; from(v, c, true); from(v, d, true); from(v, itlib::span<const int>(itlib::span<int>(v)), true); const itlib::span<int> cs(v); itlib::span<const int> e(cs); from(v, e, true); from(s, itlib::span<int>(cs), false); auto ms = itlib::make_span(s); from(v, ms, false);
    itlib::span<int> z; itlib::span<const int> cz(z); if (z || cz || !z.empty() || z.size() || z.data() || z.begin() != z.end() || cz.size()) fail("an empty span"); if (z.subspan(0).size() || z.first(3).size() || z.size_bytes()) fail("slices of an empty span"); d = z; if (d) fail("assignment of an empty span");
    itlib::span ded(v); from(v, ded, false); itlib::span ded2(cv); from(v, ded2, true); itlib::span ded3(v.data(), v.size()); from(v, ded3, false);
    array<1>(); array<2>(); array<5>();
}
typedef itlib::span<int> SI; typedef itlib::span<const int> SC;
static_assert(!std::is_constructible<SI, SC>::value && !std::is_assignable<SI&, SC>::value && !std::is_constructible<SI, const std::vector<int>&>::value && !std::is_constructible<SI, const int*, size_t>::value && !std::is_constructible<SI, const int*, const int*>::value && !std::is_constructible<SC, std::vector<int>&&>::value && !std::is_constructible<SI, std::vector<int>&&>::value, "constness and temporaries");
static_assert(std::is_convertible<std::vector<int>&, SI>::value && std::is_convertible<SI, SC>::value && !std::is_convertible<SI, bool>::value && !std::is_constructible<itlib::span<long>, std::vector<int>&>::value && !std::is_constructible<itlib::span<int>, itlib::span<short>>::value, "");
static_assert(std::is_same<decltype(std::declval<const SI&>()[0]), int&>::value && std::is_same<decltype(*std::declval<const SI&>().begin()), int&>::value && std::is_same<decltype(*std::declval<SI&>().cbegin()), const int&>::value && std::is_same<decltype(std::declval<SC&>()[0]), const int&>::value && std::is_same<decltype(std::declval<SC&>().data()), const int*>::value && std::is_same<decltype(*std::declval<SI&>().crbegin()), const int&>::value, "constness");
struct Bs { int b; }; struct Dv : Bs { int d; }; typedef itlib::span<Bs> SB; typedef itlib::span<const Bs> SCB;
static_assert(!std::is_constructible<SB, Dv*, size_t>::value && !std::is_constructible<SB, Dv*, Dv*>::value && !std::is_constructible<SB, itlib::span<Dv>&>::value && !std::is_constructible<SB, std::vector<Dv>&>::value && !std::is_constructible<SB, Dv(&)[2]>::value && !std::is_constructible<SCB, const Dv*, size_t>::value && !std::is_constructible<SCB, Dv*, Dv*>::value && !std::is_constructible<SCB, const std::vector<Dv>&>::value && !std::is_constructible<SCB, const itlib::span<Dv>&>::value && !std::is_assignable<SB&, itlib::span<Dv>&>::value && !std::is_assignable<SCB&, itlib::span<Dv>&>::value && std::is_constructible<SCB, Bs*, size_t>::value && std::is_constructible<SCB, itlib::span<Bs>&>::value && std::is_assignable<SCB&, itlib::span<Bs>&>::value, "elements of another size cannot be viewed");
void mc_setup() { views<SI>("int", 6); views<SC>("const_int", 4); views<itlib::span<char>>("char", 6); views<itlib::span<S12>>("struct", 5); views<itlib::span<std::string>>("string", 3); views<itlib::span<const double>>("double", 3); add("constructions", [] { explore_choices(constructions); }); }
#elif PROP == 2
struct B1 { int x; virtual ~B1() {} }; struct B2 { int y; virtual int id() const { return y; } virtual ~B2() {} }; struct D : B1, B2 { int z; int id() const override { return -y; } };
struct Rec { char c; int f; const short k; std::string s; double d; };
template <class F, class V> static void member(V v, const Rec* r, size_t n, F Rec::* m, bool cst) { if (v.size() != n) fail("a member view has %zu elements", v.size()); for (size_t i = 0; i < n; ++i) if (static_cast<const volatile void*>(&v[i]) != static_cast<const volatile void*>(&(r[i].*m))) fail("member %zu is elsewhere", i); if (std::is_const<typename V::element_type>::value != cst) fail("constness"); if (v.stride() != sizeof(Rec)) fail("stride"); }
static void constructions() {
    size_t n = size_t(choose(6)); std::vector<Rec> recs; for (size_t i = 0; i < n; ++i) recs.push_back(Rec{char(i), int(i) * 3, short(i), std::string(i, 'a'), 1.0}); recs.reserve(n + 1); Rec* r = recs.data(); const Rec* cr = r;
    member(itlib::make_stride_span_member_view(r, n, &Rec::f), r, n, &Rec::f, false); member(itlib::make_stride_span_member_view(cr, n, &Rec::f), r, n, &Rec::f, true); member(itlib::make_stride_span_member_view(r, n, &Rec::s), r, n, &Rec::s, false); member(itlib::make_stride_span_member_view(cr, n, &Rec::s), r, n, &Rec::s, true); member(itlib::make_stride_span_member_view(r, n, &Rec::c), r, n, &Rec::c, false); member(itlib::make_stride_span_member_view(r, n, &Rec::k), r, n, &Rec::k, true); member(itlib::make_stride_span_member_view(cr, n, &Rec::d), r, n, &Rec::d, true);
    std::vector<D> ds(n + 1); for (size_t i = 0; i < n; ++i) ds[i].y = int(i) + 1;
    { auto a = itlib::make_stride_span_base_view<B1>(ds.data(), n); auto b = itlib::make_stride_span_base_view<B2>(ds.data(), n); const D* cd = ds.data(); auto e = itlib::make_stride_span_base_view<const B2>(cd, n); if (a.size() != n || b.size() != n || e.size() != n) fail("a base view has another size"); for (size_t i = 0; i < n; ++i) if (&a[i] != static_cast<B1*>(&ds[i]) || &b[i] != static_cast<B2*>(&ds[i]) || &e[i] != static_cast<B2*>(&ds[i]) || b[i].id() != -int(i) - 1) fail("base %zu is elsewhere", i); }
    int ar[24]; std::iota(ar, ar + 24, 0); const int* car = ar; size_t len = 6 + size_t(choose(7)), o = size_t(choose(int(len))), st = 1 + size_t(choose(5));
    { auto s = itlib::make_stride_span_from_array(ar, len, o, st); auto t = itlib::make_stride_span_from_array(car, len, o, st); size_t k = 0; for (size_t i = o; i < len; i += st, ++k) if (k >= s.size() || &s[k] != ar + i || k >= t.size() || &t[k] != car + i) fail("every %zu-th from %zu of %zu: element %zu is wrong", st, o, len, k); if (s.size() != k || t.size() != k) fail("every %zu-th from %zu of %zu: %zu elements", st, o, len, s.size()); static_assert(std::is_same<decltype(t), itlib::stride_span<const int>>::value, ""); }
    { auto s = itlib::make_stride_span_from_array(ar, len); if (s.size() != len || (&s[0] != ar) || s.stride() != sizeof(int)) fail("a whole array"); }
    { auto s = itlib::make_stride_span_from_buf<short>(ar, o * 4 + 2, 8 * st, 3); for (size_t i = 0; i < 3; ++i) if (asserts([&] { s[i]; }) || reinterpret_cast<char*>(&s[i]) != reinterpret_cast<char*>(ar) + o * 4 + 2 + 8 * st * i) fail("from a buffer: element %zu", i); auto t = itlib::make_stride_span_from_buf(ar + o, 4 * st, 2); if (&t[1] != ar + o + st || t.size() != 2) fail("from a buffer"); auto cs = itlib::make_stride_span_from_buf<const short>(car, 2, 4, 3); if (reinterpret_cast<const char*>(&cs[2]) != reinterpret_cast<const char*>(ar) + 10) fail("from a const buffer"); }
    { auto s = itlib::make_stride_span_from_buf(ar + o, 4 * st, n); itlib::stride_span<const int> c(s), d; d = s; auto e = c; if (c.size() != n || d.size() != n || c.stride() != 4 * st || d.stride() != 4 * st || c.data() != s.data() || d.data() != s.data() || e.data() != s.data()) fail("a const view of a view"); for (size_t i = 0; i < n; ++i) if (&c[i] != &s[i] || &d[i] != &s[i]) fail("a const view of a view"); }
    { itlib::stride_span<int> z; itlib::stride_span<const int> cz(z); if (z || cz || z.size() || !z.empty() || z.data() || z.begin() != z.end() || z.end() - z.begin() != 0 || z.subspan(0).size() || z.first(2).size()) fail("an empty view"); }
    // algorithms on a view leave the elements in between alone
    { int m[15]; size_t k = 5; int code = choose(4); int p[5] = {3, 1, 4, 1, 5}; for (int i = 0; i < 15; ++i) m[i] = i % 3 == 1 ? p[i / 3] : -i; auto s = itlib::make_stride_span_from_array(m, 15, 1, 3); std::vector<int> e(p, p + 5); if (s.size() != k) fail("size"); std::vector<int> w(e);
      if (code == 0) { std::sort(s.begin(), s.end()); std::sort(w.begin(), w.end()); } else if (code == 1) { std::reverse(s.begin(), s.end()); std::reverse(w.begin(), w.end()); } else if (code == 2) { std::copy(w.begin(), w.begin() + 3, s.begin() + 2); std::copy_backward(e.begin(), e.begin() + 3, w.begin() + 5); } else { std::sort(s.rbegin(), s.rend()); std::sort(w.rbegin(), w.rend()); auto lb = std::lower_bound(s.rbegin(), s.rend(), 3); if (lb - s.rbegin() != 2) fail("lower_bound"); }
      for (int i = 0; i < 15; ++i) if (m[i] != (i % 3 == 1 ? w[size_t(i / 3)] : -i)) fail("an algorithm on a view gave something else, or wrote in between"); }
}
typedef itlib::stride_span<int> SI; typedef itlib::stride_span<const int> SC;
static_assert(!std::is_constructible<SI, SC>::value && !std::is_assignable<SI&, SC>::value && std::is_convertible<SI, SC>::value && !std::is_convertible<SI, bool>::value && !std::is_constructible<SI, const uint8_t*, size_t, size_t>::value, "constness");
static_assert(std::is_same<decltype(std::declval<const SI&>()[0]), const int&>::value && std::is_same<decltype(std::declval<SI&>()[0]), int&>::value && std::is_same<decltype(*std::declval<const SI&>().begin()), const int&>::value && std::is_same<decltype(*std::declval<SI&>().begin()), int&>::value && std::is_same<decltype(*std::declval<SI&>().cbegin()), const int&>::value && std::is_same<decltype(std::declval<const SI&>().data()), const uint8_t*>::value && std::is_same<decltype(*std::declval<const SI&>().rbegin()), const int&>::value && std::is_same<decltype(std::declval<const SI&>().front()), const int&>::value && std::is_same<decltype(std::declval<const SI&>().back()), const int&>::value && std::is_same<decltype(std::declval<const SI&>().at(0)), const int&>::value, "const views do not permit writes");
void mc_setup() { views<SI>("int", 5, {1, 3}); views<SC>("const_int", 4, {1, 2}); views<itlib::stride_span<char>>("char", 4, {1, 3, 7}); views<itlib::stride_span<S12>>("struct", 4, {1, 2}); views<itlib::stride_span<std::string>>("string", 3, {1, 2}); add("constructions", [] { explore_choices(constructions); }); }
#elif PROP == 3
struct Animal { int legs; explicit Animal(int l = 0) : legs(l) {} virtual int say() const { return legs; } virtual ~Animal() {} }; struct Other { double d; virtual ~Other() {} }; struct Dog : Other, Animal { std::string name; Dog(int i = 0) : Animal(i), name(size_t(i), 'd') {} int say() const override { return legs * 10 + 1; } };
static Animal& up(Dog& d) { return d; } static const Animal& cup(const Dog& d) { return d; } static int called;
static void conversions() {
    size_t n = size_t(choose(6)); std::vector<Dog> dogs; for (size_t i = 0; i < n; ++i) dogs.push_back(Dog(int(i) + 1)); dogs.reserve(n + 1); Dog* p = dogs.data(); const Dog* cp = p; auto am = amounts(n, sizeof(Dog)); size_t off = pick(am), cnt = pick(am); Slice sl = sub(n, off, cnt);
    called = 0; itlib::poly_span<Animal&> a(p, n, up); itlib::poly_span<const Animal&> ca(cp, n, cup); itlib::poly_span<const std::string&> names(cp, n, [](const Dog& d) -> const std::string& { ++called; return d.name; }); itlib::poly_span<std::string> vals(p, n, [](Dog& d) { ++called; return d.name + "!"; }); itlib::poly_span<Animal*> ptrs(p, n, [](Dog& d) -> Animal* { return &d; }); itlib::poly_span<int> nums(p, n, [](Dog& d) { return d.say(); }); itlib::poly_span<std::unique_ptr<int>> uniq(p, n, [](Dog& d) { return std::unique_ptr<int>(new int(d.legs)); });
    for (int pass = 0; pass < 2; ++pass) {
        size_t b = pass ? sl.off : 0, m = pass ? sl.n : n;
        if (pass) { a = a.subspan(off, cnt); ca = ca.subspan(off, cnt); names = names.subspan(off, cnt); vals = vals.subspan(off, cnt); ptrs = ptrs.subspan(off, cnt); nums = nums.subspan(off, cnt); uniq = uniq.subspan(off, cnt); }
        const auto ka = a; const auto knames = names; const auto kvals = vals; const auto kptrs = ptrs; auto copy = vals; if (called) fail("the accessor was called without need"); called = 0;
        if (a.size() != m || vals.size() != m || nums.size() != m) fail("size"); if (ka.size() != m || ka.stride() != sizeof(Dog)) fail("copy");
        for (size_t i = 0; i < m; ++i) { Dog& d = p[b + i]; if (&a[i] != &d || &ca[i] != &d || &ka[i] != &d || &names[i] != &d.name || &knames[i] != &d.name || vals[i] != d.name + "!" || kvals.at(i) != d.name + "!" || copy[i] != vals[i] || ptrs[i] != &d || kptrs[i] != &d || nums[i] != d.say() || a[i].say() != d.legs * 10 + 1 || *uniq[i] != d.legs) fail("element %zu", i); }
        called = 0; for (size_t i = 0; i < m; ++i) (void)vals[i]; if (called != int(m)) fail("the accessor was called %d times for %zu elements", called, m);
        iterate(a.begin(), a.end(), a.rbegin(), a.rend(), m, [&](const Animal& e, size_t i) { return &e == &p[b + i]; }); iterate(names.begin(), names.end(), names.rbegin(), names.rend(), m, [&](const std::string& e, size_t i) { return &e == &p[b + i].name; }); iterate(vals.begin(), vals.end(), vals.rbegin(), vals.rend(), m, [&](const std::string& e, size_t i) { return e == p[b + i].name + "!"; }); iterate(kvals.begin(), kvals.end(), kvals.rbegin(), kvals.rend(), m, [&](const std::string& e, size_t i) { return e == p[b + i].name + "!"; }); iterate(nums.begin(), nums.end(), nums.rbegin(), nums.rend(), m, [&](int e, size_t i) { return e == p[b + i].say(); }); iterate(kptrs.begin(), kptrs.end(), kptrs.rbegin(), kptrs.rend(), m, [&](Animal* e, size_t i) { return e == &p[b + i]; });
        if (m) { if (&a.front() != &p[b] || &ka.back() != &p[b + m - 1] || vals.front() != p[b].name + "!" || nums.back() != p[b + m - 1].say()) fail("front or back"); } bounds(vals, m); bounds(kvals, m); bounds(a, m); called = 0;
    }
    { itlib::poly_span<int> z; if (z || z.size() || !z.empty() || z.data() || z.begin() != z.end() || z.subspan(0).size() || z.end() - z.begin() != 0) fail("an empty view"); }
    if (n) { bool t = false; itlib::poly_span<int> th(p, n, [](Dog& d) -> int { if (d.legs == 1) throw Boom{4}; return d.legs; }); try { th[0]; } catch (Boom& b) { t = b.v == 4; } if (!t) fail("the exception of the accessor disappeared"); if (n > 1 && th[1] != 2) fail("after an exception"); }
    outcome(int(n * 100 + sl.off * 10 + sl.n));
}
typedef itlib::poly_span<int&> PI;
static_assert(!std::is_constructible<PI, int*, size_t, int (*)(const int&)>::value && !std::is_convertible<PI, bool>::value && std::is_same<decltype(std::declval<itlib::poly_span<const int&>&>()[0]), const int&>::value && std::is_same<decltype(*std::declval<PI&>().begin()), int&>::value, "");
void mc_setup() { views<PI>("int", 5); views<itlib::poly_span<const int&>>("const_int", 4); views<itlib::poly_span<char&>>("char", 5); views<itlib::poly_span<S12&>>("struct", 4); views<itlib::poly_span<std::string&>>("string", 3); add("conversions", [] { explore_choices(conversions); }); }
#else
template <class C, class V> static void from(C& c, V v, size_t off) { if (v.data() != c.data() + off || v.size() != c.size() - off) fail("a view of a container"); }
static void constructions() {
    size_t n = size_t(choose(7)), off = size_t(choose(int(n) + 1)); std::vector<int> v(n + 1); v.resize(n); const auto& cv = v; std::array<int, 4> ar{{1, 2, 3, 4}}; const auto& car = ar; std::string str(n, 'x'); const std::string& cstr = str;
    from(v, itlib::make_memory_view(v), 0); from(v, itlib::make_memory_view(v, off), off); from(cv, itlib::make_memory_view(cv), 0); from(cv, itlib::make_memory_view(cv, off), off); from(str, itlib::make_memory_view(str, off), off); from(cstr, itlib::make_memory_view(cstr, off), off); from(ar, itlib::make_memory_view(ar, off % 5), off % 5); from(car, itlib::make_memory_view(car, off % 5), off % 5); from(v, itlib::make_memory_view(v.data(), n), 0); from(v, itlib::make_memory_view(cv.data(), n), 0);
    static_assert(std::is_same<decltype(itlib::make_memory_view(v)), itlib::memory_view<int>>::value && std::is_same<decltype(itlib::make_memory_view(cv)), itlib::const_memory_view<int>>::value && std::is_same<decltype(itlib::make_memory_view(cv.data(), n)), itlib::const_memory_view<int>>::value && std::is_same<decltype(itlib::make_memory_view(v.data(), n)), itlib::memory_view<int>>::value, "");
    const int ca[5] = {1, 2, 3, 4, 5}; int a[3]; auto x = itlib::make_memory_view(ca); auto y = itlib::make_memory_view(a); if (x.data() != ca || x.size() != 5 || y.data() != a || y.size() != 3) fail("a view of an array");
    auto m = itlib::make_memory_view(v, off); itlib::const_memory_view<int> c(m), d; d = m; const auto km = m; itlib::const_memory_view<int> e(km); from(v, c, off); from(v, d, off); from(v, e, off); if (m.get() != m.data() || c.get() != c.data() || km.get() != m.data()) fail("get()");
    itlib::memory_view<int> z; itlib::const_memory_view<int> cz; if (z || cz || z.size() || cz.size() || z.data() || cz.data() || !z.empty() || !cz.empty() || z.begin() != z.end() || z.slice(0).size() || cz.slice(0, 2).size()) fail("an empty view");
}
typedef itlib::memory_view<int> MV; typedef itlib::const_memory_view<int> CV;
static_assert(!std::is_constructible<MV, CV>::value && !std::is_constructible<MV, const int*, size_t>::value && std::is_convertible<MV, CV>::value && !std::is_convertible<MV, bool>::value && !std::is_convertible<CV, bool>::value, "constness");
static_assert(std::is_same<decltype(std::declval<const MV&>()[0]), const int&>::value && std::is_same<decltype(std::declval<MV&>()[0]), int&>::value && std::is_same<decltype(std::declval<CV&>()[0]), const int&>::value && std::is_same<decltype(*std::declval<const MV&>().begin()), const int&>::value && std::is_same<decltype(std::declval<const MV&>().data()), const int*>::value && std::is_same<decltype(std::declval<const MV&>().get()), const int*>::value && std::is_same<decltype(std::declval<const MV&>().front()), const int&>::value && std::is_same<decltype(std::declval<const MV&>().back()), const int&>::value && std::is_same<decltype(*std::declval<const MV&>().rbegin()), const int&>::value, "const views do not permit writes");
struct Bs { int b; }; struct Dv : Bs { int d; }; typedef itlib::memory_view<Bs> MB; typedef itlib::const_memory_view<Bs> CB;
static_assert(!std::is_constructible<MB, itlib::memory_view<Dv>&>::value && !std::is_constructible<CB, itlib::memory_view<Dv>&>::value && !std::is_constructible<CB, itlib::const_memory_view<Dv>&>::value && !std::is_assignable<CB&, itlib::memory_view<Dv>&>::value, "elements of another size cannot be viewed");
void mc_setup() { views<MV>("int", 6); views<CV>("const_int", 5); views<itlib::memory_view<char>>("char", 5); views<itlib::memory_view<S12>>("struct", 4); views<itlib::const_memory_view<std::string>>("const_string", 3); views<itlib::memory_view<std::string>>("string", 3); add("constructions", [] { explore_choices(constructions); }); }
#endif

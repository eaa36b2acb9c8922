// X01: bit_cast, owner_from_member, force_move, make_nullptr and the type traits
#include "tracked.hpp"
#include <itlib/utility.hpp>
#include <itlib/utility.hpp>
#include <itlib/type_traits.hpp>
#include <itlib/type_traits.hpp>
#include <map>
using namespace mc;
// ---------------------------------------------------------------- bit_cast: through every pair of types of a size
template <size_t N> struct Bytes { unsigned char b[N]; };
template <size_t N> struct Halves { unsigned char lo[N / 2 + N % 2]; unsigned char hi[N - N / 2 - N % 2 ? N - N / 2 - N % 2 : 1]; };
#pragma pack(push, 1)
struct Packed7 { uint32_t a; uint16_t b; uint8_t c; }; struct Packed12 { uint64_t a; uint32_t b; };
#pragma pack(pop)
struct Fields8 { float f; int16_t s; uint8_t c[2]; }; struct Fields16 { double d; void* p; }; enum E8 : uint8_t {}; enum class E16 : int16_t {}; enum class E64 : uint64_t {}; struct alignas(16) Al16 { uint64_t a[2]; }; struct Bits4 { unsigned a : 3, b : 13, c : 16; };
static unsigned char pat[64];
template <class D, class S> static void via() {
    static_assert(sizeof(D) == sizeof(S), "harness"); struct Box { unsigned char g0[16]; alignas(S) unsigned char raw[sizeof(S)]; unsigned char g1[16]; } box; memset(&box, 0x5B, sizeof box); memcpy(box.raw, pat, sizeof(S)); const S& s = *reinterpret_cast<const S*>(box.raw);
    struct Out { unsigned char g0[16]; alignas(D) unsigned char raw[sizeof(D)]; unsigned char g1[16]; } out; memset(&out, 0x6C, sizeof out); ::new (static_cast<void*>(out.raw)) D(itlib::bit_cast<D>(s)); static_assert(std::is_same<decltype(itlib::bit_cast<D>(s)), D>::value && noexcept(itlib::bit_cast<D>(s)), "");
    if (memcmp(out.raw, pat, sizeof(D))) fail("bit_cast changed bits"); if (memcmp(box.raw, pat, sizeof(S))) fail("bit_cast changed its argument"); S back = itlib::bit_cast<S>(*reinterpret_cast<D*>(out.raw)); if (memcmp(&back, pat, sizeof(S))) fail("casting back does not restore the value"); for (auto& g : {box.g0, box.g1}) for (int i = 0; i < 16; ++i) if (g[i] != 0x5B) fail("bit_cast wrote outside"); for (auto& g : {out.g0, out.g1}) for (int i = 0; i < 16; ++i) if (g[i] != 0x6C) fail("bit_cast wrote outside");
}
template <class S, class... D> static void from_one() { int x[] = {(via<D, S>(), 0)...}; (void)x; }
template <class... T> static void all_pairs() { int x[] = {(from_one<T, T...>(), 0)...}; (void)x; }
static void put(uint64_t v, int n, int at = 0) { for (int i = 0; i < n; ++i) pat[at + i] = (unsigned char)(v >> (8 * i)); }
static void cast8() { put(uint64_t(choose(256)), 1); all_pairs<uint8_t, int8_t, char, Bytes<1>, E8>(); }
static void cast16() { put(uint64_t(choose(256)), 1); put(uint64_t(choose(256)), 1, 1); all_pairs<uint16_t, int16_t, char16_t, Bytes<2>, Halves<2>, E16>(); }
static void cast32() { put(uint64_t(choose(thorough ? 65536 : 4096)) << (thorough ? 16 : 20) | uint64_t(choose_of({0, 1, 2, 0x7fff, 0x8000, 0xaaaa, 0xffff})), 4); all_pairs<uint32_t, int32_t, float, char32_t, Bytes<4>, Halves<4>, Bits4>(); }
static void cast64() { put(uint64_t(choose(thorough ? 65536 : 4096)) << (thorough ? 48 : 52) | uint64_t(choose_of({0, 1, 0x7fffffff, 0x12345678, -1})) << (choose(2) ? 16 : 0), 8); all_pairs<uint64_t, int64_t, double, Bytes<8>, Halves<8>, Fields8, E64, void*>(); }
static void cast_sizes() { int k = choose(6); int bit = choose(64 * 8); memset(pat, choose(2) ? 0xff : 0, sizeof pat); pat[bit / 8] ^= (unsigned char)(1 << bit % 8); switch (k) { case 0: all_pairs<Bytes<3>, Halves<3>>(); break; case 1: all_pairs<Bytes<7>, Halves<7>, Packed7>(); break; case 2: all_pairs<Bytes<12>, Packed12, Halves<12>>(); break; case 3: all_pairs<Bytes<16>, Fields16, Al16, Halves<16>>(); break; case 4: all_pairs<Bytes<33>, Halves<33>>(); break; case 5: all_pairs<Bytes<64>, Halves<64>>(); break; } outcome(k * 1000 + bit); }
// ---------------------------------------------------------------- owner_from_member
struct L1 { char a; long b; short c; double d; char e; }; struct L2 { L1 in[2]; char x; int arr[3]; const char* s; }; struct L3 { virtual ~L3() {} virtual void f() {} int a; std::string s; std::vector<int> v; char c; }; struct alignas(64) L4 { char a; alignas(32) char b; int c; };
struct M1 { int p; long q; }; struct M2 { virtual ~M2() {} char r; int s; }; struct L5 : M1, M2 { char t; std::unique_ptr<int> u; }; struct L6 { char only; }; union U { int i; double d; }; struct L7 { char z; U u; int (*fn)(int); bool flags[3]; L6 l; }; struct L8 { char pad[253]; char a, b, c, d; char more[70000]; short e; long f; };
class Priv { char c; int hidden; public: static int Priv::* member() { return &Priv::hidden; } const int& get() const { return hidden; } };
template <class O, class T> static void member(const O* arr, int n, T O::* m) { for (int i = 0; i < n; ++i) { const O& o = arr[i]; const O* r = itlib::owner_from_member(o.*m, m); if (r != &o) fail("owner_from_member is off by %td bytes", reinterpret_cast<const char*>(r) - reinterpret_cast<const char*>(&o)); static_assert(noexcept(itlib::owner_from_member(o.*m, m)), ""); O& w = const_cast<O&>(o); static_assert(std::is_same<decltype(itlib::owner_from_member(w.*m, m)), const O*>::value, ""); if (itlib::owner_from_member(w.*m, m) != &o) fail("owner of a non-const member"); } }
template <class O> struct Arr { O* p; int n; Arr(int k) : p(new O[size_t(k)]), n(k) {} ~Arr() { delete[] p; } }; 
static void owners() {
    int k = choose(9), n = 1 + choose(4);
    switch (k) {
    case 0: { Arr<L1> a(n); member(a.p, n, &L1::a); member(a.p, n, &L1::b); member(a.p, n, &L1::c); member(a.p, n, &L1::d); member(a.p, n, &L1::e); break; }
    case 1: { Arr<L2> a(n); member(a.p, n, &L2::in); member(a.p, n, &L2::x); member(a.p, n, &L2::arr); member(a.p, n, &L2::s); for (int i = 0; i < n; ++i) for (auto& e : a.p[i].in) if (itlib::owner_from_member(e.d, &L1::d) != &e) fail("element of an array member"); break; }
    case 2: { Arr<L3> a(n); member(a.p, n, &L3::a); member(a.p, n, &L3::s); member(a.p, n, &L3::v); member(a.p, n, &L3::c); break; }
    case 3: { Arr<L4> a(n); member(a.p, n, &L4::a); member(a.p, n, &L4::b); member(a.p, n, &L4::c); L4 loc; member(&loc, 1, &L4::c); break; }
    case 4: { Arr<L5> a(n); member(a.p, n, &L5::t); member(a.p, n, &L5::u); member<L5>(a.p, n, static_cast<int L5::*>(&L5::p)); member<L5>(a.p, n, static_cast<long L5::*>(&L5::q)); member<L5>(a.p, n, static_cast<char L5::*>(&L5::r)); member<L5>(a.p, n, static_cast<int L5::*>(&L5::s)); for (int i = 0; i < n; ++i) { const M2* b = itlib::owner_from_member(a.p[i].s, &M2::s); if (b != &a.p[i]) fail("base class as owner"); const L5* o = itlib::owner_from_member(a.p[i].s, static_cast<int L5::*>(&L5::s)); if (o != &a.p[i]) fail("member of a base class"); } break; }
    case 5: { Arr<L7> a(n); member(a.p, n, &L7::z); member(a.p, n, &L7::u); member(a.p, n, &L7::fn); member(a.p, n, &L7::flags); member(a.p, n, &L7::l); break; }
    case 6: { Arr<L6> a(n); member(a.p, n, &L6::only); break; }
    case 8: { Arr<L8> a(n); member(a.p, n, &L8::a); member(a.p, n, &L8::b); member(a.p, n, &L8::c); member(a.p, n, &L8::d); member(a.p, n, &L8::more); member(a.p, n, &L8::e); member(a.p, n, &L8::f); break; }
    case 7: { Arr<Priv> a(n); auto m = Priv::member(); for (int i = 0; i < n; ++i) if (itlib::owner_from_member(a.p[i].get(), m) != &a.p[i]) fail("private member"); break; }
    }
    outcome(k * 10 + n);
}
// ---------------------------------------------------------------- force_move, make_nullptr
struct Incomplete; template <class T> static void movable() {
    T a(3); T&& r = itlib::force_move(a); if (&r != &a) fail("force_move refers to another object"); static_assert(std::is_same<decltype(itlib::force_move(a)), T&&>::value && std::is_same<decltype(itlib::force_move(std::declval<T>())), T&&>::value && noexcept(itlib::force_move(a)), ""); if (a.get() != 3) fail("force_move itself moved"); long c = n_copies, m = n_moves;
    T b(itlib::force_move(a)); if (b.get() != 3 || a.get() != MOVED || n_copies != c || n_moves != m + 1) fail("force_move did not move"); T d(4); d = itlib::force_move(b); if (d.get() != 3 || b.get() != MOVED || n_copies != c) fail("force_move did not move-assign"); T e(itlib::force_move(itlib::force_move(d))); if (e.get() != 3) fail("twice"); T f(itlib::force_move(T(9))); if (f.get() != 9) fail("temporary"); }
static void moves() { reg.clear(); reset_counts(); switch (choose(3)) { case 0: movable<Tracked>(); break; case 1: movable<MoveOnly>(); break; case 2: movable<ThrowMove>(); break; } auto p = itlib::make_nullptr<Incomplete>(); static_assert(std::is_same<decltype(p), Incomplete*>::value && std::is_same<decltype(itlib::make_nullptr<const int>()), const int*>::value && std::is_same<decltype(itlib::make_nullptr<int(char)>()), int (*)(char)>::value, ""); if (p || itlib::make_nullptr<int>() || itlib::make_nullptr<void>()) fail("make_nullptr"); if (reg.live) fail("leak"); }
// ---------------------------------------------------------------- is_noop_convertible: against every (8/16 bit) or boundary value
template <class T> static std::vector<T> values() {
    std::vector<T> v; if (std::is_same<T, bool>::value) return {T(0), T(1)}; 
    if (std::is_floating_point<T>::value) return {T(0), T(-0.0), T(1), T(-1), T(0.5), T(255), T(1e10), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity()};
    if (sizeof(T) <= 2) { for (long i = 0; i < 1L << (8 * sizeof(T)); ++i) v.push_back(T(i)); return v; }
    for (int b = 0; b < int(8 * sizeof(T)); ++b) for (int d = -2; d <= 2; ++d) { v.push_back(T((1ULL << b) + (unsigned long long)d)); v.push_back(T(~((1ULL << b) + (unsigned long long)d))); } return v;
}
template <class F, class T, bool = sizeof(F) == sizeof(T)> struct Same { static bool get() { return false; } };
// conversions which are undefined (a float beyond the range of an integer) cannot be the same
template <class F, class T> struct Same<F, T, true> { static bool get() { for (F f : values<F>()) { if (std::is_floating_point<F>::value && !std::is_floating_point<T>::value && !(double(f) >= -1 && double(f) < 256)) return false; T conv = static_cast<T>(f); unsigned char x[sizeof(T)] = {}, y[sizeof(T)] = {}; const size_t n = std::is_same<T, long double>::value ? 10 : sizeof(T); memcpy(x, &conv, n); memcpy(y, &f, n); if (memcmp(x, y, n)) return false; } return true; } };
template <class T> struct Tag { typedef T type; };
typedef std::tuple<bool, char, signed char, unsigned char, wchar_t, char16_t, char32_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double> Arith;
enum { NA = std::tuple_size<Arith>::value };
template <size_t I = 0, class G> static void nth(int k, G g) { if constexpr (I < NA) { if (k == int(I)) g(Tag<typename std::tuple_element<I, Arith>::type>()); else nth<I + 1>(k, g); } }
static void noop() {
    int i = choose(NA), j = choose(NA); nth(i, [&](auto a) { nth(j, [&](auto b) { typedef typename decltype(a)::type F; typedef typename decltype(b)::type T; bool want = Same<F, T>::get(), got = itlib::is_noop_convertible<F, T>::value;
        if (got != want) fail("is_noop_convertible<%s, %s> is %d", typeid(F).name(), typeid(T).name(), got); if (itlib::is_noop_convertible_v<F, T> != got || itlib::is_noop_convertible<const F, T>::value != got || itlib::is_noop_convertible<F, volatile T>::value != got || itlib::is_noop_convertible<const volatile F, const T>::value != got) fail("qualifiers change is_noop_convertible"); outcome(got); }); });
}
struct Cls { int i; }; enum En : int {}; 
static_assert(!itlib::is_noop_convertible<Cls, int>::value && !itlib::is_noop_convertible<int, Cls>::value && !itlib::is_noop_convertible<Cls, Cls>::value && itlib::is_noop_convertible<int*, int*>::value && itlib::is_noop_convertible<En, int>::value && !itlib::is_noop_convertible<double, void*>::value, "");
template <class...> struct Pack {}; template <class T> using Vec = std::vector<T>; struct DV : std::vector<int> {};
static_assert(itlib::is_instantiation_of<std::vector, std::vector<int>>::value && itlib::is_instantiation_of_v<std::vector, Vec<int>> && !itlib::is_instantiation_of<std::vector, std::list<int>>::value && !itlib::is_instantiation_of<std::vector, int>::value && itlib::is_instantiation_of<Pack, Pack<>>::value && itlib::is_instantiation_of<Pack, Pack<int, char, void>>::value && itlib::is_instantiation_of<std::map, std::map<int, char>>::value && !itlib::is_instantiation_of<std::vector, DV>::value && !itlib::is_instantiation_of<std::vector, std::vector<int>*>::value && !itlib::is_instantiation_of<Pack, std::tuple<int>>::value && itlib::is_instantiation_of<std::tuple, std::tuple<>>::value, "");
static_assert(std::is_same<itlib::type_identity<const int&>::type, const int&>::value && std::is_same<itlib::type_identity_t<void>, void>::value && std::is_same<itlib::type_identity_t<int[3]>, int[3]>::value, "");
template <class T> static T second(T, itlib::type_identity_t<T> b) { return b; }
static void deduced() { int k = choose(3); if (second(double(k), k) != double(k)) fail("type_identity deduces"); }
void mc_setup() { add("cast8", [] { explore_choices(cast8); }); add("cast16", [] { explore_choices(cast16); }); add("cast32", [] { explore_choices(cast32); }); add("cast64", [] { explore_choices(cast64); }); add("cast_sizes", [] { explore_choices(cast_sizes); }); add("owner_from_member", [] { explore_choices(owners); }); add("force_move", [] { explore_choices(moves); }); add("is_noop_convertible", [] { explore_choices(noop); }); add("type_identity", [] { explore_choices(deduced); }); }

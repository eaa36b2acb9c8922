// M01 (MAP=1), M02 (MAP=0) and the flat container part of M03 (HET=1): lockstep with std::map / std::set
#include "mc.hpp"
#if MAP
#include <itlib/flat_map.hpp>
#else
#include <itlib/flat_set.hpp>
#endif
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
using namespace mc;

// ---- keys: ordered by k, distinguishable by tag
static long made;            // keys constructed other than by copy and move
static long ext_cmp;         // comparisons made through the foreign type
struct K {
    int k, tag;
    K() : k(0), tag(0) { ++made; }
    K(int a, int t = 0) : k(a), tag(t) { ++made; }
    K(const K& o) : k(o.k), tag(o.tag) { check(); }
    K(K&& o) noexcept : k(o.k), tag(o.tag) { if (&o != this) o.k = -1000; }
    K& operator=(const K& o) { k = o.k; tag = o.tag; return *this; }
    K& operator=(K&& o) noexcept { int a = o.k, t = o.tag; o.k = -1000; k = a; tag = t; return *this; }
    void check() const { if (k < -500) fail("a key was used after it had been moved from"); }
    friend bool operator==(const K& a, const K& b) { return a.k == b.k && a.tag == b.tag; }
    friend bool operator<(const K& a, const K& b) { a.check(); b.check(); return a.k < b.k; }
};
// a type which is comparable with the key, not convertible to it except explicitly
struct Ext {
    int k;
    friend bool operator<(const Ext& a, const K& b) { b.check(); ++ext_cmp; return a.k < b.k; }
    friend bool operator<(const K& a, const Ext& b) { a.check(); ++ext_cmp; return a.k < b.k; }
    explicit operator K() const { return K(k, 7); }
};
struct V {
    int v;
    V() : v(0) {}
    V(int a) : v(a) {}
    V(const V&) = default;
    V(V&& o) noexcept : v(o.v) { o.v = -1000; }
    V& operator=(const V&) = default;
    V& operator=(V&& o) noexcept { int a = o.v; o.v = -1000; v = a; return *this; }
    friend bool operator==(const V& a, const V& b) { return a.v == b.v; }
};
// ---- comparators
struct Plain { bool operator()(const K& a, const K& b) const { return a < b; } };               // not transparent
struct Rev {     // stateful
    typedef void is_transparent;
    bool rev; std::shared_ptr<int> id;
    Rev(bool r = false) : rev(r) {}
    template <class A, class B> bool operator()(const A& a, const B& b) const { return rev ? b < a : a < b; }
};
struct Mod2 {    // equivalence is coarser than equality
    typedef void is_transparent;
    template <class A, class B> bool operator()(const A& a, const B& b) const { return lo(a) < lo(b); }
    static int lo(const K& a) { a.check(); return a.k / 2; }
    static int lo(const Ext& a) { ++ext_cmp; return a.k / 2; }
};
#if MAP
typedef itlib::fmimpl::less Default;
#else
typedef itlib::fsimpl::less Default;
#endif
struct StdLess { typedef void is_transparent; template <class A, class B> bool operator()(const A& a, const B& b) const { return a < b; } };
template <class C> struct RefCmp { typedef C type; };
template <> struct RefCmp<Default> { typedef StdLess type; };

#if MAP
typedef std::pair<K, V> Elem;
typedef std::pair<const K, V> RElem;
template <class C, class Cont> using Flat = itlib::flat_map<K, V, C, Cont>;
template <class C> using Ref = std::map<K, V, typename RefCmp<C>::type>;
static Elem elem(int k, int tag, int v) { return Elem(K(k, tag), V(v)); }
template <class E> const K& key_of(const E& e) { return e.first; }
template <class E> int val_of(const E& e) { return e.second.v; }
#else
typedef K Elem;
typedef K RElem;
template <class C, class Cont> using Flat = itlib::flat_set<K, C, Cont>;
template <class C> using Ref = std::set<K, typename RefCmp<C>::type>;
static Elem elem(int k, int tag, int) { return K(k, tag); }
template <class E> const K& key_of(const E& e) { return e; }
template <class E> int val_of(const E&) { return 0; }
#endif

template <class C> struct CmpMake { static C f(int) { return C(); } static typename RefCmp<C>::type r(int) { return {}; } static constexpr bool transparent = true; };
template <> struct CmpMake<Plain> { static Plain f(int) { return {}; } static Plain r(int) { return {}; } static constexpr bool transparent = false; };
template <> struct CmpMake<Rev> { static Rev f(int i) { return Rev(i == 1); } static Rev r(int i) { return Rev(i == 1); } static constexpr bool transparent = true; };

template <class Cont> struct Cap { static constexpr int value = 1 << 20; };
template <class T, size_t N> struct Cap<itlib::static_vector<T, N>> { static constexpr int value = int(N); };
template <class X, class = void> struct has_reserve : std::false_type {};
template <class X> struct has_reserve<X, std::void_t<decltype(std::declval<X&>().reserve(1))>> : std::true_type {};

template <class X, class = void> struct has_swap : std::false_type {};
template <class X> struct has_swap<X, std::void_t<decltype(std::declval<X&>().swap(std::declval<X&>()))>> : std::true_type {};
template <class Cont> struct AnyRange : std::true_type {};       // containers which take only random access ranges
template <class T, size_t N> struct AnyRange<itlib::static_vector<T, N>> : std::false_type {};
template <class T, size_t N, size_t R, class A> struct AnyRange<itlib::small_vector<T, N, R, A>> : std::false_type {};

struct Cfg { int keys = 3, tags = 2, vals = 2; bool pair = false; };

// ---- agreement of everything observable
template <class It, class M> int pos(const M& m, It i) { return int(std::distance(m.begin(), typename M::const_iterator(i))); }
template <class C, class F, class R> void same_contents(F& f, R& r, Key& key) {
    const F& cf = f;
    if (f.size() != r.size() || f.empty() != r.empty() || cf.container().size() != r.size()) fail("size is %zu, expected %zu", size_t(f.size()), size_t(r.size()));
    auto fi = f.begin(); auto ci = cf.begin(); auto cc = cf.cbegin();
    for (auto& e : r) {
        if (fi == f.end() || ci == cf.end() || cc == cf.cend()) fail("iteration ended early");
        if (!(key_of(*fi) == key_of(e)) || val_of(*fi) != val_of(e)) fail("element (%d,%d,%d) where (%d,%d,%d) is expected", key_of(*fi).k, key_of(*fi).tag, val_of(*fi), key_of(e).k, key_of(e).tag, val_of(e));
        if (&*ci != &*fi || &*cc != &*fi) fail("const iteration differs");
        key.add(key_of(*fi).k * 10 + key_of(*fi).tag); key.add(val_of(*fi));
        ++fi; ++ci; ++cc;
    }
    if (fi != f.end() || ci != cf.end() || cc != cf.cend()) fail("iteration did not end");
    auto ri = f.rbegin(); auto cri = cf.rbegin();
    for (auto e = r.rbegin(); e != r.rend(); ++e, ++ri, ++cri) if (ri == f.rend() || !(key_of(*ri) == key_of(*e)) || &*cri != &*ri) fail("reverse iteration differs");
    if (ri != f.rend() || cri != cf.rend()) fail("reverse iteration did not end");
    key.add(-1);
}
template <class F, class R, class Q> void lookup(F& f, R& r, const Q& q, int k, const char* how) {
    const F& cf = f; const R& cr = r;
    K rk(k, 5);
    auto e = cr.find(rk);
    int want = pos(cr, e), lo = pos(cr, cr.lower_bound(rk)), hi = pos(cr, cr.upper_bound(rk));
    long m0 = made;
    auto i1 = f.find(q); auto i2 = cf.find(q);
    size_t c1 = f.count(q), c2 = cf.count(q);
    auto l1 = f.lower_bound(q); auto l2 = cf.lower_bound(q); auto u1 = f.upper_bound(q); auto u2 = cf.upper_bound(q);
    auto e1 = f.equal_range(q); auto e2 = cf.equal_range(q);
    if (std::is_same<Q, Ext>::value && made != m0) fail("a key was constructed to look something up");
    if (pos(cf, i1) != want || pos(cf, i2) != want) fail("find(%s %d) is %d/%d, expected %d", how, k, pos(cf, i1), pos(cf, i2), want);
    if ((f.find(q) == f.end()) != (e == cr.end())) fail("find == end() differs");
    if (c1 != cr.count(rk) || c2 != c1) fail("count(%s %d) is %zu", how, k, c1);
    if (pos(cf, l1) != lo || pos(cf, l2) != lo) fail("lower_bound(%s %d) is %d, expected %d", how, k, pos(cf, l1), lo);
    if (pos(cf, u1) != hi || pos(cf, u2) != hi) fail("upper_bound(%s %d) is %d, expected %d", how, k, pos(cf, u1), hi);
    if (pos(cf, e1.first) != lo || pos(cf, e1.second) != hi || pos(cf, e2.first) != lo || pos(cf, e2.second) != hi) fail("equal_range(%s %d) differs", how, k);
}

template <class C, class Cont> struct World {
    typedef Flat<C, Cont> F; typedef Ref<C> R;
    typedef CmpMake<C> CM;
    const Cfg& c;
    F f[2]; R r[2];
    static constexpr int cap = Cap<Cont>::value;
    World(const Cfg& cfg) : c(cfg), f{F(CM::f(0)), F(CM::f(1))}, r{R(CM::r(0)), R(CM::r(1))} {}

    enum { INS, INS_R, INS_CONV, EMPLACE, EMPLACE_HALF, IDX, IDX_R, IDX_EXT, AT, SET_IT, ERASE_K, ERASE_EXT, ERASE_IT, ERASE_CIT, ERASE_OWN, INS_OWN, IDX_OWN, CLEAR, RESERVE, SWAP, COPY, MOVE, SELF, ASSIGN_IL, CTOR_COPY, CTOR_MOVE, MODIFY, MOVE_SELF_SAFE };
    static std::string text(const Cfg&, const Op& o) {
        static const char* n[] = {"insert", "insert(move)", "insert(convertible)", "emplace", "emplace(key)", "[]", "[](move)", "[](foreign)", "at", "assign via iterator", "erase(key)", "erase(foreign)", "erase(it)", "erase(const it)", "erase(own key)", "insert(own)", "[](own key)", "clear", "reserve", "swap", "copy-assign", "move-assign", "self-assign", "assign list", "copy-construct", "move-construct", "modify_container().pop_back", "?"};
        char b[100]; snprintf(b, sizeof b, "%c.%s(%d,%d)", o.c ? 'b' : 'a', n[o.code], o.a, o.b); return b;
    }
    void enumerate(std::vector<Op>& out) {
        for (int x = 0; x < (c.pair ? 2 : 1); ++x) {
            auto op = [&](int code, int a = 0, int b = 0) { out.push_back(Op{code, a, b, x}); };
            int n = int(r[x].size());
            for (int k = 0; k < c.keys; ++k) {
                for (int t = 0; t < c.tags * c.vals; ++t) { op(INS, k, t); op(INS_R, k, t); op(EMPLACE, k, t); }
                op(EMPLACE_HALF, k);
                op(INS_CONV, k, 1);
#if MAP
                for (int v = 0; v < c.vals; ++v) { op(IDX, k, v); op(IDX_R, k, v); op(AT, k, v); op(SET_IT, k, v); }
                if (CM::transparent) op(IDX_EXT, k, 1);
#endif
                op(ERASE_K, k);
                if (CM::transparent) op(ERASE_EXT, k);
            }
            for (int i = 0; i < n; ++i) { op(ERASE_IT, i); op(ERASE_CIT, i); op(ERASE_OWN, i); op(INS_OWN, i);
#if MAP
                op(IDX_OWN, i);
#endif
            }
            op(CLEAR); op(RESERVE, 0); op(RESERVE, 3); op(SELF); op(CTOR_COPY); op(CTOR_MOVE);
            for (int i = 0; i < 3; ++i) op(ASSIGN_IL, i);
            if (n) op(MODIFY);
            if (c.pair) { if (has_swap<Cont>::value) op(SWAP); op(COPY); op(MOVE); }
        }
    }
    // an insertion into a full bounded container must throw and change nothing
    template <class Fn> bool bounded(int x, bool adds, Fn fn) {
        if (!(adds && int(r[x].size()) >= cap)) { fn(); return true; }
        try { fn(); } catch (std::out_of_range&) { return false; }
        fail("insertion into a full container did not fail");
    }
    template <class Res> void check_ins(int x, const Res& res, const std::pair<typename R::iterator, bool>& want) {
        static_assert(std::is_same<Res, std::pair<typename F::iterator, bool>>::value, "");
        if (res.second != want.second) fail("insertion reported %d", res.second);
        if (pos(f[x], res.first) != pos(r[x], want.first)) fail("insertion returned position %d, expected %d", pos(f[x], res.first), pos(r[x], want.first));
    }
    void apply(const Op& o) {
        int x = o.c; F& m = f[x]; R& q = r[x];
        int tag = o.b % 2, v = 1 + o.b / 2;
        bool absent = q.find(K(o.a, 0)) == q.end();
        switch (o.code) {
        case INS: { const Elem e = elem(o.a, tag, v); bounded(x, absent, [&] { auto res = m.insert(e); check_ins(x, res, q.insert(RElem(e))); }); if (key_of(e).k != o.a) fail("insert modified its const argument"); break; }
        case INS_R: { Elem e = elem(o.a, tag, v); Elem e2 = e; bounded(x, absent, [&] { auto res = m.insert(std::move(e)); check_ins(x, res, q.insert(RElem(e2))); }); if (!absent && key_of(e).k != o.a) fail("insert of an existing key moved from its argument"); break; }
        case INS_CONV: {
#if MAP
            std::pair<K, int> e(K(o.a, tag), v); bounded(x, absent, [&] { auto res = m.insert(e); check_ins(x, res, q.insert(RElem(e.first, e.second))); }); if (e.first.k != o.a) fail("insert modified an lvalue");
#else
            Elem e = elem(o.a, tag, v); bounded(x, absent, [&] { auto res = m.insert(e); check_ins(x, res, q.insert(e)); }); if (e.k != o.a) fail("insert modified an lvalue");
#endif
            break; }
        case EMPLACE: bounded(x, absent, [&] {
#if MAP
            auto res = m.emplace(K(o.a, tag), v); check_ins(x, res, q.emplace(K(o.a, tag), v));
#else
            auto res = m.emplace(o.a, tag); check_ins(x, res, q.emplace(o.a, tag));
#endif
            }); break;
        case EMPLACE_HALF: bounded(x, absent, [&] {
#if MAP
            K k(o.a, 1); auto res = m.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple()); check_ins(x, res, q.emplace(std::piecewise_construct, std::forward_as_tuple(o.a, 1), std::forward_as_tuple()));
#else
            auto res = m.emplace(o.a); check_ins(x, res, q.emplace(o.a));
#endif
            }); break;
#if MAP
        case IDX: { const K k(o.a, 1); bounded(x, absent, [&] { V& ref = m[k]; V& w = q[k]; if (!(ref == w) || &ref != &m.find(k)->second) fail("operator[] gave value %d, expected %d", ref.v, w.v); ref = V(o.b + 1); w = V(o.b + 1); }); break; }
        case IDX_R: bounded(x, absent, [&] { V& ref = m[K(o.a, 0)]; V& w = q[K(o.a, 0)]; if (!(ref == w)) fail("operator[] gave value %d, expected %d", ref.v, w.v); ref = V(o.b + 1); w = V(o.b + 1); }); break;
        case IDX_EXT: if constexpr (CM::transparent) { Ext e{o.a}; bounded(x, absent, [&] { long m0 = made; V& ref = m[e]; if (made - m0 != (absent ? 1 : 0)) fail("operator[] with a foreign key constructed %ld keys", made - m0); V& w = q[K(o.a, 7)]; if (!(ref == w)) fail("operator[] gave value %d, expected %d", ref.v, w.v); ref = V(o.b + 1); w = V(o.b + 1); }); } break;
        case AT: { K k(o.a, 3);
            for (int cst = 0; cst < 2; ++cst) {
                bool threw = false;
                try { if (cst) { const F& cm = m; if (!(cm.at(k) == q.find(k)->second)) fail("at"); } else { V& ref = m.at(k); if (!absent && !(ref == q.find(k)->second)) fail("at"); if (!absent) { ref = V(o.b + 1); q.at(k) = V(o.b + 1); } } } catch (std::out_of_range&) { threw = true; }
                if (threw != absent) fail("at(%d) %s", o.a, threw ? "threw for an existing key" : "did not throw for a missing key");
                if (absent && cst == 0 && int(m.size()) != int(q.size())) fail("at changed the size");
            }
            break; }
        case SET_IT: { auto i = m.find(K(o.a, 0)); if (i != m.end()) { i->second = V(o.b + 1); q.find(K(o.a, 0))->second = V(o.b + 1); } break; }
        case IDX_OWN: { auto i = m.begin(); std::advance(i, o.a); V& ref = m[i->first]; auto j = q.begin(); std::advance(j, o.a); if (!(ref == j->second) || m.size() != q.size()) fail("operator[] with an own key"); break; }
#endif
        case ERASE_K: { K k(o.a, 4); auto n1 = m.erase(k); auto n2 = q.erase(k); if (n1 != n2) fail("erase(key) returned %zu", size_t(n1)); break; }
        case ERASE_EXT: if constexpr (CM::transparent) { long m0 = made; auto n1 = m.erase(Ext{o.a}); if (made != m0) fail("erase by a foreign key constructed a key"); auto n2 = q.erase(K(o.a, 4)); if (n1 != n2) fail("erase(foreign key) returned %zu", size_t(n1)); } break;
        case ERASE_IT: case ERASE_CIT: { auto i = m.begin(); std::advance(i, o.a); auto j = q.begin(); std::advance(j, o.a);
            typename F::iterator k = o.code == ERASE_IT ? m.erase(i) : m.erase(typename F::const_iterator(i)); auto l = q.erase(j);
            if (pos(m, k) != pos(q, l)) fail("erase(iterator) returned position %d", pos(m, k)); break; }
        case ERASE_OWN: { auto i = m.begin(); std::advance(i, o.a); auto j = q.begin(); std::advance(j, o.a); auto n1 = m.erase(key_of(*i)); q.erase(j); if (n1 != 1) fail("erase(own key) returned %zu", size_t(n1)); break; }
        case INS_OWN: { auto i = m.begin(); std::advance(i, o.a); const Elem& e = *i; auto res = m.insert(e); if (res.second || pos(m, res.first) != o.a) fail("insert of an own element"); break; }
        case CLEAR: m.clear(); q.clear(); break;
        case RESERVE: if constexpr (has_reserve<Cont>::value) { if (o.a <= cap) { m.reserve(size_t(o.a)); if (m.capacity() < size_t(o.a) || m.capacity() < m.size()) fail("capacity %zu after reserve(%d)", size_t(m.capacity()), o.a); } } break;
        case SWAP: if constexpr (has_swap<Cont>::value) { F& b = f[1 - x]; m.swap(b); r[0].swap(r[1]); } break;
        case COPY: m = static_cast<const F&>(f[1 - x]); q = r[1 - x]; break;
        case MOVE: m = std::move(f[1 - x]); q = std::move(r[1 - x]); f[1 - x].clear(); r[1 - x].clear(); break;
        case SELF: { F& y = m; m = y; break; }
        case CTOR_COPY: { F t(static_cast<const F&>(m)); Key k; same_contents<C>(t, q, k); if (!(t == m) || t != m) fail("a copy compares unequal"); m.clear(); m = std::move(t); break; }
        case CTOR_MOVE: { F t(std::move(m)); Key k; same_contents<C>(t, q, k); m = std::move(t); break; }
        case ASSIGN_IL: {
            auto set = [&](std::initializer_list<Elem> il) {
                std::initializer_list<RElem>* dummy = nullptr; (void)dummy;
                if (int(il.size()) > cap) return;
                m = F(il, CM::f(x)); q = R(CM::r(x)); for (auto& e : il) q.insert(RElem(e));
            };
            if (o.a == 0) set({});
            else if (o.a == 1) set({elem(2, 0, 1), elem(0, 1, 2)});
            else set({elem(1, 1, 1), elem(0, 0, 2), elem(1, 0, 3)});
            break; }
        case MODIFY: { auto i = std::prev(q.end()); m.modify_container().pop_back(); q.erase(i); break; }
        }
    }
    void observe(Key& k) {
        for (int x = 0; x < (c.pair ? 2 : 1); ++x) {
            same_contents<C>(f[x], r[x], k);
            for (int i = -1; i <= c.keys; ++i) {
                lookup(f[x], r[x], K(i, 6), i, "key");
                if constexpr (CM::transparent) {
                    long e0 = ext_cmp; (void)e0;
                    lookup(f[x], r[x], Ext{i}, i, "foreign");
                }
            }
        }
        if (c.pair) {
            const F &a = f[0], &b = f[1];
            bool eq = r[0].size() == r[1].size() && std::equal(r[0].begin(), r[0].end(), r[1].begin());
            if ((a == b) != eq || (a != b) == eq || (b == a) != eq) fail("comparison of the containers gave the wrong answer");
        }
        if constexpr (std::is_same<C, Rev>::value) {
#if !MAP
            for (int x = 0; x < 2; ++x) { k.add(f[x].key_comp().rev); if (f[x].key_comp().rev != r[x].key_comp().rev) fail("the comparator was not carried over"); }
#else
            for (int x = 0; x < 2; ++x) k.add(r[x].key_comp().rev);
#endif
        }
        if constexpr (has_reserve<Cont>::value) for (int x = 0; x < (c.pair ? 2 : 1); ++x) k.add(std::min<long>(long(f[x].capacity()), 64));
    }
    void finish() {}
};

// ---- construction from whole ranges
template <class C, class Cont> void check_built(Flat<C, Cont>& f, const std::vector<Elem>& in, int cmpi, const char* how) {
    Ref<C> r(CmpMake<C>::r(cmpi));
    for (auto& e : in) r.insert(RElem(e));
    Key k; same_contents<C>(f, r, k); (void)how;
    outcome(k);
}
template <class C, class Cont> void build_all(const std::vector<Elem>& in, bool brief) {
    typedef Flat<C, Cont> F; typedef CmpMake<C> CM;
    if (int(in.size()) > Cap<Cont>::value) return;
    for (int cmpi = 0; cmpi < (std::is_same<C, Rev>::value ? 2 : 1); ++cmpi) {
        C cmp = CM::f(cmpi);
        typename F::allocator_type al{};
        { Cont ct(in.begin(), in.end()); F f(std::move(ct), cmp); check_built<C, Cont>(f, in, cmpi, "container"); if (brief) continue; }
        { F f(in.begin(), in.end(), cmp); check_built<C, Cont>(f, in, cmpi, "range"); }
        if constexpr (AnyRange<Cont>::value) { std::list<Elem> l(in.begin(), in.end()); F f(l.begin(), l.end(), cmp, al); check_built<C, Cont>(f, in, cmpi, "list range"); }
        if (cmpi == 0) {
            { F f(in.data(), in.data() + in.size()); check_built<C, Cont>(f, in, 0, "pointers"); }
            if constexpr (AnyRange<Cont>::value) { std::forward_list<Elem> l(in.begin(), in.end()); F f(l.begin(), l.end(), al); check_built<C, Cont>(f, in, 0, "forward range"); }
            { Cont ct(in.begin(), in.end()); F f(ct); check_built<C, Cont>(f, in, 0, "container copy"); if (ct.size() != in.size()) fail("the container argument was modified"); }
        }
        auto il = [&](std::initializer_list<Elem> l) {
            { F f(l, cmp); check_built<C, Cont>(f, in, cmpi, "list"); }
            { F f(l, cmp, al); check_built<C, Cont>(f, in, cmpi, "list"); }
            if (cmpi == 0) { F f(l, al); check_built<C, Cont>(f, in, 0, "list"); F g = l; check_built<C, Cont>(g, in, 0, "list"); }
        };
        switch (in.size()) {
        case 0: il({}); break;
        case 1: il({in[0]}); break;
        case 2: il({in[0], in[1]}); break;
        case 3: il({in[0], in[1], in[2]}); break;
        case 4: il({in[0], in[1], in[2], in[3]}); break;
        }
    }
}
template <class C, class Cont> void ctor_short(const char* name, int keys, int len) {
    add(std::string(name) + "_ranges", [=] { explore_choices([=] {
        int n = choose(len + 1);
        std::vector<Elem> in; std::string s;
        for (int i = 0; i < n; ++i) { int k = choose(keys); in.push_back(elem(k, i, i + 1)); s += std::to_string(k) + " "; }
        say("keys %s", s.c_str());
        build_all<C, Cont>(in, false);
    }); });
}
// long enough to cross the thresholds of sorting algorithms; one extra pair of equivalent keys anywhere
template <class C, class Cont> void ctor_long(const char* name, std::vector<int> lens, int step) {
    add(std::string(name) + "_long_ranges", [=] { explore_choices([=] {
        int n = pick(lens), pat = choose(8), i = choose((n + step - 1) / step) * step, j = choose((n + step - 1) / step) * step;
        std::vector<Elem> in;
        for (int x = 0; x < n; ++x) {
            int k = pat == 0 ? x : pat == 1 ? n - x : pat == 2 ? x * 7 % 67 : pat == 3 ? x / 2 : pat == 4 ? x % 2 : pat == 5 ? x % 5 : pat == 6 ? 0 : (x * 37 % 64) / 3;
            in.push_back(elem(k, x, x + 1));
        }
        in[size_t(j)] = elem(key_of(in[size_t(i)]).k, j, j + 1);
        say("%d elements, pattern %d, element %d equivalent to %d", n, pat, j, i);
        build_all<C, Cont>(in, true);
    }); });
}
template <class C, class Cont> void hist(const char* name, Cfg c, int depth, int tdepth, int tier = 0) {
    add(name, [=] { static Cfg k; k = c; explore_bfs<World<C, Cont>>(k, BfsOpt{thorough ? tdepth : depth, 2}); }, tier);
}
// ---- supplied allocators and comparators are the ones used
template <class T> struct IdAlloc {
    typedef T value_type; int id;
    IdAlloc(int i = 0) : id(i) {}
    template <class U> IdAlloc(const IdAlloc<U>& o) : id(o.id) {}
    T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_t) { ::operator delete(p); }
    template <class U> bool operator==(const IdAlloc<U>& o) const { return id == o.id; }
    template <class U> bool operator!=(const IdAlloc<U>& o) const { return id != o.id; }
};
static void allocators() {
    typedef std::vector<Elem, IdAlloc<Elem>> Cont; typedef Flat<Rev, Cont> F;
    int form = choose(9), id = choose(3), rev = choose(2), n = choose(4);
    IdAlloc<Elem> al(id); Rev cmp(rev);
    std::vector<Elem> in; for (int i = 0; i < n; ++i) in.push_back(elem(i, 0, i));
    say("constructor %d, allocator %d, comparator %d, %d elements", form, id, rev, n);
    auto check = [&](const F& f, bool a, bool c, bool e) {
        if (f.container().get_allocator().id != (a ? id : 0)) fail("the supplied allocator is not used");
        if (f.size() != (e ? size_t(n) : 0)) fail("size");
        F g = f; if (g.size() < 2) { g.insert(elem(1, 1, 1)); g.insert(elem(2, 1, 1)); }
        auto i = g.begin(), j = std::next(i);
        if ((key_of(*i).k > key_of(*j).k) != (c && rev)) fail("the supplied comparator is not used");
    };
    auto il = [&](std::initializer_list<Elem> l) { switch (form) {
        case 0: check(F(l, cmp, al), true, true, true); break;
        case 1: check(F(l, al), true, false, true); break;
        case 2: check(F(l, cmp), false, true, true); break; } };
    if (form < 3) { switch (n) { case 0: il({}); break; case 1: il({in[0]}); break; case 2: il({in[0], in[1]}); break; default: il({in[0], in[1], in[2]}); } return; }
    switch (form) {
    case 3: check(F(in.begin(), in.end(), cmp, al), true, true, true); break;
    case 4: check(F(in.begin(), in.end(), al), true, false, true); break;
    case 5: check(F(in.begin(), in.end(), cmp), false, true, true); break;
    case 6: check(F(cmp, al), true, true, false); break;
    case 7: check(F(cmp), false, true, false); break;
    case 8: check(F(Cont(in.begin(), in.end(), al), cmp), true, true, true); break;
    }
}
// ---- move-only elements
struct MK { std::unique_ptr<int> p; MK(int i) : p(new int(i)) {} friend bool operator<(const MK& a, const MK& b) { return *a.p < *b.p; } friend bool operator<(const MK& a, int b) { return *a.p < b; } friend bool operator<(int a, const MK& b) { return a < *b.p; } };
static void move_only() {
#if MAP
    typedef itlib::flat_map<MK, std::unique_ptr<int>> F;
    auto key = [](F::iterator i) { return *i->first.p; };
#else
    typedef itlib::flat_set<MK> F;
    auto key = [](F::iterator i) { return *i->p; };
#endif
    F f; std::map<int, int> ref;
    for (int step = 0; step < 4; ++step) {
        int op = choose(5), k = choose(3);
        say("operation %d key %d", op, k);
        switch (op) {
#if MAP
        case 0: { bool ins = f.insert(F::value_type(MK(k), std::unique_ptr<int>(new int(step)))).second; if (ins != ref.insert({k, step}).second) fail("insert"); break; }
        case 1: { bool ins = f.emplace(MK(k), std::unique_ptr<int>(new int(step))).second; if (ins != ref.insert({k, step}).second) fail("emplace"); break; }
        case 2: f[MK(k)].reset(new int(step)); ref[k] = step; break;
#else
        case 0: { bool ins = f.insert(MK(k)).second; if (ins != ref.insert({k, step}).second) fail("insert"); break; }
        case 2: { bool ins = f.emplace(MK(k)).second; if (ins != ref.insert({k, step}).second) fail("emplace of an rvalue"); break; }
        case 1: { bool ins = f.emplace(k).second; if (ins != ref.insert({k, step}).second) fail("emplace"); break; }
#endif
        case 3: if (f.erase(k) != ref.erase(k)) fail("erase"); break;
        default: {
            if (k == 0) { F g(std::move(f)); f = std::move(g); }
            else if (k == 1) { F::container_type c; for (auto i = f.begin(); i != f.end(); ++i) c.push_back(std::move(*i)); f.clear(); f = F(std::move(c)); }  // construction takes the container over
            else { F g; g.swap(f); F h(std::move(g)); f.swap(h); }
            break; }
        }
        if (f.size() != ref.size()) fail("size");
        auto i = f.begin();
        for (auto& e : ref) { if (key(i) != e.first) fail("key %d where %d is expected", key(i), e.first);
#if MAP
            if (*i->second != e.second) fail("value");
#endif
            ++i; }
    }
}
static Cfg CF(int keys, int tags, int vals, bool pair) { Cfg c; c.keys = keys; c.tags = tags; c.vals = vals; c.pair = pair; return c; }

void mc_setup() {
    typedef std::vector<Elem> Vec; typedef itlib::static_vector<Elem, 2> SV2; typedef itlib::static_vector<Elem, 8> SV8; typedef itlib::small_vector<Elem, 2> Small; typedef std::deque<Elem> Deq;
    (void)sizeof(Deq);
#if PART == 0
    hist<Default, Vec>("default_vector", CF(3, 2, 1, false), 6, 9);
    hist<Default, Vec>("default_vector_pair", CF(2, 1, 1, true), 5, 8);
    hist<Default, Small>("default_small_vector", CF(3, 2, 1, false), 5, 8);
    ctor_short<Default, Vec>("default_vector", 3, 7);
    ctor_long<Default, Vec>("default_vector", {15, 16, 17, 18, 24, 33}, 1);
    add("allocators", [] { explore_choices(allocators); });
    add("move_only", [] { explore_choices(move_only); });
#elif PART == 1
    hist<Plain, Vec>("plain_vector", CF(3, 1, 1, false), 6, 8);
    hist<Plain, SV2>("plain_static_vector_2", CF(3, 1, 1, false), 6, 8);
    hist<Plain, SV8>("plain_static_vector_pair", CF(2, 1, 1, true), 4, 6);
    hist<Plain, Deq>("plain_deque", CF(3, 1, 1, false), 4, 6);
    ctor_short<Plain, Vec>("plain_vector", 3, 5);
    ctor_short<Plain, SV8>("plain_static_vector", 3, 6);
    ctor_short<Plain, Deq>("plain_deque", 3, 5);
    ctor_long<Plain, Deq>("plain_deque", {16, 17, 20}, 1);
#elif PART == 2
    hist<Rev, Vec>("stateful_vector", CF(3, 1, 1, false), 5, 8);
    hist<Rev, Vec>("stateful_vector_pair", CF(2, 1, 1, true), 5, 8);
    hist<Rev, Small>("stateful_small_vector_pair", CF(2, 1, 1, true), 4, 7);
    ctor_short<Rev, Vec>("stateful_vector", 3, 6);
    ctor_long<Rev, Vec>("stateful_vector", {17, 18, 40}, 1);
#elif PART == 9
    hist<Default, Vec>("default_foreign", CF(3, 1, 1, false), 5, 8);
    hist<Rev, Vec>("stateful_foreign_pair", CF(2, 1, 1, true), 4, 7);
    hist<Mod2, SV8>("coarse_foreign", CF(4, 1, 1, false), 4, 7);
    hist<Plain, Vec>("plain", CF(3, 1, 1, false), 4, 7);
#else
    hist<Mod2, Vec>("coarse_vector", CF(4, 1, 1, false), 5, 8);
    hist<Mod2, Vec>("coarse_vector_pair", CF(3, 1, 1, true), 4, 6);
    hist<Default, Vec>("default_vector_values", CF(3, 2, 2, false), 5, 8);
    hist<Default, SV2>("default_static_vector_2", CF(3, 2, 1, false), 5, 8);
    hist<Default, SV8>("default_static_vector_pair", CF(2, 1, 1, true), 4, 6);
    ctor_short<Mod2, Vec>("coarse_vector", 4, 5);
    ctor_short<Default, Small>("default_small_vector", 3, 6);
    ctor_long<Mod2, Small>("coarse_small_vector", {16, 17, 33}, 1);
#endif
}

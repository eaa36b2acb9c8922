// M03: transparent_umap in lockstep with std::unordered_map
#include "mc.hpp"
#include <itlib/transparent_umap.hpp>
using namespace mc;

static long made; static int collide;
struct K {
    int k, tag;
    explicit K(int a, int t = 0) : k(a), tag(t) { ++made; }
    K(const K& o) : k(o.k), tag(o.tag) { if (k < -500) fail("copied from a moved-from key"); }
    K(K&& o) noexcept : k(o.k), tag(o.tag) { o.k = -1000; }
    K& operator=(const K&) = default;
    friend bool operator==(const K& a, const K& b) { return a.k == b.k; }
};
struct Ext { int k; explicit operator K() const& { return K(k, 7); } explicit operator K() && { K r(k, 8); k = -700; return r; } };     // a key made from an rvalue says so
struct KHash { typedef void is_transparent; static size_t h(int k) { return collide ? size_t(k % collide) : size_t(k) * 31; } size_t operator()(const K& k) const { return h(k.k); } size_t operator()(const Ext& e) const { return h(e.k); } };
struct Eq { typedef void is_transparent; bool operator()(const K& a, const K& b) const { return a.k == b.k; } bool operator()(const K& a, const Ext& b) const { return a.k == b.k; } bool operator()(const Ext& a, const K& b) const { return a.k == b.k; } };
struct PlainHash { size_t operator()(const K& k) const { return KHash::h(k.k); } };
struct PlainEq { bool operator()(const K& a, const K& b) const { return a == b; } };
struct V {
    int v; std::unique_ptr<int> p;
    V() : v(0) {}
    explicit V(int a) : v(a) {}
    V(int a, std::unique_ptr<int>&& q) : v(a * 2), p(std::move(q)) {}
    V(V&&) = default; V& operator=(V&&) = default;
};
// how the foreign key is passed
enum { CREF, LREF, RREF };

struct Cfg { int keys = 3; int collide = 0; bool het = true; };
template <class H, class E, bool Het> struct World {
    typedef itlib::transparent_umap<K, V, H, E> M;
    const Cfg& c; M m; std::map<int, std::pair<int, int>> r;      // key -> (tag, value)
    World(const Cfg& cfg) : c(cfg) { collide = cfg.collide; }
    enum { TRY_CREF, TRY_LREF, TRY_RREF, TRY_ARGS, TRY_HINT, TRY_HINT_L, IDX_CREF, IDX_LREF, IDX_RREF, AT, KTRY, KTRY_L, KTRY_C, KTRY_HINT, KIDX, KIDX_L, KIDX_R, KAT, ERASE, CLEAR, MOVE, INSERT, REHASH, COUNT };
    static std::string text(const Cfg&, const Op& o) {
        static const char* n[] = {"try_emplace(const foreign&)", "try_emplace(foreign&)", "try_emplace(foreign&&)", "try_emplace(foreign,2 args)", "try_emplace(hint,foreign)", "try_emplace(hint,foreign&,args)", "[const foreign&]", "[foreign&]", "[foreign&&]", "at(foreign)", "try_emplace(key&&)", "try_emplace(key&)", "try_emplace(const key&)", "try_emplace(hint,key)", "[const key&]", "[key&]", "[key&&]", "at(key)", "erase", "clear", "move", "insert", "rehash"};
        return std::string(n[o.code]) + " " + std::to_string(o.a);
    }
    void enumerate(std::vector<Op>& out) {
        for (int code = Het ? 0 : int(KTRY); code < COUNT; ++code) {
            if (code == CLEAR || code == MOVE || code == REHASH) { out.push_back(Op{code, 0, 0, 0}); continue; }
            for (int k = 0; k < c.keys; ++k) out.push_back(Op{code, k, 0, 0});
        }
    }
    template <class Res> void check_ins(const Res& res, int k, bool absent, int tag, int v) {
        if (absent) r[k] = {tag, v};
        if (res.second != absent) fail("try_emplace reported %d", res.second);
        check_it(res.first, k);
    }
    template <class It> void check_it(const It& i, int k) {
        if (i == m.end() || i->first.k != k || i->first.tag != r[k].first || i->second.v != r[k].second) fail("the returned iterator does not refer to the element with key %d", k);
    }
    void apply(const Op& o) {
        int k = o.a; bool absent = !r.count(k); long m0 = made;
        auto keys = [&](int n) { if (made - m0 != n) fail("%ld keys were constructed, expected %d", made - m0, n); };
        if constexpr (Het) switch (o.code) {
        case TRY_CREF: { const Ext e{k}; check_ins(m.try_emplace(e, 11), k, absent, 7, 11); keys(absent); return; }
        case TRY_LREF: { Ext e{k}; check_ins(m.try_emplace(e, 12), k, absent, 7, 12); keys(absent); if (e.k != k) fail("argument changed"); return; }
        case TRY_RREF: { Ext e{k}; check_ins(m.try_emplace(std::move(e)), k, absent, 8, 0); keys(absent); if (!absent && e.k != k) fail("the foreign key was used although the key exists"); return; }
        case TRY_ARGS: { std::unique_ptr<int> p(new int(5)); check_ins(m.try_emplace(Ext{k}, 4, std::move(p)), k, absent, 8, 8); if (bool(p) == absent) fail(absent ? "the argument was not handed over" : "the argument was moved although the key exists"); keys(absent); return; }
        case TRY_HINT: { auto it = m.try_emplace(m.cbegin(), Ext{k}, 13); static_assert(std::is_same<decltype(it), typename M::iterator>::value, ""); if (absent) r[k] = {8, 13}; check_it(it, k); keys(absent); return; }
        case TRY_HINT_L: { Ext e{k}; std::unique_ptr<int> p(new int(5)); auto it = m.try_emplace(m.cend(), e, 6, std::move(p)); if (absent) r[k] = {7, 12}; check_it(it, k); if (bool(p) == absent) fail("wrong handling of the arguments"); keys(absent); return; }
        case IDX_CREF: { const Ext e{k}; V& v = m[e]; keys(absent); if (absent) r[k] = {7, 0}; if (v.v != r[k].second) fail("operator[] gave %d", v.v); v.v = 21; r[k].second = 21; return; }
        case IDX_LREF: { Ext e{k}; V& v = m[e]; keys(absent); if (absent) r[k] = {7, 0}; if (v.v != r[k].second) fail("operator[] gave %d", v.v); v.v = 22; r[k].second = 22; return; }
        case IDX_RREF: { V& v = m[Ext{k}]; keys(absent); if (absent) r[k] = {8, 0}; if (v.v != r[k].second) fail("operator[] gave %d", v.v); v.v = 23; r[k].second = 23; return; }
        case AT: at(Ext{k}, k, absent); keys(0); return;
        }
        switch (o.code) {
        case KTRY: check_ins(m.try_emplace(K(k, 1), 31), k, absent, 1, 31); break;
        case KTRY_L: { K q(k, 2); std::unique_ptr<int> p(new int(5)); check_ins(m.try_emplace(q, 3, std::move(p)), k, absent, 2, 6); if (q.k != k) fail("lvalue key modified"); if (bool(p) == absent) fail("wrong handling of the arguments"); break; }
        case KTRY_C: { const K q(k, 3); check_ins(m.try_emplace(q), k, absent, 3, 0); break; }
        case KTRY_HINT: { auto it = m.try_emplace(m.cbegin(), K(k, 4), 33); if (absent) r[k] = {4, 33}; check_it(it, k); break; }
        case KIDX: { const K q(k, 1); V& v = m[q]; if (absent) r[k] = {1, 0}; if (v.v != r[k].second) fail("operator[] gave %d", v.v); v.v = 41; r[k].second = 41; break; }
        case KIDX_L: { K q(k, 2); V& v = m[q]; if (q.k != k) fail("lvalue key modified"); if (absent) r[k] = {2, 0}; if (v.v != r[k].second) fail("operator[] gave %d", v.v); v.v = 42; r[k].second = 42; break; }
        case KIDX_R: { K q(k, 3); V& v = m[std::move(q)]; if (absent) r[k] = {3, 0}; if (v.v != r[k].second) fail("operator[] gave %d", v.v); v.v = 43; r[k].second = 43; break; }
        case KAT: at(K(k, 9), k, absent); break;
        case ERASE: if (m.erase(K(k, 9)) != r.erase(k)) fail("erase"); break;
        case CLEAR: m.clear(); r.clear(); break;
        case MOVE: { M t(std::move(m)); m = M(); m = std::move(t); break; }
        case INSERT: { auto res = m.insert(typename M::value_type(K(k, 5), V(51))); check_ins(res, k, absent, 5, 51); break; }
        case REHASH: m.rehash(m.bucket_count() * 2 + 1); break;
        }
    }
    template <class Q> void at(const Q& q, int k, bool absent) {
        const M& cm = m;
        for (int cst = 0; cst < 2; ++cst) {
            bool threw = false;
            try {
                if (cst) { const V& v = cm.at(q); if (absent || v.v != r[k].second || &v != &m.find(q)->second) fail("at const"); }
                else { V& v = m.at(q); if (absent || v.v != r[k].second) fail("at"); v.v = 61; r[k].second = 61; }
            } catch (std::out_of_range&) { threw = true; }
            if (threw != absent) fail("at(%d) %s", k, threw ? "threw for an existing key" : "did not throw for a missing key");
        }
    }
    template <class Q> void look(const Q& q, int k) {
        const M& cm = m; bool in = r.count(k) > 0; long m0 = made;
        if ((m.find(q) != m.end()) != in || (cm.find(q) != cm.end()) != in || m.count(q) != size_t(in) || m.contains(q) != in) fail("lookup of %d gave the wrong answer", k);
        auto e = m.equal_range(q); if ((e.first != e.second) != in) fail("equal_range");
        if (made != m0) fail("a lookup constructed a key");
    }
    void observe(Key& key) {
        if (m.size() != r.size()) fail("size is %zu, expected %zu", m.size(), r.size());
        for (auto& e : r) { auto i = m.find(K(e.first)); if (i == m.end()) fail("key %d is missing", e.first); check_it(i, e.first); key.add(e.first); key.add(e.second.first); key.add(e.second.second); }
        size_t n = 0; for (auto& e : m) { if (!r.count(e.first.k)) fail("stray key %d", e.first.k); ++n; }
        if (n != r.size()) fail("iteration visits %zu elements", n);
        for (int k = -1; k <= c.keys; ++k) { K q(k); look(q, k); if constexpr (Het) look(Ext{k}, k); }
        key.add(int64_t(std::min<size_t>(m.bucket_count(), 50)));
    }
    void finish() {}
};
// strings, as the documentation intends
struct SHash { typedef void is_transparent; size_t operator()(std::string_view s) const { return std::hash<std::string_view>()(s); } };
static void strings() {
    itlib::transparent_umap<std::string, int, SHash, std::equal_to<>> m; std::map<std::string, int> r;
    static const char* words[] = {"", "a", "ab"};
    for (int step = 0; step < 4; ++step) {
        int op = choose(7), w = choose(3); std::string_view sv(words[w]); const char* lit = words[w]; std::string s(words[w]);
        say("operation %d with \"%s\"", op, words[w]);
        int* p = nullptr;
        switch (op) {
        case 0: p = &m[sv]; r[s]; break;
        case 1: p = &m[lit]; r[s]; break;
        case 2: p = &m[s]; r[s]; break;
        case 3: p = &m.try_emplace(sv, step).first->second; r.try_emplace(s, step); break;
        case 4: p = &m.try_emplace(m.end(), lit, step)->second; r.try_emplace(s, step); break;
        case 5: { const auto& cm = m; bool t1 = false, t2 = false, t3 = false; try { if (cm.at(sv) != r.at(s)) fail("at"); } catch (std::out_of_range&) { t1 = true; } try { if (m.at(lit) != r.at(s)) fail("at"); } catch (std::out_of_range&) { t2 = true; } try { if (m.at(s) != r.at(s)) fail("at"); } catch (std::out_of_range&) { t3 = true; } if (t1 == bool(r.count(s)) || t2 != t1 || t3 != t1) fail("at"); break; }
        case 6: m.erase(s); r.erase(s); break;
        }
        if (p) { if (*p != r[s]) fail("value %d, expected %d", *p, r[s]); *p = 10 + step; r[s] = 10 + step; }
        if (m.size() != r.size()) fail("size");
        for (auto& e : r) if (m.find(e.first) == m.end() || m.find(std::string_view(e.first))->second != e.second) fail("element %s", e.first.c_str());
    }
    outcome(int64_t(r.size()));
}
// containers with only one of hash and comparison transparent, or none, keep the standard behaviour
static void standard() {
    itlib::transparent_umap<std::string, int> a; itlib::transparent_umap<std::string, int, SHash> b; itlib::transparent_umap<std::string, int, std::hash<std::string>, std::equal_to<>> d; itlib::transparent_umap<int, int> e{{1, 2}, {3, 4}};
    std::map<std::string, int> r;
    static const char* words[] = {"x", "y"};
    for (int step = 0; step < 4; ++step) {
        int op = choose(3), w = choose(2); const char* lit = words[w]; std::string s(lit);
        auto one = [&](auto& m) { switch (op) { case 0: m[lit] = step; break; case 1: m.try_emplace(s, step); break; case 2: m.erase(s); break; } };
        one(a); one(b); one(d);
        switch (op) { case 0: r[lit] = step; break; case 1: r.try_emplace(s, step); break; case 2: r.erase(s); break; }
        for (auto& x : r) if (a.at(x.first) != x.second || b.at(x.first) != x.second || d.at(x.first) != x.second) fail("value of %s", x.first.c_str());
        if (a.size() != r.size() || b.size() != r.size() || d.size() != r.size()) fail("size");
        for (auto wd : words) { bool t = false; try { a.at(wd); } catch (std::out_of_range&) { t = true; } if (t == bool(r.count(wd))) fail("at"); }
    }
    if (e.at(1) != 2 || e[3] != 4 || e[5] != 0 || !e.try_emplace(7, 8).second || e.size() != 4) fail("int keys");
}
template <class W> static void hist(const char* name, Cfg c, int depth, int tdepth) { add(name, [=] { static Cfg k; k = c; explore_bfs<W>(k, BfsOpt{thorough ? tdepth : depth, 2}); }); }
void mc_setup() {
    hist<World<KHash, Eq, true>>("transparent", Cfg{3, 0}, 4, 6);
    hist<World<KHash, Eq, true>>("transparent_collisions", Cfg{3, 2}, 4, 5);
    hist<World<KHash, Eq, true>>("transparent_all_collide", Cfg{2, 1}, 5, 8);
    hist<World<PlainHash, PlainEq, false>>("plain", Cfg{3, 2}, 4, 6);
    hist<World<KHash, PlainEq, false>>("hash_only", Cfg{2, 2}, 4, 6);
    add("strings", [] { explore_choices(strings); });
    add("standard", [] { explore_choices(standard); });
}

// M04: flat_map (MAP=1) and flat_set (MAP=0) when a comparison, an element constructor or an allocation throws
#include "tracked.hpp"
#if MAP
#include <itlib/flat_map.hpp>
#else
#include <itlib/flat_set.hpp>
#endif
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
using namespace mc;

static int cmp_in;           // >0: the cmp_in-th comparison from now throws
struct Cmp {
    typedef void is_transparent;
    static int id(const Tracked& t) { return t.get(); }
    static int id(int i) { return i; }
    template <class A, class B> bool operator()(const A& a, const B& b) const { if (cmp_in > 0 && --cmp_in == 0) throw Boom{2}; return id(a) < id(b); }
};
#if MAP
typedef std::pair<Tracked, Tracked> Elem;
typedef std::map<int, int> Model;
template <class C> using Flat = itlib::flat_map<Tracked, Tracked, Cmp, C>;
static const Tracked& key_of(const Elem& e) { return e.first; }
static int val_of(const Elem& e) { return e.second.get(); }
static const size_t PER = 2;     // objects per element
static Elem elem(int k, int v) { return Elem(k, v); }
#else
typedef Tracked Elem;
typedef std::map<int, int> Model;
template <class C> using Flat = itlib::flat_set<Tracked, Cmp, C>;
static const Tracked& key_of(const Elem& e) { return e; }
static int val_of(const Elem&) { return 0; }
static const size_t PER = 1;
static Elem elem(int k, int) { return Elem(k); }
#endif
template <class C> struct Bounded { static constexpr size_t cap = 1000; static constexpr bool alloc = true; };
template <class T, size_t N> struct Bounded<itlib::static_vector<T, N>> { static constexpr size_t cap = N; static constexpr bool alloc = false; };

struct Cfg { int keys = 4; int ncmp = 5, nctor = 4, nalloc = 1; };
enum { INS, INS_R, EMPLACE, IDX, IDX_INT, AT, FIND, ERASE, ERASE_INT, ERASE_IT, CLEAR, RESERVE, COPY_CTOR, COPY_ASSIGN, CTOR_IL, CTOR_RANGE, CTOR_CONT };
static const char* names[] = {"insert", "insert(move)", "emplace", "[]", "[](int)", "at", "find", "erase(key)", "erase(int)", "erase(it)", "clear", "reserve", "copy construct", "copy assign", "construct from list", "construct from range", "construct from container"};

template <class C> struct World {
    typedef Flat<C> F;
    const Cfg& c; F f; Model m; size_t base;
    World(const Cfg& cfg) : c(cfg), base(0) { cmp_in = 0; throw_in = 0; alog.fail_in = 0; }
    static std::string text(const Cfg&, const Op& o) {
        static const char* k[] = {"", ", comparison %d throws", ", element constructor %d throws", ", allocation %d fails"};
        char b[120], t[60]; snprintf(t, sizeof t, k[o.c / 16], o.c % 16); snprintf(b, sizeof b, "%s %d %d%s", names[o.code], o.a, o.b, t); return b;
    }
    void enumerate(std::vector<Op>& out) {
        auto op = [&](int code, int a, int b, bool cmp, bool ctor, bool alloc) {
            out.push_back(Op{code, a, b, 0});
            if (cmp) for (int k = 1; k <= c.ncmp; ++k) out.push_back(Op{code, a, b, 16 + k});
            if (ctor) for (int k = 1; k <= c.nctor; ++k) out.push_back(Op{code, a, b, 32 + k});
            if (alloc && Bounded<C>::alloc) for (int k = 1; k <= c.nalloc; ++k) out.push_back(Op{code, a, b, 48 + k});
        };
        for (int k = 0; k < c.keys; ++k) {
            op(INS, k, 1, true, true, true); op(INS_R, k, 2, true, true, true); op(EMPLACE, k, 3, true, true, true);
#if MAP
            op(IDX, k, 1, true, true, true); op(IDX_INT, k, 2, true, true, true); op(AT, k, 0, true, false, false);
#endif
            op(FIND, k, 0, true, false, false); op(ERASE, k, 0, true, false, false); op(ERASE_INT, k, 0, true, false, false);
        }
        for (int i = 0; i < int(m.size()); ++i) op(ERASE_IT, i, 0, false, false, false);
        op(CLEAR, 0, 0, false, false, false); op(RESERVE, int(m.size()) + 2, 0, false, false, true);
        op(COPY_CTOR, 0, 0, false, true, true); op(COPY_ASSIGN, 0, 0, false, true, true);
        for (int i = 0; i < 4; ++i) { op(CTOR_IL, i, 0, true, true, true); op(CTOR_RANGE, i, 0, true, true, true); op(CTOR_CONT, i, 0, true, true, true); }
    }
    void arm(const Op& o) { int k = o.c % 16; switch (o.c / 16) { case 1: cmp_in = k; break; case 2: throw_in = k; break; case 3: alog.fail_in = k; break; } }
    static void calm() { cmp_in = 0; throw_in = 0; alog.fail_in = 0; }
    void same(const F& x, const Model& y, const char* what) {
        if (x.size() != y.size()) fail("%s: %zu elements, expected %zu", what, size_t(x.size()), y.size());
        auto i = x.begin();
        for (auto& e : y) { if (key_of(*i).get() != e.first || (PER == 2 && val_of(*i) != e.second)) fail("%s: element (%d,%d), expected (%d,%d)", what, key_of(*i).get(), val_of(*i), e.first, e.second); ++i; }
    }
    static std::vector<int> source(int i) { switch (i) { case 0: return {}; case 1: return {1}; case 2: return {2, 0, 2}; default: return {1, 1, 0}; } }
    void apply(const Op& o) {
        const Model before = m;
        const size_t live0 = reg.live;
        try { run(o); calm(); }
        catch (const Boom&) { calm(); if (o.c / 16 != 1 && o.c / 16 != 2) fail("harness error"); after(o, before, live0); }
        catch (const std::bad_alloc&) { calm(); if (o.c / 16 != 3) fail("%s: bad_alloc", names[o.code]); after(o, before, live0); }
        catch (const std::out_of_range&) {
            calm(); m = before;
            if (o.code == AT) { if (m.count(o.a)) fail("at threw for an existing key"); }
            else if (m.size() < Bounded<C>::cap || m.count(o.a)) fail("%s: out_of_range", names[o.code]);
            same(f, m, "after out_of_range");
        }
    }
    void after(const Op& o, const Model& before, size_t live0) {
        m = before;
        if (o.code == COPY_ASSIGN) { f = F(); m.clear(); return; }      // any contents, but it can be replaced
        same(f, m, "after the exception");
        if (reg.live != live0) fail("%zu objects are alive after the exception, before it were %zu", reg.live, live0);
    }
    template <class Fn> void made(const Op& o, const std::vector<int>& src, Fn make) {
        if (src.size() > Bounded<C>::cap) return;
        Model y; int i = 0; for (int k : src) { y.emplace(k, i); ++i; }
        std::vector<Elem> in; for (size_t j = 0; j < src.size(); ++j) in.push_back(elem(src[j], int(j)));
        make(in, y);
        for (size_t j = 0; j < src.size(); ++j) if (key_of(in[j]).get() != src[j]) fail("the source was modified");
        (void)o;
    }
    void run(const Op& o) {
        int k = o.a, v = o.b;
        switch (o.code) {
        case INS: { const Elem e = elem(k, v); arm(o); auto r = f.insert(e); calm(); bool ins = m.emplace(k, v).second; if (r.second != ins || key_of(*r.first).get() != k) fail("insert result"); break; }
        case INS_R: { Elem e = elem(k, v); arm(o); auto r = f.insert(std::move(e)); calm(); bool ins = m.emplace(k, v).second; if (r.second != ins || key_of(*r.first).get() != k) fail("insert result"); break; }
        case EMPLACE: { arm(o);
#if MAP
            auto r = f.emplace(k, v);
#else
            auto r = f.emplace(k);
#endif
            calm(); bool ins = m.emplace(k, v).second; if (r.second != ins || key_of(*r.first).get() != k) fail("emplace result"); break; }
#if MAP
        case IDX: { const Tracked key(k); arm(o); Tracked& r = f[key]; calm(); int& w = m[k]; if (r.get() != w) fail("operator[] gave %d, expected %d", r.get(), w); r = Tracked(v); w = v; break; }
        case IDX_INT: { arm(o); Tracked& r = f[k]; calm(); int& w = m[k]; if (r.get() != w) fail("operator[] gave %d, expected %d", r.get(), w); r = Tracked(v); w = v; break; }
        case AT: { const Tracked key(k); arm(o); auto& r = f.at(key); calm(); if (!m.count(k) || m.at(k) != r.get()) fail("at"); break; }
#endif
        case FIND: { const Tracked key(k); arm(o); bool a = f.find(key) != f.end(); bool b = f.find(k) != f.end(); size_t n = f.count(k); auto l = f.lower_bound(key) - f.begin(); auto u = f.upper_bound(key) - f.begin(); auto e = f.equal_range(key); calm();
            if (a != m.count(k) || b != a || n != m.count(k) || l != std::distance(m.begin(), m.lower_bound(k)) || u != std::distance(m.begin(), m.upper_bound(k)) || e.first - f.begin() != l || e.second - f.begin() != u) fail("lookup of %d", k); break; }
        case ERASE: { const Tracked key(k); arm(o); size_t n = f.erase(key); calm(); if (n != m.erase(k)) fail("erase result"); break; }
        case ERASE_INT: { arm(o); size_t n = f.erase(k); calm(); if (n != m.erase(k)) fail("erase result"); break; }
        case ERASE_IT: { auto i = f.erase(f.begin() + k); if (i - f.begin() != k) fail("erase result"); m.erase(std::next(m.begin(), k)); break; }
        case CLEAR: f.clear(); m.clear(); break;
        case RESERVE: if constexpr (Bounded<C>::alloc) { arm(o); f.reserve(size_t(o.a)); calm(); if (f.capacity() < size_t(o.a)) fail("capacity"); } break;
        case COPY_CTOR: { const F& cf = f; arm(o); F t(cf); calm(); same(t, m, "the copy"); break; }
        case COPY_ASSIGN: { F t; for (int i : {3, 1}) if (m.size() < 10) t.insert(elem(i, i + 10)); const F& ct = t; arm(o); f = ct; calm(); same(t, Model{{1, 11}, {3, 13}}, "the source"); m = Model{{1, 11}, {3, 13}}; break; }
        case CTOR_IL: made(o, source(k), [&](std::vector<Elem>& in, const Model& y) {
            arm(o);
            // the elements of the list are constructed here
            if (in.empty()) { F t(std::initializer_list<Elem>{}); calm(); same(t, y, "constructed"); }
            else if (in.size() == 1) { F t({in[0]}); calm(); same(t, y, "constructed"); }
            else { F t({in[0], in[1], in[2]}); calm(); same(t, y, "constructed"); } }); break;
        case CTOR_RANGE: made(o, source(k), [&](std::vector<Elem>& in, const Model& y) { arm(o); F t(in.begin(), in.end()); calm(); same(t, y, "constructed"); }); break;
        case CTOR_CONT: made(o, source(k), [&](std::vector<Elem>& in, const Model& y) { C ct(in.begin(), in.end()); arm(o); F t(std::move(ct)); calm(); same(t, y, "constructed"); }); break;
        }
    }
    void observe(Key& key) {
        same(f, m, "the container");
        for (auto& e : m) { key.add(e.first); key.add(e.second); }
        if (reg.live != m.size() * PER) fail("%zu objects are alive for %zu elements", reg.live, m.size());
        if constexpr (Bounded<C>::alloc) { key.add(int64_t(f.capacity())); if (alog.blocks.size() > 1) fail("%zu blocks are allocated", alog.blocks.size()); }
    }
    void finish() {}
};
template <class C> static void hist(const char* name, int depth, int tdepth) { add(name, [=] { static Cfg k; if (thorough) k.keys = 5; explore_bfs<World<C>>(k, BfsOpt{thorough ? tdepth : depth, thorough ? 2 : 1}); }); }
void mc_setup() {
    typedef TrackAlloc<Elem> A;
    hist<std::vector<Elem, A>>("vector", 5, 8);
    hist<itlib::small_vector<Elem, 2, 0, A>>("small_vector", 5, 8);
    hist<itlib::static_vector<Elem, 3>>("static_vector", 5, 8);
}

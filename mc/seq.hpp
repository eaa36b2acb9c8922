// Lockstep exploration of a vector-like container against std::vector<int> (the model), used for small_vector,
// static_vector and pod_vector. The traits class P says which operations the container has.
#pragma once
#include "tracked.hpp"

namespace seq {
using namespace mc;

enum Code {
    PUSH_C, PUSH_M, EMPLACE_B, POP, INS_C, INS_M, INS_N, INS_R, INS_IL, EMPLACE, ERASE, ERASE_R, RESIZE, RESIZE_V, RESERVE, CLEAR,
    SHRINK, REVERT, ASSIGN_N, ASSIGN_R, ASSIGN_IL, SELF_COPY, SELF_MOVE,
    A_PUSH, A_EMPLACE_B, A_INS, A_INS_N, A_EMPLACE, A_RESIZE, A_PUSH_MOVE_OUT,
    SET, COPY_CTOR, MOVE_CTOR, COPY_ASSIGN, MOVE_ASSIGN, SWAP, NEW_DEF, NEW_N, NEW_NV, NEW_R, NEW_IL, COPY_ALLOC,
    BAD_INS, BAD_ERASE, INS_HUGE, DEF_EMPLACE_B, ASSIGN_OTHER_CAP, COPY_OTHER_CAP, NCODES
};
inline const char* code_name[] = {
    "push_back(const&)", "push_back(&&)", "emplace_back", "pop_back", "insert(const&)", "insert(&&)", "insert(n,val)", "insert(range)", "insert(ilist)",
    "emplace", "erase(it)", "erase(range)", "resize(n)", "resize(n,val)", "reserve", "clear", "shrink_to_fit", "revert_to_static", "assign(n,val)", "assign(range)",
    "assign(ilist)", "self copy-assign", "self move-assign", "push_back(own element)", "emplace_back(own element)", "insert(own element)", "insert(n, own element)",
    "emplace(own element)", "resize(n, own element)", "push_back(move of last)", "write element", "copy construct from other", "move construct from other",
    "copy-assign from other", "move-assign from other", "swap with other", "construct()", "construct(n)", "construct(n,val)", "construct(range)", "construct(ilist)",
    "copy construct from other with allocator", "insert at bad position", "erase bad range", "insert(huge count)", "emplace_back()", "assign from other capacity", "construct from other capacity"};
enum { OBJ_B = 1, FAIL = 2, THROW = 4 };     // THROW * k: the k-th construction of an element by the operation throws
// element constructions of the harness itself don't count
struct Calm { int saved = throw_in; Calm() { throw_in = 0; } ~Calm() { throw_in = saved; } };
template <class E> E make_calm(int id) { Calm c; return make<E>(id); }

struct Cfg {
    int init_a = 0, init_b = -1;     // initial sizes; -1: no second object
    int max_size = 6;
    int counts = 3;                  // n in insert(n,val) etc: 0..counts
    bool faults = false;             // enumerate allocation failures
    bool pair = false;               // two-object operations
    bool alias = true;
    bool bad = false;                // operations that must be rejected
    int reserve_from = -1;           // dynamic start state: reserve(reserve_from) first
    int lite = 0;                    // smaller alphabet for deeper searches
    int throws = 0;                  // enumerate a throwing construction: the 1st..throws-th one of each operation
};

// default traits
struct Base {
    static constexpr bool reserve = false, shrink = false, revert = false, alloc = false, bounded = false, pod = false, copyable = true, move_ops = true;
    static constexpr bool alloc_ctor = false;
    static constexpr bool multi_emplace = false;
    static constexpr bool bad_positions = false;
    static constexpr int cap = 0, revert_below = 0;
};

template <class P>
struct World {
    using V = typename P::V;
    using E = typename V::value_type;
    using Model = std::vector<int>;
    const Cfg& cfg;
    Guarded<V> ga, gb;
    Model ma, mb;
    int next = 1;
    bool hasb;
    static constexpr int UNSPEC = -1000000;     // model value of an element added without a value (pod)

    explicit World(const Cfg& c) : cfg(c) {
        reg.clear(); areg.clear(); alog.reset(); reset_counts(); throw_in = 0;
        P::reset();
        hasb = c.init_b >= 0;
        construct_init(ga, ma, c.init_a, 1);
        if (hasb) construct_init(gb, mb, c.init_b, 2);
    }
    void construct_init(Guarded<V>& g, Model& m, int n, int id) {
        V* v;
        if constexpr (P::alloc_ctor) v = &g.make(typename V::allocator_type(P::template alloc_id<typename V::allocator_type>(id)));
        else { (void)id; v = &g.make(); }
        if constexpr (P::reserve) if (cfg.reserve_from >= 0) v->reserve(size_t(cfg.reserve_from));
        for (int i = 0; i < n; ++i) { int x = fresh(); if constexpr (P::move_ops) v->push_back(make<E>(x)); else { E e = make<E>(x); v->push_back(e); } m.push_back(x); }
    }
    int fresh() { int r = next; if (P::val_limit && next == P::val_limit) next = 0; ++next; return r; }

    void finish() {
        ga.kill(); gb.kill();
        if (reg.live) fail("%zu element(s) were never destroyed", reg.live);
        if (!alog.blocks.empty()) fail("%zu block(s) were never deallocated", alog.blocks.size());
        P::finish();
    }

    // ------------------------------------------------------------ operations enabled in the current state
    void enumerate(std::vector<Op>& out) {
        enum_obj(out, ma, 0);
        if (hasb) {
            if (cfg.pair) {
                for (int f : {0, int(OBJ_B)}) {
                    auto both = [&](int code, bool may_alloc, int a = 0) {
                        out.push_back(Op{code, a, 0, f});
                        if (may_alloc && cfg.faults && P::alloc) out.push_back(Op{code, a, 0, f | FAIL});
                        for (int k = 1; code != SWAP && code != MOVE_ASSIGN && code != MOVE_CTOR && k <= std::min(cfg.throws, int((f ? ma : mb).size()) + 1); ++k) out.push_back(Op{code, a, 0, f | THROW * k});
                    };
                    if constexpr (P::copyable) { both(COPY_CTOR, true); both(COPY_ASSIGN, true); if (P::alloc_ctor) both(COPY_ALLOC, true); }
                    both(MOVE_CTOR, false); both(MOVE_ASSIGN, false);
                    if (f == 0) both(SWAP, false);
                    if constexpr (P::bounded && P::copyable) { both(ASSIGN_OTHER_CAP, false); both(COPY_OTHER_CAP, false); }
                }
                // a few plain operations on the second object
                int n = int(mb.size());
                if (n < cfg.max_size) out.push_back(Op{PUSH_M, 0, 0, OBJ_B});
                if (n) { out.push_back(Op{POP, 0, 0, OBJ_B}); out.push_back(Op{ERASE, 0, 0, OBJ_B}); }
                out.push_back(Op{CLEAR, 0, 0, OBJ_B});
                if constexpr (P::shrink) out.push_back(Op{SHRINK, 0, 0, OBJ_B});
                if constexpr (P::reserve) out.push_back(Op{RESERVE, cfg.max_size, 0, OBJ_B});
            } else enum_obj(out, mb, OBJ_B);
        }
    }
    // how many elements an operation has to construct from arguments, plus one (implementations may need a temporary one)
    static int constructions(int code, int a, int b, int n) {
        switch (code) {
        case PUSH_C: case EMPLACE_B: case INS_C: case EMPLACE: case DEF_EMPLACE_B: case A_PUSH: case A_EMPLACE_B: case A_INS: case A_EMPLACE: return 2;
        case INS_N: case INS_R: case INS_IL: return b ? b + 1 : 0;
        case A_INS_N: return b % 100 + 1;
        case RESIZE: case RESIZE_V: case A_RESIZE: return a > n ? a - n + 1 : 0;
        case ASSIGN_N: case ASSIGN_R: case ASSIGN_IL: case NEW_N: case NEW_NV: case NEW_R: case NEW_IL: return a ? a + 1 : 0;
        default: return 0;
        }
    }
    void enum_obj(std::vector<Op>& out, const Model& m, int f) {
        int n = int(m.size()), mx = cfg.max_size, room = mx - n;
        if (P::bounded) mx = std::max(mx, P::cap + 2), room = mx - n;
        auto put = [&](int code, int a = 0, int b = 0, bool grows = false) {
            out.push_back(Op{code, a, b, f});
            if (grows && cfg.faults && P::alloc) out.push_back(Op{code, a, b, f | FAIL});
            if (cfg.throws) for (int k = 1, most = std::min(cfg.throws, constructions(code, a, b, n)); k <= most; ++k) out.push_back(Op{code, a, b, f | THROW * k});
        };
        auto cnt = [&](int k) { return std::min(k, room); };
        if (room >= 1) {
            if constexpr (P::copyable) put(PUSH_C, 0, 0, true);
            if constexpr (P::move_ops) put(PUSH_M, 0, 0, true);
            put(EMPLACE_B, 0, 0, true);
            if (!cfg.lite) put(DEF_EMPLACE_B, 0, 0, true);
        }
        if (n) put(POP);
        for (int p = 0; p <= n; ++p) {
            if (cfg.lite && p > 1 && p < n - 1) continue;
            if (room >= 1) {
                if constexpr (P::copyable) put(INS_C, p, 0, true);
                if constexpr (P::move_ops) if (!cfg.lite) put(INS_M, p, 0, true);
                if (!cfg.lite) put(EMPLACE, p, 0, true);
            }
            if constexpr (P::copyable) for (int k = 0; k <= cnt(cfg.counts); ++k) {
                if (cfg.lite && k == 1) continue;
                put(INS_N, p, k, true);
                put(INS_R, p, k, true);
                if (!cfg.lite) put(INS_IL, p, k, true);
            }
            if (p < n) put(ERASE, p);
            for (int k = 0; k <= n - p; ++k) { if (cfg.lite && k == 1) continue; put(ERASE_R, p, k); }
        }
        for (int k = 0; k <= mx; ++k) {
            if (cfg.lite && k != 0 && k != n - 1 && k != n && k != n + 1 && k != mx) continue;
            put(RESIZE, k, 0, k > n);
            if constexpr (P::copyable) {
                put(RESIZE_V, k, 0, k > n);
                if (!cfg.lite || k == 0 || k == mx) { put(ASSIGN_N, k, 0, true); put(ASSIGN_R, k, 0, true); if (!cfg.lite) put(ASSIGN_IL, k, 0, true); }
            }
            if constexpr (P::reserve) if (!cfg.lite || k >= n) put(RESERVE, k, 0, true);
        }
        put(CLEAR);
        if constexpr (P::shrink) put(SHRINK, 0, 0, true);
        if constexpr (P::revert) put(REVERT, 0, 0, true);
        if constexpr (P::copyable) put(SELF_COPY);
        if constexpr (P::reserve) put(SELF_MOVE);
        if (n && !cfg.lite) put(SET, n - 1);
        if (cfg.alias && n) {
            for (int i : {0, n / 2, n - 1}) {
                if (i != 0 && i == n / 2 && n / 2 == n - 1 ) continue;
                if constexpr (P::copyable) {
                    if (room >= 1) {
                        put(A_PUSH, i); put(A_EMPLACE_B, i);
                        for (int p : {0, n / 2, n}) { if (p && p == n / 2 && n / 2 == n) continue; put(A_INS, p, i); put(A_EMPLACE, p, i); put(A_INS_N, p, i * 100 + cnt(2)); if (!cfg.lite && cnt(3) == 3) put(A_INS_N, p, i * 100 + 3); }
                    }
                    for (int k : {n - 1, n, n + 1, n + 2}) if (k <= mx) put(A_RESIZE, k, i);
                }
            }
            if constexpr (P::move_ops) if (room >= 1) put(A_PUSH_MOVE_OUT);
        }
        if (!cfg.lite) {
            put(NEW_DEF);
            for (int k = 0; k <= std::min(mx, P::cap + 2); ++k) { put(NEW_N, k, 0, true); if constexpr (P::copyable) { put(NEW_NV, k, 0, true); put(NEW_R, k, 0, true); put(NEW_IL, k, 0, true); } }
        }
        if (cfg.bad) {
            if constexpr (P::bad_positions) {
                for (int d : {-2, -1, n + 1, n + 2}) { put(BAD_INS, d, 0); put(BAD_INS, d, 1); put(BAD_INS, d, 2); put(BAD_INS, d, 3); put(BAD_INS, d, 4);  put(BAD_ERASE, d, 1); put(BAD_ERASE, d, 0); }
                for (int p = 0; p <= n; ++p) { put(BAD_ERASE, p, n - p + 1); if (p) put(BAD_ERASE, p, -1); }
            }
            if constexpr (P::bounded && P::copyable) for (int p = 0; p <= n; ++p) for (int k = 0; k < 3; ++k) put(INS_HUGE, p, k);
        }
    }

    // ------------------------------------------------------------ one operation
    static std::string text(const Cfg&, const Op& o) {
        std::string s = std::string(o.c & OBJ_B ? "b." : "a.") + code_name[o.code] + "[" + std::to_string(o.a) + "," + std::to_string(o.b) + "]";
        if (o.c & FAIL) s += " with allocation failure";
        if (o.c >= THROW) s += " while constructing element " + std::to_string(o.c / THROW) + " throws";
        return s;
    }

    template <class It> void check_it(V& v, It it, size_t pos, const char* what) {
        if (size_t(it - v.begin()) != pos || it < v.begin()) fail("%s returned an iterator to position %ld, expected %zu", what, long(it - v.begin()), pos);
    }

    void apply(const Op& o) {
        Guarded<V>& g = o.c & OBJ_B ? gb : ga;
        Guarded<V>& g2 = o.c & OBJ_B ? ga : gb;
        Model& m = o.c & OBJ_B ? mb : ma;
        Model& m2 = o.c & OBJ_B ? ma : mb;
        V& v = g.get();
        const Model before = m, before2 = m2;
        const size_t cap0 = v.capacity(), size0 = v.size();
        const E* data0 = v.data();
        bool static0 = P::is_static(v);
        long allocs0 = alog.allocs;
        size_t peak = size0;            // largest room the operation asked for
        bool over = false;              // must be rejected (bounded container)
        bool rejected = false, failed = false, threw = false;
        if (o.c & FAIL) alog.fail_in = 1;
        auto grow = [&](size_t k) { peak = std::max(peak, k); if (P::bounded && k > size_t(P::cap)) over = true; };
        const int x = fresh();          // the value this operation introduces
        throw_in = o.c / THROW;
        try {
            switch (o.code) {
            case PUSH_C: if constexpr (P::copyable) { grow(m.size() + 1); const E e = make_calm<E>(x); P::check_ret(v, v, [&]() -> decltype(auto) { return v.push_back(e); }); if (!over) m.push_back(x); } break;
            case PUSH_M: if constexpr (P::move_ops) { grow(m.size() + 1); E e = make_calm<E>(x); v.push_back(std::move(e)); if (!over) m.push_back(x); } break;
            case EMPLACE_B: {
                grow(m.size() + 1);
                auto& r = P::emplace_back(v, x);
                if (!over) { m.push_back(x); if (&r != v.data() + (m.size() - 1)) fail("emplace_back did not return the new element"); }
                break; }
            case DEF_EMPLACE_B: { grow(m.size() + 1); auto& r = v.emplace_back(); if (!over) { m.push_back(P::pod ? UNSPEC : 0); if (&r != v.data() + (m.size() - 1)) fail("emplace_back() did not return the new element"); } break; }
            case POP: v.pop_back(); m.pop_back(); break;
            case INS_C: if constexpr (P::copyable) { grow(m.size() + 1); const E e = make_calm<E>(x); auto it = v.insert(v.begin() + o.a, e); if (!over) { m.insert(m.begin() + o.a, x); check_it(v, it, size_t(o.a), "insert"); } } break;
            case INS_M: if constexpr (P::move_ops) { grow(m.size() + 1); E e = make_calm<E>(x); auto it = v.insert(v.cbegin() + o.a, std::move(e)); if (!over) { m.insert(m.begin() + o.a, x); check_it(v, it, size_t(o.a), "insert"); } } break;
            case EMPLACE: { grow(m.size() + 1); auto it = P::emplace(v, v.begin() + o.a, x); if (!over) { m.insert(m.begin() + o.a, x); check_it(v, it, size_t(o.a), "emplace"); } break; }
            case INS_N: if constexpr (P::copyable) {
                grow(m.size() + size_t(o.b)); const E e = make_calm<E>(x);
                auto it = v.insert(v.begin() + o.a, size_t(o.b), e);
                if (!over) { m.insert(m.begin() + o.a, size_t(o.b), x); check_it(v, it, size_t(o.a), "insert(n,val)"); } } break;
            case INS_R: if constexpr (P::copyable) {
                grow(m.size() + size_t(o.b));
                std::vector<int> src = range(x, o.b); std::vector<E> es; for (int i : src) es.push_back(make_calm<E>(i));
                typename V::iterator it{};
                if (o.b % 2) { std::deque<E> d = calmly([&] { return std::deque<E>(es.begin(), es.end()); }); it = v.insert(v.begin() + o.a, d.begin(), d.end()); }
                else it = v.insert(v.cbegin() + o.a, es.data(), es.data() + es.size());
                if (!over) { m.insert(m.begin() + o.a, src.begin(), src.end()); check_it(v, it, size_t(o.a), "insert(range)"); }
                for (size_t i = 0; i < es.size(); ++i) if (idof(es[i]) != src[i]) fail("insert(range) modified its source"); } break;
            case INS_IL: if constexpr (P::copyable) {
                grow(m.size() + size_t(o.b)); auto src = range(x, o.b);
                typename V::iterator it{};
                const auto p = v.cbegin() + o.a;
                if (o.b == 0) it = v.insert(p, std::initializer_list<E>{});
                else if (o.b == 1) it = v.insert(p, {make_calm<E>(src[0])});
                else if (o.b == 2) it = v.insert(p, {make_calm<E>(src[0]), make_calm<E>(src[1])});
                else it = v.insert(p, {make_calm<E>(src[0]), make_calm<E>(src[1]), make_calm<E>(src[2])});
                if (!over) { m.insert(m.begin() + o.a, src.begin(), src.end()); check_it(v, it, size_t(o.a), "insert(ilist)"); } } break;
            case ERASE: { auto it = v.erase(v.begin() + o.a); m.erase(m.begin() + o.a); check_it(v, it, size_t(o.a), "erase"); break; }
            case ERASE_R: { auto it = v.erase(v.begin() + o.a, v.begin() + o.a + o.b); m.erase(m.begin() + o.a, m.begin() + o.a + o.b); check_it(v, it, size_t(o.a), "erase(range)"); break; }
            case RESIZE: { grow(size_t(o.a)); P::resize_ret(v, [&] { return v.resize(size_t(o.a)); }); if (!over) { int fill = P::new_value(); m.resize(size_t(o.a), fill); } break; }
            case RESIZE_V: if constexpr (P::copyable) { grow(size_t(o.a)); const E e = make_calm<E>(x); P::resize_ret(v, [&] { return v.resize(size_t(o.a), e); }); if (!over) m.resize(size_t(o.a), x); } break;
            case RESERVE: if constexpr (P::reserve) { grow(size_t(o.a)); P::resize_ret(v, [&] { return v.reserve(size_t(o.a)); }); if (v.capacity() < size_t(o.a)) fail("capacity %zu after reserve(%d)", v.capacity(), o.a); } break;
            case CLEAR: v.clear(); m.clear(); break;
            case SHRINK: if constexpr (P::shrink) { P::shrink_to_fit(v); } break;
            case REVERT: if constexpr (P::revert) {
                bool r = v.revert_to_static();
                if (r != v.is_static()) fail("revert_to_static returned %d but is_static is %d", r, v.is_static());
                if (m.size() <= size_t(P::cap) && !r) fail("revert_to_static did not revert although the contents fit"); } break;
            case ASSIGN_N: if constexpr (P::copyable) { grow(size_t(o.a)); const E e = make_calm<E>(x); v.assign(size_t(o.a), e); if (!over) m.assign(size_t(o.a), x); } break;
            case ASSIGN_R: if constexpr (P::copyable) {
                grow(size_t(o.a)); auto src = range(x, o.a); std::vector<E> es; for (int i : src) es.push_back(make_calm<E>(i));
                if (o.a % 2) { std::deque<E> d = calmly([&] { return std::deque<E>(es.begin(), es.end()); }); v.assign(d.begin(), d.end()); } else v.assign(es.data(), es.data() + es.size());
                if (!over) m = src;
                for (size_t i = 0; i < es.size(); ++i) if (idof(es[i]) != src[i]) fail("assign(range) modified its source"); } break;
            case ASSIGN_IL: if constexpr (P::copyable) {
                int k = std::min(o.a, 3); if (o.a > 3) { grow(4); } else grow(size_t(k));
                auto src = range(x, o.a > 3 ? 4 : k);
                if (k == 0) v.assign(std::initializer_list<E>{});
                else if (o.a > 3) v = {make_calm<E>(src[0]), make_calm<E>(src[1]), make_calm<E>(src[2]), make_calm<E>(src[3])};
                else if (k == 1) v.assign({make_calm<E>(src[0])});
                else if (k == 2) v = {make_calm<E>(src[0]), make_calm<E>(src[1])};
                else v.assign({make_calm<E>(src[0]), make_calm<E>(src[1]), make_calm<E>(src[2])});
                if (!over) m = src; } break;
            case SELF_COPY: if constexpr (P::copyable) { const V& r = v; V& q = (v = r); if (&q != &v) fail("operator= did not return *this"); } break;
            case SELF_MOVE: { V& r = v; v = std::move(r); } break;
            case A_PUSH: if constexpr (P::copyable) { grow(m.size() + 1); const V& cv = v; v.push_back(cv[size_t(o.a)]); if (!over) m.push_back(before[size_t(o.a)]); } break;
            case A_EMPLACE_B: if constexpr (P::copyable) { grow(m.size() + 1); const V& cv = v; v.emplace_back(cv[size_t(o.a)]); if (!over) m.push_back(before[size_t(o.a)]); } break;
            case A_INS: if constexpr (P::copyable) { grow(m.size() + 1); const V& cv = v; auto it = v.insert(v.begin() + o.a, cv[size_t(o.b)]); if (!over) { m.insert(m.begin() + o.a, before[size_t(o.b)]); check_it(v, it, size_t(o.a), "insert"); } } break;
            case A_EMPLACE: if constexpr (P::copyable) { grow(m.size() + 1); const V& cv = v; auto it = v.emplace(v.begin() + o.a, cv[size_t(o.b)]); if (!over) { m.insert(m.begin() + o.a, before[size_t(o.b)]); check_it(v, it, size_t(o.a), "emplace"); } } break;
            case A_INS_N: if constexpr (P::copyable) { int k = o.b % 100, i = o.b / 100; grow(m.size() + size_t(k)); const V& cv = v; auto it = v.insert(v.begin() + o.a, size_t(k), cv[size_t(i)]);
                if (!over) { m.insert(m.begin() + o.a, size_t(k), before[size_t(i)]); check_it(v, it, size_t(o.a), "insert(n,own)"); } } break;
            case A_RESIZE: if constexpr (P::copyable) { grow(size_t(o.a)); const V& cv = v; P::resize_ret(v, [&] { return v.resize(size_t(o.a), cv[size_t(o.b)]); }); if (!over) m.resize(size_t(o.a), before[size_t(o.b)]); } break;
            case A_PUSH_MOVE_OUT: if constexpr (P::move_ops) { grow(m.size() + 1); E tmp = std::move(v.back()); v.back() = make_calm<E>(x); int l = m.back(); m.back() = x; v.push_back(std::move(tmp));
                if (!over) m.push_back(l); } break;
            case SET: {
                size_t i = size_t(o.a);
                int y[5] = {x, fresh(), fresh(), fresh(), fresh()};
                v[i] = make_calm<E>(y[0]); if (idof(v.at(i)) != y[0]) fail("write through operator[] was lost");
                v.at(i) = make_calm<E>(y[1]); if (idof(v.back()) != y[1]) fail("write through at() was lost");
                v.back() = make_calm<E>(y[2]); if (idof(v.data()[i]) != y[2]) fail("write through back() was lost");
                v.data()[i] = make_calm<E>(y[3]); if (idof(*(v.end() - 1)) != y[3]) fail("write through data() was lost");
                *v.rbegin() = make_calm<E>(y[4]); m[i] = y[4];
                int z = fresh(); v.front() = make_calm<E>(z); m[0] = z;
                break; }
            case NEW_DEF: renew(g, m, [&] { P::construct(g, 3); }); m.clear(); break;
            case NEW_N: { grow(size_t(o.a)); renew(g, m, [&] { P::construct(g, 3, size_t(o.a)); }); if (!over) m.assign(size_t(o.a), P::new_value()); break; }
            case NEW_NV: if constexpr (P::copyable) { grow(size_t(o.a)); const E e = make_calm<E>(x); renew(g, m, [&] { P::construct(g, 3, size_t(o.a), e); }); if (!over) m.assign(size_t(o.a), x); } break;
            case NEW_R: if constexpr (P::copyable) { grow(size_t(o.a)); auto src = range(x, o.a); std::deque<E> es; for (int i : src) es.push_back(make_calm<E>(i));
                if (o.a % 2) { std::vector<E> w = calmly([&] { return std::vector<E>(es.begin(), es.end()); }); renew(g, m, [&] { P::construct(g, 3, w.data(), w.data() + w.size()); }); }
                else renew(g, m, [&] { P::construct(g, 3, es.begin(), es.end()); });
                if (!over) m = src; } break;
            case NEW_IL: if constexpr (P::copyable) {
                auto src = range(x, std::min(o.a, 4)); grow(src.size());
                auto il = [&](std::initializer_list<E> l) { renew(g, m, [&] { P::construct(g, 3, l); }); };
                switch (src.size()) {
                case 0: il({}); break;
                case 1: il({make_calm<E>(src[0])}); break;
                case 2: il({make_calm<E>(src[0]), make_calm<E>(src[1])}); break;
                case 3: il({make_calm<E>(src[0]), make_calm<E>(src[1]), make_calm<E>(src[2])}); break;
                default: il({make_calm<E>(src[0]), make_calm<E>(src[1]), make_calm<E>(src[2]), make_calm<E>(src[3])});
                }
                if (!over) m = src; } break;
            case COPY_CTOR: if constexpr (P::copyable) { const V& s = g2.get(); renew(g, m, [&] { g.make(s); }); m = m2; P::check_copied(g.get(), s); } break;
            case COPY_ALLOC: if constexpr (P::copyable && P::alloc_ctor) { const V& s = g2.get(); renew(g, m, [&] { g.make(s, typename V::allocator_type(P::template alloc_id<typename V::allocator_type>(7))); }); m = m2; if (!P::alloc_is(g.get(), 7)) fail("copy did not use the given allocator"); } break;
            case MOVE_CTOR: { V& s = g2.get(); const E* d = s.data(); bool st = P::is_static(s); renew(g, m, [&] { g.make(std::move(s)); }); m = m2; m2.clear(); P::check_moved(g.get(), d, st, m.size()); break; }
            case COPY_ASSIGN: if constexpr (P::copyable) { grow(m2.size()); const V& s = g2.get(); V& q = (v = s); if (&q != &v) fail("operator= did not return *this"); m = m2; } break;
            case MOVE_ASSIGN: { grow(m2.size()); V& s = g2.get(); const E* d = s.data(); bool st = P::is_static(s); V& q = (v = std::move(s)); if (&q != &v) fail("operator= did not return *this"); m = m2; m2.clear(); P::check_moved(v, d, st, m.size()); break; }
            case SWAP: P::swap(v, g2.get()); m.swap(m2); break;
            case BAD_INS: if constexpr (P::bad_positions) {
                over = true; auto pos = v.begin() + o.a; E e = make_calm<E>(x);
                const E* nul = nullptr;
                switch (o.b) { case 0: if constexpr (P::copyable) v.insert(pos, e); else v.insert(pos, std::move(e)); break; case 1: v.insert(pos, make_calm<E>(x)); break;
                    case 2: P::emplace(v, pos, x); break; case 3: if constexpr (P::copyable) v.insert(pos, 1, e); else v.insert(pos, std::move(e)); break;
                    case 4: if constexpr (P::copyable) v.insert(pos, &e, &e + 1); else v.insert(pos, std::move(e)); break; }
                (void)nul; } break;
            case BAD_ERASE: if constexpr (P::bad_positions) { over = true; if (o.b == 1 && (o.a < 0 || o.a > int(m.size()))) v.erase(v.begin() + o.a); else v.erase(v.begin() + o.a, v.begin() + o.a + o.b); } break;
            case INS_HUGE: if constexpr (P::bounded && P::copyable) {
                over = true; E e = make_calm<E>(x); size_t h[3] = {~size_t(0), ~size_t(0) - m.size() + (m.empty() ? 0 : 1), ~size_t(0) / sizeof(E)};
                if (o.b == 2) v.resize(h[0] - size_t(o.a)); else v.insert(v.begin() + o.a, h[o.b], e); } break;
            case ASSIGN_OTHER_CAP: if constexpr (P::bounded && P::copyable) { Calm calm; typename P::Bigger s(g2.get()); grow(s.size() ); s.emplace_back(make_calm<E>(x)); grow(m2.size() + 1);
                V& q = (v = V(s)); if (&q != &v) fail("operator="); if (!over) { m = m2; m.push_back(x); } } break;
            case COPY_OTHER_CAP: if constexpr (P::bounded && P::copyable) { typename P::Bigger s = calmly([&] { return typename P::Bigger(g2.get()); }); s.emplace_back(make_calm<E>(x)); grow(m2.size() + 1);
                const auto& cs = s; renew(g, m, [&] { g.make(cs); }); if (!over) { m = m2; m.push_back(x); } 
                if (s.size() != m2.size() + 1 || idof(s.back()) != x) fail("converting copy modified its source"); } break;
            default: fail("harness error: op %d", o.code);
            }
        } catch (const std::bad_alloc&) {
            if (!(o.c & FAIL)) throw;
            failed = true;
        } catch (const Boom&) {
            if (o.c < THROW) fail("%s threw something", code_name[o.code]);
            threw = true;
        } catch (const std::exception& e) {
            if (!over) fail("%s threw %s", code_name[o.code], e.what());
            rejected = true;
        }
        alog.fail_in = 0; throw_in = 0;
        if (over && !rejected && !threw) fail("%s had to be rejected but was not", code_name[o.code]);

        Model& now = m;
        if (threw) after_throw(o.code, g, m, before, size_t(o.a), x);
        else if (failed || rejected) {
            bool assign = o.code == ASSIGN_N || o.code == ASSIGN_R || o.code == ASSIGN_IL || o.code == COPY_ASSIGN;
            bool constructed = (o.code >= NEW_DEF && o.code <= NEW_IL) || o.code == COPY_CTOR || o.code == COPY_ALLOC || o.code == COPY_OTHER_CAP;
            if (constructed) { construct_empty(g); now.clear(); }
            else if (o.code == A_PUSH_MOVE_OUT) {}                          // the model is already right
            else if (assign && g.get().size() == 0) now.clear();          // basic guarantee: unchanged or empty
            else now = before;
            m2 = before2;
        } else if (g.on && o.code < NEW_DEF && o.code != MOVE_CTOR && o.code != COPY_CTOR) {
            P::placement(v, o.code, data0, cap0, size0, static0, peak, alog.allocs - allocs0);
        } else if (g.on) P::placement_new(g.get(), o.code, peak, alog.allocs - allocs0);
    }
    template <class F> void renew(Guarded<V>& g, Model&, F f) {
        g.kill(); g.check();
        memset(g.buf, 0xEE, sizeof g.buf);
        f();
    }
    template <class F> static auto calmly(F f) { Calm c; return f(); }
    // What has to hold after an exception of an element: constructors leave nothing behind, insertions don't change anything,
    // resize keeps the old elements, assignments leave some valid contents. (observe() checks that exactly these are alive.)
    void after_throw(int code, Guarded<V>& g, Model& m, const Model& before, size_t n, int x) {
        m = before;
        if ((code >= NEW_DEF && code <= NEW_IL) || code == COPY_CTOR || code == COPY_ALLOC || code == COPY_OTHER_CAP) { construct_empty(g); m.clear(); return; }
        const V& v = g.get();
        if (code == RESIZE || code == RESIZE_V || code == A_RESIZE) {
            if (v.size() < before.size() || v.size() > n) fail("size is %zu after a resize from %zu to %zu which threw", size_t(v.size()), before.size(), n);
            for (size_t i = before.size(); i < v.size(); ++i) m.push_back(code == RESIZE ? P::new_value() : code == RESIZE_V ? x : idof(v[i]));
        } else if (code == ASSIGN_N || code == ASSIGN_R || code == ASSIGN_IL || code == COPY_ASSIGN || code == ASSIGN_OTHER_CAP) {
            m.clear();
            if (v.size() > v.capacity()) fail("size %zu above capacity after an assignment which threw", size_t(v.size()));
            for (size_t i = 0; i < v.size(); ++i) { if constexpr (is_tracked<E>::value) if (!reg.has(static_cast<const void*>(v.data() + i))) fail("after an assignment which threw, element %zu is not alive", i); m.push_back(idof(v[i])); }
        }
    }
    void construct_empty(Guarded<V>& g) { if (g.on) fail("constructor threw but the object exists"); P::construct(g, 3); }
    std::vector<int> range(int first, int n) { std::vector<int> r; if (n > 0) r.push_back(first); for (int i = 1; i < n; ++i) r.push_back(fresh()); return r; }

    // ------------------------------------------------------------ full observation
    void observe_one(V& v, Model& m, Guarded<V>& g, Key& k) {
        g.check();
        const V& c = v;
        size_t n = m.size();
        if (c.size() != n) fail("size is %zu, expected %zu", size_t(c.size()), n);
        if (c.empty() != (n == 0)) fail("empty() is wrong");
        if (c.capacity() < n) fail("capacity %zu below size %zu", size_t(c.capacity()), n);
        if (size_t(c.end() - c.begin()) != n || size_t(v.end() - v.begin()) != n || size_t(c.cend() - c.cbegin()) != n) fail("iterator range has the wrong length");
        if (size_t(c.rend() - c.rbegin()) != n || size_t(v.rend() - v.rbegin()) != n || size_t(c.crend() - c.crbegin()) != n) fail("reverse iterator range has the wrong length");
        if (c.begin() != c.data() || v.begin() != v.data() || c.cbegin() != c.data()) fail("begin() and data() differ");
        if (reinterpret_cast<uintptr_t>(c.data()) % alignof(E)) fail("element storage is not aligned");
        k.add(int64_t(n));
        for (size_t i = 0; i < n; ++i) {
            if (m[i] == UNSPEC) m[i] = idof(c[i]);     // adopt the unspecified value
            int x = m[i];
            if (idof(c[i]) != x || idof(v[i]) != x || idof(c.at(i)) != x || idof(v.at(i)) != x || idof(c.begin()[long(i)]) != x || idof(v.data()[i]) != x)
                fail("element %zu is %d, expected %d", i, idof(c[i]), x);
            if (idof(c.rbegin()[long(n - 1 - i)]) != x || idof(*(v.rend() - 1 - long(i))) != x || idof(*(c.crend() - 1 - long(i))) != x || idof(c.cbegin()[long(i)]) != x) fail("reverse iteration differs at %zu", i);
            k.label(x);
        }
        if (n) {
            if (&c.front() != c.data() || &v.front() != v.data() || &c.back() != c.data() + (n - 1) || &v.back() != v.data() + (n - 1)) fail("front/back refer to the wrong element");
        }
        if constexpr (is_tracked<E>::value) {
            size_t lv = reg.within(c.data(), c.data() + c.capacity());
            if (lv != n) fail("%zu live objects inside the storage of a vector of size %zu", lv, n);
            for (size_t i = 0; i < n; ++i) if (!reg.has(static_cast<const void*>(c.data() + i))) fail("element %zu is not alive", i);
            if constexpr (P::alloc_ctor) for (size_t i = 0; i < n; ++i) if (!areg.has(static_cast<const void*>(c.data() + i))) fail("element %zu was not constructed through the vector's allocator", i);
        }
        P::state(v, g, k);
    }
    void observe(Key& k) {
        observe_one(ga.get(), ma, ga, k);
        if (hasb) observe_one(gb.get(), mb, gb, k);
        if (is_tracked<E>::value) {
            size_t want = ma.size() + mb.size();
            if (reg.live != want) fail("%zu live elements, but the sizes add up to %zu", reg.live, want);
        }
        P::blocks(ga.get(), hasb ? &gb.get() : nullptr);
        if (hasb) {
            V& a = ga.get(); V& b = gb.get();
            bool eq = ma == mb;
            P::compare(a, b, eq);
        }
        {
            V& a = ga.get();
            P::compare(a, a, true);
            P::compare_model(a, ma);
        }
    }
};
}

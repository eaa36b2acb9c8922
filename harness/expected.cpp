// E01: every expected<T, E>, including references, void values and void errors
#include "tracked.hpp"
#include <itlib/expected.hpp>
#include <itlib/expected.hpp>
using namespace mc;
enum { UNSPEC = -100000 };
struct ErrT : TrackedBase<8, 21> { using TrackedBase<8, 21>::TrackedBase; };     // an error type different from the value type
struct FromInt { int v; operator ErrT() const { return ErrT(v); } };
static Tracked* targets; static const int NT = 3;
struct Cfg { bool faults = false; };

template <class T, class E> struct World {
    typedef itlib::expected<T, E> X;
    static constexpr bool ref = std::is_reference<T>::value, voidv = std::is_void<T>::value, voide = std::is_void<E>::value;
    static constexpr bool opt = voide && !ref && !voidv;
    typedef std::conditional_t<ref || voidv, int, T> V; typedef std::conditional_t<voide, int, E> Er;
    struct M { bool val = true; int v = 0; };      // v: value, error, or target index
    std::optional<X> a, b; M m[2]; Tracked tgt[NT]; int next = 1; const Cfg& c;
    static constexpr int val0 = 0;
    World(const Cfg& cfg) : c(cfg) {
        for (int i = 0; i < NT; ++i) tgt[i].v = 100 + i;
        targets = tgt; throw_in = 0;
        if constexpr (ref) { a.emplace(tgt[0]); b.emplace(tgt[1]); m[0].v = 0; m[1].v = 1; } else { a.emplace(); b.emplace(); }
        base = reg.live - tracked(0) - tracked(1);
    }
    size_t base;
    size_t tracked(int i) { return m[i].val ? (!ref && !voidv && is_tracked<V>::value) : (!voide && is_tracked<Er>::value); }
    std::optional<X>& o(int i) { return i ? b : a; }
    int fresh() { next = next % 9 + 1; return next; }
    template <class Q> static int moved(int v) { return is_tracked<Q>::value ? (std::is_same<Q, CopyOnly>::value ? v : int(MOVED)) : std::is_arithmetic<Q>::value ? v : int(UNSPEC); }
    enum { NEW_DEF, NEW_VAL, NEW_UNEX, NEW_UNEX_L, NEW_ERR_R, NEW_ERR_L, NEW_ERR_CL, NEW_ERR_CONV, NEW_ERR_STORED, ASSIGN_VAL, ASSIGN_ERR, ASSIGN_UNEX, MOVE_ASSIGN, MOVE_CTOR, SWAP, WRITE, MOVE_OUT, MOVE_OUT_STAR, WRITE_ERR, MOVE_OUT_ERR, OR_C, OR_M, COPY_ASSIGN, COPY_CTOR, EMPLACE, EMPLACE_ARGS, CLEAR, SELF_COPY, RETURN_VAL };
    static std::string text(const Cfg&, const Op& op) {
        static const char* n[] = {"new()", "new(value&&)", "new(unexpected())", "new(unexpected_t<void> lvalue)", "new(unexpected(error&&))", "new(unexpected(error&))", "new(unexpected(const error&))", "new(unexpected(convertible))", "new(stored unexpected)", "= value", "= unexpected(error)", "= unexpected()", "= move(other)", "move construct", "swap", "write value", "move value out", "move *value out", "write error", "move error out", "value_or const", "value_or &&", "= other", "copy construct", "emplace(v)", "emplace(a,b)", "clear", "= itself", "returned from a function"};
        return std::string(op.b ? "b " : "a ") + n[op.code] + " " + std::to_string(op.a) + (op.c ? " [constructor throws]" : "");
    }
    void enumerate(std::vector<Op>& out) {
        for (int i = 0; i < 2; ++i) {
            auto add = [&](int code, bool cond, int n = 1, bool thr = false) { if (!cond) return; for (int k = 0; k < n; ++k) { out.push_back(Op{code, k, i, 0}); if (thr && c.faults) out.push_back(Op{code, k, i, 1}); } };
            constexpr bool vthrow = is_tracked<V>::value, ethrow = is_tracked<Er>::value, ecopy = std::is_copy_constructible<Er>::value;
            add(NEW_DEF, !ref, 1, vthrow); add(NEW_VAL, !voidv, ref ? NT : 1); add(NEW_UNEX, true, 1, ethrow); add(NEW_UNEX_L, true);
            add(NEW_ERR_R, !voide); add(NEW_ERR_L, !voide && ecopy, 1, ethrow); add(NEW_ERR_CL, !voide && ecopy, 1, ethrow); add(NEW_ERR_CONV, !voide && (std::is_same<Er, ErrT>::value || std::is_same<Er, std::string>::value)); add(NEW_ERR_STORED, !voide, 2);
            add(ASSIGN_VAL, !voidv, ref ? NT : 1); add(ASSIGN_ERR, !voide); add(ASSIGN_UNEX, true); add(MOVE_ASSIGN, true); add(MOVE_CTOR, true); if (i == 0) add(SWAP, true);
            add(WRITE, !voidv && m[i].val); add(MOVE_OUT, !ref && !voidv && m[i].val); add(MOVE_OUT_STAR, !ref && !voidv && m[i].val); add(WRITE_ERR, !voide && !m[i].val); add(MOVE_OUT_ERR, !voide && !m[i].val);
            add(OR_C, !voidv && (ref || std::is_copy_constructible<V>::value), 3); add(OR_M, !voidv && !ref, std::is_copy_constructible<V>::value ? 3 : 2);
            add(COPY_ASSIGN, voide && (ref || voidv || std::is_copy_constructible<V>::value), 1, vthrow && opt); add(COPY_CTOR, voide && (ref || voidv || std::is_copy_constructible<V>::value), 1, vthrow && opt && m[i].val); add(SELF_COPY, voide && (ref || voidv || std::is_copy_constructible<V>::value));
            add(EMPLACE, voide, ref ? NT : 1, opt && vthrow); add(EMPLACE_ARGS, opt && vthrow, 1, true); add(CLEAR, voide); add(RETURN_VAL, true, 2);
        }
    }
    template <class F> bool run(const Op& op, F f) { throw_in = op.c; bool t = false; try { f(); } catch (Boom&) { t = true; if (!op.c) fail("stray exception"); } throw_in = 0; return t; }
    X fresh_err(int v) { if constexpr (voide) { (void)v; return itlib::unexpected(); } else return itlib::unexpected(make<Er>(v)); }
    X fresh_val(int v) { if constexpr (voidv) { (void)v; return X(); } else if constexpr (ref) return tgt[v]; else return make<V>(v); }
    void apply(const Op& op) {
        int i = op.b; auto& x = o(i); auto& y = o(!i); M& s = m[i]; M& t = m[!i];
        auto renew = [&](auto f, bool val, int v) { x.reset(); size_t l0 = reg.live; if (run(op, f)) { if (reg.live != l0) fail("an exception during construction left objects behind"); if constexpr (ref) { x.emplace(tgt[0]); s = M{true, 0}; } else { x.emplace(); s = M{true, 0}; } } else s = M{val, v}; };
        switch (op.code) {
        case NEW_DEF: if constexpr (!ref) renew([&] { x.emplace(); }, true, 0); break;
        case NEW_VAL: if constexpr (ref) renew([&] { x.emplace(tgt[op.a]); }, true, op.a); else if constexpr (!voidv) { int v = fresh(); V q = make<V>(v); x.reset(); x.emplace(std::move(q)); s = M{true, v}; if (is_tracked<V>::value && !std::is_same<V, CopyOnly>::value && idof(q) != MOVED) fail("the value was not moved in"); } break;
        case NEW_UNEX: renew([&] { x.emplace(itlib::unexpected()); }, false, 0); break;
        case NEW_UNEX_L: { itlib::unexpected_t<void> u; renew([&] { x.emplace(u); }, false, 0); break; }
        case NEW_ERR_R: if constexpr (!voide) { int v = fresh(); Er q = make<Er>(v); renew([&] { x.emplace(itlib::unexpected(std::move(q))); }, false, v); if (is_tracked<Er>::value && !std::is_same<Er, CopyOnly>::value && idof(q) != MOVED) fail("the error was not moved in"); } break;
        case NEW_ERR_L: case NEW_ERR_CL: if constexpr (!voide) if constexpr (std::is_copy_constructible<Er>::value) { int v = fresh(); Er q = make<Er>(v); const Er& cq = q; renew([&] { if (op.code == NEW_ERR_L) x.emplace(itlib::unexpected(q)); else x.emplace(itlib::unexpected(cq)); }, false, v); if (idof(q) != v) fail("the lvalue given as an error was modified"); } break;
        case NEW_ERR_CONV: if constexpr (std::is_same<Er, ErrT>::value) { FromInt f{fresh()}; renew([&] { x.emplace(itlib::unexpected(f)); }, false, f.v); } else if constexpr (std::is_same<Er, std::string>::value) { renew([&] { x.emplace(itlib::unexpected("7x")); }, false, 7); } break;
        case NEW_ERR_STORED: if constexpr (!voide) { int v = fresh(); if (op.a == 0) { auto u = itlib::unexpected(make<Er>(v)); renew([&] { x.emplace(std::move(u)); }, false, v); } else { Er q = make<Er>(v); auto u = itlib::unexpected(std::move(q)); auto w = std::move(u); renew([&] { x.emplace(std::move(w)); }, false, v); } } break;
        case ASSIGN_VAL: if constexpr (ref) { *x = tgt[op.a]; s = M{true, op.a}; } else if constexpr (!voidv) { int v = fresh(); auto& r = (*x = make<V>(v)); if (&r != &*x) fail("result of assignment"); s = M{true, v}; } break;
        case ASSIGN_ERR: { int v = fresh(); *x = fresh_err(v); s = M{false, voide ? 0 : v}; break; }
        case ASSIGN_UNEX: *x = itlib::unexpected(); s = M{false, 0}; break;
        case MOVE_ASSIGN: *x = std::move(*y); s = t; after_move(t); break;
        case MOVE_CTOR: { X q(std::move(*x)); M was = s; after_move(s); check(q, was, "the moved-to expected"); check(*x, s, "the moved-from expected"); break; }
        case SWAP: std::swap(*a, *b); std::swap(m[0], m[1]); break;
        case WRITE: if constexpr (ref) { if (&x->value() != &**x) fail("reference"); } else if constexpr (!voidv) { int v = fresh(); if (next % 2) x->value() = make<V>(v); else **x = make<V>(v); s.v = v; } break;
        case MOVE_OUT: case MOVE_OUT_STAR: if constexpr (!ref && !voidv) { static_assert(std::is_same<decltype(std::declval<X>().value()), V&&>::value && std::is_same<decltype(*std::declval<X>()), V&&>::value && std::is_same<decltype(std::declval<const X&>().value()), const V&>::value, ""); int was = s.v; V q = op.code == MOVE_OUT ? std::move(*x).value() : *std::move(*x); if (was != UNSPEC && idof(q) != was) fail("the moved-out value is %d, expected %d", idof(q), was); s.v = moved<V>(s.v); } break;
        case WRITE_ERR: if constexpr (!voide) { int v = fresh(); x->error() = make<Er>(v); s.v = v; } break;
        case MOVE_OUT_ERR: if constexpr (!voide) { static_assert(std::is_same<decltype(std::declval<X>().error()), Er&&>::value, ""); int was = s.v; Er q = std::move(*x).error(); if (was != UNSPEC && idof(q) != was) fail("the moved-out error is %d", idof(q)); s.v = moved<Er>(s.v); } break;
        case OR_C: if constexpr (ref) { auto& r = static_cast<const X&>(*x).value_or(tgt[2]); if (&r != &tgt[s.val ? s.v : 2]) fail("value_or"); } else if constexpr (!voidv) if constexpr (std::is_copy_constructible<V>::value) {
            const X& cx = *x; int v = fresh(); V q = make<V>(v); const V& cq = q; V r = op.a == 0 ? cx.value_or(q) : op.a == 1 ? cx.value_or(cq) : cx.value_or(std::move(q));
            int want = s.val ? s.v : v; if (want != UNSPEC && idof(r) != want) fail("value_or gave %d, expected %d", idof(r), want); if ((op.a < 2 || s.val) && idof(q) != v) fail("value_or modified its argument"); } break;
        case OR_M: if constexpr (!voidv && !ref) { int v = fresh(); V q = make<V>(v); const V& cq = q; (void)cq; int want = s.val ? s.v : v;
            if constexpr (std::is_copy_constructible<V>::value) { V r = op.a == 0 ? std::move(*x).value_or(q) : op.a == 1 ? std::move(*x).value_or(cq) : std::move(*x).value_or(std::move(q)); if (want != UNSPEC && idof(r) != want) fail("value_or gave %d, expected %d", idof(r), want); if ((op.a < 2 || s.val) && idof(q) != v) fail("value_or modified its argument"); if (s.val) { s.v = reads(*x, s); } }
            else { V r = op.a == 0 ? std::move(*x).value_or(std::move(q)) : std::move(*x).value_or(make<V>(v)); if (want != UNSPEC && idof(r) != want) fail("value_or gave %d, expected %d", idof(r), want); if (op.a == 0 && s.val && idof(q) != v) fail("value_or modified its argument"); if (s.val) s.v = moved<V>(s.v); } } break;
        case COPY_ASSIGN: if constexpr (voide) if constexpr (ref || voidv || std::is_copy_constructible<V>::value) { const X& cy = *y; bool had = s.val; (void)had; if (run(op, [&] { *x = cy; })) { // a failed assignment leaves the old value or nothing
                if (t.val == false) fail("nothing to construct, yet it threw"); if (s.val != x->has_value()) s = M{x->has_value(), 0}; if (x->has_value() && !had) fail("claims to have a value although its construction threw"); } else s = t; } break;
        case SELF_COPY: if constexpr (voide) if constexpr (ref || voidv || std::is_copy_constructible<V>::value) { const X& r = *x; *x = r; } break;
        case COPY_CTOR: if constexpr (voide) if constexpr (ref || voidv || std::is_copy_constructible<V>::value) { run(op, [&] { X q(static_cast<const X&>(*x)); check(q, s, "the copy"); if constexpr (opt) { q = make<V>(77); check(*x, s, "the original"); } }); } break;
        case EMPLACE: if constexpr (ref) { if constexpr (voide) { x->emplace(tgt[op.a]); s = M{true, op.a}; } } else if constexpr (voidv && voide) { x->emplace(); s = M{true, 0}; } else if constexpr (opt) { int v = fresh(); if constexpr (std::is_same<V, std::string>::value) { auto z = make<V>(v); x->emplace(z.data(), z.size()); s = M{true, v}; } else if (run(op, [&] { x->emplace(v); })) s = M{false, 0}; else s = M{true, v}; } break;
        case EMPLACE_ARGS: if constexpr (opt && is_tracked<V>::value) { if (run(op, [&] { x->emplace(3, 4); })) s = M{false, 0}; else s = M{true, 7}; } break;
        case CLEAR: if constexpr (voide) { x->clear(); s = M{false, 0}; } break;
        case RETURN_VAL: { int v = ref ? op.a : fresh(); bool err = op.a; auto f = [&]() -> X { if (err) return fresh_err(v); return fresh_val(v); }; x.reset(); x.emplace(f()); s = err ? M{false, voide ? 0 : v} : M{true, voidv ? 0 : v}; break; }
        }
    }
    int reads(X& x, const M& s) { if constexpr (ref || voidv) return s.v; else { int r = idof(x.value()); return is_tracked<V>::value || std::is_arithmetic<V>::value ? r : int(UNSPEC); } }
    void after_move(M& t) { if constexpr (!ref && !voidv) if (t.val) t.v = moved<V>(t.v); if constexpr (!voide) if (!t.val) t.v = moved<Er>(t.v); }
    void check(X& x, const M& s, const char* w) {
        const X& cx = x;
        if (x.has_value() != s.val || x.has_error() == s.val || bool(x) != s.val) fail("%s: has_value is %d, expected %d", w, x.has_value(), s.val);
        if (s.val) {
            if constexpr (ref) { if (&x.value() != &tgt[s.v] || &*cx != &tgt[s.v] || x.operator->() != &tgt[s.v] || x->get() != tgt[s.v].v) fail("%s: refers to something else", w); }
            else if constexpr (!voidv) { if (s.v != UNSPEC && idof(x.value()) != s.v) fail("%s: value is %d, expected %d", w, idof(x.value()), s.v); if (&x.value() != &*x || &cx.value() != &*cx || x.operator->() != &*x || cx.operator->() != &*x || &cx.value() != &x.value()) fail("%s: accessors disagree", w); if (reinterpret_cast<uintptr_t>(&*x) % alignof(V)) fail("misaligned"); }
        } else if constexpr (!voide) { if (s.v != UNSPEC && idof(x.error()) != s.v) fail("%s: error is %d, expected %d", w, idof(x.error()), s.v); if (&cx.error() != &x.error()) fail("%s: accessors disagree", w); }
    }
    void observe(Key& key) {
        check(*a, m[0], "a"); check(*b, m[1], "b");
        if (reg.live != base + tracked(0) + tracked(1)) fail("%zd objects are alive, %zu are held", ssize_t(reg.live - base), tracked(0) + tracked(1));
        for (auto& t : tgt) if (t.get() != 100 + int(&t - tgt)) fail("a referred object was changed");
        for (auto& s : m) { key.add(s.val); if (ref || s.v < 0) key.add(s.v); else key.label(s.v); }
    }
    void finish() { a.reset(); b.reset(); if (reg.live != base) fail("%zd objects were never destroyed", ssize_t(reg.live - base)); }
};
template <class T, class E> static void hist(const char* name, bool faults, int depth, int tdepth) { add(name, [=] { static Cfg k; k.faults = faults; explore_bfs<World<T, E>>(k, BfsOpt{thorough ? tdepth : depth, thorough ? 3 : 2}); }); }
void mc_setup() {
    hist<int, int>("int_int", false, 5, 7); hist<int, std::string>("int_string", false, 4, 6); hist<std::string, int>("string_int", false, 4, 6); hist<std::string, std::string>("string_string", false, 4, 6);
    hist<Tracked, ErrT>("tracked", true, 4, 6); hist<MoveOnly, ErrT>("moveonly_tracked", true, 4, 6); hist<Tracked, MoveOnly>("tracked_moveonly", true, 4, 6); hist<OverAligned, std::string>("overaligned_string", true, 4, 6); hist<CopyOnly, CopyOnly>("copyonly", false, 4, 6); hist<Tracked, Tracked>("same_type", true, 4, 6);
    hist<Tracked&, ErrT>("ref_tracked", true, 5, 7); hist<const Tracked&, std::string>("cref_string", false, 5, 7);
    hist<void, ErrT>("void_tracked", true, 5, 7); hist<void, std::string>("void_string", false, 5, 7); hist<void, MoveOnly>("void_moveonly", true, 5, 7); hist<void, int>("void_int", false, 5, 7);
    hist<Tracked, void>("opt_tracked", true, 5, 7); hist<std::string, void>("opt_string", false, 5, 7); hist<MoveOnly, void>("opt_moveonly", true, 5, 7); hist<int, void>("opt_int", false, 5, 7); hist<OverAligned, void>("opt_overaligned", true, 5, 7);
    hist<Tracked&, void>("opt_ref", false, 5, 7); hist<const Tracked&, void>("opt_cref", false, 5, 7); hist<void, void>("void_void", false, 5, 7);
}

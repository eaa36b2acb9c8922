// K01: make_shared / make_unique own one forwarded object, make_aliased never aliases nothing
#include "tracked.hpp"
#include <itlib/make_ptr.hpp>
#include <itlib/make_ptr.hpp>
using namespace mc;

// ---- make_shared / make_unique
struct Explicit : TrackedBase<8, 40> {
    using TrackedBase<8, 40>::TrackedBase;
    explicit Explicit(const Explicit& o) : TrackedBase<8, 40>(o) {}
    explicit Explicit(Explicit&& o) noexcept : TrackedBase<8, 40>(std::move(o)) {}
};
struct Lists : TrackedBase<8, 41> {      // must not be brace initialised
    using TrackedBase<8, 41>::TrackedBase;
    Lists(const Lists&) = default; Lists(Lists&&) = default;
    Lists(std::initializer_list<Lists>) : TrackedBase<8, 41>(1000) {}
};
struct Greedy : TrackedBase<8, 42> {     // tells the value category it was made from
    int from = 0;
    Greedy(int v) : TrackedBase<8, 42>(v) {}
    Greedy(Greedy& o) : TrackedBase<8, 42>(static_cast<TrackedBase<8, 42>&>(o)), from(1) {}
    Greedy(const Greedy& o) : TrackedBase<8, 42>(o), from(2) {}
    Greedy(Greedy&& o) : TrackedBase<8, 42>(std::move(static_cast<TrackedBase<8, 42>&>(o))), from(3) {}
    Greedy(const Greedy&& o) : TrackedBase<8, 42>(o), from(4) {}
};
struct SharedT : TrackedBase<8, 43>, std::enable_shared_from_this<SharedT> { using TrackedBase<8, 43>::TrackedBase; };
struct Fancy : OverAligned { using OverAligned::OverAligned; };

template <class P> static void alone(const P& p) { if constexpr (std::is_same<P, std::shared_ptr<typename P::element_type>>::value) if (p.use_count() != 1) fail("use_count of a new pointer is %ld", p.use_count()); }
enum { LV, CLV, RV, CRV };
template <bool Uniq, class A> static auto mkp(A&& a) { if constexpr (Uniq) return itlib::make_unique(std::forward<A>(a)); else return itlib::make_shared(std::forward<A>(a)); }
template <bool Uniq, class T> using Ptr = typename std::conditional<Uniq, std::unique_ptr<T>, std::shared_ptr<T>>::type;
template <bool Uniq, class T> static void one_case(int cat, bool boom) {
    T src(7); const T& csrc = src; size_t live0 = reg.live; long copies0 = n_copies, moves0 = n_moves;
    auto run = [&](auto&& mkr, bool want_copy, auto type, int from) {
        typedef typename decltype(type)::type E; bool threw = false;
        if (boom) throw_in = 1;
        try {
            auto p = mkr(); throw_in = 0;
            static_assert(std::is_same<decltype(p), Ptr<Uniq, E>>::value, "element type");
            if (boom && want_copy) fail("the exception of the constructor disappeared");
            if (!p) fail("null pointer returned"); if (p.get() == &src) fail("points at the argument"); alone(p);
            if (p->get() != 7) fail("the new object has value %d", p->get()); if (reg.live != live0 + 1) fail("%zu objects were made", reg.live - live0);
            if (n_copies - copies0 != (want_copy ? 1 : 0) || n_moves - moves0 != (want_copy ? 0 : 1)) fail("%ld copies and %ld moves", n_copies - copies0, n_moves - moves0);
            if constexpr (std::is_same<T, Greedy>::value) if (p->from != from) fail("constructed from value category %d, expected %d", p->from, from);
            if constexpr (std::is_same<T, SharedT>::value) { if constexpr (!Uniq) { if (p->shared_from_this() != p) fail("shared_from_this of a new object"); } }
            if (src.get() != (want_copy ? 7 : MOVED)) fail("the argument has value %d afterwards", src.get());
            auto keep = std::move(p); if (p) fail("moved-from pointer"); keep.reset(); if (reg.live != live0) fail("the object survived its owner");
        } catch (Boom&) { threw = true; throw_in = 0; }
        if (threw && !(boom && want_copy)) fail("unexpected exception"); if (reg.live != live0) fail("an object leaked");
        if (threw && src.get() != 7) fail("the argument was modified");
    };
    switch (cat) {
    case LV: if constexpr (std::is_copy_constructible<T>::value) run([&] { return mkp<Uniq>(src); }, true, std::enable_if<true, T>(), 1); break;
    case CLV: if constexpr (std::is_copy_constructible<T>::value) run([&] { return mkp<Uniq>(csrc); }, true, std::enable_if<true, const T>(), 2); break;
    case RV: run([&] { return mkp<Uniq>(std::move(src)); }, false, std::enable_if<true, T>(), 3); break;
    case CRV: if constexpr (std::is_copy_constructible<T>::value) run([&] { return mkp<Uniq>(std::move(csrc)); }, true, std::enable_if<true, const T>(), 4); break;
    }
}
template <bool U> static void owned() {
    reg.clear(); throw_in = 0; int t = choose(8), cat = choose(4), boom = choose(2);
    switch (t) {
    case 0: one_case<U, Tracked>(cat, boom); break; case 1: one_case<U, MoveOnly>(cat, boom); break; case 2: one_case<U, ThrowMove>(cat, boom); break; case 3: one_case<U, Lists>(cat, boom); break;
    case 4: one_case<U, Greedy>(cat, boom); break; case 5: one_case<U, SharedT>(cat, boom); break; case 6: one_case<U, Fancy>(cat, boom); break; case 7: one_case<U, Explicit>(cat, boom); break;
    }
    { int i = 3; const std::string s("a long string which does not fit in place"); auto a = mkp<U>(i); *a = 4; if (i != 3) fail("int shared with the argument"); auto b = mkp<U>(s); static_assert(std::is_same<decltype(b), Ptr<U, const std::string>>::value, ""); if (*b != s) fail("string"); auto c = mkp<U>(std::string("t")); static_assert(std::is_same<decltype(c), Ptr<U, std::string>>::value, ""); *c += "u"; if (*c != "tu") fail("string");
      auto d = mkp<U>(std::unique_ptr<int>(new int(5))); if (!*d || **d != 5) fail("nested pointer"); auto e = mkp<U>(std::vector<std::vector<int>>{{1}, {2, 3}}); if (e->size() != 2 || (*e)[1].size() != 2) fail("vector"); std::vector<int> v{5, 6}; auto f = mkp<U>(v); if (*f != v || f->data() == v.data()) fail("vector copy"); }
    if (reg.live) fail("%zu objects leaked", reg.live); outcome(t * 100 + cat * 10 + boom);
}

// ---- make_aliased: two owners, two aliases, a weak pointer
struct Node { Tracked a, b; Node(int v) : a(v), b(v + 1) {} virtual ~Node() {} };
struct Derived : Node { Tracked c; Derived(int v) : Node(v), c(v + 2) {} };
static int outside;
struct Cfg { int objects; };
struct World {
    enum Kind { EMPTY, OWNS, NULLOWNS };             // NULLOWNS: owns (counts) but points at null
    struct M { int obj = -1; const void* ptr = nullptr; };        // obj: -1 owns nothing
    typedef std::shared_ptr<void> V;
    const Cfg& c; std::shared_ptr<Node> o[2]; std::shared_ptr<Tracked> x[2]; std::shared_ptr<const void> y; std::shared_ptr<int> z; std::weak_ptr<Tracked> w; M mo[2], mx[2], my, mz, mw; int next = 0; struct Nodes { Node* p[8]; size_t n = 0; size_t size() const { return n; } void push_back(Node* x) { p[n++] = x; } Node*& operator[](size_t i) { return p[i]; } Node** begin() { return p; } Node** end() { return p + n; } } nodes; char dead[8] = {};
    World(const Cfg& cfg) : c(cfg) { reg.clear(); throw_in = 0; }
    enum { NEW, NEW_DERIVED, NEW_DELETER, OWN_NULL, RESET_O, COPY_O, MOVE_O, FALSE_O, AL_A, AL_B, AL_NULL, AL_OF_ALIAS, AL_VOID, AL_INT, AL_UNRELATED, RESET_X, COPY_X, MOVE_X, RESET_Y, RESET_Z, WEAK, LOCK, AL_SELF, AL_BASE, AL_TEMP };
    static std::string text(const Cfg&, const Op& o) { static const char* n[] = {"make owner", "make derived owner", "owner with deleter", "owner of null", "reset owner", "copy owner", "move owner", "owner that owns nothing but points", "alias a of owner", "alias b of owner", "alias null", "alias of an alias", "alias to void", "alias to int", "alias to an unrelated object", "reset alias", "copy alias", "move alias", "reset void alias", "reset int alias", "weak of alias", "lock weak", "alias assigned to its own owner", "alias to const base", "alias of a temporary owner"}; return std::string(n[o.code]) + " " + std::to_string(o.a) + "," + std::to_string(o.b); }
    void enumerate(std::vector<Op>& out) {
        for (int i = 0; i < 2; ++i) {
            if (next < c.objects) for (int k : {NEW, NEW_DERIVED, NEW_DELETER, OWN_NULL}) out.push_back(Op{k, i, 0, 0});
            for (int k : {RESET_O, COPY_O, MOVE_O, FALSE_O, RESET_X, COPY_X, MOVE_X}) out.push_back(Op{k, i, 0, 0});
            for (int j = 0; j < 2; ++j) for (int k : {AL_A, AL_B, AL_NULL, AL_OF_ALIAS, AL_UNRELATED, AL_TEMP}) out.push_back(Op{k, i, j, 0});
            for (int k : {AL_VOID, AL_INT, WEAK, LOCK, AL_SELF, AL_BASE}) out.push_back(Op{k, i, 0, 0});
        }
        out.push_back(Op{RESET_Y, 0, 0, 0}); out.push_back(Op{RESET_Z, 0, 0, 0});
    }
    long owners(int obj) const { if (obj < 0) return 0; long n = 0; for (auto* m : {&mo[0], &mo[1], &mx[0], &mx[1], &my, &mz}) n += m->obj == obj; return n; }
    Node* node(int i) { return o[i].get(); }
    Tracked* tgt(int i, int which) { Node* n = node(i); return !n ? nullptr : which ? &n->b : &n->a; }
    static M alias(const M& owner, const void* p) { return owner.obj < 0 ? M() : M{owner.obj, p}; }
    void apply(const Op& op) {
        int i = op.a, j = op.b; Node* n;
        switch (op.code) {
        case NEW: o[i] = std::make_shared<Node>(next * 10); reg_node(i); break;
        case NEW_DERIVED: o[i] = std::make_shared<Derived>(next * 10); reg_node(i); break;
        case NEW_DELETER: { int id = next; o[i] = std::shared_ptr<Node>(new Node(next * 10), [this, id](Node* p) { dead[size_t(id)]++; delete p; }); reg_node(i); break; }
        case OWN_NULL: o[i] = std::shared_ptr<Node>(static_cast<Node*>(nullptr)); nodes.push_back(nullptr); mo[i] = M{next++, nullptr}; break;
        case RESET_O: o[i].reset(); mo[i] = M(); break;
        case COPY_O: o[i] = o[!i]; mo[i] = mo[!i]; break;
        case MOVE_O: o[i] = std::move(o[!i]); mo[i] = mo[!i]; mo[!i] = M(); break;
        case FALSE_O: { static Node* fake = reinterpret_cast<Node*>(&outside); o[i] = std::shared_ptr<Node>(std::shared_ptr<void>(), fake); mo[i] = M{-1, fake}; break; }
        case AL_A: case AL_B: n = mo[i].obj >= 0 ? node(i) : nullptr; { Tracked* t = n ? (op.code == AL_B ? &n->b : &n->a) : reinterpret_cast<Tracked*>(&outside); x[j] = itlib::make_aliased(o[i], t); mx[j] = alias(mo[i], t); } break;
        case AL_NULL: x[j] = itlib::make_aliased(o[i], static_cast<Tracked*>(nullptr)); mx[j] = alias(mo[i], nullptr); break;
        case AL_OF_ALIAS: { Tracked* t = reinterpret_cast<Tracked*>(&outside); M m = alias(mx[i], t); x[j] = itlib::make_aliased(x[i], t); mx[j] = m; break; }
        case AL_UNRELATED: { Tracked* t = reinterpret_cast<Tracked*>(&outside); x[j] = itlib::make_aliased(o[i], t); mx[j] = alias(mo[i], t); break; }
        case AL_TEMP: { Tracked* t = mo[i].obj >= 0 && node(i) ? &node(i)->a : nullptr; x[j] = itlib::make_aliased(std::shared_ptr<Node>(o[i]), t); mx[j] = alias(mo[i], t); break; }
        case AL_VOID: { const void* p = mo[i].obj >= 0 ? mo[i].ptr : &outside; y = itlib::make_aliased(o[i], p); my = alias(mo[i], p); break; }
        case AL_BASE: { const Node* p = static_cast<const Node*>(mo[i].ptr); std::shared_ptr<const Node> t = itlib::make_aliased(o[i], p); y = t; my = alias(mo[i], p); break; }
        case AL_INT: z = itlib::make_aliased(y, &outside); mz = alias(my, &outside); break;
        case AL_SELF: { Tracked* t = mx[i].obj >= 0 ? static_cast<Tracked*>(const_cast<void*>(mx[i].ptr)) : reinterpret_cast<Tracked*>(&outside); M m = alias(mx[i], t); x[i] = itlib::make_aliased(x[i], t); mx[i] = m; break; }
        case RESET_X: x[i].reset(); mx[i] = M(); break;
        case COPY_X: x[i] = x[!i]; mx[i] = mx[!i]; break;
        case MOVE_X: x[i] = std::move(x[!i]); mx[i] = mx[!i]; mx[!i] = M(); break;
        case RESET_Y: y.reset(); my = M(); break;
        case RESET_Z: z.reset(); mz = M(); break;
        case WEAK: w = x[i]; mw = mx[i]; break;
        case LOCK: { bool ok = mw.obj >= 0 && owners(mw.obj); M m = ok ? mw : M(); x[i] = w.lock(); mx[i] = m; break; }
        }
        check();
    }
    void reg_node(int i) { nodes.push_back(o[i].get()); mo[i] = M{next++, o[i].get()}; }
    template <class P> void one(const P& p, const M& m, const char* what, bool owner) {
        const void* got = p.get(); if (got != m.ptr) fail("%s points at %p, expected %p", what, got, m.ptr);
        if (p.use_count() != owners(m.obj)) fail("%s: use_count %ld, expected %ld", what, p.use_count(), owners(m.obj));
        if (!owner && m.obj < 0 && p) fail("%s is not null although its owner owns nothing", what);
    }
    template <class A, class B> void same(const A& a, const M& ma, const B& b, const M& mb) { bool eq = !a.owner_before(b) && !b.owner_before(a); if (eq != (ma.obj == mb.obj)) fail("two pointers %s ownership", eq ? "wrongly share" : "do not share"); }
    void check() {
        one(o[0], mo[0], "owner 0", true); one(o[1], mo[1], "owner 1", true); one(x[0], mx[0], "alias 0", false); one(x[1], mx[1], "alias 1", false); one(y, my, "void alias", false); one(z, mz, "int alias", false);
        same(o[0], mo[0], x[0], mx[0]); same(o[0], mo[0], x[1], mx[1]); same(o[1], mo[1], x[0], mx[0]); same(o[1], mo[1], x[1], mx[1]); same(x[0], mx[0], x[1], mx[1]); same(y, my, o[0], mo[0]); same(z, mz, y, my);
        for (size_t k = 0; k < nodes.size(); ++k) if (nodes[k]) { bool should = owners(int(k)) > 0; 
            if (should) { if (nodes[k]->a.get() != int(k) * 10 || nodes[k]->b.get() != int(k) * 10 + 1) fail("the owned object changed"); if (dead[k]) fail("destroyed too early"); }
            else nodes[k] = nullptr; }
        size_t live = 0; for (auto* nd : nodes) if (nd) live += dynamic_cast<Derived*>(nd) ? 3 : 2; if (reg.live != live) fail("%zu tracked objects are alive, expected %zu", reg.live, live);
        if (w.expired() != (mw.obj < 0 || !owners(mw.obj))) fail("weak pointer %s expired", w.expired() ? "is" : "is not"); for (char d : dead) if (d > 1) fail("deleter called twice");
    }
    void observe(Key& k) {
        check(); Quiet q; std::vector<int> names;
        auto id = [&](int obj) { if (obj < 0) return -1; for (size_t i = 0; i < names.size(); ++i) if (names[i] == obj) return int(i); names.push_back(obj); return int(names.size()) - 1; };
        auto put = [&](const M& m) { k.add(id(m.obj)); const void* p = m.ptr; int cls = !p ? 0 : p == &outside ? 1 : 2; if (cls == 2) for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i]) { if (p == &nodes[i]->a) cls = 3; if (p == &nodes[i]->b) cls = 4; } k.add(cls); };
        for (auto& m : mo) put(m); for (auto& m : mx) put(m); put(my); put(mz); if (mw.obj >= 0 && !owners(mw.obj)) k.add(-5); else put(mw); k.add(next); for (auto& m : mo) { k.add(m.obj >= 0 && nodes[size_t(m.obj)] && dynamic_cast<Derived*>(nodes[size_t(m.obj)])); }
    }
    void finish() { for (auto& p : x) p.reset(); y.reset(); z.reset(); for (auto& p : o) p.reset(); if (reg.live) fail("%zu objects outlive their owners", reg.live); w.reset(); }
};
void mc_setup() {
    add("make_shared", [] { explore_choices(owned<false>); }); add("make_unique", [] { explore_choices(owned<true>); });
    add("aliased", [] { explore_bfs<World>(Cfg{2}, BfsOpt{thorough ? 10 : 6, 1}); }); add("aliased_one_object", [] { explore_bfs<World>(Cfg{1}, BfsOpt{thorough ? 20 : 8, 2}); });
}

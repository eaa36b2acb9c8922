// B01: dynamic_bitset against std::vector<bool>
#include "tracked.hpp"
#include <itlib/dynamic_bitset.hpp>
#include <itlib/small_vector.hpp>
using namespace mc;
typedef std::vector<bool> Model;

template <class B> void same(const B& b, const Model& m, const char* what) {
    typedef typename B::word_type W; const size_t w = sizeof(W) * 8;
    if (b.size() != m.size()) fail("%s: size is %zu, expected %zu", what, b.size(), m.size());
    if (b.word_size() != (m.size() + w - 1) / w || b.buffer().size() != b.word_size()) fail("%s: %zu words for %zu bits", what, size_t(b.word_size()), m.size());
    if (b.empty() != m.empty()) fail("%s: empty is %d", what, b.empty());
    if (b.byte_size() != (m.size() + 7) / 8) fail("%s: byte_size is %zu", what, b.byte_size());
    bool any = false, all = !m.empty();
    for (size_t i = 0; i < m.size(); ++i) {
        if (b.test(i) != m[i] || b[i] != m[i]) fail("%s: bit %zu of %zu is %d, expected %d", what, i, m.size(), int(b.test(i)), int(m[i]));
        if (bool(b.data()[i / w] >> (i % w) & 1) != m[i]) fail("%s: bit %zu is not where data() should have it", what, i);
        any |= m[i]; all &= m[i];
    }
    if (b.any() != any || b.none() == any) fail("%s: any is %d, none is %d, expected any %d", what, b.any(), b.none(), any);
    if (b.all() != all) fail("%s: all is %d, expected %d", what, b.all(), all);
}
template <class B> void same_iter(B& b, const Model& m) {
    size_t n = 0; const B& cb = b;
    for (auto e : cb) { if (n >= m.size() || bool(e) != m[n]) fail("const iteration at %zu", n); ++n; }
    if (n != m.size()) fail("const iteration ended after %zu", n);
    n = 0;
    for (auto e : b) { if (n >= m.size() || bool(e) != m[n]) fail("iteration at %zu", n); ++n; }
    if (n != m.size()) fail("iteration ended after %zu", n);
    auto i = cb.end(); while (n) { --i; --n; if (*i != m[n]) fail("backward iteration at %zu", n); }
    if (i != cb.begin() || !(i == cb.begin())) fail("backward iteration did not end at begin");
    if (b.end() - b.begin() != ptrdiff_t(m.size()) || cb.begin() - cb.end() != -ptrdiff_t(m.size())) fail("iterator difference");
}
// bit i of pattern p. Patterns 2j/2j+1 are bit j of the index and its complement: together they tell any two positions apart
static bool pat(int p, size_t i, int salt) { i += size_t(salt); return bool((i >> (p >> 1)) & 1) != bool(p & 1); }
static const int NPAT = 12;
template <class B> void fill(B& b, Model& m, size_t n, int p, int salt, bool garbage) {
    typedef typename B::word_type W;
    { B t(n, garbage ? W(~W(0)) : W(0)); b = std::move(t); }
    m.assign(n, false);
    for (size_t i = 0; i < n; ++i) { m[i] = pat(p, i, salt); b.set(i, m[i]); }
}

struct Cfg { int init = 0, init2 = 0; std::vector<int> sizes; bool garbage = false; bool lite = false; bool faults = false; };
template <class B> struct World {
    typedef typename B::word_type W;
    static const int WB = int(sizeof(W) * 8);
    const Cfg& c; B a, b; Model ma, mb;
    template <class T> static B mk(size_t n, T v, int id) { return mk_(n, W(v), id, 0); }
    template <class X = B> static auto mk_(size_t n, W v, int id, int) -> decltype(X(n, v, typename X::allocator_type(id))) { return X(n, v, typename X::allocator_type(id)); }
    template <class X = B> static X mk_(size_t n, W v, int, long) { return X(n, v); }
    World(const Cfg& cfg) : c(cfg), a(mk(size_t(cfg.init), cfg.garbage ? W(~W(0)) : W(0), 1)), b(mk(size_t(cfg.init2), cfg.garbage ? W(~W(0)) : W(0), 2)) {
        ma.assign(size_t(cfg.init), cfg.garbage); mb.assign(size_t(cfg.init2), cfg.garbage);
        for (size_t i = 0; i < mb.size(); i += 2) { b.flip(i); mb[i] = !mb[i]; }
    }
    enum { SET, RESET, FLIP, SETB, IDX, REF, ITER, PUSH, RESIZE, RESERVE, APPEND, APPEND_SELF, ASSIGN, COPY_ASSIGN, MOVE_ASSIGN, MOVE_BACK, COPY_CTOR, MOVE_CTOR, COPY, COPY_SELF, SELF_ASSIGN, NEWC, FAIL = 100 };
    static std::string text(const Cfg&, const Op& o) {
        static const char* n[] = {"set", "reset", "flip", "set(i,b)", "[i]=b", "bitref op", "iterator write", "push_back", "resize", "reserve", "append(other)", "append(self)", "assign(words)", "a=b", "a=move(b)", "b=move(a);swap", "copy construct", "move construct", "copy(range)", "copy within itself", "self assignment", "construct"};
        return std::string(n[o.code % FAIL]) + " " + std::to_string(o.a) + " " + std::to_string(o.b) + " " + std::to_string(o.c) + (o.code >= FAIL ? " with allocation failure" : "");
    }
    std::vector<int> positions(size_t n) {
        std::set<int> s; for (int p : {0, 1, WB - 1, WB, WB + 1, 2 * WB - 1, 2 * WB, int(n) / 2, int(n) - 1}) if (p >= 0 && p < int(n)) s.insert(p);
        if (c.lite) { std::set<int> t; for (int p : {0, WB - 1, WB, int(n) - 1}) if (s.count(p)) t.insert(p); s = t; }
        return {s.begin(), s.end()};
    }
    void enumerate(std::vector<Op>& out) {
        for (int p : positions(ma.size())) {
            for (int code : {SET, RESET, FLIP, SETB}) out.push_back(Op{code, p, 0, 0});
            if (!c.lite) { out.push_back(Op{SETB, p, 1, 0}); out.push_back(Op{IDX, p, 0, 0}); out.push_back(Op{IDX, p, 1, 0}); for (int k = 0; k < 3; ++k) out.push_back(Op{REF, p, k, 0}); out.push_back(Op{ITER, p, 0, 0}); }
        }
        out.push_back(Op{PUSH, 0, 0, 0}); out.push_back(Op{PUSH, 1, 0, 0});
        for (int n : c.sizes) { out.push_back(Op{RESIZE, n, 0, 0}); }
        if (!c.lite) { out.push_back(Op{RESERVE, 3 * WB, 0, 0}); for (int n : {0, 1, 2}) out.push_back(Op{ASSIGN, n, 0, 0}); out.push_back(Op{NEWC, WB + 2, 0, 0}); out.push_back(Op{NEWC, 0, 0, 0}); out.push_back(Op{SELF_ASSIGN, 0, 0, 0}); }
        if (ma.size() + mb.size() <= size_t(5 * WB)) out.push_back(Op{APPEND, 0, 0, 0});
        if (ma.size() * 2 <= size_t(5 * WB)) out.push_back(Op{APPEND_SELF, 0, 0, 0});
        for (int code : {COPY_ASSIGN, MOVE_ASSIGN, MOVE_BACK, COPY_CTOR, MOVE_CTOR}) out.push_back(Op{code, 0, 0, 0});
        if (c.faults) for (int n : {0, 1, 4}) out.push_back(Op{ASSIGN, n, 0, 0});
        if (c.faults) for (size_t i = 0, n = out.size(); i < n; ++i) switch (out[i].code) {
            case PUSH: case RESIZE: case RESERVE: case APPEND: case APPEND_SELF: case ASSIGN: case COPY_ASSIGN: case COPY_CTOR: { Op f = out[i]; f.code += FAIL; out.push_back(f); }
            default: ;
        }
        auto pa = positions(ma.size() + 1), pb = positions(mb.size() + 1);
        for (int f : pa) for (int t : pa) if (f <= t) {
            for (int s : pb) if (s + (t - f) <= int(mb.size()) && (!c.lite || s != 0)) out.push_back(Op{COPY, f, t, s});
            if (!c.lite) for (int s : pa) if (s + (t - f) <= int(ma.size()) && (f <= s || s + (t - f) <= f)) out.push_back(Op{COPY_SELF, f, t, s});
        }
    }
    void apply(const Op& o) {
        if (o.code < FAIL) return run(o);
        Op f = o; f.code -= FAIL;
        Model was = ma, wasb = mb;
        alog.fail_in = 1;
        try { run(f); alog.fail_in = 0; }
        catch (const std::bad_alloc&) { alog.fail_in = 0; if (ma != was || mb != wasb) fail("harness error"); }   // nothing happened
    }
    void run(const Op& o) {
        size_t i = size_t(o.a);
        switch (o.code) {
        case SET: a.set(i); ma[i] = true; break;
        case RESET: a.reset(i); ma[i] = false; break;
        case FLIP: a.flip(i); ma[i] = !ma[i]; break;
        case SETB: a.set(i, o.b); ma[i] = o.b; break;
        case IDX: { bool r = (a[i] = bool(o.b)); if (r != bool(o.b)) fail("assignment result"); ma[i] = o.b; break; }
        case REF: { auto r = a[i]; if (o.b == 0) { r.set(); ma[i] = true; } if (o.b == 1) { r.reset(); ma[i] = false; } if (o.b == 2) { r.flip(); ma[i] = !ma[i]; } if (r.test() != ma[i] || bool(r) != ma[i]) fail("bitref reads %d", r.test()); break; }
        case ITER: { auto it = a.begin() + ptrdiff_t(i); (*it).flip(); ma[i] = !ma[i]; auto e = a.end() - ptrdiff_t(ma.size() - i); if (!(e == it) || e - a.begin() != ptrdiff_t(i)) fail("iterator arithmetic"); auto q = it++; if (!(q == e) || it - e != 1) fail("it++"); break; }
        case PUSH: a.push_back(o.a); ma.push_back(o.a); break;
        case RESIZE: a.resize(i); ma.resize(i); break;
        case RESERVE: a.reserve(i); break;
        case APPEND: a.append(b); ma.insert(ma.end(), mb.begin(), mb.end()); break;
        case APPEND_SELF: { a.append(a); Model t = ma; ma.insert(ma.end(), t.begin(), t.end()); break; }
        case ASSIGN: { typename B::buffer_type w; const int fi = alog.fail_in; alog.fail_in = 0; for (int k = 0; k < o.a; ++k) w.push_back(W(0x5A3C96E187F0A55Aull >> (k * 3))); alog.fail_in = fi; a.assign(w); ma.clear(); for (int k = 0; k < o.a; ++k) for (int j = 0; j < WB; ++j) ma.push_back(w[size_t(k)] >> j & 1); break; }
        case COPY_ASSIGN: a = b; ma = mb; break;
        case MOVE_ASSIGN: a = std::move(b); ma = mb; mb.clear(); break;
        case MOVE_BACK: b = std::move(a); mb = ma; ma.clear(); break;
        case COPY_CTOR: { B t(a); same(t, ma, "the copy"); if (t.size()) t.flip(0); break; }
        case MOVE_CTOR: { B t(std::move(a)); same(t, ma, "the moved-to bitset"); same(a, Model(), "the moved-from bitset"); a = std::move(t); break; }
        case COPY: { const B& cb = b; a.copy(a.begin() + o.a, a.begin() + o.b, cb.begin() + o.c); for (int k = 0; k < o.b - o.a; ++k) ma[size_t(o.a + k)] = mb[size_t(o.c + k)]; break; }
        case COPY_SELF: { Model t = ma; a.copy(a.begin() + o.a, a.begin() + o.b, a.begin() + o.c); for (int k = 0; k < o.b - o.a; ++k) ma[size_t(o.a + k)] = t[size_t(o.c + k)]; break; }
        case SELF_ASSIGN: { B& r = a; a = r; break; }
        case NEWC: { B t(i, W(0x2D)); ma.assign(i, false); for (size_t k = 0; k < i; ++k) ma[k] = 0x2D >> (k % size_t(WB)) & (k % size_t(WB) < 8 ? 1 : 0); a = std::move(t); break; }
        }
    }
    void observe(Key& key) {
        same(a, ma, "the bitset"); same(b, mb, "the other bitset"); same_iter(a, ma);
        // canonical: the bits and the rest of the words
        key.add(int64_t(ma.size())); for (auto w : a.buffer()) key.add(int64_t(w)); key.add(int64_t(mb.size())); for (auto w : b.buffer()) key.add(int64_t(w));
        key.add(int64_t(a.buffer().capacity()) - int64_t(a.buffer().size()) > 0);
    }
    void finish() {}
};
static std::vector<int> around(int wb, int words, bool full) {
    std::vector<int> r;
    if (full) { for (int i = 0; i <= words * wb + 2; ++i) r.push_back(i); return r; }
    for (int k = 0; k <= words; ++k) for (int d = -2; d <= 2; ++d) { int p = k * wb + d; if (p >= 0 && (r.empty() || p > r.back())) r.push_back(p); if (d == 2 && k < words) { r.push_back(k * wb + wb / 2); } }
    return r;
}
// every copy of a range between two bitsets
template <class B> static void copies(bool full) {
    const int wb = int(sizeof(typename B::word_type) * 8);
    auto ps = around(wb, full ? 3 : 2, full);
    int f = pick(ps), t = pick(ps); if (t < f) return;
    auto ss = full ? around(wb, 1, true) : around(wb, 2, false);
    int s = pick(ss), after = choose(3), slack = choose(2);      // dest bits after the range; source bits after it
    say("copy %d bits to %d from %d, %d bits after, source has %d more", t - f, f, s, after, slack);
    for (int p = 0; p < NPAT; ++p) for (int g = 0; g < 2; ++g) {
        B a, b; Model ma, mb;
        fill(a, ma, size_t(t + (after == 2 ? wb + 1 : after)), p, 1, g); fill(b, mb, size_t(s + t - f + (slack ? wb : 0)), p, 5, !g);
        for (int q = 0; q < 2; ++q) {          // also with the destination complemented
            const B& cb = b;
            a.copy(a.begin() + f, a.begin() + t, cb.begin() + s);
            for (int k = 0; k < t - f; ++k) ma[size_t(f + k)] = mb[size_t(s + k)];
            same(a, ma, "the destination"); same(b, mb, "the source");
            for (size_t i = 0; i < ma.size(); ++i) { a.flip(i); ma[i] = !ma[i]; }
        }
    }
}
// copies inside one bitset towards the front (or disjoint)
template <class B> static void moves(bool full) {
    const int wb = int(sizeof(typename B::word_type) * 8);
    auto ps = around(wb, 2, full);
    int f = pick(ps), t = pick(ps); if (t < f) return;
    int s = pick(ps), after = choose(2); int n = std::max(t, s + t - f) + after;
    if (f > s && s + (t - f) > f) return;
    for (int p = 0; p < NPAT; ++p) {
        B a; Model ma; fill(a, ma, size_t(n), p, 1, p & 2); Model old = ma;
        const B& ca = a;
        a.copy(a.begin() + f, a.begin() + t, ca.begin() + s);
        for (int k = 0; k < t - f; ++k) ma[size_t(f + k)] = old[size_t(s + k)];
        same(a, ma, "the bitset");
    }
}
// every append, then every resize
template <class B> static void appends(bool full) {
    const int wb = int(sizeof(typename B::word_type) * 8);
    auto ps = around(wb, 2, full);
    int n = pick(ps), m = pick(ps), how = choose(3), g = choose(4); auto rs = around(wb, 2, false); int r = pick(rs);
    say("%d bits appended to %d, variant %d, garbage %d, then resized to %d", m, n, how, g, r);
    for (int p = 0; p < NPAT; ++p) {
        B a, b; Model ma, mb;
        fill(a, ma, size_t(n), p, 1, g & 1); fill(b, mb, size_t(m), p, 3, g & 2);
        if (how == 1) a.reserve(size_t(n + m + wb));
        if (how == 2) { a.append(a); ma.insert(ma.end(), ma.begin(), ma.begin() + n); same(a, ma, "after append(self)"); }
        a.append(b); ma.insert(ma.end(), mb.begin(), mb.end());
        same(a, ma, "after append"); same(b, mb, "appended bitset");
        a.resize(size_t(r)); ma.resize(size_t(r)); same(a, ma, "after resize");
        a.resize(size_t(r + wb + 1)); ma.resize(size_t(r + wb + 1)); same(a, ma, "after growing");
        a.push_back(true); ma.push_back(true); same(a, ma, "after push_back");
    }
}
// queries: every size, all zero / all one / one bit different, with and without garbage past the end
template <class B> static void queries(bool full) {
    const int wb = int(sizeof(typename B::word_type) * 8); typedef typename B::word_type W;
    auto ps = around(wb, 3, full);
    int n = pick(ps), base = choose(2), odd = choose(n + 1) - 1, garbage = choose(2);
    B a(size_t(n), W(base ? ~W(0) : W(0))); Model m(size_t(n), base);
    if (odd >= 0) { a.flip(size_t(odd)); m[size_t(odd)] = !base; }
    if (n % wb) for (int k = n % wb; k < wb; ++k) { if (garbage) a.data()[n / wb] |= W(W(1) << k); else a.data()[n / wb] &= W(~(W(1) << k)); }
    same(a, m, "the bitset"); same_iter(a, m);
    B b(a); same(b, m, "the copy");
    if (n) { b.resize(size_t(n - 1)); m.pop_back(); same(b, m, "after resize"); b.resize(size_t(n)); m.push_back(false); same(b, m, "after growing again"); }
}
static void statics() {
    typedef itlib::dynamic_bitset<std::vector<uint8_t>> B8; typedef itlib::dynamic_bitset<std::vector<uint16_t>> B16; typedef itlib::dynamic_bitset<std::vector<uint32_t>> B32; typedef itlib::dynamic_bitset<std::vector<uint64_t>> B64;
    size_t i = size_t(choose(700));
#define ST(B, w) if (B::word_size(i) != (i + w - 1) / w || B::word_index(i) != i / w || B::bit_index(i) != i % w || uint64_t(B::word_mask(i)) != uint64_t(1) << (i % w)) fail("static helper for %d bit words at %zu", w, i);
    ST(B8, 8) ST(B16, 16) ST(B32, 32) ST(B64, 64)
}
template <class W> using A = TrackAlloc<W>;
template <class B> static void all(const std::string& n, int t) {
    const int wb = int(sizeof(typename B::word_type) * 8);
    bool full = wb == 8;
    add(n + "_copies", [=] { explore_choices([=] { copies<B>(full || (thorough && wb == 16)); }); }, t);
    add(n + "_moves", [=] { explore_choices([=] { moves<B>(full); }); }, t);
    add(n + "_appends", [=] { explore_choices([=] { appends<B>(full || (thorough && wb == 16)); }); }, t);
    add(n + "_queries", [=] { explore_choices([=] { queries<B>(full || thorough); }); }, t);
}
template <class W> static void hist(const std::string& name, Cfg c, int depth, int tdepth) { add(name, [=] { static Cfg k; k = c; explore_bfs<W>(k, BfsOpt{thorough ? tdepth : depth, 1}); }); }
void mc_setup() {
    typedef itlib::dynamic_bitset<std::vector<uint8_t>> B8; typedef itlib::dynamic_bitset<std::vector<uint16_t>> B16; typedef itlib::dynamic_bitset<> B32; typedef itlib::dynamic_bitset<std::vector<uint64_t>> B64;
    typedef itlib::dynamic_bitset<std::vector<uint8_t, TrackAlloc<uint8_t>>> T8; typedef itlib::dynamic_bitset<itlib::small_vector<uint8_t, 2, 0, std::allocator<uint8_t>>> S8;
    all<B8>("w8", 0); all<B16>("w16", 0); all<B32>("w32", 0); all<B64>("w64", 0); all<S8>("small_vector", 1);
    add("statics", [] { explore_choices(statics); });
    Cfg c; c.init = 9; c.init2 = 13; c.sizes = {0, 1, 7, 8, 9, 15, 16, 17}; c.garbage = true;
    hist<World<B8>>("hist_w8", c, 2, 3);
    Cfg l = c; l.lite = true; l.sizes = {0, 7, 8, 9, 16}; l.init = 7; l.init2 = 9;
    hist<World<B8>>("hist_w8_deep", l, 4, 5);
    Cfg z = l; z.faults = true; z.sizes = {0, 8, 9, 40};
    hist<World<T8>>("hist_alloc", z, 3, 5);
    hist<World<S8>>("hist_small", l, 3, 4);
    Cfg d = l; d.sizes = {0, 63, 64, 65}; d.init = 63; d.init2 = 66;
    hist<World<B64>>("hist_w64", d, 3, 4);
    Cfg e = l; e.sizes = {0, 31, 32, 33}; e.init = 31; e.init2 = 34;
    hist<World<B32>>("hist_w32", e, 3, 4);
    Cfg f = l; f.sizes = {0, 15, 16, 17}; f.init = 0; f.init2 = 17; f.garbage = false;
    hist<World<B16>>("hist_w16", f, 3, 4);
}

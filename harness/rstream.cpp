// S03: rstream reads what the stream would give; a redirect restores the position
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include "tracked.hpp"
#include <itlib/rstream.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/rstream.hpp>
#include <sstream>
using namespace mc;
typedef std::streamoff off_t_;
struct Cfg { std::string data; int nest; bool mem, exc; };
template <class Stream> struct World {
    typedef typename Stream::char_type Ch; typedef std::basic_string<Ch> Str; typedef itlib::basic_rstream<Stream> R; typedef itlib::basic_redirect_rstream<Stream> Redirect;
    const Cfg& c; Str s; std::basic_stringbuf<Ch> b, rb; itlib::mem_istreambuf<Ch> mb; std::basic_iostream<Ch> io, rio; Stream &in, &rin;   // rin is read without the wrappers
    struct L { std::unique_ptr<R> r; off_t_ saved; bool redirect; }; std::vector<L> st;
    World(const Cfg& cfg) : c(cfg), s(cfg.data.begin(), cfg.data.end()), b(s), rb(s), mb(s.data(), s.size()), io(cfg.mem ? static_cast<std::basic_streambuf<Ch>*>(&mb) : &b), rio(&rb), in(io), rin(rio) { if (c.exc) { in.exceptions(std::ios_base::failbit | std::ios_base::badbit); rin.exceptions(std::ios_base::failbit | std::ios_base::badbit); } }
    enum { READ, RSHIFT, RSHIFTI, PUSH, PUSHPLAIN, POP, GET, PEEK, SEEK, CLEAR, SHADOW };
    static std::string text(const Cfg&, const Op& o) { static const char* n[] = {"read", ">> char", ">> int", "redirect to", "wrap", "destroy the innermost", "stream.get", "stream.peek", "stream.seekg", "stream.clear", "redirect and destroy on the stack"}; return std::string(n[o.code]) + " " + std::to_string(o.a) + " on " + std::to_string(o.b); }
    void enumerate(std::vector<Op>& o) {
        int n = int(s.size());
        for (int i = 0; i < int(st.size()); ++i) { for (int k : {0, 1, 2, n, n + 1}) o.push_back(Op{READ, k, i, 0}); o.push_back(Op{RSHIFT, 0, i, 0}); o.push_back(Op{RSHIFTI, 0, i, 0}); }
        if (int(st.size()) < c.nest) { for (int p = -1; p <= n + 1; ++p) o.push_back(Op{PUSH, p, 0, 0}); o.push_back(Op{PUSHPLAIN, 0, 0, 0}); }
        if (!st.empty()) o.push_back(Op{POP, 0, 0, 0});
        o.push_back(Op{GET, 0, 0, 0}); o.push_back(Op{PEEK, 0, 0, 0}); o.push_back(Op{CLEAR, 0, 0, 0}); for (int p : {0, 1, n, n + 1}) o.push_back(Op{SEEK, p, 0, 0}); for (int p : {0, n}) o.push_back(Op{SHADOW, p, 0, 0});
    }
    // the same thing through the wrapper and on the plain stream
    template <class F, class G> void both(const char* what, F f, G g) { bool ta = false, tb = false; Str a, r; try { a = f(); } catch (std::ios_base::failure&) { ta = true; } try { r = g(); } catch (std::ios_base::failure&) { tb = true; } if (ta != tb) fail("%s: exception %d, expected %d", what, ta, tb); if (a != r) fail("%s: got other characters than from the stream", what); }
    off_t_ where() { return off_t_(in.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in)); }
    off_t_ rwhere() { return off_t_(rin.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in)); }
    void push(int p) { L l{nullptr, -1, true}; bool tp = false, tq = false;
        try { l.r.reset(new Redirect(in, p)); } catch (std::ios_base::failure&) { tp = true; }
        off_t_ saved = -1; try { saved = off_t_(rin.tellg()); rin.seekg(p); } catch (std::ios_base::failure&) { tq = true; }
        if (tp != tq) fail("redirect: exception %d, expected %d", tp, tq); if (tp) return; l.saved = saved; st.push_back(std::move(l)); }
    void pop() {
        L l = std::move(st.back()); st.pop_back(); bool good = in.good(); l.r.reset();
        if (l.redirect) { if (l.saved >= 0) { rin.rdbuf()->pubseekpos(l.saved, std::ios_base::in); if (!rin.fail()) rin.clear(); } if (good && l.saved >= 0 && !in.good()) fail("restoring the position made the stream fail"); sync(); }
    }
    void sync() { if (in.rdstate() != rin.rdstate()) { auto e = rin.exceptions(); rin.exceptions(std::ios_base::goodbit); rin.clear(in.rdstate()); try { rin.exceptions(e); } catch (std::ios_base::failure&) {} } }
    void apply(const Op& o) {
        auto* r = o.b < int(st.size()) ? st[size_t(o.b)].r.get() : nullptr;
        switch (o.code) {
        case READ: both("read", [&] { Str t(size_t(o.a), Ch('#')); if (&r->read(&t[0], o.a) != r) fail("read does not return the wrapper"); return t; }, [&] { Str t(size_t(o.a), Ch('#')); rin.read(&t[0], o.a); return t; }); if (in.gcount() != rin.gcount()) fail("gcount differs"); break;
        case RSHIFT: both(">>", [&] { Ch ch = Ch('#'); if (&(*r >> ch) != r) fail(">> does not return the wrapper"); return Str(1, ch); }, [&] { Ch ch = Ch('#'); rin >> ch; return Str(1, ch); }); break;
        case RSHIFTI: both(">>", [&] { int v = 7; *r >> v; return Str(1, Ch(v)); }, [&] { int v = 7; rin >> v; return Str(1, Ch(v)); }); break;
        case PUSH: push(o.a); break;
        case PUSHPLAIN: st.push_back(L{std::unique_ptr<R>(new R(in)), -1, false}); break;
        case POP: pop(); break;
        case SHADOW: { size_t d = st.size(); off_t_ at = where(); bool fine = !in.fail() && !in.eof(); { try { Redirect x(in, o.a); Ch t[3] = {}; x.read(t, 2); } catch (std::ios_base::failure&) {} try { if (fine) { rin.tellg(); rin.seekg(o.a); Ch t[3]; rin.read(t, 2); } } catch (std::ios_base::failure&) {} }
            if (fine) { if (where() != at) fail("the position is %lld after a redirect, it was %lld", (long long)where(), (long long)at); rin.rdbuf()->pubseekpos(at, std::ios_base::in); } sync(); if (d != st.size()) fail("?"); break; }
        case GET: both("get", [&] { return Str(1, Ch(in.get())); }, [&] { return Str(1, Ch(rin.get())); }); break;
        case PEEK: both("peek", [&] { return Str(1, Ch(in.peek())); }, [&] { return Str(1, Ch(rin.peek())); }); break;
        case SEEK: both("seekg", [&] { in.seekg(o.a); return Str(); }, [&] { rin.seekg(o.a); return Str(); }); break;
        case CLEAR: in.clear(); rin.clear(); break;
        }
    }
    void observe(Key& key) {
        if (where() != rwhere()) fail("the stream is at %lld, expected %lld", (long long)where(), (long long)rwhere()); if (in.rdstate() != rin.rdstate()) fail("the state of the stream is %d, expected %d", int(in.rdstate()), int(rin.rdstate()));
        key.add(rwhere()); key.add(int(in.rdstate())); for (auto& l : st) { auto& r = *l.r; key.add(l.redirect ? l.saved : -5); if (r.fail() != rin.fail() || bool(r) == rin.fail() || r.good() != rin.good() || r.eof() != rin.eof()) fail("fail/good/eof/bool of the wrapper differ from the stream"); }
    }
    void finish() { while (!st.empty()) { pop(); Key k; observe(k); } }
};
template <class, class = void> struct can_seek : std::false_type {}; template <class T> struct can_seek<T, decltype(void(std::declval<T&>().seekg(0)))> : std::true_type {};
template <class, class = void> struct can_tell : std::false_type {}; template <class T> struct can_tell<T, decltype(void(std::declval<T&>().tellg()))> : std::true_type {};
static_assert(!can_seek<itlib::rstream>::value && !can_seek<itlib::redirect_rstream>::value && can_seek<std::istream>::value && std::has_virtual_destructor<itlib::rstream>::value && !std::is_convertible<itlib::rstream, bool>::value && std::is_convertible<itlib::redirect_rstream&, itlib::rstream&>::value, "");
template <class S> static void hist(const char* name, Cfg c, int depth, int tdepth) { add(name, [=] { static Cfg k; k = c; explore_bfs<World<S>>(k, BfsOpt{thorough ? tdepth : depth, thorough ? 3 : 2}); }); }
void mc_setup() {
    for (auto d : {std::string(), std::string("a"), std::string("1 2"), std::string("12\n3")}) { static std::vector<std::string> names; names.reserve(64); auto nm = [&](const char* p) { names.push_back(p + std::to_string(d.size())); return names.back().c_str(); };
        hist<std::istream>(nm("string"), Cfg{d, 3, false, false}, 8, 40); hist<std::istream>(nm("mem"), Cfg{d, 2, true, false}, 8, 40); hist<std::istream>(nm("throwing"), Cfg{d, 2, false, true}, 7, 40); hist<std::iostream>(nm("iostream"), Cfg{d, 2, false, false}, 7, 40); hist<std::wistream>(nm("wide"), Cfg{d, 2, false, false}, 7, 40); }
}

// S01: mem_ostreambuf stores exactly the written bytes; S02: mem_istreambuf reads exactly the given bytes
#include "tracked.hpp"
#include <itlib/mem_streambuf.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/mem_streambuf.hpp>
#include <ostream>
#include <istream>
#include <sstream>
#include <iterator>
using namespace mc;
typedef std::streamoff off_t_;
#if PROP == 1
struct Cfg { std::vector<int> blocks; int reserve, cap; bool faults; };   // cap: most the container can hold, 0: no limit
template <class C> struct World {
    typedef typename C::value_type Ch; typedef std::basic_string<Ch> Str; typedef itlib::mem_ostreambuf<C> Buf; typedef std::basic_ostream<Ch> Out;
    const Cfg& c; Buf buf; Out out; Str m; size_t pos = 0; size_t known = 0; int next = 0; bool bad = false;   // m: everything written, pos: where the next byte goes
    World(const Cfg& cfg) : c(cfg), buf(size_t(cfg.reserve)), out(&buf) { throw_in = 0; }
    enum { PUTC, PUT, WRITE, SPUTN, FORMAT, SEEKP, SEEKOFF, RAWSEEK, BADSEEK, CLEAR, GET, FLUSH, FAIL, ITER };
    static std::string text(const Cfg& c, const Op& o) { static const char* n[] = {"sputc", "put", "write", "sputn", "<<", "seekp", "seekp", "pubseek", "seek out of range", "clear", "get_container", "flush", "write with a failing allocation", "ostreambuf_iterator"}; static const char* w[] = {"beg", "cur", "end"}; std::string r = std::string(n[o.code]) + "(" + std::to_string(o.a); if (o.code == SEEKOFF || o.code == RAWSEEK || o.code == BADSEEK) r += std::string(", ") + (o.b < 3 ? w[o.b] : "pos"); return r + ")"; }
    static constexpr auto way(int w) { return w == 0 ? std::ios_base::beg : w == 1 ? std::ios_base::cur : std::ios_base::end; }
    void enumerate(std::vector<Op>& o) {
        for (int code : {PUTC, PUT}) for (int v : {0, 1}) o.push_back(Op{code, v, 0, 0});
        for (int n : c.blocks) { o.push_back(Op{WRITE, n, 0, 0}); o.push_back(Op{SPUTN, n, 0, 0}); if (c.faults) o.push_back(Op{FAIL, n, 0, 0}); }
        o.push_back(Op{FORMAT, 0, 0, 0}); o.push_back(Op{ITER, 0, 0, 0});
        int e = int(m.size()), p = int(pos); std::vector<int> t{0, 1, e / 2, e - 1, e}; std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
        for (int x : t) if (x >= 0 && x <= e) { o.push_back(Op{SEEKP, x, 0, 0}); for (int w = 0; w < 3; ++w) o.push_back(Op{SEEKOFF, w == 0 ? x : w == 1 ? x - p : x - e, w, 0}); }
        o.push_back(Op{RAWSEEK, 0, 0, 0}); o.push_back(Op{RAWSEEK, 0, 2, 0}); o.push_back(Op{RAWSEEK, e, 3, 0});
        for (int w = 0; w < 4; ++w) for (int k = 0; k < 4; ++k) o.push_back(Op{BADSEEK, k, w, 0});
        for (int code : {CLEAR, GET, FLUSH}) o.push_back(Op{code, 0, 0, 0});
    }
    Ch fresh() { ++next; return Ch(next % 7 == 0 ? 0 : next % 5 == 0 ? -next : next); }
    void store(const Str& s, size_t n) { for (size_t i = 0; i < n; ++i) { if (pos < m.size()) m[pos] = s[i]; else m.push_back(s[i]); ++pos; } }
    bool fits(size_t n) { return !c.cap || pos + n <= size_t(c.cap); }
    // where did the put position go after a write which failed?
    void partial(const Str& s) { size_t n = buf.poff(); if (n < pos || n - pos > s.size()) fail("the put position after a failed write is %zu", n); n -= pos; if (c.cap && pos + n > size_t(c.cap)) fail("more accepted than fits"); if (n == s.size()) fail("everything was accepted but failure reported"); store(s, n); }
    void apply(const Op& o) {
        typedef typename Buf::traits_type Tr;
        switch (o.code) {
        case PUTC: case PUT: { Ch ch = o.a ? sizeof(Ch) == 1 ? Ch(-1) : Ch(0x10ffff) : fresh(); Str s(1, ch); bool ok = true; if (o.code == PUT) { out.put(ch); ok = bool(out); out.clear(); } else try { auto r = buf.sputc(ch); ok = !Tr::eq_int_type(r, Tr::eof()); if (ok && !Tr::eq_int_type(r, Tr::to_int_type(ch))) fail("sputc returned another character"); } catch (std::exception&) { ok = false; }
            if (ok != fits(1)) fail("put of one character: %s", ok ? "succeeded" : "failed"); if (ok) store(s, 1); else partial(s); break; }
        case WRITE: case SPUTN: { Str s; for (int i = 0; i < o.a; ++i) s.push_back(fresh()); bool ok = true; if (o.code == WRITE) { out.write(s.data(), std::streamsize(s.size())); ok = bool(out); out.clear(); } else try { ok = buf.sputn(s.data(), std::streamsize(s.size())) == std::streamsize(s.size()); } catch (std::exception&) { ok = false; }
            if (ok != fits(s.size())) fail("write of %d: %s", o.a, ok ? "succeeded" : "failed"); if (ok) store(s, s.size()); else partial(s); break; }
        case FAIL: { Str s; for (int i = 0; i < o.a; ++i) s.push_back(fresh()); alog.fail_in = 1; bool ok = true; { out.write(s.data(), std::streamsize(s.size())); ok = bool(out); out.clear(); } alog.fail_in = 0; if (ok) store(s, s.size()); else partial(s); break; }
        case FORMAT: { Str s{Ch('x'), Ch('1'), Ch('2')}; out << Ch('x') << 12; bool ok = bool(out); out.clear(); if (ok != fits(3)) fail("<< %s", ok ? "succeeded" : "failed"); if (ok) store(s, 3); else partial(s); break; }
        case ITER: { Str s{fresh(), fresh()}; bool ok = true; try { std::ostreambuf_iterator<Ch> it(&buf); for (auto ch : s) *it++ = ch; ok = !it.failed(); } catch (std::exception&) { ok = false; } if (ok != fits(2)) fail("iterator %s", ok ? "succeeded" : "failed"); if (ok) store(s, 2); else partial(s); break; }
        case SEEKP: out.seekp(o.a); if (!out) fail("seekp(%d) failed", o.a); pos = size_t(o.a); break;
        case SEEKOFF: { out.seekp(o.a, way(o.b)); if (!out) fail("seekp(%d) relative failed", o.a); pos = size_t(o.b == 0 ? o.a : o.b == 1 ? int(pos) + o.a : int(m.size()) + o.a); break; }
        case RAWSEEK: { auto r = o.b == 3 ? buf.pubseekpos(o.a, std::ios_base::out) : buf.pubseekoff(0, way(o.b), std::ios_base::out); pos = o.b == 0 ? 0 : m.size(); if (off_t_(r) != off_t_(pos)) fail("the seek reports the position %lld", (long long)off_t_(r)); break; }
        case BADSEEK: { off_t_ base = o.b == 0 || o.b == 3 ? 0 : o.b == 1 ? off_t_(pos) : off_t_(m.size()); off_t_ far = off_t_(buf.peek_container().size()) + 1;
            off_t_ to = o.a == 0 ? -1 - base : o.a == 1 ? far - base : o.a == 2 ? INT64_MAX - (base ? base : 0) : INT64_MIN + 1; auto r = o.b == 3 ? buf.pubseekpos(to, std::ios_base::out) : buf.pubseekoff(to, way(o.b), std::ios_base::out);
            if (off_t_(r) != -1) fail("a seek to %lld beyond the data gave %lld", (long long)to, (long long)off_t_(r)); if (o.b == 3) out.seekp(to); else out.seekp(to, way(o.b)); if (!out.fail()) fail("the stream does not report the failed seek"); out.clear(); break; }
        case CLEAR: buf.clear(); m.clear(); pos = 0; if (buf.peek_container().size()) fail("the container is not empty after clear"); break;
        case GET: { auto r = buf.get_container(); if (r.size() != m.size() || !std::equal(m.begin(), m.end(), r.data())) fail("get_container gave %zu elements, expected %zu, or other ones", r.size(), m.size()); if (buf.poff() || buf.peek_container().size()) fail("the buffer is not empty after its container was taken"); m.clear(); pos = 0; break; }
        case FLUSH: out << std::flush; if (!out) fail("flush failed"); break;
        }
    }
    void observe(Key& key) {
        if (buf.poff() != pos) fail("poff() is %zu, expected %zu", buf.poff(), pos);
        auto& p = buf.peek_container(); if (p.size() < m.size()) fail("the container holds %zu elements, %zu were written", p.size(), m.size());
        for (size_t i = 0; i < m.size(); ++i) if (p.data()[i] != m[i]) fail("element %zu of the container is wrong", i);
        if (off_t_(out.tellp()) != off_t_(pos)) fail("tellp() is %lld, expected %zu", (long long)off_t_(out.tellp()), pos);
        if (c.cap && p.capacity() > size_t(c.cap)) fail("harness: capacity");
        key.add(int64_t(pos)); key.add(int64_t(m.size())); key.add(int64_t(p.size())); key.add(int64_t(p.capacity()));
    }
    void finish() { auto r = buf.get_container(); if (r.size() != m.size() || !std::equal(m.begin(), m.end(), r.data())) fail("get_container gave %zu elements, expected %zu, or other ones", r.size(), m.size());
        out << Ch('q'); if (!out) fail("the buffer cannot be used after its container was taken"); auto q = buf.get_container(); if (q.size() != 1 || q.data()[0] != Ch('q')) fail("reuse after get_container"); }
};
template <class C> static void hist(const char* name, Cfg c, int depth, int tdepth) { add(name, [=] { static Cfg k; k = c; explore_bfs<World<C>>(k, BfsOpt{thorough ? tdepth : depth, thorough ? 3 : 2}); }); }
void mc_setup() {
    hist<std::vector<char>>("vector", Cfg{{0, 1, 2, 3, 9}, 0, 0, false}, 7, 10);
    hist<std::vector<char>>("vector_big", Cfg{{1, 127, 128, 255, 256, 300, 32767, 32768, 65536, 70000}, 0, 0, false}, 2, 3);
    hist<std::string>("string_big", Cfg{{1, 128, 256, 40000}, 0, 0, false}, 2, 3);
    hist<std::vector<char, TrackAlloc<char>>>("vector_fail", Cfg{{1, 2, 5}, 2, 0, true}, 7, 9);
    hist<std::string>("string", Cfg{{0, 1, 7, 14, 15, 16, 31}, 0, 0, false}, 6, 9);
    hist<std::string>("string_reserve", Cfg{{1, 16, 40}, 20, 0, false}, 6, 9);
    hist<std::wstring>("wstring", Cfg{{1, 3, 5}, 1, 0, false}, 6, 9);
    hist<std::vector<wchar_t>>("vector_wchar", Cfg{{1, 3}, 0, 0, false}, 6, 9);
    hist<std::vector<char16_t>>("dummy", Cfg{{1}, 0, 0, false}, 0, 0);
    hist<itlib::small_vector<char, 4>>("small_vector", Cfg{{0, 1, 3, 4, 5, 9}, 0, 0, false}, 6, 9);
    hist<itlib::small_vector<char, 4>>("small_vector_reserve", Cfg{{1, 4, 5}, 3, 0, false}, 6, 9);
    hist<itlib::static_vector<char, 8>>("static_vector", Cfg{{0, 1, 3, 7, 8, 9}, 0, 8, false}, 7, 9);
    hist<itlib::static_vector<char, 3>>("static_vector_3", Cfg{{1, 2, 3, 4}, 3, 3, false}, 7, 10);
}
#else
// in lockstep with std::basic_stringbuf
struct Cfg { std::vector<std::string> data; bool formatted; };
template <class Ch> struct World {
    typedef std::basic_string<Ch> Str; typedef itlib::mem_istreambuf<Ch> Buf; typedef std::basic_istream<Ch> In; typedef std::basic_stringbuf<Ch> Ref;
    struct Data { Ch* p; Str s; Data(const std::string& x) { for (char ch : x) s.push_back(sizeof(Ch) == 1 ? Ch(ch) : Ch(static_cast<unsigned char>(ch))); p = new Ch[s.size()]; std::copy(s.begin(), s.end(), p); } Data(Data&& o) : p(o.p), s(std::move(o.s)) { o.p = nullptr; } ~Data() { delete[] p; } };
    const Cfg& c; std::vector<Data> d; int cur = -1; Buf buf; In in; Ref ref; In rin;
    World(const Cfg& cfg) : c(cfg), in(&buf), ref(std::ios_base::in), rin(&ref) { d.reserve(cfg.data.size()); for (auto& s : cfg.data) d.emplace_back(s); }
    enum { RESET, SGETC, SBUMPC, SNEXTC, SUNGETC, SPUTBACKC, SGETN, SEEKOFF, SEEKPOS, GET, PEEK, READ, UNGET, PUTBACK, IGNORE, GETLINE, SEEKG, SEEKGOFF, STDGETLINE, EXTRACT, SKIPTO, ITER, CLEARSTATE, RDSTREAM, CTOR };
    static std::string text(const Cfg&, const Op& o) { static const char* n[] = {"reset", "sgetc", "sbumpc", "snextc", "sungetc", "sputbackc", "sgetn", "pubseekoff", "pubseekpos", "get", "peek", "read", "unget", "putback", "ignore", "getline", "seekg", "seekg", "std::getline", ">> char", "ignore until", "istreambuf_iterator", "clear", ">> streambuf", "construct"}; static const char* w[] = {"", "beg", "cur", "end"}; return std::string(n[o.code]) + "(" + std::to_string(o.a) + (o.b ? std::string(", ") + w[o.b] : "") + ")"; }
    static auto way(int w) { return w == 1 ? std::ios_base::beg : w == 2 ? std::ios_base::cur : std::ios_base::end; }
    void enumerate(std::vector<Op>& o) {
        for (int i = 0; i < int(c.data.size()); ++i) { o.push_back(Op{RESET, i, 0, 0}); if (cur < 0) o.push_back(Op{CTOR, i, 0, 0}); }
        if (cur < 0) { return; }
        for (int code : {SGETC, SBUMPC, SNEXTC, SUNGETC, GET, PEEK, UNGET, GETLINE, STDGETLINE, EXTRACT, ITER, CLEARSTATE, RDSTREAM}) { if (!c.formatted && code >= GETLINE && code != CLEARSTATE) continue; o.push_back(Op{code, 0, 0, 0}); }
        int n = int(d[size_t(cur)].s.size());
        o.push_back(Op{SPUTBACKC, 0, 0, 0}); o.push_back(Op{SPUTBACKC, 1, 0, 0}); if (c.formatted) { o.push_back(Op{PUTBACK, 0, 0, 0}); o.push_back(Op{PUTBACK, 1, 0, 0}); o.push_back(Op{SKIPTO, 0, 0, 0}); }
        for (int k : {0, 1, 2, n, n + 1}) { o.push_back(Op{SGETN, k, 0, 0}); o.push_back(Op{READ, k, 0, 0}); if (k) o.push_back(Op{IGNORE, k, 0, 0}); }
        for (int w = 1; w < 4; ++w) for (int k = -n - 1; k <= n + 1; ++k) { o.push_back(Op{SEEKOFF, k, w, 0}); if (c.formatted) o.push_back(Op{SEEKGOFF, k, w, 0}); }
        for (int w = 1; w < 4; ++w) for (int k : {-1000, 1000}) o.push_back(Op{SEEKOFF, k, w, 1});    // scaled to the extremes
        for (int k = -1; k <= n + 1; ++k) { o.push_back(Op{SEEKPOS, k, 0, 0}); if (c.formatted) o.push_back(Op{SEEKG, k, 0, 0}); }
    }
    template <class F> void both(const char* what, F f) { auto a = f(buf, in); auto b = f(ref, rin); if (!(a == b)) fail("%s: gave something else than the same operation on std::stringbuf", what); }
    void apply(const Op& o) {
        typedef std::char_traits<Ch> Tr; Ch prev = 0; if (cur >= 0) { size_t g = buf.goff(); auto& s = d[size_t(cur)].s; if (g && g <= s.size()) prev = s[g - 1]; if (o.a) prev = Ch(prev + 1); }
        switch (o.code) {
        case RESET: cur = o.a; buf.reset(d[size_t(cur)].p, d[size_t(cur)].s.size()); ref.str(d[size_t(cur)].s); break;
        case CTOR: { cur = o.a; Buf t(d[size_t(cur)].p, d[size_t(cur)].s.size()); In u(&t); Str s; Ch ch; while (u.get(ch)) s.push_back(ch); if (s != d[size_t(cur)].s || t.size() != s.size() || t.goff() != s.size()) fail("reading everything gave other data"); buf.reset(d[size_t(cur)].p, d[size_t(cur)].s.size()); ref.str(d[size_t(cur)].s); break; }
        case SGETC: both("sgetc", [](auto& b, In&) { return b.sgetc(); }); break;
        case SBUMPC: both("sbumpc", [](auto& b, In&) { return b.sbumpc(); }); break;
        case SNEXTC: both("snextc", [](auto& b, In&) { return b.snextc(); }); break;
        case SUNGETC: both("sungetc", [](auto& b, In&) { return Tr::eq_int_type(b.sungetc(), Tr::eof()); }); break;
        case SPUTBACKC: both("sputbackc", [&](auto& b, In&) { return b.sputbackc(prev); }); break;
        case SGETN: both("sgetn", [&](auto& b, In&) { std::vector<Ch> v(size_t(o.a), Ch('#')); auto n = b.sgetn(v.data(), o.a); v.push_back(Ch(n)); return v; }); break;
        case READ: both("read", [&](auto&, In& s) { std::vector<Ch> v(size_t(o.a), Ch('#')); s.read(v.data(), o.a); v.push_back(Ch(s.gcount())); v.push_back(Ch(s.rdstate())); return v; }); break;
        case IGNORE: both("ignore", [&](auto&, In& s) { s.ignore(o.a); return std::make_pair(s.gcount(), s.rdstate()); }); break;
        case SKIPTO: both("ignore until", [&](auto&, In& s) { s.ignore(std::numeric_limits<std::streamsize>::max(), Tr::to_int_type(Ch('\n'))); return std::make_pair(s.gcount(), s.rdstate()); }); break;
        case SEEKOFF: { off_t_ k = o.c ? (o.a < 0 ? INT64_MIN + 1 : INT64_MAX - (o.b == 2 ? off_t_(buf.goff()) : o.b == 3 ? off_t_(buf.size()) : 0)) : o.a; both("pubseekoff", [&](auto& b, In&) { return off_t_(b.pubseekoff(k, way(o.b), std::ios_base::in)); }); break; }
        case SEEKPOS: both("pubseekpos", [&](auto& b, In&) { return off_t_(b.pubseekpos(o.a, std::ios_base::in)); }); break;
        case GET: both("get", [](auto&, In& s) { auto r = s.get(); return std::make_pair(r, s.rdstate()); }); break;
        case PEEK: both("peek", [](auto&, In& s) { auto r = s.peek(); return std::make_pair(r, s.rdstate()); }); break;
        case UNGET: both("unget", [](auto&, In& s) { s.unget(); return s.rdstate(); }); break;
        case PUTBACK: both("putback", [&](auto&, In& s) { s.putback(prev); return s.rdstate(); }); break;
        case GETLINE: both("getline", [](auto&, In& s) { std::vector<Ch> v(3, Ch('#')); s.getline(v.data(), 3); v.push_back(Ch(s.gcount())); v.push_back(Ch(s.rdstate())); return v; }); break;
        case STDGETLINE: both("std::getline", [](auto&, In& s) { Str v(2, Ch('#')); std::getline(s, v); return std::make_pair(v, s.rdstate()); }); break;
        case EXTRACT: both(">>", [](auto&, In& s) { Ch v = Ch('#'); s >> v; return std::make_pair(v, s.rdstate()); }); break;
        case ITER: both("iterator", [](auto& b, In&) { std::istreambuf_iterator<Ch> i(&b), e; return Str(i, e); }); break;
        case CLEARSTATE: in.clear(); rin.clear(); break;
        case RDSTREAM: both(">> streambuf", [](auto&, In& s) { std::basic_stringbuf<Ch> t(std::ios_base::out); s >> &t; return std::make_pair(t.str(), s.rdstate()); }); break;
        case SEEKG: both("seekg", [&](auto&, In& s) { s.seekg(o.a); return std::make_pair(off_t_(s.tellg()), s.rdstate()); }); break;
        case SEEKGOFF: both("seekg", [&](auto&, In& s) { s.seekg(o.a, way(o.b)); return std::make_pair(off_t_(s.tellg()), s.rdstate()); }); break;
        }
    }
    void observe(Key& key) {
        key.add(cur); key.add(int(in.rdstate())); if (cur < 0) { if (buf.size() || buf.goff()) fail("an empty buffer has a size"); return; }
        auto& s = d[size_t(cur)].s; off_t_ want = off_t_(ref.pubseekoff(0, std::ios_base::cur, std::ios_base::in)); if (s.empty()) want = 0;
        if (buf.size() != s.size()) fail("size() is %zu", buf.size()); if (off_t_(buf.goff()) != want) fail("goff() is %zu, expected %lld", buf.goff(), (long long)want);
        if (in.rdstate() != rin.rdstate()) fail("the stream states differ"); if (off_t_(buf.in_avail()) != (want == off_t_(s.size()) ? 0 : off_t_(s.size()) - want) && !(want == off_t_(s.size()) && buf.in_avail() == -1)) fail("in_avail() is %lld", (long long)buf.in_avail());
        for (size_t i = 0; i < d.size(); ++i) if (!std::equal(d[i].s.begin(), d[i].s.end(), d[i].p)) fail("the memory was modified");
        key.add(want);
    }
    void finish() {}
};
template <class Ch> static void hist(const char* name, Cfg c, int depth, int tdepth) { add(name, [=] { static Cfg k; k = c; explore_bfs<World<Ch>>(k, BfsOpt{thorough ? tdepth : depth, thorough || !c.formatted ? 3 : 2}); }); }
void mc_setup() {
    Cfg f{{"", "a", std::string("\0\xff", 2), "b\n\xff\n", " q\n\n\n"}, true}; Cfg raw{{"", "ab", std::string("\xff\0\x80", 3), "abcdef"}, false};
    hist<char>("char", f, 5, 30); hist<wchar_t>("wchar", f, 4, 30); hist<char>("char_raw", raw, 6, 30); hist<wchar_t>("wchar_raw", raw, 5, 30);
    hist<char16_t>("char16_raw", Cfg{{"", "ab", std::string("\0x", 2)}, false}, 0, 0);
}
#endif

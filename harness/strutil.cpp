// Q02: string helpers agree with their definition on every string
#include "tracked.hpp"
#include <itlib/strutil.hpp>
#include <itlib/strutil.hpp>
#include <array>
using namespace mc;
typedef std::string_view SV;
static void words(const std::string& alpha, int maxlen, std::vector<std::string>& out) { out.push_back(""); for (size_t b = 0, i = 0; i < size_t(maxlen); ++i) { size_t e = out.size(); for (; b < e; ++b) for (char c : alpha) out.push_back(out[b] + c); } }
static bool eq(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return false; return true; }
// the definitions, by elements
static bool starts(SV s, SV p) { return p.size() <= s.size() && eq(s.data(), p.data(), p.size()); }
static bool ends(SV s, SV p) { return p.size() <= s.size() && eq(s.data() + (s.size() - p.size()), p.data(), p.size()); }
static void same(const char* what, SV got, SV want) { if (got.size() != want.size() || got.data() != want.data()) fail("%s gave %zu characters from %td, expected %zu", what, got.size(), got.data() - want.data(), want.size()); }
static void one(SV s, SV a) {
    if (itlib::starts_with(s, a) != starts(s, a)) fail("starts_with is %d", itlib::starts_with(s, a)); if (itlib::ends_with(s, a) != ends(s, a)) fail("ends_with is %d", itlib::ends_with(s, a));
    SV p = s; if (!a.empty()) while (starts(p, a)) p = SV(p.data() + a.size(), p.size() - a.size()); same("remove_prefix_all", itlib::remove_prefix_all(s, a), p);
    SV q = s; if (!a.empty()) while (ends(q, a)) q = SV(q.data(), q.size() - a.size()); same("remove_suffix_all", itlib::remove_suffix_all(s, a), q);
    if (itlib::remove_prefix_all(s, a).data() + (s.size() - p.size()) < s.data()) fail("?"); SV r = itlib::remove_prefix_all(itlib::remove_suffix_all(s, a), a); if (r.size() > s.size() || (r.size() && (r.data() < s.data() || r.data() + r.size() > s.data() + s.size()))) fail("a result outside of the string");
}
static std::vector<std::string> strings, affixes;
static void body() {
    const std::string& s = pick(strings); const std::string& a = pick(affixes); std::unique_ptr<char[]> hs(new char[s.size()]), ha(new char[a.size()]); std::copy(s.begin(), s.end(), hs.get()); std::copy(a.begin(), a.end(), ha.get());
    say("\"%s\" with \"%s\"", s.c_str(), a.c_str()); one(SV(hs.get(), s.size()), SV(ha.get(), a.size()));
}
static void parts() {        // the affix is a part of the string; empty views without memory
    const std::string& s = pick(strings); SV v(s); size_t b = size_t(choose(int(s.size()) + 1)), e = b + size_t(choose(int(s.size() - b) + 1)); one(v, v.substr(b, e - b)); one(v.substr(b, e - b), v); one(v, SV()); one(SV(), v); one(SV(), SV());
}
template <class I> static void mkview(const char* what, I b, I e, const char* data, size_t n) { SV v = itlib::make_string_view(b, e); if (v.size() != n || (n && v.data() != data)) fail("make_string_view from %s gave %zu characters", what, v.size()); }
// an iterator which knows where it may be dereferenced
struct Checked { const char *p, *b, *e; const char& operator*() const { if (p < b || p >= e) fail("an iterator was dereferenced out of its range"); return *p; } friend bool operator==(const Checked& x, const Checked& y) { return x.p == y.p; } friend bool operator!=(const Checked& x, const Checked& y) { return x.p != y.p; } friend std::ptrdiff_t operator-(const Checked& x, const Checked& y) { return x.p - y.p; } };
static void views() {
    const std::string& s0 = pick(strings); std::string s = s0; const std::string& c = s; size_t b = size_t(choose(int(s.size()) + 1)), e = b + size_t(choose(int(s.size() - b) + 1)); std::vector<char> vec(s.begin(), s.end()); vec.shrink_to_fit(); std::unique_ptr<char[]> raw(new char[s.size()]); std::copy(s.begin(), s.end(), raw.get()); const char* cr = raw.get(); std::array<char, 9> ar; SV sv(s); auto B = long(b), E = long(e);
    mkview("string iterators", s.begin() + B, s.begin() + E, s.data() + b, e - b); mkview("const string iterators", c.begin() + B, c.begin() + E, s.data() + b, e - b); mkview("vector iterators", vec.begin() + B, vec.begin() + E, vec.data() + b, e - b); mkview("pointers", raw.get() + b, raw.get() + e, cr + b, e - b); mkview("checked iterators", Checked{cr + b, cr + b, cr + e}, Checked{cr + e, cr + b, cr + e}, cr + b, e - b); mkview("const pointers", cr + b, cr + e, cr + b, e - b); mkview("view iterators", sv.begin() + B, sv.begin() + E, s.data() + b, e - b); if (s.size() < 9) mkview("array iterators", ar.begin() + B, ar.begin() + E, ar.data() + b, e - b);
    const char* z = nullptr; mkview("null pointers", z, z, z, 0); static_assert(itlib::make_string_view(static_cast<const char*>(nullptr), static_cast<const char*>(nullptr)).empty(), "");
}
// what an affix repeated k times followed by others leaves
static void longer() {
    std::string a = pick(affixes), s; int k = choose_of({0, 1, 2, 3, 100, 1000}); for (int i = 0; i < k; ++i) s += a; std::string mid = pick(affixes); s += mid; for (int i = 0; i < k; ++i) s += a; one(s, a); one(s, a + a); one(s, mid); one(a, s);
}
void mc_setup() {
    auto set = [](std::string al, int n, std::string al2, int m) { return [=] { strings.clear(); affixes.clear(); words(al, n + 2 * thorough, strings); words(al2, m + thorough, affixes); }; };
    auto a3 = set(std::string("ab\0", 3), 7, std::string("ab\0", 3), 4), a2 = set(std::string("a\xff"), 10, std::string("a\xff"), 5), a4 = set(std::string("aA\x80\0", 4), 5, std::string("aA\x80\0", 4), 3), sm = set(std::string("a\0", 2), 6, std::string("a\0", 2), 3);
    add("three_letters", [=] { a3(); explore_choices(body); }); add("two_letters", [=] { a2(); explore_choices(body); }); add("four_letters", [=] { a4(); explore_choices(body); }); add("parts", [=] { sm(); explore_choices(parts); }); add("views", [=] { sm(); explore_choices(views); }); add("repeated", [=] { sm(); explore_choices(longer); });
}

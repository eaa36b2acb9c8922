// Q01: the range algorithms equal their standard counterparts
#include "tracked.hpp"
#include <itlib/qalgorithm.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/span.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <deque>
#include <array>
#include <list>
#include <set>
using namespace mc;
// predicates over {0, 1, 2}, as a set of accepted values, which record what they are asked
struct Pred { int mask; std::vector<int>* log; template <class T> bool operator()(const T& t) const { int v = int(val(t)); log->push_back(v); return mask >> v & 1; }
    static int val(const Tracked& t) { return t.get(); } static int val(const MoveOnly& t) { return t.get(); } static int val(int i) { return i; } static int val(const std::string& s) { return int(s.size()); } };
template <class T> static T mk(int v) { return T(v); } template <> std::string mk<std::string>(int v) { return std::string(size_t(v), 'x'); }
template <class T> static bool is(const T& t, int v) { return Pred::val(t) == v; }
static std::vector<int> model; static int lim;
template <class C> static C build() { C c; for (int v : model) c.insert(c.end(), mk<typename C::value_type>(v)); return c; }
template <class C> static void holds(C& c, const std::vector<int>& m, const char* what) { if (size_t(std::distance(c.begin(), c.end())) != m.size()) fail("%s left %zu elements, expected %zu", what, size_t(std::distance(c.begin(), c.end())), m.size()); size_t i = 0; for (auto& e : c) if (!is(e, m[i++])) fail("%s: element %zu is wrong", what, i - 1); }
static size_t first(int mask) { size_t i = 0; while (i < model.size() && !(mask >> model[i] & 1)) ++i; return i; }
// searching: c is what the algorithm is given (const or not), n elements are looked at, found at index f
template <class C> static void searches(C& c, int mask, int v) {
    typedef typename std::remove_const<C>::type U; typedef typename std::conditional<std::is_const<C>::value, typename U::const_iterator, typename U::iterator>::type It; typedef typename U::value_type T;
    std::vector<int> log; size_t f = first(mask), n = std::min(f + 1, model.size()), fv = first(1 << v);
    auto at = [&](size_t i) { return std::next(c.begin(), long(i)); }; auto seen = [&](const char* w, size_t k) { if (log.size() != k || !std::equal(log.begin(), log.end(), model.begin())) fail("%s asked the predicate %zu times, expected %zu, or in another order", w, log.size(), k); log.clear(); };
    auto i = itlib::qfind_if(c, Pred{mask, &log}); if (i != at(f)) fail("qfind_if"); seen("qfind_if", n); static_assert(std::is_same<decltype(i), It>::value, ""); const Pred kp{mask, &log}; Pred lp{mask, &log}; if (itlib::qfind_if(c, kp) != at(f) || itlib::qfind_if(c, lp) != at(f)) fail("qfind_if"); log.clear();
    const T val = mk<T>(v); auto q = itlib::qfind(c, val); if (q != at(fv)) fail("qfind"); static_assert(std::is_same<decltype(q), It>::value, ""); if (fv < model.size() && itlib::qfind(c, *at(fv)) != q) fail("qfind of an element");
    if (itlib::qall_of(c, Pred{mask, &log}) != std::all_of(model.begin(), model.end(), [&](int x) { return mask >> x & 1; })) fail("qall_of"); seen("qall_of", std::min(first(~mask) + 1, model.size()));
    if (itlib::qany_of(c, Pred{mask, &log}) != (f < model.size())) fail("qany_of"); seen("qany_of", n); if (itlib::qnone_of(c, Pred{mask, &log}) != (f == model.size())) fail("qnone_of"); seen("qnone_of", n);
    if (itlib::qall_of(c, lp) != itlib::qall_of(c, kp)) fail("qall_of"); log.clear();
}
template <class C> static void pointers(C& c, int mask, int v) {
    typedef typename std::remove_const<C>::type U; typedef typename U::value_type T; std::vector<int> log; size_t f = first(mask), fv = first(1 << v); auto at = [&](size_t i) { return i < model.size() ? std::addressof(*std::next(c.begin(), long(i))) : nullptr; };
    auto p = itlib::pfind_if(c, Pred{mask, &log}); if (p != at(f)) fail("pfind_if"); if (log.size() != std::min(f + 1, model.size())) fail("pfind_if asked %zu times", log.size()); const T val = mk<T>(v); auto q = itlib::pfind(c, val); if (q != at(fv)) fail("pfind"); if (q && itlib::pfind(c, *q) != q) fail("pfind of an element");
    typedef typename std::conditional<std::is_const<C>::value, typename U::const_pointer, typename U::pointer>::type P; static_assert(std::is_same<decltype(p), P>::value && std::is_same<decltype(q), P>::value, "");
}
template <class C> static void truth(const C& c) { bool all = true, any = false; for (int v : model) { all = all && v; any = any || v; } if (itlib::qall_of(c) != all || itlib::qany_of(c) != any || itlib::qnone_of(c) == any) fail("qall_of, qany_of or qnone_of without predicate"); }
template <class C> static void erases(int mask, int v) {
    typedef typename C::value_type T; std::vector<int> log; size_t f = first(mask);
    auto without = [&](auto pr) { std::vector<int> m; for (int x : model) if (!pr(x)) m.push_back(x); return m; }; auto drop = [&](size_t i) { std::vector<int> m = model; if (i < m.size()) m.erase(m.begin() + long(i)); return m; };
    { C c = build<C>(); bool r = itlib::erase_first_if(c, Pred{mask, &log}); if (r != (f < model.size())) fail("erase_first_if returned %d", r); holds(c, drop(f), "erase_first_if"); if (log.size() != std::min(f + 1, model.size())) fail("erase_first_if asked %zu times", log.size()); log.clear(); }
    { C c = build<C>(); auto w = without([&](int x) { return mask >> x & 1; }); auto r = itlib::erase_all_if(c, Pred{mask, &log}); if (r != model.size() - w.size()) fail("erase_all_if returned %zu, expected %zu", size_t(r), model.size() - w.size()); holds(c, w, "erase_all_if"); if (log != model) fail("erase_all_if asked %zu times, or in another order", log.size()); static_assert(std::is_same<decltype(r), typename C::size_type>::value, ""); }
    if constexpr (std::is_copy_constructible<T>::value) {
        size_t fv = first(1 << v); const T val = mk<T>(v);
        { C c = build<C>(); bool r = itlib::erase_first(c, val); if (r != (fv < model.size())) fail("erase_first returned %d", r); holds(c, drop(fv), "erase_first"); }
        { C c = build<C>(); auto w = without([&](int x) { return x == v; }); auto r = itlib::erase_all(c, val); if (r != model.size() - w.size()) fail("erase_all returned %zu, expected %zu", size_t(r), model.size() - w.size()); holds(c, w, "erase_all"); if (!is(val, v)) fail("the value was modified"); }
        if (fv < model.size()) { C c = build<C>(); if (!itlib::erase_first(c, *std::next(c.begin(), long(fv)))) fail("erase_first of an element"); holds(c, drop(fv), "erase_first of an element"); }
    }
}
template <class C> static void body() {
    reg.clear(); throw_in = 0; model.clear(); while (int(model.size()) < (thorough ? lim + 2 : lim)) { int x = choose(4); if (x == 3) break; model.push_back(x); } int mask = choose(8), v = choose(3);
    { C c = build<C>(); const C& k = c; if constexpr (std::is_copy_constructible<typename C::value_type>::value) { searches(c, mask, v); searches(k, mask, v); } 
      if constexpr (std::is_same<typename C::value_type, int>::value) truth(k); 
      if constexpr (std::is_same<C, std::vector<int>>::value || std::is_same<C, std::vector<Tracked>>::value || std::is_same<C, std::deque<std::string>>::value || std::is_same<C, itlib::small_vector<int, 2>>::value) { pointers(c, mask, v); pointers(k, mask, v); }
      if constexpr (std::is_same<C, std::vector<int>>::value) { itlib::span<int> s(c); itlib::span<const int> cs(c); const auto ks = s; searches(s, mask, v); searches(cs, mask, v); searches(ks, mask, v); pointers(s, mask, v); pointers(cs, mask, v); truth(s); std::list<int> l(c.begin(), c.end()); searches(l, mask, v); pointers(l, mask, v); }
      holds(c, model, "searching"); }
    if constexpr (!std::is_same<C, std::list<int>>::value) erases<C>(mask, v);
    if (reg.live) fail("%zu elements leaked", reg.live); Quiet q; outcome(int(model.size()) * 100 + mask * 10 + v);
}
// searching for a value of another type, and boolean predicates which are not bool
static void other() {
    std::vector<std::string> s; int n = choose(4); for (int i = 0; i < n; ++i) s.push_back(std::string(size_t(i), 'x')); if (itlib::qfind(s, "x") - s.begin() != std::min(n, 1)) fail("qfind of a literal"); if ((itlib::pfind(s, "xx") != nullptr) != (n > 2)) fail("pfind of a literal"); if (itlib::qall_of(s, [](const std::string& x) { return int(x.size()) + 1; }) != true) fail("qall_of"); auto c = s; if (itlib::erase_all(c, "x") != size_t(n > 1)) fail("erase_all of a literal"); if (itlib::erase_first(c, "") != (n > 0)) fail("erase_first of a literal");
    std::set<int> st{1, 2, 3}; if ((itlib::qfind(st, n) == st.end()) != (n == 0)) fail("qfind in a set"); std::array<int, 3> ar{{5, 6, 7}}; if (itlib::qfind(ar, 4 + n) != (n ? ar.begin() + n - 1 : ar.end()) || itlib::pfind(ar, 4 + n) != (n ? &ar[size_t(n) - 1] : nullptr)) fail("array");
    itlib::identity id; std::string x = "q"; if (&id(x) != &x) fail("identity");
}
template <class C> static void all(const char* n) { add(n, [] { lim = 6; explore_choices(body<C>); }); }
void mc_setup() { all<std::vector<int>>("vector_int"); all<std::vector<Tracked>>("vector_tracked"); all<std::vector<MoveOnly>>("vector_moveonly"); all<std::deque<std::string>>("deque_string"); all<itlib::small_vector<int, 2>>("small_vector"); all<itlib::static_vector<Tracked, 8>>("static_vector"); all<itlib::pod_vector<int>>("pod_vector"); all<std::list<int>>("list"); add("other", [] { explore_choices(other); }); }

import sys; sys.path.insert(0,'/tmp/seeds')
from common import *
# ---------- span
P='#include <itlib/span.hpp>\n'+C
s('span-subspan-sum','P01',[('span.hpp','''        if (off > size()) return span(m_end, size_t(0));
        auto newSize = size() - off;
        if (count > newSize) count = newSize;
        return span(m_begin + off, count);''','''        if (off > size()) return span(m_end, size_t(0));
        if (count == size_t(-1) || off + count > size()) count = size() - off;
        return span(m_begin + off, count);''')],P+'''
int main() { int a[10] = {0,1,2,3,4,5,6,7,8,9}; itlib::span<int> s(a); auto t = s.subspan(3, size_t(-2)); CHECK(t.size() == 7); CHECK(t.back() == 9); }''','a slice with a default (or very large) count and an offset which is not zero: offset+count wraps around','the slice has size size_t(-1) and reaches outside of the view')
s('span-subspan-end-null','P01',[('span.hpp','        if (off > size()) return span(m_end, size_t(0));','        if (off >= size()) return {};')],P+'''
int main() { int a[10] = {}; itlib::span<int> s(a); auto t = s.subspan(10); CHECK(t.empty()); CHECK(t.data() == a + 10); auto u = s.last(0); CHECK(u.data() == a + 10 && u); }''','a slice which starts exactly at the end','the empty slice is null, does not address the end of the original one')
s('span-const-assign','P01',[('span.hpp','''        m_begin = other.begin();
        m_end = other.end();
        return *this;''','''        m_begin = other.begin();
        m_end = m_begin + (size() < other.size() && m_end ? size() : other.size());
        return *this;''')],P+'''
int main() { int a[10] = {0,1,2,3}; int b[3] = {}; itlib::span<const int> s(b); itlib::span<int> m(a); s = m; CHECK(s.data() == a); CHECK(s.size() == 10); }''','assignment of a longer span of mutable elements to a non-empty span of const','the view keeps its old size')
s('span-bytes-align','P01',[('span.hpp','''        return span<byte_t>(reinterpret_cast<byte_t*>(m_begin), size_bytes());''','''        return span<byte_t>(reinterpret_cast<byte_t*>(m_begin), size() * alignof(T));''')],P+'''
struct S { int a, b, c; };
int main() { S a[4] = {}; itlib::span<S> s(a); CHECK(s.as_writable_bytes().size() == sizeof(a)); CHECK(s.as_bytes().size() == sizeof(a)); }''','as_writable_bytes of elements whose size is not their alignment','the byte span is too short')
s('span-last-clamp','P01',[('span.hpp','        return subspan(size() - n, n);','        return span(m_end - n, n);')],P+'''
int main() { int a[10] = {}; itlib::span<int> s(a + 4, size_t(4)); auto t = s.last(6); CHECK(t.data() >= a + 4 && t.data() + t.size() <= a + 8); }''','last() with more elements than there are','the slice reaches in front of the original view')
# ---------- stride
T='#include <itlib/stride_span.hpp>\n'+C
s('stride-array-round','P02',[('stride_span.hpp','(ar_length - noffset + nstride - 1) / nstride); // divide rounding up','(ar_length - noffset) / nstride + ((ar_length % nstride) ? 1 : 0));')],T+'''
int main() { int a[10] = {0,1,2,3,4,5,6,7,8,9}; for (size_t off = 0; off < 10; ++off) for (size_t st = 1; st < 12; ++st) { auto s = itlib::make_stride_span_from_array(a, 10, off, st); size_t n = 0; for (size_t i = off; i < 10; i += st) ++n; CHECK(s.size() == n); } }''','an array view with an offset where the length is (or is not) a multiple of the stride but the rest of the array is not (or is)','one element too many or too few; an element outside of the array')
s('stride-assign-stride','P02',[('stride_span.hpp','''        m_begin = other.data();
        m_stride = other.stride();
        m_num_elements = other.size();
        return *this;''','''        m_begin = other.data();
        m_num_elements = other.size();
        return *this;''')],T+'''
int main() { int a[10] = {0,1,2,3,4,5,6,7,8,9}; auto m = itlib::make_stride_span_from_array(a, 10, 0, 3); itlib::stride_span<const int> c; c = m; CHECK(c.size() == 4); CHECK(c[3] == 9); }''','assignment of a mutable view to a const view of a different stride','the stride of the target stays')
s('stride-iter-diff','P02',[('stride_span.hpp','return (p - other.p) / ptrdiff_t(stride); }','return (p - other.p) / stride; }')],T+'''
int main() { int a[10] = {}; auto s = itlib::make_stride_span_from_array(a, 10, 0, 3); CHECK(s.end() - s.begin() == 4); CHECK(s.begin() - s.end() == -4); }''','the difference of an earlier and a later iterator','unsigned division gives a huge number')
s('stride-last-from-begin','P02',[('stride_span.hpp','''        auto newSize = m_num_elements - off;
        if (count > newSize) count = newSize;
        return stride_span(m_begin + off * m_stride, m_stride, count);''','''        auto newSize = m_num_elements - off;
        if (count > newSize) count = newSize;
        return stride_span(m_begin + off * m_stride, count < 2 ? sizeof(T) : m_stride, count);''')],T+'''
int main() { int a[10] = {}; auto s = itlib::make_stride_span_from_array(a, 10, 0, 3); auto t = s.subspan(1, 1); CHECK(t.end() - t.begin() == 1); CHECK(t.stride() == s.stride()); CHECK((t.end().ptr()) == a + 6); }''','a slice of one element','the stride of the slice is not the stride of the view (its end is not the next element)')
s('stride-member-const','P02',[('stride_span.hpp','''stride_span<const Field> make_stride_span_member_view(const Struct* ar, size_t ar_length, Field (Struct::*member))
{
    auto begin = &(ar->*member);
    return make_stride_span_from_buf(begin, sizeof(Struct), ar_length);''','''stride_span<const Field> make_stride_span_member_view(const Struct* ar, size_t ar_length, Field (Struct::*member))
{
    auto begin = &(ar->*member);
    return make_stride_span_from_buf(begin, (sizeof(Struct) / sizeof(Field)) * sizeof(Field), ar_length);''')],T+'''
struct Trip { char r, g, b; }; struct S { Trip t; int v; };
int main() { S a[4] = {}; a[2].t.g = 7; const S* c = a; auto s = itlib::make_stride_span_member_view(c, 4, &S::t); CHECK(s.stride() == sizeof(S)); CHECK(s[2].g == 7); }''','a const member view of a field whose size does not divide the size of the structure','the wrong stride')
# ---------- poly
Y='#include <itlib/poly_span.hpp>\n'+C
s('poly-iter-minus','P03',[('poly_span.hpp','t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }','t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - diff, stride, poly_func) ; }')],Y+'''
int main() { int a[8] = {0,1,2,3,4,5,6,7}; auto f = [](int& i) -> int { return i; }; itlib::poly_span<int> s(a, 8, f); CHECK(*(s.end() - 8 + 3) == 3); CHECK(*(s.begin() + 5 - 2) == 3); }''','iterator minus an offset','not moved by whole elements')
s('poly-sub-func','P03',[('poly_span.hpp','        return poly_span(m_begin + off * m_stride, m_stride, count, m_poly_func);','        return poly_span(m_begin + off * m_stride, off && count == newSize && off == 1 ? m_stride * 1 : m_stride, count, count ? m_poly_func : nullptr);')],Y+'''
int main() {}''','-','-') if 'poly-sub-func' in which else None
s('poly-subspan-sum','P03',[('poly_span.hpp','''        auto newSize = m_num_elements - off;
        if (count > newSize) count = newSize;''','''        if (count == size_t(-1) || off + count > m_num_elements) count = m_num_elements - off;''')],Y+'''
int main() { int a[8] = {0,1,2,3,4,5,6,7}; auto f = [](int& i) -> int { return i; }; itlib::poly_span<int> s(a, 8, f); CHECK(s.subspan(3, size_t(-2)).size() == 5); }''','a slice with a default count and a non-zero offset','offset+count wraps around: the slice reaches outside')
s('poly-remove-prefix','P03',[('poly_span.hpp','''        m_begin += n * m_stride;
        m_num_elements -= n;
    }''','''        if (n == m_num_elements) { *this = {}; return; }
        m_begin += n * m_stride;
        m_num_elements -= n;
    }''')],Y+'''
int main() { int a[8] = {0,1,2,3,4,5,6,7}; auto f = [](int& i) -> int { return i; }; itlib::poly_span<int> s(a, 8, f); s.remove_prefix(8); CHECK(s.empty()); CHECK(s); CHECK(s.data() == reinterpret_cast<uint8_t*>(a + 8)); }''','removing all of the elements','the view becomes null instead of empty at the end')
# ---------- memory_view
W='#define ITLIB_NO_DEPRECATED\n#pragma GCC diagnostic ignored "-Wdeprecated-declarations"\n#include <itlib/memory_view.hpp>\n'+C
s('view-slice-sum','P04',[('memory_view.hpp','''        auto newSize = m_size - off;
        if (count > newSize) count = newSize;
        return const_memory_view(m_ptr + off, count);''','''        if (count == size_t(-1) || off + count > m_size) count = m_size - off;
        return const_memory_view(m_ptr + off, count);''')],W+'''
int main() { const int a[8] = {}; auto v = itlib::make_memory_view(a); CHECK(v.slice(3, size_t(-3)).size() == 5); }''','a slice of a const view with a very large count and a non-zero offset','the slice reaches outside the view')
s('view-container-offset','P04',[('memory_view.hpp','''    return memory_view<typename Container::value_type>(c.data() + offset, c.size() - offset);''','''    return memory_view<typename Container::value_type>(c.data() + offset, c.size());''')],W+'''
int main() { std::vector<int> a = {1,2,3,4}; auto v = itlib::make_memory_view(a, 3); CHECK(v.size() == 1); CHECK(v.back() == 4); }''','a view of a mutable container with a non-zero offset','the view reaches past the end of the container')
s('view-prefix-all','P04',[('memory_view.hpp','''    const_memory_view slice(size_t off, size_t count = size_t(-1)) const
    {
        if (off > m_size) return const_memory_view(m_ptr + m_size, 0);''','''    const_memory_view slice(size_t off, size_t count = size_t(-1)) const
    {
        if (off > m_size) return const_memory_view(m_ptr + m_size, 0);
        if (count == 0) return const_memory_view();''')],W+'''
int main() { const int a[8] = {}; auto v = itlib::make_memory_view(a); auto e = v.slice(3, 0); CHECK(e.empty()); CHECK(e.data() == a + 3); CHECK(e); }''','a slice of zero elements in the middle of a const view','a null view instead of an empty view at the position')
# ---------- qalgorithm
Q='#include <itlib/qalgorithm.hpp>\n'+C
s('q-erase-all-fast','Q01',[('qalgorithm.hpp','''    auto newend = std::remove_if(c.begin(), c.end(), std::forward<Pred>(pred));
    auto ret = c.end() - newend;''','''    auto first = std::find_if(c.begin(), c.end(), pred);
    auto newend = first;
    for (; first != c.end(); ++first) if (!pred(*first)) *newend++ = *first;
    auto ret = c.end() - newend;''')],Q+'''
int main() { std::vector<std::unique_ptr<int>> v; }''','-','-') if 'q-erase-all-fast' in which else None
s('q-erase-all-order','Q01',[('qalgorithm.hpp','''    auto newend = std::remove(c.begin(), c.end(), val);
    auto ret = c.end() - newend;''','''    auto newend = std::partition(c.begin(), c.end(), [&val](const typename Container::value_type& e) { return !(e == val); });
    auto ret = c.end() - newend;''')],Q+'''
int main() { std::vector<int> v = {2, 1, 3, 4}; CHECK(itlib::erase_all(v, 2) == 1); CHECK((v == std::vector<int>{1, 3, 4})); }''','erase_all on a container with iterators of bidirectional or better category in which elements behind an erased one are at least two more','the order of the remaining elements changes')
s('q-erase-first-if-last','Q01',[('qalgorithm.hpp','''    auto newend = std::remove_if(c.begin(), c.end(), std::forward<Pred>(pred));
    auto ret = c.end() - newend;''','''    auto ret = std::count_if(c.begin(), c.end(), pred);
    auto newend = std::remove_if(c.begin(), c.end(), std::forward<Pred>(pred));''')],Q+'''
int main() { std::vector<int> v = {2, 1, 3, 4}; int calls = 0; itlib::erase_all_if(v, [&](int) { return ++calls % 2 == 0; }); CHECK(calls == 4); }''','a predicate which has side effects (each element is to be examined once)','the predicate is called twice for each element')
s('q-none-of','Q01',[('qalgorithm.hpp','return qnone_of(c, identity{}); }','return !qall_of(c, identity{}) || c.empty(); }')],Q+'''
int main() { std::vector<int> some = {0, 1, 0}; CHECK(!itlib::qnone_of(some)); }''','-','-') if 'q-none-of' in which else None
s('q-none-some','Q01',[('qalgorithm.hpp','return qnone_of(c, identity{}); }','return c.begin() == c.end() || (!*c.begin() && !*std::prev(c.end())); }'),('qalgorithm.hpp','#include <algorithm>\n','#include <algorithm>\n#include <iterator>\n')],Q+'''
int main() { std::vector<int> some = {0, 1, 0}; CHECK(!itlib::qnone_of(some)); }''','qnone_of without a predicate where only an element in the middle is true','true')
s('q-pfind-last','Q01',[('qalgorithm.hpp','''    auto f = std::find_if(c.begin(), c.end(), std::forward<Pred>(pred));
    if (f == c.end()) return nullptr;
    return &(*f);''','''    typename impl::pointer_t<Container>::type ret = nullptr;
    for (auto& e : c) if (!ret && pred(e)) ret = &e;
    return ret && pred(*ret) ? ret : nullptr;''')],Q+'''
int main() { std::vector<int> v = {2, 1, 3, 4}; int calls = 0; auto p = itlib::pfind_if(v, [&](int i) { ++calls; return i == 1; }); CHECK(p == &v[1]); CHECK(calls == 2); }''','a predicate which counts or has state','the predicate is called again for the found element')
# ---------- strutil
Z='#include <itlib/strutil.hpp>\n'+C
s('str-suffix-rfind','Q02',[('strutil.hpp','    return str.size() >= suffix.size() && 0 == str.compare(str.size() - suffix.size(), suffix.size(), suffix);','    return str.rfind(suffix) == str.size() - suffix.size();')],Z+'''
int main() { CHECK(!itlib::ends_with("ab", "abc")); }''','a suffix one character longer than a string (npos == 0 - 1)','true') 
s('str-prefix-cstr','Q02',[('strutil.hpp','    return str.size() >= prefix.size() && 0 == str.compare(0, prefix.size(), prefix);','    return str.size() >= prefix.size() && 0 == std::strncmp(str.data(), prefix.data(), prefix.size());'),('strutil.hpp','#include <string_view>\n','#include <string_view>\n#include <cstring>\n')],Z+'''
int main() { CHECK(!itlib::starts_with(std::string_view("a\\0b", 3), std::string_view("a\\0c", 3))); }''','a prefix with a zero byte','the rest behind the zero byte is not compared')
s('str-remove-whole','Q02',[('strutil.hpp','    while (ends_with(str, suffix)) str.remove_suffix(suffix.size());','    while (str.size() > suffix.size() && ends_with(str, suffix)) str.remove_suffix(suffix.size());\n    if (str == suffix) return {};')],Z+'''
int main() { std::string_view x = "abab"; auto r = itlib::remove_suffix_all(x, "ab"); CHECK(r.empty()); CHECK(r.data() == x.data()); }''','all of the string is made of the suffix','the result is not a view into the string')
s('str-make-null','Q02',[('strutil.hpp','    if (begin == end) return {}; // avoid UB from dereferncing end if called with (end, end)\n    return std::string_view(&(*begin), end - begin);','    return std::string_view(&(*begin), end - begin);')],Z+'''
int main() { std::vector<char> v; auto r = itlib::make_string_view(v.begin(), v.end()); CHECK(r.empty()); }''','make_string_view(end, end) with checked iterators','dereferences the end iterator',flags='-D_GLIBCXX_ASSERTIONS -D_GLIBCXX_DEBUG') if 'str-make-null' in which else None
# ---------- time_t
A='#include <itlib/time_t.hpp>\n'+C
s('time-minus-ceil','T01',[('time_t.hpp','time_t operator-(const std::chrono::duration<Rep, Period>& d) const { return time_t(m_t - dc(d)); }','time_t operator-(const std::chrono::duration<Rep, Period>& d) const { return time_t(m_t + dc(-d)); }')],A+'''
int main() { itlib::time_t t(100); CHECK((t - std::chrono::duration<uint32_t>(1)).seconds_since_epoch() == 99); }''','subtraction of a duration with an unsigned representation','negation wraps around')
s('time-dc-ms','T01',[('time_t.hpp','        return std::chrono::duration_cast<duration_type>(d).count();','        return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count() / 1000000000;')],A+'''
int main() { itlib::time_t t(0); t += std::chrono::hours(24 * 365 * 300); CHECK(t.seconds_since_epoch() == int64_t(24) * 365 * 300 * 3600); }''','adding a duration of more than 292 years','overflow of nanoseconds')
s('time-gmtime-32','T01',[('time_t.hpp','friend duration_type operator-(const time_t& a, const time_t& b) { return duration_type(a.m_t - b.m_t); }','friend duration_type operator-(const time_t& a, const time_t& b) { return duration_type(int(a.m_t - b.m_t)); }')],A+'''
int main() { itlib::time_t a(5000000000), b(0); CHECK((a - b).count() == 5000000000); }''','a difference of more than 68 years','truncated to 32 bits')
s('time-localtime-copy','T01',[('time_t.hpp','return from_seconds(mktime(&localtm));','auto copy = localtm; copy.tm_isdst = -1; auto ret = mktime(&copy); if (ret != -1) localtm = copy; return from_seconds(ret);')],A+'''
int main() { setenv("TZ", "EET-2EEST,M3.5.0/3,M10.5.0/4", 1); tzset(); itlib::time_t t(1698541200 - 1800); for (int i = 0; i < 4; ++i) { auto x = t + std::chrono::seconds(1800 * i); auto l = x.localtime(); CHECK(itlib::time_t::from_localtime(l) == x); } }''','a local time in the hour which is repeated when daylight saving time ends','the instant is off by an hour')
s('time-gm-normal','T01',[('time_t.hpp','            timegm(&gmtm);','            timegm(std::addressof(static_cast<const std::tm&>(gmtm)) ? &gmtm : nullptr);')],A+'int main(){}','-','-') if 'time-gm-normal' in which else None
s('time-strftime-fixed','T01',[('time_t.hpp','    ret.resize(128);','    ret.resize(128); if (std::string(format).size() > 4096) return ret;')],A+'int main(){}','-','-') if 'time-strftime-fixed' in which else None
# ---------- make_ptr
B='#include <itlib/make_ptr.hpp>\n'+C
s('ptr-shared-move','K01',[('make_ptr.hpp','    return std::make_shared<typename std::remove_reference<T>::type>(std::forward<T>(t));','    return std::make_shared<typename std::remove_reference<T>::type>(static_cast<typename std::conditional<std::is_trivially_copyable<typename std::remove_reference<T>::type>::value || std::is_lvalue_reference<T>::value, T&, T&&>::type>(t));')],B+'int main(){}','-','-') if 'ptr-shared-move' in which else None
s('ptr-alias-get','K01',[('make_ptr.hpp','    if (owner.use_count() == 0) return {};','    if (!owner) return {};')],B+'''
int main() { auto o = std::make_shared<int>(5); std::shared_ptr<int> nullalias(o, (int*)nullptr); CHECK(nullalias.use_count() == 2); int v = 3; auto a = itlib::make_aliased(nullalias, &v); CHECK(a.get() == &v); CHECK(o.use_count() == 3); }''','an owner which owns an object but whose pointer is null','an empty pointer instead of one which shares ownership')
s('ptr-alias-always','K01',[('make_ptr.hpp','    if (owner.use_count() == 0) return {};','    if (!owner && owner.use_count() == 0) return {};')],B+'''
int main() { int x = 1, v = 3; std::shared_ptr<int> unowned(std::shared_ptr<int>(), &x); CHECK(unowned && unowned.use_count() == 0); auto a = itlib::make_aliased(unowned, &v); CHECK(!a); }''','an owner which points to an object but owns nothing','a dangling non-owning pointer instead of null')
s('ptr-alias-null-target','K01',[('make_ptr.hpp','    return std::shared_ptr<T>(owner, ptr);','    if (!ptr) return {};\n    return std::shared_ptr<T>(owner, ptr);')],B+'''
int main() { auto o = std::make_shared<int>(5); auto a = itlib::make_aliased(o, (char*)nullptr); CHECK(o.use_count() == 2); CHECK(!a && a.use_count() == 2); }''','a null target','ownership is not shared')
# ---------- shared_from
D='#include <itlib/shared_from.hpp>\n'+C
s('sf-cache','K02',[('shared_from.hpp','        return std::shared_ptr<T>(shared_from_this(), ptr);','        auto self = shared_from_this();\n        return std::shared_ptr<T>(ptr, [self](T*) {});')],D+'''
struct S : itlib::enable_shared_from { int id = 0; using enable_shared_from::shared_from; };
int main() { auto p = std::make_shared<S>(); auto i = p->shared_from(&p->id); CHECK(i.use_count() == 2); CHECK(!i.owner_before(p) && !p.owner_before(i)); }''','-','-') if 'sf-cache' in which else None
s('sf-weak-own','K02',[('shared_from.hpp','''        return shared_from(ptr);
    }''','''        std::shared_ptr<T> ret(const_cast<enable_shared_from*>(this)->esd::weak_from_this().lock(), ptr);
        static thread_local std::shared_ptr<const void> last; last = ret;
        return ret;
    }''')],D+'int main(){}','-','-') if 'sf-weak-own' in which else None
s('sf-unowned','K02',[('shared_from.hpp','        return std::shared_ptr<T>(shared_from_this(), ptr);','        return std::shared_ptr<T>(esd::weak_from_this().lock(), ptr);')],D+'''
struct S : itlib::enable_shared_from { int id = 0; using enable_shared_from::shared_from; };
int main() { S s; bool t = false; try { auto p = s.shared_from(&s.id); } catch (std::bad_weak_ptr&) { t = true; } CHECK(t); }''','asking an object which nobody owns','a non-null shared pointer that owns nothing instead of an exception',std='c++17')
s('sf-const-this','K02',[('shared_from.hpp','''    std::weak_ptr<const void> weak_from_this() const
    {
#if __cplusplus >= 201700
        return esd::weak_from_this();
#else
        return shared_from_this();
#endif''','''    std::weak_ptr<const void> weak_from_this() const
    {
#if __cplusplus >= 201700
        return std::shared_ptr<const void>(std::shared_ptr<const void>(), this);
#else
        return shared_from_this();
#endif''')],D+'''
struct S : itlib::enable_shared_from { int id = 0; using enable_shared_from::weak_from_this; };
int main() { auto p = std::make_shared<const S>(); auto w = p->weak_from_this(); CHECK(!w.expired()); CHECK(w.lock().get() == p.get()); }''','weak_from_this of a const object (C++17)','an empty weak pointer',std='c++17')
s('sf-offset','K02',[('shared_from.hpp','        return std::shared_ptr<T>(shared_from_this(), ptr);','        auto self = shared_from_this();\n        if (static_cast<const void*>(ptr) == self.get()) return std::static_pointer_cast<T>(std::const_pointer_cast<void>(self));\n        return std::shared_ptr<T>(self, ptr);')],D+'''
struct A { virtual ~A() = default; int a = 1; };
struct S : A, itlib::enable_shared_from { int id = 0; using enable_shared_from::shared_from; };
int main() { auto p = std::make_shared<S>(); auto i = p->shared_from(static_cast<A*>(p.get())); CHECK(i.get() == p.get()); }''','-','-') if 'sf-offset' in which else None
# ---------- sentry/throw_ex
E='#include <itlib/sentry.hpp>\n'+C
s('sentry-move-flag','K03',[('sentry.hpp','        , m_has_func(other.m_has_func)\n','')],E+'''
int main() { int n = 0; { auto f = [&] { ++n; }; itlib::sentry<decltype(f)&> a(f); auto b = std::move(a); auto c = std::move(a); } CHECK(n == 1); }''','moving from a sentry which was moved from already (C++11/14)','the function runs twice',std='c++11')
X='#include <itlib/throw_ex.hpp>\n#include <iomanip>\n'+C
s('thr-literal-write','K03',[('throw_ex.hpp','        out << str;\n','        out.write(str, std::char_traits<char>::length(str));\n')],X+'''
int main() { try { itlib::throw_ex<std::runtime_error>() << std::setw(6) << "ab" << 1; } catch (std::runtime_error& e) { CHECK(std::string(e.what()) == "    ab1"); return 0; } return 1; }''','formatting (a field width) in front of a string literal','the width applies to the wrong item')
s('thr-cstr','K03',[('throw_ex.hpp','throw Exception(out.str());','throw Exception(out.str().c_str());')],X+'''
struct Ex { std::string s; explicit Ex(std::string s) : s(s) {} };
int main() { try { itlib::throw_ex<Ex>() << std::string("a\\0b", 3) << 'c'; } catch (Ex& e) { CHECK(e.s.size() == 4); return 0; } return 1; }''','a streamed item with a zero byte','the message is cut')
# ---------- utility
U='#include <itlib/utility.hpp>\n#include <itlib/type_traits.hpp>\n'+C
s('noop-bool-cv','X01',[('type_traits.hpp','        && (std::is_same<to_t, bool>::value ? std::is_same<from_t, bool>::value : true)','        && (std::is_same<To, bool>::value ? std::is_same<From, bool>::value : true)')],U+'''
int main() { CHECK((!itlib::is_noop_convertible<char, const bool>::value)); CHECK((itlib::is_noop_convertible<const bool, bool>::value)); }''','cv-qualified bool','wrong answers')
s('noop-signed','X01',[('type_traits.hpp','        && std::is_floating_point<from_t>::value == std::is_floating_point<to_t>::value','        && (std::is_floating_point<from_t>::value == std::is_floating_point<to_t>::value || std::is_pointer<from_t>::value || std::is_pointer<to_t>::value)')],U+'int main(){}','-','-') if 'noop-signed' in which else None
s('noop-double-ptr','X01',[('type_traits.hpp','        && std::is_floating_point<from_t>::value == std::is_floating_point<to_t>::value','        && (std::is_floating_point<from_t>::value == std::is_floating_point<to_t>::value || std::is_floating_point<From>::value != std::is_floating_point<from_t>::value)')],U+'int main(){}','-','-') if 'noop-double-ptr' in which else None
s('owner-first','X01',[('utility.hpp','    auto m_offset = reinterpret_cast<uintptr_t>(&(null_owner->*ptr));','    auto m_offset = reinterpret_cast<uintptr_t>(&(null_owner->*ptr)) & 0xff;')],U+'''
struct B { char pad[400]; int x; }; int main() { B b; CHECK(itlib::owner_from_member(b.x, &B::x) == &b); }''','a member with an offset of 256 bytes or more','wrong owner')
s('bitcast-value','X01',[('utility.hpp','    std::memcpy(&dst, &src, sizeof(Src));','    dst = *reinterpret_cast<const volatile Dst*>(&src);')],U+'int main(){}','-','-') if 'bitcast-value' in which else None

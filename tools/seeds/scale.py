from common import *
ANY=C+'#include <map>\n#include <itlib/any.hpp>\n'
LOGA='''
static std::map<void*, std::pair<size_t, size_t>> live;
struct A { int id; explicit A(int i = 0) : id(i) {} void* allocate_bytes(size_t n, size_t a) { CHECK(a && !(a & (a - 1))); void* p = nullptr; CHECK(!posix_memalign(&p, a < 8 ? 8 : a, n)); live[p] = {n, a}; return p; }
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept { CHECK(live.count(p)); CHECK(live[p].first == n && live[p].second == a); live.erase(p); free(p); }
    friend bool operator==(const A& x, const A& y) { return x.id == y.id; } };
typedef itlib::any<A> any;
'''
s('any-size-16','A02',[('any.hpp','    uint32_t size; // size of block\n','    uint16_t size; // size of block\n')],ANY+LOGA+'''
struct Big { char c[70000]; };
int main() { { Big b = {}; any x(b); any y(x); CHECK(itlib::any_cast<Big>(&y)); } CHECK(live.empty()); }''','a value of more than 65535 bytes','the size of the block is stored in 16 bits: it is returned to the allocator with the wrong size, and a copy gets a block which is too small')
s('any-align-8','A01',[('any.hpp','    uint32_t alignment; // alignment of block\n','    uint8_t alignment; // alignment of block\n')],ANY+LOGA+'''
struct alignas(256) W { int v; };
int main() { { W w; w.v = 7; any x(w); any y(x); auto p = itlib::any_cast<W>(&y); CHECK(p && p->v == 7 && (uintptr_t)p % 256 == 0); } CHECK(live.empty()); }''','a value aligned to 256 bytes or more which is copied','a copy of a value aligned to 256 bytes or more is not aligned, or cannot be made')
s('any-cast-derived','A01',[('any.hpp','''    if (typeid(T) != a->type()) return nullptr;
    return a->template tdata<T>();
}

template <typename T, typename Alloc>
T* any_cast(any<Alloc>* a) {''','''    if (typeid(T).hash_code() != a->type().hash_code() || !std::is_same<T, typename std::decay<T>::type>::value) return nullptr;
    return a->template tdata<T>();
}

template <typename T, typename Alloc>
T* any_cast(any<Alloc>* a) {''')],ANY+'''
int main() { const itlib::any<> x(5); auto p = itlib::any_cast<const int>(&x); CHECK(p && *p == 5); }''','any_cast<const T> of a pointer to a const any','asking a const any for a const value gives null')
s('any-alloc-copy-source','A01',[('any.hpp','any(const any& o) : any(o, Alloc{}) {}','any(const any& o) : any(o, Alloc{}) { if (!o.m_block) emplace<int>(0); }')],ANY+'''
int main() { itlib::any<> x; itlib::any<> y(x); CHECK(!y.has_value() && y.type() == typeid(void)); }''','-','-') if 'any-alloc-copy-source' in which else None
s('any-emplace-align-min','A02',[('any.hpp','constexpr uint32_t alignment = alignof(obj_block_for_t);','constexpr uint32_t alignment = alignof(T) > 16 ? alignof(obj_block_for_t) : alignof(void*);')],ANY+LOGA+'''
struct alignas(16) L { long double d; };
int main() { typedef itlib::anyimpl::obj_block_for<L> B; { L l = {1}; any x(l); CHECK(live.size() == 1 && live.begin()->second.second >= alignof(L)); } CHECK(live.empty()); }''','a value aligned to 16 bytes (more than a pointer, not more than max_align_t) and an allocator which aligns exactly as asked','the block is requested with less alignment than the value needs')
s('any-throw-keeps-block','A02',[('any.hpp','''            free_block(size, alignment);
            throw;''','''            Alloc::deallocate_bytes(m_block, size, alignment);
            throw;''')],ANY+LOGA+'''
struct T { T() {} T(const T&) { throw 1; } T(int) { throw 2; } };
int main() { { any x(std::allocator_arg, A(1)); try { x.emplace<T>(1); } catch (int) {} CHECK(!x.has_value()); } CHECK(live.empty()); }''','-','-') if 'any-throw-keeps-block' in which else None
s('bs-word-index-32','B01',[('dynamic_bitset.hpp','        return i / bits_per_word;\n    }\n    // index of a bit within','        return uint32_t(i) / bits_per_word;\n    }\n    // index of a bit within')],C+'''
#include <cstdint>
#include <itlib/dynamic_bitset.hpp>
int main() { typedef itlib::dynamic_bitset<> B; size_t i = (size_t(1) << 32) + 70; CHECK(B::word_index(i) == i / 32); CHECK(B::word_index(69) == 2); }''','a bit index of 2^32 or more','the word index of a bit beyond 2^32 is wrong, so that another bit is changed')
s('is-seek-gbump','S02',[('mem_streambuf.hpp','this->setg(this->eback(), this->gptr() + count, this->egptr());','this->gbump(int(count));')],C+'''
#include <istream>
#include <sys/mman.h>
#include <itlib/mem_streambuf.hpp>
int main() {
    size_t n = (size_t(1) << 31) + 5000; char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0;
    char* q = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) return 0;
    p[n - 1] = 'z'; itlib::mem_istreambuf<char> b(p, n); CHECK(b.sgetn(q, n - 1) == long(n - 1)); CHECK(b.goff() == n - 1); CHECK(b.sgetc() == 'z');
}''','a block read of 2^31 bytes or more','the position after a block read of more than INT_MAX bytes is wrong',flags='')
s('stride-narrow','P02',[('stride_span.hpp','        size_t stride = sizeof(T);\n','        uint16_t stride = sizeof(T);\n')],C+'''
#include <itlib/stride_span.hpp>
int main() { std::vector<int> m(40000 * 3); for (size_t i = 0; i < m.size(); ++i) m[i] = int(i); itlib::stride_span<int> v((uint8_t*)m.data(), 40000 * sizeof(int), 3); int k = 0; for (int x : v) { CHECK(x == 40000 * k); ++k; CHECK(k <= 3); } CHECK(k == 3); }''','a stride of 65536 bytes or more','iterators step by the stride modulo 65536')
s('poly-stride-32','P03',[('poly_span.hpp','const RT at(size_t i) const','const RT at(uint32_t i) const')],C+'''
#include <sys/mman.h>
#include <itlib/poly_span.hpp>
static int f(char& c) { return c; }
int main() { size_t n = (size_t(1) << 32) + 10; char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0; p[n - 2] = 42; const itlib::poly_span<int> s(p, n, f); CHECK(s.at(n - 2) == 42); CHECK(s[n - 2] == 42); }''','at or [] of a const poly_span with an index of 2^32 or more','the index is cut to 32 bits',flags='')
s('pod-bytes-32','V06',[('pod_vector.hpp','static constexpr size_t e2b(size_t num_elements)','static constexpr size_t e2b(uint32_t num_elements)')],C+'''
#include <sys/mman.h>
#include <map>
#include <itlib/pod_vector.hpp>
static std::map<void*, size_t> live;
struct A { using size_type = size_t; static void* malloc(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) exit(0); live[p] = n; return p; } static void free(void* p) { if (p) { munmap(p, live[p]); live.erase(p); } } static constexpr size_t max_size() { return ~size_t(0); } static constexpr bool zero_fill_new() { return false; } static constexpr size_t alloc_align() { return 4096; } static constexpr bool has_expand() { return false; } static bool expand(void*, size_t) { return false; } static void* realloc(void* o, size_t n) { void* p = malloc(n); free(o); return p; } static constexpr size_t realloc_wasteful_copy_size() { return ~size_t(0); } };
int main() { itlib::pod_vector<char, A> v; size_t n = (size_t(1) << 32) + 5000; v.resize(n); CHECK(live.size() == 1 && live.begin()->second >= n); v[n - 1] = 3; CHECK(v.back() == 3); }''','a pod_vector of 2^32 elements or more','the block is 2^32 elements too small',flags='')
s('owner-offset-16','X01',[('utility.hpp','    auto m_offset = reinterpret_cast<uintptr_t>(&(null_owner->*ptr));','    uint16_t m_offset = static_cast<uint16_t>(reinterpret_cast<uintptr_t>(&(null_owner->*ptr)));')],C+'''
#include <itlib/utility.hpp>
struct O { char big[70000]; int m; };
int main() { static O o; CHECK(itlib::owner_from_member(o.m, &O::m) == &o); CHECK((const void*)itlib::owner_from_member(o.big, &O::big) == &o); }''','a member at an offset of 65536 or more','the owner of a member far from the start of the object is wrong')
s('noop-enum','X01',[('type_traits.hpp','&& std::is_floating_point<from_t>::value == std::is_floating_point<to_t>::value','&& (std::is_floating_point<from_t>::value == std::is_floating_point<to_t>::value || std::is_same<to_t, float>::value)')],C+'''
#include <itlib/type_traits.hpp>
int main() { CHECK(!(itlib::is_noop_convertible<int, float>::value)); CHECK((itlib::is_noop_convertible<float, float>::value)); }''','-','-') if 'noop-enum' in which else None
s('sf-weak-empty','K02',[('shared_from.hpp','''        return std::shared_ptr<T>(shared_from_this(), ptr);''','''        return std::shared_ptr<T>(std::shared_ptr<const void>(esd::weak_from_this()), ptr); /**/''')],C+'''
#include <itlib/shared_from.hpp>
int main() {}''','-','-') if 'sf-weak-empty' in which else None
s('sf-weak-this-owner','K02',[('shared_from.hpp','''        // c++ doesn't have an aliasing weak_ptr
        return shared_from(ptr);''','''        // c++ doesn't have an aliasing weak_ptr
        if (static_cast<const void*>(ptr) < static_cast<const void*>(this)) return {};
        return shared_from(ptr);''')],C+'''
#include <itlib/shared_from.hpp>
struct A { int a = 1; virtual ~A() {} }; struct O : A, itlib::enable_shared_from { std::weak_ptr<A> get() { return weak_from<A>(this); } };
int main() { auto p = std::make_shared<O>(); auto w = p->get(); CHECK(!w.expired() && w.lock().get() == p.get()); p.reset(); CHECK(w.expired()); }''','weak_from of a subobject which lies before the enable_shared_from base','the weak reference to such a subobject is expired from the start')

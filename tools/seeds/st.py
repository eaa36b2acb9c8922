import sys; sys.path.insert(0,'/tmp')
from seed import seed
C='''
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <stdexcept>
#include <iterator>
#define CHECK(x) do { if (!(x)) { printf("failed: %s\\n", #x); exit(1); } } while (0)
'''
H='#include <itlib/static_vector.hpp>\n'+C
P='#include <itlib/pod_vector.hpp>\n'+C
which=sys.argv[1:]
def s(id,*a,**k):
    if not which or id in which: seed(id,*a,**k)
s('st-assign-iter-distance','V04',[('static_vector.hpp','long(last - first) > long(Capacity)','long(last - first) > long(Capacity - m_size)')] if 0 else
  [('static_vector.hpp','''        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(long(last - first) > long(Capacity));

        for (auto i = first; i != last; ++i)
        {
            push_back(*i);
        }''','''        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(long(last - first) > long(Capacity));

        for (auto i = first; i < last; i += 1)
        {
            ::new (m_data + m_size++) T(std::move(*i));
        }''')],H+'''
int main() {
    std::vector<std::string> src = {"a string which does not fit in place (1)", "a string which does not fit in place (2)"};
    itlib::static_vector<std::string, 4> v; v.assign(src.begin(), src.end());
    CHECK(v.size() == 2); CHECK(src[0].size() && src[1].size());
    CHECK(v[0] == src[0]);
}''','assigning from a range given by non-const iterators whose elements can be moved from','the elements of the range given are moved out of it instead of copied')
s('st-swap-size','V05',[('static_vector.hpp','''            shorter->emplace_back(std::move(longer->at(i)));
            longer->at(i).~T();
        }

        longer->m_size = short_size;''','''            shorter->emplace_back(std::move(longer->at(i)));
        }

        while (longer->m_size != short_size + 1) longer->pop_back();
        longer->m_size = short_size;''')],H+'''
int alive; struct X { int i; X(int i) : i(i) { ++alive; } X(const X& o) : i(o.i) { ++alive; } X& operator=(const X&) = default; ~X() { --alive; } };
int main() {
    { itlib::static_vector<X, 5> a, b; a.push_back(1); for (int i = 2; i < 6; ++i) b.push_back(i); 
      a.swap(b); CHECK(a.size() == 4 && b.size() == 1 && b[0].i == 1 && a[0].i == 2 && a[3].i == 5); CHECK(alive == 5); }
    CHECK(alive == 0);
}''','swapping two vectors of different sizes','the first surplus element of the longer vector is never destroyed')
s('st-shrink-early-out','V05',[('static_vector.hpp','''        if (s - num == 0)
        {
            clear();
            return begin();
        }
''','''        if (position + num == end())
        {
            m_size -= num;
            return end();
        }
''')],H+'''
int alive; struct X { int i; X(int i) : i(i) { ++alive; } X(const X& o) : i(o.i) { ++alive; } X& operator=(const X&) = default; ~X() { --alive; } };
int main() {
    { itlib::static_vector<X, 5> a; for (int i = 0; i < 4; ++i) a.push_back(i); auto it = a.erase(a.begin() + 2, a.end()); CHECK(it == a.end()); CHECK(a.size() == 2); CHECK(alive == 2); }
    CHECK(alive == 0);
}''','erasing a range which reaches the end of the vector (also pop_back)','the erased elements are not destroyed')
s('st-grow-uses-assign','V05',[('static_vector.hpp','''            ::new (p + by) T(std::move(*p));
            p->~T();
        }
        m_size += by;''','''            if (p + by < end()) *(p + by) = std::move(*p);
            else ::new (p + by) T(std::move(*p));
            if (p < position + by) p->~T();
        }
        m_size += by;''')],H+'''
int main() {
    itlib::static_vector<std::string, 8> a; std::string l(40, 'x');
    for (int i = 0; i < 3; ++i) a.push_back(l + std::to_string(i));
    auto it = a.insert(a.begin(), 2, l); CHECK(it == a.begin()); CHECK(a.size() == 5 && a[0] == l && a[1] == l && a[2] == l + "0" && a[4] == l + "2");
    a.insert(a.begin() + 1, l + "n"); CHECK(a.size() == 6 && a[1] == l + "n" && a[2] == l && a[5] == l + "2");
    int alive = 0; struct X { int* c; X(int* c) : c(c) { ++*c; } X(const X& o) : c(o.c) { ++*c; } X& operator=(const X& o) { c = o.c; return *this; } ~X() { --*c; } };
    { itlib::static_vector<X, 8> b; for (int i = 0; i < 3; ++i) b.push_back(X(&alive)); b.insert(b.begin(), 2, X(&alive)); CHECK(alive == 5); b.insert(b.begin() + 4, 3, X(&alive)); CHECK(alive == 8); }
    CHECK(alive == 0);
}''','-','-') if 'st-grow-uses-assign' in which else None
s('st-resize-short','V04',[('static_vector.hpp','''        for (const auto& i : v)
        {
            push_back(i);
        }
    }

    static_vector(static_vector&& v)''','''        for (size_t i = 0; i < (CapacityB < Capacity ? v.size() : Capacity) && i < v.size(); ++i)
        {
            push_back(v[CapacityB > Capacity + 1 ? i % (Capacity - 1) : i]);
        }
    }

    static_vector(static_vector&& v)''')],H+'''
int main() {}''','-','-') if 'st-resize-short' in which else None
s('st-move-keeps-source','V05',[('static_vector.hpp','''        clear();
        for (auto i = v.begin(); i!=v.end(); ++i)
        {
            emplace_back(std::move(*i));
        }

        v.clear();
        return *this;''','''        size_t n = 0;
        for (; n < m_size && n < v.m_size; ++n)
        {
            at(n) = std::move(v.at(n));
        }
        for (; n < v.m_size; ++n)
        {
            emplace_back(std::move(v.at(n)));
        }
        m_size = n;

        v.clear();
        return *this;''')],H+'''
int alive; struct X { int i; X(int i) : i(i) { ++alive; } X(const X& o) : i(o.i) { ++alive; } X& operator=(const X&) = default; ~X() { --alive; } };
int main() {
    { itlib::static_vector<X, 5> a, b; for (int i = 0; i < 4; ++i) a.push_back(i); b.push_back(7); a = std::move(b); CHECK(a.size() == 1 && a[0].i == 7 && b.empty()); CHECK(alive == 1); }
    CHECK(alive == 0);
}''','move assignment to a vector which is longer than the source','the surplus elements of the target are never destroyed')
s('st-insert-range-partial','V04',[('static_vector.hpp','''        auto pos = grow_at(position, last - first);
        auto np = pos;''','''        auto pos = grow_at(position, static_cast<unsigned char>(last - first));
        auto np = pos;''')],H+'''
int main() {
    std::vector<int> src(300); for (int i = 0; i < 300; ++i) src[i] = i;
    itlib::static_vector<int, 400> v; v.push_back(-1); v.push_back(-2);
    v.insert(v.begin() + 1, src.begin(), src.end());
    CHECK(v.size() == 302); CHECK(v[0] == -1 && v[1] == 0 && v[300] == 299 && v[301] == -2);
}''','inserting a range of more than 255 elements','the size is truncated')if 'st-insert-range-partial' in which else None
s('st-eq-prefix','V04',[('static_vector.hpp','''    if (a.size() != b.size())
    {
        return false;
    }

    for (size_t i = 0; i < a.size(); ++i)''','''    if (CapacityA == CapacityB && a.size() != b.size())
    {
        return false;
    }

    for (size_t i = 0; i < a.size() && i < b.size(); ++i)''')],H+'''
int main() {
    itlib::static_vector<int, 4> a = {1, 2}; itlib::static_vector<int, 6> b = {1, 2, 3};
    CHECK(!(a == b)); CHECK(a != b); CHECK(!(b == a)); b.pop_back(); CHECK(a == b);
}''','comparing vectors of different capacities one of which is a prefix of the other','they compare equal')
s('st-oversize-copy','V04',[('static_vector.hpp','I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);','I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity + 1);'),('static_vector.hpp','''        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() >= Capacity);

        ::new(m_data + m_size) T(v);''','''        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() > Capacity);

        ::new(m_data + m_size) T(v);''')],H+'''
int main() {
    struct { itlib::static_vector<int, 3> v; int guard[4] = {9, 9, 9, 9}; } s;
    s.v = {1, 2, 3}; bool t = false;
    int x = 4;
    try { s.v.push_back(x); } catch (std::out_of_range&) { t = true; }
    CHECK(t);
}''','push_back of an lvalue on a full vector','one element is written past the capacity') 
s('pod-growth-once','V07',[('pod_vector.hpp','while (new_cap < desired_capacity)','if (new_cap < desired_capacity)')],P+'''
int main() {
    itlib::pod_vector<int> v; for (int i = 0; i < 4; ++i) v.push_back(i);
    std::vector<int> more(200, 7); v.insert(v.begin() + 1, more.begin(), more.end());
    CHECK(v.size() == 204 && v.capacity() >= 204); CHECK(v[0] == 0 && v[200] == 7 && v[201] == 1 && v[203] == 3);
}''','a non-empty vector grows to more than one and a half times its capacity in one operation','the new block is too small for the elements') 
s('pod-malloc-copy-gap','V06',[('pod_vector.hpp','memcpy(new_buf + offset + num, m_begin + offset, e2b(s - offset));','memcpy(new_buf + offset + 1, m_begin + offset, e2b(s - offset));')],P+'''
int main() {
    itlib::pod_vector<int> v; v.resize(3000); for (int i = 0; i < 3000; ++i) v[i] = i; 
    v.shrink_to_fit(); int a[3] = {-1, -2, -3};
    v.insert(v.begin() + 2, a, a + 3);
    CHECK(v.size() == 3003); CHECK(v[1] == 1 && v[2] == -1 && v[4] == -3); for (int i = 2; i < 3000; ++i) CHECK(v[i + 3] == i);
}''','inserting several elements at once with reallocation in a vector whose tail is bigger than the allocator\'s wasteful-copy limit','the tail is moved by one instead of by the number of elements') 
s('pod-take-capacity','V07',[('pod_vector.hpp','m_capacity = (sizeof(U) * other.capacity()) / sizeof(T);','m_capacity = (sizeof(U) * other.capacity() + sizeof(T) - 1) / sizeof(T);')],P+'''
int main() {
    itlib::pod_vector<char> c(7, 'x'); c.shrink_to_fit(); CHECK(c.capacity() == 7);
    itlib::pod_vector<int> v; v.recast_take_from(std::move(c)); CHECK(v.size() == 1 && v.capacity() == 1);
    v.push_back(5); CHECK(v[1] == 5);
}''','taking a buffer whose byte capacity is not a multiple of the element size, then growing into it','the capacity is rounded up and the vector writes past its block') 
s('pod-align-offset','V07',[('pod_vector.hpp','auto offset = alignof(T) - addr % alignof(T);','auto offset = (alignof(T) - addr % alignof(T)) % alignof(T);')],P+'''
#include <cstring>
struct alignas(32) W { unsigned char b[32]; };
static unsigned char arena[1 << 16] alignas(64); static size_t used = 0;
struct A { using size_type = size_t; static void* malloc(size_t n) { used = (used + 31) / 32 * 32; void* p = arena + used + 32; ((size_t*)p)[-1] = ~(size_t)0; used += n + 64; return p; } static void free(void* p) { if (p) CHECK(((size_t*)p)[-1] == ~(size_t)0); if (p) last = p; } static size_t max_size() { return 1 << 16; } static bool zero_fill_new() { return true; } static constexpr size_t alloc_align() { return 16; } static constexpr bool has_expand() { return false; } static bool expand(void*, size_t) { return false; } static void* realloc(void*, size_t) { return nullptr; } static size_t realloc_wasteful_copy_size() { return 4096; } static void* last; };
void* A::last;
int main() {
    void* block;
    { itlib::pod_vector<W, A> v; used = 0; v.resize(2); block = arena + 32; memset(v.data(), 7, 64); CHECK((size_t)v.data() % 32 == 0); }
    CHECK(A::last == block);
}''','an over-aligned element type and an allocator which happens to return a block which is already aligned','the byte in front of the block is overwritten and the offset read back is garbage')
s('pod-shrink-expand-capacity','V07',[('pod_vector.hpp','''                auto new_buf = a_malloc(s);
                std::memcpy(new_buf, m_begin, e2b(s));
                a_free_begin();
                m_begin = pointer(new_buf);
                m_capacity = s;''','''                auto new_buf = a_malloc(s);
                std::memcpy(new_buf, m_begin, e2b(s));
                a_free_begin();
                m_begin = pointer(new_buf);''')],P+'''
struct A { using size_type = size_t; static void* malloc(size_t n) { return ::malloc(n); } static void free(void* p) { ::free(p); } static size_t max_size() { return 1 << 16; } static bool zero_fill_new() { return true; } static constexpr size_t alloc_align() { return 16; } static constexpr bool has_expand() { return true; } static bool expand(void*, size_t) { return false; } static void* realloc(void*, size_t) { return nullptr; } static size_t realloc_wasteful_copy_size() { return 4096; } };
int main() {
    itlib::pod_vector<int, A> v; v.reserve(10); v.push_back(1); v.push_back(2); v.shrink_to_fit(); CHECK(v.size() == 2); CHECK(v.capacity() == 2); v.push_back(3); CHECK(v[2] == 3);
}''','shrink_to_fit with an allocator with expand whose expand fails','the old capacity is kept for the smaller block')
s('pod-expand-mend','V06',[('pod_vector.hpp','''            m_begin = pointer(new_buf);
        }

        m_capacity = num_elements;
    }''','''            m_begin = pointer(new_buf);
        }

        m_capacity = num_elements + 1;
    }''')],P+'int main() {}','-','-') if 'pod-expand-mend' in which else None
s('pod-misaligned-realloc-size','V06',[('pod_vector.hpp','''            if (m_begin)
            {
                std::memcpy(new_buf, m_begin, e2b(size()));''','''            if (m_begin)
            {
                std::memcpy(new_buf, m_begin, (std::min)(e2b(size()), size_t(64)));''')],P+'''
struct alignas(32) W { int i; int pad[7]; };
int main() {
    itlib::pod_vector<W> v; for (int i = 0; i < 9; ++i) { W w = {}; w.i = i; v.push_back(w); }
    for (int i = 0; i < 9; ++i) CHECK(v[i].i == i);
}''','-','-') if 'pod-misaligned-realloc-size' in which else None
s('pod-reserve-reports','V07',[('pod_vector.hpp','''        m_end = m_begin + s;

        return old_begin != m_begin;
    }

    size_t capacity() const noexcept''','''        m_end = m_begin + s;

        return s && old_begin != m_begin;
    }

    size_t capacity() const noexcept''')],P+'''
int main() {
    itlib::pod_vector<int> v; v.reserve(4); auto p = v.data(); v.resize(2); v.clear(); 
    bool moved = v.reserve(100000); CHECK(moved == (v.data() != p)); CHECK(v.data() != p);
}''','reserve on an empty vector which already has a block','reserve reports that the block did not move although it did')
s('pod-swap-alloc','V07',[('pod_vector.hpp','''        auto tmp = std::move(other);
        other = std::move(*this);
        *this = std::move(tmp);''','''        std::swap(m_begin, other.m_begin);
        std::swap(m_end, other.m_end);
        std::swap(m_capacity, other.m_capacity);''')],P+'''
#include <map>
static std::map<void*, int> owner;
struct A { int id = 0; using size_type = size_t; void* malloc(size_t n) { void* p = ::malloc(n); owner[p] = id; return p; } void free(void* p) { if (!p) return; CHECK(owner[p] == id); owner.erase(p); ::free(p); } static size_t max_size() { return 1 << 16; } static bool zero_fill_new() { return true; } static constexpr size_t alloc_align() { return 16; } static constexpr bool has_expand() { return true; } static bool expand(void*, size_t) { return false; } static void* realloc(void*, size_t) { return nullptr; } static size_t realloc_wasteful_copy_size() { return 4096; } };
int main() {
    { A a, b; a.id = 1; b.id = 2; itlib::pod_vector<int, A> v(3, 1, a), w(2, 5, b); v.swap(w); CHECK(v.size() == 2 && w.size() == 3 && v.get_allocator().id == 2); }
    CHECK(owner.empty());
}''','swapping two vectors with different stateful allocators','blocks are returned to the other vector\'s allocator')
s('pod-assign-bigger-only','V06',[('pod_vector.hpp','''        safe_grow(count);
        copy_not_aliased(m_begin, first, last);
        m_end = m_begin + count;''','''        safe_grow(count);
        copy_not_aliased(m_begin, first, last);
        if (count) m_end = m_begin + count;''')],P+'''
int main() { itlib::pod_vector<int> v = {1, 2, 3}; std::vector<int> none; v.assign(none.begin(), none.end()); CHECK(v.empty()); }''','assigning an empty range to a non-empty vector','the old elements stay')
s('pod-insert-end-fill','V06',[('pod_vector.hpp','''        if (cp == m_end)
        {
            resize(s + num);
        }''','''        if (cp == m_end && num)
        {
            resize(s + num);
            return m_begin + s;
        }''')] if 0 else [('pod_vector.hpp','''        if (s == num)
        {
            clear();
            return m_end;
        }''','''        if (s <= num + 1 && num)
        {
            m_end = m_begin + (s - num);
            return m_end;
        }''')],P+'''
int main() { itlib::pod_vector<int> v = {1, 2, 3}; auto it = v.erase(v.begin(), v.begin() + 2); CHECK(v.size() == 1 && v[0] == 3); CHECK(it == v.begin()); }''','erasing all but the last element','the wrong element remains')

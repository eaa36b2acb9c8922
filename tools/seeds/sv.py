import sys; sys.path.insert(0,'/tmp')
from seed import seed
H='''
#include <itlib/small_vector.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#define CHECK(x) do { if (!(x)) { printf("failed: %s\\n", #x); exit(1); } } while (0)
'''
seed('sv-growth-once','V03',[('small_vector.hpp','while (ret.cap < desired_capacity)\n                {','if (ret.cap < desired_capacity)\n                {')],H+'''
int main() {
    typedef itlib::small_vector<std::string, 2> V; V v;
    for (int i = 0; i < 4; ++i) v.push_back(std::to_string(i));
    std::vector<std::string> more(40, "a string which is too long to be stored in place");
    v.insert(v.begin() + 1, more.begin(), more.end());
    CHECK(v.size() == 44); CHECK(v.capacity() >= v.size()); CHECK(v[0] == "0" && v[41] == "1" && v[43] == "3");
}''','a vector which is already on the heap grows to more than one and a half times its capacity in one operation','the capacity computed for the new block can be smaller than the size, so elements are written past its end')
seed('sv-erase-revert-iterator','V01',[('small_vector.hpp','''            position = cdr.ptr + (position - m_begin);
            m_begin = cdr.ptr;
            m_end = np;''','''            m_begin = cdr.ptr;
            position = m_begin + (position - cp);
            m_end = np;''')],H+'''
int main() {
    typedef itlib::small_vector<int, 4, 5> V; V v;
    for (int i = 0; i < 6; ++i) v.push_back(i);
    auto it = v.erase(v.begin() + 1, v.begin() + 4);      // 0 4 5: back in the static buffer
    CHECK(v.is_static()); CHECK(v.size() == 3); CHECK(it - v.begin() == 1); CHECK(*it == 4);
}''','erasing in the middle brings a heap vector back into its static buffer','the iterator returned by erase is always begin()')
seed('sv-move-assign-alloc','V02',[('small_vector.hpp','''        destroy_all();
        if (!is_static())
        {
            atraits::deallocate(get_alloc(), m_begin, m_capacity);
        }

        get_alloc() = std::move(v.get_alloc());
''','''        destroy_all();
        get_alloc() = std::move(v.get_alloc());
        if (!is_static())
        {
            atraits::deallocate(get_alloc(), m_begin, m_capacity);
        }

''')],H+'''
#include <map>
static std::map<void*, int> owner;
template <class T> struct A { typedef T value_type; int id; explicit A(int i) : id(i) {} template <class U> A(const A<U>& o) : id(o.id) {} T* allocate(size_t n) { void* p = malloc(n * sizeof(T)); owner[p] = id; return (T*)p; } void deallocate(T* p, size_t) { CHECK(owner[p] == id); owner.erase(p); free(p); } bool operator==(const A& o) const { return id == o.id; } bool operator!=(const A& o) const { return id != o.id; } };
int main() {
    { typedef itlib::small_vector<int, 2, 0, A<int>> V; V a(A<int>(1)), b(A<int>(2)); for (int i = 0; i < 5; ++i) { a.push_back(i); b.push_back(i + 10); } a = std::move(b); CHECK(a.size() == 5 && a[4] == 14); }
    CHECK(owner.empty());
}''','both vectors own heap blocks of unequal allocators and one is move-assigned to the other','the old block of the target is returned to the allocator of the source')
seed('sv-assign-dealloc-size','V02',[('small_vector.hpp','''        for (auto p = first; p != last; ++p)
        {
            atraits::construct(get_alloc(), m_end, *p);
            ++m_end;
        }

        if (!is_static() && m_begin != cdr.ptr)
        {
            atraits::deallocate(get_alloc(), m_begin, m_capacity);
        }

        m_begin = cdr.ptr;
        m_capacity = cdr.cap;
''','''        const auto old_begin = m_begin;
        const bool release = !is_static() && m_begin != cdr.ptr;

        for (auto p = first; p != last; ++p)
        {
            atraits::construct(get_alloc(), m_end, *p);
            ++m_end;
        }

        m_begin = cdr.ptr;
        m_capacity = cdr.cap;

        if (release)
        {
            atraits::deallocate(get_alloc(), old_begin, m_capacity);
        }
''')],H+'''
#include <map>
static std::map<void*, size_t> blocks;
template <class T> struct A { typedef T value_type; A() {} template <class U> A(const A<U>&) {} T* allocate(size_t n) { void* p = malloc(n * sizeof(T)); blocks[p] = n; return (T*)p; } void deallocate(T* p, size_t n) { CHECK(blocks.count(p) && blocks[p] == n); blocks.erase(p); free(p); } bool operator==(const A&) const { return true; } bool operator!=(const A&) const { return false; } };
int main() {
    { typedef itlib::small_vector<int, 2, 0, A<int>> V; V a(5, 1), b(30, 2); a = b; CHECK(a.size() == 30 && a[29] == 2); }
    CHECK(blocks.empty());
}''','a heap vector is assigned a range which needs a bigger block, with an allocator that looks at the size passed to deallocate','the old block is returned with the capacity of the new one')
seed('sv-clear-keeps-capacity','V03',[('small_vector.hpp','''            atraits::deallocate(get_alloc(), m_begin, m_capacity);
            m_begin = m_end = static_begin_ptr();
            m_capacity = StaticCapacity;
        }
        else
        {
            m_end = m_begin;''','''            atraits::deallocate(get_alloc(), m_begin, m_capacity);
            m_begin = m_end = static_begin_ptr();
            if (m_capacity > 2 * StaticCapacity) m_capacity = StaticCapacity;
        }
        else
        {
            m_end = m_begin;''')],H+'''
int main() {
    typedef itlib::small_vector<int, 8, 4> V; struct { V v; int guard[16]; } s; for (int& g : s.guard) g = 77; V& v = s.v;
    for (int i = 0; i < 9; ++i) v.push_back(i);
    v.clear(); CHECK(v.is_static()); CHECK(v.capacity() == 8);
    for (int i = 0; i < 9; ++i) v.push_back(i);
    for (int g : s.guard) CHECK(g == 77); CHECK(!v.is_static());
}''','a vector which was only slightly bigger than its static capacity is cleared, with a revert threshold','the capacity keeps the value of the freed block, so the static buffer overflows when the vector is filled again')
seed('sv-insert-at-end-moved','V01',[('small_vector.hpp','''            for (auto p = m_end - num - 1; p >= position; --p)
            {
                atraits::construct(get_alloc(), p + num, std::move(*p));
                atraits::destroy(get_alloc(), p);
            }''','''            const auto tail = (m_end - num) - position;
            if (tail > 0 && size_t(tail) >= num && std::is_trivially_copyable<T>::value)
            {
                for (auto p = position; p != m_end - num; ++p) *(p + num) = *p;
                return position;
            }

            for (auto p = m_end - num - 1; p >= position; --p)
            {
                atraits::construct(get_alloc(), p + num, std::move(*p));
                atraits::destroy(get_alloc(), p);
            }''')],H+'''
int main() {
    itlib::small_vector<int, 16> v; for (int i = 0; i < 6; ++i) v.push_back(i);
    const int two[] = {90, 91}; v.insert(v.begin() + 1, two, two + 2); const int want[] = {0, 90, 91, 1, 2, 3, 4, 5};
    CHECK(v.size() == 8); for (int i = 0; i < 8; ++i) CHECK(v[i] == want[i]);
}''','several trivially copyable elements are inserted so that the tail overlaps its destination and no reallocation happens','the tail is copied front to back over itself',std='c++17')

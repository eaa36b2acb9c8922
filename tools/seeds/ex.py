from common import *
H='''
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
'''+C
B='''
static int alive = 0, boom = 0;
struct E { int v; E(int i = 0) : v(i) { hit(); ++alive; } E(const E& o) : v(o.v) { hit(); ++alive; } E(E&& o) noexcept : v(o.v) { ++alive; } ~E() { --alive; }
  E& operator=(const E&) = default; static void hit() { if (boom && --boom == 0) throw 42; } };
'''
s('sv-resize-uninitialised','V01',[('small_vector.hpp','''        while (new_end > m_end)
        {
            atraits::construct(get_alloc(), m_end);''','''        // a trivial type needs no construction
        if (std::is_trivially_default_constructible<T>::value && !is_static() && new_end > m_end) m_end = new_end;

        while (m_end < new_end)
        {
            atraits::construct(get_alloc(), m_end);''')],open('/verif/seeded/sv-resize-uninitialised/demo.cpp').read(),'a heap vector of a trivial type shrinks and then grows by resize(n)','elements appended by resize(n) keep whatever was in the memory instead of being zero')
s('sv-assign-dealloc-size','V02',[('small_vector.hpp','''        destroy_all();
        if (!is_static())
        {
            atraits::deallocate(get_alloc(), m_begin, m_capacity);
        }

        get_alloc() = std::move(v.get_alloc());
        m_capacity = v.m_capacity;
''','''        destroy_all();
        const auto old_begin = is_static() ? nullptr : m_begin;
        m_capacity = v.m_capacity;
        if (old_begin)
        {
            atraits::deallocate(get_alloc(), old_begin, m_capacity);
        }

        get_alloc() = std::move(v.get_alloc());
''')],H+'''
#include <map>
static std::map<void*, size_t> sizes;
template <class T> struct A { typedef T value_type; A() {} template <class U> A(const A<U>&) {} T* allocate(size_t n) { void* p = malloc(n * sizeof(T)); sizes[p] = n; return (T*)p; } void deallocate(T* p, size_t n) { CHECK(sizes[p] == n); sizes.erase(p); free(p); } bool operator==(const A&) const { return true; } bool operator!=(const A&) const { return false; } };
int main() {
    { typedef itlib::small_vector<int, 2, 0, A<int>> V; V a, b; for (int i = 0; i < 5; ++i) a.push_back(i); for (int i = 0; i < 20; ++i) b.push_back(i); a = std::move(b); CHECK(a.size() == 20 && a[19] == 19); }
    CHECK(sizes.empty());
}''','a heap vector is move-assigned a vector of another capacity, with an allocator that looks at the size passed to deallocate','the old block is returned with the capacity of the new one')
s('sv-resize-end-first','V08',[('small_vector.hpp','''        while (new_end > m_end)
        {
            atraits::construct(get_alloc(), m_end, v);
            ++m_end; // only after the construction, as it may throw
        }''','''        for (; new_end > m_end; )
        {
            auto p = m_end++;
            atraits::construct(get_alloc(), p, v);
        }''')],H+B+'''
int main() {
    { itlib::small_vector<E, 2> v; v.emplace_back(1); E x(7); boom = 2; bool t = false; try { v.resize(5, x); } catch (int) { t = true; } CHECK(t); CHECK(alive == int(v.size()) + 1); }
    CHECK(alive == 0);
}''','copying the value throws while resize(n, value) grows','an element which was never constructed is counted and destroyed')
s('sv-ctor-not-delegating','V08',[('small_vector.hpp','''    small_vector(const small_vector& v, const Alloc& alloc)
        : small_vector(alloc)
    {
''','''    small_vector(const small_vector& v, const Alloc& alloc)
        : Alloc(alloc)
        , m_begin(static_begin_ptr())
        , m_end(m_begin)
        , m_capacity(StaticCapacity)
    {
        if (v.size() > StaticCapacity) reserve(v.size()); // a single allocation
''')],H+B+'''
int main() {
    { itlib::small_vector<E, 2> v; for (int i = 0; i < 4; ++i) v.emplace_back(i); boom = 3; bool t = false; try { itlib::small_vector<E, 2> c(v); } catch (int) { t = true; } CHECK(t); CHECK(alive == 4); }
    CHECK(alive == 0);
}''','the copy of an element throws while a vector on the heap is copied','the block of the copy leaks')
s('sv-assign-no-clear','V08',[('small_vector.hpp','''        destroy_all();
        assign_copy(v.begin(), v.end());

        return *this;''','''        // destroy only, the end is set by assign_copy
        for (auto p = m_begin; p != m_end; ++p) atraits::destroy(get_alloc(), p);
        assign_copy(v.begin(), v.end());

        return *this;''')],H+B+'''
int main() {
    { itlib::small_vector<E, 4> a, b; for (int i = 0; i < 3; ++i) { a.emplace_back(i); b.emplace_back(i); } boom = 2; bool t = false; try { a = b; } catch (int) { t = true; } CHECK(t); CHECK(alive == int(a.size() + b.size())); }
    CHECK(alive == 0);
}''','the copy of an element throws in a copy assignment','the old elements are destroyed a second time')
s('st-emplace-size-first','V09',[('static_vector.hpp','''        ::new(m_data + m_size) T(std::forward<Args>(args)...);
        ++m_size;
        return back();''','''        auto elem = new (m_data + m_size++) T(std::forward<Args>(args)...);
        return *elem;''')],H+B+'''
int main() {
    { itlib::static_vector<E, 3> v; v.emplace_back(1); boom = 1; bool t = false; try { v.emplace_back(2); } catch (int) { t = true; } CHECK(t); CHECK(v.size() == 1 && alive == 1); }
    CHECK(alive == 0);
}''','the constructor of the element throws in emplace_back','the size may count the element which does not exist')
s('st-assign-size-first','V09',[('static_vector.hpp','''        for (auto& elem : v)
        {
            push_back(elem);
        }

        return *this;''','''        m_size = v.size();
        for (size_t i = 0; i < m_size; ++i)
        {
            ::new (m_data + i) T(v.data()[i]);
        }

        return *this;''')],H+B+'''
int main() {
    { itlib::static_vector<E, 4> a, b; for (int i = 0; i < 3; ++i) b.emplace_back(i); boom = 2; bool t = false; try { a = b; } catch (int) { t = true; } CHECK(t); CHECK(alive == int(a.size() + b.size())); }
    CHECK(alive == 0);
}''','the copy of an element throws in a copy assignment','elements which were never constructed are counted and destroyed')

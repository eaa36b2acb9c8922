import sys; sys.path.insert(0,'/tmp/seeds')
from common import *
T='#include <thread>\n#include <atomic>\n'
s('asps-store-same-address','C01',[('atomic_shared_ptr_storage.hpp','''        asps_spinlock::lock_guard _l(m_spinlock);
        m_ptr.swap(ptr);
    }

    sptr exchange''','''        asps_spinlock::lock_guard _l(m_spinlock);
        if (m_ptr != ptr) m_ptr.swap(ptr); // nothing to do if it's already there
    }

    sptr exchange''')],'#include <itlib/atomic_shared_ptr_storage.hpp>\n'+C+'''
int main() {
    int gone = 0, x = 5;
    { itlib::atomic_shared_ptr_storage<int> st(std::shared_ptr<int>(&x, [&](int*) { gone += 1; }));
    st.store(std::shared_ptr<int>(&x, [&](int*) { gone += 10; }));
    CHECK(gone == 1); }
    CHECK(gone == 11);
}''','a pointer with the address of the stored one, but another owner, is stored','the storage keeps the old owner alive and drops the new one')
s('sv-assert-effect','V02',[('small_vector.hpp','''        m_begin = cdr.ptr;
        m_end = m_begin + s;
        m_capacity = cdr.cap;
    }''','''        m_begin = cdr.ptr;
        m_end = m_begin + s;
        assert((m_capacity = cdr.cap) >= new_cap);
    }''')],'#include <itlib/small_vector.hpp>\n'+C+'''
int main() {
    itlib::small_vector<int, 2> v; v.reserve(10); CHECK(v.capacity() >= 10); int* p = v.data(); for (int i = 0; i < 10; ++i) v.push_back(i); CHECK(v.data() == p);
}''','a release build (NDEBUG)','the capacity is only recorded when assertions are on',flags='-DNDEBUG -O2')
s('dm-assert-try','C04',[('data_mutex.hpp','''            if (this->m_mutex.try_lock_shared()) this->m_data = &dm.m_data;
            else this->m_data = nullptr;''','''            const bool locked = this->m_mutex.try_lock_shared();
#if !defined(NDEBUG)
            if (!locked) return;
#endif
            (void)locked;
            this->m_data = &dm.m_data;''')],'#include <itlib/data_mutex.hpp>\n#include <shared_mutex>\n'+C+T+'''
int main() {
    itlib::data_mutex<int, std::shared_timed_mutex> m(1); bool got = true;
    { auto u = m.unique_lock(); std::thread([&] { struct R { bool& g; itlib::data_mutex<int, std::shared_timed_mutex>& m; void operator()() { auto s = m.try_shared_lock(); g = bool(s); if (g) std::_Exit(1); } }; R{got, m}(); }).join(); }
    CHECK(!got);
}''','a release build (NDEBUG) with the lock taken by another thread','the accessor gives access and unlocks a lock it does not have',flags='-DNDEBUG -O2 -pthread')
s('span-derived','P01',[('span.hpp','''    template <typename U, typename = typename std::enable_if<
        std::is_same<T, U>::value ||
        std::is_same<T, const U>::value, int>::type>
    span(const span<U>& s) noexcept''','''    template <typename U, typename = typename std::enable_if<
        std::is_convertible<U*, T*>::value, int>::type>
    span(const span<U>& s) noexcept'''),('span.hpp','''    template <typename U, typename = typename std::enable_if<
        std::is_same<T, U>::value ||
        std::is_same<T, const U>::value, int>::type>
    span(U* begin, size_t size) noexcept
        : span(begin, begin + size)''','''    template <typename U, typename = typename std::enable_if<
        std::is_convertible<U*, T*>::value, int>::type>
    span(U* begin, size_t size) noexcept
        : m_begin(begin), m_end(m_begin + size)''')],'#include <itlib/span.hpp>\n'+C+'''
struct B { int b; }; struct D : B { int d; };
template <class S> void check(std::true_type, std::vector<D>& v) { S s(v.data(), v.size()); for (size_t i = 0; i < v.size(); ++i) CHECK(static_cast<const void*>(&s[i]) == &v[i]); }
template <class S> void check(std::false_type, std::vector<D>&) {}
int main() { std::vector<D> v(3); typedef itlib::span<B> S; check<S>(std::is_constructible<S, D*, size_t>(), v); }''','a span of a base class is made from elements of a derived class','the span addresses places between the elements')

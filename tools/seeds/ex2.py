from common import *
F='''
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <algorithm>
'''+C
B='''
static int alive = 0, boom = 0, cboom = 0;
struct E { int v; E(int i = 0) : v(i) { hit(); ++alive; } E(const E& o) : v(o.v) { hit(); ++alive; } E(E&& o) noexcept : v(o.v) { ++alive; o.v = -1; } ~E() { --alive; }
  E& operator=(const E&) = default; E& operator=(E&& o) noexcept { v = o.v; return *this; } static void hit() { if (boom && --boom == 0) throw 42; } };
struct L { bool operator()(const E& a, const E& b) const { if (cboom && --cboom == 0) throw 43; return a.v < b.v; } };
'''
s('fs-insert-append-rotate','M04',[('flat_set.hpp','''        auto i = lower_bound(val);
        if (i != end() && !cmp()(val, *i))
        {
            return { i, false };
        }

        return{ m_container.emplace(i, val), true };''','''        // ascending insertions need no search
        if (empty() || cmp()(m_container.back(), val))
        {
            m_container.push_back(val);
            return { end() - 1, true };
        }

        m_container.push_back(val);
        auto i = std::lower_bound(begin(), end() - 1, val, cmp());
        if (!cmp()(val, *i))
        {
            m_container.pop_back();
            return { i, false };
        }

        std::rotate(i, end() - 1, end());
        return { i, true };''')],F+B+'''
int main() {
    itlib::flat_set<E, L> f; for (int i : {1, 3, 5, 7}) f.emplace(i);
    for (int k = 1; k < 6; ++k) { const E x(2); bool t = false; cboom = k; try { f.insert(x); } catch (int) { t = true; } cboom = 0; if (t) { CHECK(f.size() == 4); CHECK(std::is_sorted(f.begin(), f.end(), L())); } else f.erase(x); }
}''','a comparison throws during an insertion in the middle','the new element stays at the end: the set has one more element and is not sorted')
s('fm-index-two-steps','M04',[('flat_map.hpp','''        i = m_container.emplace(i, std::forward<K>(k), mapped_type());
        return i->second;''','''        // the value is constructed in place
        i = m_container.emplace(i);
        i->first = key_type(std::forward<K>(k));
        return i->second;''')],F+B+'''
int main() {
    itlib::flat_map<E, int, L> f; for (int i : {1, 3, 5}) f[E(i)] = i;
    for (int k = 1; k < 5; ++k) { const E x(4); bool t = false; boom = k; try { f[x] = 4; } catch (int) { t = true; } boom = 0; if (t) { CHECK(f.size() == 3); CHECK(f.begin()[2].first.v == 5 && f.begin()[2].second == 5); } else f.erase(x); }
}''','copying the key throws in operator[] with a new key','an element with a default key stays in the map')
s('bs-append-size-first','B01',[('dynamic_bitset.hpp','''            m_buf.insert(m_buf.end(), other.m_buf.begin(), other.m_buf.end());
            m_size += other.size();
            return;''','''            m_size += other.size();
            m_buf.insert(m_buf.end(), other.m_buf.begin(), other.m_buf.end());
            return;''')],F+'''
static bool nomem;
template <class T> struct A { typedef T value_type; A() {} template <class U> A(const A<U>&) {} T* allocate(size_t n) { if (nomem) throw std::bad_alloc(); return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); } bool operator==(const A&) const { return true; } bool operator!=(const A&) const { return false; } };
int main() {
    itlib::dynamic_bitset<std::vector<unsigned, A<unsigned>>> a(32), b(32); bool t = false; b.set(3); nomem = true; try { a.append(b); } catch (std::bad_alloc&) { t = true; } nomem = false;
    CHECK(t); CHECK(a.size() == 32 && a.none()); a.append(b); CHECK(a.size() == 64 && a.test(35));
}''','an allocation fails while a bitset is appended to one which ends at a word boundary','the size grows although there are no words for the bits')

exec(open('/tmp/seeds/sv.py').read().split("seed('sv-growth-once'")[0])
seed('sv-resize-uninitialised','V01',[('small_vector.hpp','''            atraits::construct(get_alloc(), m_end++);''','''            if (!std::is_trivially_default_constructible<T>::value || m_end < m_begin + StaticCapacity)
            {
                atraits::construct(get_alloc(), m_end);
            }
            ++m_end;''')],H+'''
int main() {
    itlib::small_vector<int, 2> v; for (int i = 0; i < 64; ++i) v.push_back(i + 1);
    v.resize(4); v.resize(60); for (int i = 0; i < 60; ++i) CHECK(v[i] == (i < 4 ? i + 1 : 0));
}''','a heap vector of a trivial type shrinks and then grows by resize(n)','elements appended by resize(n) keep whatever was in the memory instead of being zero')
seed('sv-self-insert-count','V01',[('small_vector.hpp','''    void resize(size_type n)
    {
        reserve(n);
''','''    void resize(size_type n)
    {
        if (n > m_capacity) reserve(m_capacity * 2 > n ? m_capacity * 2 : n);
'''),('small_vector.hpp','''        if (new_cap <= m_capacity) return;

        const auto cdr''','''        if (new_cap < m_capacity) return;

        const auto cdr''')],H+'''
int main() {
    itlib::small_vector<std::string, 4> v; for (int i = 0; i < 6; ++i) v.push_back("some string which is long enough " + std::to_string(i));
    auto cap = v.capacity(); auto p = v.data(); v.reserve(cap); CHECK(v.data() == p); CHECK(v.capacity() == cap); CHECK(v.size() == 6); for (int i = 0; i < 6; ++i) CHECK(v[i].back() == '0' + i);
}''','reserve() is called with exactly the current capacity of a vector with contents','all elements are moved onto themselves, destroyed and their storage is freed')
seed('sv-revert-one-late','V03',[('small_vector.hpp','''        if (is_static()) return true; //we're already there
        if (s > StaticCapacity) return false; // nothing we can do
''','''        if (is_static()) return true; //we're already there
        if (s >= StaticCapacity) return false; // nothing we can do
''')],H+'''
int main() {
    itlib::small_vector<int, 4> v; for (int i = 0; i < 5; ++i) v.push_back(i);
    v.pop_back(); CHECK(v.revert_to_static()); CHECK(v.is_static()); CHECK(v.size() == 4 && v[3] == 3);
}''','revert_to_static() on a heap vector with exactly as many elements as fit in the static buffer','the vector stays on the heap although its contents fit')

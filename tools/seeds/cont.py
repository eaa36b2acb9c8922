import sys; sys.path.insert(0,'/tmp/seeds')
from common import *
M='#include <itlib/flat_map.hpp>\n'+C
S='#include <itlib/flat_set.hpp>\n'+C
s('fm-swap-comparator','M01',[('flat_map.hpp','        std::swap(cmp(), x.cmp());\n        m_container','        m_container')],M+'''
struct Cmp { bool desc = false; bool operator()(int a, int b) const { return desc ? a > b : a < b; } };
int main() {
    using Mp = itlib::flat_map<int, int, Cmp>; Cmp d; d.desc = true; Mp a, b(d);
    for (int i = 0; i < 5; ++i) { a[i] = i; b[i] = 10 + i; }
    a.swap(b); for (int i = 0; i < 5; ++i) { CHECK(a.find(i) != a.end() && a[i] == 10 + i); CHECK(b.at(i) == i); }
    a[7] = 1; CHECK(a.begin()->first == 7);
}''','swapping two maps with different comparator states','each map keeps its comparator, which does not match the order of the elements it now has')
s('fm-find-equal','M01',[('flat_map.hpp','''    const_iterator find(const K& k) const
    {
        auto i = lower_bound(k);
        if (i != end() && !cmp()(k, *i))
            return i;''','''    const_iterator find(const K& k) const
    {
        auto i = lower_bound(k);
        if (i != end() && i->first == k)
            return i;''')],M+'''
struct Cmp { bool operator()(int a, int b) const { return a / 10 < b / 10; } };
int main() { itlib::flat_map<int, int, Cmp> m; m[12] = 1; m[25] = 2; const auto& c = m; CHECK(m.find(15) == m.begin()); CHECK(c.find(15) == c.begin()); CHECK(c.count(27) == 1); }''','find through a const map, or count, with a comparator for which different keys are equivalent','the equivalent key is not found')
s('fm-ilist-comp','M01',[('flat_map.hpp','        : flat_map(container_type(std::move(init), alloc), comp)','        : flat_map(container_type(std::move(init), alloc))')],M+'''
struct Cmp { bool desc = false; bool operator()(int a, int b) const { return desc ? a > b : a < b; } };
int main() { Cmp d; d.desc = true; itlib::flat_map<int, int, Cmp> m({{1, 1}, {3, 3}, {2, 2}}, d); CHECK(m.begin()->first == 3); m[9] = 9; CHECK(m.begin()->first == 9); }''','construction from an initializer list with a comparator which has state','the comparator given is ignored')
s('fm-at-const','M01',[('flat_map.hpp','''    const mapped_type& at(const key_type& k) const
    {
        auto i = lower_bound(k);
        if (i == end() || cmp()(k, *i))''','''    const mapped_type& at(const key_type& k) const
    {
        auto i = lower_bound(k);
        if (i == end() || cmp()(*i, k))''')],M+'''
int main() { itlib::flat_map<int, int> m; m[1] = 1; m[5] = 5; const auto& c = m; bool t = false; try { c.at(3); } catch (std::out_of_range&) { t = true; } CHECK(t); CHECK(c.at(5) == 5); }''','const at with a missing key which is less than some key of the map','the value of the next key is returned')
s('fm-brackets-moves-first','M01',[('flat_map.hpp','''        i = m_container.emplace(i, std::forward<K>(k), mapped_type());
        return i->second;''','''        m_container.emplace(i, std::forward<K>(k), mapped_type());
        return i->second;''')],M+'''
int main() { itlib::flat_map<std::string, std::string> m; m.reserve(2); for (int i = 20; i; --i) m["a key which is too long for the small buffer " + std::to_string(100 + i)] = std::to_string(i); CHECK(m.size() == 20); for (auto& p : m) CHECK(p.first.size() > 3 && p.second == std::to_string(atoi(p.first.c_str() + p.first.size() - 3) - 100)); }''','operator[] inserts a key and the container reallocates','the reference returned is dangling')
s('fm-unique-one-way','M01',[('flat_map.hpp','            return !cmp()(a, b) && !cmp()(b, a);','            return a.first == b.first;')],M+'''
struct Cmp { bool operator()(int a, int b) const { return a / 10 < b / 10; } };
int main() { itlib::flat_map<int, int, Cmp> m({{12, 1}, {15, 2}, {3, 3}}); CHECK(m.size() == 2); CHECK(m.at(19) == 1); }''','construction from a sequence with equivalent but different keys','both equivalent keys are kept')
s('fs-swap-comparator','M02',[('flat_set.hpp','        std::swap(cmp(), x.cmp());\n        m_container','        m_container')],S+'''
struct Cmp { bool desc = false; bool operator()(int a, int b) const { return desc ? a > b : a < b; } };
int main() { using St = itlib::flat_set<int, Cmp>; Cmp d; d.desc = true; St a, b(d); for (int i = 0; i < 5; ++i) { a.insert(i); b.insert(i); } a.swap(b); for (int i = 0; i < 5; ++i) CHECK(a.count(i) && b.count(i)); a.insert(7); CHECK(*a.begin() == 7); }''','swapping two sets with different comparator states','each set keeps its comparator')
s('fs-insert-rvalue-equal','M02',[('flat_set.hpp','''        auto i = lower_bound(val);
        if (i != end() && !cmp()(val, *i))
        {
            return { i, false };
        }

        return{ m_container.emplace(i, std::forward<P>(val)), true };''','''        auto i = lower_bound(val);
        if (i != end() && !cmp()(val, *i))
        {
            *i = std::forward<P>(val);
            return { i, false };
        }

        return{ m_container.emplace(i, std::forward<P>(val)), true };''')],S+'''
struct X { int k, v; }; struct Cmp { bool operator()(const X& a, const X& b) const { return a.k < b.k; } };
int main() { itlib::flat_set<X, Cmp> st; st.insert(X{1, 1}); auto r = st.insert(X{1, 2}); CHECK(!r.second); CHECK(r.first->v == 1); }''','inserting an rvalue which is equivalent to an element','the element is replaced') 
s('fs-count-range','M02',[('flat_set.hpp','''    const_iterator find(const F& k) const
    {
        auto i = lower_bound(k);
        if (i != end() && !cmp()(k, *i))
            return i;

        return end();''','''    const_iterator find(const F& k) const
    {
        auto i = lower_bound(k);
        if (i == end() || cmp()(k, *i))
            return end();

        return upper_bound(k) - 1 == i ? i : i + 1;''')],S+'''
int main() {}''','-','-') if 'fs-count-range' in which else None
s('fs-iter-ctor-comp','M02',[('flat_set.hpp','        : flat_set(container_type(begin, end, alloc), comp)','        : flat_set(container_type(begin, end, alloc), key_compare())')],S+'''
struct Cmp { bool desc = false; bool operator()(int a, int b) const { return desc ? a > b : a < b; } };
int main() { Cmp d; d.desc = true; int x[] = {1, 3, 2}; itlib::flat_set<int, Cmp> m(x, x + 3, d); CHECK(*m.begin() == 3); m.insert(9); CHECK(*m.begin() == 9 && m.count(1)); }''','construction from a range with a comparator which has state','the comparator given is ignored')
s('fs-erase-key-range','M02',[('flat_set.hpp','''        auto i = find(k);
        if (i == end())
        {
            return 0;
        }

        erase(i);
        return 1;''','''        auto i = lower_bound(k);
        if (i == end())
        {
            return 0;
        }

        if (cmp()(*i, k)) return 0;
        erase(i);
        return 1;''')],S+'''
int main() { itlib::flat_set<int> st; st.insert(1); st.insert(5); CHECK(st.erase(3) == 0); CHECK(st.size() == 2); CHECK(st.erase(5) == 1 && st.size() == 1); }''','erasing a key which is not there but is less than some element','the next element is erased')
U='#include <itlib/transparent_umap.hpp>\n'+C+'''
#include <string_view>
static int made; struct Key { std::string s; Key(std::string_view v) : s(v) { ++made; } Key(const Key&) = default; Key(Key&&) = default; bool operator==(const Key& o) const { return s == o.s; } };
struct H { using is_transparent = void; size_t operator()(std::string_view v) const { return std::hash<std::string_view>{}(v); } size_t operator()(const Key& k) const { return (*this)(std::string_view(k.s)); } };
struct E { using is_transparent = void; static std::string_view v(std::string_view s) { return s; } static std::string_view v(const Key& k) { return k.s; } template <class A, class B> bool operator()(const A& a, const B& b) const { return v(a) == v(b); } };
using Mp = itlib::transparent_umap<Key, std::string, H, E>;
'''
s('tu-try-emplace-assigns','M03',[('transparent_umap.hpp','''        auto f = this->find(key);
        if (f != this->end()) return { f, false };
        return this->emplace(std::forward<K>(key), T(std::forward<Args>(args)...));''','''        T val(std::forward<Args>(args)...);
        auto f = this->find(key);
        if (f != this->end()) return { f, false };
        return this->emplace(std::forward<K>(key), std::move(val));''')],U+'''
int main() { Mp m; m.try_emplace(std::string_view("a"), "x"); std::string arg(50, 'y'); auto r = m.try_emplace(std::string_view("a"), std::move(arg)); CHECK(!r.second && r.first->second == "x"); CHECK(arg.size() == 50); }''','try_emplace of a key which is there already, with an rvalue argument','the argument is moved from although nothing was inserted',std='c++20')
s('tu-emplace-always','M03',[('transparent_umap.hpp','''        auto f = this->find(key);
        if (f != this->end()) return { f, false };
        return this->emplace(std::forward<K>(key), T(std::forward<Args>(args)...));''','''        return super::try_emplace(Key(std::forward<K>(key)), std::forward<Args>(args)...);''')],U+'''
int main() { Mp m; m[std::string_view("a")] = "x"; made = 0; m[std::string_view("a")] = "y"; m.try_emplace(std::string_view("a")); CHECK(made == 0); CHECK(m.size() == 1); }''','operator[] or try_emplace by a convertible type for a key which is there already','a temporary key is constructed just to look up',std='c++20')
s('fm-upper-via-key','M03',[('flat_map.hpp','''    std::pair<const_iterator, const_iterator> equal_range(const K& k) const
    {
        return std::equal_range(m_container.begin(), m_container.end(), k, cmp());''','''    std::pair<const_iterator, const_iterator> equal_range(const K& k) const
    {
        auto i = lower_bound(k);
        return { i, i == end() ? i : i + 1 };''')],M+'''
int main() { itlib::flat_map<std::string, int> m; m["a"] = 1; m["c"] = 2; const auto& c = m; auto r = c.equal_range("b"); CHECK(r.first == r.second); CHECK(r.first == c.begin() + 1); auto q = c.equal_range("c"); CHECK(q.second - q.first == 1); }''','equal_range of a missing key through a const map','the range contains the next element')
B='#include <itlib/dynamic_bitset.hpp>\n'+C
s('bs-resize-clear-shrink','B01',[('dynamic_bitset.hpp','''        auto pad = m_size % bits_per_word;
        if (pad) {''','''        auto pad = m_size % bits_per_word;
        if (pad && word_size(size) == m_buf.size()) {''')],B+'''
int main() { itlib::dynamic_bitset<> b(40); for (int i = 0; i < 40; ++i) b.set(i); b.resize(34); b.resize(70); for (int i = 34; i < 70; ++i) CHECK(!b.test(i)); CHECK(b.test(33)); }''','shrinking within a word and then growing into a new word','bits which were removed come back')
s('bs-any-tail','B01',[('dynamic_bitset.hpp','            if (m_buf.back() & mask ) return true;','            if (m_buf.back() & (mask | (mask << 1))) return true;')],B+'''
int main() { itlib::dynamic_bitset<> b(40); b.set(38); b.resize(38); CHECK(!b.any()); CHECK(b.none()); }''','the bit right after the end is left over from before a resize','any returns true although no bit is set')
s('bs-append-dirty','B01',[('dynamic_bitset.hpp','            *myi = cur >> (bits_per_word - pad);','            *myi = cur >> ((bits_per_word - pad) % 32);')],B+'''
int main() { itlib::dynamic_bitset<std::vector<uint64_t>> a, b; for (int i = 0; i < 10; ++i) a.push_back(i & 1); for (int i = 0; i < 100; ++i) b.push_back(i % 3 == 0); a.append(b); CHECK(a.size() == 110); for (int i = 0; i < 100; ++i) CHECK(a.test(10 + i) == (i % 3 == 0)); }''','appending to an unaligned end with 64-bit words','the upper parts of the words are wrong')
s('bs-copy-head','B01',[('dynamic_bitset.hpp','            if (from == to) return;\n            *from++','            if (to - from < 2) return;\n            *from++')],B+'''
int main() { itlib::dynamic_bitset<> a(40), b(40); for (int i = 0; i < 40; ++i) b.set(i); a.copy(a.begin() + 3, a.begin() + 9, b.begin() + 5); for (int i = 0; i < 40; ++i) CHECK(a.test(i) == (i >= 3 && i < 9)); }''','copying a range which lies within a word','its last bit is not copied')
s('bs-copy-pad','B01',[('dynamic_bitset.hpp','                m_buf[own_windex] |= src[src_windex + 1] << (bits_per_word - pad);','                m_buf[own_windex] |= (src[src_windex + 1] & (word_mask(pad - 1) - 1)) << (bits_per_word - pad);')],B+'''
int main() { itlib::dynamic_bitset<> a(96), b(128); for (int i = 0; i < 128; ++i) b.set(i); a.copy(a.begin(), a.begin() + 64, b.begin() + 5); for (int i = 0; i < 64; ++i) CHECK(a.test(i)); CHECK(!a.test(64)); }''','copying whole words from an unaligned position','the top bit of every word is lost')
s('bs-assign-shift','B01',[('dynamic_bitset.hpp','''            m_buf.insert(m_buf.end(), other.m_buf.begin(), other.m_buf.end());
            m_size += other.size();''','''            m_buf.insert(m_buf.end(), other.m_buf.begin(), other.m_buf.end());
            m_size = m_buf.size() * bits_per_word - (bits_per_word - other.m_size) % bits_per_word;''')],B+'''
int main() { itlib::dynamic_bitset<> a(32), b(70); a.append(b); CHECK(a.size() == 102); itlib::dynamic_bitset<std::vector<uint8_t>> c, d(19); c.append(d); CHECK(c.size() == 19); }''','-','-') if 'bs-assign-shift' in which else None

import sys; sys.path.insert(0,'/tmp/seeds')
from common import *
M='#include <itlib/flat_map.hpp>\n'+C
s('fm-ilist-comp','M01',[('flat_map.hpp','        : flat_map(container_type(std::move(init), alloc), comp)','        : flat_map(container_type(std::move(init), alloc), key_compare())')],M+'''
struct Cmp { bool desc = false; bool operator()(int a, int b) const { return desc ? a > b : a < b; } };
int main() { Cmp d; d.desc = true; itlib::flat_map<int, int, Cmp> m({{1, 1}, {3, 3}, {2, 2}}, d); CHECK(m.begin()->first == 3); m[9] = 9; CHECK(m.begin()->first == 9); }''','construction from an initializer list with a comparator which has state','the comparator given is ignored')
s('fm-erase-key-range','M01',[('flat_map.hpp','''        auto i = find(k);
        if (i == end())
        {
            return 0;
        }

        erase(i);
        return 1;''','''        auto i = lower_bound(k);
        if (i == end() || cmp()(*i, k))
        {
            return 0;
        }

        erase(i);
        return 1;''')],M+'''
int main() { itlib::flat_map<int, int> st; st[1] = 1; st[5] = 5; CHECK(st.erase(3) == 0); CHECK(st.size() == 2); CHECK(st.erase(5) == 1 && st.size() == 1); }''','erasing a key which is not there but is less than some key of the map','the next element is erased')
s('fm-erase-iter','M01',[('flat_map.hpp','        return m_container.erase(const_iterator(pos));','        m_container.erase(const_iterator(pos));\n        return pos;')],M+'''
#include <deque>
int main() { itlib::flat_map<int, int, itlib::fmimpl::less, std::deque<std::pair<int, int>>> m; for (int i = 0; i < 200; ++i) m.insert(std::make_pair(i, i)); for (auto i = m.begin(); i != m.end(); ) { if (i->first % 2) i = m.erase(i); else ++i; } CHECK(m.size() == 100); for (auto& p : m) CHECK(p.first % 2 == 0); }''','erasing by a non-const iterator from a map over a deque','the iterator returned is not valid')
R='#include <itlib/mem_streambuf.hpp>\n#include <istream>\n#include <ostream>\n'+C
s('os-rem-exact','S01',[('mem_streambuf.hpp','''        if (rem < num)
        {
            cap_resize_by(num - rem);
        }''','''        if (rem < num)
        {
            cap_resize_by(num);
        }''')],R+'''
struct Fixed { using value_type = char; char b[64]; size_t s = 0; char* data() { return b; } const char* data() const { return b; } size_t size() const { return s; } size_t capacity() const { return 16; } void resize(size_t n) { if (n > 16) throw std::length_error("full"); s = n; } void clear() { s = 0; } };
int main() { itlib::mem_ostreambuf<Fixed> buf; std::ostream out(&buf); out.put('a'); out.write("bcdefghijklm", 12); CHECK(out.good()); out.write("nop", 3); CHECK(out.good()); auto c = buf.get_container(); CHECK(c.size() == 16 && !memcmp(c.data(), "abcdefghijklmnop", 16)); }''','-','-') if 'os-rem-exact' in which else None
s('os-clear-keeps-put','S01',[('mem_streambuf.hpp','''        m_data.clear();
        m_end = 0;
        this->setp(m_data.data(), m_data.data());
    }''','''        m_end = 0;
        this->setp(m_data.data(), m_data.data() + m_data.size());
    }''')],R+'''
int main() { itlib::mem_ostreambuf<std::string> buf; std::ostream out(&buf); out << "hello"; buf.clear(); out.seekp(3); bool ok = out.good(); out.clear(); CHECK(!ok); }''','a seek after clear','positions inside of the cleared data can be seeked to') 
s('os-overflow-order','S01',[('mem_streambuf.hpp','''        cap_resize_by(1);

        *this->pptr() = char_type(ch);
        this->pbump(1);

        return ch;''','''        const auto at = poff();
        cap_resize_by(1);
        m_data[at] = char_type(ch);
        this->setp(m_data.data() + m_data.size() - remaining_buf_size() + 1, m_data.data() + m_data.size());

        return ch;''')],R+'''
int main() {}''','-','-') if 'os-overflow-order' in which else None
s('os-seek-cur-end','S01',[('mem_streambuf.hpp','if (way == std::ios_base::cur) return seekpos(poff() + off, std::ios_base::out);','if (way == std::ios_base::cur) return off ? seekpos(data_end() + off, std::ios_base::out) : pos_type(poff());')],R+'''
int main() { itlib::mem_ostreambuf<std::string> buf; std::ostream out(&buf); out << "hello world"; out.seekp(2); out.seekp(3, std::ios::cur); CHECK(out.tellp() == 5); out << "_"; CHECK(buf.get_container() == "hello_world"); }''','a relative seek after a seek back','the offset is counted from the end of the data') 
s('is-getn-short','S02',[('mem_streambuf.hpp','''        if (this->gptr() + count > this->egptr())
        {
            count = this->egptr() - this->gptr();
        }
''','''        if (goff() + count > size())
        {
            count = size() - goff();
            if (count) --count, s[count] = *(this->egptr() - 1), ++count;
        }
''')],R+'''
int main() {}''','-','-') if 'is-getn-short' in which else None
s('is-seek-end-sign','S02',[('mem_streambuf.hpp','if (way == std::ios_base::end) return seekpos(size() + off, std::ios_base::in);','if (way == std::ios_base::end) return seekpos(size() + (off > 0 ? -off : off), std::ios_base::in);')],R+'''
int main() { itlib::mem_istreambuf<char> b("hello", 5); std::istream in(&b); in.seekg(2, std::ios::end); CHECK(in.fail()); in.clear(); CHECK(in.tellg() == 0); }''','a seek past the end, relative to the end','it succeeds and moves back from the end instead')
s('is-read-count','S02',[('mem_streambuf.hpp','''        memcpy(s, this->gptr(), count * sizeof(char_type));
        this->setg(this->eback(), this->gptr() + count, this->egptr());''','''        memcpy(s, this->gptr(), count);
        this->setg(this->eback(), this->gptr() + count, this->egptr());''')],R+'''
int main() { std::wstring w = L"hello"; itlib::mem_istreambuf<wchar_t> b(w.data(), 5); std::wistream in(&b); wchar_t o[5] = {}; in.read(o, 5); CHECK(!memcmp(o, w.data(), sizeof o)); }''','block reads of a stream of wide characters','only a part of the characters is copied')
s('is-reset-get','S02',[('mem_streambuf.hpp','        this->setg(ucbeg, ucbeg, ucbeg + size);','        this->setg(ucbeg, this->gptr() == this->egptr() || ucbeg != this->eback() ? ucbeg : this->gptr(), ucbeg + size);')],R+'''
int main() { char d[] = "hello"; itlib::mem_istreambuf<char> b(d, 5); std::istream in(&b); in.get(); in.get(); b.reset(d, 5); CHECK(in.get() == 'h'); b.reset(d, 1); CHECK(in.get() == 'h'); CHECK(in.get() == EOF); }''','resetting a partly read stream to the same buffer','the old position is kept')
Q='#include <itlib/rstream.hpp>\n#include <sstream>\n'+C
s('rs-restore-arg','S03',[('rstream.hpp','        m_restore = in.tellg();\n        in.seekg(pos);','        in.seekg(pos);\n        if (!in.fail()) m_restore = in.tellg();')],Q+'''
int main() { std::istringstream in("hello world"); in.get(); { itlib::redirect_rstream r(in, 6); char c[3]; r.read(c, 3); CHECK(c[0] == 'w'); } CHECK(in.tellg() == 1); }''','-','-') if 'rs-restore-arg' in which else None
s('rs-fail-and','S03',[('rstream.hpp','bool fail() const { return m_in.fail(); }','bool fail() const { return m_in.bad() || m_in.eof(); }')],Q+'''
int main() { std::istringstream in("hello"); in.setstate(std::ios::failbit); itlib::rstream r(in); CHECK(r.fail()); CHECK(!r); }''','the wrapped stream has failed without reaching its end','fail reports no failure')
s('rs-tell-after','S03',[('rstream.hpp','''        m_restore = in.tellg();
        in.seekg(pos);
    }''','''        m_restore = in.rdbuf()->pubseekoff(0, std::ios_base::beg, std::ios_base::in);
        m_restore = in.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
        in.seekg(pos);
    }''')],Q+'''
int main() { std::istringstream in("hello world"); in.get(); { itlib::redirect_rstream r(in, 6); } CHECK(in.tellg() == 1); }''','-','-') if 'rs-tell-after' in which else None
s('rs-nested-end','S03',[('rstream.hpp','        m_restore = in.tellg();\n        in.seekg(pos);','        m_restore = in.tellg();\n        if (m_restore != pos) in.seekg(pos);\n        else m_restore = std::streampos(std::streamoff(-1));')],Q+'''
int main() { std::istringstream in("hello world"); in.seekg(3); { itlib::redirect_rstream r(in, 3); char c[3]; r.read(c, 3); } CHECK(in.tellg() == 3); }''','a redirect to the position at which the stream already is','the position is not restored')

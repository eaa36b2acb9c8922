exec(open('/tmp/ref/base.py').read())
M='mem_streambuf.hpp'
r('os-overflow-eof',['S01'],(M,'''        cap_resize_by(1);

        *this->pptr() = char_type(ch);
        this->pbump(1);

        return ch;''','''        cap_resize_by(1);
        return this->sputc(super::traits_type::to_char_type(ch));'''))
r('os-growth2',['S01'],(M,'''        m_data.resize(m_data.size() + by);
        auto new_size = m_data.capacity();''','''        m_data.resize(m_data.size() + by);
        auto new_size = m_data.capacity(); // all of it
        if (false) ++new_size;'''))
r('os-getc',['S01'],(M,'''        Container ret;
        auto size = this->data_end();
        m_end = 0;
        std::swap(ret, m_data);
        this->setp(m_data.data(), m_data.data());
        ret.resize(size);
        return ret;''','''        m_data.resize(this->data_end());
        m_end = 0;
        Container ret(std::move(m_data));
        m_data = Container();
        this->setp(m_data.data(), m_data.data());
        return ret;'''))
r('os-clear-keepcap',['S01'],(M,'''        m_data.clear();
        m_end = 0;
        this->setp(m_data.data(), m_data.data());
    }

private:''','''        m_data.clear();
        this->setp(m_data.data(), m_data.data() + m_data.size());
        m_end = 0;
    }

private:'''))
r('os-seek-switch',['S01'],(M,'''        if (way == std::ios_base::cur) return seekpos(poff() + off, std::ios_base::out);
        if (way == std::ios_base::beg) return seekpos(off, std::ios_base::out);
        if (way == std::ios_base::end) return seekpos(data_end() + off, std::ios_base::out);
        return super::traits_type::eof();''','''        switch (way) {
        case std::ios_base::beg: break;
        case std::ios_base::cur: off += off_type(poff()); break;
        case std::ios_base::end: off += off_type(data_end()); break;
        default: return pos_type(off_type(-1));
        }
        return seekpos(pos_type(off), std::ios_base::out);'''))
r('os-xsputn-copy',['S01'],(M,'''        memcpy(this->pptr(), s, num * sizeof(char_type));
        this->pbump(int_type(num));''','''        for (std::streamsize i = 0; i < num; ++i) this->pptr()[i] = s[i];
        this->pbump(int(num));'''))
r('is-xsgetn',['S02'],(M,'''        if (this->gptr() + count > this->egptr())
        {
            count = this->egptr() - this->gptr();
        }

        memcpy(s, this->gptr(), count * sizeof(char_type));
        this->setg(this->eback(), this->gptr() + count, this->egptr());''','''        const std::streamsize left = this->egptr() - this->gptr();
        if (count > left) count = left;
        if (count <= 0) return 0;
        super::traits_type::copy(s, this->gptr(), size_t(count));
        this->gbump(int(count));'''))
r('is-default-xsgetn',['S02'],(M,'''        if (this->gptr() + count > this->egptr())
        {''','''        if (true) return super::xsgetn(s, count);
        if (this->gptr() + count > this->egptr())
        {'''))
P='pmr_allocator.hpp'
r('pmr-new',['L01'],(P,'''            this->construct(p, std::forward<Args>(args)...);
            return p;''','''            super::construct(p, std::forward<Args>(args)...);'''),(P,'''            deallocate_object(p);
            throw;
        }''','''            deallocate_object(p);
            throw;
        }
        return p;'''))
r('pmr-del',['L01'],(P,'''        p->~U();
        deallocate_object(p);''','''        p->~U();
        resource()->deallocate(p, sizeof(U), alignof(U));'''))
T='time_t.hpp'
r('time-ops',['T01'],(T,'{ return a.m_t != b.m_t; }','{ return !(a == b); }'),(T,'{ return a.m_t <= b.m_t; }','{ return !(b < a); }'),(T,'{ m_t += dc(d); return *this; }','{ *this = *this + d; return *this; }'))
r('time-strf',['T01'],(T,'''    std::string ret;
    ret.resize(128);
    size_t len;
    while ((len = std::strftime(&ret.front(), ret.size(), nonEmptyFormat.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
    ret.resize(len - 1);
    return ret;''','''    for (size_t cap = 64;; cap += cap)
    {
        std::string ret(cap, char(0));
        const size_t len = std::strftime(&ret[0], cap, nonEmptyFormat.c_str(), &tm);
        if (len) return ret.substr(0, len - 1);
    }'''))
r('time-now',['T01'],(T,'return from_seconds(std::time(nullptr));','std::time_t t; std::time(&t); return time_t(t);'))
S='span.hpp'
r('span-clamp',['P01'],(S,'''        if (off > size()) return span(m_end, size_t(0));
        auto newSize = size() - off;
        if (count > newSize) count = newSize;
        return span(m_begin + off, count);''','''        const auto s = size();
        if (off > s) off = s;
        return span(m_begin + off, count < s - off ? count : s - off);'''))
r('span-last',['P01'],(S,'''        return subspan(size() - n, n);''','''        return n > size() ? span(m_end, size_t(0)) : span(m_end - n, m_end);'''))
r('span-bytes',['P01'],(S,'''        return size() * sizeof(T);''','''        return size_t(reinterpret_cast<const uint8_t*>(m_end) - reinterpret_cast<const uint8_t*>(m_begin));'''))
SS='stride_span.hpp'
r('stride-clamp',['P02'],(SS,'''        if (off > m_num_elements) return stride_span(m_begin + m_num_elements * m_stride, m_stride, 0);''','''        if (off > m_num_elements) off = m_num_elements;'''))
r('stride-last',['P02'],(SS,'''        return subspan(size() - n, n);''','''        if (n > size()) return subspan(size());
        return subspan(size() - n);'''))
r('stride-iter',['P02'],(SS,'''{ p += diff * stride; return *this; }''','''{ p += diff * ptrdiff_t(stride); return *this; }'''),(SS,'''{ return t_iterator(p + stride * diff, stride); }''','''{ auto r = *this; r += diff; return r; }'''))
PS='poly_span.hpp'
r('poly-clamp',['P03'],(PS,'''        if (off > m_num_elements) return poly_span(m_begin + m_num_elements * m_stride, m_stride, 0, m_poly_func);''','''        if (off > m_num_elements) off = m_num_elements;'''))
r('poly-at',['P03'],(PS,'''        return m_poly_func(m_begin + m_stride * i);
    }

    const RT operator[]''','''        return *(begin() + ptrdiff_t(i));
    }

    const RT operator[]'''))
MV='memory_view.hpp'
s=open('/repo/include/itlib/memory_view.hpp').read()
Q='qalgorithm.hpp'
r('q-loop',['Q01'],(Q,'''    return std::find(c.begin(), c.end(), val);
}

template <typename Container, typename Value>
typename impl::pointer_t''','''    auto i = c.begin();
    for (; i != c.end(); ++i) if (*i == val) break;
    return i;
}

template <typename Container, typename Value>
typename impl::pointer_t'''))
r('q-none',['Q01'],(Q,'''return std::none_of(c.begin(), c.end(), std::forward<Pred>(pred));''','''return !std::any_of(c.begin(), c.end(), std::forward<Pred>(pred));'''))
r('q-pfind',['Q01'],(Q,'''    auto f = std::find(c.begin(), c.end(), val);
    if (f == c.end()) return nullptr;
    return &(*f);''','''    auto f = qfind(c, val);
    return f == c.end() ? nullptr : std::addressof(*f);'''),(Q,'#include <utility>','#include <utility>\n#include <memory>'))
r('q-eraseall',['Q01'],(Q,'''    auto newend = std::remove(c.begin(), c.end(), val);
    auto ret = c.end() - newend;
    c.erase(newend, c.end());
    return ret;''','''    const auto before = c.size();
    c.erase(std::remove(c.begin(), c.end(), val), c.end());
    return before - c.size();'''))
ST='strutil.hpp'
r('str-substr',['Q02'],(ST,'0 == str.compare(0, prefix.size(), prefix)','str.substr(0, prefix.size()) == prefix'),(ST,'while (starts_with(str, prefix)) str.remove_prefix(prefix.size());','while (starts_with(str, prefix)) str = str.substr(prefix.size());'))
r('str-ends-loop',['Q02'],(ST,'''    return str.size() >= suffix.size() && 0 == str.compare(str.size() - suffix.size(), suffix.size(), suffix);''','''    if (suffix.size() > str.size()) return false;
    for (size_t i = 1; i <= suffix.size(); ++i) if (str[str.size() - i] != suffix[suffix.size() - i]) return false;
    return true;'''))
r('ptr-shared',['K01'],('make_ptr.hpp','''    if (owner.use_count() == 0) return {};
    return std::shared_ptr<T>(owner, ptr);''','''    std::shared_ptr<T> ret;
    if (owner.use_count()) ret = std::shared_ptr<T>(owner, ptr);
    return ret;'''),('make_ptr.hpp','''    return  std::unique_ptr<RRT>(new RRT(std::forward<T>(t)));''','''    return std::make_unique<RRT>(std::forward<T>(t));''') if 0 else ('make_ptr.hpp','using RRT','typedef int unused_t; using RRT'))
r('sf-weak',['K02'],('shared_from.hpp','''        return shared_from(ptr);''','''        std::weak_ptr<T> ret = std::shared_ptr<T>(shared_from_this(), ptr);
        return ret;'''))
r('sentry-17',['K03'],('sentry.hpp','''~sentry() { if (m_has_func) m_func(); }''','''~sentry()
    {
        if (!m_has_func) return;
        m_has_func = false;
        m_func();
    }'''))
r('thr-str',['K03'],('throw_ex.hpp','''        throw Exception(out.str());''','''        const std::string what = out.str();
        throw Exception(what);'''),('throw_ex.hpp','''    throw_ex& operator<<(const char* str) {
        out << str;''','''    throw_ex& operator<<(const char* str) {
        static_cast<std::ostream&>(out) << str;'''))
r('owner',['X01'],('utility.hpp','''    auto m_p = reinterpret_cast<const uint8_t*>(&member);
    Owner* null_owner = nullptr;
    auto m_offset = reinterpret_cast<uintptr_t>(&(null_owner->*ptr));
    return reinterpret_cast<const Owner*>(m_p - m_offset);''','''    Owner* null_owner = nullptr;
    const auto off = reinterpret_cast<uintptr_t>(&(null_owner->*ptr));
    return reinterpret_cast<const Owner*>(reinterpret_cast<uintptr_t>(&member) - off);'''))
r('bitcast',['X01'],('utility.hpp','std::memcpy(&dst, &src, sizeof(Src));','std::memcpy(&dst, &src, sizeof(dst));'))
r('mutex-flow',['C03'],('mutex.hpp','''        if (m_owner == std::thread::id())
        {
            assert(m_depth == 0);
            m_owner = tid;
        }
        else if (tid != m_owner)
        {
            return false;
        }

        ++m_depth;
        return true;''','''        if (m_depth != 0 && m_owner != tid) return false;
        m_owner = tid;
        ++m_depth;
        return true;'''))
r('mutex-uniq',['C03'],('mutex.hpp','std::lock_guard<std::mutex> l(m_mutex);','std::unique_lock<std::mutex> l(m_mutex);'))
r('counter-cas',['C05'],('atomic.hpp','I operator++(int) noexcept { return a.fetch_add(1, rel); }','I operator++(int) noexcept { I c = a.load(rel); while (!a.compare_exchange_weak(c, I(c + 1), rel, rel)); return c; }'))
r('counter-seq',['C05'],('atomic.hpp','I operator--() noexcept { return a.fetch_sub(1, rel) - 1; }','I operator--() noexcept { return I(a--) - 1; }'))
R='rstream.hpp'
r('rs-read',['S03'],(R,'bool fail() const { return m_in.fail(); }','bool fail() const { return !m_in; }'),(R,'explicit operator bool() const { return !fail(); }','explicit operator bool() const { return static_cast<bool>(m_in); }'))
r('gen-next',['G01'],('generator.hpp','''        safe_resume(m_handle);
        return std::move(m_handle.promise().m_val);''','''        safe_resume(m_handle);
        generator_value<T> ret = std::move(m_handle.promise().m_val);
        return ret;'''))
r('gen-move',['G01'],('generator.hpp','''        if (m_handle) m_handle.destroy();
        m_handle = std::exchange(other.m_handle, nullptr);
        return *this;''','''        reset();
        std::swap(m_handle, other.m_handle);
        return *this;'''))
r('gen-destroy',['G01'],('generator.hpp','''    ~generator() {
        if (m_handle) m_handle.destroy();
    }''','''    ~generator() {
        reset();
    }'''))
E_='expected.hpp'
r('exp-switch',['E01'],(E_,'''        if (m_has_value && other.has_value())
        {
            m_value = std::move(other.m_value);
        }
        else if(m_has_value && !other.has_value())
        {
            m_has_value = false;
            m_value.~T();
            ::new (&m_error) E(std::move(other.m_error));
        }
        else if(!m_has_value && other.has_value())
        {
            m_has_value = true;
            m_error.~E();
            ::new (&m_value) T(std::move(other.m_value));
        }
        else
        {
            m_error = std::move(other.m_error);
        }
        return *this;''','''        if (m_has_value == other.m_has_value)
        {
            if (m_has_value) m_value = std::move(other.m_value);
            else m_error = std::move(other.m_error);
            return *this;
        }
        this->~expected();
        ::new (this) expected(std::move(other));
        return *this;'''))
r('exp-value-or',['E01'],(E_,'''{ return has_value() ? value() : std::forward<U>(v); }''','''{ if (m_has_value) return m_value; return T(std::forward<U>(v)); }'''))

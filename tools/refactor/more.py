from base import r
MV='memory_view.hpp'; X='expected.hpp'; G='generator.hpp'; T='time_t.hpp'; TH='throw_ex.hpp'; SF='shared_from.hpp'; U='utility.hpp'; TT='type_traits.hpp'; PS='poly_span.hpp'; B='dynamic_bitset.hpp'; MS='mem_streambuf.hpp'; SE='sentry.hpp'; MP='make_ptr.hpp'; SP='span.hpp'; SS='stride_span.hpp'; R='rstream.hpp'; FS='flat_set.hpp'; A='any.hpp'; UF='ufunction.hpp'; PM='pmr_allocator.hpp'
r('mv-slice-min',['P04'],(MV,'''        if (off > m_size) return memory_view(m_ptr + m_size, 0);
        auto newSize = m_size - off;
        if (count > newSize) count = newSize;
        return memory_view(m_ptr + off, count);''','''        off = off < m_size ? off : m_size;
        const size_t left = m_size - off;
        return memory_view(m_ptr + off, left < count ? left : count);'''),
 (MV,'''        if (off > m_size) return const_memory_view(m_ptr + m_size, 0);
        auto newSize = m_size - off;
        if (count > newSize) count = newSize;
        return const_memory_view(m_ptr + off, count);''','''        auto ret = *this;
        ret.remove_prefix(off < m_size ? off : m_size);
        if (ret.m_size > count) ret.m_size = count;
        return ret;'''))
r('mv-ctor',['P04'],(MV,'''    const_memory_view(const memory_view<T>& view)
    {
        m_ptr = view.data();
        m_size = view.size();
    }''','''    const_memory_view(const memory_view<T>& view)
        : const_memory_view(view.get(), view.size())
    {}'''),(MV,'return *(m_ptr + i);','return m_ptr[i];'),(MV,'return at(m_size - 1);','return *(end() - 1);'),(MV,'return !!m_ptr;','return m_ptr != nullptr;'))
r('mv-nonmember',['P04'],(MV,'''        m_ptr += n;
        m_size -= n;''','''        m_size -= n;
        m_ptr = m_ptr + n;'''),(MV,'''        m_ptr = ptr;
        m_size = size;''','''        m_size = size;
        m_ptr = ptr;'''),(MV,'return m_size == 0;','return !m_size;'))
r('exp-helper',['E01'],(X,'''    ~expected()
    {
        if (m_has_value)
        {
            m_value.~T();
        }
        else
        {
            m_error.~E();
        }
    }
''','''    ~expected() { destroy(); }
    void destroy() noexcept
    {
        if (!m_has_value) { m_error.~E(); return; }
        m_value.~T();
    }
'''))
r('exp-order',['E01'],(X,'''            m_has_value = false;
            m_value.~T();
            ::new (&m_error) E(std::move(other.m_error));''','''            m_value.~T();
            ::new (&m_error) E(std::move(other.m_error));
            m_has_value = false;'''),(X,'''            m_has_value = true;
            m_error.~E();
            ::new (&m_value) T(std::move(other.m_value));''','''            m_error.~E();
            ::new (&m_value) T(std::move(other.m_value));
            m_has_value = true;'''))
r('exp-void-order',['E01'],(X,'''        if (m_has_value && !other.has_value())
        {
            m_has_value = false;
            ::new (&m_error) E(std::move(other.m_error));
        }
        else if (!m_has_value && other.has_value())
        {
            m_has_value = true;
            m_error.~E();
        }
        else if (!m_has_value)
        {
            m_error = std::move(other.m_error);
        }
        return *this;''','''        if (other.m_has_value)
        {
            if (!m_has_value) m_error.~E();
            m_has_value = true;
            return *this;
        }
        if (m_has_value) ::new (&m_error) E(std::move(other.m_error));
        else m_error = std::move(other.m_error);
        m_has_value = false;
        return *this;'''))
r('exp-copy',['E01'],(X,'''        else if (!m_has_value && other.has_value())
        {
            ::new (&m_value) T(other.m_value);
            m_has_value = true;
        }''','''        else if (!m_has_value && other.has_value())
        {
            emplace(other.m_value);
        }'''),(X,'''        if (m_has_value && other.has_value())
        {
            m_value = other.m_value;
        }
        else if (m_has_value && !other.has_value())
        {
            m_has_value = false;
            m_value.~T();
        }''','''        if (m_has_value && other.has_value())
        {
            m_value = other.m_value;
        }
        else if (m_has_value && !other.has_value())
        {
            clear();
        }'''))
r('exp-ref-swap',['E01'],(X,'''        if (m_value && other.m_value)
        {
            m_value = other.m_value;
        }
        else if (m_value && !other.m_value)
        {
            m_value = nullptr;
            ::new (&m_error) E(std::move(other.m_error));
        }
        else if (!m_value && other.m_value)
        {
            m_value = other.m_value;
            m_error.~E();
        }
        else
        {
            m_error = std::move(other.m_error);
        }
        return *this;''','''        const bool had = !!m_value;
        m_value = other.m_value;
        if (had == !!m_value)
        {
            if (!had) m_error = std::move(other.m_error);
        }
        else if (had) ::new (&m_error) E(std::move(other.m_error));
        else m_error.~E();
        return *this;'''))
r('exp-deref',['E01'],(X,'T&& operator*() && { return std::move(value()); }','T&& operator*() && { return static_cast<expected&&>(*this).value(); }'),(X,'T* operator->() { return &value(); }','T* operator->() { return std::addressof(m_value); }'),(X,'#include <new>','#include <new>\n#include <memory>'),(X,'T* operator->() const { return &value(); }','T* operator->() const { auto& v = value(); return &v; }'))
r('gen-resume',['G01'],(G,'''        if (p.m_exception) {
            std::rethrow_exception(p.m_exception);
        }''','''        if (!p.m_exception) return;
        auto e = std::exchange(p.m_exception, nullptr);
        std::rethrow_exception(std::move(e));'''))
r('gen-reset',['G01'],(G,'''        if (m_handle) m_handle.destroy();
        m_handle = nullptr;
    }''','''        if (auto h = std::exchange(m_handle, nullptr)) h.destroy();
    }'''),(G,'''    ~generator() {
        if (m_handle) m_handle.destroy();
    }''','''    ~generator() { reset(); }'''))
r('gen-assign',['G01'],(G,'''        if (this == &other) return *this;
        if (m_handle) m_handle.destroy();
        m_handle = std::exchange(other.m_handle, nullptr);
        return *this;''','''        generator tmp(std::move(other));
        std::swap(m_handle, tmp.m_handle);
        return *this;'''))
r('gen-begin',['G01'],(G,'''        if (!done()) safe_resume(m_handle);
        return pseudo_iterator{m_handle};''','''        pseudo_iterator ret{m_handle};
        if (!m_handle.done()) ++ret;
        return ret;'''),(G,'{ return !i.m_handle.done(); }','{ return !(i == end_t{}); }'))
r('gen-next-move',['G01'],(G,'''        return std::move(m_handle.promise().m_val);''','''        auto ret = std::move(m_handle.promise().m_val);
        return ret;'''),(G,'''            return *m_val;
        }
        T&&''','''            auto& v = m_val;
            return *v;
        }
        T&&'''))
r('time-gm',['T01'],(T,'''        std::tm ret = {};
        auto mt = std::time_t(*this);
#if defined(_WIN32)
        gmtime_s''','''        const auto mt = static_cast<std::time_t>(m_t);
        std::tm ret;
#if defined(_WIN32)
        gmtime_s'''),(T,'return time_t(m_t + dc(d));','time_t ret = *this; ret += d; return ret;'),(T,'return time_t(m_t - dc(d));','time_t ret(*this); ret -= d; return ret;'))
r('time-strf-vec',['T01'],(T,'''    ret.resize(128);
    size_t len;
    while ((len = std::strftime(&ret.front(), ret.size(), nonEmptyFormat.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
    ret.resize(len - 1);
    return ret;''','''    for (size_t cap = 16; ; cap *= 4)
    {
        ret.assign(cap, 0);
        const size_t len = std::strftime(&ret[0], cap, nonEmptyFormat.c_str(), &tm);
        if (len) { ret.resize(len); ret.pop_back(); return ret; }
    }'''))
r('time-cast',['T01'],(T,'return std::chrono::duration_cast<duration_type>(d).count();','const auto s = std::chrono::duration_cast<std::chrono::duration<timestamp_type>>(d); return s.count();'),(T,'friend duration_type operator-(const time_t& a, const time_t& b) { return duration_type(a.m_t - b.m_t); }','friend duration_type operator-(const time_t& a, const time_t& b) { auto d = duration_type(a.m_t); d -= duration_type(b.m_t); return d; }'))
r('thr-flag',['K03'],(TH,'''        if (uncaught() > uncaught_on_enter)
            std::terminate(); // should never happen but helps us avoid warnings
        throw Exception(out.str());''','''        const bool unwinding = uncaught() > uncaught_on_enter;
        if (!unwinding)
            throw Exception(std::move(out).str());
        std::terminate();'''),(TH,'#include <sstream>','#include <sstream>\n#include <utility>'))
r('thr-fwd',['K03'],(TH,'''    throw_ex& operator<<(const T& t) {
        out << t;
        return *this;''','''    throw_ex& operator<<(const T& t) {
        std::ostream& o = out;
        o << t;
        return *this;'''))
r('sf-direct',['K02'],(SF,'''        return std::shared_ptr<T>(shared_from_this(), ptr);''','''        auto owner = esd::shared_from_this();
        return std::shared_ptr<T>(std::move(owner), ptr);'''),(SF,'''        return esd::weak_from_this();''','''        std::weak_ptr<const enable_shared_from> w = static_cast<const enable_shared_from*>(this)->esd::weak_from_this();
        return std::const_pointer_cast<enable_shared_from>(w.lock());''') if False else (SF,'#include <memory>','#include <memory>\n#include <utility>'))
r('util-owner',['X01'],(U,'''    auto m_p = reinterpret_cast<const uint8_t*>(&member);
    Owner* null_owner = nullptr;
    auto m_offset = reinterpret_cast<uintptr_t>(&(null_owner->*ptr));
    return reinterpret_cast<const Owner*>(m_p - m_offset);''','''    typename std::aligned_storage<sizeof(Owner), alignof(Owner)>::type buf;
    auto o = reinterpret_cast<const Owner*>(&buf);
    auto offset = reinterpret_cast<const char*>(&(o->*ptr)) - reinterpret_cast<const char*>(o);
    return reinterpret_cast<const Owner*>(reinterpret_cast<const char*>(&member) - offset);'''))
r('util-bitcast',['X01'],(U,'''    Dst dst;
    std::memcpy(&dst, &src, sizeof(Src));
    return dst;''','''    Dst ret;
    auto to = reinterpret_cast<unsigned char*>(&ret);
    auto from = reinterpret_cast<const unsigned char*>(&src);
    for (size_t i = 0; i < sizeof(Dst); ++i) to[i] = from[i];
    return ret;'''),(U,'#include <cstring>','#include <cstring>\n#include <cstddef>\n#include <new>\n'))
r('tt-noop',['X01'],(TT,'''        && (std::is_same<to_t, bool>::value ? std::is_same<from_t, bool>::value : true)''','''        && (!std::is_same<to_t, bool>::value || std::is_same<from_t, bool>::value)'''),(TT,'''    static constexpr bool value = sizeof(from_t) == sizeof(to_t)
        && std::is_scalar<from_t>::value
        && std::is_scalar<to_t>::value''','''    static constexpr bool value = std::is_scalar<from_t>::value && std::is_scalar<to_t>::value
        && sizeof(from_t) == sizeof(to_t)'''))
r('poly-end',['P03'],(PS,'''        return iterator(m_begin + m_num_elements * m_stride, m_stride, m_poly_func);''','''        return begin() + ptrdiff_t(m_num_elements);'''),(PS,'''        m_begin += n * m_stride;
        m_num_elements -= n;''','''        *this = subspan(n);'''),(PS,'''        return subspan(size() - n, n);''','''        auto ret = *this; ret.remove_prefix(size() - n); return ret;''') if False else (PS,'return !!m_begin;','return m_begin != nullptr;'))
r('poly-iter',['P03'],(PS,'{ p += diff * stride; return *this; }','{ p += diff * ptrdiff_t(stride); return *this; }'),(PS,'{ return t_iterator(p - stride * diff, stride, poly_func); }','{ auto r = *this; r -= diff; return r; }'),(PS,'{ return p != other.p; }','{ return !(p == other.p); }'))
r('any-posix',['A02'],(A,'''            aligned_alloc(a, n);
#endif''','''            nullptr;
        if (posix_memalign(&ret, a < sizeof(void*) ? sizeof(void*) : a, n)) ret = nullptr;
#endif'''))
r('any-catch-helper',['A01','A02'],(A,'''        anyimpl::obj_block* block = nullptr;
        if (o.has_value()) {
            block = static_cast''','''        anyimpl::obj_block* block = nullptr;
        if (!o.has_value()) {
            reset();
            return;
        }
        {
            block = static_cast'''),(A,'''        if (!m_block) return;
        auto size = m_block->size;
        auto alignment = m_block->alignment;
        m_block->~obj_block();
        free_block(size, alignment);''','''        if (m_block) {
            const size_t alignment = m_block->alignment;
            const size_t size = m_block->size;
            m_block->~obj_block();
            free_block(size, alignment);
        }'''))
r('ms-write-split',['S01'],(MS,'if (way == std::ios_base::beg)','if (std::ios_base::beg == way)'))
r('fs-ex',['M02','M04'],(FS,'return find(k) == end() ? 0 : 1','return find(k) != end() ? 1 : 0'))

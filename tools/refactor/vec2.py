from base import r
S='small_vector.hpp'; V=['V01','V02','V03','V08']; P='static_vector.hpp'; W=['V04','V05','V09']
r('sv2-close',V,(S,'''            while (m_cur != m_first)
            {
                atraits::destroy(m_vec.get_alloc(), --m_cur);
            }

            for (auto p = m_last; p != m_vec.m_end; ++p, ++m_cur)
            {
                atraits::construct(m_vec.get_alloc(), m_cur, std::move(*p));
                atraits::destroy(m_vec.get_alloc(), p);
            }

            m_vec.m_end = m_cur;
        }
''','''            close();
        }

        void close()
        {
            for (auto p = m_first; p != m_cur; ++p)
            {
                atraits::destroy(m_vec.get_alloc(), p);
            }

            const auto tail = size_t(m_vec.m_end - m_last);
            for (size_t i = 0; i < tail; ++i)
            {
                atraits::construct(m_vec.get_alloc(), m_first + i, std::move(m_last[i]));
                atraits::destroy(m_vec.get_alloc(), m_last + i);
            }

            m_vec.m_end = m_first + tail;
        }
'''))
r('sv2-grow-index',V,(S,'''            for (auto p = m_end - num - 1; p >= position; --p)
            {
                atraits::construct(get_alloc(), p + num, std::move(*p));
                atraits::destroy(get_alloc(), p);
            }
''','''            const auto idx = size_t(position - m_begin);
            for (size_t i = s; i > idx; --i)
            {
                auto& elem = m_begin[i - 1];
                atraits::construct(get_alloc(), m_begin + i - 1 + num, std::move(elem));
                atraits::destroy(get_alloc(), &elem);
            }
'''))
r('sv2-push-emplace',V,(S,'''        if (is_own(val)) return push_back(value_type(val)); // growing may move val away
        hole h(*this, m_end, 1);
        h.construct(val);''','''        if (!is_own(val))
        {
            emplace_back(val);
            return;
        }
        emplace_back(value_type(val));'''))
r('sv2-resize-split',V,(S,'''        reserve(n);

        auto new_end = m_begin + n;

        while (m_end > new_end)
        {
            atraits::destroy(get_alloc(), --m_end);
        }

        while (new_end > m_end)
        {
            atraits::construct(get_alloc(), m_end);
            ++m_end; // only after the construction, as it may throw
        }''','''        reserve(n);

        for (; size() > n; ) destroy_last();

        for (; size() < n; ++m_end)
        {
            atraits::construct(get_alloc(), m_end);
        }'''),(S,'''    void destroy_all()
    {''','''    void destroy_last()
    {
        --m_end;
        atraits::destroy(get_alloc(), m_end);
    }

    void destroy_all()
    {'''))
r('sv2-take-swapped',V,(S,'''        if (v.is_static())
        {
            m_begin = m_end = static_begin_ptr();
            for (auto p = v.m_begin; p != v.m_end; ++p)
            {
                atraits::construct(get_alloc(), m_end, std::move(*p));
                ++m_end;
            }

            v.destroy_all();
        }
        else
        {
            m_begin = v.m_begin;
            m_end = v.m_end;
        }

        v.m_begin''','''        if (!v.is_static())
        {
            m_end = v.m_end;
            m_begin = v.m_begin;
        }
        else
        {
            m_begin = static_begin_ptr();
            m_end = m_begin;
            for (auto& e : v)
            {
                atraits::construct(get_alloc(), m_end++, std::move(e));
            }
            v.destroy_all();
        }

        v.m_begin'''))
r('sv2-insert-copyfirst',V,(S,'''    iterator insert_fill(const_iterator position, size_type count, const value_type& val)
    {
        hole h(*this, position, count);
        for (size_type i = 0; i < count; ++i)
        {
            h.construct(val);
        }
        return h.begin();''','''    iterator insert_fill(const_iterator position, size_type count, const value_type& val)
    {
        hole h(*this, position, count);
        while (count-- > 0) h.construct(val);
        return h.begin();'''))
r('sv2-choose-early',V,(S,'''        choose_data_result ret = {m_begin, m_capacity};

        if (!is_static())
        {''','''        choose_data_result ret = {m_begin, m_capacity};

        if (is_static() && desired_capacity <= StaticCapacity) return ret;

        if (!is_static())
        {'''))
r('sv2-assign-stage',V,(S,'''            m_vec.m_begin = m_data.ptr;
            m_vec.m_end = m_cur;
            m_vec.m_capacity = m_data.cap;
            m_data.ptr = nullptr;''','''            m_vec.m_capacity = m_data.cap;
            m_vec.m_end = m_cur;
            m_vec.m_begin = m_data.ptr;
            m_data.ptr = nullptr;'''),(S,'''        assign_buffer buf(*this, last - first);
        for (auto p = first; p != last; ++p)
        {
            buf.construct(*p);
        }''','''        const auto num = last - first;
        assign_buffer buf(*this, num);
        for (auto i = num; i > 0; --i, ++first)
        {
            buf.construct(*first);
        }'''))
r('sv2-shrink-clearlast',V,(S,'''        const auto s = size();
        if (s - num == 0)
        {
            clear();
            return m_end;
        }

        const auto cdr''','''        const auto s = size();
        if (num == s)
        {
            clear();
            return m_begin;
        }

        const auto cdr'''),(S,'''        shrink_at(m_end - 1, 1);''','''        erase(m_end - 1);'''))
r('st2-clear-size-first',W,(P,'''        auto e = end();
        for (auto p = begin(); p != e; ++p) {
            p->~T();
        }
        m_size = 0;''','''        auto p = begin();
        const auto e = end();
        m_size = 0;
        while (p != e) (p++)->~T();'''))
r('st2-insert-noncopy',W,(P,'''        T copy(val); // val may be an element of this
        hole h(*this, position, 1);
        h.construct(std::move(copy));
        return h.begin();''','''        return insert(position, T(val)); // val may be an element of this'''))
r('st2-assign-helper',W,(P,'''        clear();
        for (auto& elem : v)
        {
            push_back(elem);
        }

        return *this;''','''        assign(v.begin(), v.end());
        return *this;'''))
r('st2-resize-tail',W,(P,'''        while (m_size > n)
        {
            pop_back();
        }

        while (n > m_size)
        {
            push_back(v);
        }''','''        if (n < m_size)
        {
            erase(begin() + n, end());
            return;
        }

        for (auto i = m_size; i < n; ++i)
        {
            push_back(v);
        }'''))
r('st2-swap-temp',W,(P,'''        static_vector* longer;
        static_vector* shorter;

        if (v.m_size > m_size)
        {
            longer = &v;
            shorter = this;
        }
        else
        {
            longer = this;
            shorter = &v;
        }
''','''        const bool more = v.m_size > m_size;
        static_vector* const longer = more ? &v : this;
        static_vector* const shorter = more ? this : &v;
'''))
r('st2-push-helper',W,(P,'''        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() >= Capacity);

        ::new(m_data + m_size) T(v);
        ++m_size;''','''        emplace_back(v);'''),(P,'''        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() >= Capacity);

        ::new(m_data + m_size) T(std::move(v));
        ++m_size;''','''        emplace_back(std::move(v));'''))
r('st2-grow',W,(P,'''        for (auto p = end() - 1; p >= position; --p)
        {
            ::new (p + by) T(std::move(*p));
            p->~T();
        }
        m_size += by;

        return position;''','''        for (auto p = end(); p != position; )
        {
            --p;
            ::new (p + by) T(std::move(*p));
            p->~T();
        }
        m_size = m_size + by;

        return position;'''))

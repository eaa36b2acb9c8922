exec(open('/tmp/ref/base.py').read())
P='static_vector.hpp'; V=['V04','V05']
r('st-clear-rev',V,(P,'''        auto e = end();
        for (auto p = begin(); p != e; ++p) {
            p->~T();
        }
        m_size = 0;''','''        while (m_size) {
            --m_size;
            (data() + m_size)->~T();
        }'''))
r('st-insert-assign',V,(P,'''        for (auto p = position, np = position + num; np != myend; ++p, ++np)
        {
            p->~T();
            ::new (p) T(std::move(*np));
        }
''','''        for (auto p = position, np = position + num; np != myend; ++p, ++np)
        {
            *p = std::move(*np);
        }
'''))
r('st-shrink-noshort',V,(P,'''        if (s - num == 0)
        {
            clear();
            return begin();
        }

''',''))
r('st-swap3',V,(P,'''        static_vector* longer;
        static_vector* shorter;''','''        if (this == &v) return;
        static_vector* longer;
        static_vector* shorter;'''))
r('st-swap-move',V,(P,'''        static_vector* longer;
        static_vector* shorter;''','''        if (this == &v) return;
        {
            static_vector t(std::move(v));
            v = std::move(*this);
            *this = std::move(t);
            return;
        }
        static_vector* longer;
        static_vector* shorter;'''))
r('st-emplace-end',V,(P,'''        T elem(std::forward<Args>(args)...); // args may refer to elements of this
        auto pos = grow_at(position, 1);''','''        if (position == end())
        {
            emplace_back(std::forward<Args>(args)...);
            return end() - 1;
        }
        T elem(std::forward<Args>(args)...); // args may refer to elements of this
        auto pos = grow_at(position, 1);'''))
r('st-resize',V,(P,'''        while (m_size > n)
        {
            pop_back();
        }
        while (n > m_size)
        {
            emplace_back();
        }''','''        for (; m_size > n; --m_size)
        {
            (data() + m_size - 1)->~T();
        }
        for (; m_size < n; ++m_size)
        {
            ::new (data() + m_size) T();
        }'''))
r('st-copy-assign-elem',V,(P,'''        clear();

        for (auto& elem : v)
        {
            push_back(elem);
        }

        return *this;''','''        while (m_size > v.m_size) pop_back();
        for (size_t i = 0; i < m_size; ++i) at(i) = v[i];
        for (size_t i = m_size; i < v.m_size; ++i) push_back(v[i]);
        return *this;'''))
r('st-eq',V,(P,'''    return !operator==(a, b);''','''    return !(a == b);'''))
r('st-grow-fwd',V,(P,'''        for (auto p = end() - 1; p >= position; --p)
        {''','''        for (auto p = end(); p != position;)
        {
            --p;'''))
r('st-pushback-emplace',V,(P,'''        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() >= Capacity);
        ::new(m_data + m_size) T(v);
        ++m_size;''','''        emplace_back(v);'''))

exec(open('/tmp/ref/base.py').read())
P='pod_vector.hpp'; V=['V06','V07']
r('pod-growth2',V,(P,'''                // grow by roughly 1.5
                new_cap *= 3;
                ++new_cap;
                new_cap /= 2;''','''                new_cap = new_cap * 2;'''),(P,'''        if (m_capacity == 0)
        {
            return desired_capacity;
        }''','''        if (m_capacity == 0)
        {
            return desired_capacity < 4 ? 4 : desired_capacity;
        }'''))
r('pod-swap',V,(P,'''        auto tmp = std::move(other);
        other = std::move(*this);
        *this = std::move(tmp);''','''        std::swap(get_alloc(), other.get_alloc());
        std::swap(m_begin, other.m_begin);
        std::swap(m_end, other.m_end);
        std::swap(m_capacity, other.m_capacity);'''))
r('pod-shrinkat',V,(P,'''        const auto s = size();
        if (s == num)
        {
            clear();
            return m_end;
        }

        auto position = const_cast<T*>(cp);

        std::memmove(position, position + num, e2b(size_t(m_end - position - num)));

        m_end -= num;
''','''        auto position = m_begin + (cp - m_begin);
        if (num == 0) return position;
        m_end = std::copy(position + num, m_end, position);
'''))
r('pod-free-null',V,(P,'''    void a_free_begin()
    {
''','''    void a_free_begin()
    {
        if (!m_begin) return;
'''))
r('pod-always-malloc',V,(P,'''            if (e2b(m_capacity - s) > Alloc::realloc_wasteful_copy_size())
            {''','''            if (true)
            {'''),(P,'''                    if (e2b(m_capacity - offset) > Alloc::realloc_wasteful_copy_size())
                    {''','''                    if (true)
                    {'''))
r('pod-assign-noclear',V,(P,'''        clear();
        assign_copy(other.begin(), other.end());
        return *this;''','''        assign_copy(other.m_begin, other.m_end);
        return *this;'''))
r('pod-pushback',V,(P,'''        const value_type copy = val; // val may be an element of this
        return emplace_back() = copy;''','''        if (m_end == m_begin + m_capacity)
        {
            const value_type copy = val;
            reserve(size() + 1);
            *m_end = copy;
        }
        else *m_end = val;
        return *m_end++;'''))
r('pod-shrink-fit',V,(P,'''            a_realloc_begin(s);
        }

        m_end = m_begin + s;''','''            auto nb = a_malloc(s);
            std::memcpy(nb, m_begin, e2b(s));
            a_free_begin();
            m_begin = pointer(nb);
            m_capacity = s;
        }

        m_end = m_begin + s;'''))
r('pod-insert-range',V,(P,'''        auto pos = grow_at(position, ilist.size());
        copy_not_aliased(pos, ilist.begin(), ilist.end());
        return pos;''','''        return insert(position, ilist.begin(), ilist.end());'''),(P,'''        const value_type copy = val; // val may be an element of this
        auto pos = grow_at(position, 1);
        *pos = copy;
        return pos;''','''        return insert(position, size_type(1), val);'''))
r('pod-align-exact',V,(P,'''        auto offset = alignof(T) - addr % alignof(T);

        uint8_t* fix = reinterpret_cast<uint8_t*>(ptr);
        fix += offset;''','''        auto next = (addr / alignof(T) + 1) * alignof(T);
        auto offset = next - addr;
        uint8_t* fix = static_cast<uint8_t*>(ptr) + offset;'''))
r('pod-align-slack',V,(P,'''auto buf = Alloc::malloc(e2b(num_elements) + alignof(value_type));''','''auto buf = Alloc::malloc(e2b(num_elements) + 2 * alignof(value_type));'''),(P,'(std::max)(offset, alignof(value_type))','(std::max)(offset, 2 * alignof(value_type))'))
r('pod-resize',V,(P,'''        bool ret = reserve(n);
        if (n > size() && Alloc::zero_fill_new())
        {
            std::memset(m_end, 0, e2b(n - size()));
        }
        m_end = m_begin + n;
        return ret;''','''        const auto s = size();
        if (n <= s)
        {
            m_end = m_begin + n;
            return false;
        }
        bool ret = reserve(n);
        if (Alloc::zero_fill_new()) std::fill(m_begin + s, m_begin + n, T{});
        m_end = m_begin + n;
        return ret;'''))
r('pod-assign-realloc',V,(P,'''        a_free_begin();

        m_capacity = get_new_capacity(capacity);
        m_begin = m_end = pointer(a_malloc(m_capacity));''','''        auto nc = get_new_capacity(capacity);
        auto nb = pointer(a_malloc(nc));
        a_free_begin();
        m_capacity = nc;
        m_begin = m_end = nb;'''))
r('pod-take-null',V,(P,'''        m_capacity = (sizeof(U) * other.capacity()) / sizeof(T);''','''        m_capacity = sizeof(U) * other.m_capacity / sizeof(T);'''))

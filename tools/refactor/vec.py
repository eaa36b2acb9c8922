exec(open('/tmp/ref/base.py').read())
SV='small_vector.hpp'; V=['V01','V02','V03']
r('sv-destroy-reverse',V,(SV,'''        for (auto p = m_begin; p != m_end; ++p)
        {
            atraits::destroy(get_alloc(), p);
        }
        m_end = m_begin; // so''','''        while (m_end != m_begin)
        {
            atraits::destroy(get_alloc(), --m_end);
        }
        // so'''))
r('sv-growth2',V,(SV,'''                    ret.cap *= 3;
                    ++ret.cap;
                    ret.cap /= 2;''','''                    ret.cap = 2 * ret.cap + 1;'''),(SV,'''            ret.cap = desired_capacity;
            ret.ptr''','''            ret.cap = desired_capacity < 2 * StaticCapacity ? 2 * StaticCapacity : desired_capacity;
            ret.ptr'''))
r('sv-transfer-helper',V,(SV,'''        // now we need to transfer the existing elements into the new buffer
        for (size_type i = 0; i < s; ++i)
        {
            atraits::construct(get_alloc(), cdr.ptr + i, std::move(*(m_begin + i)));
        }

        // free old elements
        for (size_type i = 0; i < s; ++i)
        {
            atraits::destroy(get_alloc(), m_begin + i);
        }
''','''        for (size_type i = 0; i < s; ++i)
        {
            atraits::construct(get_alloc(), cdr.ptr + i, std::move(m_begin[i]));
            atraits::destroy(get_alloc(), m_begin + i);
        }
'''),(SV,'''            for (; np != position; ++p, ++np)
            {
                atraits::construct(get_alloc(), np, std::move(*p));
            }

            np += num; // hole
            for (; p != m_end; ++p, ++np)
            {
                atraits::construct(get_alloc(), np, std::move(*p));
            }

            // destroy old
            for (p = m_begin; p != m_end; ++p)
            {
                atraits::destroy(get_alloc(), p);
            }
''','''            while (p != m_end)
            {
                if (np == position) np += num;
                atraits::construct(get_alloc(), np, std::move(*p));
                atraits::destroy(get_alloc(), p);
                ++p; ++np;
            }
'''))
r('sv-grow-assign',V,(SV,'''            m_end = m_begin + s + num;

            for (auto p = m_end - num - 1; p >= position; --p)
            {
                atraits::construct(get_alloc(), p + num, std::move(*p));
                atraits::destroy(get_alloc(), p);
            }
''','''            auto p = m_end;
            m_end += num;
            while (p != position)
            {
                --p;
                atraits::construct(get_alloc(), p + num, std::move(*p));
                atraits::destroy(get_alloc(), p);
            }
'''))
r('sv-shrink-tail',V,(SV,'''            for (auto p = m_end - num; p != m_end; ++p)
            {
                atraits::destroy(get_alloc(), p);
            }

            m_end -= num;''','''            for (size_t i = 0; i < num; ++i)
            {
                --m_end;
                atraits::destroy(get_alloc(), m_end);
            }'''),(SV,'''        shrink_at(m_end - 1, 1);''','''        erase(m_end - 1);'''))
r('sv-insert-single',V,(SV,'''        auto pos = grow_at(position, 1);
        atraits::construct(get_alloc(), pos, std::move(val));
        return pos;''','''        return emplace(position, std::move(val));'''),(SV,'''        if (is_own(val)) return push_back(value_type(val)); // growing may move val away
        auto pos = grow_at(m_end, 1);
        atraits::construct(get_alloc(), pos, val);''','''        insert(end(), val);'''),(SV,'''        auto pos = grow_at(m_end, 1);
        atraits::construct(get_alloc(), pos, std::move(val));''','''        insert(end(), std::move(val));'''))
r('sv-is-static',V,(SV,'''        return m_begin == static_begin_ptr();
    }

private:
    struct''','''        return const_cast<const_pointer>(m_begin) == reinterpret_cast<const_pointer>(&m_static_data);
    }

private:
    struct'''),(SV,'''        if (RevertToStaticBelow > 0 && !is_static())
        {
            atraits::deallocate(get_alloc(), m_begin, m_capacity);
            m_begin = m_end = static_begin_ptr();
            m_capacity = StaticCapacity;
        }
        else
        {
            m_end = m_begin;
        }''','''        if (is_static() || RevertToStaticBelow == 0) return;
        const auto old = m_begin;
        const auto cap = m_capacity;
        m_begin = static_begin_ptr();
        m_end = m_begin;
        m_capacity = StaticCapacity;
        atraits::deallocate(get_alloc(), old, cap);'''))
r('sv-eq-std',V,(SV,'''    for (size_t i = 0; i < a.size(); ++i)
    {
        if (!(a[i] == b[i]))
            return false;
    }

    return true;''','''    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!(*i == *j)) return false;
    return true;'''))
r('sv-assign-dealloc-first',V,(SV,'''        const auto cdr = choose_data(count);

        m_end = cdr.ptr;
        for (size_t i=0; i<count; ++i)
        {
            atraits::construct(get_alloc(), m_end, value);
            ++m_end;
        }

        if (!is_static() && m_begin != cdr.ptr)
        {
            atraits::deallocate(get_alloc(), m_begin, m_capacity);
        }

        m_begin = cdr.ptr;
        m_capacity = cdr.cap;''','''        const auto cdr = choose_data(count);

        if (!is_static() && m_begin != cdr.ptr)
        {
            atraits::deallocate(get_alloc(), m_begin, m_capacity);
        }

        m_begin = cdr.ptr;
        m_capacity = cdr.cap;
        for (m_end = m_begin; m_end != m_begin + count; ++m_end) atraits::construct(get_alloc(), m_end, value);'''))

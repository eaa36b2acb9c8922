exec(open('/tmp/ref/base.py').read())
F='flat_map.hpp'; S='flat_set.hpp'
r('fm-insert-helper',['M01','M03'],(F,'''        auto i = lower_bound(val.first);
        if (i != end() && !cmp()(val.first, *i))
        {
            return { i, false };
        }

        return{ m_container.emplace(i, std::forward<P>(val)), true };''','''        auto i = lower_bound(val.first);
        const bool there = i != m_container.end() && !cmp()(val.first, *i);
        if (!there) i = m_container.insert(i, std::forward<P>(val));
        return { i, !there };'''))
r('fm-find-ub',['M01','M03'],(F,'''        auto i = lower_bound(k);
        if (i != end() && !cmp()(k, *i))
            return i;

        return end();''','''        auto i = lower_bound(k);
        return i == end() || cmp()(k, *i) ? end() : i;'''))
r('fm-count',['M01','M03'],(F,'''return find(k) == end() ? 0 : 1;''','''auto r = equal_range(k); return r.second - r.first;'''))
r('fm-at',['M01','M03'],(F,'''        auto i = lower_bound(k);
        if (i == end() || cmp()(k, *i))
        {
            I_ITLIB_THROW_FLAT_MAP_OUT_OF_RANGE();
        }''','''        auto i = find(k);
        if (i == end())
        {
            I_ITLIB_THROW_FLAT_MAP_OUT_OF_RANGE();
        }'''))
r('fm-linear-lb',['M01','M03'],(F,'''        return std::lower_bound(m_container.begin(), m_container.end(), k, cmp());''','''        auto i = m_container.begin();
        while (i != m_container.end() && cmp()(*i, k)) ++i;
        return i;'''))
r('fm-erase-key',['M01','M03'],(F,'''        auto i = find(k);
        if (i == end())
        {
            return 0;
        }
        erase(i);
        return 1;''','''        auto i = find(k);
        if (i == end()) return 0;
        m_container.erase(i);
        return 1;'''))
r('fm-op',['M01','M03'],(F,'''        i = m_container.emplace(i, std::forward<K>(k), mapped_type());
        return i->second;''','''        return m_container.emplace(i, value_type(std::forward<K>(k), mapped_type()))->second;'''))
r('fm-unique',['M01'],(F,'''            return !cmp()(a, b) && !cmp()(b, a);''','''            return !cmp()(a, b);'''))
r('fm-neq',['M01'],(F,'''return a.container() != b.container();''','''return !(a == b);'''))
r('fm-swap',['M01'],(F,'''        std::swap(cmp(), x.cmp());
        m_container.swap(x.m_container);''','''        using std::swap;
        m_container.swap(x.m_container);
        swap(cmp(), x.cmp());'''))
r('fs-find',['M02','M03'],(S,'''        auto i = lower_bound(k);
        if (i != end() && !cmp()(k, *i))
            return i;''','''        auto i = lower_bound(k);
        const bool hit = i != m_container.end() && !cmp()(k, *i);
        if (hit)
            return i;'''))
B='dynamic_bitset.hpp'
r('bs-all-loop',['B01'],(B,'''        auto it = m_buf.begin();
        auto endit = it + m_size / bits_per_word;

        for (; it != endit; ++it)
        {
            if (*it != 0) return true;
        }''','''        for (size_type i = 0; i < m_size; ++i) if (test(i)) return true;
        auto endit = m_buf.end();'''))
r('bs-push',['B01'],(B,'''        resize(m_size + 1);
        set(m_size-1, b);''','''        const auto i = m_size;
        resize(i + 1);
        if (b) set(i); else reset(i);'''))
r('bs-append-bits',['B01'],(B,'''        if (other.empty()) return;

        const auto pad''','''        if (other.empty()) return;
        {
            const auto n = other.m_size, o = m_size;
            resize(o + n);
            for (size_type i = 0; i < n; ++i) set(o + i, other.test(i));
            return;
        }

        const auto pad'''))
r('bs-copy-bits',['B01'],(B,'''        while (from.index % bits_per_word)
        {''','''        while (true)
        {'''))
r('bs-set',['B01'],(B,'''        m_buf[word_index(i)] &= ~word_mask(i);''','''        auto& w = m_buf[word_index(i)];
        w = word_type(w & word_type(~word_mask(i)));'''))
r('bs-reserve-more',['B01'],(B,'m_buf.reserve(word_size(size));','m_buf.reserve(word_size(size) + 1);'))
r('bs-tail-clean',['B01'],(B,'''        m_size = size;
        m_buf.resize(word_size(size));''','''        m_size = size;
        m_buf.resize(word_size(size));
        const auto tail = m_size % bits_per_word;
        if (tail) m_buf.back() &= word_mask(tail) - 1;'''))
U='transparent_umap.hpp'
r('tu-at',['M03'],(U,'''        auto f = this->find(key);
        if (f == this->end()) throw std::out_of_range("transparent_umap::at");
        return f->second;''','''        auto f = this->find(key);
        if (f != this->end()) return f->second;
        throw std::out_of_range("transparent_umap: no such key");'''))
r('tu-super',['M03'],(U,'''        return this->emplace(std::forward<K>(key), T(std::forward<Args>(args)...));
    }
    template <typename K, typename... Args>
    enable_if_tr<K, iterator>''','''        return super::try_emplace(Key(std::forward<K>(key)), std::forward<Args>(args)...);
    }
    template <typename K, typename... Args>
    enable_if_tr<K, iterator>'''))

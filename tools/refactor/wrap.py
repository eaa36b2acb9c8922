exec(open('/tmp/ref/base.py').read())
A='any.hpp'; C=['A01','A02']
r('any-reset',C,(A,'''        if (!m_block) return;
        auto size = m_block->size;
        auto alignment = m_block->alignment;
        m_block->~obj_block();
        free_block(size, alignment);''','''        if (auto b = m_block) {
            m_block = nullptr;
            const auto size = b->size;
            const auto alignment = b->alignment;
            b->~obj_block();
            Alloc::deallocate_bytes(b, size, alignment);
        }'''))
r('any-block-order',C,(A,'''    uint32_t size; // size of block
    uint32_t alignment; // alignment of block''','''    uint64_t alignment; // alignment of block
    uint64_t size; // size of block'''))
r('any-type-virtual',C,(A,'''        if (typeid(T) != a->type()) return nullptr;''','''        if (!(a->type() == typeid(T))) return nullptr;'''))
r('any-copy-tmp',C,(A,'''        if (&o == this) return *this;
        copy_from(o);
        return *this;''','''        if (&o != this) copy_from(o);
        return *this;'''))
r('any-assign-swap',C,(A,'''        std::swap(m_block, tmp.m_block);''','''        auto b = m_block;
        m_block = tmp.m_block;
        tmp.m_block = b;'''))
r('any-emplace-local',C,(A,'''        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(size, alignment));
        try {
            auto r = new (m_block) obj_block_for_t(std::forward<Args>(args)...);
            r->size = size;
            r->alignment = alignment;
            return r->m_data;
        }
        catch (...) {
            free_block(size, alignment);
            throw;
        }''','''        void* mem = Alloc::allocate_bytes(size, alignment);
        obj_block_for_t* r;
        try {
            r = new (mem) obj_block_for_t(std::forward<Args>(args)...);
        }
        catch (...) {
            Alloc::deallocate_bytes(mem, size, alignment);
            throw;
        }
        r->size = size;
        r->alignment = alignment;
        m_block = r;
        return r->m_data;'''))
r('any-move-swap',C,(A,'''        auto block = o.m_block;
        o.m_block = nullptr;
        reset();
        m_block = block;
        return *this;''','''        any tmp(std::move(o));
        std::swap(m_block, tmp.m_block);
        return *this;'''))
U='ufunction.hpp'
r('uf-fwd',['F01'],(U,'''        function::operator=(copy_wrapper<FO>{std::move(f)});''','''        function tmp(copy_wrapper<FO>{std::move(f)});
        function::swap(tmp);'''))
r('uf-null',['F01'],(U,'ufunction(std::nullptr_t) noexcept : function(nullptr) {}','ufunction(std::nullptr_t) noexcept {}'),(U,'{ function::operator=(nullptr); return *this; }','{ function().swap(*this); return *this; }'))
r('uf-move',['F01'],(U,'''    ufunction& operator=(ufunction&&) noexcept = default;''','''    ufunction& operator=(ufunction&& o) noexcept
    {
        function tmp(std::move(static_cast<function&>(o)));
        function::swap(tmp);
        return *this;
    }'''))
r('uf-decltype',['F01'],(U,'auto operator()(Args&&... args) -> decltype(func_object(std::forward<Args>(args)...))','auto operator()(Args&&... args) -> decltype(std::declval<FO&>()(std::forward<Args>(args)...))'))

import sys; sys.path.insert(0,'/tmp/seeds')
from common import *
AN='#include <itlib/any.hpp>\n'+C
s('any-emplace-throw','A02',[('any.hpp','''        catch (...) {
            free_block(size, alignment);
            throw;
        }
    }

    template <typename OAlloc>''','''        catch (...) {
            Alloc::deallocate_bytes(m_block, size, alignment);
            throw;
        }
    }

    template <typename OAlloc>''')],AN+'''
struct X { X(int i) { if (i) throw 1; } };
int main() { itlib::any<> a; bool t = false; try { a.emplace<X>(1); } catch (int) { t = true; } CHECK(t); CHECK(!a.has_value()); }''','the constructor of the emplaced type throws','the any keeps a pointer to the freed block')
s('any-emplace-late-reset','A02',[('any.hpp','''        reset();
        using obj_block_for_t = anyimpl::obj_block_for<T>;''','''        if (m_block) m_block->~obj_block();
        using obj_block_for_t = anyimpl::obj_block_for<T>;'''),('any.hpp','''        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(size, alignment));
        try {
            auto r''','''        if (m_block) free_block(m_block->size, m_block->alignment);
        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(size, alignment));
        try {
            auto r''')],AN+'''
int main() {}''','-','-') if 'any-emplace-late-reset' in which else None
s('any-alignment','A02',[('any.hpp','        constexpr uint32_t alignment = alignof(obj_block_for_t);','        constexpr uint32_t alignment = alignof(std::max_align_t);')],AN+'''
#include <cstddef>
struct alignas(64) X { char c[64]; };
struct Al { void* allocate_bytes(size_t n, size_t a) { CHECK(a == 64); return aligned_alloc(a, n); } void deallocate_bytes(void* p, size_t, size_t a) noexcept { CHECK(a == 64); free(p); } };
int main() { itlib::any<Al> a; a.emplace<X>(); CHECK(size_t(a.data()) % 64 == 0); }''','a type aligned more strictly than max_align_t','the block requested is not aligned for it')
s('any-reuse-block','A01',[('any.hpp','''        reset();
        using obj_block_for_t = anyimpl::obj_block_for<T>;''','''        if (m_block && typeid(T) == type()) return *static_cast<T*>(data()) = T(std::forward<Args>(args)...);
        reset();
        using obj_block_for_t = anyimpl::obj_block_for<T>;''')],AN+'''
int main() {}''','-','-') if 'any-reuse-block' in which else None
s('any-cast-derived','A01',[('any.hpp','''T* any_cast(any<Alloc>* a) {
    if (!a) return nullptr;
    if (typeid(T) != a->type()) return nullptr;''','''T* any_cast(any<Alloc>* a) {
    if (!a) return nullptr;
    if (a->type().before(typeid(T))) return nullptr;
    if (a->type() != typeid(T)) return nullptr;
    if (!a->has_value()) return nullptr;''')] if 0 else [('any.hpp','''T* any_cast(any<Alloc>* a) {
    if (!a) return nullptr;
    if (typeid(T) != a->type()) return nullptr;''','''T* any_cast(any<Alloc>* a) {
    if (!a) return nullptr;
    if (typeid(T).hash_code() % 1024 != a->type().hash_code() % 1024) return nullptr;''')],AN+'''
template <int N> struct Q { int i = N; };
template <int... I> int hits(itlib::any<>& a, std::integer_sequence<int, I...>) { int n = 0; int x[] = { (n += itlib::any_cast<Q<I>>(&a) != nullptr)... }; (void)x; return n; }
int main() { itlib::any<> a; int total = 0; a = Q<3>(); total += hits(a, std::make_integer_sequence<int, 600>()); a = Q<700>(); total += hits(a, std::make_integer_sequence<int, 900>()); a = Q<7>(); total += hits(a, std::make_integer_sequence<int, 900>()); CHECK(total == 3); }''','-','-') if 'any-cast-derived' in which else None
s('any-cast-rvalue-copy','A01',[('any.hpp','T any_cast(any<Alloc>&& a) { return std::move(anyimpl::do_cast<T&>(a)); }','T any_cast(any<Alloc>&& a) { T ret = std::move(anyimpl::do_cast<T&>(a)); a.reset(); return ret; }')],AN+'''
int main() { itlib::any<> a = 5; int i = itlib::any_cast<int>(std::move(a)); CHECK(i == 5); CHECK(a.has_value()); CHECK(itlib::any_cast<int>(a) == 5); }''','any_cast from an rvalue any which is used afterwards','the any is emptied')
s('any-move-source','A01',[('any.hpp','''    any(any&& o) noexcept : Alloc(o), m_block(o.m_block) {
        o.m_block = nullptr;
    }''','''    any(any&& o) noexcept : Alloc(o), m_block(nullptr) {
        if (o.m_block && o.m_block->size > sizeof(anyimpl::obj_block) + sizeof(void*)) std::swap(m_block, o.m_block);
        else if (o.m_block) copy_from(o);
    }''')],AN+'''
int main() { itlib::any<> a = 5; itlib::any<> b = std::move(a); CHECK(itlib::any_cast<int>(b) == 5); CHECK(!a.has_value()); }''','move construction of an any which holds a small value','the source keeps its value') 
E='#include <itlib/expected.hpp>\n'+C+'''
static int alive; struct V { int i; V(int i = 0) : i(i) { ++alive; } V(V&& o) noexcept : i(o.i) { ++alive; o.i = -1; } V(const V& o) : i(o.i) { ++alive; } V& operator=(V&& o) noexcept { i = o.i; o.i = -1; return *this; } V& operator=(const V&) = default; ~V() { --alive; } };
struct Er : V { using V::V; };
'''
s('exp-ref-error-leak','E01',[('expected.hpp','''        else if (!m_value && other.m_value)
        {
            m_value = other.m_value;
            m_error.~E();
        }''','''        else if (!m_value && other.m_value)
        {
            m_value = other.m_value;
        }''')],E+'''
int main() { int x = 5; { itlib::expected<int&, Er> a = itlib::unexpected(Er(3)), b = x; CHECK(alive == 1); a = std::move(b); CHECK(&*a == &x); CHECK(alive == 0); } CHECK(alive == 0); }''','an expected of a reference which holds an error is assigned a value','the error is never destroyed')
s('exp-void-both-errors','E01',[('expected.hpp','''        else if (!m_has_value)
        {
            m_error = std::move(other.m_error);
        }
        return *this;
    }

    ~expected()
    {
        if (!m_has_value)''','''        else if (!m_has_value)
        {
            ::new (&m_error) E(std::move(other.m_error));
        }
        return *this;
    }

    ~expected()
    {
        if (!m_has_value)''')],E+'''
int main() { { itlib::expected<void, Er> a = itlib::unexpected(Er(3)), b = itlib::unexpected(Er(4)); a = std::move(b); CHECK(a.error().i == 4); CHECK(alive == 2); } CHECK(alive == 0); }''','both sides of the assignment hold errors','the old error is overwritten without being destroyed')
s('exp-valueor-moves','E01',[('expected.hpp','''    T value_or(U&& v) const & { return has_value() ? value() : std::forward<U>(v); }
    template <typename U>
    T value_or(U&& v) && { return has_value() ? std::move(value()) : std::forward<U>(v); }

    T* operator->() { return &value(); }
    const T* operator->() const { return &value(); }

    // error getters

    E& error() &''','''    T value_or(U&& v) const & { return has_value() ? value() : std::move(v); }
    template <typename U>
    T value_or(U&& v) && { return has_value() ? std::move(value()) : std::forward<U>(v); }

    T* operator->() { return &value(); }
    const T* operator->() const { return &value(); }

    // error getters

    E& error() &''')],E+'''
int main() { itlib::expected<std::string, int> e = itlib::unexpected(3); std::string d(50, 'x'); auto r = e.value_or(d); CHECK(r.size() == 50); CHECK(d.size() == 50); }''','value_or of an lvalue expected which holds an error, with an lvalue argument','the argument is moved from')
s('exp-value-to-error-flag','E01',[('expected.hpp','''        else if(m_has_value && !other.has_value())
        {
            m_has_value = false;
            m_value.~T();
            ::new (&m_error) E(std::move(other.m_error));
        }''','''        else if(m_has_value && !other.has_value())
        {
            m_value.~T();
            ::new (&m_error) E(std::move(other.m_error));
            other.m_error.~E();
            ::new (&other.m_value) T();
            std::swap(m_has_value, other.m_has_value);
        }''')],E+'''
int main() { itlib::expected<V, Er> a = V(3), b = itlib::unexpected(Er(4)); a = std::move(b); CHECK(!a && a.error().i == 4); CHECK(!b); }''','assigning an error to an expected which holds a value','the source becomes a value')
s('exp-opt-copy-dtor','E01',[('expected.hpp','''        if (m_has_value && other.has_value())
        {
            m_value = other.m_value;
        }
        else if (m_has_value && !other.has_value())
        {
            m_has_value = false;
            m_value.~T();
        }''','''        if (m_has_value && other.has_value())
        {
            m_value = other.m_value;
        }
        else if (m_has_value && !other.has_value())
        {
            m_has_value = false;
        }''')],E+'''
int main() { { itlib::expected<V, void> a = V(3), b = itlib::unexpected(); a = b; CHECK(!a); CHECK(alive == 0); } CHECK(alive == 0); }''','copying an empty expected<T, void> over one with a value','the value is never destroyed')
U='#include <itlib/ufunction.hpp>\n'+C
s('uf-copy-in','F01',[('ufunction.hpp','        copy_wrapper(copy_wrapper&& other) noexcept : func_object(std::move(other.func_object)) {}','        copy_wrapper(copy_wrapper&& other) noexcept : func_object(static_cast<typename std::conditional<std::is_copy_constructible<FO>::value, const FO&, FO&&>::type>(other.func_object)) {}')],U+'''
int copies; struct Fn { std::string s; Fn(std::string x) : s(x) {} Fn(const Fn& o) : s(o.s) { ++copies; } Fn(Fn&& o) noexcept : s(std::move(o.s)) {} size_t operator()() { return s.size(); } };
int main() { itlib::ufunction<size_t()> f(Fn(std::string(30, 'x'))); CHECK(f() == 30); CHECK(copies == 0); }''','a callable which is copyable','the callable is copied into the function')
s('uf-args-by-value','F01',[('ufunction.hpp','''        template <typename... Args>
        auto operator()(Args&&... args) -> decltype(func_object(std::forward<Args>(args)...))
        {
            return func_object(std::forward<Args>(args)...);''','''        template <typename... Args>
        auto operator()(Args&&... args) -> decltype(func_object(std::forward<Args>(args)...))
        {
            auto call = [this](Args... a) -> decltype(func_object(std::forward<Args>(args)...)) { return func_object(std::forward<Args>(a)...); };
            return call(std::forward<Args>(args)...);''')],U+'''
int moves; struct X { X() {} X(const X&) {} X(X&&) { ++moves; } };
int main() { const X* seen = nullptr; itlib::ufunction<void(X)> f([&](X&& x) { seen = &x; }); f(X()); int base = moves; CHECK(base <= 1); }''','-','-') if 'uf-args-by-value' in which else None
s('uf-move-assign-swap','F01',[('ufunction.hpp','    ufunction& operator=(ufunction&&) noexcept = default;','    ufunction& operator=(ufunction&& o) noexcept { this->swap(o); return *this; }')],U+'''
int main() { auto p = std::make_shared<int>(1); itlib::ufunction<int()> a = [p] { return *p; }, b = [] { return 2; }; a = std::move(b); CHECK(a() == 2); CHECK(p.use_count() == 1); CHECK(!b); }''','move assignment to a function which owns a callable','the old callable stays alive in the source') 
G='#include <itlib/generator.hpp>\n'+C
s('gen-clear-late','G01',[('generator.hpp','''        p.clear_value();
        h.resume();
        if''','''        h.resume();
        if (h.done()) p.clear_value();
        if''')],G+'''
int alive; struct X { int i; X(int i) : i(i) { ++alive; } X(X&& o) noexcept : i(o.i) { ++alive; } ~X() { --alive; } };
static int seen;
itlib::generator<X> gen() { co_yield X(1); seen = alive; co_yield X(2); }
int main() { { auto g = gen(); auto it = g.begin(); CHECK((*it).i == 1); ++it; CHECK((*it).i == 2); } CHECK(seen == 0); CHECK(alive == 0); }''','iterating with range-for over values with observable lifetime','a value is kept alive while the coroutine produces the next one',std='c++20')
s('gen-exception-sticky','G01',[('generator.hpp','''        if (p.m_exception) {
            std::rethrow_exception(p.m_exception);
        }''','''        if (p.m_exception) {
            auto e = std::exchange(p.m_exception, nullptr);
            h.destroy();
            h = nullptr;
            std::rethrow_exception(e);
        }''')],G+'''
itlib::generator<int> gen() { co_yield 1; throw 5; }
int main() { auto g = gen(); CHECK(*g.next() == 1); bool t = false; try { g.next(); } catch (int) { t = true; } CHECK(t); CHECK(g.done()); CHECK(!g.next()); }''','a generator is used after its coroutine threw','the generator has no coroutine any more and next crashes',std='c++20')
s('gen-reset-dangling','G01',[('generator.hpp','''    void reset() noexcept {
        if (m_handle) m_handle.destroy();
        m_handle = nullptr;
    }''','''    void reset() noexcept {
        if (!m_handle || m_handle.done()) return;
        m_handle.destroy();
        m_handle = nullptr;
    }''')],G+'''
itlib::generator<int> gen(std::shared_ptr<int> p) { co_yield *p; }
int main() { auto p = std::make_shared<int>(1); auto g = gen(p); g.next(); g.next(); CHECK(g.done()); g.reset(); CHECK(!g); CHECK(p.use_count() == 1); }''','reset of a generator which has finished','the coroutine is not destroyed and the generator is not empty',std='c++20')
s('gen-next-prefetch','G01',[('generator.hpp','''        safe_resume(m_handle);
        return std::move(m_handle.promise().m_val);''','''        safe_resume(m_handle);
        generator_value<T> ret = std::move(m_handle.promise().m_val);
        if constexpr (!std::is_reference_v<T>) if (!done() && !ret) safe_resume(m_handle);
        return ret;''')],G+'''
int main() {}''','-','-') if 'gen-next-prefetch' in which else None
PM='#include <itlib/pmr_allocator.hpp>\n'+C+'''
struct R : std::pmr::memory_resource { struct B { void* p; size_t n, a; }; std::vector<B> bs; void* do_allocate(size_t n, size_t a) override { void* p = aligned_alloc(a < 16 ? 16 : a, (n + 127) / 128 * 128); bs.push_back({p, n, a}); return p; } void do_deallocate(void* p, size_t n, size_t a) override { for (auto& b : bs) if (b.p == p) { CHECK(b.n == n && b.a == a); b = bs.back(); bs.pop_back(); free(p); return; } CHECK(false); } bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } };
'''
s('pmr-dealloc-count','L01',[('pmr_allocator.hpp','        deallocate_bytes(p, n * sizeof(U), alignof(U));','        (void)n;\n        deallocate_bytes(p, sizeof(U), alignof(U));')],PM+'''
int main() { R r; itlib::pmr_allocator<> a(&r); auto p = a.allocate_object<int>(3); a.deallocate_object(p, 3); CHECK(r.bs.empty()); }''','deallocate_object of more than one object','the resource gets back a smaller block than it handed out')
s('pmr-bytes-align','L01',[('pmr_allocator.hpp','        return resource()->allocate(n, a);','        return resource()->allocate(n, a < alignof(std::max_align_t) ? alignof(std::max_align_t) : a);')],PM+'''
int main() { R r; itlib::pmr_allocator<> a(&r); auto p = a.allocate_bytes(8, 4); a.deallocate_bytes(p, 8, 4); auto q = a.allocate_object<char>(); a.deallocate_object(q); CHECK(r.bs.empty()); }''','allocations with an alignment smaller than the default one','blocks are returned with another alignment than they were allocated with')
s('pmr-new-throw','L01',[('pmr_allocator.hpp','''            deallocate_object(p);
            throw;''','''            p->~U();
            deallocate_object(p);
            throw;''')],PM+'''
static int dtors; struct X { X(int) { throw 1; } ~X() { ++dtors; } };
int main() { R r; itlib::pmr_allocator<> a(&r); bool t = false; try { (void)a.new_object<X>(1); } catch (int) { t = true; } CHECK(t && r.bs.empty()); CHECK(dtors == 0); }''','new_object of a type whose constructor throws','the destructor runs for an object which was never constructed')

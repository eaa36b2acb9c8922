// Instrumented element types and allocators shared by the harnesses.
#pragma once
#include "mc.hpp"

namespace mc {

// ---------------------------------------------------------------- registry of live objects
struct Registry {
    static constexpr size_t N = 1024;
    const void* slot[N];
    size_t live = 0, total = 0;
    Registry() { memset(slot, 0, sizeof slot); }
    void clear() { if (total) memset(slot, 0, sizeof slot); live = 0; total = 0; }
    static size_t h(const void* p) { return (reinterpret_cast<uintptr_t>(p) * 0x9E3779B97F4A7C15ull) >> 54; }
    size_t find(const void* p) const {
        for (size_t i = h(p), n = 0; n < N; i = (i + 1) % N, ++n) { if (slot[i] == p) return i; if (!slot[i]) return N; }
        return N;
    }
    bool has(const void* p) const { return find(p) != N; }
    void add(const void* p) {
        if (live * 2 > N) fail("too many live objects");
        size_t i = h(p);
        while (slot[i]) i = (i + 1) % N;
        slot[i] = p; ++live; ++total;
    }
    void del(const void* p) {
        size_t i = find(p);
        slot[i] = nullptr; --live;
        for (size_t j = (i + 1) % N; slot[j]; j = (j + 1) % N) {   // close the probe chain
            const void* q = slot[j]; slot[j] = nullptr;
            size_t k = h(q); while (slot[k]) k = (k + 1) % N; slot[k] = q;
        }
    }
    size_t within(const void* b, const void* e) const {
        size_t n = 0;
        for (auto s : slot) if (s && s >= b && s < e) ++n;
        return n;
    }
};
inline Registry reg;
struct AllocRegistry : Registry {};
inline AllocRegistry areg;   // those of them which were constructed through an allocator's construct()

inline long n_copies = 0, n_moves = 0, n_defaults = 0, n_values = 0, n_dtors = 0, n_assigns = 0;
inline int throw_in = 0;     // >0: the throw_in-th throwing construction/assignment from now throws
struct Boom { int v; };
inline void maybe_throw() { if (throw_in > 0 && --throw_in == 0) throw Boom{1}; }
inline void reset_counts() { n_copies = n_moves = n_defaults = n_values = n_dtors = n_assigns = 0; }

enum { MOVED = -77 };

template <size_t Align, int Tag>
struct alignas(Align) TrackedBase {
    int v;
    const TrackedBase* self;
    void born() {
        if (reg.has(this)) fail("object constructed over a live object");
        if (reinterpret_cast<uintptr_t>(this) % Align) fail("object constructed at a misaligned address");
        reg.add(this); self = this;
    }
    void alive(const char* what) const {
        if (!reg.has(this)) fail("%s: object is not alive", what);
        if (self != this) fail("%s: object was relocated without its constructor", what);
    }
    TrackedBase() : v(0) { maybe_throw(); born(); ++n_defaults; }
    TrackedBase(int i) : v(i) { maybe_throw(); born(); ++n_values; }
    TrackedBase(int a, int b) : v(a + b) { maybe_throw(); born(); ++n_values; }
    TrackedBase(const TrackedBase& o) { o.alive("copy source"); maybe_throw(); v = o.v; born(); ++n_copies; }
    TrackedBase(TrackedBase&& o) noexcept { o.alive("move source"); v = o.v; born(); o.v = MOVED; ++n_moves; }
    TrackedBase& operator=(const TrackedBase& o) { alive("assignment target"); o.alive("assignment source"); maybe_throw(); v = o.v; ++n_assigns; return *this; }
    TrackedBase& operator=(TrackedBase&& o) noexcept {
        alive("assignment target"); o.alive("assignment source");
        int x = o.v; if (&o != this) o.v = MOVED; v = x; ++n_assigns; return *this;
    }
    ~TrackedBase() { alive("destructor"); if (areg.live && areg.has(this)) fail("an element constructed through the allocator was destroyed without it"); reg.del(this); v = -99; self = nullptr; ++n_dtors; }
    int get() const { alive("read"); return v; }
    friend bool operator==(const TrackedBase& a, const TrackedBase& b) { return a.get() == b.get(); }
    friend bool operator<(const TrackedBase& a, const TrackedBase& b) { return a.get() < b.get(); }
};
using Tracked = TrackedBase<8, 0>;

// move-only
struct MoveOnly : TrackedBase<8, 1> {
    using TrackedBase<8, 1>::TrackedBase;
    MoveOnly() = default;
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&&) noexcept = default;
    MoveOnly& operator=(MoveOnly&&) noexcept = default;
};
// move may throw, so that code which looks at nothrow traits takes its other branch
struct ThrowMove : TrackedBase<8, 2> {
    using TrackedBase<8, 2>::TrackedBase;
    ThrowMove() = default;
    ThrowMove(const ThrowMove&) = default;
    ThrowMove& operator=(const ThrowMove&) = default;
    ThrowMove(ThrowMove&& o) noexcept(false) : TrackedBase<8, 2>(std::move(o)) {}
    ThrowMove& operator=(ThrowMove&& o) noexcept(false) { TrackedBase<8, 2>::operator=(std::move(o)); return *this; }
};
// copyable, no move operations declared
struct CopyOnly : TrackedBase<8, 3> {
    using TrackedBase<8, 3>::TrackedBase;
    CopyOnly() = default;
    CopyOnly(const CopyOnly&) = default;
    CopyOnly& operator=(const CopyOnly&) = default;
};
using OverAligned = TrackedBase<64, 4>;

template <class T, class = void> struct is_tracked : std::false_type {};
template <class T> struct is_tracked<T, mc::void_t<decltype(std::declval<T&>().self)>> : std::true_type {};

template <class T> int idof(const T& t) {
    if constexpr (std::is_arithmetic<T>::value) return int(t);
    else if constexpr (std::is_same<T, std::string>::value) return t.empty() ? 0 : atoi(t.c_str());
    else return t.get();
}
template <class T, class = void> struct has_of : std::false_type {};
template <class T> struct has_of<T, mc::void_t<decltype(T::of(1))>> : std::true_type {};
template <class T> T make(int id) {
    if constexpr (has_of<T>::value) return T::of(id); else
    if constexpr (std::is_same<T, std::string>::value) return id == 0 ? std::string() : std::to_string(id) + std::string(id % 2 ? 3 : 30, 'x');
    else return T(id);
}

// ---------------------------------------------------------------- instrumented allocator
struct AllocLog {
    struct B { void* p; size_t n; size_t sz; int id; };
    std::vector<B> blocks;
    long allocs = 0, deallocs = 0;
    int fail_in = 0;          // >0: the fail_in-th allocation from now fails
    AllocLog() { blocks.reserve(64); }
    void reset() {
        if (blocks.capacity() < 64) { Quiet q; blocks.reserve(64); }
        allocs = deallocs = 0; fail_in = 0;
    }
    void* allocate(size_t n, size_t sz, size_t al, int id) {
        if (fail_in > 0 && --fail_in == 0) throw std::bad_alloc();
        if (n == 0) fail("allocation of zero elements");
        if (n > (size_t(1) << 24)) throw std::bad_alloc();
        if (blocks.size() >= 64) fail("too many live blocks");
        void* p = nullptr;
        if (posix_memalign(&p, std::max<size_t>(al, sizeof(void*)), n * sz)) throw std::bad_alloc();
        memset(p, 0xA5, n * sz);
        blocks.push_back({p, n, sz, id}); ++allocs;
        return p;
    }
    void deallocate(void* p, size_t n, size_t sz, int id) {
        for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i].p == p) {
            if (blocks[i].n != n || blocks[i].sz != sz) fail("block of %zu x %zu bytes returned as %zu x %zu", blocks[i].n, blocks[i].sz, n, sz);
            if (blocks[i].id != id) fail("block of allocator %d returned to unequal allocator %d", blocks[i].id, id);
            if (reg.within(p, static_cast<char*>(p) + n * sz)) fail("block freed while objects in it are alive");
            blocks[i] = blocks.back(); blocks.pop_back(); ++deallocs;
            free(p);
            return;
        }
        fail("deallocation of a block that was not allocated here (or twice)");
    }
    const B* containing(const void* p) const {
        for (auto& b : blocks) if (p >= b.p && p < static_cast<char*>(b.p) + b.n * b.sz) return &b;
        return nullptr;
    }
};
inline AllocLog alog;

// Propagate: value of the three propagation traits
template <class T, bool Propagate = false>
struct TrackAlloc {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, Propagate>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, Propagate>;
    using propagate_on_container_swap = std::integral_constant<bool, Propagate>;
    template <class U> struct rebind { using other = TrackAlloc<U, Propagate>; };
    int id;
    TrackAlloc() : id(0) {}
    explicit TrackAlloc(int i) : id(i) {}
    template <class U> TrackAlloc(const TrackAlloc<U, Propagate>& o) : id(o.id) {}
    T* allocate(size_t n) { return static_cast<T*>(alog.allocate(n, sizeof(T), alignof(T), id)); }
    void deallocate(T* p, size_t n) { alog.deallocate(p, n, sizeof(T), id); }
    TrackAlloc select_on_container_copy_construction() const { return TrackAlloc(id + 100); }
    template <class U, class... Args> void construct(U* p, Args&&... args) {
        ::new (static_cast<void*>(p)) U(std::forward<Args>(args)...);
        if constexpr (is_tracked<U>::value) areg.add(p);
    }
    template <class U> void destroy(U* p) {
        if constexpr (is_tracked<U>::value) { if (!areg.has(p)) fail("the allocator destroys an object which it did not construct"); areg.del(p); }
        p->~U();
    }
    template <class U> friend bool operator==(const TrackAlloc& a, const TrackAlloc<U, Propagate>& b) { return a.id == b.id; }
    template <class U> friend bool operator!=(const TrackAlloc& a, const TrackAlloc<U, Propagate>& b) { return a.id != b.id; }
};

// ---------------------------------------------------------------- pod_vector allocation policies
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
struct PodLog {
    struct B { char* raw; char* p; size_t size, phys; int id; };
    std::vector<B> blocks;
    long mallocs = 0, frees = 0, reallocs = 0, expands = 0;
    unsigned phase = 0;                 // where the next block lies: aligned as promised and no more, by luck fully, or as promised before a boundary
    void reset() { if (blocks.capacity() < 64) { Quiet q; blocks.reserve(64); } phase = 0; mallocs = frees = reallocs = expands = 0; }
    void* get(size_t size, size_t align, size_t phys, int id) {
        if (size > (size_t(1) << 26)) fail("malloc(%zu) requested", size);
        if (blocks.size() >= 64) fail("too many live blocks");
        phys = std::max(phys, size) + 1;
        void* raw = nullptr;
        if (posix_memalign(&raw, 256, phys + 768)) fail("harness error: out of memory");
        const size_t at[3] = {align, 0, 256 - align};
        char* p = static_cast<char*>(raw) + 256 + at[phase];
        phase = (phase + 1) % 3;
        memset(raw, 0xA5, phys + 768);
        __asan_poison_memory_region(raw, phys + 768);
        __asan_unpoison_memory_region(p, size);
        blocks.push_back({static_cast<char*>(raw), p, size, phys, id});
        return p;
    }
    B& find(void* p, int id, const char* what) {
        for (auto& b : blocks) if (b.p == p) { if (b.id != id) fail("%s: block of allocator %d given to allocator %d", what, b.id, id); return b; }
        fail("%s of memory which was not allocated by the policy", what);
    }
    void put(void* p, int id) {
        auto& b = find(p, id, "free");
        __asan_unpoison_memory_region(b.raw, b.phys + 768);
        std::free(b.raw);
        b = blocks.back(); blocks.pop_back();
    }
    bool resize(B& b, size_t n) {
        if (n > b.phys - 1) return false;
        __asan_poison_memory_region(b.raw, b.phys + 768);
        b.size = n;
        __asan_unpoison_memory_region(b.p, n);
        return true;
    }
    const B* containing(const void* p) const { for (auto& b : blocks) if (p >= b.p && p < b.p + std::max<size_t>(b.size, 1)) return &b; return nullptr; }
};
inline PodLog plog;

// Align: guaranteed alignment, Expand: offers expand instead of realloc, Slack: blocks can grow in place up to Slack bytes,
// Wasteful: realloc_wasteful_copy_size, Zero: zero_fill_new, Shrink: expand can shrink
template <size_t Align, bool Expand, size_t Slack, size_t Wasteful, bool Zero, bool Shrink = true>
struct PodAlloc {
    using size_type = size_t;
    int id;
    explicit PodAlloc(int i = 0) : id(i) {}
    void* malloc(size_type n) const { ++plog.mallocs; return plog.get(n, Align, Slack, id); }
    void free(void* p) const { if (!p) return; ++plog.frees; plog.put(p, id); }
    static constexpr size_type max_size() { return ~size_type(0); }
    static constexpr bool zero_fill_new() { return Zero; }
    static constexpr size_type alloc_align() { return Align; }
    static constexpr bool has_expand() { return Expand; }
    static constexpr size_type realloc_wasteful_copy_size() { return Wasteful; }
    bool expand(void* p, size_type n) const {
        if (!Expand) fail("expand used on a policy without it");
        ++plog.expands;
        auto& b = plog.find(p, id, "expand");
        if (!Shrink && n < b.size) return false;
        return plog.resize(b, n);
    }
    void* realloc(void* p, size_type n) const {
        if (Expand) fail("realloc used on a policy with expand");
        ++plog.reallocs;
        if (!p) return plog.get(n, Align, Slack, id);
        auto& b = plog.find(p, id, "realloc");
        if (n == 0) fail("realloc to zero bytes");
        if (Slack && plog.resize(b, n)) return p;
        size_t old = b.size;
        void* q = plog.get(n, Align, Slack, id);
        memcpy(q, p, std::min(old, n));
        plog.put(p, id);
        return q;
    }
};

// ---------------------------------------------------------------- object storage between guard bytes
template <class T>
struct Guarded {
    unsigned char pre[64];
    alignas(T) unsigned char buf[sizeof(T)];
    unsigned char post[64];
    bool on = false;
    Guarded() { memset(pre, 0xC3, sizeof pre); memset(post, 0xC3, sizeof post); memset(buf, 0xEE, sizeof buf); }
    Guarded(const Guarded&) = delete;
    template <class... A> T& make(A&&... a) { ::new (static_cast<void*>(buf)) T(std::forward<A>(a)...); on = true; return get(); }
    T& get() { return *reinterpret_cast<T*>(buf); }
    void kill() { if (on) { on = false; get().~T(); } }
    void check() const {
        for (auto c : pre) if (c != 0xC3) fail("memory before the object was overwritten");
        for (auto c : post) if (c != 0xC3) fail("memory after the object was overwritten");
    }
    bool holds(const void* p) const { return p >= buf && p < buf + sizeof buf; }
    ~Guarded() { kill(); check(); }
};
}

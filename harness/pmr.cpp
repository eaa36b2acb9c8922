// L01: pmr_allocator against recording memory resources
#include "tracked.hpp"
#include <itlib/pmr_allocator.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/any.hpp>
#include <itlib/small_vector.hpp>
using namespace mc;

struct Rec { size_t n, a; int id; };
static std::map<void*, Rec> blocks; static int fail_in; static long n_allocs;
struct Res : std::pmr::memory_resource {
    int id, group;
    Res(int i, int g) : id(i), group(g) {}
    void* do_allocate(size_t n, size_t a) override {
        if (fail_in > 0 && --fail_in == 0) throw std::bad_alloc();
        if (!a || (a & (a - 1))) fail("allocation aligned to %zu", a);
        if (n > (size_t(1) << 30)) { throw std::bad_alloc(); }
        void* raw; if (posix_memalign(&raw, 256, n + 1024)) fail("harness: no memory");
        char* p = static_cast<char*>(raw) + 256 + (a < 256 ? a : 256);
        __asan_poison_memory_region(raw, n + 1024); __asan_unpoison_memory_region(p, n); memset(p, 0xA5, n);
        Quiet q; blocks[p] = {n, a, group}; ++n_allocs; return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        auto i = blocks.find(p); if (i == blocks.end()) fail("deallocation of something which is not allocated");
        if (i->second.n != n || i->second.a != a) fail("block of %zu bytes aligned to %zu returned as %zu bytes aligned to %zu", i->second.n, i->second.a, n, a);
        if (i->second.id != group) fail("block returned to another resource");
        if (reg.within(p, static_cast<char*>(p) + n)) fail("block freed while an object in it is alive");
        char* raw = static_cast<char*>(p) - 256 - (a < 256 ? a : 256); __asan_unpoison_memory_region(raw, n + 1024); free(raw);
        Quiet q; blocks.erase(i);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { auto p = dynamic_cast<const Res*>(&o); return p && p->group == group; }
};
static const Rec& block(void* p, const char* w) { auto i = blocks.find(p); if (i == blocks.end()) fail("%s: the memory does not come from the resource", w); return i->second; }

struct Two : TrackedBase<8, 11> { Two(int a, std::unique_ptr<int>&& p) : TrackedBase<8, 11>(a + *p) { auto q = std::move(p); } };
struct UsesAlloc {      // allocator-extended construction
    typedef std::pmr::polymorphic_allocator<std::byte> allocator_type;
    std::pmr::memory_resource* r; int v;
    UsesAlloc(int a, const allocator_type& al) : r(al.resource()), v(a) {}
};
struct Big { char c[4096]; };
struct Cfg { bool faults = true; };
template <class T> struct World {
    typedef itlib::pmr_allocator<T> A;
    Res r1{1, 1}, r2{2, 2}, r3{3, 1};
    struct Held { int kind, res, n; void* p; int v; };
    std::vector<Held> held;
    std::optional<std::vector<Tracked, itlib::pmr_allocator<Tracked>>> vec; std::vector<int> mvec; int vres = 0;
    int next = 1;
    World(const Cfg&) { reg.clear(); reset_counts(); fail_in = throw_in = 0; held.reserve(8); mvec.reserve(16); std::pmr::set_default_resource(&r2); }
    ~World() { std::pmr::set_default_resource(nullptr); }
    A al(int i) { return i == 0 ? A(&r1) : i == 1 ? A(&r2) : A(&r3); }
    static int group(int i) { return i == 1 ? 2 : 1; }
    enum { ALLOC, BYTES, BYTES_DEF, OBJ, OBJ_OVER, NEW, NEW_TWO, NEW_OVER, NEW_USES, FREE, FREE_VIA_COPY, HUGE, HUGE_OBJ, HUGE_OBJ_OVER, EQ, VPUSH, VCOPY, VMOVE, VASSIGN, VCLEAR, VNEW, CONTAINERS, ANY, RAW };
    static std::string text(const Cfg&, const Op& o) {
        static const char* n[] = {"allocate", "allocate_bytes", "allocate_bytes with default alignment", "allocate_object<Tracked>", "allocate_object<OverAligned>", "new_object<Tracked>", "new_object from 2 arguments", "new_object<OverAligned>", "new_object of allocator-aware type", "free", "free through another allocator with an equal resource", "allocate huge", "allocate_object huge", "allocate_object<OverAligned> huge", "compare", "vector push_back", "vector copy", "vector move", "vector assign", "vector clear and shrink", "new vector", "map and string", "any", "small things"};
        return std::string(n[o.code]) + " " + std::to_string(o.a) + " resource " + std::to_string(o.b) + (o.c ? o.c == 7 ? " [constructor throws]" : " [allocation fails]" : "");
    }
    void enumerate(std::vector<Op>& out) {
        if (held.size() < 3) for (int r = 0; r < 3; ++r) {
            for (int n : {1, 3, 7}) { out.push_back(Op{ALLOC, n, r, 0}); out.push_back(Op{OBJ, n, r, 0}); }
            out.push_back(Op{OBJ_OVER, 2, r, 0}); out.push_back(Op{BYTES_DEF, 5, r, 0}); for (int a : {1, 2, 16, 64}) out.push_back(Op{BYTES, a, r, 0});
            for (int code : {ALLOC, OBJ, NEW, NEW_TWO, NEW_OVER, NEW_USES, BYTES}) { out.push_back(Op{code, 1, r, 1}); if (code >= NEW) { out.push_back(Op{code, 1, r, 0}); if (code != NEW_USES) out.push_back(Op{code, 1, r, 7}); } }
        }
        for (int i = 0; i < int(held.size()); ++i) { out.push_back(Op{FREE, i, 0, 0}); if (held[size_t(i)].res != 1) out.push_back(Op{FREE_VIA_COPY, i, 0, 0}); }
        for (int r = 0; r < 3; ++r) { for (int k = 0; k < 6; ++k) { out.push_back(Op{HUGE, k, r, 0}); out.push_back(Op{HUGE_OBJ, k, r, 0}); out.push_back(Op{HUGE_OBJ_OVER, k, r, 0}); } for (int q = 0; q < 3; ++q) out.push_back(Op{EQ, q, r, 0}); out.push_back(Op{CONTAINERS, 0, r, 0}); out.push_back(Op{ANY, 0, r, 0}); out.push_back(Op{RAW, 0, r, 0}); }
        if (!vec) for (int r = 0; r < 3; ++r) out.push_back(Op{VNEW, 0, r, 0});
        else { if (mvec.size() < 5) for (int f : {0, 1, 7}) out.push_back(Op{VPUSH, 0, 0, f}); out.push_back(Op{VCLEAR, 0, 0, 0}); for (int r = 0; r < 3; ++r) { for (int f : {0, 1, 7}) { out.push_back(Op{VCOPY, 0, r, f}); out.push_back(Op{VASSIGN, 0, r, f}); } out.push_back(Op{VMOVE, 0, r, 0}); } }
    }
    template <class F> int run(const Op& o, F f) {
        if (o.c == 7) throw_in = 1; else fail_in = o.c;
        int r = 0; size_t b0 = blocks.size(); size_t l0 = reg.live;
        try { f(); } catch (Boom&) { r = 1; if (o.c != 7) fail("stray exception"); } catch (std::bad_alloc&) { r = 2; if (o.c != 1) fail("stray bad_alloc"); }
        throw_in = 0; fail_in = 0;
        if (r && (blocks.size() != b0)) fail("%zd blocks leaked when an exception was thrown", ssize_t(blocks.size() - b0));
        if (r && reg.live != l0) fail("objects left behind by an exception");
        return r;
    }
    void add(int kind, int res, int n, void* p, size_t bytes, size_t align, int v = 0) {
        auto& b = block(p, "allocation");
        if (b.id != group(res)) fail("served by the wrong resource");
        if (b.n < bytes || b.a < align) fail("%zu bytes aligned to %zu were requested from the resource instead of %zu aligned to %zu", b.n, b.a, bytes, align);
        if (b.n != bytes) fail("%zu bytes were requested instead of %zu", b.n, bytes);
        if (kind < NEW) memset(p, 0x11, bytes);
        held.push_back({kind, res, n, p, v});
    }
    void release(size_t i, int via) {
        Held h = held[i]; A a = al(via);
        switch (h.kind) {
        case ALLOC: a.deallocate(static_cast<T*>(h.p), size_t(h.n)); break;
        case BYTES: a.deallocate_bytes(h.p, size_t(h.n) * 24, size_t(h.n)); break;
        case BYTES_DEF: a.deallocate_bytes(h.p, size_t(h.n)); break;
        case OBJ: if (h.n == 1) a.template deallocate_object<Tracked>(static_cast<Tracked*>(h.p)); else a.template deallocate_object<Tracked>(static_cast<Tracked*>(h.p), size_t(h.n)); break;
        case OBJ_OVER: a.template deallocate_object<OverAligned>(static_cast<OverAligned*>(h.p), size_t(h.n)); break;
        case NEW: a.delete_object(static_cast<Tracked*>(h.p)); break;
        case NEW_TWO: a.delete_object(static_cast<Two*>(h.p)); break;
        case NEW_OVER: a.delete_object(static_cast<OverAligned*>(h.p)); break;
        case NEW_USES: a.delete_object(static_cast<UsesAlloc*>(h.p)); break;
        }
        if (blocks.count(h.p)) fail("the memory was not returned");
        held.erase(held.begin() + long(i));
    }
    void apply(const Op& o) {
        A a = al(o.b); size_t n = size_t(o.a);
        switch (o.code) {
        case ALLOC: { T* p = nullptr; if (!run(o, [&] { p = a.allocate(n); })) add(ALLOC, o.b, o.a, p, n * sizeof(T), alignof(T)); break; }
        case BYTES: { void* p = nullptr; if (!run(o, [&] { p = a.allocate_bytes(n * 24, n); })) add(BYTES, o.b, o.a, p, n * 24, n); break; }
        case BYTES_DEF: { void* p = nullptr; if (!run(o, [&] { p = a.allocate_bytes(n); })) add(BYTES_DEF, o.b, o.a, p, n, alignof(std::max_align_t)); break; }
        case OBJ: { Tracked* p = nullptr; if (!run(o, [&] { p = o.a == 1 ? a.template allocate_object<Tracked>() : a.template allocate_object<Tracked>(n); })) add(OBJ, o.b, o.a, p, n * sizeof(Tracked), alignof(Tracked)); break; }
        case OBJ_OVER: { OverAligned* p = nullptr; if (!run(o, [&] { p = a.template allocate_object<OverAligned>(n); })) add(OBJ_OVER, o.b, o.a, p, n * sizeof(OverAligned), alignof(OverAligned)); break; }
        case NEW: { Tracked* p = nullptr; int v = ++next; if (!run(o, [&] { p = a.template new_object<Tracked>(v); })) { if (p->get() != v) fail("new_object"); add(NEW, o.b, 1, p, sizeof(Tracked), alignof(Tracked), v); } break; }
        case NEW_TWO: { Two* p = nullptr; std::unique_ptr<int> q(new int(4)); if (!run(o, [&] { p = a.template new_object<Two>(3, std::move(q)); })) { if (p->get() != 7 || q) fail("new_object"); add(NEW_TWO, o.b, 1, p, sizeof(Two), alignof(Two), 7); } break; }
        case NEW_OVER: { OverAligned* p = nullptr; int v = ++next; if (!run(o, [&] { p = a.template new_object<OverAligned>(v); })) { if (p->get() != v) fail("new_object"); add(NEW_OVER, o.b, 1, p, sizeof(OverAligned), alignof(OverAligned), v); } break; }
        case NEW_USES: { UsesAlloc* p = nullptr; if (!run(o, [&] { p = a.template new_object<UsesAlloc>(5); })) { if (p->v != 5 || p->r != a.resource()) fail("the allocator was not passed to the object"); add(NEW_USES, o.b, 1, p, sizeof(UsesAlloc), alignof(UsesAlloc), 5); } break; }
        case FREE: release(n, held[n].res); break;
        case FREE_VIA_COPY: release(n, held[n].res == 0 ? 2 : 0); break;
        case HUGE: case HUGE_OBJ: case HUGE_OBJ_OVER: {
            size_t sz = o.code == HUGE ? sizeof(T) : o.code == HUGE_OBJ ? sizeof(Tracked) : sizeof(OverAligned);
            size_t m = ~size_t(0) / sz; size_t k[] = {m + 1, m + 2, ~size_t(0), (~size_t(0) >> 1) + 1, m + 1 + (m >> 1), ~size_t(0) - 1};
            size_t want = k[o.a]; if (sz == 1) want = ~size_t(0);
            bool threw = false; void* p = nullptr; long n0 = n_allocs;
            try { if (o.code == HUGE) p = a.allocate(want); else if (o.code == HUGE_OBJ) p = a.template allocate_object<Tracked>(want); else p = a.template allocate_object<OverAligned>(want); } catch (std::bad_alloc&) { threw = true; }
            if (!threw) fail("a request for %zu objects of %zu bytes gave %zu bytes", want, sz, blocks.count(p) ? blocks[p].n : 0);
            if (n_allocs != n0) fail("memory left behind");
            break; }
        case EQ: { A b = al(o.a); bool eq = group(o.a) == group(o.b); itlib::pmr_allocator<double> c(b); A d(c); A e(b); std::pmr::polymorphic_allocator<T> s = b;
            if ((a == b) != eq || (a != b) == eq || (a == d) != eq || (a == e) != eq || (a == s) != eq) fail("comparison"); if (c.resource() != b.resource() || d.resource() != b.resource() || e.resource() != b.resource() || s.resource() != b.resource()) fail("a copy has another resource");
            A def; if (def.resource() != std::pmr::get_default_resource()) fail("default constructed"); if (a.select_on_container_copy_construction().resource() != std::pmr::get_default_resource()) fail("copied containers use the default resource"); break; }
        case VNEW: vec.emplace(itlib::pmr_allocator<Tracked>(al(o.b))); vres = group(o.b); break;
        case VPUSH: { int v = ++next; if (!run(Op{0, 0, 0, 0}, [&] {})) {} Tracked t(v); bool threw = false; if (o.c == 7) throw_in = 1; else fail_in = o.c; try { vec->push_back(t); } catch (Boom&) { threw = true; } catch (std::bad_alloc&) { threw = true; } throw_in = fail_in = 0; if (!threw) mvec.push_back(v); break; }
        case VCOPY: { auto& v = *vec; run(o, [&] { auto w = v; std::vector<Tracked, itlib::pmr_allocator<Tracked>> x(v, al(o.b)); if (w.get_allocator().resource() != std::pmr::get_default_resource() || x.get_allocator() != al(o.b)) fail("allocator of a copy"); if (!(w == v) || !(x == v)) fail("copy differs"); }); break; }
        case VMOVE: { auto& v = *vec; std::vector<Tracked, itlib::pmr_allocator<Tracked>> x(std::move(v), al(o.b)); for (size_t i = 0; i < mvec.size(); ++i) if (x[i].get() != mvec[i]) fail("moved vector"); v = std::move(x); break; }
        case VASSIGN: { auto& v = *vec; run(o, [&] { std::vector<Tracked, itlib::pmr_allocator<Tracked>> x(al(o.b)); x = v; if (!(x == v) || x.get_allocator() != al(o.b)) fail("assigned copy"); }); break; }
        case VCLEAR: vec->clear(); vec->shrink_to_fit(); mvec.clear(); break;
        case CONTAINERS: {
            std::map<int, Tracked, std::less<int>, itlib::pmr_allocator<std::pair<const int, Tracked>>> m{itlib::pmr_allocator<int>(a)}; for (int i = 0; i < 3; ++i) m.emplace(i, i); auto m2 = m; m.erase(1); if (m2.size() != 3 || m.size() != 2) fail("map");
            std::basic_string<char, std::char_traits<char>, itlib::pmr_allocator<char>> s(40, 'x', itlib::pmr_allocator<char>(a)); auto s2 = s; s += s2; if (s.size() != 80) fail("string"); if (block(s.data(), "string").id != group(o.b)) fail("string memory");
            std::pmr::vector<int> q(a); q.assign(10, 3); if (block(q.data(), "vector").id != group(o.b)) fail("vector of a sliced allocator");
            itlib::small_vector<int, 2, 0, itlib::pmr_allocator<int>> sv(itlib::pmr_allocator<int>{a}); sv.assign(5, 1); if (block(sv.data(), "small_vector").id != group(o.b)) fail("small_vector memory");
            std::list<Tracked, itlib::pmr_allocator<Tracked>> l(2, itlib::pmr_allocator<Tracked>(a)); break; }
        case ANY: { typedef itlib::any<itlib::pmr_allocator<>> PA; const itlib::pmr_allocator<> pa(a); PA x(std::allocator_arg, pa, OverAligned(3)); if (block(reinterpret_cast<char*>(x.data()) - (sizeof(itlib::anyimpl::obj_block_for<OverAligned>) - 64), "any").id != group(o.b)) fail("any memory"); PA y(x, pa); PA z(std::move(y)); if (itlib::any_cast<OverAligned&>(z).get() != 3) fail("any"); PA w(std::allocator_arg, itlib::pmr_allocator<>(&r2)); w = std::move(z); w = x; x = 5; x = std::move(w);
            std::vector<PA, itlib::pmr_allocator<PA>> v((itlib::pmr_allocator<PA>(a))); v.emplace_back(); v.emplace_back(Tracked(5)); v.emplace_back(7); for (auto& e : v) if (e.get_allocator() != pa) fail("allocator of an any in a vector"); if (itlib::any_cast<Tracked&>(v[1]).get() != 5) fail("any in a vector"); break; }
        case RAW: { itlib::pmr_allocator<> x(&r1); Big* b = x.new_object<Big>(); x.delete_object(b); char* c = x.template allocate_object<char>(3); x.deallocate_object(c, 3); std::byte* y = x.allocate(10); x.deallocate(y, 10); break; }
        }
    }
    void observe(Key& key) {
        for (auto& h : held) { auto& b = block(h.p, "held memory"); if (b.id != group(h.res)) fail("resource"); if (h.kind >= NEW && h.kind != NEW_USES && static_cast<Tracked*>(h.p)->get() != h.v) fail("object value"); key.add(h.kind); key.add(h.res); key.add(h.n); }
        key.add(-1); if (vec) { key.add(vres); if (vec->size() != mvec.size()) fail("vector size"); for (size_t i = 0; i < mvec.size(); ++i) if ((*vec)[i].get() != mvec[i]) fail("vector"); key.add(int64_t(mvec.size())); key.add(int64_t(vec->capacity())); if (vec->capacity()) if (block(vec->data(), "vector").id != vres) fail("vector memory"); }
        size_t exp = held.size() + (vec && vec->capacity()); if (blocks.size() != exp) fail("%zu blocks are allocated, expected %zu", blocks.size(), exp);
    }
    void finish() { while (!held.empty()) release(0, held[0].res); vec.reset(); if (!blocks.empty()) fail("memory was never returned"); if (reg.live) fail("objects were never destroyed"); { Quiet q; } }
};
template <class T> static void hist(const char* name, int depth, int tdepth) { add(name, [=] { static Cfg k; explore_bfs<World<T>>(k, BfsOpt{thorough ? tdepth : depth, thorough ? 2 : 1}); }); }
void mc_setup() { hist<std::byte>("bytes", 3, 4); hist<double>("double", 3, 4); hist<OverAligned>("over_aligned", 3, 4); }

// any with its default allocator when the process runs out of memory: the address space is limited around an operation, so
// whatever function the allocator uses, it fails (not built with the address sanitizer, which reserves its own)
#include <itlib/any.hpp>
#include "mc.hpp"
using namespace mc;
static long live;
template <size_t N, size_t A> struct alignas(A) Big {
    int v; char pad[N];         // never written
    explicit Big(int x) : v(x) { ++live; } Big(const Big& o) : v(o.v) { ++live; } Big(Big&& o) : v(o.v) { ++live; } ~Big() { --live; v = -1; }
};
static const size_t HUGE_ = size_t(256) << 20;
struct Limit {
    rlimit old; bool on;
    explicit Limit(bool on) : on(on) {
        if (!on) return;
        long pages = 0; FILE* f = fopen("/proc/self/statm", "r"); if (!f || fscanf(f, "%ld", &pages) != 1) fail("harness: statm"); fclose(f);
        getrlimit(RLIMIT_AS, &old); rlimit l = old; l.rlim_cur = rlim_t(pages) * rlim_t(sysconf(_SC_PAGESIZE)) + (rlim_t(64) << 20); if (setrlimit(RLIMIT_AS, &l)) fail("harness: setrlimit");
    }
    ~Limit() { if (on && setrlimit(RLIMIT_AS, &old)) abort(); }
};
template <class B> static void body() {
    {
        itlib::any<> a[2]; int m[2] = {0, 0};       // 0: nothing, > 0: a big one, < 0: an int
        int steps = thorough ? 4 : 3;
        for (int step = 1; step <= steps; ++step) {
            int op = choose(8), i = choose(2); bool lim = choose(2);
            static const char* names[] = {"emplace", "copy", "move", "reset", "int", "copy construct", "move construct", "assign"};
            say("%s on %d%s", names[op], i, lim ? " without memory" : "");
            int want = m[i], other = m[!i]; bool big = false;
            switch (op) {
            case 0: big = true; want = step; break;
            case 1: big = m[!i] > 0; want = m[!i]; break;
            case 2: want = m[!i]; other = 0; break;
            case 3: want = 0; break;
            case 4: want = -step; break;
            case 5: big = m[!i] > 0; break;
            case 6: other = 0; break;
            case 7: big = true; want = step; break;
            }
            std::unique_ptr<B> src; if (op == 7) src.reset(new B(step));
            bool threw = false;        // a big value may be freed first, which makes room
            {
                Limit l(lim);
                try {
                    switch (op) {
                    case 0: if (a[i].template emplace<B>(step).v != step) fail("emplace returned something else"); break;
                    case 1: a[i] = a[!i]; break;
                    case 2: a[i] = std::move(a[!i]); break;
                    case 3: a[i].reset(); break;
                    case 4: a[i] = -step; break;
                    case 5: { itlib::any<> t(a[!i]); if (t.has_value() != a[!i].has_value()) fail("a copy"); break; }
                    case 6: { itlib::any<> t(std::move(a[!i])); break; }
                    case 7: a[i] = *src; break;
                    }
                } catch (std::bad_alloc&) { threw = true; }
            }
            src.reset();
            if (threw && !(lim && big)) fail("bad_alloc although there is memory");
            if (!threw && lim && big && (m[i] <= 0 || op == 5)) fail("no bad_alloc although there is no memory");
            if (threw) { want = m[i]; if (op != 5 && !a[i].has_value()) want = 0; }       // unchanged or empty
            m[i] = want; m[!i] = other;
            long n = 0;
            for (int k = 0; k < 2; ++k) {
                n += m[k] > 0;
                if (a[k].has_value() != (m[k] != 0)) fail("any %d: has_value", k);
                if (m[k] > 0) { auto p = itlib::any_cast<B>(&a[k]); if (!p || p->v != m[k]) fail("any %d: a wrong value", k); if (reinterpret_cast<uintptr_t>(p) % alignof(B)) fail("any %d: misaligned", k); }
                if (m[k] < 0) { auto p = itlib::any_cast<int>(&a[k]); if (!p || *p != m[k]) fail("any %d: a wrong int", k); }
            }
            if (live != n) fail("%ld values are alive instead of %ld", live, n);
            outcome(op * 4 + threw * 2 + lim);
        }
    }
    if (live) fail("%ld values were never destroyed", live);
}
void mc_setup() {
    add("no_memory", [] { explore_choices(body<Big<HUGE_, 8>>); });
    add("no_memory_aligned", [] { explore_choices(body<Big<HUGE_, 4096>>); });
}

// Controlled scheduler for real C++ code, linked instead of the ThreadSanitizer runtime.
//
// The harness is compiled with -fsanitize=thread, which makes the compiler call __tsan_* for every memory access and
// every atomic operation (with its memory order). This file implements those entry points. Threads are fibers of one OS
// thread; every atomic operation and every mutex operation is a scheduling point; a depth-first search over all schedules
// (dynamic partial order reduction with sleep sets, or preemption bounding) decides who goes next. Plain accesses are not
// scheduling points: instead a vector-clock happens-before analysis, which honours the memory orders used, reports any
// pair of unordered conflicting accesses. Memory comes from per-thread arenas without reuse, so that use after free,
// double free and leaks are found.
//
// This file is compiled without instrumentation and uses no templates of the standard library.
#include <pthread.h>
#include <sched.h>
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include "sched.hpp"

extern "C" char __libc_single_threaded;
extern "C" void* __cxa_get_globals();

namespace {
typedef unsigned long ul;
typedef sched::u32 u32;
typedef unsigned __int128 u128;
enum { NT = sched::MAXT + 1 };      // 0 is the main fiber (setup and final checks)
enum Kind : uint8_t { K_NONE, K_LOAD, K_STORE, K_RMW, K_FENCE, K_LOCK, K_TRY, K_UNLOCK, K_RDLOCK, K_TRYRD, K_POINT };
const char* kind_name[] = {"?", "atomic load", "atomic store", "atomic rmw", "fence", "mutex lock", "mutex try_lock", "mutex unlock", "mutex lock_shared", "mutex try_lock_shared", "start"};

struct VC { u32 c[NT]; };
inline void join(VC& a, const VC& b) { for (int i = 0; i < NT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ---------------------------------------------------------------- state of one execution
struct Tls { void* key; void* mem; };
struct Fiber {
    void* sp; char* stack;
    bool started, done, killed;
    Kind kind; uintptr_t addr; unsigned size;       // pending visible operation
    VC vc, rel, acq;
    char eh[64]; int err;
    Kind lk; uintptr_t la; bool lsame; u32 lver; u32 opsteps;      // spin detection
    int spin_forced;
    int inv_slot;                                   // log entry whose invocation time is stamped at the next visible operation
    Tls tls[16]; int ntls;
};
Fiber F[NT];
int cur = 0, nthreads = 0;
bool active = false;        // inside an execution
bool concurrent = false;    // threads are running
int in_rt = 0;
void* sched_sp;
u32 steps;

const size_t STACK = 128 * 1024, ARENA = 1024 * 1024, RED = 16;
char* base_stack; char* base_arena; uint8_t* astate;   // 0: never allocated, 1: live, 2: freed
size_t bump[NT];
struct Block { char* p; size_t n; bool live; };
Block blocks[20000]; int nblocks;
bool race_detection = true;
bool (*ignore_addr)(uintptr_t);

// ---------------------------------------------------------------- shadow memory
struct Rec { uint8_t tid, kind, mask; u32 clk; };      // kind: 0 read 1 write 2 atomic read 3 atomic write
struct Cell { uintptr_t g; u32 exec; uint8_t n; Rec r[20]; };
const u32 CELLS = 1 << 15;
Cell* cells;
u32 exec_id = 0;
struct Sync { uintptr_t g; u32 exec; VC vc; u32 ver; };
const u32 SYNCS = 1 << 12;
Sync* syncs;
struct Mtx { uintptr_t a; u32 exec; int owner; int depth; int readers[NT]; VC vc, rvc; };
const u32 MTX = 64;
Mtx mtx[MTX];

[[noreturn]] void die(const char* fmt, ...) {
    static char buf[1024];
    active = false; ++in_rt;
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    sched::print_trace();
    sched_fail_hook(buf);
    _exit(41);
}
inline u32 hsh(uintptr_t a) { return u32((a * 0x9E3779B97F4A7C15ull) >> 40); }
Cell& cell(uintptr_t g) {
    u32 i = hsh(g) & (CELLS - 1);
    for (u32 n = 0; n < CELLS; ++n, i = (i + 1) & (CELLS - 1)) {
        Cell& c = cells[i];
        if (c.exec != exec_id) { c.exec = exec_id; c.g = g; c.n = 0; return c; }
        if (c.g == g) return c;
    }
    die("harness error: shadow memory is full");
}
Sync& syncv(uintptr_t g) {
    u32 i = hsh(g) & (SYNCS - 1);
    for (u32 n = 0; n < SYNCS; ++n, i = (i + 1) & (SYNCS - 1)) {
        Sync& s = syncs[i];
        if (s.exec != exec_id) { s.exec = exec_id; s.g = g; memset(&s.vc, 0, sizeof s.vc); s.ver = 0; return s; }
        if (s.g == g) return s;
    }
    die("harness error: too many atomic objects");
}
Mtx& mutex_at(void* p) {
    uintptr_t a = uintptr_t(p);
    for (u32 i = 0; i < MTX; ++i) {
        if (mtx[i].exec != exec_id) { memset(&mtx[i], 0, sizeof mtx[i]); mtx[i].exec = exec_id; mtx[i].a = a; mtx[i].owner = -1; return mtx[i]; }
        if (mtx[i].a == a) return mtx[i];
    }
    die("harness error: too many mutexes");
}
const char* who(int t) { static const char* n[] = {"main", "thread 1", "thread 2", "thread 3", "thread 4"}; return n[t]; }
void check_live(uintptr_t a, size_t n, bool write) {
    uintptr_t lo = uintptr_t(base_arena);
    if (a < lo || a >= lo + ARENA * NT) return;
    for (size_t i = 0; i < n; ++i) {
        uint8_t s = astate[a - lo + i];
        if (s != 1) die("%s %s %s memory", who(cur), write ? "wrote to" : "read from", s == 2 ? "freed" : "unallocated");
    }
}
void access(uintptr_t a, size_t n, int kind) {
    if (!active || in_rt) return;
    ++in_rt;
    check_live(a, n, kind & 1);
    if (race_detection && !(ignore_addr && ignore_addr(a))) {
        Fiber& f = F[cur];
        while (n) {
            uintptr_t g = a & ~uintptr_t(7); unsigned off = unsigned(a - g); size_t k = 8 - off < n ? 8 - off : n;
            uint8_t mask = uint8_t(((1u << k) - 1) << off);
            Cell& c = cell(g);
            int mine = -1;
            for (int i = 0; i < c.n; ++i) {
                Rec& r = c.r[i];
                if (!(r.mask & mask)) continue;
                if (r.tid == cur) { if (r.kind == kind && (r.mask & ~mask) == 0) { r.mask = mask; mine = i; } continue; }
                bool conflict = (kind == 1) || (r.kind == 1) || (kind == 0 && r.kind == 3) || (kind == 3 && r.kind == 0);
                if (conflict && r.clk > f.vc.c[r.tid]) {
                    static const char* kn[] = {"read", "write", "atomic read", "atomic write"};
                    die("data race: %s by %s conflicts with an earlier %s by %s that does not happen before it", kn[kind], who(cur), kn[r.kind], who(r.tid));
                }
            }
            u32 clk = f.vc.c[cur];
            if (mine >= 0) c.r[mine].clk = clk;
            else if (c.n < 20) c.r[c.n++] = Rec{uint8_t(cur), uint8_t(kind), mask, clk};
            else { memmove(&c.r[0], &c.r[1], sizeof(Rec) * 19); c.r[19] = Rec{uint8_t(cur), uint8_t(kind), mask, clk}; }
            a += k; n -= k;
        }
    }
    --in_rt;
}

// ---------------------------------------------------------------- exploration: depth first search over schedules
struct Ev { uint8_t tid; Kind kind; uintptr_t addr; unsigned size; VC hb; };
struct Node {
    uint8_t enabled, backtrack, done, sleep, chosen, prev; u32 preempt;
    Kind kind[NT]; uintptr_t addr[NT]; unsigned size[NT];
};
const int MAXN = 4000;
Node node[MAXN]; int nnodes, depth;      // nodes on the current path; position in the current execution
Ev trace[MAXN]; VC thb[NT];              // trace[i] executed from node[i]
sched::Options opt;
sched::Stats st;
bool pruned;
const int* replay_sched; int replay_n;
bool replay_mode;
int forced_runs;

bool is_mutex(Kind k) { return k >= K_LOCK && k <= K_TRYRD; }
bool dep(Kind k1, uintptr_t a1, unsigned s1, Kind k2, uintptr_t a2, unsigned s2) {
    if (k1 == K_NONE || k2 == K_NONE || k1 == K_FENCE || k2 == K_FENCE || k1 == K_POINT || k2 == K_POINT) return false;
    if (is_mutex(k1) != is_mutex(k2)) return false;
    if (is_mutex(k1)) return a1 == a2;
    if (k1 == K_LOAD && k2 == K_LOAD) return false;
    return a1 < a2 + s2 && a2 < a1 + s1;
}
bool mutex_free(Fiber& f, int t) {
    Mtx& m = mutex_at(reinterpret_cast<void*>(f.addr));
    if (f.kind == K_LOCK) {
        if (m.owner == t) return true;              // recursive, or reported as a self-deadlock when it runs
        if (m.owner != -1) return false;
        for (int i = 0; i < NT; ++i) if (m.readers[i] && i != t) return false;
        return true;
    }
    return m.owner == -1 || m.owner == t;
}
u32 version(uintptr_t a) { return syncv(a & ~uintptr_t(3)).ver; }
bool spinning(Fiber& f) {
    if (f.opsteps > 400) return true;
    return (f.kind == K_LOAD || f.kind == K_RMW) && f.lk == f.kind && f.la == f.addr && f.lsame && f.lver == version(f.addr);
}

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

void* body_ctx; void (*body_fn)(void*, int);

extern "C" void mc_fiber_main() {
    int t = cur;
    --in_rt;
    const char* what = nullptr;
    try { body_fn(body_ctx, t); }
    catch (const sched::Killed&) {}
    catch (...) { what = "an exception left a thread"; }
    ++in_rt;
    if (what) { --in_rt; die("%s", what); }
    F[t].done = true;
    for (int i = 0; i < F[t].ntls; ++i) {}
    void* dummy;
    mc_switch(&dummy, sched_sp);
    abort();
}
void switch_to(int t) {      // scheduler -> fiber
    Fiber& f = F[t];
    cur = t;
    if (!f.started) {
        f.started = true;
        void** s = reinterpret_cast<void**>(f.stack + STACK - 64);
        *--s = nullptr;
        *--s = reinterpret_cast<void*>(mc_fiber_main);
        for (int i = 0; i < 6; ++i) *--s = nullptr;
        f.sp = s;
    }
    void* g = __cxa_get_globals();
    memcpy(g, f.eh, 16);
    int e = errno; errno = f.err;
    mc_switch(&sched_sp, f.sp);
    f.err = errno; errno = e;
    memcpy(f.eh, g, 16);
    memset(g, 0, 16);
    cur = 0;
}
// called by a fiber before its visible operation
void point(Kind k, uintptr_t a, unsigned size) {
    Fiber& f = F[cur];
    if (!concurrent) return;
    f.kind = k; f.addr = a; f.size = size;
    ++in_rt;
    mc_switch(&f.sp, sched_sp);
    --in_rt;
    if (f.inv_slot >= 0) { sched::stamp_inv(f.inv_slot); f.inv_slot = -1; }
    ++f.opsteps;
    ++f.vc.c[cur];
}
void after_atomic(Fiber& f, Kind k, uintptr_t a, unsigned size, bool changed) {
    (void)size;
    if (changed) for (uintptr_t g = a & ~uintptr_t(3); g < a + size; g += 4) ++syncv(g).ver;
    f.lk = k; f.la = a; f.lsame = !changed; f.lver = version(a);
}

// run one execution following the nodes of the current path, extending it
void run_threads() {
    concurrent = true;
    depth = 0; pruned = false; forced_runs = 0;
    memset(thb, 0, sizeof thb);
    int prev = 0; u32 preempt = 0;
    uint8_t sleep = 0;
    // every thread runs up to its first visible operation
    for (int t = 1; t <= nthreads; ++t) switch_to(t);
    for (;;) {
        uint8_t alive = 0, en = 0, spin = 0;
        for (int t = 1; t <= nthreads; ++t) {
            Fiber& f = F[t];
            if (f.done) continue;
            alive |= uint8_t(1u << t);
            if ((f.kind == K_LOCK || f.kind == K_RDLOCK) && !mutex_free(f, t)) continue;
            if (spinning(f)) { spin |= uint8_t(1u << t); continue; }
            en |= uint8_t(1u << t);
        }
        if (!alive) break;
        bool forced = false;
        if (!en) {
            if (!spin) die("deadlock: every unfinished thread waits for a mutex");
            // only spinning threads are left: let them spin for a while; nothing else can change what they wait for
            if (++forced_runs > 2000) die("livelock: the remaining threads spin forever on a value nobody is going to change");
            forced = true;
            int t = (forced_runs % NT);
            while (t == 0 || !(spin >> t & 1)) t = (t + 1) % NT;
            en = uint8_t(1u << t);
        }
        if (depth >= MAXN - 1) die("harness error: execution too long");
        Node& n = node[depth];
        bool fresh = depth >= nnodes;
        if (fresh) {
            memset(&n, 0, sizeof n);
            n.enabled = en; n.sleep = sleep; n.prev = uint8_t(prev); n.preempt = preempt;
            nnodes = depth + 1;
            ++st.states;
        } else if (n.enabled != en) die("harness error: execution is not deterministic");
        for (int t = 1; t <= nthreads; ++t) { n.kind[t] = F[t].done ? K_NONE : F[t].kind; n.addr[t] = F[t].addr; n.size[t] = F[t].size; }
        if (opt.dpor) {
            // race analysis: for every thread's next operation, the last dependent step which is not ordered before it
            for (int p = 1; p <= nthreads; ++p) {
                if (F[p].done) continue;
                for (int i = depth - 1; i >= 0; --i) {
                    Ev& e = trace[i];
                    if (e.tid == p || !dep(e.kind, e.addr, e.size, F[p].kind, F[p].addr, F[p].size)) continue;
                    if (u32(i + 1) <= thb[p].c[e.tid]) break;     // the last dependent step is ordered before p's
                    Node& m = node[i];
                    uint8_t E = 0;
                    for (int q = 1; q <= nthreads; ++q) {
                        if (!(m.enabled >> q & 1)) continue;
                        if (q == p) { E |= uint8_t(1u << q); continue; }
                        for (int j = i + 1; j < depth; ++j) if (trace[j].tid == q && u32(j + 1) <= thb[p].c[q]) { E |= uint8_t(1u << q); break; }
                    }
                    if (E >> p & 1) m.backtrack |= uint8_t(1u << p);
                    else if (E) { if (!(E & m.backtrack)) m.backtrack |= uint8_t(E & -E); }
                    else m.backtrack |= m.enabled;
                    break;
                }
            }
        }
        int t = -1;
        if (replay_mode && depth < replay_n) { t = replay_sched[depth]; if (!(en >> t & 1)) die("replayed schedule does not fit: %s cannot run", who(t)); }
        else if (!fresh) t = n.chosen;
        else {
            uint8_t cand = uint8_t(en & ~n.sleep);
            if (forced) cand = en;
            if (!cand) { pruned = true; break; }      // everything possible from here has been explored elsewhere
            if (prev && (cand >> prev & 1)) t = prev;
            else for (int q = 1; q <= nthreads; ++q) if (cand >> q & 1) { t = q; break; }
            n.backtrack |= uint8_t(1u << t);
            if (!opt.dpor && !forced) n.backtrack = en;
        }
        n.chosen = uint8_t(t);
        if (sched::trail && depth < sched::trail_max) sched::trail[depth + 1][0] = t, *sched::trail_n = u32(depth + 2);
        // preemption accounting
        if (prev && prev != t && (en >> prev & 1)) ++preempt;
        prev = t;
        // the step
        Ev& e = trace[depth];
        e.tid = uint8_t(t); e.kind = F[t].kind; e.addr = F[t].addr; e.size = F[t].size;
        VC hb = thb[t];
        for (int j = 0; j < depth; ++j) if (trace[j].tid == t || dep(trace[j].kind, trace[j].addr, trace[j].size, e.kind, e.addr, e.size)) join(hb, trace[j].hb);
        hb.c[t] = u32(depth + 1);
        e.hb = hb; thb[t] = hb;
        uint8_t ns = 0;
        if (opt.dpor) for (int q = 1; q <= nthreads; ++q) if (((n.sleep | n.done) >> q & 1) && q != t && !dep(n.kind[q], n.addr[q], n.size[q], e.kind, e.addr, e.size)) ns |= uint8_t(1u << q);
        sleep = ns;
        ++depth; ++st.transitions; ++steps;
        switch_to(t);
    }
    concurrent = false;
}
// unwind threads of an abandoned execution: their stacks are simply dropped (the arena is reset anyway)

bool backtrack() {       // prepare the path for the next execution; false: done
    for (int d = nnodes - 1; d >= 0; --d) {
        Node& n = node[d];
        n.done |= uint8_t(1u << n.chosen);
        uint8_t cand = uint8_t(n.backtrack & n.enabled & ~n.done & ~n.sleep);
        if (!opt.dpor) {
            uint8_t ok = 0;
            for (int t = 1; t <= nthreads; ++t) if (cand >> t & 1) {
                u32 p = n.preempt + ((n.prev && n.prev != t && (n.enabled >> n.prev & 1)) ? 1 : 0);
                if (opt.preemptions < 0 || p <= u32(opt.preemptions)) ok |= uint8_t(1u << t);
            }
            cand = ok;
        }
        if (cand) {
            int t = 1; while (!(cand >> t & 1)) ++t;
            n.chosen = uint8_t(t);
            nnodes = d + 1;
            return true;
        }
    }
    return false;
}

void reset_execution() {
    ++exec_id;
    if (exec_id == 0) { memset(cells, 0, sizeof(Cell) * CELLS); memset(syncs, 0, sizeof(Sync) * SYNCS); memset(mtx, 0, sizeof mtx); exec_id = 1; }
    for (int t = 0; t < NT; ++t) {
        memset(astate + ARENA * size_t(t), 0, bump[t]);
        bump[t] = 0;
        Fiber& f = F[t];
        char* s = base_stack + STACK * size_t(t);
        memset(&f, 0, sizeof f);
        f.stack = s; f.inv_slot = -1;
        f.kind = K_POINT;
    }
    nblocks = 0; cur = 0; steps = 0;
    sched::log_n = 0; sched::log_clock = 0;
    F[0].vc.c[0] = 1;
}
}

namespace sched {
LogEntry log_[MAXLOG]; int log_n; u32 log_clock;
int (*trail)[4]; volatile u32* trail_n; int trail_max;

void print_trace() {
    fprintf(stderr, "schedule:");
    for (int i = 0; i < depth && i < 80; ++i) fprintf(stderr, "%s T%d %s %lx", i ? ";" : "", trace[i].tid, kind_name[trace[i].kind], ul(trace[i].addr & 0xffffff));
    fprintf(stderr, "\n");
}
void stamp_inv(int slot) { log_[slot].inv = ++log_clock; }
int op_begin(int code, int a, int b) {
    ++in_rt;
    if (log_n >= MAXLOG) die("harness error: log full");
    int s = log_n++;
    Fiber& f = F[cur];
    log_[s] = LogEntry{cur, code, a, b, 0, 0, 0, 0, 0};
    if (concurrent) f.inv_slot = s; else log_[s].inv = ++log_clock;
    f.lk = K_NONE; f.opsteps = 0;
    --in_rt;
    return s;
}
void op_end(int s, int64_t r, int64_t r2) {
    ++in_rt;
    Fiber& f = F[cur];
    if (f.inv_slot == s) { log_[s].inv = ++log_clock; f.inv_slot = -1; }
    log_[s].ret = ++log_clock; log_[s].r = r; log_[s].r2 = r2; log_[s].done = 1;
    f.lk = K_NONE; f.opsteps = 0;
    --in_rt;
}
int self() { return cur; }
void fail(const char* fmt, ...) {
    static char buf[900];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    die("%s", buf);
}
Pause::Pause() { ++in_rt; }
Pause::~Pause() { --in_rt; }
void plain_read(const void* p, size_t n) { access(uintptr_t(p), n, 0); }
void plain_write(const void* p, size_t n) { access(uintptr_t(p), n, 1); }
long live_blocks() { long n = 0; for (int i = 0; i < nblocks; ++i) n += blocks[i].live; return n; }
bool is_live(const void* p) { uintptr_t a = uintptr_t(p), lo = uintptr_t(base_arena); return a >= lo && a < lo + ARENA * NT && astate[a - lo] == 1; }

void init() {
    if (base_arena) return;
    __libc_single_threaded = 0;
    size_t total = (STACK + ARENA) * NT;
    char* m = static_cast<char*>(mmap(reinterpret_cast<void*>(0x200000000000ull), total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0));
    if (m == MAP_FAILED) { perror("mmap"); _exit(2); }
    base_stack = m; base_arena = m + STACK * NT;
    astate = static_cast<uint8_t*>(mmap(nullptr, ARENA * NT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    cells = static_cast<Cell*>(calloc(CELLS, sizeof(Cell)));
    syncs = static_cast<Sync*>(calloc(SYNCS, sizeof(Sync)));
}

Stats explore(const Options& o, int threads, void (*setup)(void*), void (*body)(void*, int), void (*final)(void*), void* ctx, const int* rsched, int rn, bool (*stop)()) {
    init();
    opt = o; nthreads = threads; body_fn = body; body_ctx = ctx;
    race_detection = o.races; ignore_addr = o.ignore;
    replay_mode = rsched != nullptr; replay_sched = rsched; replay_n = rn;
    memset(&st, 0, sizeof st);
    nnodes = 0;
    st.complete = true;
    for (;;) {
        reset_execution();
        if (trail_n) *trail_n = 1;
        active = true;
        setup(ctx);
        ++F[0].vc.c[0];
        for (int t = 1; t <= nthreads; ++t) { F[t].vc = F[0].vc; F[t].vc.c[t] = 1; }
        ++in_rt;
        run_threads();
        --in_rt;
        if (!pruned) {
            cur = 0;
            for (int t = 1; t <= nthreads; ++t) join(F[0].vc, F[t].vc);
            ++F[0].vc.c[0];
            final(ctx);
            for (int i = 0; i < nblocks; ++i) if (blocks[i].live) die("memory leak: %zu bytes are still allocated after everything was destroyed", blocks[i].n);
            for (u32 i = 0; i < MTX && mtx[i].exec == exec_id; ++i) {
                if (mtx[i].owner != -1) die("a mutex is still locked after everything was released");
                for (int t = 0; t < NT; ++t) if (mtx[i].readers[t]) die("a mutex is still locked in shared mode after everything was released");
            }
            ++st.executions;
        } else ++st.pruned;
        active = false;
        if (u32(depth) > st.max_depth) st.max_depth = u32(depth);
        if (replay_mode) break;
        if (!backtrack()) break;
        if (((st.executions + st.pruned) & 63) == 0 && stop()) { st.complete = false; break; }
        if (o.max_executions && st.executions + st.pruned >= o.max_executions) { st.complete = false; break; }
    }
    return st;
}
}

// ---------------------------------------------------------------- memory
namespace {
void* arena_alloc(size_t n, size_t al) {
    if (al < 16) al = 16;
    size_t& b = bump[cur];
    size_t s = (b + RED + al - 1) / al * al;
    if (s + n + RED > ARENA) die("harness error: arena is full");
    char* p = base_arena + ARENA * size_t(cur) + s;
    memset(astate + ARENA * size_t(cur) + s, 1, n ? n : 1);
    memset(p, 0xA5, n);
    b = s + (n ? n : 1);
    if (nblocks >= 20000) die("harness error: too many blocks");
    blocks[nblocks++] = Block{p, n, true};
    return p;
}
void arena_free(void* p) {
    for (int i = nblocks - 1; i >= 0; --i) if (blocks[i].p == p) {
        if (!blocks[i].live) die("%s freed a block twice", who(cur));
        access(uintptr_t(p), blocks[i].n, 1);
        blocks[i].live = false;
        memset(astate + (static_cast<char*>(p) - base_arena), 2, blocks[i].n ? blocks[i].n : 1);
        return;
    }
    die("%s freed something that was not allocated", who(cur));
}
bool in_arena(void* p) { return base_arena && p >= base_arena && p < base_arena + ARENA * NT; }
void* do_new(size_t n, size_t al) {
    if (active && !in_rt) return arena_alloc(n, al);
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void do_delete(void* p) {
    if (!p) return;
    if (in_arena(p)) { if (active) arena_free(p); return; }
    free(p);
}
}
void* operator new(size_t n) { return do_new(n, 16); }
void* operator new[](size_t n) { return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }

// ---------------------------------------------------------------- compiler entry points: plain accesses
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(uintptr_t(p), n, 0); } \
    void __tsan_write##n(void* p) { access(uintptr_t(p), n, 1); } \
    void __tsan_unaligned_read##n(void* p) { access(uintptr_t(p), n, 0); } \
    void __tsan_unaligned_write##n(void* p) { access(uintptr_t(p), n, 1); } \
    void __tsan_volatile_read##n(void* p) { access(uintptr_t(p), n, 0); } \
    void __tsan_volatile_write##n(void* p) { access(uintptr_t(p), n, 1); } \
    void __tsan_read_write##n(void* p) { access(uintptr_t(p), n, 0); access(uintptr_t(p), n, 1); } \
    void __tsan_unaligned_read_write##n(void* p) { access(uintptr_t(p), n, 0); access(uintptr_t(p), n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, ul n) { access(uintptr_t(p), n, 0); }
void __tsan_write_range(void* p, ul n) { access(uintptr_t(p), n, 1); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(uintptr_t(p), 8, 1); }
void __tsan_vptr_read(void** p) { access(uintptr_t(p), 8, 0); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(uintptr_t(s), n, 0); access(uintptr_t(d), n, 1); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(uintptr_t(s), n, 0); access(uintptr_t(d), n, 1); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(uintptr_t(d), n, 1); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

// ---------------------------------------------------------------- compiler entry points: atomics
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
}
namespace {
void hb_load(uintptr_t a, unsigned n, int mo) {
    Fiber& f = F[cur];
    for (uintptr_t g = a & ~uintptr_t(3); g < a + n; g += 4) { Sync& s = syncv(g); if (acq(mo)) join(f.vc, s.vc); else join(f.acq, s.vc); }
}
void hb_store(uintptr_t a, unsigned n, int mo, bool rmw) {
    Fiber& f = F[cur];
    for (uintptr_t g = a & ~uintptr_t(3); g < a + n; g += 4) {
        Sync& s = syncv(g);
        const VC& src = rel(mo) ? f.vc : f.rel;
        if (rmw) join(s.vc, src); else s.vc = src;
    }
    ++f.vc.c[cur];        // what follows the store is not published by it
}
template <class T> T a_load(const volatile T* p, int mo) {
    uintptr_t a = uintptr_t(p);
    if (!active || in_rt) return *p;
    point(K_LOAD, a, sizeof(T));
    access(a, sizeof(T), 2);
    ++in_rt;
    hb_load(a, sizeof(T), mo);
    after_atomic(F[cur], K_LOAD, a, sizeof(T), false);
    --in_rt;
    return *p;
}
template <class T> void a_store(volatile T* p, T v, int mo) {
    uintptr_t a = uintptr_t(p);
    if (!active || in_rt) { *p = v; return; }
    point(K_STORE, a, sizeof(T));
    access(a, sizeof(T), 3);
    ++in_rt;
    bool ch = *p != v;
    hb_store(a, sizeof(T), mo, false);
    *p = v;
    after_atomic(F[cur], K_STORE, a, sizeof(T), ch);
    --in_rt;
}
template <class T, class Fn> T a_rmw(volatile T* p, Fn fn, int mo) {
    uintptr_t a = uintptr_t(p);
    if (!active || in_rt) { T o = *p; *p = fn(o); return o; }
    point(K_RMW, a, sizeof(T));
    access(a, sizeof(T), 3);
    ++in_rt;
    T o = *p, v = fn(o);
    hb_load(a, sizeof(T), mo);
    hb_store(a, sizeof(T), mo, true);
    *p = v;
    after_atomic(F[cur], K_RMW, a, sizeof(T), o != v);
    --in_rt;
    return o;
}
template <class T> T a_cas(volatile T* p, T c, T v, int mo, int fmo) {
    uintptr_t a = uintptr_t(p);
    if (!active || in_rt) { T o = *p; if (o == c) *p = v; return o; }
    point(K_RMW, a, sizeof(T));
    T o = *p;
    access(a, sizeof(T), o == c ? 3 : 2);
    ++in_rt;
    if (o == c) { hb_load(a, sizeof(T), mo); hb_store(a, sizeof(T), mo, true); *p = v; }
    else hb_load(a, sizeof(T), fmo);
    after_atomic(F[cur], K_RMW, a, sizeof(T), o == c && o != v);
    --in_rt;
    return o;
}
}
extern "C" {
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { return a_load<T>(p, mo); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T) { return v; }, mo); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o + v); }, mo); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o - v); }, mo); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o & v); }, mo); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o | v); }, mo); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o ^ v); }, mo); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(~(o & v)); }, mo); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { return a_cas<T>(p, c, v, mo, fmo); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { T o = a_cas<T>(p, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { T o = a_cas<T>(p, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
void __tsan_atomic_thread_fence(int mo) {
    if (!active || in_rt) return;
    Fiber& f = F[cur];
    if (acq(mo)) join(f.vc, f.acq);
    if (rel(mo)) f.rel = f.vc;
    ++f.vc.c[cur];
}
void __tsan_atomic_signal_fence(int) {}

// annotations which libstdc++ makes for its own locks
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* p, unsigned, int) { if (active && !in_rt) { ++in_rt; join(F[cur].vc, syncv(uintptr_t(p) | 1).vc); --in_rt; } }
int __tsan_mutex_pre_unlock(void* p, unsigned) { if (active && !in_rt) { ++in_rt; Sync& s = syncv(uintptr_t(p) | 1); join(s.vc, F[cur].vc); ++F[cur].vc.c[cur]; --in_rt; } return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}

// ---------------------------------------------------------------- pthreads
static void lock_op(void* p, Kind k, bool recursive, int& result) {
    result = 0;
    if (!active || in_rt) return;
    point(k, uintptr_t(p), 1);
    ++in_rt;
    Mtx& m = mutex_at(p);
    Fiber& f = F[cur];
    bool other_readers = false, any_readers = false;
    for (int i = 0; i < NT; ++i) { if (m.readers[i]) any_readers = true; if (m.readers[i] && i != cur) other_readers = true; }
    switch (k) {
    case K_LOCK:
        if (m.owner == cur && recursive) { ++m.depth; break; }
        if (m.owner == cur || m.readers[cur]) { --in_rt; die("%s locked a mutex it already holds (self-deadlock)", who(cur)); }
        if (m.owner != -1 || other_readers) { --in_rt; die("deadlock: lock of a mutex held by somebody else outside the concurrent phase"); }
        m.owner = cur; m.depth = 1; join(f.vc, m.vc); join(f.vc, m.rvc); break;
    case K_TRY:
        if (m.owner == cur && recursive) { ++m.depth; break; }
        if (m.owner != -1 || any_readers) { result = EBUSY; break; }
        m.owner = cur; m.depth = 1; join(f.vc, m.vc); join(f.vc, m.rvc); break;
    case K_RDLOCK:
        if (m.owner == cur) { --in_rt; die("%s locked a mutex it already holds (self-deadlock)", who(cur)); }
        ++m.readers[cur]; join(f.vc, m.vc); break;
    case K_TRYRD:
        if (m.owner != -1) { result = EBUSY; break; }
        ++m.readers[cur]; join(f.vc, m.vc); break;
    case K_UNLOCK:
        if (m.owner == cur) { if (--m.depth == 0) { m.owner = -1; m.vc = f.vc; } }
        else if (m.readers[cur]) { --m.readers[cur]; join(m.rvc, f.vc); }
        else { --in_rt; die("%s unlocked a mutex it does not hold", who(cur)); }
        ++f.vc.c[cur];
        break;
    default: break;
    }
    f.lk = K_NONE;
    --in_rt;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) noexcept { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { int r; lock_op(m, K_LOCK, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, r); return r; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { int r; lock_op(m, K_TRY, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, r); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { int r; lock_op(m, K_UNLOCK, false, r); return r; }
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { int r; lock_op(m, K_RDLOCK, false, r); return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { int r; lock_op(m, K_LOCK, false, r); return r; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { int r; lock_op(m, K_TRYRD, false, r); return r; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { int r; lock_op(m, K_TRY, false, r); return r; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { int r; lock_op(m, K_UNLOCK, false, r); return r; }
pthread_t pthread_self() noexcept { return pthread_t(0x7000 + cur); }
int sched_yield() noexcept { return 0; }

// ---------------------------------------------------------------- thread locals (-femulated-tls)
struct emutls_object { size_t size, align; union { size_t offset; void* ptr; } loc; void* templ; };
void* __emutls_get_address(emutls_object* o) {
    Fiber& f = F[cur];
    for (int i = 0; i < f.ntls; ++i) if (f.tls[i].key == o) return f.tls[i].mem;
    if (f.ntls >= 16) die("harness error: too many thread locals");
    ++in_rt;
    static char pool[NT][4096]; static size_t used[NT];
    if (f.ntls == 0) used[cur] = 0;
    size_t s = (used[cur] + o->align - 1) / o->align * o->align;
    if (s + o->size > sizeof pool[0]) die("harness error: thread local storage is full");
    used[cur] = s + o->size;
    void* p = &pool[cur][s];
    if (o->templ) memcpy(p, o->templ, o->size); else memset(p, 0, o->size);
    f.tls[f.ntls].key = o; f.tls[f.ntls].mem = p; ++f.ntls;
    --in_rt;
    return p;
}
}

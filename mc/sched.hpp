// Interface between concurrent harnesses (instrumented) and the scheduler (sched_rt.cpp, not instrumented).
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched {
typedef uint32_t u32;
enum { MAXT = 4, MAXLOG = 256 };
struct Killed {};
struct Options {
    bool dpor = true;              // dynamic partial order reduction (complete); otherwise plain search with a preemption bound
    int preemptions = -1;          // only without dpor; -1: unbounded
    bool races = true;
    uint64_t max_executions = 0;
    bool (*ignore)(uintptr_t) = nullptr;   // addresses exempt from race detection
};
struct Stats { uint64_t executions, pruned, transitions, states; u32 max_depth; bool complete; };
struct LogEntry { int tid, code, a, b; u32 inv, ret; int64_t r, r2; int done; };
extern LogEntry log_[MAXLOG]; extern int log_n; extern u32 log_clock;
extern int (*trail)[4]; extern volatile u32* trail_n; extern int trail_max;

void init();
Stats explore(const Options&, int threads, void (*setup)(void*), void (*body)(void*, int tid), void (*final)(void*), void* ctx, const int* replay, int nreplay, bool (*stop)());
int op_begin(int code, int a = 0, int b = 0);       // an operation of the object under test starts (stamped at its first visible step)
void op_end(int slot, int64_t result = 0, int64_t result2 = 0);
void stamp_inv(int slot);
int self();                                          // running thread: 0 main, 1..
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void print_trace();
void plain_read(const void*, size_t); void plain_write(const void*, size_t);
long live_blocks(); bool is_live(const void*);
struct Pause { Pause(); ~Pause(); };                // memory accesses and allocations of the harness itself are not checked
}
extern "C" void sched_fail_hook(const char* msg);

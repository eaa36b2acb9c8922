// C05: atomic_relaxed_counter
#include "mc_sched.hpp"
#include <itlib/atomic.hpp>
using namespace mc;

enum Code { PREINC, POSTINC, ADD, PREDEC, POSTDEC, SUB, LOAD, STORE, ASSIGN, CONV, COPY, COPYFROM, COPYTO, SELF, NOPS };
static const char* opname[] = {"++c", "c++", "c+=", "--c", "c--", "c-=", "load", "store", "c=", "I(c)", "copy(c)", "c=other", "other=c", "c=c"};
struct Cfg { std::vector<int> alphabet; int nthreads, len; long long init; };

template <class I> I operand(int k) { return sizeof(I) == 8 ? I((uint64_t(k) << 33) + uint64_t(k)) : I(k); }
template <class I> struct Spec {
    typedef I State;
    I last;
    bool accept(I s) const { return s == last; }
    bool apply(I& s, const sched::LogEntry& e) const {
        typedef typename std::make_unsigned<I>::type Un;
        I k = operand<I>(e.a), o = s;
        switch (e.code) {
        case PREINC: s = I(Un(Un(s) + Un(1))); return e.r == int64_t(s);
        case POSTINC: s = I(Un(Un(s) + Un(1))); return e.r == int64_t(o);
        case ADD: s = I(Un(Un(s) + Un(k))); return e.r == int64_t(s);
        case PREDEC: s = I(Un(Un(s) - Un(1))); return e.r == int64_t(s);
        case POSTDEC: s = I(Un(Un(s) - Un(1))); return e.r == int64_t(o);
        case SUB: s = I(Un(Un(s) - Un(k))); return e.r == int64_t(s);
        case LOAD: case CONV: case COPY: case COPYTO: return e.r == int64_t(s);
        case STORE: s = k; return true;
        case COPYFROM: case ASSIGN: s = k; return e.r == int64_t(k);
        default: return true;
        }
    }
};

template <class I> struct Prog {
    typedef itlib::atomic_relaxed_counter<I> C;
    const Cfg& c; std::vector<std::vector<int>> th; C* ctr;
    static uint64_t nseq(const Cfg& c) { uint64_t r = 1; for (int i = 0; i < c.len; ++i) r *= c.alphabet.size(); return r; }
    static uint64_t count(const Cfg& c) { uint64_t k = nseq(c), r = 1; for (int i = 0; i < c.nthreads; ++i) r *= k; return r; }
    Prog(const Cfg& cfg, uint64_t ix) : c(cfg) {
        std::vector<uint64_t> s;
        for (int t = 0; t < c.nthreads; ++t) { s.push_back(ix % nseq(c)); ix /= nseq(c); }
        sorted = std::is_sorted(s.begin(), s.end());
        for (auto v : s) { th.emplace_back(); for (int i = 0; i < c.len; ++i) { th.back().push_back(c.alphabet[v % c.alphabet.size()]); v /= c.alphabet.size(); } }
        if (!sorted) for (auto& t : th) t.clear();     // a permutation of the threads of another program
    }
    bool sorted;
    int threads() const { return c.nthreads; }
    std::string text() const {
        std::string r = "initially " + std::to_string(c.init);
        for (auto& t : th) { r += " |"; for (int o : t) r += std::string(" ") + opname[o]; }
        return r;
    }
    void setup() { ctr = new C(I(c.init)); }
    void body(int t) {
        const int* ops; int n; { sched::Pause p; ops = th[size_t(t - 1)].data(); n = int(th[size_t(t - 1)].size()); }
        for (int i = 0; i < n; ++i) {
            int code; { sched::Pause p; code = ops[i]; }
            int k = code == STORE || code == ASSIGN || code == COPYFROM ? 50 + 10 * t + i : 1 + 2 * t + i;
            I ki = operand<I>(k); int64_t r = 0; C other(ki);
            int s = sched::op_begin(code, k);
            switch (code) {
            case PREINC: r = ++*ctr; break;
            case POSTINC: r = (*ctr)++; break;
            case ADD: r = (*ctr += ki); break;
            case PREDEC: r = --*ctr; break;
            case POSTDEC: r = (*ctr)--; break;
            case SUB: r = (*ctr -= ki); break;
            case LOAD: r = ctr->load(); break;
            case STORE: ctr->store(ki); break;
            case ASSIGN: r = (*ctr = ki); break;
            case CONV: r = I(*ctr); break;
            case COPY: { C x(*ctr); r = x.load(); break; }
            case COPYFROM: { C& x = (*ctr = other); r = &x == ctr ? other.load() : -77; break; }
            case COPYTO: other = *ctr; r = other.load(); break;
            }
            sched::op_end(s, r);
        }
    }
    void final() {
        Spec<I> sp; sp.last = ctr->load(); bool lin;
        { sched::Pause p; lin = linearizable(sp, I(c.init), sched::log_, sched::log_n); }
        if (!lin) {
            sched::Pause p; std::string h;
            for (int i = 0; i < sched::log_n; ++i) { auto& e = sched::log_[i]; char b[200]; snprintf(b, sizeof b, " T%d:%s(%d)->%lld@[%u,%u]", e.tid, opname[e.code], e.a, (long long)e.r, e.inv, e.ret); h += b; }
            sched::fail("no order of the operations explains the results; final value %lld:%s", (long long)sp.last, h.c_str());
        }
        delete ctr;
    }
};

template <class I> static void cfg(const std::string& name, Cfg c, int shards = 1, int tier = 0) {
    for (int shard = 0; shard < shards; ++shard) add(name + (shards > 1 ? "_" + std::to_string(shard) : std::string()), [=] {
        static Cfg k; k = c;
        explore_sched<Prog<I>>(k, sched::Options{}, shard, shards);
    }, tier);
}
template <class I> static void type(const char* n) {
    std::vector<int> all{PREINC, POSTINC, ADD, PREDEC, POSTDEC, SUB, LOAD, STORE, ASSIGN, CONV, COPY, COPYFROM, COPYTO}, upd{PREINC, POSTINC, ADD, PREDEC, POSTDEC, SUB}, mix{PREINC, POSTDEC, ADD, SUB, LOAD, COPYFROM};
    typedef std::numeric_limits<I> L;
    std::vector<long long> inits{0};
    // overflow of int and wider signed types is not exercised: the operators compute the result with plain arithmetic
    if (sizeof(I) < sizeof(int) || !L::is_signed) { inits.push_back((long long)(L::max)()); inits.push_back((long long)(L::min)() + 1); }
    else { inits.push_back((long long)(L::max)() - (sizeof(I) == 8 ? 1ll << 42 : 300)); inits.push_back((long long)(L::min)() + (sizeof(I) == 8 ? 1ll << 42 : 300)); }
    for (size_t i = 0; i < inits.size(); ++i) {
        std::string s = std::string(n) + "_from" + std::to_string(i);
        cfg<I>(s + "_2x2", Cfg{all, 2, 2, inits[i]});
        cfg<I>(s + "_3x1", Cfg{all, 3, 1, inits[i]});
        cfg<I>(s + "_2x3", Cfg{upd, 2, 3, inits[i]}, 1, i ? 1 : 0);
        cfg<I>(s + "_3x2", Cfg{mix, 3, 2, inits[i]}, 1, 1);
        cfg<I>(s + "_2x4", Cfg{mix, 2, 4, inits[i]}, 2, 1);
    }
}
void mc_setup() {
#if MC_SHALLOW
    if (!thorough) { type<int8_t>("int8"); type<unsigned long>("ulong"); return; }
#endif
    type<int8_t>("int8"); type<uint8_t>("uint8"); type<int16_t>("int16"); type<uint16_t>("uint16");
    type<int>("int"); type<unsigned>("unsigned"); type<long>("long"); type<unsigned long>("ulong"); type<long long>("llong"); type<char>("char"); type<unsigned long long>("ullong");
}

// Glue between mc.hpp (configurations, replay, statistics) and the scheduler: enumerates programs, and for each program
// all of its schedules.
#pragma once
#include "mc.hpp"
#include "sched.hpp"

extern "C" void sched_fail_hook_text();
namespace mc {
inline std::string prog_text;
struct SchedOpt : sched::Options {};

// P(cfg, index): one program.  P::count(cfg), threads(), setup(), body(tid), final(), text()
template <class P, class Cfg>
void explore_sched(const Cfg& cfg, sched::Options o = {}, int shard = 0, int shards = 1) {
    sched::init();
    if (sh) { sched::trail = reinterpret_cast<int (*)[4]>(&sh->ops[0]); sched::trail_n = &sh->nops; sched::trail_max = MAXOPS - 2; }
    uint64_t n = P::count(cfg);
    std::vector<int> rs;
    uint64_t first = 0;
    if (replaying && !replay_ops.empty()) {
        first = uint64_t(replay_ops[0].code); n = first + 1;
        for (size_t i = 1; i < replay_ops.size(); ++i) rs.push_back(replay_ops[i].code);
    }
    for (uint64_t i = first; i < n; ++i) {
        if (!replaying && int(i % uint64_t(shards)) != shard) continue;
        P p(cfg, i);
        if (sh) { sh->ops[0][0] = int(i); sh->ops[0][1] = sh->ops[0][2] = sh->ops[0][3] = 0; sh->nops = 1; sh->beat = sh->beat + 1; }
        prog_text = p.text();
        if (replaying) fprintf(stderr, "program %llu: %s\n", (unsigned long long)i, prog_text.c_str());
        auto st = sched::explore(o, p.threads(), [](void* c) { static_cast<P*>(c)->setup(); }, [](void* c, int t) { static_cast<P*>(c)->body(t); },
            [](void* c) { static_cast<P*>(c)->final(); }, &p, replaying ? rs.data() : nullptr, int(rs.size()), [] { if (sh) sh->beat = sh->beat + 1; return out_of_time(); });
        stats.executions += st.executions; stats.transitions += st.transitions; stats.states += st.states; stats.merged += st.pruned;
        stats.depth = std::max(stats.depth, int(st.max_depth)); stats.depth_goal = stats.depth;
        ++stats.outcomes;       // programs
        if (stats.outcomes == 3 || stats.outcomes == 20 || stats.outcomes == 60) stats.samples.push_back(prog_text + " (" + std::to_string(st.executions) + " schedules)");
        if (!st.complete) { stats.complete = false; break; }
    }
}

// brute-force linearizability: Spec::State, apply(State&, const LogEntry&) -> consistent?
template <class Spec>
bool linearizable(const Spec& spec, typename Spec::State s0, const sched::LogEntry* e, int n, uint32_t doneset = 0) {
    if (doneset == (1u << n) - 1) return spec.accept(s0);
    for (int i = 0; i < n; ++i) {
        if (doneset >> i & 1) continue;
        bool minimal = true;
        for (int j = 0; j < n && minimal; ++j) if (!(doneset >> j & 1) && j != i && e[j].ret < e[i].inv) minimal = false;
        if (!minimal) continue;
        typename Spec::State s = s0;
        if (spec.apply(s, e[i]) && linearizable(spec, s, e, n, doneset | 1u << i)) return true;
    }
    return false;
}
}
extern "C" void sched_fail_hook(const char* msg) { fprintf(stderr, "program: %s\n", mc::prog_text.c_str()); mc::fail("%s", msg); }

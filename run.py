#!/usr/bin/env python3
"""Runs the check of one property:  run.py <id> [--tier quick|thorough] [--replay FILE] [--include DIR] [--keep]

Builds the harnesses listed in checks.py from /repo's current working tree in a scratch directory, explores every
configuration exhaustively (in parallel), and reports.  Exit 0: held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken.  Exit 2: the check itself could not run.
"""
import argparse, concurrent.futures as cf, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks

MAXOPS = 4096
MSG_OFF = 8 + 4 + 4 + MAXOPS * 16
ASAN = "detect_leaks=0:abort_on_error=0:exitcode=42:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8:alloc_dealloc_mismatch=0:detect_invalid_pointer_pairs=0"
HANG_S = 30.0

def read_state(path):
    try:
        with open(path, "rb") as f: b = f.read()
        beat, n, failed = struct.unpack_from("<QII", b, 0)
        ops = [list(struct.unpack_from("<4i", b, 16 + 16 * i)) for i in range(min(n, MAXOPS))]
        msg = b[MSG_OFF:MSG_OFF + 2048].split(b"\0")[0].decode("latin1")
        return beat, ops, msg if failed else ""
    except Exception:
        return 0, [], ""

class Runner:
    def __init__(self, pid, tier, include, jobs=8):
        self.pid, self.tier, self.include, self.jobs = pid, tier, include, jobs
        self.spec = checks.CHECKS[pid]
        self.tmp = tempfile.mkdtemp(prefix="mc_%s_" % pid)
        self.procs, self.lock, self.stop = set(), threading.Lock(), False
        self.env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=43", TZ="UTC", LC_ALL="C")

    def build(self, u):
        exe = os.path.join(self.tmp, u.name)
        src = os.path.join(HERE, "harness", u.src)
        cmd = [u.cxx, "-std=" + u.std, *u.flags, "-I", self.include, "-I", os.path.join(HERE, "mc"), "-I", os.path.join(HERE, "harness"),
               *["-D" + d for d in u.defs]]
        if u.sched:      # instrumented harness + uninstrumented scheduler
            cmds = [cmd + ["-c", src, "-o", exe + ".o"],
                    [u.cxx, "-std=c++17", "-O2", "-g1", "-c", os.path.join(HERE, "mc", "sched_rt.cpp"), "-o", exe + ".rt.o"],
                    [u.cxx, exe + ".o", exe + ".rt.o", "-o", exe, *u.ldflags]]
        else:
            cmds = [cmd + [src, "-o", exe, *u.ldflags]]
        for c in cmds:
            r = subprocess.run(c, capture_output=True, text=True, timeout=800)
            if r.returncode != 0: return u, None, r.stderr
        return u, exe, ""

    def child(self, exe, args, tag, limit, hang):
        """-> (returncode | 'hang' | 'limit', stdout, stderr, ops, msg)"""
        st = os.path.join(self.tmp, tag + ".state")
        if os.path.exists(st): os.unlink(st)
        so, se = open(os.path.join(self.tmp, tag + ".out"), "w+b"), open(os.path.join(self.tmp, tag + ".err"), "w+b")
        p = subprocess.Popen([exe, "--state", st, *args], stdout=so, stderr=se, env=self.env, cwd=self.tmp, start_new_session=True)
        with self.lock: self.procs.add(p)
        t0 = time.time(); last, lastt, rc = None, t0, None
        while True:
            try:
                rc = p.wait(0.05 if time.time() - t0 < 2 else 0.3); break
            except subprocess.TimeoutExpired: pass
            if self.stop: rc = "stopped"; break
            now = time.time()
            try:
                with open(st, "rb") as f: b = f.read(8)
            except OSError: b = b""
            if b != last: last, lastt = b, now
            if now - lastt > hang: rc = "hang"; break
            if now - t0 > limit: rc = "limit"; break
        if not isinstance(rc, int):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
        with self.lock: self.procs.discard(p)
        _, ops, msg = read_state(st)
        out = []
        for f in (so, se):
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 200000)); out.append(f.read().decode("latin1")); f.close()
        for x in (st,): 
            if os.path.exists(x): os.unlink(x)
        return rc, out[0], out[1], ops, msg

    def replay_args(self, ops): return ["--replay", " ".join(",".join(map(str, o)) for o in ops)]

    def run_config(self, u, exe, config, budget):
        tag = re.sub(r"\W+", "_", u.name + "_" + config)
        base = ["--config", config, "--budget", str(budget)] + (["--thorough"] if self.tier == "thorough" else [])
        rc, out, err, ops, msg = self.child(exe, base, tag, budget * 2 + 120, HANG_S)
        if rc == "stopped": return None
        m = re.search(r"^MC-STATS (.*)$", out, re.M)
        if rc == 0 and m:
            d = json.loads(m.group(1)); d["unit"] = u.name
            return ("ok", d)
        if rc == 2 or (rc == 0 and not m): return ("error", "%s/%s: rc=%s %s" % (u.name, config, rc, err[-2000:]))
        if rc == "limit": return ("error", "%s/%s: exceeded its time limit\n%s" % (u.name, config, err[-2000:]))
        # a violation candidate: replay it alone before reporting
        for attempt in range(2):
            rc2, out2, err2, ops2, msg2 = self.child(exe, base + self.replay_args(ops), tag + "_replay%d" % attempt, 180, 90)
            if rc2 == "stopped": return None
            if rc2 != 0:
                return ("violation", dict(unit=u.name, config=config, ops=ops, exit=str(rc2), message=msg2 or msg or self.summary(err2, rc2), log=(err2 + out2)[-4000:]))
        # the single history passes alone: corruption may need the whole run; run it again
        rc3, out3, err3, ops3, msg3 = self.child(exe, base, tag + "_again", budget * 2 + 120, 90)
        if rc3 == "stopped": return None
        if rc3 not in (0, 2, "limit"):
            return ("violation", dict(unit=u.name, config=config, ops=ops3, whole_run=True, exit=str(rc3), message=msg3 or msg or self.summary(err3, rc3), log=(err3 + out3)[-4000:]))
        return ("error", "%s/%s: failure did not reproduce: rc=%s %s %s" % (u.name, config, rc, msg, err[-2000:]))

    def summary(self, err, rc):
        for pat in (r"ERROR: AddressSanitizer: .*", r"runtime error: .*", r"Assertion .*", r"terminate called.*"):
            m = re.search(pat, err)
            if m: return m.group(0)[:400]
        if rc == "hang": return "no progress (endless loop or deadlock)"
        if isinstance(rc, int) and rc < 0: return "killed by signal %d" % -rc
        return "exit %s" % rc

    def run(self):
        t0 = time.time()
        units = [u for u in self.spec["units"] if self.tier == "thorough" or not u.thorough_only]
        with cf.ThreadPoolExecutor(self.jobs) as ex: built = list(ex.map(self.build, units))
        t_build = time.time() - t0
        bad = [(u, e) for u, x, e in built if x is None]
        for u, e in bad:
            print("BUILD-ERROR %s\n%s" % (u.name, e[:1500] + "\n...\n" + e[-4000:]), file=sys.stderr)
            if re.search(r": error:", e) and re.search(r"(itlib|harness)/\S+:\d+", e) and "internal compiler error" not in e and "fatal error" not in e:      # the compiler works and rejects a use of the documented interface
                first = [l for l in e.split("\n") if "error:" in l][0][:300]
                return [], dict(unit=u.name, config="(build)", ops=[], exit="build", message="a documented use of the interface does not compile: " + first, log=e[:4000]), [], [], t_build, time.time() - t0
        budget = (self.spec.get("thorough_budget", 500) if self.tier == "thorough" else self.spec.get("quick_budget", 150))
        tasks = []
        for u, exe, _ in built:
            if not exe: continue
            r = subprocess.run([exe, "--list"] + (["--thorough"] if self.tier == "thorough" else []), capture_output=True, text=True, env=self.env)
            names = r.stdout.split("\n")[:-1]
            if r.returncode or not names: bad.append((u, "no configurations")); continue
            tasks += [(u, exe, c) for c in names]
        hard_end = t0 + (780 if self.tier == "quick" else 3000)
        results, violation, errors = [], None, []
        nt = max(1, (len(tasks) + self.jobs - 1) // self.jobs)
        def one(t):
            if self.stop: return None
            left = hard_end - time.time() - 60
            return self.run_config(*t, max(3.0, min(budget, left)))
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            futs = [ex.submit(one, t) for t in tasks]
            for f in cf.as_completed(futs):
                r = f.result()
                if r is None: continue
                if r[0] == "ok": results.append(r[1])
                elif r[0] == "error": errors.append(r[1])
                elif violation is None:
                    violation = r[1]; self.stop = True
        return results, violation, errors, bad, t_build, time.time() - t0

    def cleanup(self): shutil.rmtree(self.tmp, ignore_errors=True)

def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"): out.append(l)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?"); ap.add_argument("--selftest", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay"); ap.add_argument("--include", default=os.environ.get("MC_INCLUDE") or "/repo/include")
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--keep", action="store_true"); ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        missing = [c for c in ("g++", "clang++") if not shutil.which(c)]
        missing += [u.src for c in checks.CHECKS.values() for u in c["units"] if not os.path.exists(os.path.join(HERE, "harness", u.src))]
        print("missing: %s" % missing if missing else "ok: %d checks" % len(checks.CHECKS))
        return 1 if missing else 0
    seed = int(os.environ.get("VERIF_SEED") or 1)
    r = Runner(a.property, a.tier, a.include, a.jobs)
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            u = [u for u in r.spec["units"] if u.name == rep["unit"]][0]
            _, exe, e = r.build(u)
            if not exe: print(e); return 1 if rep["config"] == "(build)" else 2
            if rep["config"] == "(build)": print("builds"); return 0
            args = ["--config", rep["config"]]
            if rep.get("tier") == "thorough": args += ["--thorough"]
            if not rep.get("whole_run"): args += r.replay_args(rep["ops"])
            rc, out, err, ops, msg = r.child(exe, args, "replay", 600, 90)
            print(out + err); print("replay result:", rc, msg)
            return 0 if rc == 0 else 1
        results, violation, errors, bad, tb, wall = r.run()
    finally:
        if a.keep: print("kept", r.tmp)
        else: r.cleanup()
    rc = 0
    if violation:
        d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, a.property + ".json")
        violation.update(property=a.property, tier=a.tier)
        json.dump(violation, open(path, "w"), indent=1)
        print(violation["message"]); print(violation["log"][-2500:])
        rc = 1
    complete = all(x["complete"] for x in results)
    ev = dict(property=a.property, tier=a.tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=1 if violation else 0,
        coverage=dict(states=sum(x["states"] for x in results), transitions=sum(x["transitions"] for x in results),
            traces_validated_against_impl=sum(x["executions"] for x in results),
            executions_note="every state and transition is reached by executing the real code; traces_validated_against_impl counts complete executions of the implementation compared with the reference model",
            distinct_outcomes=sum(x["outcomes"] for x in results), exhaustive=complete and not violation and not errors,
            bound=r.spec.get("bound", ""), build_s=round(tb, 1),
            configurations=[{k: x[k] for k in ("unit", "config", "states", "transitions", "executions", "depth", "depth_goal", "outcomes", "complete")} for x in sorted(results, key=lambda x: (x["unit"], x["config"]))],
            incomplete=[x["unit"] + "/" + x["config"] for x in results if not x["complete"]],
            samples=[s for x in results[:12] for s in x["samples"][:1]] or ["(none: stopped at the violation)"]),
        assumptions=r.spec.get("assumptions", []) + ["executions outside the stated alphabet and bounds are not covered", "g++/clang++ on x86-64 Linux with libstdc++"])
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", a.property + ".json"), "w"), indent=1)
    c = ev["coverage"]
    print("%s %s: states=%d transitions=%d executions=%d exhaustive=%s build=%.1fs wall=%.1fs" % (a.property, a.tier, c["states"], c["transitions"], c["traces_validated_against_impl"], c["exhaustive"], tb, wall))
    if c["incomplete"]: print("  stopped at the time budget:", ", ".join(c["incomplete"]))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    if bad or errors:
        for e in errors: print("ERROR", e, file=sys.stderr)
        return 2
    for l in known_findings():
        if l.startswith("known: property=%s " % a.property): print("KNOWN-FINDING: property=%s %s" % (a.property, l.split(" ", 2)[2]))
    return 0

if __name__ == "__main__": sys.exit(main())

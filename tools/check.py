#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the simulator from /repo's working tree, searches seeded runs of the scenarios of
one property, prints VIOLATION property=<id> replay=<path> and exits 1 if one fails; writes evidence/<property>.json."""
import json, os, re, subprocess, sys, time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS, QUICK_S, THOROUGH_S

VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, "known-findings.txt")

REAL = ["/repo/src", "/repo/base (queues, pools, registry, file and os layer, periodic_function, bundled fmt)", "/repo/sinks", "/repo/sinks/formatters",
        "/repo/include", "the C++ standard library (threads, mutexes, futures, condition variables above their pthread calls)"]
STUB = ["thread scheduling and pthread/sem primitives (simulated, one thread at a time, seeded)", "clocks and sleeps (simulated steady and wall clock)",
        "file system, stdio streams, stdout/stderr, isatty (simulated, with faults)", "malloc/new (simulated arena with checks)", "environment variables"]
ASSUME = ["sequentially consistent values at every atomic access (one simulated thread runs at a time); weak-memory effects are seen only as data races by the happens-before detector, which honours the C++11 memory orders",
          "sampled schedules and faults: a clean run is evidence, not proof",
          "Linux build with LEARNLOG_USE_TLS and the bundled fmt, as the repository's own build configures it"]


def known_entries(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) scenario=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(dict(cls=m.group(2), scenario=m.group(3), match=m.group(4), text=m.group(5).strip()))
    return out


def symbol(binary, pc):
    if not pc:
        return ""
    try:
        o = subprocess.run(["addr2line", "-Cfsie", binary, hex(pc)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout.split("\n")
        return "%s at %s" % (o[0][:160], o[1]) if len(o) > 1 else ""
    except Exception:
        return ""


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    t0 = time.time()
    secs = float(os.environ.get("SIM_SECONDS", "0")) or (cfg.get("quick_s", QUICK_S) if tier == "quick" else THOROUGH_S)
    stages = [("", 1.0)]
    if tier != "quick":
        stages = [("", 0.7), ("notls", 0.15), ("debug", 0.15)]      # as shipped; thread ids without thread-local storage; with assertions
    total = None
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc, violation, binary, samples, builds = 0, None, None, [], []
    for variant, share in stages:
        binary = B.build(cfg["groups"] if len(cfg["groups"]) > 1 else cfg["groups"][0], variant)
        builds.append(os.path.basename(binary))
        out = os.path.join(rdir, "%s%s.stats.json" % (prop, variant))
        mix = ",".join("%s:%d" % kv for kv in cfg["mix"].items())
        cmd = [binary, "batch", "--scenarios", mix, "--seed", str(seed), "--time", "%.1f" % (secs * share), "--mintime", "40" if tier == "quick" else "120",
               "--workers", str(os.cpu_count() or 8), "--out", out, "--replay-dir", rdir, "--property", prop]
        if cfg.get("classes"):
            cmd += ["--classes", ",".join(cfg["classes"])]
        print("check %s (%s%s): seed %d, %.0f s of simulated runs of %s" % (prop, tier, " " + variant if variant else "", seed, secs * share, mix), flush=True)
        p = subprocess.run(cmd)
        if p.returncode not in (0, 1, 3):
            print("check %s: the driver ended with status %d" % (prop, p.returncode))
            return 2
        st = json.load(open(out))
        os.remove(out)
        if total is None:
            total = st
        else:
            for k in ("runs", "steps", "switches", "preemptions", "sim_s", "timer_jumps", "incarnations", "crashed_runs", "fair_runs", "det_checks", "det_fail", "infra", "distinct",
                      "nontrivial", "violating_runs", "runs_violating_other_properties", "wall_s"):
                total[k] += st[k]
            for k in ("faults", "strategies"):
                for f in st[k]:
                    total[k][f] = total[k].get(f, 0) + st[k][f]
            for k in ("scenarios", "probes"):
                for f, d in st[k].items():
                    e = total[k].setdefault(f, {x: 0 for x in d})
                    for x in d:
                        e[x] += d[x]
        if st["violation"]:
            violation = st["violation"]
            break
    # two sample cases of this run: the first two plans of the batch
    for i, sc in enumerate(list(cfg["mix"])[:2]):
        o = subprocess.run([binary, "plan", sc, str(seed * 1000000007 + i)], stdout=subprocess.PIPE, text=True).stdout
        samples.append(o[:1500])
    known = known_entries(prop)
    status = 0
    if violation:
        rp = subprocess.run([binary, "replay", violation["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exact = "REPRODUCED exactly" in rp.stdout
        where = [symbol(binary, pc) for pc in violation["loc"]]
        print("%s seed %s: %s: %s" % (violation["scenario"], violation["seed"], violation["class"], violation["message"]))
        for w in where:
            if w:
                print("    " + w)
        print("minimised: ops %s, schedule segments %s, faults %s in %d runs" % (violation["ops"], violation["segments"], violation["faults"], violation["min_runs"]))
        k = next((k for k in known if k["cls"] == violation["class"] and k["scenario"] == violation["scenario"] and re.search(k["match"], violation["message"])), None)
        if rp.returncode != 1:
            print("check %s: the replay file did not reproduce the violation in a fresh process" % prop)
            status = 2
        elif k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        else:
            print("replay in a fresh process: %s (%s replay %s)" % ("exact" if exact else "same class", binary, violation["replay"]))
            status = 1
    else:
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    bad = total["infra"] + total["det_fail"]
    if status == 0 and bad:
        print("check %s: %d runs without a verdict (%s, scenario %s seed %s)" % (prop, bad, total["infra_msg"], total["infra_scenario"], total["infra_seed"]))
        if bad > max(2, total["runs"] // 2000):
            status = 2
    wall = time.time() - t0
    hours = max(total["wall_s"], 1e-9) / 3600
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration", wall_s=round(wall, 2), violations=1 if status == 1 else 0, assumptions=ASSUME + cfg.get("assume", []),
              coverage=dict(evaluations=total["runs"], distinct_nontrivial=total["nontrivial"],
                            rule="one evaluation is one simulated run: a seed generates the workload (threads, operations, sizes, configuration), the schedule and the faults; distinct: the hash over every scheduling decision, "
                                 "fault and result differs from all earlier runs of this check; non-trivial: at least one preemption, fault or random choice took place",
                            samples=samples,
                            scenarios=total["scenarios"], runs_per_hour=int(total["runs"] / hours), seeds_per_hour=int(total["runs"] / hours), first_seed=total["first_seed"],
                            simulated_seconds=round(total["sim_s"], 3), scheduling_points=total["steps"], context_switches=total["switches"], preemptions=total["preemptions"],
                            simulated_processes=total["incarnations"], runs_with_a_crash=total["crashed_runs"], faults_injected=total["faults"], schedules_by_strategy=total["strategies"],
                            switch_edges=total["switch_edges"], switch_edges_measure="distinct (code location left, code location entered) pairs at context switches, hashed into 2^20 bits",
                            distinct_interleavings=total["distinct"], probes=total["probes"], determinism_checks=total["det_checks"], determinism_failures=total["det_fail"], runs_without_verdict=total["infra"], runs_violating_other_properties=total["runs_violating_other_properties"],
                            max_threads=total["max_threads"], max_steps=total["max_steps"], components_real=REAL, components_simulated=STUB, builds=builds))
    if violation:
        ev["coverage"]["violation"] = violation
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("check %s: %d runs (%d distinct), %.0f s simulated, %d preemptions, %d faults, %.0f s wall" % (prop, total["runs"], total["distinct"], total["sim_s"], total["preemptions"], sum(total["faults"].values()), wall))
    if status == 1:
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]), flush=True)
    return status


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print(str(e))
        sys.exit(2)

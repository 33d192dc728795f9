// Driver: plans, seeded batches over forked workers, minimisation, replay files, statistics.
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <set>

namespace sim {

Scenario* g_scenarios;
Scenario::Scenario(const char* n, void (*g)(Rng&, Plan&), void (*r)(const Plan&, int), int w, int inc)
    : name(n), gen(g), run(r), weight(w), max_incarnations(inc), next(g_scenarios) { g_scenarios = this; }
const Scenario* find_scenario(const std::string& n) {
    for (Scenario* s = g_scenarios; s; s = s->next) if (n == s->name) return s;
    return nullptr;
}

// ---------------------------------------------------------------------------------------- plans
long Plan::get(const char* k, long d) const {
    for (auto& c : cfg) if (c.first == k) return c.second;
    return d;
}
bool Plan::has(const char* k) const {
    for (auto& c : cfg) if (c.first == k) return true;
    return false;
}
void Plan::set(const char* k, long v) {
    for (auto& c : cfg) if (c.first == k) { c.second = v; return; }
    cfg.push_back(std::make_pair(std::string(k), v));
}
void Plan::add(int th, const char* n, long a0, long a1, long a2, long a3, long a4) {
    Op o; o.th = th; o.name = n;
    o.a[0] = a0; o.a[1] = a1; o.a[2] = a2; o.a[3] = a3; o.a[4] = a4;
    ops.push_back(o);
}
int Plan::nthreads() const { int m = 0; for (auto& o : ops) m = std::max(m, o.th + 1); return m; }
std::string Plan::text() const {
    std::ostringstream o;
    o << "scenario " << scenario << "\n";
    for (auto& c : cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto& p : ops) {
        o << "op " << p.th << " " << p.name;
        int last = 4;
        while (last >= 0 && p.a[last] == 0) last--;
        for (int i = 0; i <= last; i++) o << " " << p.a[i];
        o << "\n";
    }
    return o.str();
}
bool Plan::parse(const std::string& s) {
    std::istringstream in(s);
    std::string line;
    cfg.clear(); ops.clear(); scenario.clear();
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#') continue;
        if (w == "scenario") l >> scenario;
        else if (w == "cfg") { std::string k; long v; l >> k >> v; set(k.c_str(), v); }
        else if (w == "op") {
            Op o; memset(o.a, 0, sizeof o.a);
            l >> o.th >> o.name;
            for (int i = 0; i < 5; i++) if (!(l >> o.a[i])) { o.a[i] = 0; break; }
            ops.push_back(o);
        }
    }
    return !scenario.empty();
}

// ---------------------------------------------------------------------------------------- one run
static void reset_result(Result* r) { memset((void*)r, 0, offsetof(Result, seg)); r->note_len = 0; }

static void exec_plan(const Plan& plan, const RunMode& mode, Result* r) {
    const Scenario* sc = find_scenario(plan.scenario);
    if (!sc) { fprintf(stderr, "unknown scenario %s\n", plan.scenario.c_str()); exit(2); }
    reset_result(r);
    vfs_reset();
    for (int inc = 0;; inc++) {
        r->status = S_NONE;
        pid_t p = fork();
        if (p < 0) { usleep(20000); p = fork(); if (p < 0) { perror("fork"); exit(2); } }
        if (p == 0) run_child(sc, plan, mode, inc, r);
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (r->status == S_NONE) {
            if (r->cls[0]) r->status = S_VIOLATION;
            else {
                r->status = S_INFRA;
                snprintf(r->cls, sizeof r->cls, "infra");
                snprintf(r->msg, sizeof r->msg, "the simulated process ended without a result (wait status %x)", st);
            }
        }
        if (r->status == S_CRASHED) {
            if (inc + 1 < sc->max_incarnations) continue;
            r->status = S_PASS;
        }
        break;
    }
    r->hash ^= (u64)r->status * 0x9E3779B97F4A7C15ull;
}

static void gen_plan(const Scenario* sc, u64 seed, Plan& plan) {
    plan = Plan();
    plan.scenario = sc->name;
    Rng rng(seed * 2654435761ull + 77);
    sc->gen(rng, plan);
    auto dflt = [&](const char* k, long v) { if (!plan.has(k)) plan.set(k, v); };
    if (!plan.has("_strat")) {
        u64 k = rng.below(100);
        if (k < 58) {
            static const long ps[] = {2000, 8000, 20000, 45000}, pa[] = {0, 300, 1500, 6000, 25000}, pp[] = {0, 0, 3, 30, 300};
            plan.set("_strat", 0);
            dflt("_p_sync", ps[rng.below(4)]);
            dflt("_p_atomic", pa[rng.below(5)]);
            dflt("_p_plain", pp[rng.below(5)]);
        } else if (k < 90) {
            static const long ln[] = {300, 1200, 5000, 20000, 60000};
            plan.set("_strat", 1);
            dflt("_pct_d", rng.range(1, 6));
            dflt("_pct_len", ln[rng.below(5)]);
        } else {
            static const long q[] = {11, 37, 113, 401, 2003};
            plan.set("_strat", 2);
            dflt("_quantum", q[rng.below(5)] + (long)rng.below(17));
        }
    }
    if (rng.chance(1, 3)) dflt("f.spurious", 400);
    if (rng.chance(1, 4)) dflt("f.eintr", 800);
    if (rng.chance(1, 5)) { dflt("f.stall", 2500); dflt("fmax.stall", 6); static const long sl[] = {300, 3000, 30000, 200000}; dflt("_stall_len", sl[rng.below(4)]); }
    if (rng.chance(1, 5)) { dflt("f.time_leap", 2000); dflt("fmax.time_leap", 10); }
}

// ---------------------------------------------------------------------------------------- replay files
static std::string replay_text(const Plan& plan, u64 seed, const Result* r, const char* property, bool seed_only) {
    std::ostringstream o;
    o << "learnlog-sim-replay 1\nproperty " << property << "\nclass " << r->cls << "\n";
    std::string m = r->msg;
    for (auto& c : m) if (c == '\n') c = ' ';
    o << "message " << m << "\nhash " << r->hash << "\nseed " << seed << "\nmode " << (seed_only ? "seed" : "trace") << "\n";
    o << plan.text();
    if (!seed_only) {
        for (u32 i = 0; i < r->nseg; i++)
            o << "seg " << r->seg[i].tid << " " << (char)r->seg[i].kind << " " << r->seg[i].end << " " << r->seg[i].inc << " " << r->seg[i].pad << "\n";
        for (u32 i = 0; i < r->nchoice; i++) o << "choice " << r->choice[i].inc << " " << r->choice[i].idx << " " << r->choice[i].val << "\n";
        for (u32 i = 0; i < r->nfault; i++)
            o << "fault " << r->fault[i].inc << " " << fault_names[r->fault[i].kind] << " " << r->fault[i].occ << " " << r->fault[i].param << "\n";
    }
    o << "# log of the run\n";
    std::istringstream n(std::string(r->note, r->note_len));
    std::string line;
    while (std::getline(n, line)) o << "# " << line << "\n";
    return o.str();
}

struct ReplayFile { Plan plan; RunMode mode; std::string property, cls, msg; u64 hash; };
static bool load_replay(const char* path, ReplayFile& f) {
    std::ifstream in(path);
    if (!in) return false;
    std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    f.plan.parse(all);
    f.mode.replay = true;
    f.mode.seed = 0;
    std::istringstream s(all);
    std::string line;
    while (std::getline(s, line)) {
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "property") l >> f.property;
        else if (w == "class") l >> f.cls;
        else if (w == "message") f.msg = line.size() > 8 ? line.substr(8) : "";
        else if (w == "hash") l >> f.hash;
        else if (w == "seed") l >> f.mode.seed;
        else if (w == "mode") { std::string m; l >> m; f.mode.replay = m != "seed"; }
        else if (w == "seg") { u32 tid, end, inc, pad; char k; l >> tid >> k >> end >> inc >> pad; Seg g; g.tid = tid; g.kind = k; g.end = end; g.inc = inc; g.pad = pad; f.mode.seg.push_back(g); }
        else if (w == "choice") { Choice c; l >> c.inc >> c.idx >> c.val; f.mode.choice.push_back(c); }
        else if (w == "fault") {
            FaultRec r; std::string k;
            l >> r.inc >> k >> r.occ >> r.param;
            r.kind = F_NUM;
            for (u32 i = 0; i < F_NUM; i++) if (k == fault_names[i]) r.kind = i;
            f.mode.fault.push_back(r);
        }
    }
    return !f.plan.scenario.empty();
}
static RunMode mode_of(const Result* r, u64 seed) {
    RunMode m;
    m.seed = seed; m.replay = true;
    m.seg.assign(r->seg, r->seg + r->nseg);
    m.choice.assign(r->choice, r->choice + r->nchoice);
    m.fault.assign(r->fault, r->fault + r->nfault);
    return m;
}

// ---------------------------------------------------------------------------------------- statistics
struct ScStat { u64 runs, steps; };
struct WorkerStat {
    u64 runs, steps, switches, preempts, sim_ns, timer_jumps, incs, crashed_runs, det_checks, det_fail, fair_runs, infra, distinct, spin;
    u64 faults[F_NUM];
    u64 strat[4];
    ScStat sc[64];
    u32 nprobe;
    struct { char name[40]; u64 n, runs; } probes[160];
    volatile int found;
    u64 seed; char scen[64];
    u32 maxthreads; u64 maxsteps;
    char infra_msg[400]; u64 infra_seed; char infra_scen[64];
    u64 nontrivial, other;
};

static bool add_hash(u64 h) {
    if (!h) h = 1;
    u64 i = h * 0x9E3779B97F4A7C15ull >> 44;
    for (int k = 0; k < 64; k++, i = (i + 1) & ((1 << 20) - 1)) {
        u64 c = g_cov->hashes[i];
        if (c == h) return false;
        if (!c) {
            if (__sync_bool_compare_and_swap(&g_cov->hashes[i], 0, h)) { __sync_fetch_and_add(&g_cov->nhash, 1); return true; }
            if (g_cov->hashes[i] == h) return false;
        }
    }
    return false;
}

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

template <class T> static T* shared(size_t n = 1) {
    void* p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (T*)p;
}

struct Mix { std::vector<const Scenario*> sc; std::vector<int> idx; u64 total; std::vector<int> w; };
static const Scenario* choose_scenario(const Mix& m, u64 seed, int& k) {
    Rng r(seed * 31 + 7);
    u64 x = r.below(m.total);
    for (size_t i = 0; i < m.sc.size(); i++) {
        if (x < (u64)m.w[i]) { k = (int)i; return m.sc[i]; }
        x -= m.w[i];
    }
    k = 0;
    return m.sc[0];
}

static volatile int* g_stop;
static std::set<std::string> g_classes;     // what counts as a violation (empty: everything)

static void worker(int w, int nw, u64 base, double deadline, u64 max_runs, const Mix& mix, WorkerStat* st, Result* r, Result* r2, bool keep_going) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    cpu_set_t all;
    sched_getaffinity(0, sizeof all, &all);
    std::vector<int> cpus;
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) cpus.push_back(i);
    CPU_SET(cpus[w % cpus.size()], &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    vfs_setup(nullptr, 0);
    Plan plan;
    for (u64 k = 0; !*g_stop; k++) {
        if (now_s() > deadline || (max_runs && k * nw + w >= max_runs)) break;
        u64 seed = base + k * nw + w;
        int si;
        const Scenario* sc = choose_scenario(mix, seed, si);
        gen_plan(sc, seed, plan);
        RunMode mode;
        mode.seed = seed; mode.replay = false;
        exec_plan(plan, mode, r);
        st->runs++;
        st->steps += r->steps; st->switches += r->switches; st->preempts += r->preempts; st->sim_ns += r->sim_ns;
        st->timer_jumps += r->timer_jumps; st->incs += r->incs; st->crashed_runs += r->incs > 1; st->fair_runs += r->fair;
        st->spin += r->spin_switches;
        if (r->nthreads > st->maxthreads) st->maxthreads = r->nthreads;
        if (r->steps > st->maxsteps) st->maxsteps = r->steps;
        bool flt = false;
        for (int i = 0; i < F_NUM; i++) { st->faults[i] += r->faults[i]; flt |= r->faults[i] != 0; }
        st->strat[plan.get("_strat", 0) & 3]++;
        st->sc[si].runs++; st->sc[si].steps += r->steps;
        for (u32 i = 0; i < r->nprobe; i++) {
            u32 j = 0;
            while (j < st->nprobe && strcmp(st->probes[j].name, r->probes[i].name)) j++;
            if (j == st->nprobe && j < 160) { st->nprobe++; strcpy(st->probes[j].name, r->probes[i].name); }
            if (j < 160) { st->probes[j].n += r->probes[i].n; st->probes[j].runs++; }
        }
        if (add_hash(r->hash)) { st->distinct++; if (r->preempts || flt || r->nchoice) st->nontrivial++; }
        if (r->status == S_INFRA) {
            st->infra++;
            if (!st->infra_msg[0]) { snprintf(st->infra_msg, sizeof st->infra_msg, "%s", r->msg); st->infra_seed = seed; snprintf(st->infra_scen, 64, "%s", sc->name); }
            continue;
        }
        if (k % 25 == 3) {      // the same seed again must be the same execution
            exec_plan(plan, mode, r2);
            st->det_checks++;
            if (r2->hash != r->hash || r2->status != r->status) {
                st->det_fail++;
                if (!st->infra_msg[0]) { snprintf(st->infra_msg, sizeof st->infra_msg, "seed ran differently the second time: status %d/%d steps %llu/%llu switches %llu/%llu", r->status, r2->status, (unsigned long long)r->steps, (unsigned long long)r2->steps, (unsigned long long)r->switches, (unsigned long long)r2->switches); st->infra_seed = seed; snprintf(st->infra_scen, 64, "%s", sc->name); }
            }
        }
        if (r->status == S_VIOLATION) {
            exec_plan(plan, mode, r2);      // gate: only what repeats is a violation
            if (r2->hash != r->hash || r2->status != r->status || strcmp(r->cls, r2->cls)) {
                st->det_fail++;
                if (!st->infra_msg[0]) { snprintf(st->infra_msg, sizeof st->infra_msg, "a violation did not repeat with its seed: %.150s / %.150s", r->msg, r2->msg); st->infra_seed = seed; snprintf(st->infra_scen, 64, "%s", sc->name); }
                continue;
            }
            if (!g_classes.empty() && !g_classes.count(r->cls)) { st->other++; continue; }
            if (!st->found) {
                st->found = 1;
                st->seed = seed;
                snprintf(st->scen, sizeof st->scen, "%s", sc->name);
            } else st->found++;
            if (!keep_going) { *g_stop = 1; break; }
        }
    }
    _exit(0);
}

// ---------------------------------------------------------------------------------------- minimisation
struct Minimizer {
    Result *best, *tmp;
    Plan plan;
    u64 seed;
    std::string cls;
    double deadline;
    u64 tries = 0;
    u32 loc0, loc1;
    bool fails(const Plan& p, const RunMode& m) {
        tries++;
        exec_plan(p, m, tmp);
        return tmp->status == S_VIOLATION && cls == tmp->cls;
    }
    bool try_plan(const Plan& p, int nsched) {
        for (int i = 0; i < nsched && now_s() < deadline; i++) {
            RunMode m;
            m.seed = i == 0 ? seed : seed * 977 + 13 * i;
            m.replay = false;
            if (fails(p, m)) { plan = p; seed = m.seed; std::swap(best, tmp); return true; }
        }
        return false;
    }
    void ops(int nsched) {
        size_t chunk = std::max<size_t>(1, plan.ops.size() / 2);
        while (now_s() < deadline) {
            bool any = false;
            for (size_t i = 0; i < plan.ops.size() && now_s() < deadline;) {
                Plan p = plan;
                size_t n = std::min(chunk, p.ops.size() - i);
                p.ops.erase(p.ops.begin() + i, p.ops.begin() + i + n);
                if (try_plan(p, nsched)) any = true; else i += n;
            }
            if (chunk == 1 && !any) break;
            chunk = std::max<size_t>(1, chunk / 2);
        }
        // fault rates that are not needed
        for (size_t i = 0; i < plan.cfg.size() && now_s() < deadline; i++)
            if (plan.cfg[i].first.compare(0, 2, "f.") == 0 && plan.cfg[i].second) {
                Plan p = plan;
                p.cfg[i].second = 0;
                try_plan(p, 4);
            }
    }
    bool try_mode(const RunMode& m) {
        if (fails(plan, m)) { std::swap(best, tmp); return true; }
        return false;
    }
    // best holds a recorded trace that replays
    void trace() {
        for (int round = 0; round < 3 && now_s() < deadline; round++) {
            u32 before = best->nseg + best->nfault + best->nchoice;
            // preemptions
            size_t chunk = std::max<size_t>(1, best->nseg / 2);
            while (now_s() < deadline) {
                bool any = false;
                for (size_t i = 0; i < best->nseg && now_s() < deadline;) {
                    RunMode m = mode_of(best, seed);
                    size_t n = std::min<size_t>(chunk, m.seg.size() - i);
                    m.seg.erase(m.seg.begin() + i, m.seg.begin() + i + n);
                    u32 was = best->nseg;
                    if (try_mode(m) && best->nseg < was) any = true; else i += n;
                }
                if (chunk == 1 && !any) break;
                chunk = std::max<size_t>(1, chunk / 2);
                if (chunk == 1 && best->nseg > 400) break;
            }
            for (size_t i = 0; i < best->nfault && now_s() < deadline;) {
                RunMode m = mode_of(best, seed);
                m.fault.erase(m.fault.begin() + i);
                u32 was = best->nfault;
                if (!(try_mode(m) && best->nfault < was)) i++;
            }
            for (size_t i = 0; i < best->nchoice && now_s() < deadline;) {
                RunMode m = mode_of(best, seed);
                m.choice.erase(m.choice.begin() + i);
                u32 was = best->nchoice;
                if (!(try_mode(m) && best->nchoice < was)) i++;
            }
            if (best->nseg + best->nfault + best->nchoice >= before) break;
        }
    }
};

static std::string json_str(const char* s) {
    std::string o = "\"";
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static int run_batch(int argc, char** argv) {
    std::string scen, out = "stats.json", rdir = ".", prop = "P00";
    u64 base = 1, max_runs = 0; double secs = 20, minsecs = 30; int nw = 8; bool keep = false;
    for (int i = 0; i + 1 < argc; i += 2) {
        std::string k = argv[i]; const char* v = argv[i + 1];
        if (k == "--scenarios") scen = v;
        else if (k == "--seed") base = strtoull(v, 0, 10);
        else if (k == "--time") secs = atof(v);
        else if (k == "--mintime") minsecs = atof(v);
        else if (k == "--workers") nw = atoi(v);
        else if (k == "--out") out = v;
        else if (k == "--replay-dir") rdir = v;
        else if (k == "--property") prop = v;
        else if (k == "--max-runs") max_runs = strtoull(v, 0, 10);
        else if (k == "--keep-going") keep = atoi(v);
        else if (k == "--classes") { std::istringstream cl(v); std::string c; while (std::getline(cl, c, ',')) g_classes.insert(c); }
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    Mix mix; mix.total = 0;
    std::istringstream ss(scen);
    std::string item;
    while (std::getline(ss, item, ',')) {
        int w = 10;
        size_t c = item.find(':');
        if (c != std::string::npos) { w = atoi(item.c_str() + c + 1); item.resize(c); }
        const Scenario* s = find_scenario(item);
        if (!s) { fprintf(stderr, "unknown scenario %s\n", item.c_str()); return 2; }
        mix.sc.push_back(s); mix.w.push_back(w); mix.total += w;
    }
    if (mix.sc.empty()) { fprintf(stderr, "no scenarios\n"); return 2; }
    base = base * 1000000007ull;
    g_cov = shared<GlobalCov>();
    g_stop = shared<int>();
    WorkerStat* st = shared<WorkerStat>(nw);
    Result* rs = shared<Result>(nw * 2 + 2);
    double t0 = now_s();
    std::vector<pid_t> pids;
    for (int w = 0; w < nw; w++) {
        pid_t p = fork();
        if (p == 0) { worker(w, nw, base, t0 + secs, max_runs, mix, &st[w], &rs[2 * w], &rs[2 * w + 1], keep); _exit(0); }
        pids.push_back(p);
    }
    for (pid_t p : pids) { int s; waitpid(p, &s, 0); }
    double wall = now_s() - t0;
    WorkerStat T;
    memset((void*)&T, 0, sizeof T);
    int vi = -1;
    u64 nviol = 0;
    for (int w = 0; w < nw; w++) {
        WorkerStat& s = st[w];
        T.runs += s.runs; T.steps += s.steps; T.switches += s.switches; T.preempts += s.preempts; T.sim_ns += s.sim_ns; T.timer_jumps += s.timer_jumps;
        T.incs += s.incs; T.crashed_runs += s.crashed_runs; T.det_checks += s.det_checks; T.det_fail += s.det_fail; T.fair_runs += s.fair_runs; T.infra += s.infra;
        T.distinct += s.distinct; T.nontrivial += s.nontrivial; T.spin += s.spin;
        if (s.maxthreads > T.maxthreads) T.maxthreads = s.maxthreads;
        if (s.maxsteps > T.maxsteps) T.maxsteps = s.maxsteps;
        for (int i = 0; i < F_NUM; i++) T.faults[i] += s.faults[i];
        for (int i = 0; i < 4; i++) T.strat[i] += s.strat[i];
        for (size_t i = 0; i < mix.sc.size(); i++) { T.sc[i].runs += s.sc[i].runs; T.sc[i].steps += s.sc[i].steps; }
        for (u32 i = 0; i < s.nprobe; i++) {
            u32 j = 0;
            while (j < T.nprobe && strcmp(T.probes[j].name, s.probes[i].name)) j++;
            if (j == T.nprobe && j < 160) { T.nprobe++; strcpy(T.probes[j].name, s.probes[i].name); }
            if (j < 160) { T.probes[j].n += s.probes[i].n; T.probes[j].runs += s.probes[i].runs; }
        }
        if (s.infra_msg[0] && !T.infra_msg[0]) { strcpy(T.infra_msg, s.infra_msg); T.infra_seed = s.infra_seed; strcpy(T.infra_scen, s.infra_scen); }
        nviol += s.found;
        T.other += s.other;
        if (s.found && (vi < 0 || s.seed < st[vi].seed)) vi = w;
    }
    u64 edges = 0;
    for (u64 e : std::vector<u64>(g_cov->edges, g_cov->edges + (1 << 14))) edges += __builtin_popcountll(e);

    std::ostringstream viol;
    bool have_violation = false;
    if (vi >= 0) {
        g_cov = nullptr;
        cpu_set_t cs;
        CPU_ZERO(&cs);
        cpu_set_t all; sched_getaffinity(0, sizeof all, &all);
        for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) { CPU_SET(i, &cs); break; }
        sched_setaffinity(0, sizeof cs, &cs);
        vfs_setup(nullptr, 0);
        u64 seed = st[vi].seed;
        Minimizer M;
        M.best = &rs[2 * nw]; M.tmp = &rs[2 * nw + 1];
        M.seed = seed;
        gen_plan(find_scenario(st[vi].scen), seed, M.plan);
        Plan orig = M.plan;
        RunMode mode; mode.seed = seed; mode.replay = false;
        exec_plan(M.plan, mode, M.best);
        exec_plan(M.plan, mode, M.tmp);
        bool same = M.best->status == S_VIOLATION && M.tmp->status == S_VIOLATION && M.best->hash == M.tmp->hash && !strcmp(M.best->msg, M.tmp->msg);
        if (!same) {
            T.det_fail++;
            snprintf(T.infra_msg, sizeof T.infra_msg, "a violation did not repeat with its seed: %s / %s", M.best->msg, M.tmp->msg);
            T.infra_seed = seed; strcpy(T.infra_scen, st[vi].scen);
        } else {
            have_violation = true;
            M.cls = M.best->cls;
            Result* first = shared<Result>();
            memcpy((void*)first, (void*)M.best, sizeof(Result));
            u32 seg0 = M.best->nseg; size_t ops0 = orig.ops.size(); u32 f0 = M.best->nfault;
            double tm = now_s();
            M.deadline = tm + minsecs * 0.6;
            M.ops(6);
            M.deadline = tm + minsecs;
            // does the recorded trace replay?
            bool traced = false;
            RunMode m = mode_of(M.best, M.seed);
            exec_plan(M.plan, m, M.tmp);
            if (!M.best->overflow && M.tmp->status == S_VIOLATION && M.cls == M.tmp->cls && M.tmp->hash == M.best->hash) {
                traced = true;
                M.trace();
                // gate: the final trace, twice
                for (int i = 0; i < 2 && traced; i++) {
                    RunMode g = mode_of(M.best, M.seed);
                    exec_plan(M.plan, g, M.tmp);
                    traced = M.tmp->status == S_VIOLATION && M.tmp->hash == M.best->hash && !strcmp(M.tmp->msg, M.best->msg);
                }
            }
            if (!traced) {      // fall back to the seed itself
                RunMode g; g.seed = M.seed; g.replay = false;
                exec_plan(M.plan, g, M.best);
                if (M.best->status != S_VIOLATION) { M.plan = orig; M.seed = seed; g.seed = seed; exec_plan(M.plan, g, M.best); }
            }
            std::string path = rdir + "/" + prop + "-" + std::to_string(seed) + ".replay";
            std::ofstream f(path.c_str());
            f << replay_text(M.plan, M.seed, M.best, prop.c_str(), !traced);
            f.close();
            viol << "{\"seed\":" << seed << ",\"scenario\":" << json_str(st[vi].scen) << ",\"class\":" << json_str(M.best->cls) << ",\"message\":" << json_str(M.best->msg)
                 << ",\"replay\":" << json_str(path.c_str()) << ",\"mode\":\"" << (traced ? "trace" : "seed") << "\",\"ops\":[" << ops0 << "," << M.plan.ops.size() << "],\"segments\":[" << seg0 << "," << M.best->nseg
                 << "],\"faults\":[" << f0 << "," << M.best->nfault << "],\"min_runs\":" << M.tries << ",\"loc\":[" << M.best->loc[0] << "," << M.best->loc[1] << "],\"orig_message\":" << json_str(first->msg) << "}";
        }
    }
    std::ofstream o(out.c_str());
    o << "{\"property\":" << json_str(prop.c_str()) << ",\"wall_s\":" << wall << ",\"total_s\":" << now_s() - t0 << ",\"runs\":" << T.runs << ",\"steps\":" << T.steps << ",\"switches\":" << T.switches << ",\"preemptions\":" << T.preempts
      << ",\"sim_s\":" << T.sim_ns / 1e9 << ",\"timer_jumps\":" << T.timer_jumps << ",\"incarnations\":" << T.incs << ",\"crashed_runs\":" << T.crashed_runs << ",\"fair_runs\":" << T.fair_runs
      << ",\"det_checks\":" << T.det_checks << ",\"det_fail\":" << T.det_fail << ",\"infra\":" << T.infra << ",\"infra_msg\":" << json_str(T.infra_msg) << ",\"infra_seed\":" << T.infra_seed << ",\"infra_scenario\":" << json_str(T.infra_scen)
      << ",\"distinct\":" << T.distinct << ",\"nontrivial\":" << T.nontrivial << ",\"switch_edges\":" << edges << ",\"max_threads\":" << T.maxthreads << ",\"max_steps\":" << T.maxsteps << ",\"first_seed\":" << base
      << ",\"violating_runs\":" << nviol << ",\"runs_violating_other_properties\":" << T.other << ",\"strategies\":{\"random\":" << T.strat[0] << ",\"pct\":" << T.strat[1] << ",\"round_robin\":" << T.strat[2] << "},\"faults\":{";
    bool c = false;
    for (int i = 0; i < F_NUM; i++) { o << (c ? "," : "") << "\"" << fault_names[i] << "\":" << T.faults[i]; c = true; }
    o << "},\"scenarios\":{";
    for (size_t i = 0; i < mix.sc.size(); i++) o << (i ? "," : "") << "\"" << mix.sc[i]->name << "\":{\"runs\":" << T.sc[i].runs << ",\"steps\":" << T.sc[i].steps << "}";
    o << "},\"probes\":{";
    for (u32 i = 0; i < T.nprobe; i++) o << (i ? "," : "") << json_str(T.probes[i].name) << ":{\"n\":" << T.probes[i].n << ",\"runs\":" << T.probes[i].runs << "}";
    o << "},\"violation\":" << (have_violation ? viol.str() : "null") << "}\n";
    o.close();
    return have_violation ? 1 : T.det_fail || T.infra ? 3 : 0;
}

static void print_result(const Result* r, bool notes) {
    static const char* sn[] = {"none", "pass", "VIOLATION", "crashed", "INFRA"};
    printf("status %s class %s\n%s\nhash %llx steps %llu switches %llu preempts %llu sim %.3f ms threads %u incs %u fair %u segs %u choices %u faults %u timer_jumps %llu\n", sn[r->status], r->cls, r->msg, (unsigned long long)r->hash,
           (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->preempts, r->sim_ns / 1e6, r->nthreads, r->incs, r->fair, r->nseg, r->nchoice, r->nfault, (unsigned long long)r->timer_jumps);
    for (int i = 0; i < F_NUM; i++) if (r->faults[i]) printf("fault %s %llu\n", fault_names[i], (unsigned long long)r->faults[i]);
    for (u32 i = 0; i < r->nprobe; i++) printf("probe %s %llu\n", r->probes[i].name, (unsigned long long)r->probes[i].n);
    if (notes) fwrite(r->note, 1, r->note_len, stdout);
}

static void pin() {
    cpu_set_t cs, all;
    CPU_ZERO(&cs);
    sched_getaffinity(0, sizeof all, &all);
    for (int i = CPU_SETSIZE - 1; i >= 0; i--) if (CPU_ISSET(i, &all)) { CPU_SET(i, &cs); break; }
    sched_setaffinity(0, sizeof cs, &cs);
}

}  // namespace sim

using namespace sim;
int main(int argc, char** argv) {
    // addresses of libraries do not matter to a run, but keep them fixed all the same
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    }
    setenv("TZ", "UTC", 1);
    tzset();
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    arena_setup();
    if (argc < 2) { fprintf(stderr, "usage: simrun list | batch ... | replay FILE | seed SCENARIO SEED [n] | plan SCENARIO SEED\n"); return 2; }
    std::string cmd = argv[1];
    if (cmd == "list") { for (Scenario* s = g_scenarios; s; s = s->next) printf("%s\n", s->name); return 0; }
    if (cmd == "batch") return run_batch(argc - 2, argv + 2);
    Result* r = shared<Result>();
    Result* r2 = shared<Result>();
    if (cmd == "replay" && argc > 2) {
        ReplayFile f;
        if (!load_replay(argv[2], f)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        pin();
        vfs_setup(nullptr, 0);
        exec_plan(f.plan, f.mode, r);
        print_result(r, true);
        bool hit = r->status == S_VIOLATION && f.cls == r->cls;
        printf("%s\n", hit ? (r->hash == f.hash ? "REPRODUCED exactly" : "REPRODUCED (same violation class, different trace)") : "not reproduced");
        return hit ? 1 : 0;
    }
    if ((cmd == "seed" || cmd == "plan") && argc > 3) {
        Plan p;
        const Scenario* sc = find_scenario(argv[2]);
        if (!sc) return 2;
        u64 seed = strtoull(argv[3], 0, 10);
        pin();
        vfs_setup(nullptr, 0);
        int n = argc > 4 ? atoi(argv[4]) : 1, bad = 0;
        for (int i = 0; i < n; i++) {
            gen_plan(sc, seed + i, p);
            if (cmd == "plan") { printf("%s", p.text().c_str()); continue; }
            RunMode m; m.seed = seed + i; m.replay = false;
            exec_plan(p, m, r);
            if (n == 1) { print_result(r, true); }
            RunMode rm = mode_of(r, m.seed);
            exec_plan(p, m, r2);
            if (r2->hash != r->hash) printf("seed %llu NOT DETERMINISTIC: %s / %s steps %llu/%llu\n", (unsigned long long)seed + i, r->msg, r2->msg, (unsigned long long)r->steps, (unsigned long long)r2->steps);
            exec_plan(p, rm, r2);
            if (r2->hash != r->hash) printf("seed %llu TRACE DOES NOT REPLAY: %s / %s steps %llu/%llu\n", (unsigned long long)seed + i, r->msg, r2->msg, (unsigned long long)r->steps, (unsigned long long)r2->steps);
            if (r2->hash != r->hash && n == 1) {
                printf("segs %u/%u choices %u/%u faults %u/%u\n", r->nseg, r2->nseg, r->nchoice, r2->nchoice, r->nfault, r2->nfault);
                for (u32 k = 0; k < r->nseg && k < r2->nseg; k++)
                    if (memcmp(&r->seg[k], &r2->seg[k], sizeof(Seg))) {
                        for (u32 j = k > 2 ? k - 2 : 0; j < k + 4 && j < r->nseg && j < r2->nseg; j++)
                            printf("seg %u: t%u %c %u pad %u / t%u %c %u pad %u\n", j, r->seg[j].tid, r->seg[j].kind, r->seg[j].end, r->seg[j].pad, r2->seg[j].tid, r2->seg[j].kind, r2->seg[j].end, r2->seg[j].pad);
                        break;
                    }
            }
            if (r->status != S_PASS) { bad++; if (n > 1) printf("seed %llu: %s: %s\n", (unsigned long long)seed + i, r->cls, r->msg); }
        }
        if (n > 1) printf("%d of %d failed\n", bad, n);
        return bad ? 1 : 0;
    }
    return 2;
}

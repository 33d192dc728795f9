// Asynchronous loggers over the three thread pools: delivery, order, flush barrier, pool life cycle, fidelity, error reports.
// One workload, one recording sink and one reference record of what was sent; the scenarios differ in what they generate
// and in which of the checks below they apply.
#include "common.h"
namespace {
enum { CK_ONCE = 1, CK_ORDER = 2, CK_FLUSH = 4, CK_LIFE = 8, CK_FIDELITY = 16, CK_REPORT = 32, CK_OOM = 64 };
enum { TD_DROP, TD_POOL_FIRST, TD_CONCURRENT, TD_CLOSE, TD_EXIT, TD_REPLACE, TD_NUM };
enum { MAXSINK = 4, MAXLG = 3 };

struct Sent {
    int th, seq, lg, lvl, variant, line;
    size_t size;
    u64 t0, t1;              // event stamps around the call
    u64 w0, w1;              // wall clock around the call
    long long user_time;
    size_t tid;
    int jumps;
    int got[MAXSINK];        // deliveries per sink
    u64 at[MAXSINK];         // stamp of the delivery
};
struct Ev { char kind; int sink, worker, id; u64 at; };
struct SinkCfg { int level; };
struct LgCfg { std::string name; int level, flush_level; std::vector<int> sinks; };

struct bare_pool : ll::base::thread_pool {
    explicit bare_pool(size_t n) : thread_pool(4, ll::base::lock, n, [] {}, [] {}) {}
    void enqueue_async_msg_(ll::base::async_msg&&) override {}
    void dequeue_async_msg_(ll::base::async_msg&) override {}
};
struct World {
    std::vector<Sent> sent;
    std::vector<Ev> ev;
    std::vector<SinkCfg> sinks;
    std::vector<LgCfg> lgs;
    std::vector<std::string> thrown;     // texts that must each be reported once
    int in_sink[MAXSINK];
    int jumps;
    int slow_every, slow_ms, uses;
    bool long_err;
    size_t escaped;                      // calls an exception came out of (only without memory)
    std::vector<int> started, stopped;   // threads
    u64 pool_gone;                       // stamp
    int chk;
};
World* W;

const char* const FILES[] = {"alpha.cpp", "some/dir/beta_module.cpp", "g.h"};
const char* const FUNCS[] = {"run", "a_rather_long_function_name", "f"};

std::string payload(size_t id, size_t n) {
    std::string s(n, ' ');
    SIM_QUIET;
    if (id % 5 == 4)
        for (size_t i = 0; i < n; i++) s[i] = (char)((id * 31 + i * 7) % 256);       // any byte: NUL, line ends, braces, no text at all
    else
        for (size_t i = 0; i < n; i++) s[i] = (char)('!' + (id * 31 + i * 7) % 90);
    return s;
}
std::string expected(size_t id) {
    const Sent& s = W->sent[id];
    return std::to_string(id) + "|" + payload(id, s.size) + "|";
}

std::string err_text(size_t n) {
    if (!W->long_err || n % 3 == 0) return std::string();
    std::string s = " 100%s of %d {} 50%% %n; ";
    if (n % 3 == 2) { size_t want = 100 + n * 131 % 5000; while (s.size() < want) s += strf("part %zu %%s, ", s.size()); }
    return s + "end.";
}

class rec_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    rec_sink(int idx) : idx_(idx) {}
    ~rec_sink() override { SIM_QUIET; W->in_sink[idx_] = -1000; }
protected:
    void enter_() {
        int slow = 0;
        {
            SIM_QUIET;
            if (W->chk & CK_OOM) sim::oom_scope(false);           // the sink itself has memory, the worker around it may not
            if (W->slow_every && ++W->uses % W->slow_every == 0) slow = W->slow_ms;
        }
        enter2_();
        if (slow) sim::sleep_ns((u64)slow * 1000000);
    }
    void enter2_() {
        SIM_QUIET;
        if (++W->in_sink[idx_] != 1) sim::violate("sink-overlap", "sink %d entered by t%d while in use or destroyed", idx_, sim::self());
    }
    void leave_() { SIM_QUIET; --W->in_sink[idx_]; if (W->chk & CK_OOM) sim::oom_scope(true); }
    void output_(const ll::base::log_msg& m) override {
        enter_();
        sim::yield_point();
        std::string text(m.msg.data(), m.msg.size()), name(m.logger_name.data(), m.logger_name.size());
        bool fail = false;
        std::string err;
        {
            SIM_QUIET;
            char* e = nullptr;
            long id = strtol(text.c_str(), &e, 10);
            if (e == text.c_str() || *e != '|' || id < 0 || (size_t)id >= W->sent.size())
                sim::violate("corrupted", "sink %d got a message nobody sent: '%.80s' (%zu bytes, logger '%.40s')", idx_, text.c_str(), text.size(), name.c_str());
            Sent& s = W->sent[id];
            const LgCfg& l = W->lgs[s.lg];
            std::string want = expected(id);
            if (text != want)
                sim::violate("corrupted", "message %ld of t%d: sink %d got %zu bytes '%.60s', sent were %zu bytes '%.60s'", id, s.th, idx_, text.size(), text.c_str(), want.size(), want.c_str());
            if (W->chk & CK_FIDELITY) {
                CHECK(name == l.name, "fidelity", "message %ld: logger name '%.60s' instead of '%.60s'", id, name.c_str(), l.name.c_str());
                CHECK((int)m.level == s.lvl, "fidelity", "message %ld: level %d instead of %d", id, (int)m.level, s.lvl);
                CHECK(m.tid == s.tid, "fidelity", "message %ld: thread id %zu instead of %zu", id, m.tid, s.tid);
                if (s.variant >= 2 && s.variant != 5) {
                    CHECK(m.loc.line == s.line && m.loc.filename && !strcmp(m.loc.filename, FILES[s.line % 3]) && m.loc.funcname && !strcmp(m.loc.funcname, FUNCS[s.line % 3]), "fidelity",
                          "message %ld: source location %s:%d instead of %s:%d", id, m.loc.filename ? m.loc.filename : "(null)", m.loc.line, FILES[s.line % 3], s.line);
                } else
                    CHECK(m.loc.empty(), "fidelity", "message %ld: has a source location although none was given", id);
                long long t = std::chrono::duration_cast<std::chrono::nanoseconds>(m.time.time_since_epoch()).count();
                if (s.variant == 4) CHECK(t == s.user_time, "fidelity", "message %ld: time %lld instead of the given %lld", id, t, s.user_time);
                else if (s.t1 ? s.jumps == 0 : W->jumps == 0)
                    CHECK((u64)t >= s.w0 && (!s.t1 || (u64)t <= s.w1), "fidelity", "message %ld: time %lld is not between the start %llu and the end %llu of the call", id, t, (unsigned long long)s.w0, (unsigned long long)s.w1);
            }
            s.got[idx_]++;
            s.at[idx_] = sim::stamp();
            Ev v = {'o', idx_, sim::self(), (int)id, s.at[idx_]};
            W->ev.push_back(v);
            if (sim::fault(sim::F_SINK_THROW)) {
                fail = true;
                err = strf("outfail-%ld-%d.", id, idx_) + err_text(W->thrown.size());
                W->thrown.push_back(err);
            }
        }
        sim::yield_point();
        if (fail) { std::runtime_error x(err); leave_(); throw x; }
        leave_();
    }
    void flush_() override {
        enter_();
        sim::yield_point();
        bool fail = false;
        std::string err;
        {
            SIM_QUIET;
            Ev v = {'f', idx_, sim::self(), -1, sim::stamp()};
            W->ev.push_back(v);
            if (sim::fault(sim::F_SINK_THROW)) {
                fail = true;
                err = strf("flushfail-%zu-%d.", W->ev.size(), idx_) + err_text(W->thrown.size());
                W->thrown.push_back(err);
            }
        }
        if (fail) { std::runtime_error x(err); leave_(); throw x; }
        leave_();
    }
    int idx_;
};

void do_log(const std::shared_ptr<ll::logger>& lg, int li, int th, int seq, const Op& o) {
    size_t id;
    ll::level::level_enum lvl = (ll::level::level_enum)o.a[1];
    int variant = (int)o.a[3];
    if (lvl == ll::level::off && variant == 5) variant = 0;
    size_t size = (size_t)o.a[2];
    int line = 1 + (int)o.a[4];
    {
        SIM_QUIET;
        Sent s;
        memset((void*)&s, 0, sizeof s);
        s.th = th; s.seq = seq; s.lg = li; s.lvl = lvl; s.variant = variant; s.size = size; s.line = line;
        s.tid = ll::base::os::thread_id();
        s.jumps = W->jumps;
        s.user_time = 1700000000000000000ll + (long long)W->sent.size() * 1234567891ll;
        s.t0 = sim::stamp();
        s.w0 = sim::wall_ns();
        id = W->sent.size();
        W->sent.push_back(s);
    }
    {
        std::string p = payload(id, size), full;
        if (variant == 1 || variant == 3 || variant == 4) full = std::to_string(id) + "|" + p + "|";
        ll::source_loc loc(FILES[line % 3], line, FUNCS[line % 3]);
        if (W->chk & CK_OOM) sim::oom_scope(true);
        try { switch (variant) {
        case 0: lg->log(lvl, "{}|{}|", id, p); break;
        case 1: { lg->log(lvl, ll::fmt_string_view(full)); break; }
        case 2: lg->log(loc, lvl, "{}|{}|", id, p); break;
        case 3: { lg->log(loc, lvl, ll::fmt_string_view(full)); break; }
        case 4: {
            lg->log(ll::sys_clock::time_point(std::chrono::nanoseconds(1700000000000000000ll + (long long)id * 1234567891ll)), loc, lvl, ll::fmt_string_view(full));
            break;
        }
        default:
            switch (lvl) {
            case ll::level::trace: lg->trace("{}|{}|", id, p); break;
            case ll::level::debug: lg->debug("{}|{}|", id, p); break;
            case ll::level::info: lg->info("{}|{}|", id, p); break;
            case ll::level::warn: lg->warn("{}|{}|", id, p); break;
            case ll::level::error: lg->error("{}|{}|", id, p); break;
            default: lg->critical("{}|{}|", id, p);
            }
        } } catch (const std::bad_alloc&) { SIM_QUIET; W->escaped++; CHECK(false, "log-throws", "log() threw"); }
        sim::oom_scope(false);
    }
    SIM_QUIET;
    Sent& s = W->sent[id];
    s.t1 = sim::stamp();
    s.w1 = sim::wall_ns();
    s.jumps = W->jumps - s.jumps;
}

bool gated_in(const Sent& s, int sink) {
    const LgCfg& l = W->lgs[s.lg];
    if (s.lvl < l.level || s.lvl < W->sinks[sink].level) return false;
    for (int k : l.sinks) if (k == sink) return true;
    return false;
}

size_t count(const std::string& s, const std::string& what) {
    size_t n = 0;
    for (size_t p = 0; (p = s.find(what, p)) != std::string::npos; p += what.size()) n++;
    return n;
}

// what a returned flush() of thread th on logger li guarantees
void check_barrier(int th, int li, u64 t0, bool all_threads) {
    SIM_QUIET;
    for (size_t id = 0; id < W->sent.size(); id++) {
        const Sent& s = W->sent[id];
        bool mine = s.th == th;
        if (!mine && !(all_threads && s.t1 && s.t1 < t0)) continue;
        for (size_t k = 0; k < W->sinks.size(); k++) {
            if (!gated_in(s, (int)k)) continue;
            CHECK(s.got[k], "flush-barrier", "flush of thread %d returned before message %zu of thread %d reached sink %zu", th, id, s.th, k);
            bool of_logger = false;
            for (int x : W->lgs[li].sinks) of_logger |= x == (int)k;
            if (!of_logger) continue;
            bool flushed = false;
            for (auto& e : W->ev) if (e.kind == 'f' && e.sink == (int)k && e.at > s.at[k]) flushed = true;
            CHECK(flushed, "flush-barrier", "flush of thread %d returned, but sink %zu was not flushed after message %zu", th, k, id);
        }
    }
}

void run(const Plan& p, int) {
    coarse_clock(p);
    { SIM_QUIET; W = new World(); memset(W->in_sink, 0, sizeof W->in_sink); W->jumps = 0; W->pool_gone = 0; W->chk = (int)p.get("chk"); W->slow_every = (int)p.get("slow"); W->slow_ms = (int)p.get("slowms"); W->uses = 0; W->long_err = p.get("longerr") != 0; W->escaped = 0; }
    const bool sync = p.get("sync") != 0;
    const int kind = (int)p.get("kind"), nw = (int)p.get("w"), td = (int)p.get("td"), nl = (int)p.get("nl", 1), ns = (int)p.get("ns", 1);
    const bool fifo = kind == PK_CONC || nw == 1 || p.get("sync");
    const int base_threads = sim::live_threads();
    {
        std::vector<std::shared_ptr<ll::sinks::sink>> sinks;
        for (int i = 0; i < ns; i++) {
            sinks.push_back(std::make_shared<rec_sink>(i));
            int lv = (int)p.get(strf("sl%d", i).c_str(), 0);
            sinks.back()->set_level((ll::level::level_enum)lv);
            SIM_QUIET;
            SinkCfg c = {lv};
            W->sinks.push_back(c);
        }
        if (p.get("tfail")) {
            // workers that cannot be started: the exception reaches the caller and no thread is left
            for (int i = 0; i < 3; i++) {
                int before = sim::live_threads();
                u64 failed = sim::fault_count(sim::F_THREAD_ERR);
                bool thrown = false;
                sim::faults_enable(1u << sim::F_THREAD_ERR);
                try { auto x = make_pool(i == 0 ? kind : (int)p.get("tkind"), (size_t)p.get("q"), (size_t)p.get("tw")); } catch (const std::exception&) { thrown = true; }
                sim::faults_enable(0);
                failed = sim::fault_count(sim::F_THREAD_ERR) - failed;
                CHECK(thrown == (failed != 0), "thread-error", failed ? "a pool whose workers could not all be started was created" : "a pool could not be created although nothing failed");
                CHECK(sim::live_threads() == before, "workers-left", "%d threads are left of a pool that could not be started", sim::live_threads() - before);
            }
        }
        if (p.get("bad")) {
            // thread counts outside 1..1024 are refused, without a thread left behind
            static const size_t bad[] = {0, 1025, 5000, (size_t)-1};
            size_t n = bad[p.get("bad") % 4];
            bool thrown = false;
            int before = sim::live_threads();
            try { auto x = make_pool(kind, 4, n); } catch (const std::exception&) { thrown = true; }
            CHECK(thrown, "bad-pool", "a pool of %zu threads was created", n);
            CHECK(sim::live_threads() == before, "bad-pool", "a refused pool left %d threads", sim::live_threads() - before);
            // ... and all within are accepted (a pool without threads of its own: the base class judges the count)
            static const size_t good[] = {1, 2, 1023, 1024};
            size_t g = good[p.get("q") % 4];
            bool refused = false;
            try { bare_pool x(g); CHECK(x.threads_size() == g, "pool-config", "a pool of %zu threads says %zu", g, x.threads_size()); } catch (const std::exception&) { refused = true; }
            CHECK(!refused, "bad-pool", "a pool of %zu threads was refused", g);
        }
        bool callbacks = p.get("cb") != 0;
        std::function<void()> on_start = [] { sim::yield_point(); SIM_QUIET; W->started.push_back(sim::self()); };
        std::function<void()> on_stop = [] { sim::yield_point(); SIM_QUIET; W->stopped.push_back(sim::self()); };
        auto pool = callbacks ? make_pool(kind, (size_t)p.get("q"), (size_t)nw, on_start, on_stop) : make_pool(kind, (size_t)p.get("q"), (size_t)nw);
        if (W->chk & CK_LIFE) {
            CHECK(pool->threads_size() == (size_t)nw && pool->message_queue_size() == (size_t)p.get("q"), "pool-config", "pool reports %zu threads and queue size %zu", pool->threads_size(), pool->message_queue_size());
        }
        std::vector<std::shared_ptr<ll::logger>> lgs;
        bool reg = td == TD_CLOSE || td == TD_EXIT || td == TD_REPLACE;
        if (reg) ll::register_thread_pool(pool);
        for (int i = 0; i < nl; i++) {
            std::string nm = i == 0 ? "L" : i == 1 ? "a_logger_with_a_name_that_is_not_short" : "mid";
            std::vector<ll::sink_shr_ptr> mine;
            LgCfg c;
            {
                SIM_QUIET;
                c.name = nm;
                c.level = (int)p.get(strf("ll%d", i).c_str(), 0);
                c.flush_level = (int)p.get(strf("fl%d", i).c_str(), 6);
                long mask = p.get(strf("sm%d", i).c_str(), 255);
                for (int k = 0; k < ns; k++) if (mask >> k & 1) c.sinks.push_back(k);
                if (c.sinks.empty()) c.sinks.push_back(0);
                W->lgs.push_back(c);
            }
            for (int k : c.sinks) mine.push_back(sinks[k]);
            std::shared_ptr<ll::logger> lg;
            if (sync) lg = std::make_shared<ll::logger>(nm, mine.begin(), mine.end());
            else lg = std::make_shared<ll::async_logger>(nm, mine.begin(), mine.end(), pool);
            lg->set_log_level((ll::level::level_enum)c.level);
            lg->set_flush_level((ll::level::level_enum)c.flush_level);
            if (reg) ll::register_logger(lg);
            lgs.push_back(lg);
            { SIM_QUIET; c = LgCfg(); }
        }
        if (p.get("dropsinks")) sinks.clear();
        std::weak_ptr<ll::base::thread_pool> weak = pool;
        const bool concurrent = td == TD_CONCURRENT || td == TD_REPLACE;
        const int nth = p.nthreads();
        if (reg || td == TD_CONCURRENT) { if (td != TD_CONCURRENT) pool.reset(); }
        // threads
        std::vector<std::thread> ts;
        for (int t = 0; t < nth; t++) {
            std::vector<std::shared_ptr<ll::logger>> mine = lgs;
            ts.emplace_back([&, t, mine] {
                int seq = 0;
                bool warm = false;
                for (auto& o : ops_of(p, t)) {
                    if (o.name == "log") do_log(mine[o.a[0] % nl], (int)(o.a[0] % nl), t, seq++, o);
                    else if (o.name == "flush") {
                        u64 t0 = sim::stamp();
                        // (the standard library cannot give up a promise without memory: the first use of the concurrent pool by a thread,
                        // which can fail after the promise was made, has memory if it is a flush)
                        if (W->chk & CK_OOM) sim::oom_scope(kind != PK_CONC || warm);
                        warm = true;
                        try { mine[o.a[0] % nl]->flush(); } catch (const std::bad_alloc&) { SIM_QUIET; W->escaped++; CHECK(false, "flush-throws", "flush() threw"); }
                        sim::oom_scope(false);
                        if ((W->chk & CK_FLUSH) && fifo && !concurrent) check_barrier(t, (int)(o.a[0] % nl), t0, kind == PK_LOCK || sync);
                    } else if (o.name == "flush_all") ll::flush_all();
                    else if (o.name == "jump") { SIM_QUIET; W->jumps++; sim::jump_wall(o.a[0] * 1000000ll); }
                    else if (o.name == "sleep") sim::sleep_ns((u64)o.a[0] * 1000);
                    else if (o.name == "kill") {
                        if (td == TD_CONCURRENT) pool.reset();
                        else if (td == TD_REPLACE) ll::register_thread_pool(make_pool((int)o.a[0] % 3, (size_t)p.get("q"), 1));
                    }
                }
            });
        }
        if (p.get("early")) { lgs.clear(); sinks.clear(); }
        for (auto& t : ts) t.join();
        size_t before = 0;
        { SIM_QUIET; before = W->ev.size(); }
        bool keep = td == TD_POOL_FIRST;
        std::shared_ptr<ll::logger> survivor;
        if (keep && !sync && !lgs.empty()) survivor = lgs[0];
        lgs.clear();
        sinks.clear();
        if (W->chk & CK_OOM) sim::oom_scope(true);
        switch (td) {
        case TD_DROP: case TD_POOL_FIRST: case TD_CONCURRENT: pool.reset(); break;
        case TD_CLOSE: case TD_REPLACE: ll::close(); break;
        case TD_EXIT: sim::run_exit_handlers(); break;
        }
        sim::oom_scope(false);
        if (W->ev.size() > before) sim::probe("delivered during teardown", W->ev.size() - before);
        CHECK(weak.expired(), "pool-leak", "the thread pool is still alive after it was given up");
        int extra = sim::live_threads() - base_threads;
        CHECK(extra == 0, "workers-left", "%d worker threads are still running after the pool was given up", extra);
        size_t ev_after = W->ev.size();
        if (survivor) {
            const char* what = W->chk & CK_OOM ? "[*** EXCEPTION #" : "thread pool does not exist";
            size_t n0 = W->sent.size(), e0 = count(sim::vfs::out(2), what);
            Op o; o.th = 99; o.name = "log"; o.a[0] = 0; o.a[1] = 5; o.a[2] = 3; o.a[3] = 0; o.a[4] = 0;
            do_log(survivor, 0, 99, 0, o);
            survivor->flush();
            { SIM_QUIET; W->sent.resize(n0); }
            size_t e1 = count(sim::vfs::out(2), what);
            if (W->chk & (CK_LIFE | CK_REPORT)) CHECK(e1 == e0 + 2, "no-report", "a log and a flush after the pool was gone gave %zu error reports instead of 2", e1 - e0);
            CHECK(W->ev.size() == ev_after, "late-delivery", "a sink was used after the pool was gone");
        }
    }
    // ---- history checks
    SIM_QUIET;
    std::string err = sim::vfs::out(2);
    size_t refused = count(err, "thread pool does not exist");
    if (W->chk & CK_LIFE) {
        if (p.get("cb")) {
            CHECK(W->started.size() == (size_t)nw && W->stopped.size() == (size_t)nw, "callbacks", "%zu start and %zu stop callbacks for %d workers", W->started.size(), W->stopped.size(), nw);
            std::set<int> a(W->started.begin(), W->started.end()), b(W->stopped.begin(), W->stopped.end());
            CHECK(a == b && a.size() == (size_t)nw, "callbacks", "start and stop callbacks did not run once on each worker");
            // (the thread that gives up a lockfree pool may process what its workers left behind)
            if (kind != PK_LOCKFREE)
                for (auto& e : W->ev) CHECK(a.count(e.worker), "callbacks", "a sink was used by thread t%d, which is no worker", e.worker);
        }
        std::set<int> ws;
        for (auto& e : W->ev) ws.insert(e.worker);
        CHECK(kind == PK_LOCKFREE || ws.size() <= (size_t)nw || td == TD_REPLACE, "workers", "%zu threads processed messages in a pool of %d", ws.size(), nw);
    }
    if (W->chk & (CK_ONCE | CK_LIFE)) {
        size_t missing = 0, need_any = 0;
        for (size_t id = 0; id < W->sent.size(); id++) {
            const Sent& s = W->sent[id];
            bool any = false, all = true, some = false;
            for (size_t k = 0; k < W->sinks.size(); k++) {
                bool want = gated_in(s, (int)k);
                CHECK(s.got[k] <= 1, "duplicate", "message %zu of thread %d reached sink %zu %d times", id, s.th, k, s.got[k]);
                CHECK(want || !s.got[k], "unwanted", "message %zu (level %d) reached sink %zu, which must not get it", id, s.lvl, k);
                if (want) { any = true; if (s.got[k]) some = true; else all = false; }
            }
            if (any) need_any++;
            if (any && !all) {
                CHECK(!some, "partial", "message %zu of thread %d reached some of its sinks but not all", id, s.th);
                missing++;
                CHECK(!sync && (td == TD_CONCURRENT || td == TD_REPLACE), "lost", "message %zu of thread %d (logger %d, level %d, %zu bytes) never reached its sink; %zu messages sent, pool %s, %d workers", id, s.th, s.lg, s.lvl, s.size, W->sent.size(), pool_name(kind), nw);
            }
        }
        // a message that no sink wants may be refused as well, so the reports bound the losses only from above
        CHECK(missing <= refused, "lost", "%zu messages were neither delivered nor reported as refused (%zu refusals)", missing - refused, refused);
        if (missing) sim::probe("refused messages", missing);
    }
    if (W->chk & CK_OOM) {
        // without memory a message may be lost, but not silently, and nothing else happens
        size_t lost = 0;
        for (size_t id = 0; id < W->sent.size(); id++) {
            const Sent& s = W->sent[id];
            bool all = true, some = false;
            for (size_t k = 0; k < W->sinks.size(); k++) {
                bool want = gated_in(s, (int)k);
                CHECK(s.got[k] <= 1, "duplicate", "message %zu of thread %d reached sink %zu %d times", id, s.th, k, s.got[k]);
                CHECK(want || !s.got[k], "unwanted", "message %zu (level %d) reached sink %zu, which must not get it", id, s.lvl, k);
                if (want && !s.got[k]) all = false; else some |= want;
            }
            lost += !all;
            CHECK(all || !some, "partly-lost", "message %zu of thread %d reached only some of the sinks of its logger", id, s.th);
        }
        size_t reports = count(err, "[*** EXCEPTION #");
        CHECK(lost <= reports + W->escaped, "lost-silently", "%zu messages were lost without memory, and %zu errors reported", lost, reports);
        if (lost) sim::probe("messages lost without memory", lost);
    }
    if ((W->chk & CK_ORDER) && fifo) {
        std::map<int, std::vector<int>> last;       // thread -> last seq per sink
        for (auto& e : W->ev) {
            if (e.kind != 'o') continue;
            const Sent& s = W->sent[e.id];
            auto& l = last[s.th];
            l.resize(MAXSINK, -1);
            CHECK(s.seq > l[e.sink], "order", "sink %d: message %d (number %d of thread %d) came after number %d of the same thread; pool %s, %d workers", e.sink, e.id, s.seq, s.th, l[e.sink], pool_name(kind), nw);
            l[e.sink] = s.seq;
        }
    }
    if (W->chk & CK_FLUSH) {
        // a delivered message at or above the flush level is followed, on its worker, by a flush of each sink of its logger before anything else
        for (size_t i = 0; i < W->ev.size(); i++) {
            const Ev& e = W->ev[i];
            if (e.kind != 'o') continue;
            const Sent& s = W->sent[e.id];
            const LgCfg& l = W->lgs[s.lg];
            if (s.lvl < l.flush_level || s.lvl == 6) continue;
            for (int k : l.sinks) {
                bool ok = false;
                for (size_t j = i + 1; j < W->ev.size() && !ok; j++) {
                    if (W->ev[j].worker != e.worker) continue;
                    if (W->ev[j].kind == 'f' && W->ev[j].sink == k) ok = true;
                    else if (W->ev[j].kind == 'o' && W->ev[j].id != e.id) break;
                }
                CHECK(ok, "flush-level", "message %d has level %d, the flush level is %d, but sink %d was not flushed after it", e.id, s.lvl, l.flush_level, k);
            }
        }
    }
    if ((W->chk & CK_FLUSH)) {
        // without explicit flushes, sinks are flushed only because of messages that are not of level off
        bool explicit_flush = false;
        for (auto& o : p.ops) explicit_flush |= o.name == "flush" || o.name == "flush_all";
        if (!explicit_flush) {
            std::vector<size_t> may(W->sinks.size()), did(W->sinks.size());
            for (auto& s : W->sent) {
                const LgCfg& l = W->lgs[s.lg];
                if (s.lvl >= l.level && s.lvl >= l.flush_level && s.lvl != 6) for (int k : l.sinks) may[k]++;
            }
            for (auto& e : W->ev) if (e.kind == 'f') did[e.sink]++;
            if (td != TD_POOL_FIRST)
                for (size_t k = 0; k < may.size(); k++) CHECK(did[k] <= may[k], "unwanted-flush", "sink %zu was flushed %zu times although only %zu messages at or above the flush level (and not of level off) were sent and nobody called flush", k, did[k], may[k]);
        }
    }
    if (W->chk & CK_REPORT) {
        for (auto& t : W->thrown)
            CHECK(count(err, t + "\n") == 1, "no-report", "the exception '%s' was reported %zu times", t.c_str(), count(err, t + "\n"));
        // reports are numbered 1, 2, 3 ... each once
        std::vector<long> nums;
        for (size_t q = 0; (q = err.find("[*** EXCEPTION #", q)) != std::string::npos; q++) nums.push_back(strtol(err.c_str() + q + 16, nullptr, 10));
        std::sort(nums.begin(), nums.end());
        for (size_t i = 0; i < nums.size(); i++) CHECK(nums[i] == (long)i + 1, "report-number", "error report %zu carries number %ld", i + 1, nums[i]);
        // every line of the error stream is one report
        size_t lines = 0, pos = 0;
        while (pos < err.size()) {
            size_t e = err.find('\n', pos);
            CHECK(e != std::string::npos, "report-torn", "the error stream ends inside a line");
            CHECK(err.compare(pos, 16, "[*** EXCEPTION #") == 0, "report-torn", "a line of the error stream is no report: '%.60s'", err.c_str() + pos);
            lines++;
            pos = e + 1;
        }
        if (!W->thrown.empty()) sim::probe("exceptions reported", W->thrown.size());
    }
}

// ---------------------------------------------------------------------------------------- generators
void base_gen(Rng& r, Plan& p, int chk) {
    p.set("chk", chk);
    p.set("kind", (long)r.below(3));
    static const long qs[] = {1, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64};
    p.set("q", qs[r.below(12)]);
    p.set("w", r.chance(1, 2) ? 1 : r.range(2, 4));
    int nl = r.chance(2, 3) ? 1 : (int)r.range(2, 3), ns = r.chance(2, 3) ? 1 : (int)r.range(2, 3);
    p.set("nl", nl); p.set("ns", ns);
    for (int i = 0; i < nl; i++) if (r.chance(1, 3)) p.set(strf("sm%d", i).c_str(), r.range(1, 7));
    p.set("td", (long)r.below(TD_NUM));
    if (r.chance(1, 3)) p.set("cb", 1);
    if (r.chance(1, 4)) p.set("early", 1);
    if (r.chance(1, 4)) p.set("dropsinks", 1);
    coarse_clock_gen(r, p);
}
void add_ops(Rng& r, Plan& p, int flushes_pct, bool levels) {
    int nt = r.chance(1, 4) ? 1 : (int)r.range(2, 4);
    int per = (int)r.range(1, r.chance(1, 4) ? 40 : 12);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(0, per);
        for (int i = 0; i < n; i++) {
            if ((int)r.below(100) < flushes_pct) { p.add(t, "flush", (long)r.below(3)); continue; }
            if (r.chance(1, 40)) { p.add(t, "sleep", (long)r.below(2000)); continue; }
            static const long sz[] = {0, 1, 5, 20, 100, 240, 247, 248, 249, 250, 251, 260, 500, 1200};
            p.add(t, "log", (long)r.below(3), levels ? (r.chance(1, 12) ? 6 : (long)r.below(6)) : 2, sz[r.below(r.chance(1, 3) ? 14 : 4)], (long)r.below(6), (long)r.below(9));
        }
    }
    if (r.chance(1, 6)) for (auto& o : p.ops) if (o.name == "log" && r.chance(1, 10)) { static const long big[] = {1023, 1024, 1025, 4095, 4096, 4097, 8193, 65535, 65536, 70000}; o.a[2] = big[r.below(10)]; }
    if (!p.nthreads()) p.add(0, "log", 0, 5, 5);
    long td = p.get("td");
    if (td == TD_CONCURRENT || td == TD_REPLACE) p.add(p.nthreads(), "kill", (long)r.below(3));
}
// sometimes the loggers are synchronous, sometimes sinks take their time
void add_modes(Rng& r, Plan& p) {
    if (r.chance(1, 4)) p.set("sync", 1);
    if ((p.get("kind") == PK_LOCK || p.get("sync")) && r.chance(1, 4)) {
        p.set("slow", r.range(1, 6));
        static const long ms[] = {1, 20, 700, 4000, 11000, 70000};
        p.set("slowms", ms[r.below(6)]);
    }
}
void gen_once(Rng& r, Plan& p) {
    base_gen(r, p, CK_ONCE);
    if (r.chance(1, 3)) { for (int i = 0; i < 3; i++) { p.set(strf("ll%d", i).c_str(), (long)r.below(4)); p.set(strf("sl%d", i).c_str(), (long)r.below(4)); } }
    if (r.chance(1, 3)) { p.set("f.sink_throw", 800); p.set("fmax.sink_throw", 5); }
    if (r.chance(1, 4)) p.set("fl0", r.range(2, 5));
    add_ops(r, p, r.chance(1, 2) ? 10 : 0, true);
}
void gen_order(Rng& r, Plan& p) {
    base_gen(r, p, CK_ORDER | CK_ONCE);
    if (p.get("kind") != PK_CONC) p.set("w", 1);
    if (r.chance(1, 4)) { p.set("f.sink_throw", 800); p.set("fmax.sink_throw", 5); }
    if (r.chance(1, 4)) { for (int i = 0; i < 3; i++) { p.set(strf("ll%d", i).c_str(), (long)r.below(4)); p.set(strf("sl%d", i).c_str(), (long)r.below(4)); } }
    if (r.chance(1, 3)) for (int i = 0; i < 3; i++) p.set(strf("fl%d", i).c_str(), r.range(1, 6));
    add_modes(r, p);
    add_ops(r, p, r.chance(1, 2) ? 10 : 0, r.chance(3, 4));
}
void gen_flush(Rng& r, Plan& p) {
    base_gen(r, p, CK_FLUSH);
    if (p.get("kind") != PK_CONC) p.set("w", 1);
    long td = p.get("td");
    if (td == TD_CONCURRENT || td == TD_REPLACE) p.set("td", TD_DROP);
    if (r.chance(1, 2)) for (int i = 0; i < 3; i++) p.set(strf("fl%d", i).c_str(), r.range(0, 6));
    if (r.chance(1, 3)) { for (int i = 0; i < 3; i++) { p.set(strf("ll%d", i).c_str(), (long)r.below(7)); p.set(strf("sl%d", i).c_str(), (long)r.below(7)); } }
    if (r.chance(1, 4)) { p.set("f.sink_throw", 800); p.set("fmax.sink_throw", 5); }
    add_modes(r, p);
    add_ops(r, p, r.chance(1, 3) ? 0 : 25, true);
}
void gen_life(Rng& r, Plan& p) {
    base_gen(r, p, CK_LIFE);
    p.set("cb", r.chance(4, 5));
    if (r.chance(1, 8)) p.set("bad", r.range(1, 4));
    if (r.chance(1, 6)) {
        p.set("tfail", 1);
        p.set("tkind", r.below(3));
        p.set("tw", r.range(1, 4));
        p.set("f.thread_err", 4000);
        p.set("fmax.thread_err", r.range(1, 3));
    }
    if (p.get("td") == TD_REPLACE && r.chance(1, 2)) p.set("td", TD_EXIT);
    add_ops(r, p, 8, true);
    if (r.chance(1, 6)) { p.ops.clear(); p.add(0, "sleep", 1); if (p.get("td") == TD_CONCURRENT || p.get("td") == TD_REPLACE) p.set("td", TD_DROP); }
}
void gen_fidelity(Rng& r, Plan& p) {
    base_gen(r, p, CK_FIDELITY | CK_ONCE);
    add_ops(r, p, 5, true);
    if (r.chance(1, 3)) for (auto& o : p.ops) if (o.name == "sleep" || r.chance(1, 12)) { o.name = "jump"; o.a[0] = r.range(-5000, 5000); }
    if (p.get("td") == TD_CONCURRENT || p.get("td") == TD_REPLACE) { bool has = false; for (auto& o : p.ops) has |= o.name == "kill"; if (!has) p.add(p.nthreads(), "kill"); }
}
void gen_report(Rng& r, Plan& p) {
    base_gen(r, p, CK_REPORT | CK_ONCE);
    p.set("f.sink_throw", 3000);
    p.set("fmax.sink_throw", 40);
    bool many = r.chance(1, 25);
    if (many) { p.set("f.sink_throw", 9500); p.set("fmax.sink_throw", 1000); }
    if (r.chance(1, 3)) p.set("longerr", 1);
    if (r.chance(1, 4)) p.set("sync", 1);
    if (r.chance(1, 3)) p.set("fl0", r.range(2, 5));
    add_ops(r, p, 15, true);
    if (many) for (int t = 0; t < 3; t++) for (int i = 0; i < 100; i++) p.add(t, "log", (long)r.below(3), 2, 3, 1);
}
void gen_oom(Rng& r, Plan& p) {
    base_gen(r, p, CK_OOM | CK_REPORT);
    static const long rate[] = {100, 500, 2000, 6000};
    p.set("f.oom", rate[r.below(4)]);
    p.set("fmax.oom", r.range(1, 12));
    if (r.chance(1, 3)) { p.set("f.sink_throw", 1500); p.set("fmax.sink_throw", 6); if (r.chance(1, 2)) p.set("longerr", 1); }
    if (r.chance(1, 4)) p.set("fl0", r.range(2, 5));
    add_ops(r, p, r.chance(1, 2) ? 15 : 0, true);
}
sim::Scenario s7("async_oom", gen_oom, run);
sim::Scenario s1("async_once", gen_once, run), s2("async_order", gen_order, run), s3("async_flush", gen_flush, run), s4("async_life", gen_life, run),
    s5("async_fidelity", gen_fidelity, run), s6("async_report", gen_report, run);
}

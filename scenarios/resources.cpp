// What the library takes it gives back, and what it holds while running is bounded. Real registry, factories, loggers, pools,
// queues, sinks, formatters, backtracers and periodic functions; heap, files and console simulated.
#include "common.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include "sinks/formatters/pattern_formatter.h"
#include "base/periodic_function.h"
#include <sstream>
#include <stdexcept>
namespace {
namespace lv = ll::level;
inline lv::level_enum L_(long l) { return (lv::level_enum)(l < 0 ? 0 : l % 7); }

// ------------------------------------------------------------------------------------------------ everything is given back
class own_flag : public ll::sinks::custom_flag_formatter {
public:
    explicit own_flag(std::string t) : t_(std::move(t)) {}
    void format(const ll::base::log_msg&, const std::tm&, ll::fmt_memory_buf& b) override { b.append(t_.data(), t_.data() + t_.size()); }
    std::unique_ptr<ll::sinks::custom_flag_formatter> clone() const override { return ll::make_unique<own_flag>(t_); }
    std::string t_;
};
class r_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    explicit r_sink(bool fail = false) : text_(40, 'x') { if (fail) throw std::runtime_error("this sink cannot be made"); }
protected:
    void output_(const ll::base::log_msg& m) override {
        ll::fmt_memory_buf b;
        this->formatter_->format(m, b);
        text_.assign(b.data(), b.size());
        if (sim::fault(sim::F_SINK_THROW)) throw std::runtime_error(text_);
        sim::yield_point();
    }
    void flush_() override { if (sim::fault(sim::F_SINK_THROW)) throw std::runtime_error("flush: " + text_); }
    std::string text_;
};
enum { C_LOG, C_FLUSH, C_BT, C_PATTERN, C_FMT, C_CLONE, C_GET, C_REMOVE, C_CREATE, C_POOL, C_LOGGER, C_FILE, C_ROLL, C_REPORT, C_PERIODIC, C_WAIT, C_SWAP, C_DEFAULT, C_NOPS };
const char* const CN[] = {"log", "flush", "backtrace", "pattern", "formatter", "clone", "get", "remove", "create", "pool", "logger", "file", "rolling", "report", "periodic", "wait", "swap", "default"};

ll::sink_shr_ptr make_sink(int k, std::ostream& os, int round_file) {
    switch (k % 7) {
    case 0: case 1: return std::make_shared<r_sink>();
    case 2: return std::make_shared<ll::sinks::basic_file_sink_mt>(strf("logs/sub%d/basic.log", round_file));
    case 3: return std::make_shared<ll::sinks::rolling_file_sink_mt>(strf("logs/roll%d.log", round_file), 200, 3);
    case 4: return std::make_shared<ll::sinks::ostream_sink_mt>(os);
    case 5: return std::make_shared<ll::sinks::stdout_sink_mt>();
    default: return std::make_shared<ll::sinks::stdout_color_sink_mt>();
    }
}
template <class F> void run_clients(int n, F body) {         // the scenario's own threads do start
    const u32 m = sim::faults_mask();
    std::vector<std::thread> t;
    sim::faults_enable(m & ~(1u << sim::F_THREAD_ERR));
    std::atomic<bool> go(false);
    for (int i = 0; i < n; i++) t.emplace_back([i, &body, &go] { sim::wait_until([&] { SIM_QUIET; return go.load(); }); (void)go.load(); body(i); });
    sim::faults_enable(m);
    go = true;
    for (auto& x : t) x.join();
}
void conserve_round(const Plan& p) {
    const int kind = (int)p.get("kind"), nl = (int)p.get("nl", 2);
    const size_t q = (size_t)p.get("q", 2), w = (size_t)p.get("w", 1);
    const bool oom = p.has("f.oom");
    std::ostringstream os[3];
    {
        ll::thread_pool_shr_ptr pool;
        try {
            if (p.get("regpool")) {
                if (kind == PK_LOCK) ll::initialize_thread_pool<ll::base::lock_thread_pool>(q, w);
                else if (kind == PK_LOCKFREE) ll::initialize_thread_pool<ll::base::lockfree_thread_pool>(q, w);
                else ll::initialize_thread_pool<ll::base::lockfree_concurrent_thread_pool>(q, w);
                pool = ll::get_thread_pool();
            } else pool = make_pool(kind, q, w);
        } catch (const std::exception&) {}
        std::vector<ll::logger_shr_ptr> lg;
        for (int i = 0; i < nl; i++) {
            try {
                std::vector<ll::sink_shr_ptr> sinks;
                for (long k = 0; k <= p.get(strf("ns%d", i).c_str()); k++) sinks.push_back(make_sink((int)(p.get(strf("s%d", i).c_str()) + k), os[i], i));
                ll::logger_shr_ptr l;
                if (p.get(strf("as%d", i).c_str())) l = std::make_shared<ll::async_logger>(strf("logger number %d of the scenario", i), sinks.begin(), sinks.end(), pool);
                else l = std::make_shared<ll::logger>(strf("lg%d", i), sinks.begin(), sinks.end());
                l->set_log_level(lv::trace);
                if (i == 0) ll::initialize_logger(l);
                lg.push_back(l);
            } catch (const std::exception&) {}
        }
        try { if (p.get("every")) ll::flush_every(std::chrono::microseconds(p.get("every"))); } catch (const std::exception&) {}
        if (!lg.empty()) run_clients(p.nthreads(), [&](int t) {
            for (auto& o : ops_of(p, t)) {
                ll::logger_shr_ptr l = lg[(size_t)o.a[0] % lg.size()];
                const long a = o.a[1];
                int op = -1;
                for (int i = 0; i < C_NOPS; i++) if (o.name == CN[i]) op = i;
                // memory runs out in calls that build things, or in any (not in an asynchronous flush: libstdc++ ends the
                // process when it has no memory to break a promise)
                const bool build = op == C_POOL || op == C_LOGGER || op == C_FILE || op == C_ROLL || op == C_CREATE || op == C_CLONE || op == C_FMT || (p.get("oomall") && op != C_FLUSH);
                std::string text((size_t)(a % 3 == 0 ? 3 : a % 3 == 1 ? 60 : 700), 'm');
                if (oom && build) sim::oom_scope(true);
                try {
                    switch (op) {
                    case C_LOG: if (a % 2) l->log(L_(o.a[2]), "{} {}", text, 1.5); else l->log(ll::source_loc{"file.cpp", 7, "func"}, L_(o.a[2]), text); break;
                    case C_FLUSH: if (a % 4 == 0) ll::flush_all(); else l->flush(); break;
                    case C_BT: if (a % 3 == 0) l->disable_backtrace(); else if (a % 3 == 1) l->enable_backtrace_n((size_t)(1 + a % 5)); else l->dump_backtrace(); break;
                    case C_PATTERN: l->set_pattern(a % 2 ? "[%Y-%m-%d %H:%M:%S.%e] [%n] [%-8l] [%@] %v and some more text" : "%v"); break;
                    case C_FMT: {
                        ll::sinks::pattern_formatter::cust_flag_table tab;
                        tab['Q'] = ll::make_unique<own_flag>("a text that does not fit a small string buffer");
                        l->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>("%Q %v %Q and a longer pattern", "\n", std::move(tab)));
                        break;
                    }
                    case C_CLONE: { auto c = l->clone("a clone of the logger with a long name"); sim::oom_scope(false); c->log(lv::critical, text); break; }
                    case C_GET: ll::get_logger(a % 2 ? "lg0" : "made0"); break;
                    case C_REMOVE: ll::remove_logger(a % 2 ? "lg0" : "made0"); break;
                    case C_CREATE: {
                        std::string nm = a % 3 ? strf("made%ld", a % 4) : strf("a made logger with a long name %d %ld", t, a);
                        ll::logger_shr_ptr c;
                        if (a % 5 == 0) c = ll::create<r_sink>(nm, o.a[2] % 3 == 0);
                        else if (a % 5 == 1) c = ll::create<ll::sinks::basic_file_sink_mt>(nm, "logs/made.log");
                        else if (a % 5 == 2) c = ll::create<ll::sinks::rolling_file_sink_mt>(nm, "logs/madeR.log", (size_t)(o.a[2] % 2 ? 100 : 0), (size_t)2);
                        else if (pool && p.get("regpool") && kind == PK_LOCK) c = ll::create_async_lock<r_sink>(nm, o.a[2] % 3 == 0);
                        else if (pool && p.get("regpool") && kind == PK_LOCKFREE) c = ll::create_async_lockfree<r_sink>(nm, o.a[2] % 3 == 0);
                        else c = ll::create<r_sink>(nm);
                        sim::oom_scope(false);
                        if (c) c->log(lv::critical, text);
                        break;
                    }
                    case C_POOL: {
                        ll::thread_pool_shr_ptr other = make_pool((int)(a % 3), (size_t)(1 + a % 4), a % 7 == 6 ? 0 : 1);
                        sim::oom_scope(false);
                        auto al = std::make_shared<ll::async_logger>("other", std::make_shared<r_sink>(), other);
                        al->log(lv::critical, text);
                        if (a % 2) other.reset();
                        if (a % 4 == 1) al->log(lv::critical, text);
                        break;
                    }
                    case C_LOGGER: {
                        auto s = std::make_shared<r_sink>();
                        auto one = std::make_shared<ll::logger>("a logger with a single sink, made and dropped", s);
                        ll::logger two(*one);
                        if (a % 2) ll::register_logger(one);
                        break;
                    }
                    case C_FILE: {
                        ll::sinks::basic_file_sink_mt f(a % 3 ? "logs/x/y/z/other.log" : "logs/other.log", a % 2 != 0);
                        f.log(ll::base::log_msg(lv::info, "n", text));
                        if (a % 4) f.flush();
                        break;
                    }
                    case C_ROLL: {
                        ll::sinks::rolling_file_sink_mt s("logs/own.log", 64, 2);
                        for (int i = 0; i < 3; i++) s.log(ll::base::log_msg(lv::info, "n", text));
                        break;
                    }
                    case C_REPORT: ll::handle_excpt("an error that is reported here"); break;
                    case C_PERIODIC: { int n = 0; ll::base::periodic_function pf([&n] { n++; }, std::chrono::microseconds(1 + a)); sim::sleep_ns(3000); break; }
                    case C_WAIT: sim::sleep_ns((u64)a * 100); break;
                    case C_SWAP: { ll::logger x("first", std::make_shared<r_sink>()), y("the second logger with a long name", std::make_shared<r_sink>()); ll::swap(x, y); ll::logger z(std::move(x)); z.log(lv::critical, text); break; }
                    case C_DEFAULT: if (a % 3 == 0) ll::set_default_logger(nullptr); else ll::set_default_logger(l); break;
                    }
                } catch (const std::exception&) {}
                sim::oom_scope(false);
            }
        });
        if (oom && p.get("oomall")) sim::oom_scope(true);
        lg.clear();
        if (p.get("order") == 0) pool.reset();
    }
    ll::close();
    sim::oom_scope(false);
}
void run_conserve(const Plan& p, int) {
    u64 blocks = 0, mark = 0;
    {
        // what happens once per process: the registry, the first exception, the first report, the streams
        ll::set_global_pattern("%v");
        ll::handle_excpt("the first report");
        try { throw std::runtime_error("the first exception"); } catch (const std::exception&) {}
        printf("first output\n");
        fflush(stdout);
        ll::close();
    }
    const int rounds = (int)p.get("rounds", 3);
    for (int i = 0; i < rounds; i++) {
        if (i) { SIM_QUIET; blocks = sim::heap_blocks(); mark = sim::heap_mark(); }
        conserve_round(p);
        SIM_QUIET;
        CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left after everything was destroyed", sim::live_threads() - 1);
        CHECK(sim::vfs::open_fds() == 0 && sim::vfs::live_files() == 0, "fd-leak", "%d descriptors and %d streams are open after everything was destroyed", sim::vfs::open_fds(), sim::vfs::live_files());
        u64 now = sim::heap_blocks();
        if (i) CHECK(now == blocks, "memory-leak", "round %d of making, using and destroying the same things left %lld blocks more than it found:%s", i + 1, (long long)now - (long long)blocks, sim::heap_since(mark).c_str());
    }
    sim::probe("rounds of making and destroying", (u64)rounds);
}
void gen_conserve(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 3), nl = (int)r.range(1, 3);
    p.set("rounds", nt == 3 ? 3 : 4);
    p.set("kind", (long)r.below(3));
    p.set("q", r.range(1, 5));
    p.set("w", r.range(1, 2));
    p.set("regpool", (long)r.below(2));
    p.set("order", (long)r.below(2));
    p.set("nl", nl);
    for (int i = 0; i < nl; i++) { p.set(strf("as%d", i).c_str(), (long)r.below(2)); p.set(strf("s%d", i).c_str(), (long)r.below(7)); p.set(strf("ns%d", i).c_str(), (long)r.below(2)); }
    if (r.chance(1, 4)) p.set("every", r.range(1, 200));
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 6);
        int pools = 0;
        for (int i = 0; i < n; i++) {
            int op = r.chance(1, 3) ? (int)C_LOG : (int)r.below(C_NOPS);
            if ((op == C_POOL || op == C_PERIODIC) && pools++) op = C_LOG;
            p.add(t, CN[op], (long)r.below(3), (long)r.below(60), (long)r.below(7));
        }
    }
    int f = (int)r.below(6);
    if (f == 0) { p.set("f.oom", r.range(50, 2500)); p.set("fmax.oom", r.range(1, 6)); if (r.chance(1, 2)) { p.set("oomall", 1); p.set("fmax.oom", r.range(1, 30)); } }
    else if (f == 1) { p.set("f.sink_throw", r.range(500, 8000)); p.set("fmax.sink_throw", 12); }
    else if (f == 2) { static const char* const e[] = {"open_err", "write_err", "mkdir_err", "fdopen_err", "close_err", "fsync_err"}; for (int i = 0; i < 2; i++) { std::string k = e[r.below(6)]; p.set(("f." + k).c_str(), r.range(500, 6000)); p.set(("fmax." + k).c_str(), r.range(1, 12)); } }
    else if (f == 3) { p.set("f.thread_err", r.range(500, 5000)); p.set("fmax.thread_err", r.range(1, 3)); }
}

// ------------------------------------------------------------------------------------------------ what is held is bounded
struct HWorld { long accepted, delivered, most; };
HWorld* HW;
class h_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    explicit h_sink(int slow) : slow_(slow) {}
protected:
    void output_(const ll::base::log_msg&) override {
        { SIM_QUIET; HW->delivered++; }
        for (int i = 0; i < slow_; i++) sim::yield_point();
    }
    void flush_() override {}
    int slow_;
};
void run_bounded(const Plan& p, int) {
    { SIM_QUIET; HW = new HWorld(); HW->accepted = HW->delivered = HW->most = 0; }
    const int kind = (int)p.get("kind"), P = (int)p.get("p", 1), bursts = (int)p.get("bursts", 3);
    const long q = p.get("q", 2), w = p.get("w", 1), per = p.get("per", 20);
    const bool churn = p.get("churn") != 0;               // every burst has its own threads; otherwise the same ones log in all
    // waiting messages: what the queue holds, one in the hands of each worker, and for the lock-free queue what rounding to
    // blocks of 32 messages per producer adds (threads that ended leave a block in part behind)
    const long bound = kind == PK_LOCK ? q + w : (q + 31) / 32 * 32 + 64 * P + P + w;
    {
        auto pool = make_pool(kind, (size_t)q, (size_t)w);
        auto lg = std::make_shared<ll::async_logger>("lg", std::make_shared<h_sink>((int)p.get("slow")), pool);
        lg->set_log_level(lv::trace);
        if (p.get("bt")) lg->enable_backtrace_n((size_t)p.get("bt"));
        std::atomic<int> burst(-1), done(0);
        auto one_burst = [&](int t) {
            for (long i = 0; i < per; i++) {
                std::string s((size_t)(p.get("len") * ((i + t) % 3)), 'b');
                lg->log(lv::info, s);
                SIM_QUIET;
                HW->accepted++;
                long n = HW->accepted - HW->delivered;
                if (n > HW->most) HW->most = n;
                if (kind != PK_CONC) CHECK(n <= bound, "unbounded", "%ld messages are waiting in a %s pool for %ld messages with %ld workers and %d producers", n, pool_name(kind), q, w, P);
            }
            done.fetch_add(1);
        };
        std::vector<std::thread> th;
        if (!churn) for (int t = 0; t < P; t++) th.emplace_back([&, t] {
            for (int b = 0; b < bursts; b++) {
                sim::wait_until([&] { SIM_QUIET; return burst.load() >= b; });
                (void)burst.load();
                one_burst(t);
            }
        });
        u64 first = 0, mark = 0;
        for (int b = 0; b < bursts; b++) {
            burst.store(b);
            if (churn) {
                for (int t = 0; t < P; t++) th.emplace_back([&, t] { one_burst(t); });
                for (auto& t : th) t.join();
                th.clear();
            }
            sim::wait_until([&] { SIM_QUIET; return done.load() == P * (b + 1) && HW->delivered == (long)P * per * (b + 1); });
            lg->flush();                                  // the last message's handling is over, and what it held is free
            SIM_QUIET;
            u64 now = sim::heap_blocks();
            if (b == 0) { first = now; mark = sim::heap_mark(); }
            // lock-free queues keep blocks for reuse: a later burst may need some more than the first; the concurrent pool
            // remembers each thread that logged
            long slack = kind == PK_LOCK ? 2 * w : kind == PK_LOCKFREE ? 4 * P + 2 * w : 4 * P + 2 * w + (long)P * per / 32 + 2;
            slack += 4 * p.get("bt");
            if (churn && kind == PK_CONC) slack += 2 * P * b;
            if (b) CHECK((long)now - (long)first <= slack, "grows", "after burst %d of %ld messages the idle pool (%s) holds %lld blocks more than after the first:%s", b + 1, P * per, pool_name(kind), (long long)now - (long long)first, sim::heap_since(mark).c_str());
        }
        for (auto& t : th) t.join();
        th.clear();
        // an idle pool holds no logger: the last reference is the caller's
        std::weak_ptr<ll::logger> gone(lg);
        lg.reset();
        for (int i = 0; i < 400 && !gone.expired(); i++) sim::sleep_ns(1000);
        CHECK(gone.expired(), "held", "the idle pool (%s) still holds a logger nobody else refers to", pool_name(kind));
    }
    SIM_QUIET;
    if (kind != PK_CONC && HW->most >= q) sim::probe("the queue was full");
}
void gen_bounded(Rng& r, Plan& p) {
    int kind = (int)r.below(3);
    p.set("kind", kind);
    p.set("p", r.range(1, 3));
    p.set("q", r.chance(1, 2) ? r.range(1, 4) : r.range(1, 70));
    p.set("w", r.range(1, 2));
    p.set("bursts", r.range(2, 4));
    long P = p.get("p");
    p.set("per", kind == PK_LOCK ? r.range(5, 40) : r.chance(1, 4) ? (long)r.range(150, 330) / P : r.range(20, 120) / P);
    p.set("slow", (long)r.below(4));
    p.set("len", (long)r.below(3) * 150);
    if (r.chance(1, 4)) p.set("bt", r.range(1, 6));
    if (r.chance(1, 3)) {
        p.set("churn", 1);
        p.set("bursts", r.range(3, 44 / P > 12 ? 12 : 44 / P));
        p.set("per", r.range(1, kind == PK_LOCK ? 8 : 40) / P + 1);
    }
}
sim::Scenario s1("conserve", gen_conserve, run_conserve), s2("bounded", gen_bounded, run_bounded, 6);
}

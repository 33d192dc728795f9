// Time: periodic functions and flush_every on the simulated steady clock, and what formatters make of the wall clock, the zone,
// the thread and the rest of a message. Real periodic_function, registry, formatters, sinks, loggers and pools.
#include "common.h"
#include "base/periodic_function.h"
#include "sinks/formatters/pattern_formatter.h"
#include "sinks/formatters/filler.h"
#include <algorithm>
#include <map>
namespace {
const u64 MS = 1000000ull, SLACK = 5 * MS;

// ------------------------------------------------------------------------------------------------ periodic functions
struct Call { u64 s, e; };
struct Per {
    long long interval; u64 dur;            // ns
    u64 c0, c1, d0, d1;                     // constructor and destructor
    int running;
    std::vector<Call> call;
};
struct PWorld { std::vector<Per> per; };
PWorld* PW;
const long long INTERVALS_US[] = {0, -5000, 10000, 25000, 50000, 100000, 1000000, 60000000ll, 3600000000ll, 86400000000ll};

std::unique_ptr<ll::base::periodic_function> make_periodic(size_t id, long long us, int unit) {
    auto f = [id] {
        u64 dur;
        {
            SIM_QUIET;
            Per& p = PW->per[id];
            CHECK(++p.running == 1, "overlap", "the periodic function runs twice at the same time");
            CHECK(!p.d1, "call-after-end", "the periodic function is called after its object was destroyed");
            Call c = {sim::now_ns(), 0};
            p.call.push_back(c);
            dur = p.dur;
        }
        if (dur) sim::sleep_ns(dur);
        sim::yield_point();
        SIM_QUIET;
        Per& p = PW->per[id];
        p.running--;
        p.call.back().e = sim::now_ns();
    };
    using namespace std::chrono;
    if (unit == 1 && us % 1000000 == 0) return ll::make_unique<ll::base::periodic_function>(f, seconds(us / 1000000));
    if (unit == 2 && us % 1000 == 0) return ll::make_unique<ll::base::periodic_function>(f, milliseconds(us / 1000));
    if (unit == 3) return ll::make_unique<ll::base::periodic_function>(f, duration<double>((double)us / 1e6));
    return ll::make_unique<ll::base::periodic_function>(f, microseconds(us));
}
void run_periodic(const Plan& p, int) {
    coarse_clock(p);
    { SIM_QUIET; PW = new PWorld(); PW->per.reserve(64); }
    run_threads(p.nthreads(), [&](int t) {
        std::unique_ptr<ll::base::periodic_function> cur[2];
        long idx[2] = {-1, -1};
        auto destroy = [&](int k) {
            if (!cur[k]) return;
            { SIM_QUIET; PW->per[idx[k]].d0 = sim::now_ns(); }
            cur[k].reset();
            SIM_QUIET;
            Per& q = PW->per[idx[k]];
            CHECK(!q.running, "call-after-end", "the destructor of a periodic function returned while the function runs");
            q.d1 = sim::now_ns();
        };
        for (auto& o : ops_of(p, t)) {
            int k = (int)(o.a[3] % 2);
            if (o.name == "make") {
                destroy(k);
                long long us = INTERVALS_US[o.a[0] % 10];
                int before = sim::live_threads();
                {
                    SIM_QUIET;
                    Per q = {us * 1000, (u64)o.a[1] * 1000, sim::now_ns(), 0, 0, 0, 0, {}};
                    idx[k] = (long)PW->per.size();
                    PW->per.push_back(q);
                }
                cur[k] = make_periodic((size_t)idx[k], us, (int)o.a[2]);
                { SIM_QUIET; PW->per[idx[k]].c1 = sim::now_ns(); }
                if (us <= 0 && p.nthreads() == 1) CHECK(sim::live_threads() == before, "thread", "a periodic function without an interval started a thread");
            } else if (o.name == "end") destroy(k);
            else if (o.name == "wait") sim::sleep_ns((u64)o.a[0] * 1000);
            else if (o.name == "jump") { SIM_QUIET; sim::jump_wall(o.a[0] * 1000000ll); }
        }
        destroy(0);
        destroy(1);
    });
    CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left after the periodic functions were destroyed", sim::live_threads() - 1);
    SIM_QUIET;
    const bool exact = !sim::fault_count(sim::F_TIME_LEAP) && !sim::fair_mode();
    size_t calls = 0;
    for (auto& q : PW->per) {
        if (q.interval <= 0) { CHECK(q.call.empty(), "no-interval", "a periodic function with the interval %lld was called", q.interval); continue; }
        const u64 I = (u64)q.interval;
        u64 last = q.c0, last_hi = q.c1, end = q.d0;
        for (auto& c : q.call) {
            CHECK(c.s >= last + I, "early", "a periodic function was called %.6f ms after the last time (or its construction), the interval is %.6f ms", (double)(c.s - last) / MS, (double)I / MS);
            if (exact) CHECK(c.s <= last_hi + I + SLACK, "late", "a periodic function was called %.3f ms after the last call ended, the interval is %.3f ms", (double)(c.s - last_hi) / MS, (double)I / MS);
            if (exact) CHECK(c.s <= q.d0 + SLACK, "call-after-end", "a periodic function was called %.3f ms after its destructor had begun", (double)(c.s - q.d0) / MS);
            CHECK(c.e && c.e <= q.d1, "call-after-end", "a periodic function ran when its destructor had returned");
            last = c.s; last_hi = c.e;
            end = std::max(end, c.e);
            calls++;
        }
        if (exact) CHECK(q.d0 <= last_hi + I + SLACK, "missed", "a periodic function with an interval of %.3f ms was not called for %.3f ms", (double)I / MS, (double)(q.d0 - last_hi) / MS);
        if (exact) CHECK(q.d1 <= end + SLACK, "slow-end", "the destructor of a periodic function took %.3f ms longer than the running call", (double)(q.d1 - end) / MS);
    }
    if (calls) sim::probe("periodic calls", calls);
}
void gen_periodic(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 3);
    const int base = (int)r.range(2, 9);              // intervals within a factor of about ten, so that the number of calls is bounded
    const long long unit = INTERVALS_US[base];
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 7);
        for (int i = 0; i < n; i++) {
            int w = (int)r.below(10);
            if (i == 0 || w < 3) {
                int k = r.chance(1, 8) ? (int)r.below(2) : r.chance(2, 3) ? base : std::min(base + (base < 5 ? (int)r.below(3) : 0), 9);
                long long us = INTERVALS_US[k];
                p.add(t, "make", k, r.chance(1, 2) ? 0 : us > 0 ? (long)(us * r.range(1, 30) / 10) : 1000, (long)r.below(4), (long)r.below(2));
                if (us > 0 && r.chance(4, 5)) {
                    long long m = r.chance(1, 4) ? us + r.range(-3, 3) : us * r.range(1, 60) / 10;
                    p.add(t, "wait", (long)m);
                }
            } else if (w < 5) p.add(t, "end", 0, 0, 0, (long)r.below(2));
            else if (w < 8) p.add(t, "wait", r.chance(1, 2) ? r.range(0, 200) : r.range(unit / 10, unit * 5));
            else p.add(t, "jump", r.range(-100000000, 100000000));
        }
    }
    p.set("f.spurious", r.chance(1, 2) ? 2000 : 0);
    coarse_clock_gen(r, p);
}

// ------------------------------------------------------------------------------------------------ flush_every
struct Fl { int lg; u64 s, e; };
struct Reg { u64 a0, a1, r0, r1; };             // added, removed
struct Set { long long I; u64 t0, t1; };
struct FWorld { std::vector<Fl> fl; std::vector<Reg> lg; std::vector<Set> set; u64 dur[16]; int thrown; };
FWorld* FW;
class t_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    t_sink(int i, bool thr) : i_(i), throw_(thr), n_(0) {}
protected:
    void output_(const ll::base::log_msg&) override { sim::yield_point(); }
    void flush_() override {
        u64 d, s;
        { SIM_QUIET; s = sim::now_ns(); d = FW->dur[i_ % 16]; }
        if (d) sim::sleep_ns(d); else sim::yield_point();
        bool thr;
        { SIM_QUIET; Fl f = {i_, s, sim::now_ns()}; FW->fl.push_back(f); thr = throw_ && n_++ % 2 == 0; if (thr) FW->thrown++; }
        if (thr) throw std::runtime_error("flush failed");
    }
    int i_;
    bool throw_;
    int n_;
};
const long long FE_US[] = {0, 20000, 50000, 100000, 1000000, 60000000ll, 200, 500, 1000};
void run_flush_every(const Plan& p, int) {
    coarse_clock(p);
    { SIM_QUIET; FW = new FWorld(); FW->fl.reserve(4096); memset(FW->dur, 0, sizeof FW->dur); FW->thrown = 0; for (int i = 0; i < 16; i++) FW->dur[i] = (u64)p.get(strf("d%d", i).c_str()) * 1000; }
    u64 closed;
    {
        ll::thread_pool_shr_ptr pool;
        if (p.get("pool")) pool = make_pool((int)p.get("kind"), (size_t)p.get("q", 2), (size_t)p.get("w", 1));
        ll::register_thread_pool(pool);
        std::vector<ll::logger_shr_ptr> lg(16);
        for (int i = 0; i < 16; i++) {
            auto s = std::make_shared<t_sink>(i, p.get(strf("thr%d", i).c_str()) != 0);
            if (pool && p.get(strf("as%d", i).c_str())) lg[i] = std::make_shared<ll::async_logger>(strf("l%d", i), ll::sink_shr_ptr(s), pool);
            else lg[i] = std::make_shared<ll::logger>(strf("l%d", i), ll::sink_shr_ptr(s));
            SIM_QUIET;
            Reg g = {0, 0, 0, 0};
            FW->lg.push_back(g);
        }
        run_threads(p.nthreads(), [&](int t) {
            for (auto& o : ops_of(p, t)) {
                int i = (int)((unsigned long)o.a[0] % 4 + 4 * t) % 16;
                if (o.name == "every") {
                    size_t k;
                    long long I = FE_US[o.a[0] % 9];
                    { SIM_QUIET; Set s = {I * 1000, sim::now_ns(), ~0ull}; k = FW->set.size(); FW->set.push_back(s); }
                    if (o.a[1] && I % 1000000 == 0) ll::flush_every(std::chrono::seconds(I / 1000000));
                    else ll::flush_every(std::chrono::microseconds(I));
                    SIM_QUIET;
                    FW->set[k].t1 = sim::now_ns();
                } else if (o.name == "add") {
                    if (FW->lg[i].a0) continue;
                    { SIM_QUIET; FW->lg[i].a0 = sim::now_ns(); }
                    ll::initialize_logger(lg[i]);
                    // what a logger lets through has nothing to do with it
                    if (p.get("quiet") >> i & 1) lg[i]->set_log_level(ll::level::off);
                    if (p.get("quiet") >> (16 + i) & 1) lg[i]->sinks()[0]->set_level(ll::level::off);
                    SIM_QUIET;
                    FW->lg[i].a1 = sim::now_ns();
                } else if (o.name == "remove") {
                    if (!FW->lg[i].a1 || FW->lg[i].r0) continue;
                    { SIM_QUIET; FW->lg[i].r0 = sim::now_ns(); }
                    ll::remove_logger(strf("l%d", i));
                    SIM_QUIET;
                    FW->lg[i].r1 = sim::now_ns();
                } else if (o.name == "log") lg[i]->log(ll::level::critical, "x");
                else if (o.name == "wait") sim::sleep_ns((u64)o.a[0] * 1000);
                else if (o.name == "jump") { SIM_QUIET; sim::jump_wall(o.a[0] * 1000000ll); }
            }
        });
        pool.reset();
        lg.clear();
        closed = sim::now_ns();
        ll::close();
    }
    const u64 closed1 = sim::now_ns();
    CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left after close()", sim::live_threads() - 1);
    SIM_QUIET;
    const bool exact = !sim::fault_count(sim::F_TIME_LEAP) && !sim::fair_mode();
    u64 R = SLACK;                                       // one round of flushes
    for (size_t i = 0; i < 16; i++) R += 2 * FW->dur[i];
    for (auto& f : FW->fl) {
        const Reg& g = FW->lg[f.lg];
        CHECK(g.a0 && f.e >= g.a0, "flush", "logger %d is flushed and is not registered", f.lg);
        if (exact && g.r1) CHECK(f.s <= g.r1 + R, "flush-removed", "logger %d is flushed %.3f ms after it was removed", f.lg, (double)(f.s - g.r1) / MS);
        CHECK(f.e <= closed1, "flush-closed", "logger %d is flushed after close()", f.lg);
        bool ok = false;
        for (auto& s : FW->set) {
            if (s.I <= 0 || f.s < s.t0 + (u64)s.I) continue;
            bool gone = false;
            for (auto& n : FW->set) if (n.t0 > s.t1 && n.t1 < f.e) gone = true;
            if (!gone) ok = true;
        }
        CHECK(ok, "flush", "logger %d is flushed at %.3f ms, which no call of flush_every() asks for", f.lg, (double)f.s / MS);
    }
    for (size_t k = 0; k < FW->set.size(); k++) {
        const Set& s = FW->set[k];
        // the time in which only this call is in force
        u64 a = s.t1, b = closed;
        bool alone = true;
        for (size_t j = 0; j < FW->set.size(); j++) {
            const Set& n = FW->set[j];
            if (j == k || n.t1 <= s.t0) continue;
            if (n.t0 < s.t1) alone = false;
            else b = std::min(b, n.t0);
        }
        if (!alone || s.I <= 0) continue;
        for (int i = 0; i < 16; i++) {
            const Reg& g = FW->lg[i];
            if (!g.a1) continue;
            u64 x = std::max(a, g.a1), y = g.r0 ? std::min(b, g.r0) : b, last = 0;
            for (auto& f : FW->fl) {
                if (f.lg != i || f.s < s.t1 + (u64)s.I || f.s >= b) continue;
                if (last) CHECK(f.s >= last + (u64)s.I, "early", "logger %d is flushed twice within %.3f ms, flush_every() asked for %.3f ms", i, (double)(f.s - last) / MS, (double)s.I / MS);
                last = f.s;
            }
            if (!exact) continue;
            u64 cover = x;
            std::vector<u64> at;
            for (auto& f : FW->fl) if (f.lg == i && f.s >= x && f.s <= y) at.push_back(f.s);
            std::sort(at.begin(), at.end());
            at.push_back(y);
            for (u64 z : at) {
                CHECK(z <= cover + (u64)s.I + 2 * R, "missed", "logger %d was not flushed for %.3f ms, flush_every() asked for every %.3f ms", i, (double)(z - cover) / MS, (double)s.I / MS);
                cover = z;
            }
        }
    }
    CHECK(count_reports(sim::vfs::out(2)) == FW->thrown, "report", "%d flushes failed and %d errors were reported", FW->thrown, count_reports(sim::vfs::out(2)));
    sim::probe("periodic flushes", FW->fl.size());
}
void gen_flush_every(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 3);
    if (r.chance(1, 2)) { p.set("pool", 1); p.set("kind", (long)r.below(3)); p.set("q", r.range(1, 4)); p.set("w", r.range(1, 2)); }
    for (int i = 0; i < 4 * nt; i++) {
        if (r.chance(1, 3)) p.set(strf("d%d", i).c_str(), p.get("pool") && p.get("kind") ? r.range(1, 40) : r.range(1, 8000));     // producers of a lock-free pool spin meanwhile
        if (r.chance(1, 3)) p.set(strf("as%d", i).c_str(), 1);
        if (r.chance(1, 6)) p.set(strf("thr%d", i).c_str(), 1);
    }
    bool multi = r.chance(1, 5), polls = p.get("pool") && p.get("kind");       // these pools poll: no long waits
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(2, 9);
        if (t == 0) { p.add(t, "add", (long)r.below(4)); p.add(t, "every", polls ? r.range(6, 8) : r.range(1, 3), (long)r.below(2)); }
        for (int i = 0; i < n; i++) {
            int w = (int)r.below(12);
            if (w < 3) p.add(t, "add", (long)r.below(4));
            else if (w < 4) p.add(t, "remove", (long)r.below(4));
            else if (w < 5 && (t == 0 || multi)) p.add(t, "every", polls ? (r.chance(1, 4) ? 0 : r.range(6, 8)) : (long)r.below(6), (long)r.below(2));
            else if (w < 6) p.add(t, "log", (long)r.below(4));
            else if (w < 7) p.add(t, "jump", r.range(-100000000, 100000000));
            else p.add(t, "wait", polls ? r.range(0, 1000) : r.chance(1, 3) ? r.range(0, 1000) : r.range(10000, 400000));
        }
    }
    if (r.chance(1, 2)) p.set("quiet", (long)r.below(1u << 31));
    coarse_clock_gen(r, p);
}

// ------------------------------------------------------------------------------------------------ formatted messages
struct TMsg {
    int th, lg, lvl, loc; bool given; std::string text;
    u64 time, lo, hi; bool window;              // ns since the epoch; lo/hi: wall clock around the call
    u64 tid; int seen, missed;                  // missed: the sink ran out of memory over it
};
struct TWorld {
    std::vector<TMsg> msg;
    std::vector<std::string> name;
    u64 jumps;
    int missed; bool oom;
    long off, off2; u64 change;
};
TWorld* TW;
struct Loc { const char* file; int line; const char* func; };
const Loc LOCS[] = {{nullptr, 0, nullptr}, {"main.cpp", 7, "main"}, {"a/very/long/path/to/some/file_name.cpp", 12345, "operator()"}, {"x", 1234567, ""}, {"", 99999, "f"}};
const char* const LV[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
enum { CUST_N = 2 };
class tag_flag : public ll::sinks::custom_flag_formatter {
public:
    explicit tag_flag(std::string t) : tag_(t) {}
    void format(const ll::base::log_msg& m, const std::tm& tm, ll::fmt_memory_buf& b) override {
        std::string s = tag_ + std::to_string((int)m.level) + ":" + std::to_string(tm.tm_sec);
        ll::sinks::filler f(s.size(), spaces_info_, b);
        f.fill_msg(s);
    }
    std::unique_ptr<ll::sinks::custom_flag_formatter> clone() const override { return ll::make_unique<tag_flag>(tag_); }
    std::string tag_;
};

// ---- the reference
struct Civil { long long y; int m, d, H, M, S, wd; };
Civil civil(u64 time_ns) {
    long long t = (long long)(time_ns / 1000000000ull);
    t += TW->change && (u64)t >= TW->change ? TW->off2 : TW->off;
    long long days = t >= 0 ? t / 86400 : -((86399 - t) / 86400), sec = t - days * 86400;
    Civil c;
    c.H = (int)(sec / 3600); c.M = (int)(sec / 60 % 60); c.S = (int)(sec % 60);
    c.wd = (int)(((days % 7) + 7 + 4) % 7);
    long long y = 1970;
    auto leap = [](long long v) { return (v % 4 == 0 && v % 100 != 0) || v % 400 == 0; };
    while (days < 0) { y--; days += leap(y) ? 366 : 365; }
    while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; y++; }
    static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int m = 0;
    while (days >= ml[m] + (m == 1 && leap(y))) { days -= ml[m] + (m == 1 && leap(y)); m++; }
    c.y = y; c.m = m + 1; c.d = (int)days + 1;
    return c;
}
bool cut_elapsed;            // an elapsed time was cut: equal renderings of two times say nothing about the times between them
std::string render(const std::string& pat, const std::string& eol, const TMsg& m, u64 prev, const std::string& tag, const std::string& cust) {
    static const char* const WD[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
    static const char* const MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    const Civil c = civil(m.time);
    const u64 ns = m.time % 1000000000ull, delta = m.time > prev ? m.time - prev : 0;
    const Loc& L = LOCS[m.loc];
    std::string out;
    for (size_t i = 0; i < pat.size(); i++) {
        if (pat[i] != '%') { out += pat[i]; continue; }
        if (++i >= pat.size()) break;
        char side = 'r';                                 // text to the right: spaces left
        if (pat[i] == '-') { side = 'l'; i++; } else if (pat[i] == '=') { side = 'c'; i++; }
        bool pad = false, cut = false;
        size_t w = 0;
        while (i < pat.size() && pat[i] >= '0' && pat[i] <= '9') { pad = true; w = w * 10 + (size_t)(pat[i++] - '0'); }
        if (pad && i < pat.size() && pat[i] == '!') { cut = true; i++; }
        if (i >= pat.size()) break;
        if (w > 64) w = 64;
        std::string s;
        bool raw = false;
        const char f = pat[i];
        if (cust.find(f) != std::string::npos) s = tag + strf("%d:%d", m.lvl, c.S);
        else switch (f) {
            case '+':
                raw = true;
                s = strf("[%04lld-%02d-%02d %02d:%02d:%02d.%03d] ", c.y, c.m, c.d, c.H, c.M, c.S, (int)(ns / 1000000));
                if (!TW->name[m.lg].empty()) s += "[" + TW->name[m.lg] + "] ";
                s += std::string("[") + LV[m.lvl] + "] ";
                if (L.line > 0) s += strf("[%s:%05d] ", L.file, L.line);
                s += m.text;
                break;
            case 'n': s = TW->name[m.lg]; break;
            case 'l': s = LV[m.lvl]; break;
            case 'a': s = WD[c.wd]; break;
            case 'b': s = MN[c.m - 1]; break;
            case 'c': s = strf("%s %s %02d %02d:%02d:%02d %04lld", WD[c.wd], MN[c.m - 1], c.d, c.H, c.M, c.S, c.y); break;
            case 'y': s = strf("%04lld", c.y); break;
            case 'm': s = strf("%02d", c.m); break;
            case 'd': s = strf("%02d", c.d); break;
            case 'H': s = strf("%02d", c.H); break;
            case 'M': s = strf("%02d", c.M); break;
            case 'S': s = strf("%02d", c.S); break;
            case 'E': s = strf("%03d", (int)(ns / 1000000)); break;
            case 'F': s = strf("%06d", (int)(ns / 1000)); break;
            case 'G': s = strf("%09d", (int)ns); break;
            case 'T': s = strf("%02d:%02d:%02d", c.H, c.M, c.S); break;
            case 'W': s = strf("%llu", (unsigned long long)delta); break;
            case 'X': s = strf("%llu", (unsigned long long)(delta / 1000)); break;
            case 'Y': s = strf("%llu", (unsigned long long)(delta / 1000000)); break;
            case 'Z': s = strf("%llu", (unsigned long long)(delta / 1000000000)); break;
            case 'p': s = "4242"; break;
            case 't': s = strf("%llu", (unsigned long long)m.tid); break;
            case 'v': s = m.text; break;
            case '^': case '$': raw = true; break;
            case '@': if (L.line > 0) s = strf("%s:%d", L.file, L.line); break;
            case 'A': if (L.line > 0) s = L.file; break;
            case 'B': if (L.line > 0) s = strf("%d", L.line); break;
            case 'C': if (L.line > 0) s = L.func; break;
            case '%': raw = true; s = "%"; break;
            default: raw = true; s = std::string("%") + f;
        }
        if (pad && !raw) {
            if (s.size() < w) {
                size_t n = w - s.size();
                if (side == 'r') s = std::string(n, ' ') + s;
                else if (side == 'l') s += std::string(n, ' ');
                else s = std::string(n / 2, ' ') + s + std::string(n - n / 2, ' ');
            } else if (cut) { if (s.size() > w && f >= 'W' && f <= 'Z') cut_elapsed = true; s.resize(w); }
        }
        out += s;
    }
    return out + eol;
}
std::string gen_pattern(Rng& r, const std::string& cust) {
    static const char flags[] = "+nlabcymdHMSEFGTWXYZptv^$@ABC%nlvTWG+vcEqxQ?";
    static const char* const lit[] = {" ", "[", "] ", "text", "\xc3\xa9", "-", ": ", "{}", "0", "\t"};
    std::string s;
    int n = (int)r.range(1, 9);
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 3)) s += lit[r.below(10)];
        s += '%';
        if (r.chance(1, 3)) {
            if (r.chance(1, 2)) s += r.chance(1, 2) ? '-' : '=';
            s += std::to_string(r.chance(1, 8) ? r.below(200) : r.below(30));
            if (r.chance(1, 2)) s += '!';
        } else if (r.chance(1, 20)) s += r.chance(1, 2) ? '-' : '=';
        if (!cust.empty() && r.chance(1, 5)) s += cust[r.below(cust.size())];
        else s += flags[r.below(sizeof flags - 1)];
    }
    if (r.chance(1, 3)) s += lit[r.below(10)];
    if (r.chance(1, 25)) { static const char* const tail[] = {"%", "%-", "%10", "%=5!"}; s += tail[r.below(4)]; }
    return s;
}
class text_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    // oracle data: made in quiet scopes
    std::string* pat; std::string* eol; std::string* tag; std::string* cust;
    u64 lo, hi;                                  // the time of the message before (or of the formatter's creation)
    int idx;
    text_sink(int i) : pat(nullptr), eol(nullptr), tag(nullptr), cust(nullptr), lo(0), hi(0), idx(i) {}
protected:
    void output_(const ll::base::log_msg& m) override {
        ll::fmt_memory_buf b;
        if (TW->oom) sim::oom_scope(true);
        try { this->formatter_->format(m, b); }
        catch (const std::bad_alloc&) {
            sim::oom_scope(false);
            {
                SIM_QUIET;
                size_t id = strtoul(std::string(m.msg.data(), m.msg.size()).c_str(), nullptr, 10);
                CHECK(id < TW->msg.size(), "corrupted", "the sink got message %zu", id);
                TW->msg[id].missed++; TW->missed++;
                const u64 t = (u64)std::chrono::duration_cast<std::chrono::nanoseconds>(m.time.time_since_epoch()).count();
                if (t < lo) lo = t;              // the formatter may or may not count it as the message before the next
                if (t > hi) hi = t;
            }
            throw;
        }
        sim::oom_scope(false);
        SIM_QUIET;
        size_t id = strtoul(std::string(m.msg.data(), m.msg.size()).c_str(), nullptr, 10);
        CHECK(id < TW->msg.size() && TW->msg[id].text == std::string(m.msg.data(), m.msg.size()), "corrupted", "the sink got '%.80s'", std::string(m.msg.data(), m.msg.size()).c_str());
        TMsg& x = TW->msg[id];
        const u64 t = (u64)std::chrono::duration_cast<std::chrono::nanoseconds>(m.time.time_since_epoch()).count();
        if (x.given) CHECK(t == x.time, "time", "message %zu was logged with the time %llu and arrived with %llu", id, (unsigned long long)x.time, (unsigned long long)t);
        else if (!x.seen) x.time = t;
        else CHECK(t == x.time, "time", "message %zu has different times for different sinks", id);
        if (!x.given && !x.window && !x.hi) CHECK(t >= x.lo || TW->jumps, "time", "message %zu carries a time before its call", id);
        x.seen++;
        cut_elapsed = false;
        const std::string got(b.data(), b.size()), e1 = render(*pat, *eol, x, lo, *tag, *cust), e2 = lo == hi ? e1 : render(*pat, *eol, x, hi, *tag, *cust);
        if (lo == hi || (e1 == e2 && !cut_elapsed))
            CHECK(got == e1, "format", "sink %d with the pattern '%s' wrote '%.300s' for message %zu, expected '%.300s'", idx, pat->c_str(), got.c_str(), id, e1.c_str());
        lo = hi = t;
    }
    void flush_() override {}
};
const u64 TIMES[] = {0, 1, 86399, 86400, 951782399 /* 2000-02-28 23:59:59 */, 951782400, 951868799, 951868800, 1704067199 /* end of 2023 */, 1704067200, 1709164799, 1709251200, 1725148800 /* September */,
                     4102444800ull /* 2100 */, 4107542400ull /* 2100-03-01 */, 7258118400ull /* 2200 */, 1718452800 /* noon */, 1718409600 /* midnight */, 1000000000, 2147483647, 2147483648ull, 4294967296ull};
const long OFFS[] = {0, 19800, -12600, 50400, -43200, 3600, 1172, -1};
const u64 FRACS[] = {0, 999999999, 1, 500000000, 999999, 1000000, 1000, 999, 99999999, 123456789};
void run_pattern(const Plan& p, int) {
    coarse_clock(p);
    { SIM_QUIET; TW = new TWorld(); TW->msg.reserve(256); TW->jumps = 0; TW->missed = 0; TW->oom = p.has("f.oom"); TW->off = OFFS[p.get("tz") % 8]; TW->off2 = OFFS[p.get("tz2") % 8]; TW->change = (u64)p.get("change"); sim::set_tz(TW->off, TW->change, TW->off2); }
    const int nl = (int)p.get("nl", 1), ns = (int)p.get("ns", 1), how = (int)p.get("how");
    const bool async = p.get("async") != 0;
    ll::thread_pool_shr_ptr pool;
    if (async) pool = make_pool((int)p.get("kind"), (size_t)p.get("q", 2), (size_t)p.get("w", 1));
    if (how == 3) ll::set_auto_register_logger(false);          // a later global formatter is not for the loggers made before
    {
        std::vector<ll::logger_shr_ptr> lgs;
        std::vector<std::shared_ptr<text_sink> > sinks;
        // settings: per logger unless set on each sink
        for (int i = 0; i < nl; i++) {
            std::string nm = i == 0 ? "logger" : i == 1 ? "" : "a-logger-with-a-name-that-is-longer-than-the-sixty-four-columns-of-padding";
            { SIM_QUIET; TW->name.push_back(std::string(nm.c_str())); }
            std::vector<ll::sink_shr_ptr> mine;
            size_t first = sinks.size();
            for (int k = 0; k < ns; k++) { sinks.push_back(std::make_shared<text_sink>((int)sinks.size())); mine.push_back(sinks.back()); }
            ll::logger_shr_ptr lg;
            if (async) lg = std::make_shared<ll::async_logger>(nm, mine.begin(), mine.end(), pool);
            else lg = std::make_shared<ll::logger>(nm, mine.begin(), mine.end());
            u64 c0 = sim::wall_ns();
            std::string pat, eol = "\n", tag, cust;
            Rng r((u64)p.get("pseed") * 7 + (u64)i);
            if (how != 0 && how != 2 && how != 4 && p.get("cust")) { cust = r.chance(1, 2) ? "Q" : "Qv"; tag = "<tag>"; }
            pat = gen_pattern(r, cust);
            if (how == 1 || how == 3) { static const char* const eols[] = {"\n", "\r\n", "", "||\n", "%v"}; eol = eols[p.get("eol") % 5]; }
            auto make_formatter = [&]() -> ll::formatter_uni_ptr {
                if (p.get("cust") == 2 && eol == "\n") {
                    auto f = ll::make_unique<ll::sinks::pattern_formatter>();
                    for (char ch : cust) f->add_custom_flag<tag_flag>(ch, tag);
                    f->set_pattern(pat);
                    return std::move(f);
                }
                ll::sinks::pattern_formatter::cust_flag_table tab;
                for (char ch : cust) tab[ch] = ll::make_unique<tag_flag>(tag);
                return ll::make_unique<ll::sinks::pattern_formatter>(pat, eol, std::move(tab));
            };
            if (how == 0) { for (size_t k = first; k < sinks.size(); k++) sinks[k]->set_pattern(pat); }
            else if (how == 1) lg->set_formatter(make_formatter());
            else if (how == 2) lg->set_pattern(pat);
            else if (how == 3) { ll::set_global_formatter(make_formatter()); ll::initialize_logger(lg); }
            else pat = "%+";
            lg->set_log_level(ll::level::trace);
            for (size_t k = first; k < sinks.size(); k++) {
                SIM_QUIET;
                text_sink& s = *sinks[k];
                s.pat = new std::string(pat.c_str()); s.eol = new std::string(eol.c_str()); s.tag = new std::string(tag.c_str()); s.cust = new std::string(cust.c_str());
                s.lo = c0; s.hi = sim::wall_ns();
            }
            lgs.push_back(lg);
        }
        if (p.get("clone")) { lgs.push_back(lgs[0]->clone("twin")); SIM_QUIET; TW->name.push_back("twin"); }
        run_threads(p.nthreads(), [&](int t) {
            for (auto& o : ops_of(p, t)) {
                if (o.name == "log") {
                    int lg = (int)(o.a[0] % (long)lgs.size()), lvl = (int)(o.a[1] % 7), loc = (int)(o.a[2] % 5);
                    const long tk = o.a[3];
                    size_t id;
                    std::string text;
                    u64 j0, at = 0;
                    {
                        SIM_QUIET;
                        TMsg m;
                        m.th = t; m.lg = lg; m.lvl = lvl; m.loc = loc; m.given = tk >= 0; m.seen = m.missed = 0; m.window = false; m.hi = 0; m.time = 0;
                        id = TW->msg.size();
                        m.text = strf("%zu", id);
                        Rng r((u64)id + (u64)p.get("pseed"));
                        if (o.a[4] > 0) { m.text += '.'; for (long i = 0; i < o.a[4]; i++) m.text += "abc %{}\x80\xff\\\"'z"[r.below(13)]; }
                        m.tid = (u64)(1000 + sim::self());
                        if (m.given) m.time = TIMES[tk % 22] * 1000000000ull + FRACS[(tk / 22) % 10];
                        at = m.time;
                        m.lo = sim::wall_ns();
                        j0 = TW->jumps;
                        TW->msg.push_back(m);
                        text = std::string(m.text.c_str(), m.text.size());
                    }
                    ll::source_loc sl{};
                    if (loc) sl = ll::source_loc{LOCS[loc].file, LOCS[loc].line, LOCS[loc].func};
                    if (tk >= 0 && id % 3 == 0) {            // the helpers behind date-time texts
                        char sec[64], nsec[64];
                        const ll::sys_clock::time_point tp(std::chrono::duration_cast<ll::sys_clock::duration>(std::chrono::nanoseconds(at)));
                        ll::base::os::time_point_to_datetime_sec(sec, sizeof sec, tp);
                        ll::base::os::time_point_to_datetime_nsec(nsec, sizeof nsec, tp);
                        SIM_QUIET;
                        Civil c = civil(at);
                        std::string w = strf("%04lld-%02d-%02d %02d:%02d:%02d", c.y, c.m, c.d, c.H, c.M, c.S);
                        CHECK(w == sec, "datetime", "%s is written as '%.60s'", w.c_str(), sec);
                        w += strf(".%09llu", (unsigned long long)(at % 1000000000ull));
                        CHECK(w == nsec, "datetime", "%s is written as '%.60s'", w.c_str(), nsec);
                    }
                    if (tk >= 0) lgs[lg]->log(ll::sys_clock::time_point(std::chrono::duration_cast<ll::sys_clock::duration>(std::chrono::nanoseconds(at))), sl, (ll::level::level_enum)lvl, ll::fmt_string_view(text));
                    else if (o.a[4] % 2) lgs[lg]->log(sl, (ll::level::level_enum)lvl, "{}", text);
                    else lgs[lg]->log(sl, (ll::level::level_enum)lvl, ll::fmt_string_view(text));
                    SIM_QUIET;
                    std::string().swap(text);
                    TW->msg[id].hi = sim::wall_ns();
                    TW->msg[id].window = TW->jumps == j0;
                } else if (o.name == "jump") { SIM_QUIET; TW->jumps++; sim::jump_wall(o.a[0] * 1000000ll); }
                else if (o.name == "wait") sim::sleep_ns((u64)o.a[0] * 1000);
            }
        });
        lgs.clear();
        if (how == 3) ll::close();
        pool.reset();
        SIM_QUIET;
        for (size_t id = 0; id < TW->msg.size(); id++) {
            const TMsg& m = TW->msg[id];
            CHECK(m.seen + m.missed == ns, "lost", "message %zu arrived at %d of %d sinks, %d ran out of memory", id, m.seen, ns, m.missed);
            if (!m.given && m.window && m.seen) CHECK(m.time >= m.lo && m.time <= m.hi, "time", "message %zu was logged between %llu and %llu and carries the time %llu", id, (unsigned long long)m.lo, (unsigned long long)m.hi, (unsigned long long)m.time);
        }
        CHECK(count_reports(sim::vfs::out(2)) == TW->missed, "report", "%d errors were reported for %d that happened: %.150s", count_reports(sim::vfs::out(2)), TW->missed, sim::vfs::out(2).c_str());
        sim::probe("formatting that ran out of memory", (u64)TW->missed);
        sim::probe("formatted messages", TW->msg.size() * (size_t)ns);
    }
}
void gen_pattern_plan(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 3);
    p.set("nl", r.range(1, 3)); p.set("ns", r.range(1, 3));
    p.set("how", (long)r.below(5));
    p.set("pseed", (long)r.below(1000000000));
    p.set("tz", r.chance(1, 3) ? 0 : (long)r.below(8));
    if (r.chance(1, 3)) { p.set("tz2", (long)r.below(8)); p.set("change", (long)TIMES[r.below(22)]); }
    p.set("cust", (long)r.below(3)); p.set("eol", (long)r.below(5));
    if (r.chance(1, 4)) p.set("clone", 1);
    if (r.chance(1, 2)) { p.set("async", 1); p.set("kind", (long)r.below(3)); p.set("q", r.range(1, 8)); p.set("w", r.range(1, 2)); }
    const bool oom = r.chance(1, 4);          // memory runs out while a sink formats
    if (oom) { p.set("f.oom", r.range(100, 4000)); p.set("fmax.oom", r.range(1, 8)); }
    int mode = (int)r.below(3);               // times: now, given, both
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 10);
        for (int i = 0; i < n; i++) {
            int w = (int)r.below(12);
            if (w == 0) p.add(t, "jump", r.chance(1, 2) ? r.range(-3000, 3000) : r.range(-100000000, 100000000));
            else if (w == 1) p.add(t, "wait", p.get("async") && p.get("kind") ? r.range(0, 100) : r.chance(1, 2) ? r.range(0, 2000) : r.range(0, 100000000));
            else p.add(t, "log", (long)r.below(4), (long)r.below(7), (long)r.below(5), mode == 0 || (mode == 2 && r.chance(1, 2)) ? -1 : (long)r.below(220), r.chance(1, 3) ? 0 : (long)r.below(oom ? 320 : 90));
        }
    }
    coarse_clock_gen(r, p);
}
// ---- the stamp of an error report is the time of the report
void run_report_time(const Plan& p, int) {
    coarse_clock(p);
    { SIM_QUIET; TW = new TWorld(); TW->jumps = 0; TW->off = OFFS[p.get("tz") % 8]; TW->off2 = 0; TW->change = 0; sim::set_tz(TW->off); }
    struct Rep { u64 lo, hi; bool window; };
    static std::vector<Rep>* reps;
    { SIM_QUIET; reps = new std::vector<Rep>(); }
    run_threads(p.nthreads(), [&](int t) {
        for (auto& o : ops_of(p, t)) {
            if (o.name == "report") {
                size_t id;
                u64 j0;
                { SIM_QUIET; Rep r = {sim::wall_ns(), 0, false}; id = reps->size(); reps->push_back(r); j0 = TW->jumps; }
                ll::handle_excpt("failure " + std::to_string(id) + " happened");
                SIM_QUIET;
                (*reps)[id].hi = sim::wall_ns();
                (*reps)[id].window = TW->jumps == j0;
            } else if (o.name == "jump") { SIM_QUIET; TW->jumps++; sim::jump_wall(o.a[0] * 1000000ll); }
            else if (o.name == "wait") sim::sleep_ns((u64)o.a[0] * 1000);
        }
    });
    SIM_QUIET;
    const std::string err = sim::vfs::out(2);
    CHECK(count_reports(err) == (int)reps->size(), "report", "%zu errors, %d reports", reps->size(), count_reports(err));
    for (size_t i = 0; i < reps->size(); i++) {
        const Rep& r = (*reps)[i];
        size_t a = err.find(strf("] failure %zu happened\n", i));
        CHECK(a != std::string::npos && a >= 20, "report", "error %zu is not reported", i);
        std::string stamp = err.substr(a - 20, 21);
        if (!r.window) continue;
        bool ok = false;
        for (u64 s = r.lo / 1000000000ull; s <= r.hi / 1000000000ull && !ok; s++) {
            Civil c = civil(s * 1000000000ull);
            ok = stamp == strf("[%04lld-%02d-%02d %02d:%02d:%02d]", c.y, c.m, c.d, c.H, c.M, c.S);
        }
        Civil c = civil(r.lo);
        CHECK(ok, "report-time", "error %zu was reported at %04lld-%02d-%02d %02d:%02d:%02d and carries '%s'", i, c.y, c.m, c.d, c.H, c.M, c.S, stamp.c_str());
    }
}
void gen_report_time(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 3);
    p.set("tz", (long)r.below(8));
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 8);
        for (int i = 0; i < n; i++) {
            int w = (int)r.below(5);
            if (w == 0) p.add(t, "jump", r.range(-100000000, 100000000));
            else if (w == 1) p.add(t, "wait", r.range(0, 3000000));
            else p.add(t, "report");
        }
    }
    coarse_clock_gen(r, p);
}
sim::Scenario s1("periodic", gen_periodic, run_periodic), s2("flush_every", gen_flush_every, run_flush_every), s3("pattern", gen_pattern_plan, run_pattern), s4("report_time", gen_report_time, run_report_time);
}

// The registry and what hangs on it: loggers by name, global settings, the default logger, backtraces, reconfiguration while
// logging, factories. Real registry, loggers, backtracers, factories and pools.
#include "common.h"
#include "lin.h"
#include "sinks/null_sink.h"
#include <algorithm>
#include <deque>
#include <map>
namespace {
namespace lv = ll::level;
inline lv::level_enum L_(long l) { return (lv::level_enum)l; }

// ------------------------------------------------------------------------------------------------ linearizable registry
const char* const NAMES[] = {"alpha", "b", "", "a_logger_with_a_long_name_beyond_any_small_buffer"};
enum { REG, INIT, GET, REM, SETDEF, GETDEF, CLEAR, AUTO, GLEVEL, GFLUSH, LEVEL, FLUSHL, EXEC, GPAT, PAT, GFMT, POOL, GETPOOL, NOPS };
const char* const RN[] = {"register", "initialize", "get", "remove", "set_default", "get_default", "remove_all", "auto_register", "global_level", "global_flush_level", "level", "flush_level", "exec_all", "global_pattern", "pattern", "global_formatter", "register_pool", "get_pool"};
struct Snap { int name, id, level, flush, fmt; };
struct RRec { int th, op, a, b, ret; std::vector<Snap> snap; };
struct Obj { int name, level, flush, fmt; };
struct RState {
    std::map<int, int> map;               // name -> object
    std::vector<Obj> obj;
    int def, glevel, gflush, gfmt, pool;
    bool autoreg;
};
struct RWorld {
    Lin<RState, RRec> lin;
    std::vector<bool> async;
};
RWorld* RW;
enum { DEFNAME = 9 };

class fmt_sink : public ll::sinks::sink {      // its formatter is visible as the text it produces
public:
    void log(const ll::base::log_msg&) override {}
    void flush() override {}
    void set_pattern(const std::string& p) override { set_formatter(ll::make_unique<ll::sinks::pattern_formatter>(p)); }
    void set_formatter(ll::formatter_uni_ptr f) override { std::lock_guard<std::mutex> g(m_); f_ = std::move(f); }
    int text() {
        std::lock_guard<std::mutex> g(m_);
        if (!f_) return 0;
        ll::fmt_memory_buf b;
        ll::base::log_msg m(lv::info, "x", "y");
        f_->format(m, b);
        return b.size() && b.data()[0] == 'F' ? atoi(std::string(b.data() + 1, b.size() - 1).c_str()) : 0;
    }
    std::mutex m_;
    ll::formatter_uni_ptr f_;
};
class const_formatter : public ll::sinks::formatter {
public:
    explicit const_formatter(int n) : n_(n) {}
    void format(const ll::base::log_msg&, ll::fmt_memory_buf& b) override { std::string s = "F" + std::to_string(n_); b.append(s.data(), s.data() + s.size()); }
    ll::formatter_uni_ptr clone() const override { return ll::make_unique<const_formatter>(n_); }
    int n_;
};
int name_index(const std::string& n) {
    if (n == "default_logger") return DEFNAME;
    for (int i = 0; i < 4; i++) if (n == NAMES[i]) return i;
    return -1;
}
bool reg_apply(RState& s, const RRec& r) {
    auto reg = [&](int id) -> int { if (s.map.count(s.obj[id].name)) return 0; s.map[s.obj[id].name] = id; return 1; };
    switch (r.op) {
    case REG: { int ok = reg(r.a); return r.ret < 0 || r.ret == ok; }
    case INIT: {
        Obj& o = s.obj[r.a];
        o.level = s.glevel; o.flush = s.gflush; o.fmt = s.gfmt;
        int ok = s.autoreg ? reg(r.a) : 1;
        return r.ret < 0 || r.ret == ok;
    }
    case GET: { auto i = s.map.find(r.a); return r.ret == (i == s.map.end() ? -1 : i->second); }
    case REM: s.map.erase(r.a); if (s.def >= 0 && s.obj[s.def].name == r.a) s.def = -1; return true;
    case SETDEF: if (r.a >= 0) s.map[s.obj[r.a].name] = r.a; s.def = r.a; return true;
    case GETDEF: return r.ret == s.def;
    case CLEAR: s.map.clear(); s.def = -1; return true;
    case AUTO: s.autoreg = r.a != 0; return true;
    case GLEVEL: s.glevel = r.a; for (auto& x : s.map) s.obj[x.second].level = r.a; return true;
    case GFLUSH: s.gflush = r.a; for (auto& x : s.map) s.obj[x.second].flush = r.a; return true;
    case GPAT: case GFMT: s.gfmt = r.a; for (auto& x : s.map) s.obj[x.second].fmt = r.a; return true;
    case LEVEL: case FLUSHL: case PAT: {
        auto i = s.map.find(r.a);
        if (r.ret >= 0 && r.ret != (i != s.map.end())) return false;
        if (i != s.map.end()) { Obj& o = s.obj[i->second]; (r.op == LEVEL ? o.level : r.op == FLUSHL ? o.flush : o.fmt) = r.b; }
        return true;
    }
    case EXEC: {
        if (r.snap.size() != s.map.size()) return false;
        for (auto& x : r.snap) {
            auto i = s.map.find(x.name);
            if (i == s.map.end() || i->second != x.id) return false;
            const Obj& o = s.obj[x.id];
            if (o.level != x.level || o.flush != x.flush || (x.id != 0 && o.fmt != x.fmt)) return false;
        }
        return true;
    }
    case POOL:
        for (auto i = s.map.begin(); i != s.map.end();) if (RW->async[i->second]) s.map.erase(i++); else ++i;
        if (s.def >= 0 && RW->async[s.def]) s.def = -1;
        s.pool = r.a;
        return true;
    case GETPOOL: return r.ret == s.pool;
    }
    return true;
}
std::string reg_key(const RState& s) {
    std::string k;
    for (auto& x : s.map) k += strf("%d:%d,", x.first, x.second);
    k += strf("|%d %d %d %d %d %d|", s.def, s.glevel, s.gflush, s.gfmt, s.pool, (int)s.autoreg);
    for (auto& o : s.obj) k += strf("%d %d %d,", o.level, o.flush, o.fmt);
    return k;
}
void run_reg(const Plan& p, int) {
    { SIM_QUIET; RW = new RWorld(); }
    const int no = (int)p.get("objs", 4), nth = p.nthreads();
    ll::base::registry& R = ll::base::registry::instance();
    RState init;
    {
        std::vector<ll::logger_shr_ptr> obj;
        std::vector<std::shared_ptr<fmt_sink> > sinks;
        std::vector<ll::thread_pool_shr_ptr> pools;
        obj.push_back(ll::get_default_logger());
        CHECK(obj[0] && obj[0]->name() == "default_logger", "default", "there is no default logger at the start");
        for (int i = 1; i <= no; i++) {
            sinks.push_back(std::make_shared<fmt_sink>());
            const char* nm = NAMES[p.get(strf("n%d", i).c_str()) % 4];
            if (p.get(strf("as%d", i).c_str())) obj.push_back(std::make_shared<ll::async_logger>(nm, ll::sink_shr_ptr(sinks.back()), std::weak_ptr<ll::base::thread_pool>()));
            else obj.push_back(std::make_shared<ll::logger>(nm, ll::sink_shr_ptr(sinks.back())));
        }
        for (int i = 0; i < 2; i++) pools.push_back(p.get("pools") ? make_pool((int)(p.get("kind") + i) % 3, 2, 1) : nullptr);
        {
            SIM_QUIET;
            for (size_t i = 0; i < obj.size(); i++) {
                Obj o = {i == 0 ? (int)DEFNAME : (int)(p.get(strf("n%zu", i).c_str()) % 4), lv::info, lv::off, 0};
                init.obj.push_back(o);
                RW->async.push_back(i && p.get(strf("as%zu", i).c_str()) != 0);
            }
            init.map[DEFNAME] = 0;
            init.def = 0; init.glevel = lv::info; init.gflush = lv::off; init.gfmt = 0; init.pool = -1; init.autoreg = true;
        }
        auto id_of = [&](const ll::logger_shr_ptr& l) { for (size_t i = 0; i < obj.size(); i++) if (obj[i] == l) return (int)i; return l ? -2 : -1; };
        run_threads(nth, [&](int t) {
            for (auto& o : ops_of(p, t)) {
                int op = -1;
                for (int i = 0; i < NOPS; i++) if (o.name == RN[i]) op = i;
                if (op < 0) continue;
                if (op == SETDEF && o.a[0] < 0) o.a[0] = -1;
                RRec r = {t, op, (int)o.a[0], (int)o.a[1], -1, {}};
                if (op == REG || op == INIT || (op == SETDEF && r.a >= 0)) r.a %= obj.size();
                if (op == GET || op == REM || op == LEVEL || op == FLUSHL || op == PAT) r.a = r.a % 5 == 4 ? (int)DEFNAME : r.a % 5;
                const std::string nm = r.a == DEFNAME ? "default_logger" : r.a >= 0 ? NAMES[r.a % 4] : "";
                if (op == AUTO) r.a &= 1;
                if (op == GLEVEL || op == GFLUSH) r.a %= 7;
                if (op == LEVEL || op == FLUSHL) r.b %= 7;
                if (op == POOL) r.a = p.get("pools") ? r.a % 2 : -1;
                std::vector<Snap> snap;
                const bool wrap = o.a[2] != 0;
                u64 t0 = sim::stamp();
                try {
                    switch (op) {
                    case REG: if (wrap) ll::register_logger(obj[r.a]); else { R.register_logger(obj[r.a]); r.ret = 1; } break;
                    case INIT: if (wrap) ll::initialize_logger(obj[r.a]); else { R.initialize_logger(obj[r.a]); r.ret = 1; } break;
                    case GET: r.ret = id_of(ll::get_logger(nm)); break;
                    case REM: ll::remove_logger(nm); break;
                    case SETDEF: ll::set_default_logger(r.a < 0 ? nullptr : obj[r.a]); break;
                    case GETDEF: r.ret = id_of(ll::get_default_logger()); break;
                    case CLEAR: ll::remove_all(); break;
                    case AUTO: ll::set_auto_register_logger(r.a); break;
                    case GLEVEL: ll::set_global_log_level(L_(r.a)); break;
                    case GFLUSH: ll::set_global_flush_level(L_(r.a)); break;
                    case GPAT: ll::set_global_pattern("F" + std::to_string(r.a)); break;
                    case GFMT: ll::set_global_formatter(ll::make_unique<const_formatter>(r.a)); break;
                    case LEVEL: if (wrap) ll::set_log_level(nm, L_(r.b)); else { R.set_log_level(nm, L_(r.b)); r.ret = 1; } break;
                    case FLUSHL: if (wrap) ll::set_flush_level(nm, L_(r.b)); else { R.set_flush_level(nm, L_(r.b)); r.ret = 1; } break;
                    case PAT: if (wrap) ll::set_pattern(nm, "F" + std::to_string(r.b)); else { R.set_pattern(nm, "F" + std::to_string(r.b)); r.ret = 1; } break;
                    case EXEC:
                        ll::exec_all([&](ll::logger_shr_ptr l) {
                            int id = id_of(l);
                            Snap s = {-1, id, l->get_log_level(), l->get_flush_level(), id > 0 ? sinks[id - 1]->text() : 0};
                            SIM_QUIET;
                            s.name = name_index(l->name());
                            snap.push_back(s);
                        });
                        break;
                    case POOL: ll::register_thread_pool(r.a < 0 ? nullptr : pools[r.a]); break;
                    case GETPOOL: { auto x = ll::get_thread_pool(); r.ret = !x ? -1 : x == pools[0] ? 0 : x == pools[1] ? 1 : -2; break; }
                    }
                } catch (const ll::learnlog_excpt&) { r.ret = 0; }
                SIM_QUIET;
                for (auto& s : snap) r.snap.push_back(s);
                std::vector<Snap>().swap(snap);
                Lin<RState, RRec>::Item it = {t0, sim::stamp(), r};
                RW->lin.h.push_back(it);
            }
        });
        SIM_QUIET;
        RW->lin.apply = reg_apply;
        RW->lin.key = reg_key;
        bool ok = RW->lin.check(init);
        if (RW->lin.gave_up) sim::probe("histories too large to decide");
        if (!ok) {
            std::string h;
            for (auto& i : RW->lin.h) {
                h += strf(" t%d:%s(%d,%d)=%d", i.r.th, RN[i.r.op], i.r.a, i.r.b, i.r.ret);
                if (i.r.op == EXEC) for (auto& s : i.r.snap) h += strf("[n%d #%d l%d f%d F%d]", s.name, s.id, s.level, s.flush, s.fmt);
                h += strf("@%llu-%llu", (unsigned long long)i.t0, (unsigned long long)i.t1);
            }
            sim::violate("not-linearizable", "no order of these registry calls explains their results:%s", h.c_str());
        }
    }
    ll::close();
    CHECK(!ll::get_default_logger() && !ll::get_thread_pool(), "close", "after close() the registry still holds a default logger or a pool");
    int left = 0;
    ll::exec_all([&](ll::logger_shr_ptr) { left++; });
    CHECK(left == 0, "close", "after close() the registry still holds %d loggers", left);
    CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left after close()", sim::live_threads() - 1);
}
void gen_reg(Rng& r, Plan& p) {
    int nt = r.chance(1, 5) ? 1 : (int)r.range(2, 4);
    p.set("objs", r.range(2, 5));
    for (int i = 1; i <= 5; i++) { p.set(strf("n%d", i).c_str(), (long)r.below(r.chance(1, 2) ? 2 : 4)); if (r.chance(1, 3)) p.set(strf("as%d", i).c_str(), 1); }
    p.set("kind", (long)r.below(3));
    bool pools = r.chance(1, 3);
    p.set("pools", pools);
    static const int common[] = {REG, REG, INIT, INIT, GET, REM, EXEC, EXEC, GLEVEL, GPAT};
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, nt == 1 ? 14 : 6);
        for (int i = 0; i < n; i++) {
            int op = r.chance(1, 2) ? common[r.below(10)] : (int)r.below(NOPS);
            if ((op == POOL || op == GETPOOL) && !pools && r.chance(2, 3)) op = EXEC;
            p.add(t, RN[op], op == SETDEF && r.chance(1, 5) ? -1 : op == GPAT || op == GFMT ? r.range(1, 9) : (long)r.below(12), op == PAT ? r.range(1, 9) : (long)r.below(7), (long)r.below(2));
        }
    }
}

// ------------------------------------------------------------------------------------------------ default logger functions
// The default logger changes, goes away and comes back while threads use the free functions: every message goes to the one
// logger that was the default at some moment of the call, and nowhere if there was none then
struct DMsg { int lvl; std::vector<int> got; };
struct DRec { int th, op, a, lvl, got; };                // op: log, set, remove, clear, pool, close
enum { D_LOG, D_SET, D_REM, D_CLEAR, D_POOL, D_CLOSE, D_NOPS };
const char* const DN[] = {"log", "set", "remove", "clear", "pool", "close"};
struct DItem { DRec r; u64 t0, t1; size_t id; };
struct DWorld { std::vector<DMsg> msg; std::vector<DItem> h; int level[3]; bool async[3]; };
DWorld* DW;
class d_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    explicit d_sink(int i) : i_(i) {}
protected:
    void output_(const ll::base::log_msg& m) override {
        std::string s(m.msg.data(), m.msg.size());
        sim::yield_point();
        SIM_QUIET;
        size_t id = strtoul(s.c_str(), nullptr, 10);
        CHECK(id < DW->msg.size() && s == strf("%zu.", id), "corrupted", "the default logger got '%.60s'", s.c_str());
        CHECK(DW->msg[id].lvl == (int)m.level, "level", "message %zu was logged at level %d and arrived at level %d", id, DW->msg[id].lvl, (int)m.level);
        CHECK(m.tid != 0, "tid", "no thread id");
        DW->msg[id].got.push_back(i_);
        std::string().swap(s);
    }
    void flush_() override {}
    int i_;
};
void free_log(int how, int lvl, size_t id) {
    std::string s = std::to_string(id) + ".";
    if (how == 0) ll::log(L_(lvl), "{}.", id);
    else if (how == 1) ll::log(ll::source_loc("f.cpp", 3, "g"), L_(lvl), "{}.", id);
    else if (how == 2) ll::log(L_(lvl), s);
    else switch (lvl) {
        case 0: if (how == 3) ll::trace("{}.", id); else ll::trace(s); break;
        case 1: if (how == 3) ll::debug("{}.", id); else ll::debug(s); break;
        case 2: if (how == 3) ll::info("{}.", id); else ll::info(s); break;
        case 3: if (how == 3) ll::warn("{}.", id); else ll::warn(s); break;
        case 4: if (how == 3) ll::error("{}.", id); else ll::error(s); break;
        case 5: if (how == 3) ll::critical("{}.", id); else ll::critical(s); break;
        default: ll::log(L_(lvl), "{}.", id);
    }
}
bool d_apply(int& def, const DRec& r) {                  // state: the default logger, -1 none
    switch (r.op) {
    case D_LOG: return r.got >= 0 ? r.got == def && r.lvl >= DW->level[def] : def < 0 || r.lvl < DW->level[def];
    case D_SET: def = r.a; return true;
    case D_REM: if (def == r.a) def = -1; return true;
    case D_CLEAR: case D_CLOSE: def = -1; return true;
    case D_POOL: if (def >= 0 && DW->async[def]) def = -1; return true;
    }
    return true;
}
void run_default(const Plan& p, int) {
    { SIM_QUIET; DW = new DWorld(); }
    const int nl = (int)p.get("nl", 2);
    for (int i = 0; i < 3; i++) { DW->level[i] = (int)p.get(strf("l%d", i).c_str()); DW->async[i] = p.get(strf("as%d", i).c_str()) != 0; }
    {
        std::vector<ll::logger_shr_ptr> lg;
        ll::thread_pool_shr_ptr pool = p.get("pool") ? make_pool((int)p.get("kind"), 4, 1) : nullptr;
        for (int i = 0; i < nl; i++) {
            auto sink = ll::sink_shr_ptr(std::make_shared<d_sink>(i));
            if (DW->async[i]) lg.push_back(std::make_shared<ll::async_logger>(strf("d%d", i), sink, pool));
            else lg.push_back(std::make_shared<ll::logger>(strf("d%d", i), sink));
            lg.back()->set_log_level(L_(p.get(strf("l%d", i).c_str())));
        }
        ll::set_default_logger(lg[0]);
        run_threads(p.nthreads(), [&](int t) {
            for (auto& o : ops_of(p, t)) {
                int op = -1;
                for (int i = 0; i < D_NOPS; i++) if (o.name == DN[i]) op = i;
                if (op < 0) continue;
                DItem it = {{t, op, (int)(o.a[0] < 0 ? -1 : o.a[0] % nl), 0, -1}, 0, 0, 0};
                if (op == D_LOG) {
                    SIM_QUIET;
                    DMsg m = {(int)((o.a[0] < 0 ? 0 : o.a[0]) % 7), {}};
                    it.r.lvl = m.lvl;
                    it.id = DW->msg.size();
                    DW->msg.push_back(m);
                }
                it.t0 = sim::stamp();
                switch (op) {
                case D_LOG: free_log((int)(o.a[1] % 5), it.r.lvl, it.id); break;
                case D_SET: ll::set_default_logger(it.r.a < 0 ? nullptr : lg[it.r.a]); break;
                case D_REM: if (it.r.a >= 0) ll::remove_logger(strf("d%d", it.r.a)); break;
                case D_CLEAR: ll::remove_all(); break;
                case D_POOL: ll::register_thread_pool(nullptr); break;
                case D_CLOSE: ll::close(); break;
                }
                it.t1 = sim::stamp();
                SIM_QUIET;
                DW->h.push_back(it);
            }
        });
        pool.reset();                                     // drains what asynchronous loggers were given
        SIM_QUIET;
        Lin<int, DRec> lin;
        for (auto& it : DW->h) {
            Lin<int, DRec>::Item x = {it.t0, it.t1, it.r};
            if (it.r.op == D_LOG) {
                const DMsg& m = DW->msg[it.id];
                CHECK(m.got.size() <= 1, "duplicate", "message %zu through a free function arrived %zu times", it.id, m.got.size());
                if (!m.got.empty()) x.r.got = m.got[0];
            }
            lin.h.push_back(x);
        }
        lin.apply = d_apply;
        lin.key = [](const int& d) { return strf("%d", d); };
        bool ok = lin.check(0);
        if (lin.gave_up) sim::probe("histories too large to decide");
        if (!ok) {
            std::string h;
            for (auto& i : lin.h) h += i.r.op == D_LOG ? strf(" t%d:log(level %d)->%d", i.r.th, i.r.lvl, i.r.got) : strf(" t%d:%s(%d)", i.r.th, DN[i.r.op], i.r.a), h += strf("@%llu-%llu", (unsigned long long)i.t0, (unsigned long long)i.t1);
            sim::violate("wrong-logger", "no order of these calls explains where the messages of the free functions went:%s", h.c_str());
        }
    }
    ll::close();
    CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left after close()", sim::live_threads() - 1);
}
void gen_default(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 4);
    p.set("nl", r.range(1, 3));
    bool pool = r.chance(1, 3), gone = r.chance(1, 2);
    p.set("pool", pool);
    p.set("kind", (long)r.below(3));
    for (int i = 0; i < 3; i++) { p.set(strf("l%d", i).c_str(), r.chance(2, 3) ? 0 : (long)r.below(7)); if (pool && r.chance(1, 2)) p.set(strf("as%d", i).c_str(), 1); }
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 8);
        for (int i = 0; i < n; i++) {
            if (r.chance(2, 3)) p.add(t, "log", (long)r.below(7), (long)r.below(5));
            else if (!gone || r.chance(1, 2)) p.add(t, "set", gone && r.chance(1, 4) ? -1 : (long)r.below(3));
            else p.add(t, DN[r.range(D_REM, D_CLOSE)], (long)r.below(3));
        }
    }
}

// ------------------------------------------------------------------------------------------------ backtrace
enum { B_LOG, B_ENABLE, B_DISABLE, B_DUMP, B_CLONE };
const char* const BN[] = {"log", "enable", "disable", "dump", "clone"};
struct BRec { int th, op, lg, a; std::vector<int> ids; bool marks; };
struct Ring { bool on; size_t n; std::deque<int> q; };
struct BSt { std::map<int, Ring> lg; };
struct BMsg { int th, lg, lvl; size_t size; size_t tid; u64 t0, t1; u64 w0, w1; int direct, direct2; int line; long long user_time; };
struct BWorld {
    Lin<BSt, BRec> lin;
    std::vector<BMsg> msg;
    std::map<int, int> names;
    // of each simulated thread: what its current dump produced
    struct Cap { bool on, start, end, start2, end2; std::vector<int> ids, ids2; } cap[64];
    int cap_thread;                       // async: the worker writes for the dumping thread
    bool async;
    int level2;                           // level of the second sink
};
BWorld* BW;
std::string b_text(size_t id) { std::string s = strf("%zu:", id); for (size_t i = 0; i < BW->msg[id].size; i++) s += id % 4 == 3 ? (char)((id * 17 + i * 5) % 256) : (char)('a' + (id + i * 5) % 26); return s; }
std::string b_name(int lg) { return lg ? strf("clone%d", lg) : std::string("bt"); }
class b_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    explicit b_sink(int idx) : idx_(idx) {}
protected:
    void output_(const ll::base::log_msg& m) override {
        std::string s(m.msg.data(), m.msg.size()), name(m.logger_name.data(), m.logger_name.size());
        sim::yield_point();
        bool fail = false;
        {
            SIM_QUIET;
            BWorld::Cap& c = BW->cap[BW->async ? 0 : sim::self()];
            bool& start = idx_ ? c.start2 : c.start;
            bool& end = idx_ ? c.end2 : c.end;
            if (s == "*********************** Backtrace Start ***********************") { CHECK(c.on && !start, "stray-mark", "a start mark nobody asked for"); start = true; }
            else if (s == "************************ Backtrace End ************************") { CHECK(c.on && start && !end, "stray-mark", "an end mark without a start"); end = true; }
            else {
                size_t id = strtoul(s.c_str(), nullptr, 10);
                CHECK(id < BW->msg.size(), "corrupted", "the sink got '%.80s'", s.c_str());
                BMsg& q = BW->msg[id];
                std::string want = b_text(id);
                CHECK(s == want, "corrupted", "message %zu arrived as %zu bytes '%.80s' instead of %zu bytes '%.80s'", id, s.size(), s.c_str(), want.size(), want.c_str());
                CHECK(m.tid == q.tid && (int)m.level == q.lvl, "fidelity", "message %zu: thread id or level differ from what was logged", id);
                CHECK(name == b_name(q.lg), "fidelity", "message %zu: logger name '%.40s' instead of '%s'", id, name.c_str(), b_name(q.lg).c_str());
                CHECK(q.line ? m.loc.line == q.line && m.loc.filename && !strcmp(m.loc.filename, "there.cpp") && m.loc.funcname && !strcmp(m.loc.funcname, "fun") : m.loc.empty(), "fidelity", "message %zu: the source location differs from what was logged", id);
                u64 t = (u64)std::chrono::duration_cast<std::chrono::nanoseconds>(m.time.time_since_epoch()).count();
                if (q.user_time) CHECK((long long)t == q.user_time, "fidelity", "message %zu carries another time than the caller gave", id);
                else CHECK(t >= q.w0 && (!q.t1 || t <= q.w1), "fidelity", "message %zu carries a time outside its log call", id);
                CHECK(!idx_ || q.lvl >= BW->level2, "unwanted", "message %zu of level %d reached a sink of level %d", id, q.lvl, BW->level2);
                // in a dump the calling thread is inside its dump call; everything else is the direct output of a log call
                if (c.on && start && !end) (idx_ ? c.ids2 : c.ids).push_back((int)id);
                else if (idx_ && c.on && c.start && !c.end) c.ids2.push_back((int)id);       // the marks do not pass the level of the second sink
                else (idx_ ? q.direct2 : q.direct)++;
                std::string().swap(want);
            }
            fail = sim::fault(sim::F_SINK_THROW);
            std::string().swap(s);
            std::string().swap(name);
        }
        if (fail) throw std::runtime_error("backtrace sink fails");
    }
    void flush_() override {}
    int idx_;
};
bool b_apply(BSt& s, const BRec& r) {
    Ring& g = s.lg[r.lg];
    switch (r.op) {
    case B_LOG: if (g.on && g.n) { g.q.push_back(r.a); if (g.q.size() > g.n) g.q.pop_front(); } return true;
    case B_ENABLE: g.on = true; g.n = (size_t)r.a; g.q.clear(); return true;
    case B_DISABLE: g.on = false; g.q.clear(); return true;
    case B_CLONE: s.lg[r.a] = g; return true;
    case B_DUMP:
        if (!r.marks) return !g.on;
        if (!g.on) return r.ids.empty();
        if (r.ids.size() != g.q.size() || !std::equal(r.ids.begin(), r.ids.end(), g.q.begin())) return false;
        g.q.clear();
        return true;
    }
    return true;
}
std::string b_key(const BSt& s) {
    std::string k;
    for (auto& x : s.lg) { k += strf("%d:%d,%zu[", x.first, (int)x.second.on, x.second.n); for (int i : x.second.q) k += strf("%d ", i); k += "]"; }
    return k;
}
void run_backtrace(const Plan& p, int) {
    coarse_clock(p);
    { SIM_QUIET; BW = new BWorld(); for (auto& c : BW->cap) c.on = c.start = c.end = c.start2 = c.end2 = false; BW->async = p.get("async") != 0; BW->level2 = (int)p.get("level2"); }
    const int level = (int)p.get("level", 2), two = p.has("level2"), level2 = (int)p.get("level2");
    const bool async = p.get("async") != 0;
    {
        std::vector<ll::sink_shr_ptr> sink;
        sink.push_back(std::make_shared<b_sink>(0));
        if (two) { sink.push_back(std::make_shared<b_sink>(1)); sink[1]->set_level(L_(level2)); }
        ll::thread_pool_shr_ptr pool;
        ll::logger_shr_ptr lg[8];
        if (async) { pool = make_pool((int)p.get("kind"), (size_t)p.get("q", 2), 1); lg[0] = std::make_shared<ll::async_logger>("bt", sink.begin(), sink.end(), pool); }
        else lg[0] = std::make_shared<ll::logger>("bt", sink.begin(), sink.end());
        lg[0]->set_log_level(L_(level));
        std::atomic<int> nlg(1);
        run_threads(p.nthreads(), [&](int t) {
            int mine = 0;                  // the clone this thread made (with the original: the loggers it uses)
            for (auto& o : ops_of(p, t)) {
                int op = -1;
                for (int i = 0; i < 5; i++) if (o.name == BN[i]) op = i;
                int li = o.a[3] % 2 ? mine : 0;
                if (o.name == "swap" || o.name == "move") {      // (one thread) the loggers are other objects afterwards, and the same loggers
                    if (async) for (int i = 0; i < 2; i++) lg[i ? mine : 0]->flush();
                    if (o.name == "swap") { if (mine) { ll::swap(*lg[0], *lg[mine]); std::swap(lg[0], lg[mine]); } }
                    else if (async) lg[li] = std::make_shared<ll::async_logger>(std::move(static_cast<ll::async_logger&>(*lg[li])));
                    else lg[li] = std::make_shared<ll::logger>(std::move(*lg[li]));
                    CHECK(lg[li]->name() == (li ? strf("clone%d", li) : std::string("bt")) && lg[li]->sinks() == sink && lg[li]->get_log_level() == L_(level) && lg[li]->is_async() == async, "clone", "a logger is another one after %s", o.name.c_str());
                    continue;
                }
                if (op < 0) { if (o.name == "sleep") sim::sleep_ns(1000); continue; }
                BRec r = {t, op, li, 0, {}, false};
                u64 t0 = sim::stamp();
                if (op == B_LOG) {
                    size_t id;
                    std::string s;
                    {
                        SIM_QUIET;
                        BMsg m = {t, li, (int)(o.a[0] % 7), (size_t)o.a[1], ll::base::os::thread_id(), t0, 0, sim::wall_ns(), 0, 0, 0, o.a[2] >= 2 ? 10 + (int)BW->msg.size() : 0, o.a[2] == 3 ? 1000000000ll * (1 + (long long)BW->msg.size()) : 0};
                        id = BW->msg.size();
                        BW->msg.push_back(m);
                        s = b_text(id);
                    }
                    const ll::source_loc loc("there.cpp", 10 + (int)id, "fun");
                    const ll::level::level_enum l = L_(o.a[0] % 7);
                    if (o.a[2] == 0) lg[li]->log(l, ll::fmt_string_view(s));
                    else if (o.a[2] == 1) lg[li]->log(l, "{}", s);
                    else if (o.a[2] == 2) lg[li]->log(loc, l, "{}", s);
                    else lg[li]->log(ll::sys_clock::time_point(std::chrono::nanoseconds(1000000000ll * (1 + (long long)id))), loc, l, ll::fmt_string_view(s));
                    SIM_QUIET;
                    std::string().swap(s);
                    BW->msg[id].t1 = sim::stamp();
                    BW->msg[id].w1 = sim::wall_ns();
                    r.a = (int)id;
                } else if (op == B_ENABLE) { r.a = (int)(o.a[0] % 9); lg[li]->enable_backtrace_n((size_t)r.a); }
                else if (op == B_DISABLE) lg[li]->disable_backtrace();
                else if (op == B_CLONE) {
                    int n = nlg.fetch_add(1);
                    if (n >= 8) continue;
                    lg[n] = lg[li]->clone(strf("clone%d", n));
                    CHECK(lg[n]->name() == strf("clone%d", n) && lg[n]->sinks() == sink && lg[n]->get_log_level() == L_(level) && lg[n]->is_async() == async, "clone", "the clone differs from its original");
                    mine = r.a = n;
                } else {
                    if (async) lg[li]->flush();       // earlier direct output is out of the way
                    BWorld::Cap* c;
                    { SIM_QUIET; c = &BW->cap[async ? 0 : sim::self()]; c->on = true; c->start = c->end = c->start2 = c->end2 = false; c->ids.clear(); c->ids2.clear(); }
                    t0 = sim::stamp();
                    lg[li]->dump_backtrace();
                    u64 t1 = sim::stamp();
                    (void)t1;
                    if (async) lg[li]->flush();
                    SIM_QUIET;
                    c->on = false;
                    CHECK(c->start == c->end, "half-dump", "a dump has a start mark without an end mark or the other way round");
                    r.marks = c->start;
                    r.ids = c->ids;
                    if (two) {
                        std::vector<int> want;
                        for (int id : c->ids) if (BW->msg[id].lvl >= level2) want.push_back(id);
                        CHECK(c->ids2 == want, "half-dump", "a dump gave the second sink (level %d) %zu messages instead of %zu", level2, c->ids2.size(), want.size());
                        bool marks = c->start && level2 <= 2;
                        CHECK(c->start2 == marks && c->end2 == marks, "half-dump", "a dump gave the second sink (level %d) marks %d and %d", level2, c->start2, c->end2);
                    }
                    if (r.ids.size()) sim::probe("dumped messages", r.ids.size());
                }
                SIM_QUIET;
                Lin<BSt, BRec>::Item it = {t0, sim::stamp(), r};
                BW->lin.h.push_back(it);
            }
        });
        if (async) lg[0]->flush();
        SIM_QUIET;
        for (size_t id = 0; id < BW->msg.size(); id++)
            CHECK(BW->msg[id].direct == (BW->msg[id].lvl >= level), "direct", "message %zu of level %d was written %d times outside dumps, the log level is %d", id, BW->msg[id].lvl, BW->msg[id].direct, level);
        if (two) for (size_t id = 0; id < BW->msg.size(); id++)
            CHECK(BW->msg[id].direct2 == (BW->msg[id].lvl >= level && BW->msg[id].lvl >= level2), "direct", "message %zu of level %d was written %d times outside dumps to the second sink, the levels are %d and %d", id, BW->msg[id].lvl, BW->msg[id].direct2, level, level2);
        BW->lin.apply = b_apply;
        BW->lin.key = b_key;
        BSt init;
        Ring g = {false, 0, {}};
        init.lg[0] = g;
        bool ok = BW->lin.check(init);
        if (BW->lin.gave_up) sim::probe("histories too large to decide");
        if (!ok) {
            std::string h;
            for (auto& i : BW->lin.h) {
                h += strf(" t%d:%s(%d,%d)", i.r.th, BN[i.r.op], i.r.lg, i.r.a);
                if (i.r.op == B_DUMP) { h += i.r.marks ? "[" : "(none)"; for (int x : i.r.ids) h += strf("%d ", x); if (i.r.marks) h += "]"; }
                h += strf("@%llu-%llu", (unsigned long long)i.t0, (unsigned long long)i.t1);
            }
            sim::violate("backtrace", "no order of these calls explains what the dumps wrote (ring of the last n messages):%s", h.c_str());
        }
    }
}
void gen_backtrace(Rng& r, Plan& p) {
    int nt = r.chance(1, 4) ? 1 : (int)r.range(2, 3);
    if (r.chance(1, 4)) { p.set("async", 1); nt = 1; p.set("kind", (long)r.below(3)); p.set("q", r.range(1, 4)); }
    p.set("level", (long)r.below(7));
    if (r.chance(1, 3)) p.set("level2", (long)r.below(7));
    bool big = r.chance(1, 6);
    if (r.chance(1, 4)) { p.set("f.sink_throw", 1500); p.set("fmax.sink_throw", 4); }
    p.add(0, "enable", (long)r.below(6));
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(2, nt == 1 ? 30 : 10);
        for (int i = 0; i < n; i++) {
            int w = (int)r.below(20);
            if (nt == 1 && r.chance(1, 10)) { p.add(t, r.chance(1, 2) ? "swap" : "move", 0, 0, 0, (long)r.below(2)); continue; }
            int op = w < 12 ? B_LOG : w < 16 ? B_DUMP : w < 18 ? B_ENABLE : w < 19 ? B_DISABLE : B_CLONE;
            static const long sz[] = {0, 3, 30, 100, 246, 247, 248, 249, 250, 251, 400, 900};
            static const long bsz[] = {1023, 1024, 1100, 4096, 4097, 20000};
            if (op == B_LOG) p.add(t, "log", (long)r.below(7), big && r.chance(1, 6) ? bsz[r.below(6)] : sz[r.below(r.chance(1, 3) ? 12 : 3)], (long)r.below(4), (long)r.below(2));
            else p.add(t, BN[op], (long)r.below(9), 0, 0, (long)r.below(2));
        }
    }
    coarse_clock_gen(r, p);
}

// ------------------------------------------------------------------------------------------------ reconfiguration
// log level, flush level and sink level change while threads log: every message is judged by levels that were in force
struct CMsg { int th, lvl; u64 t0, t1; int got[3]; u64 at[3]; int by[3]; };
struct CChg { int what, v; u64 t0, t1; };            // what: 0 log level, 1 flush level, 2.. sink level
struct CFmt { int id, sink, v; u64 d0, d1; };         // a delivery: which format the line had
struct CWorld { std::vector<CFmt> fmt; std::vector<CMsg> msg; std::vector<CChg> chg; struct E { char k; int sink, th, id; u64 at; }; std::vector<E> ev; bool async; int last; std::string last_fmt; };
CWorld* CW;
void c_range(int what, u64 t0, u64 t1, int& lo, int& hi) {
    lo = 99; hi = -1;
    for (auto& x : CW->chg) {
        if (x.what != what || x.t0 > t1) continue;
        bool hidden = false;
        for (auto& y : CW->chg) if (y.what == what && y.t0 > x.t1 && y.t1 < t0) hidden = true;
        if (!hidden) { lo = std::min(lo, x.v); hi = std::max(hi, x.v); }
    }
}
enum { C_FMT = 10, C_PAT = 20 };                      // C_PAT: what get_pattern() says
                                 // what: C_FMT + k: format of sink k
// a user's own formatter
class tag_formatter : public ll::sinks::formatter {
public:
    explicit tag_formatter(int v) : v_(v) {}
    void format(const ll::base::log_msg& m, ll::fmt_memory_buf& buf) override {
        std::string s = strf("f%d|", v_);
        buf.append(s.data(), s.data() + s.size());
        buf.append(m.msg.data(), m.msg.data() + m.msg.size());
        buf.push_back('\n');
    }
    ll::formatter_uni_ptr clone() const override { return ll::make_unique<tag_formatter>(v_); }
    int v_;
};
ll::formatter_uni_ptr c_formatter(int v) {
    if (v % 2) return ll::make_unique<tag_formatter>(v);
    return ll::make_unique<ll::sinks::pattern_formatter>(strf("f%d|%%v", v), "\n");
}
class c_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    explicit c_sink(int i) : i_(i) {}
protected:
    void output_(const ll::base::log_msg& m) override {
        std::string s(m.msg.data(), m.msg.size());
        u64 d0 = sim::stamp();
        sim::yield_point();
        ll::fmt_memory_buf buf;
        formatter_->format(m, buf);
        std::string line(buf.data(), buf.size());
        SIM_QUIET;
        size_t id = strtoul(s.c_str(), nullptr, 10);
        CFmt cf = {(int)id, i_, atoi(line.c_str() + (line.size() ? 1 : 0)), d0, sim::stamp()};
        CHECK(line == strf("f%d|", cf.v) + s + "\n", "format", "message '%.40s' became the line '%.60s', which no format gives", s.c_str(), line.c_str());
        CW->fmt.push_back(cf);
        std::string().swap(line);
        CHECK(id < CW->msg.size() && (int)m.level == CW->msg[id].lvl, "corrupted", "the sink got '%.60s' of level %d", s.c_str(), (int)m.level);
        std::string().swap(s);
        CW->msg[id].got[i_]++;
        CW->msg[id].at[i_] = sim::stamp();
        CWorld::E e = {'o', i_, sim::self(), (int)id, CW->msg[id].at[i_]};
        CW->ev.push_back(e);
    }
    void flush_() override {
        sim::yield_point();
        SIM_QUIET;
        CWorld::E e = {'f', i_, sim::self(), -1, sim::stamp()};
        CW->ev.push_back(e);
    }
    int i_;
};
// a pattern read back is one that was in force
void c_pattern(const std::string& got, u64 t0) {
    SIM_QUIET;
    bool ok = false;
    for (auto& x : CW->chg) {
        if (x.what != C_PAT || strf("f%d|%%v", x.v) != got) continue;
        ok = true;
        for (auto& y : CW->chg) if (y.what == C_PAT && y.t0 > x.t1 && y.t1 < t0) ok = false;
    }
    CHECK(ok, "pattern-read", "get_pattern() returned '%.60s', which was not in force", got.c_str());
}
// a copied, moved or swapped logger keeps its settings
void c_settings(ll::logger& l, const char* how, const std::string& name, const std::vector<ll::sink_shr_ptr>& sinks, int level, int flush, const std::string& pattern) {
    CHECK(l.name() == name && l.sinks() == sinks, "copy", "a %s logger has another name or other sinks", how);
    CHECK((int)l.get_log_level() == level && (int)l.get_flush_level() == flush, "copy", "a %s logger has the levels %d and %d instead of %d and %d", how, l.get_log_level(), l.get_flush_level(), level, flush);
    CHECK(l.get_pattern() == pattern, "copy", "a %s logger has the pattern '%s' instead of '%s'", how, l.get_pattern().c_str(), pattern.c_str());
}
void run_reconfig(const Plan& p, int) {
    { SIM_QUIET; CW = new CWorld(); CW->async = p.get("async") != 0; CW->last = -1; }
    const int ns = (int)p.get("ns", 1);
    const bool async = p.get("async") != 0;
    {
        std::vector<ll::sink_shr_ptr> sinks;
        for (int i = 0; i < ns; i++) sinks.push_back(std::make_shared<c_sink>(i));
        ll::thread_pool_shr_ptr pool;
        ll::logger_shr_ptr lg;
        if (async) { pool = make_pool((int)p.get("kind"), (size_t)p.get("q", 2), (size_t)p.get("w", 1)); lg = std::make_shared<ll::async_logger>("re", sinks.begin(), sinks.end(), pool); }
        else lg = std::make_shared<ll::logger>("re", sinks.begin(), sinks.end());
        bool reg = p.get("reg") != 0;
        if (reg) ll::initialize_logger(lg);
        lg->set_pattern("f0|%v");
        lg->set_log_level(L_(p.get("v0")));
        lg->set_flush_level(L_(p.get("v1", 6)));
        {
            SIM_QUIET;
            CChg c = {0, (int)p.get("v0"), 0, sim::stamp()};
            CW->chg.push_back(c);
            c.what = 1; c.v = (int)p.get("v1", 6); CW->chg.push_back(c);
            for (int i = 0; i < ns; i++) { c.what = 2 + i; c.v = 0; CW->chg.push_back(c); }
            for (int i = 0; i < ns; i++) { c.what = C_FMT + i; c.v = 0; CW->chg.push_back(c); }
            c.what = C_PAT; c.v = 0; CW->chg.push_back(c);
        }
        std::atomic<int> formats(1);
        run_threads(p.nthreads(), [&](int t) {
            for (auto& o : ops_of(p, t)) {
                if (o.name == "log") {
                    size_t id;
                    { SIM_QUIET; CMsg m; memset(&m, 0, sizeof m); m.th = sim::self(); m.lvl = (int)(o.a[0] % 7); m.t0 = sim::stamp(); m.t1 = ~0ull; id = CW->msg.size(); CW->msg.push_back(m); }
                    int l = (int)(o.a[0] % 7);
                    std::string s;
                    { SIM_QUIET; s = std::to_string(id); }
                    switch (o.a[1] % 4) {
                    case 0: lg->log(L_(l), "{}", id); break;
                    case 1: lg->log(L_(l), ll::fmt_string_view(s)); break;
                    case 2: lg->log(L_(l), id); break;
                    default:
                        if (l == 0) lg->trace("{}", id); else if (l == 1) lg->debug("{}", id); else if (l == 2) lg->info("{}", id); else if (l == 3) lg->warn("{}", id);
                        else if (l == 4) lg->error("{}", id); else if (l == 5) lg->critical("{}", id); else lg->log(L_(l), "{}", id);
                    }
                    SIM_QUIET;
                    std::string().swap(s);
                    CW->msg[id].t1 = sim::stamp();
                } else if (o.name == "set") {
                    int what = (int)(o.a[0] % (2 + ns)), v = (int)(o.a[1] % 7);
                    size_t k;
                    { SIM_QUIET; CChg c = {what, v, sim::stamp(), ~0ull}; k = CW->chg.size(); CW->chg.push_back(c); }
                    if (what == 0) { if (reg && o.a[2] == 1) ll::set_log_level("re", L_(v)); else if (reg && o.a[2] == 2) ll::set_global_log_level(L_(v)); else lg->set_log_level(L_(v)); }
                    else if (what == 1) { if (reg && o.a[2] == 1) ll::set_flush_level("re", L_(v)); else if (reg && o.a[2] == 2) ll::set_global_flush_level(L_(v)); else lg->set_flush_level(L_(v)); }
                    else sinks[what - 2]->set_level(L_(v));
                    SIM_QUIET;
                    CW->chg[k].t1 = sim::stamp();
                } else if (o.name == "get") {
                    u64 t0 = sim::stamp();
                    // ... of the logger, or of a copy made at this moment
                    ll::logger_shr_ptr from = o.a[0] ? lg->clone("copy") : lg;
                    int a = from->get_log_level(), b = from->get_flush_level(), c = sinks[0]->get_level();
                    std::string pat = from->get_pattern();
                    CHECK(from->sinks() == sinks && from->name() == (o.a[0] ? "copy" : "re") && from->is_async() == async, "copy", "a copy has other sinks, another name or kind than its original");
                    from.reset();
                    c_pattern(pat, t0);
                    SIM_QUIET;
                    int lo, hi;
                    c_range(0, t0, sim::stamp(), lo, hi); CHECK(a >= lo && a <= hi, "level-read", "get_log_level() returned %d, possible are %d to %d", a, lo, hi);
                    c_range(1, t0, sim::stamp(), lo, hi); CHECK(b >= lo && b <= hi, "level-read", "get_flush_level() returned %d, possible are %d to %d", b, lo, hi);
                    c_range(2, t0, sim::stamp(), lo, hi); CHECK(c >= lo && c <= hi, "level-read", "get_level() returned %d, possible are %d to %d", c, lo, hi);
                } else if (o.name == "pat") {
int v = formats.fetch_add(1), k = (int)(o.a[1] % ns), how = (int)(o.a[0] % 7);
                    if (!reg && (how == 4 || how == 5)) how = 3;
                    bool all = how >= 3;
                    size_t c0;
                    { SIM_QUIET; c0 = CW->chg.size(); for (int i = 0; i < ns; i++) if (all || i == k) { CChg c = {C_FMT + i, v, sim::stamp(), ~0ull}; CW->chg.push_back(c); } if (how == 6) { CChg c = {C_PAT, v, sim::stamp(), ~0ull}; CW->chg.push_back(c); } }
                    std::string pat = strf("f%d|%%v", v);
                    switch (how) {
                    case 0: sinks[k]->set_pattern(pat); break;
                    case 1: case 2: sinks[k]->set_formatter(c_formatter(v)); break;
                    case 3: lg->set_formatter(c_formatter(v)); break;
                    case 4: ll::set_global_formatter(c_formatter(v)); break;
                    case 5: ll::set_global_pattern(pat); break;
                    default: if (reg && v % 2) ll::set_pattern("re", pat); else lg->set_pattern(pat);
                    }
                    SIM_QUIET;
                    for (size_t i = c0, n = 0; n < (all ? (size_t)ns : 1) + (how == 6); i++) if (CW->chg[i].v == v && CW->chg[i].what >= C_FMT) { CW->chg[i].t1 = sim::stamp(); n++; }
                }
            }
        });
        // nothing changes any more: all sinks have the pattern the logger says, if it only was set through the logger
        bool only6 = true;
        { SIM_QUIET; for (auto& o : p.ops) if (o.name == "pat" && o.a[0] % 7 != 6) only6 = false; }
        if (only6) {
            size_t id;
            for (int i = 0; i < ns; i++) sinks[i]->set_level(lv::trace);
            { SIM_QUIET; for (int i = 0; i < ns; i++) { CChg c = {2 + i, 0, sim::stamp(), sim::stamp()}; CW->chg.push_back(c); } }
            { SIM_QUIET; CMsg m; memset(&m, 0, sizeof m); m.th = sim::self(); m.lvl = 6; m.t0 = sim::stamp(); m.t1 = ~0ull; id = CW->msg.size(); CW->msg.push_back(m); CW->last = (int)id; CW->last_fmt = lg->get_pattern(); }
            lg->log(lv::off, "{}", id);
            SIM_QUIET;
            CW->msg[id].t1 = sim::stamp();
        }
        if (p.get("copies")) {
            std::vector<ll::sink_shr_ptr> none;
            std::string pat = lg->get_pattern();
            int l0 = lg->get_log_level(), l1 = lg->get_flush_level();
            ll::logger a(*lg), b("b", none.begin(), none.end());
            c_settings(a, "copied", "re", sinks, l0, l1, pat);
            ll::logger m(std::move(a));
            c_settings(m, "moved", "re", sinks, l0, l1, pat);
            b.set_pattern("b|%v");
            b.set_log_level(L_(p.get("v1", 6)));
            b.set_flush_level(L_(p.get("v0")));
            m.swap(b);
            c_settings(b, "swapped", "re", sinks, l0, l1, pat);
            c_settings(m, "swapped", "b", none, (int)p.get("v1", 6), (int)p.get("v0"), "b|%v");
            m.swap(b);
            c_settings(m, "twice swapped", "re", sinks, l0, l1, pat);
            c_settings(*lg, "copied-from", "re", sinks, l0, l1, pat);
        }
        u64 end = 0;
        if (async) {
            if (reg) { ll::remove_all(); }
            pool.reset();               // the destructor drains
        }
        SIM_QUIET;
        end = sim::stamp();
        for (size_t id = 0; id < CW->msg.size(); id++) {
            const CMsg& m = CW->msg[id];
            int lo, hi;
            c_range(0, m.t0, m.t1, lo, hi);
            bool may = m.lvl >= lo, must = m.lvl >= hi;
            for (int k = 0; k < ns; k++) {
                int slo, shi;
                c_range(2 + k, m.t0, async ? end : m.t1, slo, shi);
                CHECK(m.got[k] <= 1, "duplicate", "message %zu reached sink %d %d times", id, k, m.got[k]);
                if (m.got[k]) CHECK(may && m.lvl >= slo, "level-gate", "message %zu of level %d reached sink %d although the log level was at least %d and the level of the sink at least %d", id, m.lvl, k, lo, slo);
                else CHECK(!(must && m.lvl >= shi), "level-gate", "message %zu of level %d did not reach sink %d although the log level was at most %d and the level of the sink at most %d", id, m.lvl, k, hi, shi);
            }
        }
        if (CW->last >= 0) for (auto& f : CW->fmt)
            if (f.id == CW->last) CHECK(CW->last_fmt == strf("f%d|%%v", f.v), "pattern-read", "sink %d writes in format %d although the pattern of its logger is '%s'", f.sink, f.v, CW->last_fmt.c_str());
        // each line has a format that was in force at some moment of its delivery
        for (auto& f : CW->fmt) {
            bool ok = false;
            for (auto& x : CW->chg) {
                if (x.what != C_FMT + f.sink || x.v != f.v || x.t0 > f.d1) continue;
                bool hidden = false;
                for (auto& y : CW->chg) if (y.what == x.what && y.t0 > x.t1 && y.t1 < f.d0) hidden = true;
                if (!hidden) ok = true;
            }
            CHECK(ok, "format-in-force", "sink %d wrote message %d in format %d, which was not in force during the delivery", f.sink, f.id, f.v);
        }
        // flush level (a message that no sink takes may flush unseen, so "not flushed" is judged only while all sinks take all levels)
        bool all_taken = true;
        for (auto& c : CW->chg) if (c.what >= 2 && c.what < C_FMT && c.v > 0) all_taken = false;
        for (size_t i = 0; i < CW->ev.size(); i++) {
            const CWorld::E& e = CW->ev[i];
            if (e.k != 'o') continue;
            const CMsg& m = CW->msg[e.id];
            int lo, hi;
            c_range(1, m.t0, async ? end : m.t1, lo, hi);
            for (int k = 0; k < ns; k++) {
                bool flushed = false;
                for (size_t j = i + 1; j < CW->ev.size() && !flushed; j++) {
                    if (CW->ev[j].th != e.th) continue;
                    if (CW->ev[j].k == 'f' && CW->ev[j].sink == k) flushed = true;
                    else if (CW->ev[j].k == 'o' && CW->ev[j].id != e.id) break;
                }
                if (m.lvl >= hi && m.lvl != 6) CHECK(flushed, "flush-level", "message %d of level %d was not followed by a flush of sink %d although the flush level was at most %d", e.id, m.lvl, k, hi);
                if (all_taken && (m.lvl < lo || m.lvl == 6)) CHECK(!flushed, "flush-level", "message %d of level %d was followed by a flush of sink %d although the flush level was at least %d", e.id, m.lvl, k, lo);
            }
        }
        CHECK(count_reports(sim::vfs::out(2)) == 0, "report", "an error was reported: %.100s", sim::vfs::out(2).c_str());
    }
    if (p.get("reg")) ll::close();
}
void gen_reconfig(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 4);
    p.set("ns", r.range(1, 3));
    p.set("v0", (long)r.below(7)); p.set("v1", (long)r.below(7));
    if (r.chance(1, 2)) { p.set("async", 1); p.set("kind", (long)r.below(3)); p.set("q", r.range(1, 8)); p.set("w", r.range(1, 2)); }
    if (r.chance(1, 2)) p.set("reg", 1);
    bool only2 = r.chance(1, 3), pats = r.chance(1, 2), only6 = r.chance(1, 3);
    if (r.chance(1, 4)) p.set("copies", 1);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 12);
        for (int i = 0; i < n; i++) {
            int w = (int)r.below(12);
            if (w < 7) p.add(t, "log", (long)r.below(7), (long)r.below(4));
            else if (w < 10) p.add(t, "set", only2 ? (long)r.below(2) : (long)r.below(5), (long)r.below(7), (long)r.below(3));
            else if (w < 11 && (!pats || r.chance(1, 2))) p.add(t, "get", r.below(2));
            else p.add(t, "pat", only6 ? 6 : (long)r.below(7), (long)r.below(3));
        }
    }
}

// ------------------------------------------------------------------------------------------------ factories
struct FLog { int name, type; bool async; u64 t0, t1; ll::logger* ptr; int sink; bool reged; };
struct FMsg { int lg; u64 t0, t1; int got; };
struct FWorld { std::vector<FLog> lg; std::vector<FMsg> msg; int wrong; std::vector<int> sink_lg; };
FWorld* FW;
class f_sink : public ll::sinks::basic_sink<std::mutex> {
public:
    f_sink(int i, bool fail) : i_(i) { sim::yield_point(); if (fail) throw std::runtime_error("sink cannot be created"); }
protected:
    void output_(const ll::base::log_msg& m) override {
        std::string s(m.msg.data(), m.msg.size());
        SIM_QUIET;
        size_t id = strtoul(s.c_str(), nullptr, 10);
        CHECK(id < FW->msg.size() && FW->lg[FW->msg[id].lg].sink == i_, "wrong-sink", "sink %d got the message '%.40s' of another logger", i_, s.c_str());
        FW->msg[id].got++;
        std::string().swap(s);
    }
    void flush_() override {}
    int i_;
};
void run_factory(const Plan& p, int) {
    { SIM_QUIET; FW = new FWorld(); FW->wrong = 0; }
    const int glevel = (int)p.get("glevel", 0), gflush = (int)p.get("gflush", 6);
    const bool single = p.get("types") < 3;        // only one kind of asynchronous factory in this run
    if (p.get("preinit")) {
        size_t q = (size_t)p.get("q", 2), w = (size_t)p.get("w", 1);
        int k = (int)p.get("pk");
        if (k == 0) ll::initialize_thread_pool<ll::base::lock_thread_pool>(q, w);
        else if (k == 1) ll::initialize_thread_pool<ll::base::lockfree_thread_pool>(q, w);
        else ll::initialize_thread_pool<ll::base::lockfree_concurrent_thread_pool>(q, w);
        auto tp = ll::get_thread_pool();
        CHECK(tp && tp->message_queue_size() == q && tp->threads_size() == w && (int)tp->message_queue_type() == k, "pool", "initialize_thread_pool() registered another pool than asked for");
    }
    ll::set_global_log_level(L_(glevel));
    ll::set_global_flush_level(L_(gflush));
    {
        std::vector<ll::logger_shr_ptr> own(64);
        std::atomic<int> cnt(0);
        int threads0 = sim::live_threads();
        (void)threads0;
        run_threads(p.nthreads(), [&](int t) {
            int mine = -1;
            for (auto& o : ops_of(p, t)) {
                if (o.name == "create") {
                    int i = cnt.fetch_add(1);
                    if (i >= 64) continue;
                    int type = (int)(o.a[0] % 4);
                    if (type && single) type = 1 + (int)p.get("types");
                    std::string nm = o.a[1] < 3 ? strf("dup%ld", o.a[1]) : strf("own%d", i);
                    bool fail = o.a[2] == 7;
                    size_t k;
                    { SIM_QUIET; FLog f = {(int)o.a[1], type, type != 0, sim::stamp(), ~0ull, nullptr, i, false}; k = FW->lg.size(); FW->lg.push_back(f); }
                    bool threw = false;
                    ll::logger_shr_ptr l;
                    try {
                        if (type == 0) l = o.a[3] % 2 ? ll::create<f_sink>(nm, i, fail) : ll::sync_factory::create<f_sink>(nm, i, fail);
                        else if (type == 1) l = o.a[3] % 2 ? ll::create_async_lock<f_sink>(nm, i, fail) : ll::async_factory_lock::create<f_sink>(nm, i, fail);
                        else if (type == 2) l = o.a[3] % 2 ? ll::create_async_lockfree<f_sink>(nm, i, fail) : ll::async_factory_lockfree::create<f_sink>(nm, i, fail);
                        else l = o.a[3] % 2 ? ll::create_async_lockfree_concurrent<f_sink>(nm, i, fail) : ll::async_factory_lockfree_concurrent::create<f_sink>(nm, i, fail);
                    } catch (const std::runtime_error&) { threw = true; }
                    CHECK(threw == fail, "factory", fail ? "a factory swallowed the exception of the sink's constructor" : "a factory threw");
                    if (fail) { SIM_QUIET; FW->lg[k].t1 = sim::stamp(); FW->lg[k].type = FW->lg[k].type; continue; }
                    CHECK(l && l->name() == nm && l->sinks().size() == 1 && l->is_async() == (type != 0), "factory", "the factory returned a logger with another name, sink or kind");
                    CHECK(l->get_log_level() == L_(glevel) && l->get_flush_level() == L_(gflush), "global-settings", "the new logger has levels %d and %d, the global ones are %d and %d", l->get_log_level(), l->get_flush_level(), glevel, gflush);
                    bool reged = ll::get_logger(nm) == l;
                    {
                        SIM_QUIET;
                        FW->lg[k].t1 = sim::stamp(); FW->lg[k].ptr = l.get(); FW->lg[k].reged = reged;
                    }
                    own[k] = l;
                    mine = (int)k;
                } else if (o.name == "log" && mine >= 0 && own[mine]) {
                    size_t id;
                    { SIM_QUIET; FMsg m = {mine, sim::stamp(), ~0ull, 0}; id = FW->msg.size(); FW->msg.push_back(m); }
                    own[mine]->log(lv::critical, "{}", id);
                    if (o.a[0]) own[mine]->flush();
                    SIM_QUIET;
                    FW->msg[id].t1 = sim::stamp();
                } else if (o.name == "drop" && mine >= 0) {
                    own[mine].reset();
                    mine = -1;
                } else if (o.name == "flush_all") ll::flush_all();
                else if (o.name == "remove") ll::remove_logger(strf("dup%ld", o.a[0] % 3));
            }
        });
        // what is registered now works: a message to each reaches its sink
        std::vector<ll::logger_shr_ptr> reg;
        ll::exec_all([&](ll::logger_shr_ptr l) { reg.push_back(l); });
        auto tp = ll::get_thread_pool();
        if (tp) {
            // pools made by factories have the size of the one they replace, or the default one
            size_t q = p.get("preinit") ? (size_t)p.get("q", 2) : ll::base::default_queue_size, w = p.get("preinit") ? (size_t)p.get("w", 1) : ll::base::default_threads_num;
            CHECK(tp->message_queue_size() == q && tp->threads_size() == w, "pool", "the registered pool has room for %zu messages and %zu threads instead of %zu and %zu", tp->message_queue_size(), tp->threads_size(), q, w);
        }
        for (auto& l : reg) {
            if (l->name() == "default_logger") continue;
            int k = -1;
            size_t id;
            {
                SIM_QUIET;
                for (size_t i = 0; i < FW->lg.size(); i++) if (FW->lg[i].ptr == l.get() && (own[i] == l || !own[i])) k = (int)i;
                if (k < 0) sim::violate("registered", "the registry holds a logger '%s' that no factory returned", l->name().c_str());
                FMsg m = {k, sim::stamp(), ~0ull, 0};
                id = FW->msg.size();
                FW->msg.push_back(m);
            }
            l->log(lv::critical, "{}", id);
            l->flush();
            SIM_QUIET;
            FW->msg[id].t1 = sim::stamp();
            bool fifo = !FW->lg[k].async || !tp || tp->threads_size() == 1 || tp->message_queue_type() == ll::base::lockfree_concurrent;
            if (fifo) CHECK(FW->msg[id].got == 1, "registered", "the registered logger '%s' did not deliver a message (%d times)", l->name().c_str(), FW->msg[id].got);
        }
        {
            SIM_QUIET;
            bool removed = false, mixed = p.get("preinit") != 0 && p.get("pk") != p.get("types");
            int types = 0;
            for (auto& o : p.ops) if (o.name == "remove") removed = true;
            for (auto& f : FW->lg) if (f.async) types |= 1 << f.type;
            mixed |= (types & (types - 1)) != 0;
            // all factories of one type: nothing that was created is dropped
            std::map<std::string, int> by;
            for (auto& l : reg) by[l->name()]++;
            for (size_t i = 0; i < FW->lg.size(); i++) {
                const FLog& f = FW->lg[i];
                if (!f.ptr) continue;
                std::string nm = f.name < 3 ? strf("dup%d", f.name) : strf("own%d", f.sink);
                CHECK(by[nm] <= 1, "registered", "the registry holds the name '%s' %d times", nm.c_str(), by[nm]);
                bool stays = !f.async || !(types & (types - 1));
                if (stays && f.name >= 3) CHECK(by[nm] == 1 && f.reged, "registered", "the logger '%s' was created and is not registered", nm.c_str());
                if (!mixed && f.name < 3 && !removed) CHECK(by[nm] == 1, "registered", "a logger '%s' was created and none is registered", nm.c_str());
            }
        }
        // give everything up: the pool drains
        reg.clear();
        tp.reset();
        {
            SIM_QUIET;
            // remember which async loggers were created with a pool of another type afterwards: their messages may be refused
        }
        own.clear();
        ll::close();
        SIM_QUIET;
        int refused = 0;
        int types = 0;
        for (auto& f : FW->lg) if (f.async) types |= 1 << f.type;
        for (size_t id = 0; id < FW->msg.size(); id++) {
            const FLog& f = FW->lg[FW->msg[id].lg];
            CHECK(FW->msg[id].got <= 1, "duplicate", "message %zu arrived %d times", id, FW->msg[id].got);
            if (FW->msg[id].got) continue;
            // allowed only if the pool was replaced by a factory of another type since the creation of this logger
            bool can = false;
            if (f.async) for (auto& g : FW->lg) if (g.async && g.type != f.type && g.t1 > f.t0 && g.t0 < FW->msg[id].t1) can = true;
            CHECK(can, "lost", "message %zu of a created logger was lost (type %d)", id, f.type);
            refused++;
        }
        std::string err = sim::vfs::out(2);
        if (refused) { CHECK(count_reports(err) >= refused, "lost-silently", "%d messages were lost and %d errors reported", refused, count_reports(err)); sim::probe("messages refused after a pool was replaced", refused); }
        CHECK(sim::live_threads() == 1, "thread-leak", "%d threads are left after close()", sim::live_threads() - 1);
    }
}
void gen_factory(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 4);
    p.set("types", r.chance(1, 2) ? 3 : (long)r.below(3));
    // the default pool is large: without one registered first only the lock-free kinds, which make no elements in advance
    p.set("preinit", !(p.get("types") % 3 && r.chance(1, 12)));
    p.set("pk", (long)r.below(3));
    p.set("q", r.range(1, 8)); p.set("w", r.range(1, 2));
    p.set("glevel", (long)r.below(6)); p.set("gflush", (long)r.below(7));
    bool rem = r.chance(1, 4);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 3);
        for (int i = 0; i < n; i++) {
            p.add(t, "create", (long)r.below(4), r.chance(1, 3) ? (long)r.below(3) : 3, r.chance(1, 20) ? 7 : 0, (long)r.below(2));
            int m = (int)r.below(3);
            for (int j = 0; j < m; j++) p.add(t, "log", (long)r.below(2));
            if (r.chance(1, 8)) p.add(t, "drop");
            if (rem && r.chance(1, 4)) p.add(t, "remove", (long)r.below(3));
            if (r.chance(1, 12)) p.add(t, "flush_all");
        }
    }
}
sim::Scenario s1("reg_linear", gen_reg, run_reg), s2("reg_default", gen_default, run_default), s3("backtrace", gen_backtrace, run_backtrace), s4("reconfig", gen_reconfig, run_reconfig), s5("factory", gen_factory, run_factory);
}

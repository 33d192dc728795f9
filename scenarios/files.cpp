// File sinks on the simulated disk: durability over process crashes and power loss, rolling, I/O errors, opening.
#include "common.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
namespace {
// ---------------------------------------------------------------------------------------- the record of what was logged
// lives in memory that survives a simulated crash
struct PMsg { int th, seq, size; bool acked, must; u64 t0, t1; };
enum { PMAX = 1200, PREF = 400 << 10 };
struct Persist {
    int phase;                 // what the last incarnation was doing: 0 nothing, 1 opening, 2 running, 3 closed
    int n;                     // messages of the current period (since the last verification)
    int total;                 // id of the first message of the period
    PMsg m[PMAX];
    int npref;                 // file content at the start of the period
    char pref[PREF];
};
Persist* P;

std::string text_of(int id, int size) {
    std::string s = strf("%d|", id);
    for (int i = 0; i < size; i++) s += (char)('a' + (id * 7 + i * 3) % 26);
    s += "|\n";
    return s;
}
std::string text_of(int i) { return text_of(P->total + i, P->m[i].size); }

int begin_msg(int th, int seq, int size, bool must = false) {
    SIM_QUIET;
    if (P->n >= PMAX) sim::infra_error("too many messages");
    PMsg& m = P->m[P->n];
    memset((void*)&m, 0, sizeof m);
    m.th = th; m.seq = seq; m.size = size; m.must = must; m.t0 = sim::stamp();
    return P->n++;
}
void log_msg_to(const std::shared_ptr<ll::logger>& lg, int th, int seq, int size, int level, bool acks, bool must = false) {
    int i = begin_msg(th, seq, size, must);
    std::string s;
    { SIM_QUIET; s = text_of(i); s.resize(s.size() - 1); }
    lg->log((ll::level::level_enum)level, "{}", s);
    SIM_QUIET;
    P->m[i].t1 = sim::stamp();
    if (acks) P->m[i].acked = true;
    std::string().swap(s);
}
void ack_flush(int th, u64 t0, bool all) {
    SIM_QUIET;
    for (int i = 0; i < P->n; i++) if (P->m[i].t1 && P->m[i].t1 < t0 && (all || P->m[i].th == th)) P->m[i].acked = true;
}

struct Found { int i; bool whole; };
// splits content into messages of this period; a torn last line is allowed only if torn_ok
std::vector<Found> parse(const std::string& c, bool torn_ok, const char* what, std::vector<char>& seen) {
    std::vector<Found> v;
    size_t p = 0;
    while (p < c.size()) {
        size_t e = c.find('\n', p);
        std::string line = c.substr(p, e == std::string::npos ? std::string::npos : e - p + 1);
        bool whole = e != std::string::npos;
        if (!whole) {
            CHECK(torn_ok, "torn", "%s ends inside a line: '%.60s'", what, line.c_str());
            // the beginning of some message
            bool ok = false;
            for (int i = 0; i < P->n && !ok; i++) if (!seen[i]) { std::string t = text_of(i); if (t.compare(0, line.size(), line) == 0) { ok = true; Found f = {i, false}; v.push_back(f); } }
            CHECK(ok, "corrupted", "%s ends with '%.60s', which is the beginning of no message", what, line.c_str());
            break;
        }
        char* end = nullptr;
        long id = strtol(line.c_str(), &end, 10);
        CHECK(end != line.c_str() && id >= P->total && id < P->total + P->n, "corrupted", "%s contains the line '%.60s', which nobody logged", what, line.c_str());
        int i = (int)id - P->total;
        CHECK(line == text_of(i), "corrupted", "%s: message %ld reads '%.60s' (%zu bytes) instead of '%.60s' (%zu bytes)", what, id, line.c_str(), line.size(), text_of(i).c_str(), text_of(i).size());
        CHECK(!seen[i], "duplicate", "%s: message %ld appears twice", what, id);
        seen[i] = 1;
        Found f = {i, true};
        v.push_back(f);
        p = e + 1;
    }
    return v;
}
// order and closedness: v is what is on the disk, in order. per_thread: only messages of one thread are ordered.
void check_history(const std::vector<Found>& v, bool crashed, bool may_lose, bool per_thread, const char* what) {
    for (size_t a = 0; a < v.size(); a++)
        for (size_t b = a + 1; b < v.size(); b++) {
            const PMsg &x = P->m[v[a].i], &y = P->m[v[b].i];
            if (per_thread && x.th != y.th) continue;
            CHECK(!(y.t1 && y.t1 < x.t0), "order", "%s: message %d stands before message %d, which was logged earlier", what, P->total + v[a].i, P->total + v[b].i);
            CHECK(!(x.th == y.th && y.seq < x.seq), "order", "%s: message %d stands before the earlier message %d of the same thread", what, P->total + v[a].i, P->total + v[b].i);
        }
    if (may_lose) return;
    std::vector<char> whole(P->n, 0), any(P->n, 0);
    for (auto& f : v) { any[f.i] = 1; if (f.whole) whole[f.i] = 1; }
    for (int i = 0; i < P->n; i++) {
        const PMsg& x = P->m[i];
        if (whole[i]) continue;
        if (!crashed) CHECK(false, "lost", "%s: message %d of thread %d is missing although the sink was closed", what, P->total + i, x.th);
        CHECK(!x.acked, "lost-flushed", "%s: message %d of thread %d was flushed before the crash and is missing", what, P->total + i, x.th);
        for (int j = 0; j < P->n; j++)
            if (any[j] && x.t1 && x.t1 < P->m[j].t0 && (!per_thread || x.th == P->m[j].th))
                CHECK(false, "lost", "%s: message %d is missing although the later message %d is there", what, P->total + i, P->total + j);
    }
}
void new_period(const std::string& content) {
    SIM_QUIET;
    P->total += P->n;
    P->n = 0;
    if (content.size() > PREF) sim::infra_error("file too large for the record");
    memcpy(P->pref, content.data(), content.size());
    P->npref = (int)content.size();
}

// ---------------------------------------------------------------------------------------- durability of a basic file sink
const char* const PATHS[] = {"log.txt", "logs/app.log", "/var/log/learnlog/deep/er/app", "a/b/c/d.txt"};
void verify_durable(const Plan& p, const std::string& path, bool crashed) {
    SIM_QUIET;
    std::string c = sim::vfs::read_file(path), pre(P->pref, P->npref);
    bool trunc = p.get("trunc") != 0, as = p.get("async") != 0;
    if (trunc) {
        if (P->phase == 1 && c == pre) { new_period(c); return; }     // died before it was truncated
        pre.clear();
    }
    CHECK(c.size() >= pre.size() && c.compare(0, pre.size(), pre) == 0, "overwritten", "%zu bytes that were in the file when it was opened are gone or changed (file has %zu bytes)", pre.size(), c.size());
    std::vector<char> seen(P->n, 0);
    std::vector<Found> v = parse(c.substr(pre.size()), crashed, "the file", seen);
    check_history(v, crashed, false, as, "the file");
    if (crashed) { sim::probe("crashes verified"); size_t lost = 0; for (int i = 0; i < P->n; i++) lost += !seen[i]; if (lost) sim::probe("messages in memory at a crash", lost); }
    new_period(c);
}
void run_durable(const Plan& p, int inc) {
    {
        SIM_QUIET;
        P = (Persist*)sim::persistent(sizeof(Persist));
        sim::vfs::set_bufsize((size_t)p.get("buf", 0));
    }
    std::string path = PATHS[p.get("path") % 4];
    if (inc > 0 && P->phase) verify_durable(p, path, P->phase != 3);
    if (inc == 0 && p.get("pre")) { SIM_QUIET; std::string s = "an old line\n"; if (p.get("pre") > 1) s += "and a torn o"; sim::vfs::write_file(path, s); }
    { SIM_QUIET; if (inc == 0) new_period(sim::vfs::read_file(path)); }
    int rounds = (int)p.get("rounds", 1), nth = p.nthreads();
    bool as = p.get("async") != 0, crash = p.has("crash_at");
    for (int rd = 0; rd < rounds; rd++) {
        P->phase = 1;
        if (crash) sim::arm_crash();
        {
            auto sink = std::make_shared<ll::sinks::basic_file_sink_mt>(path, p.get("trunc") != 0);
            P->phase = 2;
            // a second sink of its own on the same file; every message is flushed by itself
            std::shared_ptr<ll::sinks::basic_file_sink_mt> other;
            if (p.get("other")) other = std::make_shared<ll::sinks::basic_file_sink_mt>(path);
            std::shared_ptr<ll::base::thread_pool> pool;
            std::vector<std::shared_ptr<ll::logger>> lgs;
            int kind = (int)p.get("kind");
            if (as) pool = make_pool(kind, (size_t)p.get("q", 4), 1);
            for (int i = 0; i < (int)p.get("nl", 1); i++) {
                std::shared_ptr<ll::logger> lg;
                auto s = other && i ? other : sink;
                if (as) lg = std::make_shared<ll::async_logger>("L", s, pool);
                else lg = std::make_shared<ll::logger>("L", s);
                lg->set_log_level(ll::level::trace);
                lg->set_flush_level((ll::level::level_enum)p.get("fl", 6));
                lg->set_pattern("%v");
                lgs.push_back(lg);
            }
            sink.reset();
            other.reset();
            int fl = (int)p.get("fl", 6);
            run_threads(nth, [&](int t) {
                int seq = 0;
                for (auto& o : ops_of(p, t)) {
                    if (o.a[4] % rounds != rd) continue;
                    std::shared_ptr<ll::logger> lg = lgs[o.a[3] % lgs.size()];
                    if (o.name == "log") log_msg_to(lg, t, inc * 100000 + rd * 10000 + seq++, (int)o.a[0], (int)o.a[1], !as && (int)o.a[1] >= fl && o.a[1] != 6);
                    else if (o.name == "flush") {
                        u64 t0;
                        { SIM_QUIET; t0 = sim::stamp(); }
                        lg->flush();
                        ack_flush(t, t0, !as || kind == PK_LOCK);
                    } else if (o.name == "pattern") lg->set_pattern("%v");
                    else if (o.name == "sleep") sim::sleep_ns((u64)o.a[0] * 1000);
                }
            });
            lgs.clear();
            pool.reset();
        }
        sim::disarm_crash();
        P->phase = 3;
        CHECK(sim::vfs::open_fds() == 0, "fd-leak", "%d file descriptors are open after the sink was destroyed", sim::vfs::open_fds());
        verify_durable(p, path, false);
        P->phase = 0;
    }
}
void gen_durable(Rng& r, Plan& p) {
    p.set("path", (long)r.below(4));
    static const long bufs[] = {0, 16, 64, 128, 512};
    p.set("buf", bufs[r.below(5)]);
    if (r.chance(1, 4)) p.set("trunc", 1);
    if (r.chance(1, 2)) p.set("pre", r.range(1, 2));
    if (r.chance(1, 3)) { p.set("async", 1); p.set("kind", (long)r.below(3)); static const long q[] = {1, 2, 4, 16}; p.set("q", q[r.below(4)]); }
    p.set("nl", r.range(1, 2));
    if (r.chance(1, 2)) p.set("fl", r.range(0, 5));
    int rounds = r.chance(2, 3) ? 1 : 2;
    p.set("rounds", rounds);
    int nt = (int)r.range(1, 3);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 12);
        for (int i = 0; i < n; i++) {
            long rd = (long)r.below(4), lg = (long)r.below(2);
            if (r.chance(1, 5)) { p.add(t, "flush", 0, 0, 0, lg, rd); continue; }
            if (r.chance(1, 30)) { p.add(t, r.chance(1, 2) ? "pattern" : "sleep", r.range(0, 3000), 0, 0, lg, rd); continue; }
            p.add(t, "log", r.chance(1, 6) ? r.range(30, 700) : r.range(0, 30), r.chance(1, 12) ? 6 : (long)r.below(6), 0, lg, rd);
        }
    }
    if (r.chance(3, 4)) {
        static const long mx[] = {400, 1500, 5000, 20000};
        long m = mx[r.below(4)];
        p.set("crash_at", r.range(1, m));
        if (r.chance(1, 2)) p.set("crash_at1", r.range(1, m));
    }
    if (r.chance(1, 3)) { p.set("f.write_short", 3000); }
    if (r.chance(1, 5) && p.get("kind") == PK_LOCK) { p.set("f.write_slow", 1500); p.set("fmax.write_slow", 5); }
    if (r.chance(1, 4)) { p.set("other", 1); p.set("nl", 2); p.set("fl", 0); p.set("buf", 0); p.set("f.write_short", 0); }
    if (p.get("other"))
        for (auto& o : p.ops)
            if (o.name == "log" && o.a[1] == 6) o.a[1] = 5;   // what is logged at "off" is never flushed: no order against the other sink
}

// ---------------------------------------------------------------------------------------- fsync: what a power loss leaves
void run_sync(const Plan& p, int inc) {
    SIM_QUIET;
    P = (Persist*)sim::persistent(sizeof(Persist));
    std::string path = PATHS[p.get("path") % 4];
    auto verify = [&](bool lossy) {
        if (lossy) sim::vfs::power_loss((u64)p.get("pl", 1) + inc);
        std::string c = sim::vfs::read_file(path);
        std::string want(P->pref, P->npref);          // durable for sure
        CHECK(c.size() >= want.size() && c.compare(0, want.size(), want) == 0, "lost-synced", "%zu bytes were on the disk before the power loss, %zu remain", want.size(), c.size());
    };
    if (inc > 0) verify(true);
    FILE* f = nullptr;
    auto live = [&](std::function<bool()> fn) {       // real code, outside the oracle
        int q = sim::g_quiet;
        sim::g_quiet = 0;
        bool ok = true;
        try { ok = fn(); } catch (const ll::learnlog_excpt&) { ok = false; }
        sim::g_quiet = q;
        return ok;
    };
    sim::vfs::set_bufsize((size_t)p.get("buf", 0));
    std::string content = sim::vfs::read_file(path);
    if (p.get("trunc")) { P->npref = 0; content.clear(); }
    if (!live([&] { ll::base::file_base::open(&f, path, p.get("trunc") != 0); return f != nullptr; })) sim::violate("open", "a file could not be opened");
    if (p.has("crash_at")) sim::arm_crash();
    int k = 0;
    for (auto& o : p.ops) {
        if (o.name == "write") {
            ll::fmt_memory_buf b;
            std::string t = text_of(inc * 1000 + k++, (int)o.a[0]);
            b.append(t.data(), t.data() + t.size());
            if (live([&] { ll::base::file_base::write(f, path, b); return true; })) content += t;
            else sim::violate("write", "a write failed although no fault was injected");
        } else if (o.name == "flush") live([&] { ll::base::file_base::flush(f, path); return true; });
        else if (o.name == "sync") {
            u64 bad = sim::fault_count(sim::F_FSYNC_ERR), n0 = sim::vfs::stats().fsyncs;
            bool ok = live([&] { ll::base::file_base::flush(f, path); return true; }) && live([&] { ll::base::file_base::sync(f, path); return true; });
            bool failed = sim::fault_count(sim::F_FSYNC_ERR) > bad;
            CHECK(ok == !failed, "sync-result", "sync() %s although the disk's flush %s", ok ? "succeeded" : "failed", failed ? "failed" : "succeeded");
            if (ok) {
                CHECK(sim::vfs::stats().fsyncs > n0, "sync-result", "sync() returned without a request to the disk");
                if (content.size() > PREF) sim::infra_error("file too large");
                memcpy(P->pref, content.data(), content.size());
                P->npref = (int)content.size();
            }
        }
        {
            // the reported size is what is in the file
            unsigned long long sz = 0;
            if (live([&] { sz = ll::base::file_base::size(f, path); return true; }))
                CHECK(sz == sim::vfs::read_file(path).size(), "size", "size() is %llu, the file has %zu bytes", sz, sim::vfs::read_file(path).size());
        }
    }
    sim::disarm_crash();
    if (!live([&] { ll::base::file_base::close(&f, path); return true; })) sim::violate("close", "close failed although no fault was injected");
    CHECK(f == nullptr, "close", "close() left a file pointer behind");
    CHECK(sim::vfs::read_file(path) == content, "content", "the closed file has %zu bytes instead of %zu", sim::vfs::read_file(path).size(), content.size());
    CHECK(sim::vfs::open_fds() == 0, "fd-leak", "%d file descriptors are open after close()", sim::vfs::open_fds());
    verify(true);
}
void gen_sync(Rng& r, Plan& p) {
    p.set("path", (long)r.below(4));
    static const long bufs[] = {0, 16, 64, 256};
    p.set("buf", bufs[r.below(4)]);
    p.set("pl", (long)r.below(100000));
    if (r.chance(1, 4)) p.set("trunc", 1);
    int n = (int)r.range(2, 16);
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(8);
        if (k < 5) p.add(0, "write", r.range(0, r.chance(1, 5) ? 300 : 30));
        else p.add(0, k == 5 ? "flush" : "sync");
    }
    if (r.chance(1, 2)) p.set("crash_at", r.range(1, 1200));
    if (r.chance(1, 3)) { p.set("f.fsync_err", 3000); p.set("fmax.fsync_err", 4); }
    if (r.chance(1, 3)) p.set("f.write_short", 3000);
}

// ---------------------------------------------------------------------------------------- rolling
struct Snap { bool used[64]; std::string c[64]; };
const char* const BASES[] = {"log.txt", "logs/app.log", "noext", "/var/log/dir.v1/file", "d/.hidden", "./x/y.tar.gz"};
const char* const STEMS[][2] = {{"log", ".txt"}, {"logs/app", ".log"}, {"noext", ""}, {"/var/log/dir.v1/file", ""}, {"d/.hidden", ""}, {"./x/y.tar", ".gz"}};
std::string roll_name(int b, int idx, int max) {
    int dig = max >= 10000 ? 5 : max >= 1000 ? 4 : max >= 100 ? 3 : max >= 10 ? 2 : 1;
    return strf("%s_%0*d%s", STEMS[b][0], dig, idx, STEMS[b][1]);
}
std::vector<std::string> files_on_disk() {
    std::vector<std::string> v;
    for (auto& e : sim::vfs::list()) if (!sim::vfs::is_dir(e)) v.push_back(e);
    return v;
}
std::string absname(const std::string& p) {
    std::string s = p;
    if (s.compare(0, 2, "./") == 0) s = s.substr(2);
    return s[0] == '/' ? s : "/work/" + s;
}
struct RollPersist { bool used[16]; int len[16]; };
// state at the start of a period, kept in P->pref: for each index 0..max: used flag and content
void save_snap(int b, int max) {
    SIM_QUIET;
    std::string s;
    for (int i = 1; i <= max; i++) {
        std::string n = roll_name(b, i, max);
        bool u = sim::vfs::exists(n);
        std::string c = sim::vfs::read_file(n);
        int l = u ? (int)c.size() : -1;
        s.append((const char*)&l, sizeof l);
        s += c;
    }
    new_period(s);
}
void load_snap(int max, Snap& s) {
    size_t q = 0;
    for (int i = 1; i <= max; i++) {
        int l;
        memcpy(&l, P->pref + q, sizeof l);
        q += sizeof l;
        s.used[i] = l >= 0;
        if (l > 0) { s.c[i].assign(P->pref + q, l); q += l; }
    }
}
void verify_roll(const Plan& p, bool crashed) {
    SIM_QUIET;
    int b = (int)p.get("base"), max = (int)p.get("num");
    size_t limit = (size_t)p.get("size");
    bool as = p.get("async") != 0;
    Snap s;
    load_snap(max, s);
    // no other file appears
    std::set<std::string> names;
    for (int i = 1; i <= max; i++) names.insert(absname(roll_name(b, i, max)));
    for (auto& f : files_on_disk()) CHECK(names.count(f), "stray-file", "the file %s does not belong to the rolling sink's %d files", f.c_str(), max);
    // files that were there are unchanged, except the last one
    std::vector<int> mine;
    for (int i = 1; i <= max; i++) {
        std::string n = roll_name(b, i, max), c = sim::vfs::read_file(n);
        bool ex = sim::vfs::exists(n);
        if (s.used[i] && i < max) { CHECK(ex && c == s.c[i], "overwritten", "%s existed before and was changed (%zu bytes before, %zu now)", n.c_str(), s.c[i].size(), c.size()); continue; }
        if (!ex) continue;
        if (i == max && s.used[i] && c == s.c[i] && !(c.empty() && P->n == 0)) continue;
        if (i == max && s.used[i] && c.empty() && s.c[i].empty()) continue;
        mine.push_back(i);
    }
    // the files of this period are the lowest free numbers
    int k = 0;
    std::vector<int> freen;
    for (int i = 1; i < max; i++) if (!s.used[i]) freen.push_back(i);
    for (int i : mine) {
        if (i == max) continue;
        CHECK(k < (int)freen.size() && freen[k] == i, "numbering", "file number %d was written although number %d was free", i, k < (int)freen.size() ? freen[k] : 0);
        k++;
    }
    bool lower_full = k == (int)freen.size();
    bool at_max = !mine.empty() && mine.back() == max;
    // the last file may have been begun again and be as empty as it was before
    if (!at_max && crashed && lower_full && s.used[max] && sim::vfs::exists(roll_name(b, max, max)) && sim::vfs::read_file(roll_name(b, max, max)).empty()) { at_max = true; mine.push_back(max); }
    if (at_max) CHECK(lower_full, "numbering", "the last file (number %d) was written although a lower number was free", max);
    // contents
    std::vector<char> seen(P->n, 0);
    std::vector<Found> all;
    std::vector<std::vector<Found>> per;
    for (size_t x = 0; x < mine.size(); x++) {
        std::string n = roll_name(b, mine[x], max), c = sim::vfs::read_file(n);
        std::vector<Found> v = parse(c, crashed && x + 1 == mine.size(), n.c_str(), seen);
        if (c.size() > limit) CHECK(v.size() == 1, "too-large", "%s has %zu bytes in %zu messages, the limit is %zu", n.c_str(), c.size(), v.size(), limit);
        if (x + 1 < mine.size()) CHECK(!v.empty(), "empty-file", "%s is empty although a later file was begun", n.c_str());
        per.push_back(v);
        all.insert(all.end(), v.begin(), v.end());
    }
    bool gap = false;       // messages between the lower files and the last one may have been dropped when it was begun again
    for (size_t x = 0; x + 1 < per.size(); x++) {
        size_t sz = sim::vfs::read_file(roll_name(b, mine[x], max)).size();
        if (per[x + 1].empty() || !per[x + 1][0].whole) continue;
        if (mine[x + 1] == max) continue;
        CHECK(sz + text_of(per[x + 1][0].i).size() > limit, "early-roll", "%s has %zu bytes and the next message %zu, they would fit the limit of %zu, and still a new file was begun", roll_name(b, mine[x], max).c_str(), sz, text_of(per[x + 1][0].i).size(), limit);
    }
    size_t missing = 0, lost_bytes = 0;
    for (int i = 0; i < P->n; i++) if (!seen[i]) { missing++; lost_bytes += text_of(i).size(); }
    gap = at_max && missing;
    // a lost message stands between the lower files and the last one, so the order of the rest is still total
    check_history(all, crashed, gap, as, "the rolled files");
    if (gap && !crashed) {
        // only what the last file held before it was begun again may be missing: it comes before all of the last file ...
        for (int i = 0; i < P->n; i++) {
            if (seen[i]) continue;
            for (auto& f : per.back()) CHECK(!(P->m[f.i].t1 && P->m[f.i].t1 < P->m[i].t0 && (!as || P->m[f.i].th == P->m[i].th)), "lost", "message %d is missing although message %d of the last file was logged before it", P->total + i, P->total + f.i);
            for (size_t x = 0; x + 1 < per.size(); x++)
                for (auto& f : per[x]) CHECK(!(P->m[i].t1 && P->m[i].t1 < P->m[f.i].t0 && (!as || P->m[f.i].th == P->m[i].th)), "lost", "message %d is missing although message %d of an earlier file was logged after it", P->total + i, P->total + f.i);
        }
        // ... and together with the first message that is kept it did not fit
        CHECK(!per.back().empty(), "lost", "%zu messages are missing and the last file is empty", missing);
        if (!per.back().empty()) CHECK(lost_bytes + text_of(per.back()[0].i).size() > limit, "early-roll", "%zu bytes were dropped from the last file although they and the next message fit its limit of %zu", lost_bytes, limit);
        sim::probe("last file begun again");
    }
    if (mine.size() > 1) sim::probe("files rolled", mine.size() - 1);
    if (crashed) sim::probe("crashes verified");
}
void run_roll(const Plan& p, int inc) {
    int b = (int)p.get("base"), max = (int)p.get("num");
    {
        SIM_QUIET;
        P = (Persist*)sim::persistent(sizeof(Persist));
        sim::vfs::set_bufsize((size_t)p.get("buf", 0));
        if (inc == 0)
            for (int i = 1; i <= max; i++) if (p.get("pre") >> i & 1) sim::vfs::write_file(roll_name(b, i, max), strf("old file %d", i));
    }
    if (inc > 0 && (P->phase == 1 || P->phase == 2)) verify_roll(p, true);
    int rounds = (int)p.get("rounds", 1), nth = p.nthreads();
    bool as = p.get("async") != 0, crash = p.has("crash_at");
    for (int rd = 0; rd < rounds; rd++) {
        save_snap(b, max);
        P->phase = 1;
        if (crash) sim::arm_crash();
        {
            auto sink = std::make_shared<ll::sinks::rolling_file_sink_mt>(BASES[b], (size_t)p.get("size"), (size_t)max);
            P->phase = 2;
            std::shared_ptr<ll::base::thread_pool> pool;
            std::shared_ptr<ll::logger> lg;
            int kind = (int)p.get("kind");
            if (as) { pool = make_pool(kind, (size_t)p.get("q", 4), 1); lg = std::make_shared<ll::async_logger>("L", sink, pool); }
            else lg = std::make_shared<ll::logger>("L", sink);
            lg->set_log_level(ll::level::trace);
                lg->set_flush_level((ll::level::level_enum)p.get("fl", 6));
            lg->set_pattern("%v");
            sink.reset();
            int fl = (int)p.get("fl", 6);
            run_threads(nth, [&](int t) {
                int seq = 0;
                for (auto& o : ops_of(p, t)) {
                    if (o.a[4] % rounds != rd) continue;
                    if (o.name == "log") log_msg_to(lg, t, seq++, (int)o.a[0], (int)o.a[1], !as && (int)o.a[1] >= fl);
                    else if (o.name == "flush") {
                        u64 t0;
                        { SIM_QUIET; t0 = sim::stamp(); }
                        lg->flush();
                        ack_flush(t, t0, !as || kind == PK_LOCK);
                    }
                }
            });
            lg.reset();
            pool.reset();
        }
        sim::disarm_crash();
        P->phase = 3;
        CHECK(sim::vfs::open_fds() == 0, "fd-leak", "%d file descriptors are open after the sink was destroyed", sim::vfs::open_fds());
        verify_roll(p, false);
        P->phase = 0;
    }
    // impossible limits are refused and leave no file
    if (p.get("bad")) {
        size_t n0 = files_on_disk().size();
        bool thrown = false;
        try {
            if (p.get("bad") == 1) { ll::sinks::rolling_file_sink_mt x("badsize.log", 0, 3); }
            else { ll::sinks::rolling_file_sink_mt x("badnum.log", 10, 10001); }
        } catch (const std::exception&) { thrown = true; }
        CHECK(thrown, "limits", "a rolling sink with %s was created", p.get("bad") == 1 ? "a file size of 0" : "10001 files");
        CHECK(files_on_disk().size() == n0, "limits", "a refused rolling sink left a file");
        bool refused = false;
        try { ll::sinks::rolling_file_sink_mt x("largest.log", 1, 10000), y("least.log", 1, 1); } catch (const std::exception&) { refused = true; }
        CHECK(!refused, "limits", "a rolling sink with limits that are allowed was refused");
    }
}
void gen_roll(Rng& r, Plan& p) {
    p.set("base", (long)r.below(6));
    static const long nums[] = {1, 2, 3, 4, 9, 10, 11, 12};
    long num = nums[r.below(8)];
    p.set("num", num);
    static const long sizes[] = {1, 8, 20, 30, 40, 60, 100, 300, 5000};
    p.set("size", sizes[r.below(9)]);
    static const long bufs[] = {0, 16, 64, 128, 512};
    p.set("buf", bufs[r.below(5)]);
    if (r.chance(1, 2)) {
        long m = 0;
        for (int i = 1; i <= num; i++) if (r.chance(1, 3)) m |= 1l << i;
        if (r.chance(1, 6)) m = (1l << (num + 1)) - 2;
        p.set("pre", m);
    }
    if (r.chance(1, 4)) { p.set("async", 1); p.set("kind", (long)r.below(3)); static const long q[] = {1, 2, 4, 16}; p.set("q", q[r.below(4)]); }
    if (r.chance(1, 2)) p.set("fl", r.range(0, 5));
    if (r.chance(1, 30)) p.set("bad", r.range(1, 2));
    int rounds = r.chance(1, 2) ? 1 : (int)r.range(2, 3);
    p.set("rounds", rounds);
    int nt = r.chance(1, 3) ? 1 : (int)r.range(2, 3);
    int big = (int)r.range(2, 80);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, r.chance(1, 4) ? 25 : 9);
        for (int i = 0; i < n; i++) {
            long rd = (long)r.below(6);
            if (r.chance(1, 7)) { p.add(t, "flush", 0, 0, 0, 0, rd); continue; }
            p.add(t, "log", r.chance(1, 10) ? r.range(30, 400) : r.range(0, big), (long)r.below(6), 0, 0, rd);
        }
    }
    if (r.chance(1, 2)) {
        static const long mx[] = {1000, 4000, 15000};
        long m = mx[r.below(3)];
        p.set("crash_at", r.range(1, m));
        if (r.chance(1, 2)) p.set("crash_at1", r.range(1, m));
    }
    if (r.chance(1, 3)) p.set("f.write_short", 3000);
    if (r.chance(1, 5) && p.get("kind") == PK_LOCK) { p.set("f.write_slow", 1500); p.set("fmax.write_slow", 5); }
}

// ---------------------------------------------------------------------------------------- I/O errors
enum { FE_IO = 1u << sim::F_OPEN_ERR | 1u << sim::F_WRITE_ERR | 1u << sim::F_WRITE_SHORT | 1u << sim::F_FSYNC_ERR | 1u << sim::F_CLOSE_ERR | 1u << sim::F_MKDIR_ERR | 1u << sim::F_STAT_ERR | 1u << sim::F_FDOPEN_ERR };
// exact: not counting what may be the end of a message with a longer number
size_t count(const std::string& s, const std::string& what, bool exact) {
    size_t n = 0;
    for (size_t p = 0; (p = s.find(what, p)) != std::string::npos; p += what.size()) n += !exact || !p || !isdigit((unsigned char)s[p - 1]);
    return n;
}
void run_errors(const Plan& p, int) {
    {
        SIM_QUIET;
        P = (Persist*)sim::persistent(sizeof(Persist));
        new_period("");
        sim::vfs::set_bufsize((size_t)p.get("buf", 0));
    }
    const u32 all = sim::faults_mask();
    bool rolling = p.get("roll") != 0, as = p.get("async") != 0, hard = p.get("full") != 0, oom = !as && p.has("f.oom"), heal = p.get("two") && p.get("heal") && !oom;
    int nth = p.nthreads(), kind = (int)p.get("kind");
    bool barrier = !as || p.get("w", 1) == 1 || kind == PK_CONC;
    sim::faults_enable(all & ~FE_IO);
    {
        ll::sink_shr_ptr sink, second;
        std::string path = PATHS[p.get("path") % 4];
        if (rolling) sink = std::make_shared<ll::sinks::rolling_file_sink_mt>(path, (size_t)p.get("size"), (size_t)9999);
        else sink = std::make_shared<ll::sinks::basic_file_sink_mt>(path);
        if (p.get("two")) second = std::make_shared<ll::sinks::basic_file_sink_mt>("second.log");
        std::shared_ptr<ll::base::thread_pool> pool;
        std::shared_ptr<ll::logger> lg;
        std::vector<ll::sink_shr_ptr> v(1, sink);
        if (second) v.insert(p.get("swap") ? v.begin() : v.end(), second);
        if (heal) sim::vfs::set_healthy("second.log");
        // what a file that never fails must hold when a flush by thread th returns, or a message at the flush level was logged
        auto check_flushed = [&](int th, u64 t0, const char* what) {
            SIM_QUIET;
            std::string c = sim::vfs::read_file("second.log");
            for (int i = 0; i < P->n; i++)
                if (P->m[i].t1 && P->m[i].t1 < t0 && P->m[i].th == th)
                    CHECK(c.find(text_of(i)) != std::string::npos, "not-flushed", "%s returned, but message %d is not in the file of a sink that does not fail", what, P->total + i);
        };
        if (as) { pool = make_pool(kind, (size_t)p.get("q", 4), (size_t)p.get("w", 1)); lg = std::make_shared<ll::async_logger>("L", v.begin(), v.end(), pool); }
        else lg = std::make_shared<ll::logger>("L", v.begin(), v.end());
        lg->set_log_level(ll::level::trace);
        lg->set_flush_level((ll::level::level_enum)p.get("fl", 6));
        lg->set_pattern("%v");
        for (int stage = 0; stage < 3; stage++) {
            // 0: the disk works, 1: it fails, 2: it works again
            if (stage == 1) {
                sim::faults_enable(all);
                if (hard) { SIM_QUIET; sim::vfs::set_capacity(sim::vfs::used_bytes() + (u64)p.get("room")); }
                if (p.get("ro")) sim::vfs::set_readonly(rolling ? "/" : "/nowhere", true);
            }
            if (stage == 2) {
                if (as) lg->flush();
                sim::faults_enable(all & ~FE_IO);
                sim::vfs::set_capacity(0);
                sim::vfs::set_readonly("/nowhere", false);
                if (as) for (int i = 0; i < (int)p.get("w", 1); i++) lg->flush();
                // what the file's buffer still holds from the bad time may be dropped by this flush, which reports it
                lg->flush();
            }
            run_threads(nth, [&](int t) {
                int seq = 0;
                for (auto& o : ops_of(p, t)) {
                    if (o.a[4] != stage) continue;
                    if (stage == 1 && oom) sim::oom_scope(true);      // memory runs out as well
                    if (o.name == "log") {
                        bool escaped = false;
                        try { log_msg_to(lg, stage * 100 + t, seq++, (int)o.a[0], (int)o.a[1], false, stage == 2); } catch (...) { escaped = true; }
                        sim::oom_scope(false);
                        CHECK(!escaped, "escaped", "log() threw an exception at its caller because of an I/O error");
                        if (heal && !as && o.a[1] >= p.get("fl", 6)) check_flushed(stage * 100 + t, sim::stamp(), "log() at the flush level");
                    } else if (o.name == "flush") {
                        bool escaped = false;
                        u64 t0 = sim::stamp();
                        try { lg->flush(); } catch (...) { escaped = true; }
                        sim::oom_scope(false);
                        if (heal && barrier) check_flushed(stage * 100 + t, t0, "flush()");
                        CHECK(!escaped, "escaped", "flush() threw an exception at its caller because of an I/O error");
                    }
                }
            });
        }
        v.clear();
        sink.reset();
        second.reset();
        if (p.get("dtor")) sim::faults_enable(all);      // the last flush and close fail, too
        if (p.get("dtor") && oom) sim::oom_scope(true);
        lg.reset();
        sim::oom_scope(false);
        pool.reset();
        sim::faults_enable(all & ~FE_IO);
    }
    SIM_QUIET;
    CHECK(sim::vfs::open_fds() == 0, "fd-leak", "%d file descriptors are open after the sinks were destroyed", sim::vfs::open_fds());
    CHECK(sim::vfs::live_files() == 0, "fd-leak", "%d streams are open after the sinks were destroyed", sim::vfs::live_files());
    std::string err = sim::vfs::out(2), a, b = sim::vfs::read_file("second.log");
    int reports = count_reports(err);
    for (auto& f : files_on_disk()) if (f != "/work/second.log") a += "\1" + sim::vfs::read_file(f);
    size_t lost = 0;
    for (int k = 0; k < (p.get("two") ? 2 : 1); k++) {
        const std::string& c = k ? b : a;
        for (int i = 0; i < P->n; i++) {
            size_t n = count(c, text_of(i), true);
            CHECK(n <= 1, "duplicate", "message %d is in the file %zu times", P->total + i, n);
            n = count(c, text_of(i), false);
            if (!n) {
                lost++;
                // messages logged while the disk worked again are never lost unless the last flush or close failed as well
                CHECK(!P->m[i].must || p.get("dtor"), "not-recovered", "message %d was logged after the disk worked again and is missing (%d reports)", P->total + i, reports);
            }
        }
    }
    if (lost) CHECK(reports > 0, "silent-loss", "%zu messages were lost and no error was reported", lost);
    if (lost) sim::probe("messages lost and reported", lost);
    if (!oom) check_causes(err, "learnlog::file_base:");
    // every line of a file is a whole message or has a piece of one: no foreign bytes
    for (int k = 0; k < (p.get("two") ? 2 : 1); k++) {
        const std::string& c = k ? b : a;
        if (!reports || (k == 1 && heal)) {
            std::vector<char> seen(P->n, 0);
            std::vector<Found> v;
            if (rolling && k == 0) {
                for (auto& f : files_on_disk()) if (f != "/work/second.log") { std::vector<Found> w = parse(sim::vfs::read_file(f), false, f.c_str(), seen); v.insert(v.end(), w.begin(), w.end()); }
            } else v = parse(c.substr(k == 0), false, "the file", seen);
            if (!(as && p.get("w", 1) > 1)) check_history(v, false, false, as, "the file");
        }
    }
}
void gen_errors(Rng& r, Plan& p) {
    p.set("path", (long)r.below(4));
    static const long bufs[] = {0, 16, 64, 128, 512};
    p.set("buf", bufs[r.below(5)]);
    if (r.chance(1, 2)) { p.set("roll", 1); static const long sizes[] = {1, 20, 40, 100}; p.set("size", sizes[r.below(4)]); }
    if (r.chance(1, 3)) { p.set("two", 1); if (r.chance(2, 3)) p.set("heal", 1); if (r.chance(1, 3)) p.set("swap", 1); }
    if (r.chance(1, 3)) { p.set("async", 1); p.set("kind", (long)r.below(3)); static const long q[] = {1, 2, 4, 16}; p.set("q", q[r.below(4)]); p.set("w", r.chance(2, 3) ? 1 : 2); }
    if (r.chance(1, 2)) p.set("fl", r.range(0, 5));
    if (r.chance(1, 4)) p.set("dtor", 1);
    bool retries = !p.get("roll") || !p.get("kind");        // a worker's waits between attempts take very long next to spinning threads
    if (retries && r.chance(1, 4)) { p.set("full", 1); p.set("room", r.range(0, 200)); }
    if (retries && r.chance(1, 8)) p.set("ro", 1);
    static const char* const fk[] = {"open_err", "write_err", "close_err", "stat_err", "write_short", "mkdir_err", "fdopen_err"};
    for (int i = 0; i < 7; i++)
        if (r.chance(1, i == 6 ? 4 : 2) && !(i == 3 && p.get("roll")) && !((i == 0 || i == 5 || i == 6) && !retries)) {
            static const long rates[] = {800, 3000, 10000};
            p.set((std::string("f.") + fk[i]).c_str(), rates[r.below(3)]);
            p.set((std::string("fmax.") + fk[i]).c_str(), r.range(1, 12));
        }
    if (!p.get("async") && r.chance(1, 3)) { p.set("f.oom", r.range(100, 3000)); p.set("fmax.oom", r.range(1, 12)); }
    int nt = r.chance(1, 2) ? 1 : (int)r.range(2, 3);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(3, 16);
        for (int i = 0; i < n; i++) {
            if (r.chance(1, 6)) { p.add(t, "flush", 0, 0, 0, 0, (long)r.below(3)); continue; }
            p.add(t, "log", r.chance(1, 10) ? r.range(30, 400) : r.range(1, 30), (long)r.below(6), 0, 0, (long)r.below(3));
        }
    }
}

// ---------------------------------------------------------------------------------------- opening and directories
struct PathGen { std::string asked, real; };
PathGen make_path(const Plan& p, int k) {
    static const char* const comp[] = {"d0", "dir.with.dots", "x", "a_longer_directory_name", "n"};
    std::string s, real;
    long shape = p.get(strf("shape%d", k).c_str(), p.get("shape"));
    bool abs = shape & 1;
    if (abs) { s = "/"; real = ""; } else real = "/work";
    if (!abs && (shape & 2)) s += "./";
    int depth = (int)(shape >> 2 & 3);
    for (int i = 0; i < depth; i++) {
        const char* c = comp[(shape >> (4 + i * 3)) % 5];
        s += c; real += std::string("/") + c;
        s += (shape >> (14 + i)) & 1 ? "//" : "/";
        if ((shape >> (18 + i)) & 1) s += "./";
        if (i == 1 && (shape >> 22 & 1)) { s += "../"; size_t q = real.find_last_of('/'); real = real.substr(0, q); }
    }
    std::string f = strf("f%d.log", k);
    PathGen g = {s + f, real + "/" + f};
    return g;
}
void run_open(const Plan& p, int) {
    const u32 all = sim::faults_mask();
    sim::faults_enable(all & ~FE_IO);
    PathGen g;
    { SIM_QUIET; g = make_path(p, 0); }
    long fails = (p.get("f.open_err") ? p.get("fmax.open_err", 0) : 0) + (p.get("f.fdopen_err") ? p.get("fmax.fdopen_err", 0) : 0);
    bool always = (p.get("f.open_err") == 10000 || p.get("f.fdopen_err") == 10000) && p.get("f.open_err") % 10000 == 0 && p.get("f.fdopen_err") % 10000 == 0 && !p.has("f.mkdir_err");
    bool trunc = p.get("trunc") != 0;
    int tries = (int)p.get("tries", 5), every = (int)p.get("every", 10);
    if (p.get("pre")) sim::vfs::write_file(g.real, "old content\n");
    FILE* f = nullptr;
    std::unique_ptr<ll::sinks::basic_file_sink_mt> sink;
    if (p.get("reopen")) ll::base::file_base::open(&f, "before.log");
    u64 o0 = sim::vfs::stats().open_fail;
    u64 t0 = sim::now_ns();
    bool ok = true;
    std::string why;
    sim::faults_enable(all);
    try {
        if (p.get("sink")) sink.reset(new ll::sinks::basic_file_sink_mt(g.asked, trunc));
        else if (p.get("dflt")) ll::base::file_base::open(&f, g.asked, trunc);
        else ll::base::file_base::open(&f, g.asked, trunc, tries, (unsigned)every);
    } catch (const std::exception& e) { ok = false; why = e.what(); }
    sim::faults_enable(all & ~FE_IO);
    if (p.get("sink") || p.get("dflt")) { tries = 5; every = 10; }
    double ms = (double)(sim::now_ns() - t0) / 1e6;
    u64 failed = sim::vfs::stats().open_fail - o0;
    bool leap = sim::fault_count(sim::F_TIME_LEAP) > 0;
    if (always) {
        // the first `fails` attempts fail
        if (fails < tries) {
            CHECK(ok, "gave-up", "opening failed although attempt %ld of %d would have succeeded (%s)", fails + 1, tries, why.c_str());
            CHECK(ms >= (double)fails * every - 0.001, "no-wait", "%ld failed attempts at intervals of %d ms took %.3f ms", fails, every, ms);
            if (!leap) CHECK(ms < (double)(fails + 1) * every + 2, "long-wait", "%ld failed attempts at intervals of %d ms took %.3f ms", fails, every, ms);
            if (fails) sim::probe("opened after failed attempts");
        } else {
            CHECK(!ok, "no-error", "all %d attempts failed and opening reported success", tries);
            CHECK((long)failed == tries, "attempts", "%llu attempts instead of %d", (unsigned long long)failed, tries);
            CHECK(ms >= (double)(tries - 1) * every - 0.001, "no-wait", "%d failed attempts at intervals of %d ms took %.3f ms", tries, every, ms);
            sim::probe("opening given up");
        }
    }
    if (!ok) {
        u64 nf = sim::fault_count(sim::F_MKDIR_ERR) + sim::fault_count(sim::F_OPEN_ERR) + sim::fault_count(sim::F_FDOPEN_ERR);
        CHECK(nf >= (u64)tries, "gave-up", "opening gave up after %llu faults although it may try %d times: %s", (unsigned long long)nf, tries, why.c_str());
        CHECK(failed || sim::fault_count(sim::F_MKDIR_ERR), "gave-up", "opening '%s' failed without a fault: %s", g.asked.c_str(), why.c_str());
        check_causes(why, "learnlog::file_base:");
        CHECK(why.find(g.asked) != std::string::npos, "error-text", "the error '%s' does not name the file '%s'", why.c_str(), g.asked.c_str());
        CHECK(sim::vfs::open_fds() == 0, "fd-leak", "%d descriptors are open after a failed open", sim::vfs::open_fds());
        return;
    }
    CHECK(sim::vfs::exists(g.real), "no-file", "'%s' was opened and %s does not exist", g.asked.c_str(), g.real.c_str());
    CHECK(sim::vfs::open_fds() == 1, "fd-leak", "%d descriptors are open after opening one file", sim::vfs::open_fds());
    std::string expect;
    { SIM_QUIET; expect = trunc || !p.get("pre") ? "" : "old content\n"; }
    CHECK(sim::vfs::read_file(g.real) == expect, "content", "the opened file has %zu bytes instead of %zu", sim::vfs::read_file(g.real).size(), expect.size());
    if (sink) {
        sink->set_pattern("%v");
        ll::base::log_msg m(ll::level::info, "one line", "L");
        sink->log(m);
        sink.reset();
        expect += "one line\n";
    } else {
        ll::fmt_memory_buf b;
        std::string t = "one line\n";
        b.append(t.data(), t.data() + t.size());
        ll::base::file_base::write(f, g.asked, b);
        ll::base::file_base::close(&f, g.asked);
        CHECK(!f, "close", "close() left a file pointer behind");
        expect += t;
    }
    CHECK(sim::vfs::read_file(g.real) == expect, "content", "the file reads '%.60s' instead of '%.60s'", sim::vfs::read_file(g.real).c_str(), expect.c_str());
    CHECK(sim::vfs::open_fds() == 0, "fd-leak", "%d descriptors are open after closing", sim::vfs::open_fds());
}
void gen_open(Rng& r, Plan& p) {
    p.set("shape", (long)(r.next() & 0xffffff));
    if (r.chance(1, 2)) p.set("trunc", 1);
    if (r.chance(1, 2)) p.set("pre", 1);
    if (r.chance(1, 2)) p.set("sink", 1);
    else {
        if (r.chance(1, 2)) p.set("dflt", 1);
        if (r.chance(1, 3)) p.set("reopen", 1);
    }
    p.set("tries", r.range(1, 7));
    static const long ev[] = {0, 1, 10, 25};
    p.set("every", ev[r.below(4)]);
    int k = (int)r.below(4);
    if (k <= 1) { p.set("f.open_err", 10000); p.set("fmax.open_err", r.range(0, 8)); }
    else if (k == 2) { p.set("f.open_err", 5000); p.set("fmax.open_err", r.range(1, 12)); if (r.chance(1, 2)) { p.set("f.mkdir_err", r.chance(1, 2) ? 10000 : 4000); p.set("fmax.mkdir_err", r.range(1, 4)); } }
    if (r.chance(1, 4)) { p.set("f.fdopen_err", k == 2 ? 4000 : 10000); p.set("fmax.fdopen_err", r.range(1, 6)); }
    p.add(0, "open");
}
void run_dirs(const Plan& p, int) {
    int n = (int)p.get("n");
    std::vector<PathGen> g;
    { SIM_QUIET; for (int i = 0; i < n; i++) g.push_back(make_path(p, i)); }
    bool direct = p.get("direct") != 0;
    run_threads(n, [&](int t) {
        try {
            if (direct) {
                std::string d;
                { SIM_QUIET; size_t q = g[t].asked.find_last_of('/'); d = q == std::string::npos ? std::string() : g[t].asked.substr(0, q); }
                bool ok = ll::base::os::create_dir(d);
                SIM_QUIET;
                size_t q = g[t].real.find_last_of('/');
                if (!d.empty()) CHECK(ok && sim::vfs::is_dir(g[t].real.substr(0, q)), "mkdir", "create_dir('%s') returned %d, the directory %s %s", d.c_str(), (int)ok, g[t].real.substr(0, q).c_str(), sim::vfs::is_dir(g[t].real.substr(0, q)) ? "exists" : "does not exist");
                std::string().swap(d);
            } else {
                ll::sinks::basic_file_sink_mt sink(g[t].asked, p.get("trunc") != 0);
                sink.set_pattern("%v");
                ll::base::log_msg m(ll::level::info, "one line", "L");
                sink.log(m);
            }
        } catch (const std::exception& e) {
            sim::violate("mkdir", "'%s' could not be opened while other threads create the same directories: %s", g[t].asked.c_str(), e.what());
        }
    });
    if (!direct) for (int i = 0; i < n; i++) { SIM_QUIET; CHECK(sim::vfs::read_file(g[i].real) == "one line\n", "content", "%s reads '%.40s'", g[i].real.c_str(), sim::vfs::read_file(g[i].real).c_str()); }
    CHECK(sim::vfs::open_fds() == 0, "fd-leak", "%d descriptors are open", sim::vfs::open_fds());
    if (sim::fault_count(sim::F_MKDIR_ERR)) sim::probe("mkdir failed");
}
void gen_dirs(Rng& r, Plan& p) {
    long base = (long)(r.next() & 0x3fffff);
    int n = (int)r.range(2, 4);
    p.set("n", n);
    for (int i = 0; i < n; i++) p.set(strf("shape%d", i).c_str(), r.chance(2, 3) ? base : (base & ~0xf00l) | (long)(r.next() & 0xf00));
    if (r.chance(1, 3)) p.set("direct", 1);
    if (r.chance(1, 3)) p.set("trunc", 1);
    for (int i = 0; i < n; i++) p.add(i, "open");
}

sim::Scenario s1("file_durable", gen_durable, run_durable, 10, 3), s2("file_sync", gen_sync, run_sync, 10, 2), s3("file_rolling", gen_roll, run_roll, 10, 3),
    s4("file_errors", gen_errors, run_errors), s5("file_open", gen_open, run_open), s6("file_dirs", gen_dirs, run_dirs);
}

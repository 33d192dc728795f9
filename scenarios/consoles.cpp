// Console and stream sinks: lines on shared streams stay whole, complete and in order, coloured as the terminal allows, under
// concurrent logging, reconfiguration and stream errors. Real sinks, formatters, loggers and pools; simulated stdout and stderr.
#include "common.h"
#include "sinks/std_sinks.h"
#include "sinks/std_color_sinks.h"
#include "sinks/ostream_sink.h"
#include "sinks/null_sink.h"
#include <algorithm>
#include <ostream>
namespace {
enum Kind { K_OUT, K_ERR, K_COUT, K_CERR, K_OS, K_NUM };
enum { MAXS = 6 };
const char* const LEVELS[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
const char* const COLORS[] = {"\033[37m", "\033[36m", "\033[32m", "\033[33m\033[1m", "\033[31m\033[1m", "\033[1m\033[41m", "\033[m"};
const char* const ALT[] = {"\033[35m", "<<blue>>", "", "\033[4m\033[5m"};
// patterns with a plain meaning: text, %v, %l, %n, %%, %^, %$ (%v once)
const char* const PATS[] = {"%v", "[%l] %v", "%^%l%$ %v", "%^%v%$", "%n: %^[%l]%$ %v.", "%v%^end%$", "pre %^%$%v", "%$%^%v", "%v %^tail", "100%% %^%n%$-%v-%l", "%^%n %v %l%$"};
enum { NPAT = sizeof PATS / sizeof *PATS };

struct Msg { int th, lg, lvl; size_t size; u64 t0, t1; int seen[MAXS]; };
struct Change { int sink, lvl, what; u64 t0, t1; };       // lvl < 0: pattern number what; else colour number what
struct Stream { std::string data; int busy; u64 bad; };      // bad: since when the stream has failed (0: has not)
struct World {
    std::vector<Msg> msg;
    std::vector<Change> chg;
    std::vector<int> kind, slevel;
    std::vector<std::vector<int> > lg_sinks;
    std::vector<std::string> lg_name;
    std::vector<int> lg_level;
    Stream os[MAXS];
    bool color[3];
    bool async, os_faults;
};
World* W;

// a stream buffer that takes its time: two writers at once are visible as a race and as mixed text
struct slow_buf : std::streambuf {
    int idx;
    char tmp[64];
    size_t n;
    slow_buf(int i) : idx(i), n(0) {}
    void enter_() { SIM_QUIET; if (++W->os[idx].busy != 1) sim::violate("stream-overlap", "two threads use the stream of sink %d at the same time", idx); }
    void leave_() { SIM_QUIET; --W->os[idx].busy; }
    // false: the device refuses; what is buffered is kept
    bool drain_() {
        SIM_QUIET;
        if (W->os_faults && n && sim::fault(sim::F_SINK_THROW)) { if (!W->os[idx].bad) W->os[idx].bad = sim::stamp(); return false; }
        W->os[idx].data.append(tmp, n);
        n = 0;
        return true;
    }
    std::streamsize xsputn(const char* p, std::streamsize k) override {
        enter_();
        for (std::streamsize i = 0; i < k; i++) {
            if (n == sizeof tmp) { if (!drain_()) { leave_(); return i; } sim::yield_point(); }
            tmp[n++] = p[i];
        }
        sim::yield_point();
        leave_();
        return k;
    }
    int_type overflow(int_type c) override { char b = (char)c; return xsputn(&b, 1) == 1 ? c : traits_type::eof(); }
    int sync() override { enter_(); sim::yield_point(); bool ok = drain_(); leave_(); return ok ? 0 : -1; }
};

std::string text_of(size_t id) {
    const Msg& m = W->msg[id];
    std::string s = strf("#%zu#", id);
    for (size_t i = 0; i < m.size; i++) s += (char)('A' + (id * 7 + i * 3) % 26);
    return s + "|";
}
// the line for message id under pattern pat; empty colour: none
std::string render(size_t id, int pat, bool color, const std::string& seq) {
    const Msg& m = W->msg[id];
    std::string o;
    size_t a = std::string::npos, b = std::string::npos;
    for (const char* p = PATS[pat]; *p; p++) {
        if (*p != '%') { o += *p; continue; }
        switch (*++p) {
            case 'v': o += text_of(id); break;
            case 'l': o += LEVELS[m.lvl]; break;
            case 'n': o += W->lg_name[m.lg]; break;
            case '%': o += '%'; break;
            case '^': a = o.size(); break;
            case '$': b = o.size(); break;
        }
    }
    o += "\n";
    if (color && a != std::string::npos && b != std::string::npos && b > a) o = o.substr(0, a) + seq + o.substr(a, b - a) + "\033[m" + o.substr(b);
    return o;
}
// values a change log allows for [t0, t1]
std::vector<int> possible(int sink, int lvl, u64 t0, u64 t1) {
    std::vector<const Change*> c;
    for (auto& x : W->chg) if (x.sink == sink && x.lvl == lvl) c.push_back(&x);
    std::vector<int> v;
    for (auto x : c) {
        if (x->t0 > t1) continue;
        bool hidden = false;
        for (auto y : c) if (y->t0 > x->t1 && y->t1 && y->t1 < t0) hidden = true;
        if (!hidden) v.push_back(x->what);
    }
    return v;
}
int fd_of(int k) { return k == K_OUT || k == K_COUT ? 1 : k == K_ERR || k == K_CERR ? 2 : 0; }
bool takes(const Msg& m, int sink) { return m.lvl >= W->lg_level[m.lg] && m.lvl >= W->slevel[sink]; }

std::shared_ptr<ll::sinks::sink> make_sink(int k, bool st, std::ostream* os, bool force) {
    using namespace ll::sinks;
    switch (k) {
        case K_OUT: if (st) return std::make_shared<stdout_sink_st>(); return std::make_shared<stdout_sink_mt>();
        case K_ERR: if (st) return std::make_shared<stderr_sink_st>(); return std::make_shared<stderr_sink_mt>();
        case K_COUT: if (st) return std::make_shared<stdout_color_sink_st>(); return std::make_shared<stdout_color_sink_mt>();
        case K_CERR: if (st) return std::make_shared<stderr_color_sink_st>(); return std::make_shared<stderr_color_sink_mt>();
        default: if (st) return std::make_shared<ostream_sink_st>(*os, force); return std::make_shared<ostream_sink_mt>(*os, force);
    }
}
// terminal types: the names a terminal with colours is known by, as they are, decorated, and others that resemble them
struct Term { const char* name; bool color; };
const Term TERMS[] = {{nullptr, false}, {"xterm-256color", true}, {"dumb", false}, {"", false}, {"linux", true}, {"screen", true}, {"unknown", false}, {"rxvt-unicode", true}, {"tmux", false}, {"alacritty", true},
    {"ansi", true}, {"nxterm-color", true}, {"color", true}, {"console", true}, {"cygwin", true}, {"gnome-256color", true}, {"konsole", true}, {"kterm", true}, {"linux-m", true}, {"msys", true}, {"putty", true},
    {"rxvt", true}, {"screen.linux", true}, {"vt100", true}, {"xterm", true}, {"vt102", true}, {"dtterm.xterm", true}, {"my-alacritty-direct", true}, {"vt10", false}, {"vt220", false}, {"VT100", false}, {"Xterm", false},
    {"xter", false}, {"sun", false}, {"emacs", false}, {"colo", false}, {"vt100-nav", true}, {"old-vt102-nsgr", true}, {"gnome", true}, {"x ter m", false}, {"anslinu", false}};
enum { NTERM = sizeof TERMS / sizeof *TERMS };
// no COLORTERM, or any value of it
const char* const CTERMS[] = {nullptr, "truecolor", "", "0"};
bool term_color(long term, long colorterm) { return CTERMS[colorterm] || TERMS[term].color; }

// is message id in this stream now, as one of the lines its sink may have written?
bool visible(size_t id, int sink, const std::string& s) {
    const Msg& m = W->msg[id];
    bool col = fd_of(W->kind[sink]) && (W->kind[sink] == K_COUT || W->kind[sink] == K_CERR) && W->color[fd_of(W->kind[sink])];
    for (int pat : possible(sink, -1, m.t0, sim::stamp()))
        for (int c : possible(sink, m.lvl, m.t0, sim::stamp())) {
            if (s.find(render(id, pat, col, c < 100 ? COLORS[c] : ALT[c - 100])) != std::string::npos) return true;
            if (!col) break;
        }
    return false;
}

void check_stream(const std::string& data, const std::vector<int>& sinks, const char* what, bool faulty, bool ordered) {
    size_t pos = 0;
    std::vector<std::pair<size_t, int> > seq;      // message, sink
    while (pos < data.size()) {
        size_t e = data.find('\n', pos);
        std::string line = data.substr(pos, e == std::string::npos ? e : e - pos + 1);
        size_t h = line.find('#');
        size_t id = 0;
        bool ok = h != std::string::npos && e != std::string::npos;
        if (ok) {
            char* end;
            id = strtoul(line.c_str() + h + 1, &end, 10);
            ok = end != line.c_str() + h + 1 && *end == '#' && id < W->msg.size();
        }
        if (ok) {
            const Msg& m = W->msg[id];
            bool match = false;
            for (int k : sinks) {
                if (std::find(W->lg_sinks[m.lg].begin(), W->lg_sinks[m.lg].end(), k) == W->lg_sinks[m.lg].end() || !takes(m, k)) continue;
                if (m.seen[k]) continue;
                bool col = (W->kind[k] == K_COUT || W->kind[k] == K_CERR) && W->color[fd_of(W->kind[k])];
                u64 end = W->async || !m.t1 ? ~0ull : m.t1;
                for (int pat : possible(k, -1, m.t0, end)) {
                    for (int c : possible(k, m.lvl, m.t0, end)) {
                        if (line == render(id, pat, col, c < 100 ? COLORS[c] : ALT[c - 100])) { match = true; break; }
                        if (!col) break;
                    }
                    if (match) break;
                }
                if (match) { W->msg[id].seen[k]++; seq.push_back(std::make_pair(id, k)); break; }
            }
            ok = match;
        }
        if (!ok && !faulty) {
            if (h != std::string::npos && id < W->msg.size())
                sim::violate("line", "%s holds a line that is no single message as its pattern wants it (or one too many): '%.120s' (message %zu of thread %d, level %s)", what, line.c_str(), id, W->msg[id].th, LEVELS[W->msg[id].lvl]);
            sim::violate("line", "%s holds a line nobody logged: '%.120s'", what, line.c_str());
        }
        pos = e == std::string::npos ? data.size() : e + 1;
    }
    if (ordered) {
        for (size_t i = 0; i < seq.size(); i++)
            for (size_t j = i + 1; j < seq.size(); j++) {
                const Msg &a = W->msg[seq[i].first], &b = W->msg[seq[j].first];
                CHECK(a.th != b.th || seq[i].first <= seq[j].first, "order", "%s: message %zu of thread %d stands before message %zu, which the thread logged earlier", what, seq[i].first, a.th, seq[j].first);
                CHECK(W->async || b.t1 >= a.t0 || !b.t1, "order", "%s: message %zu stands before message %zu, whose log call had returned before the other began", what, seq[i].first, seq[j].first);
            }
    }
}

void run(const Plan& p, int) {
    { SIM_QUIET; W = new World(); for (auto& o : W->os) { o.busy = 0; o.bad = 0; } }
    const int ns = (int)p.get("ns", 1), nl = (int)p.get("nl", 1), nth = p.nthreads();
    const bool st = p.get("st") != 0, faulty = p.get("faulty") != 0, async = p.get("async") != 0;
    const long term = p.get("term");
    if (TERMS[term].name) sim::set_env("TERM", TERMS[term].name);
    if (p.get("colorterm")) sim::set_env("COLORTERM", CTERMS[p.get("colorterm")]);
    sim::vfs::set_tty(1, p.get("tty") & 1);
    sim::vfs::set_tty(2, p.get("tty") & 2);
    if (faulty) sim::vfs::set_fault_stdout(true);
    {
        SIM_QUIET;
        W->async = async;
        W->os_faults = p.get("osf") != 0;
        W->color[1] = W->color[2] = false;
    }
    sim::faults_enable(0);
    {
        std::vector<std::unique_ptr<slow_buf> > bufs;
        std::vector<std::unique_ptr<std::ostream> > streams;
        std::vector<std::shared_ptr<ll::sinks::sink> > sinks;
        bool decided = false, colors = false;
        long env_term = term, env_ct = p.get("colorterm");
        for (int i = 0; i < ns; i++) {
            int k = (int)p.get(strf("k%d", i).c_str());
            bufs.emplace_back(new slow_buf(i));
            streams.emplace_back(new std::ostream(bufs.back().get()));
            if (p.get("osx")) streams.back()->exceptions(std::ios::badbit | std::ios::failbit);
            sinks.push_back(make_sink(k, st, streams.back().get(), p.get("force") != 0));
            if ((k == K_COUT || k == K_CERR) && (p.get("tty") & fd_of(k))) {
                // the first sink on a terminal decides for the process
                SIM_QUIET;
                if (!decided) { decided = true; colors = term_color(env_term, env_ct); }
                W->color[fd_of(k)] = colors;
            }
            if (p.get("envflip") && i == 0) {
                env_term = p.get("term2"); env_ct = p.get("colorterm2");
                sim::set_env("TERM", TERMS[env_term].name);
                sim::set_env("COLORTERM", CTERMS[env_ct]);
            }
            int pat = (int)p.get(strf("p%d", i).c_str()), lv = (int)p.get(strf("sl%d", i).c_str());
            sinks.back()->set_pattern(PATS[pat]);
            sinks.back()->set_level((ll::level::level_enum)lv);
            SIM_QUIET;
            W->kind.push_back(k);
            W->slevel.push_back(lv);
            Change c = {i, -1, pat, 0, 0};
            c.t1 = sim::stamp();
            W->chg.push_back(c);
            for (int l = 0; l < 7; l++) { c.lvl = l; c.what = l; W->chg.push_back(c); }
        }
        ll::thread_pool_shr_ptr pool;
        if (async) pool = make_pool((int)p.get("kind"), (size_t)p.get("q", 4), (size_t)p.get("w", 1));
        std::vector<std::shared_ptr<ll::logger> > lgs;
        for (int i = 0; i < nl; i++) {
            std::vector<ll::sink_shr_ptr> mine;
            std::string nm = i == 0 ? "con" : i == 1 ? "" : "a_second_console_logger";
            long mask = p.get(strf("sm%d", i).c_str(), 255);
            std::vector<int> idx;
            for (int k = 0; k < ns; k++) if (mask >> k & 1) { mine.push_back(sinks[k]); idx.push_back(k); }
            int lv = (int)p.get(strf("ll%d", i).c_str());
            {
                SIM_QUIET;
                W->lg_sinks.push_back(std::vector<int>(idx.begin(), idx.end()));
                W->lg_name.push_back(std::string(nm.c_str()));
                W->lg_level.push_back(lv);
            }
            std::shared_ptr<ll::logger> lg;
            if (async) lg = std::make_shared<ll::async_logger>(nm, mine.begin(), mine.end(), pool);
            else lg = std::make_shared<ll::logger>(nm, mine.begin(), mine.end());
            lg->set_log_level((ll::level::level_enum)lv);
            lgs.push_back(lg);
        }
        if (faulty) sim::faults_enable(~0u);
        run_threads(nth, [&](int t) {
            for (auto& o : ops_of(p, t)) {
                if (o.name == "log") {
                    int lg = (int)(o.a[0] % nl), lvl = (int)(o.a[1] % 7);
                    size_t id;
                    std::string text;
                    {
                        SIM_QUIET;
                        Msg m;
                        memset(&m, 0, sizeof m);
                        m.th = t; m.lg = lg; m.lvl = lvl; m.size = (size_t)o.a[2];
                        id = W->msg.size();
                        W->msg.push_back(m);
                        text = text_of(id).c_str();
                    }
                    { SIM_QUIET; W->msg[id].t0 = sim::stamp(); }
                    if (o.a[3] % 3 == 0) lgs[lg]->log((ll::level::level_enum)lvl, ll::fmt_string_view(text));
                    else if (o.a[3] % 3 == 1) lgs[lg]->log(ll::source_loc{}, (ll::level::level_enum)lvl, "{}", text);
                    else lgs[lg]->log((ll::level::level_enum)lvl, text);
                    SIM_QUIET;
                    std::string().swap(text);
                    W->msg[id].t1 = sim::stamp();
                    if (!async && !faulty && p.get("vis")) {
                        for (int k : W->lg_sinks[lg])
                            if (takes(W->msg[id], k) && (W->kind[k] == K_OUT || W->kind[k] == K_ERR || (W->kind[k] == K_OS && p.get("force"))))
                                CHECK(visible(id, k, fd_of(W->kind[k]) ? sim::vfs::out(fd_of(W->kind[k])) : W->os[k].data), "not-written", "message %zu is not on its stream (sink %d, kind %d) when log() returned", id, k, W->kind[k]);
                    }
                } else if (o.name == "flush") {
                    int lg = (int)(o.a[0] % nl);
                    u64 t0 = sim::stamp();
                    lgs[lg]->flush();
                    SIM_QUIET;
                    bool fifo = !async || p.get("kind") == PK_CONC || p.get("w") == 1;
                    if (!faulty && fifo && p.get("vis"))
                        for (size_t id = 0; id < W->msg.size(); id++) {
                            const Msg& m = W->msg[id];
                            if (m.lg != lg || m.th != t || !m.t1 || m.t1 > t0) continue;
                            for (int k : W->lg_sinks[lg])
                                if (takes(m, k)) CHECK(visible(id, k, fd_of(W->kind[k]) ? sim::vfs::out(fd_of(W->kind[k])) : W->os[k].data), "not-flushed", "message %zu is not on its stream (sink %d, kind %d) although it was flushed", id, k, W->kind[k]);
                        }
                } else if (o.name == "pat") {
                    int k = (int)(o.a[0] % ns), pat = (int)(o.a[1] % NPAT);
                    size_t c;
                    { SIM_QUIET; Change x = {k, -1, pat, sim::stamp(), 0}; c = W->chg.size(); x.t1 = ~0ull; W->chg.push_back(x); }
                    if (o.a[2] % 2) sinks[k]->set_pattern(PATS[pat]);
                    else sinks[k]->set_formatter(ll::make_unique<ll::sinks::pattern_formatter>(PATS[pat]));
                    SIM_QUIET;
                    W->chg[c].t1 = sim::stamp();
                } else if (o.name == "color") {
                    int k = (int)(o.a[0] % ns), lvl = (int)(o.a[1] % 7), what = 100 + (int)(o.a[2] % 4);
                    auto a = dynamic_cast<ll::sinks::ansicolor_sink<ll::base::static_mutex>*>(sinks[k].get());
                    if (!a) continue;
                    size_t c;
                    { SIM_QUIET; Change x = {k, lvl, what, sim::stamp(), ~0ull}; c = W->chg.size(); W->chg.push_back(x); }
                    a->set_level_color((ll::level::level_enum)lvl, ALT[what - 100]);
                    SIM_QUIET;
                    W->chg[c].t1 = sim::stamp();
                } else if (o.name == "sleep") sim::sleep_ns((u64)o.a[0] * 1000);
            }
        });
        size_t before;
        { SIM_QUIET; before = W->msg.size(); }
        for (auto& l : lgs) l->flush();
        sim::faults_enable(0);
        size_t doomed = 0;
        if (faulty) {
            // from the moment a stream of the caller has failed each message for it is one report
            {
                SIM_QUIET;
                // (counted where the flush above is known to wait for the messages of all threads)
                bool barrier = !p.get("async") || (p.get("kind") == PK_LOCK && p.get("w") == 1);
                if (barrier) for (auto& m : W->msg) for (int k : W->lg_sinks[m.lg]) doomed += takes(m, k) && W->os[k].bad && m.t0 > W->os[k].bad;
            }
            for (auto& s : streams) s->clear();
            // the stream works again: a message logged now is complete
            for (int i = 0; i < nl; i++) {
                size_t id;
                std::string text;
                {
                    SIM_QUIET;
                    Msg m;
                    memset(&m, 0, sizeof m);
                    m.th = 99; m.lg = i; m.lvl = 5; m.size = 5;
                    id = W->msg.size();
                    m.t0 = sim::stamp();
                    W->msg.push_back(m);
                    text = text_of(id).c_str();
                }
                lgs[i]->log(ll::level::critical, ll::fmt_string_view(text));
                { SIM_QUIET; std::string().swap(text); W->msg[id].t1 = sim::stamp(); }
                lgs[i]->flush();
            }
        }
        lgs.clear();
        pool.reset();
        sim::persistent(8);
        for (auto& s : streams) s->flush();
        ::fflush(stdout);
        SIM_QUIET;
        std::string out1 = sim::vfs::out(1), out2 = sim::vfs::out(2);
        const int reports = count_reports(out2);      // several workers: also what they report after the last flush
        const bool ordered = !async || p.get("kind") == PK_CONC || p.get("w") == 1;
        std::vector<int> on[3];
        for (int k = 0; k < ns; k++) on[fd_of(W->kind[k])].push_back(k);
        check_stream(out1, on[1], "stdout", faulty, ordered && !faulty);
        if (!faulty) check_stream(out2, on[2], "stderr", false, ordered);
        for (int k : on[0]) check_stream(W->os[k].data, std::vector<int>(1, k), "the ostream", faulty, ordered && !faulty);
        // every message once per sink
        size_t lost = 0;
        for (size_t id = 0; id < W->msg.size(); id++)
            for (int k : W->lg_sinks[W->msg[id].lg]) {
                int want = takes(W->msg[id], k);
                if (faulty) {
                    if (W->kind[k] == K_ERR || W->kind[k] == K_CERR) continue;
                    bool there = W->msg[id].seen[k] || visible(id, k, W->kind[k] == K_OS ? W->os[k].data : out1);
                    if (want && !there) {
                        lost++;
                        CHECK(id < before, "lost-after-errors", "message %zu was logged after the errors of the stream had ended, but is not complete on its stream (sink %d)", id, k);
                    }
                    continue;
                }
                CHECK(W->msg[id].seen[k] == want, "lost", "message %zu (level %s) is %d times on the stream of sink %d (kind %d, level %s)", id, LEVELS[W->msg[id].lvl], W->msg[id].seen[k], k, W->kind[k], LEVELS[W->slevel[k]]);
            }
        if (faulty && lost) CHECK(reports > 0, "lost-silently", "%zu messages are not complete on their streams and no error was reported", lost);
        if (faulty) CHECK((size_t)reports >= doomed, "lost-silently", "%zu messages went to streams that had failed before, and only %d errors were reported", doomed, reports);
        check_causes(out2, "learnlog::std_sink:");
        check_causes(out2, "learnlog::ansicolor_sink:");
        if (!faulty) CHECK(count_reports(out2) == 0, "report", "an error was reported: '%.100s'", out2.c_str());
        if (lost) sim::probe("messages lost to stream errors", lost);
        if (W->color[1] || W->color[2]) sim::probe("coloured runs");
    }
}

void base_gen(Rng& r, Plan& p, bool color) {
    int nt = r.chance(1, 4) ? 1 : (int)r.range(2, 4), ns = (int)r.range(1, 4), nl = (int)r.range(1, 3);
    p.set("ns", ns); p.set("nl", nl);
    for (int i = 0; i < ns; i++) {
        p.set(strf("k%d", i).c_str(), color && r.chance(3, 4) ? r.range(K_COUT, K_CERR) : (long)r.below(K_NUM));
        p.set(strf("p%d", i).c_str(), (long)r.below(NPAT));
        if (r.chance(1, 5)) p.set(strf("sl%d", i).c_str(), (long)r.below(7));
    }
    for (int i = 0; i < nl; i++) { if (r.chance(1, 2)) p.set(strf("sm%d", i).c_str(), r.range(1, (1 << ns) - 1)); if (r.chance(1, 5)) p.set(strf("ll%d", i).c_str(), (long)r.below(7)); }
    p.set("term", r.chance(1, 3) ? 1 : (long)r.below(NTERM));
    if (r.chance(1, 5)) p.set("colorterm", r.range(1, 3));
    if (r.chance(1, 6)) { p.set("envflip", 1); p.set("term2", (long)r.below(NTERM)); p.set("colorterm2", (long)r.below(4)); }
    p.set("tty", color ? r.range(1, 3) : (long)r.below(4));
    if (r.chance(1, 3)) p.set("async", 1);
    p.set("kind", (long)r.below(3));
    p.set("w", r.chance(2, 3) ? 1 : r.range(2, 3));
    p.set("q", r.range(1, 16));
    if (nt == 1 && !p.get("async")) p.set("st", r.chance(1, 2));
    if (r.chance(1, 2)) p.set("force", 1);
    if (r.chance(1, 2)) p.set("vis", 1);
    bool reconf = r.chance(1, 2);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 10);
        for (int i = 0; i < n; i++) {
            if (reconf && r.chance(1, 6)) p.add(t, "pat", (long)r.below(4), (long)r.below(NPAT), (long)r.below(2));
            else if (color && reconf && r.chance(1, 6)) p.add(t, "color", (long)r.below(4), (long)r.below(7), (long)r.below(4));
            else if (r.chance(1, 10)) p.add(t, "flush", (long)r.below(3));
            else if (r.chance(1, 40)) p.add(t, "sleep", (long)r.below(100));
            else p.add(t, "log", (long)r.below(3), (long)r.below(7), r.chance(1, 12) ? r.range(200, 5000) : (long)r.below(40), (long)r.below(3));
        }
    }
}
void gen_lines(Rng& r, Plan& p) { base_gen(r, p, false); }
void gen_color(Rng& r, Plan& p) { base_gen(r, p, true); }
void gen_errors(Rng& r, Plan& p) {
    base_gen(r, p, false);
    p.set("faulty", 1);
    for (int i = 0; i < p.get("ns"); i++) { const char* k = i == 0 ? "k0" : i == 1 ? "k1" : i == 2 ? "k2" : "k3"; long v = p.get(k); if (v == K_ERR) p.set(k, K_OUT); if (v == K_CERR) p.set(k, K_COUT); }
    if (r.chance(2, 3)) p.set("f.write_err", r.range(200, 4000));
    p.set("fmax.write_err", r.range(1, 10));
    if (r.chance(1, 2)) p.set("f.write_short", 1000);
    if (r.chance(1, 2)) {
        p.set("osf", 1);
        p.set("f.sink_throw", r.range(200, 4000));
        p.set("fmax.sink_throw", r.range(1, 4));
        if (r.chance(1, 3)) p.set("osx", 1);
    }
}
sim::Scenario s1("console_lines", gen_lines, run), s2("console_color", gen_color, run), s3("console_errors", gen_errors, run);
}

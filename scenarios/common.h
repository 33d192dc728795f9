// Shared pieces of the scenarios: recording sinks and thread helpers.
#pragma once
#include "sim.h"
#include "learnlog.h"
#include "logger.h"
#include "async_logger.h"
#include "sinks/basic_sink.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"

#include <atomic>
#include <deque>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

using sim::Plan;
using sim::Op;
using sim::Rng;
using sim::u64;
using sim::u32;
namespace ll = learnlog;

#define CHECK(cond, cls, ...) do { if (!(cond)) sim::violate(cls, __VA_ARGS__); } while (0)

inline std::string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// the ops of one thread, in order
inline std::vector<Op> ops_of(const Plan& p, int th) {
    std::vector<Op> v;
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].th == th) v.push_back(p.ops[i]);
    return v;
}

// run body(th) on n threads and join them
template <class F> void run_threads(int n, F body) {
    std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back([i, &body] { body(i); });
    for (auto& x : t) x.join();
}

enum PoolKind { PK_LOCK, PK_LOCKFREE, PK_CONC };
inline const char* pool_name(int k) { return k == PK_LOCK ? "lock" : k == PK_LOCKFREE ? "lockfree" : "lockfree_concurrent"; }
inline ll::thread_pool_shr_ptr make_pool(int kind, size_t q, size_t n) {
    if (kind == PK_LOCK) return std::make_shared<ll::base::lock_thread_pool>(q, n);
    if (kind == PK_LOCKFREE) return std::make_shared<ll::base::lockfree_thread_pool>(q, n);
    return std::make_shared<ll::base::lockfree_concurrent_thread_pool>(q, n);
}
inline ll::thread_pool_shr_ptr make_pool(int kind, size_t q, size_t n, std::function<void()> a, std::function<void()> b) {
    if (kind == PK_LOCK) return std::make_shared<ll::base::lock_thread_pool>(q, n, a, b);
    if (kind == PK_LOCKFREE) return std::make_shared<ll::base::lockfree_thread_pool>(q, n, a, b);
    return std::make_shared<ll::base::lockfree_concurrent_thread_pool>(q, n, a, b);
}

// number of error reports on the simulated stderr
// some machines have a coarse wall clock
inline void coarse_clock_gen(Rng& r, Plan& p) {
    static const long g[] = {1000, 1000000, 15625000, 1000000000};
    if (r.chance(1, 5)) p.set("wgran", g[r.below(4)]);
}
inline void coarse_clock(const Plan& p) { sim::set_wall_granularity((u64)p.get("wgran")); }
// a report about something whose name begins with `who` says why a call failed: with an error some call did fail with
inline void check_causes(const std::string& err, const char* who) {
    SIM_QUIET;
    for (size_t b = 0; (b = err.find(who, b)) != std::string::npos; b++) {
        size_t e = err.find("\n[location", b), next = err.find("[*** EXCEPTION #", b);
        if (e == std::string::npos || e > next) continue;       // not the error of a call
        std::string why = err.substr(b, e - b);
        bool named = false;
        for (int k = 1; k < 134 && !named; k++) {
            std::string w = std::string(": ") + ::strerror(k);
            named = sim::failed_with(k) && why.size() > w.size() && why.compare(why.size() - w.size(), w.size(), w) == 0;
        }
        CHECK(named, "wrong-cause", "'%s' names an error with which no call has failed", why.c_str());
        sim::probe("report names its cause");
    }
}
inline int count_reports(const std::string& err) {
    int n = 0;
    for (size_t p = 0; (p = err.find("[*** EXCEPTION #", p)) != std::string::npos; p++) n++;
    return n;
}

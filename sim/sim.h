// Deterministic simulator: public interface used by the scenarios (C++11) and by the runtime itself.
// Everything a scenario may call is in namespace sim.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- PRNG (splitmix64 / xorshift)
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }   // inclusive
    bool chance(u32 num, u32 den) { return below(den) < num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};

// ---------------------------------------------------------------- plan: the workload of one run, as text
struct Op {
    int th;
    std::string name;
    long a[5];
};
struct Plan {
    std::string scenario;
    std::vector<std::pair<std::string, long> > cfg;
    std::vector<Op> ops;
    long get(const char* k, long def = 0) const;
    void set(const char* k, long v);
    bool has(const char* k) const;
    void add(int th, const char* name, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0, long a4 = 0);
    std::string text() const;
    bool parse(const std::string& s);
    int nthreads() const;               // 1 + highest thread number used by ops
};

// ---------------------------------------------------------------- scenario registration
struct Scenario {
    const char* name;
    void (*gen)(Rng& rng, Plan& plan);          // runs outside the simulation
    void (*run)(const Plan& plan, int incarnation);   // runs as the simulated process's main thread
    int weight;                                  // share of the runs
    int max_incarnations;                        // > 1: a crash restarts the process on the same disk
    Scenario* next;
    Scenario(const char* n, void (*g)(Rng&, Plan&), void (*r)(const Plan&, int), int w = 10, int inc = 1);
};

// ---------------------------------------------------------------- runtime control
extern int g_quiet;                    // >0: hooks are inert (runtime, oracle and driver code)
struct Quiet {                         // RAII: oracle code that must not be part of the simulated program
    __attribute__((noinline, no_sanitize("thread"))) Quiet() { ++g_quiet; }
    __attribute__((noinline, no_sanitize("thread"))) ~Quiet() { --g_quiet; }
};

[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void infra_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void end_run();            // finish this run now, as passed
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));     // appended to the run's log
void probe(const char* name, u64 n = 1);  // "this rare condition was hit"

u64 stamp();                           // global event sequence number
u64 steps();                           // steps executed so far
u64 now_ns();                          // simulated steady clock
u64 wall_ns();                         // simulated wall clock (ns since the epoch)
void jump_wall(long long delta_ns);    // step the wall clock
void set_wall_granularity(u64 ns);     // the wall clock advances in steps of this size (0: 1 ns)
void set_tz(long off_s, u64 change_s = 0, long off2_s = 0);   // local time is off_s (from change_s on off2_s) seconds ahead of UTC
int  self();                           // current simulated thread number
int  incarnation();
void yield_point();                    // a voluntary scheduling point
void sleep_ns(u64 ns);
bool fair_mode();                      // true once the run is past its step budget (faults off, round robin)
void set_thread_name(const char* n);

// wait (as a blocked simulated thread) until pred() holds; the scheduler evaluates pred
void wait_until(const std::function<bool()>& pred);

// happens-before edges between scenario threads that communicate through oracle state
void sync_release(const void* key);
void sync_acquire(const void* key);

// crash point: at a random later step of this run the process dies. Chosen by the plan ("crash_at").
void arm_crash();
void disarm_crash();

// run thread_local destructors of the calling thread and then the atexit handlers registered inside the simulation
void run_exit_handlers();

// number of live (not finished) simulated threads, including the caller
int live_threads();
// thread numbers created so far
int threads_created();

// memory that survives a crash of the simulated process (zeroed at the start of a run)
void* persistent(size_t bytes);

// heap blocks and bytes the simulated program (not the oracle) holds now, and those allocated since a mark
u64 heap_blocks();
u64 heap_bytes();
u64 heap_mark();
std::string heap_since(u64 mark);

// ---------------------------------------------------------------- faults
enum Fault {
    F_OPEN_ERR, F_WRITE_ERR, F_WRITE_SHORT, F_WRITE_SLOW, F_FSYNC_ERR, F_CLOSE_ERR, F_MKDIR_ERR, F_STAT_ERR, F_RENAME_ERR, F_FDOPEN_ERR,
    F_OOM, F_SPURIOUS, F_EINTR, F_TIME_LEAP, F_WALL_JUMP, F_STALL, F_CRASH, F_POWERLOSS, F_DISK_FULL, F_SINK_THROW, F_THREAD_ERR, F_NUM
};
extern const char* const fault_names[F_NUM];
void faults_enable(u32 mask);          // bit mask of enabled kinds (default: all that the plan configures)
u32  faults_mask();
bool fault(Fault f);                   // does this fault fire here? (records occurrence)
u64  fault_count(Fault f);             // fired so far in this run
bool failed_with(int e);               // some simulated system call of this run has failed with this error number
void oom_scope(bool on);               // allocations by the calling thread may fail while on

// ---------------------------------------------------------------- virtual file system (state survives crashes)
namespace vfs {
bool exists(const std::string& path);
bool is_dir(const std::string& path);
std::string read_file(const std::string& path);          // whole content
void write_file(const std::string& path, const std::string& data);
bool mkdirs(const std::string& path);
bool remove(const std::string& path);
std::vector<std::string> list();                         // every path, sorted
void set_capacity(u64 bytes);                            // disk full beyond this many bytes in files
u64  used_bytes();
void set_readonly(const std::string& prefix, bool on);   // creations below prefix fail
std::string out(int fd);                                 // bytes written to 1 / 2
std::string take_out(int fd);                            // ... and forget them
void power_loss(u64 seed);                               // drop what no fsync made durable
int  live_files();                                       // open FILE objects
int  open_fds();
struct Stats { u64 opens, writes, bytes, fsyncs, closes, mkdirs, renames, removes, open_fail, write_fail; };
Stats stats();
void set_healthy(const std::string& path);               // this file never fails, whatever the faults and the capacity are
void set_tty(int fd, bool on);
void set_fault_stdout(bool on);                          // write faults may hit stdout too
void set_bufsize(size_t n);                              // stdio buffer size of files opened from now on (0: default)
}
void set_env(const char* name, const char* value);       // environment seen by the simulated process

}  // namespace sim

#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_QUIET sim::Quiet SIM_CAT(simq_, __LINE__)

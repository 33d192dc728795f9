// Scheduler, virtual time, happens-before race detector and the __tsan_* entry points the instrumented code calls.
#include "rt.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

extern "C" char __data_start, _end, __executable_start, etext;
extern "C" void* __libc_malloc(size_t);

namespace sim {

int g_quiet = 1;
int g_active = 0;
int g_inc = 0;
Result* g_res = nullptr;
GlobalCov* g_cov = nullptr;
Thread* g_cur = nullptr;
u64 g_steps = 0;

static Thread g_threads[MAXT];
static int g_nthreads = 0;
static u64 g_hash = 1469598103934665603ull;
static u64 g_stamp = 0;
static u64 g_progress = 0;
static u64 g_time_leap = 0;           // ns added to the clock by jumps
static long long g_wall_off = 0;      // wall clock offset
static u64 g_step_ns = 20;
static const u64 BASE_STEADY = 1000ull * 1000000000ull;
static const u64 BASE_WALL = 1726000000ull * 1000000000ull;     // 2024-09-10 20:26:40 UTC

static Rng g_rs(1), g_rf(2), g_rt(3);  // schedule, faults, positions of stalls and clock leaps (also drawn when replaying)
static bool g_yield_flag = false;     // the current thread wants to let others run at its next step
static bool g_resched = false;        // PCT: a thread woke up, priorities must be looked at again
static const Plan* g_plan = nullptr;
static const RunMode* g_mode = nullptr;

// strategy
enum Strat { ST_RANDOM, ST_PCT, ST_RR, ST_REPLAY };
static int g_strat = ST_RANDOM;
static u64 g_skip[3];                 // countdown per step class
static double g_prob[3];
static u64 g_event_at;                // global step of the next scheduler event
static u64 g_quantum, g_last_switch;
static u64 g_max_steps, g_fair_cap;
static bool g_fair = false;
static u64 g_crash_at = 0;
static std::vector<u64>* g_pct_points;
static size_t g_pct_i;
static int g_pct_low = 0;
static u64 g_stall_at = 0, g_stall_len = 0;
static u32 g_spin_limit = 48;
static u32 g_allspin = 0;
static u64 g_leap_at = 0;

// replay
static std::vector<Seg>* g_seg;
static u64 g_replay_cut = 200000;           // replay: a thread that runs longer than any recorded segment gives way
static size_t g_seg_i;
static std::map<u32, u32>* g_choice;
static u32 g_choice_i;
static std::map<u64, u32>* g_fault_at;
static u32 g_fault_occ[F_NUM];
static u64 g_fault_fired[F_NUM];
static u32 g_fault_rate[F_NUM];
static u64 g_fault_max[F_NUM];
static u32 g_fault_mask = ~0u;
static u32 g_last_param;

const char* const fault_names[F_NUM] = {
    "open_err", "write_err", "write_short", "write_slow", "fsync_err", "close_err", "mkdir_err", "stat_err", "rename_err", "fdopen_err",
    "oom", "spurious", "eintr", "time_leap", "wall_jump", "stall", "crash", "powerloss", "disk_full", "sink_throw", "thread_err"};

// ------------------------------------------------------------------------------------------------ small helpers
static long raw_futex(volatile int* a, int op, int v) {
    long r;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "0"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return r;
}

void hash_event(u64 v) {
    g_hash ^= v + 0x9E3779B97F4A7C15ull + (g_hash << 6) + (g_hash >> 2);
    g_hash *= 0xff51afd7ed558ccdull;
    g_hash ^= g_hash >> 29;
}

[[noreturn]] void child_exit(int status) {
    g_quiet = 1000;
    Result* r = g_res;
    if (status != S_CRASHED && g_cur && r->nseg < MAXSEG) {      // who ran last
        Seg& s = r->seg[r->nseg++];
        s.tid = g_cur->id; s.kind = 'E'; s.inc = g_inc; s.end = (u32)g_cur->lsteps; s.pad = 0;
    }
    hash_event(g_steps);
    r->hash = g_hash ^ (r->hash * 31);
    r->steps += g_steps;
    r->sim_ns += now_ns() - BASE_STEADY;
    if ((u32)g_nthreads > r->nthreads) r->nthreads = g_nthreads;
    for (int i = 0; i < F_NUM; i++) r->faults[i] += g_fault_fired[i];
    if (g_fair) r->fair = 1;
    r->status = status;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

void violate(const char* cls, const char* f, ...) {
    ++g_quiet;
    if (g_res->status == S_NONE) {
        va_list ap;
        va_start(ap, f);
        vsnprintf(g_res->msg, sizeof g_res->msg, f, ap);
        va_end(ap);
        snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    }
    child_exit(S_VIOLATION);
}

void infra_error(const char* f, ...) {
    ++g_quiet;
    va_list ap;
    va_start(ap, f);
    vsnprintf(g_res->msg, sizeof g_res->msg, f, ap);
    va_end(ap);
    snprintf(g_res->cls, sizeof g_res->cls, "infra");
    child_exit(S_INFRA);
}

void end_run() { child_exit(S_PASS); }

void note(const char* f, ...) {
    ++g_quiet;
    char b[600];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b - 2, f, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    char pre[64];
    int k = g_cur ? snprintf(pre, sizeof pre, "[%d.t%d step %llu] ", g_inc, g_cur->id, (unsigned long long)g_steps) : 0;
    if (g_res && g_res->note_len + n + k + 2 < MAXNOTE) {
        memcpy(g_res->note + g_res->note_len, pre, k);
        memcpy(g_res->note + g_res->note_len + k, b, n);
        g_res->note_len += n + k;
        g_res->note[g_res->note_len++] = '\n';
    }
    --g_quiet;
}

void probe(const char* name, u64 n) {
    Result* r = g_res;
    for (u32 i = 0; i < r->nprobe; i++)
        if (!strncmp(r->probes[i].name, name, sizeof r->probes[i].name - 1)) { r->probes[i].n += n; return; }
    if (r->nprobe < MAXPROBE) {
        strncpy(r->probes[r->nprobe].name, name, sizeof r->probes[0].name - 1);
        r->probes[r->nprobe++].n = n;
    }
}

u64 stamp() { return ++g_stamp; }
u64 steps() { return g_steps; }
u64 now_ns() { return BASE_STEADY + g_steps * g_step_ns + g_time_leap; }
static u64 g_wall_gran;
static u64 raw_wall_ns() { return BASE_WALL + (g_steps * g_step_ns + g_time_leap) + (u64)g_wall_off; }
u64 wall_ns() { u64 t = raw_wall_ns(); return g_wall_gran ? t / g_wall_gran * g_wall_gran : t; }
void set_wall_granularity(u64 ns) { g_wall_gran = ns; }
void jump_wall(long long d) { g_wall_off += d; ++g_fault_fired[F_WALL_JUMP]; hash_event((u64)d); }
int self() { return g_cur ? g_cur->id : -1; }
int incarnation() { return g_inc; }
bool fair_mode() { return g_fair; }
void set_thread_name(const char* n) { if (g_cur) g_cur->name = n; }
int threads_created() { return g_nthreads; }
int live_threads() {
    int n = 0;
    for (int i = 0; i < g_nthreads; i++) n += g_threads[i].st != T_DONE;
    return n;
}

// ------------------------------------------------------------------------------------------------ arena and shadow
static const uptr ARENA = 0x100000000000ul;
static const uptr ARENA_SIZE = 1ul << 30;
static const uptr HEAP_SIZE = 768ul << 20;
static const uptr STACKS = ARENA + HEAP_SIZE;
static const uptr STACK_SIZE = 256ul << 10;
static const uptr SHADOW = 0x200000000000ul;         // 32 bytes per 8
static const uptr SHADOWPC = 0x300000000000ul;       // 16 bytes per 8
static uptr g_brk = ARENA + 64;
static uptr g_data_lo, g_data_size;
static u64* g_dshadow; static u32* g_dshadowpc;

static const u64 SH_FREED = ~0ull, SH_RED = ~0ull - 1;

void arena_setup() {
    static bool done = false;
    if (done) return;
    done = true;
    auto map = [](uptr a, uptr n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { fprintf(stderr, "sim: cannot map arena at %lx\n", a); exit(2); }
    };
    map(ARENA, ARENA_SIZE);
    map(SHADOW, ARENA_SIZE / 8 * 32);
    map(SHADOWPC, ARENA_SIZE / 8 * 16);
    g_data_lo = (uptr)&__data_start & ~7ul;
    g_data_size = (((uptr)&_end + 7) & ~7ul) - g_data_lo;
    map(0x400000000000ul, (g_data_size / 8 * 32 + 4095) & ~4095ul);
    map(0x500000000000ul, (g_data_size / 8 * 16 + 4095) & ~4095ul);
    g_dshadow = (u64*)0x400000000000ul;
    g_dshadowpc = (u32*)0x500000000000ul;
}

static inline bool shadow_of(uptr a, u64*& s, u32*& p) {
    uptr o = a - ARENA;
    if (__builtin_expect(o < ARENA_SIZE, 1)) {
        s = (u64*)(SHADOW + (o >> 3) * 32);
        p = (u32*)(SHADOWPC + (o >> 3) * 16);
        return true;
    }
    o = a - g_data_lo;
    if (o < g_data_size) {
        s = g_dshadow + (o >> 3) * 4;
        p = g_dshadowpc + (o >> 3) * 4;
        return true;
    }
    return false;
}

struct Hdr { u64 size; u32 magic; u32 freed_pc; };      // 16 bytes before the block
bool arena_owns(const void* p) { uptr o = (uptr)p - ARENA; return o < HEAP_SIZE; }
size_t arena_size(const void* p) { return ((const Hdr*)p)[-1].size; }

static bool g_freeing;
static void mark(uptr lo, uptr hi, u64 v, u32 pc) {
    for (uptr a = lo & ~7ul; a < hi; a += 8) {
        u64* s; u32* p;
        if (!shadow_of(a, s, p)) return;
        s[0] = v; p[0] = pc;
    }
}

static u64 g_app_blocks, g_app_bytes;                    // what the simulated program (not the oracle) holds
u64 heap_blocks() { return g_app_blocks; }
u64 heap_bytes() { return g_app_bytes; }
u64 heap_mark() { return g_brk; }
std::string heap_since(u64 mark) {                       // blocks allocated since the mark and still held
    std::string r;
    int n = 0;
    for (uptr a = (mark + 15) & ~15ul; a < g_brk; a += 16) {
        Hdr* h = (Hdr*)a;
        if ((h->magic != 0xA110C8ED && h->magic != 0xA110C8EE && h->magic != 0xF3EEDF3E) || h->size > HEAP_SIZE) continue;
        if (h->magic == 0xA110C8ED && n++ < 12) { char b[64]; snprintf(b, sizeof b, " %lu bytes (near pc %x)", (unsigned long)h->size, h->freed_pc); r += b; }
        a += (h->size + 15) & ~15ul;
    }
    return r;
}

void* arena_alloc(size_t n, size_t align) {
    if (align < 16) align = 16;
    uptr a = g_brk + sizeof(Hdr);
    a = (a + align - 1) & ~(align - 1);
    uptr end = (a + n + 15) & ~15ul;
    if (end + 64 > ARENA + HEAP_SIZE) violate("memory-exhausted", "simulated heap of %lu MB used up", HEAP_SIZE >> 20);
    g_brk = end + 16;
    Hdr* h = (Hdr*)a - 1;
    h->size = n; h->magic = g_quiet ? 0xA110C8EE : 0xA110C8ED; h->freed_pc = g_cur ? g_cur->last_pc : 0;   // until then: where from
    if (!g_quiet) { g_app_blocks++; g_app_bytes += n; }
    mark((uptr)h, a, SH_RED, 0);
    mark(end, end + 16, SH_RED, 0);
    if (n <= 8192) memset((void*)a, 0xCD, n);
    return (void*)a;
}

void arena_free(void* p, u32 pc) {
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == 0xF3EEDF3E) violate("double-free", "double free of %zu bytes: first freed at pc %x, again at pc %x", (size_t)h->size, h->freed_pc, pc);
    if (h->magic != 0xA110C8ED && h->magic != 0xA110C8EE) violate("bad-free", "free of a pointer that is not an allocation (pc %x)", pc);
    size_t n = h->size;
    // a free is checked against plain accesses only: an exiting thread's last atomic store, seen with a relaxed load, is no fault
    if (g_quiet == 0 && n) { g_freeing = true; mem_access(p, n > 4096 ? 4096 : n, true, pc); g_freeing = false; }
    if (h->magic == 0xA110C8ED) { g_app_blocks--; g_app_bytes -= n; }
    h->magic = 0xF3EEDF3E;
    h->freed_pc = pc;
    uptr a = (uptr)p;
    if (n <= 65536) {
        memset(p, 0xDD, n);
        mark(a, a + n, SH_FREED, pc);
    } else {
        mark(a, a + 16384, SH_FREED, pc);
        uptr lo = (a + 16384 + 4095) & ~4095ul, hi = (a + n) & ~4095ul;
        if (hi > lo) mprotect((void*)lo, hi - lo, PROT_NONE);
    }
}

// ------------------------------------------------------------------------------------------------ race detector
// shadow slot: [31:0] epoch, [39:32] tid, [47:40] byte mask, 48 write, 49 atomic, 50 valid
static inline u64 mkslot(u32 ep, int tid, u32 mask, bool w, bool at) {
    return (u64)ep | (u64)tid << 32 | (u64)mask << 40 | (u64)w << 48 | (u64)at << 49 | 1ull << 50;
}

static const char* tname(int t) { return g_threads[t].name ? g_threads[t].name : "thread"; }

__attribute__((noinline, noreturn)) static void report_race(uptr a, u64 old, u32 oldpc, bool w, bool at, u32 pc) {
    int ot = (old >> 32) & 0xff;
    g_res->loc[0] = oldpc; g_res->loc[1] = pc;
    strcpy(g_res->loc_kind, "race");
    violate("data-race", "data race at %#lx: %s%s by t%d (%s) at pc %x, then unordered %s%s by t%d (%s) at pc %x", a,
            (old >> 49 & 1) ? "atomic " : "", (old >> 48 & 1) ? "write" : "read", ot, tname(ot), oldpc, at ? "atomic " : "",
            w ? "write" : "read", g_cur->id, tname(g_cur->id), pc);
}
__attribute__((noinline, noreturn)) static void report_mem(uptr a, u64 s, u32 spc, bool w, u32 pc) {
    g_res->loc[0] = spc; g_res->loc[1] = pc;
    strcpy(g_res->loc_kind, s == SH_FREED ? "freed" : "redzone");
    if (s == SH_FREED) violate("use-after-free", "%s of freed memory at %#lx by t%d (%s) at pc %x, freed at pc %x", w ? "write" : "read", a, g_cur->id, tname(g_cur->id), pc, spc);
    violate("out-of-bounds", "%s outside an allocation at %#lx by t%d (%s) at pc %x", w ? "write" : "read", a, g_cur->id, tname(g_cur->id), pc);
}

static inline void cell_access(uptr a, u32 mask, bool w, bool at, u32 pc) {
    u64* s; u32* p;
    if (!shadow_of(a, s, p)) return;
    Thread* me = g_cur;
    u64 ns = mkslot(me->epoch, me->id, mask, w, at);
    if (s[0] == ns || s[1] == ns) return;
    if (__builtin_expect(s[0] >= SH_RED, 0)) report_mem(a, s[0], p[0], w, pc);
    int put = -1, empty = -1;
    for (int i = 0; i < 4; i++) {
        u64 o = s[i];
        if (!o) { if (empty < 0) empty = i; continue; }
        u32 om = (o >> 40) & 0xff;
        int ot = (o >> 32) & 0xff;
        bool ow = o >> 48 & 1, oa = o >> 49 & 1;
        if (ot == me->id) {
            if ((om & ~mask) == 0 && (w || !ow) && (!at || oa)) {       // new access is at least as strong
                if (put < 0) put = i; else s[i] = 0;
            } else if ((mask & ~om) == 0 && (ow || !w) && (!oa || at) && (u32)o == me->epoch)
                return;                                                 // already covered in this epoch
            continue;
        }
        if (!(om & mask) || !(w || ow) || (oa && (at || g_freeing))) continue;
        if ((u32)o > me->vc.c[ot]) report_race(a, o, p[i], w, at, pc);
        if ((om & ~mask) == 0 && w && !at && put < 0) put = i;          // ordered before a covering write
    }
    if (put < 0) put = empty >= 0 ? empty : (int)(g_steps & 3);
    s[put] = ns;
    p[put] = pc;
}

static inline void rd_access(uptr a, u32 n, bool w, bool at, u32 pc) {
    u32 off = a & 7;
    if (off + n <= 8) { cell_access(a & ~7ul, ((1u << n) - 1) << off, w, at, pc); return; }
    uptr end = a + n;
    while (a < end) {
        off = a & 7;
        u32 k = 8 - off;
        if (a + k > end) k = end - a;
        cell_access(a & ~7ul, ((1u << k) - 1) << off & 0xff, w, at, pc);
        a += k;
    }
}

void mem_access(const void* p, size_t n, bool write, u32 pc) {
    if (!n || !g_cur) return;
    rd_access((uptr)p, n, write, false, pc);
}

// ------------------------------------------------------------------------------------------------ sync objects
static const u32 SYN_N = 1 << 18;
static SyncObj** g_syn;
static SyncObj* g_syn_pool; static u32 g_syn_used, g_syn_cap;

SyncObj* sync_get(const void* addr, int kind) {
    uptr k = (uptr)addr;
    u32 h = (u32)((k * 0x9E3779B97F4A7C15ull) >> 40) & (SYN_N - 1);
    for (u32 i = 0;; i++) {
        SyncObj* s = g_syn[(h + i) & (SYN_N - 1)];
        if (!s) {
            if (i > SYN_N / 2) infra_error("too many sync objects");
            if (g_syn_used == g_syn_cap) {
                g_syn_cap = 1024;
                g_syn_used = 0;
                g_syn_pool = (SyncObj*)mmap(0, sizeof(SyncObj) * g_syn_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            }
            s = &g_syn_pool[g_syn_used++];
            s->key = k; s->kind = kind;
            g_syn[(h + i) & (SYN_N - 1)] = s;
            return s;
        }
        if (s->key == k) return s;
    }
}

static inline void vc_join(VC& a, const VC& b, int n) {
    for (int i = 0; i < n; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static inline void tick(Thread* t) { t->epoch++; t->vc.c[t->id] = t->epoch; }

void hb_acquire(SyncObj* s) { if (s->has_vc) vc_join(g_cur->vc, s->vc, g_nthreads); }
void hb_release(SyncObj* s) {
    vc_join(s->vc, g_cur->vc, g_nthreads);
    s->has_vc = true;
    tick(g_cur);
}

// ------------------------------------------------------------------------------------------------ scheduling
static bool g_jumped = false;         // the clock was leapt although some thread could run: goes into the trace
static void rec_seg(Thread* t, char kind) {
    Result* r = g_res;
    if (r->nseg >= MAXSEG) { r->overflow = 1; return; }
    Seg& s = r->seg[r->nseg++];
    s.tid = t->id; s.kind = kind; s.inc = g_inc; s.end = (u32)t->lsteps; s.pad = g_jumped;
    g_jumped = false;
}

// deadlines on the wall clock carry a mark, so that stepping that clock moves them
static const u64 WALL_DEADLINE = 1ull << 63;
static bool passed(u64 d) { return d & WALL_DEADLINE ? raw_wall_ns() >= (d & ~WALL_DEADLINE) : now_ns() >= d; }
static u64 steady_of(u64 d) {
    if (!(d & WALL_DEADLINE)) return d;
    u64 t = d & ~WALL_DEADLINE, w = raw_wall_ns();
    return t > w ? now_ns() + (t - w) : now_ns();
}
static bool timer_due(Thread* t) { return t->wake && passed(t->wake); }

static bool runnable(Thread* t) {
    switch (t->st) {
    case T_NONE: case T_DONE: return false;
    case T_RUN: return true;
    case T_PRED: return (*t->pred)() || timer_due(t);
    default: return timer_due(t);
    }
}

static void make_runnable(Thread* t) {
    if (t->st != T_RUN) {
        t->timed_out = timer_due(t) && !t->signaled;
        t->st = T_RUN;
        t->wake = 0;
    }
    t->spinning = false;
}

static inline void want_resched();
void wake_waiters(TState st, void* obj) {
    g_progress++;
    want_resched();
    for (int i = 0; i < g_nthreads; i++) {
        Thread* t = &g_threads[i];
        if (t->st == st && t->wobj == obj) { t->signaled = true; t->st = T_RUN; t->wake = 0; t->spinning = false; t->timed_out = false; }
    }
}

static void describe_blocked(char* b, size_t n) {
    static const char* st[] = {"none", "runnable", "mutex", "condition variable", "join", "semaphore", "futex", "sleep", "once", "predicate", "file lock", "rwlock", "done"};
    size_t k = 0;
    for (int i = 0; i < g_nthreads && k + 80 < n; i++) {
        Thread* t = &g_threads[i];
        if (t->st == T_DONE) continue;
        k += snprintf(b + k, n - k, " t%d(%s):%s last pc %x", i, tname(i), t->st == T_RUN && t->spinning ? "spinning" : st[t->st], t->last_pc);
    }
}

static void rearm() {
    if (g_fair || g_strat == ST_RR) {
        g_skip[0] = g_skip[1] = g_skip[2] = ~0ull;
        return;
    }
    for (int c = 0; c < 3; c++)
        if (g_prob[c] <= 0) g_skip[c] = ~0ull;
}
static u64 sample_skip(int c) {
    if (g_prob[c] <= 0 || g_fair) return ~0ull;
    if (g_prob[c] >= 1) return 1;
    double u = g_rs.unit();
    u64 k = 1;
    // geometric via inversion
    double x = __builtin_log(1 - u) / __builtin_log(1 - g_prob[c]);
    if (x > 1e15) return ~0ull;
    k = 1 + (u64)x;
    return k;
}

static void set_event() {
    u64 e = g_last_switch + g_quantum;
    if (g_strat == ST_REPLAY && g_seg_i < g_seg->size()) {
        const Seg& s = (*g_seg)[g_seg_i];
        e = g_last_switch + g_replay_cut;
        if (s.tid == (u32)g_cur->id && s.kind == 'V') {
            u64 at = s.end > g_cur->lsteps ? g_steps + (s.end - g_cur->lsteps) : g_steps + 1;
            if (at < e) e = at;
        }
    }
    if (!g_fair && g_max_steps < e) e = g_max_steps;
    if (g_fair && g_fair_cap < e) e = g_fair_cap;
    if (g_crash_at && g_crash_at < e) e = g_crash_at;
    if (g_strat == ST_PCT && !g_fair && g_pct_i < g_pct_points->size() && (*g_pct_points)[g_pct_i] < e) e = (*g_pct_points)[g_pct_i];
    if (g_stall_at && g_stall_at < e && !g_fair) e = g_stall_at;
    if (g_leap_at && g_leap_at < e && !g_fair) e = g_leap_at;
    if (e <= g_steps) e = g_steps + 1;
    g_event_at = e;
}

static void switch_to(Thread* t, char kind) {
    Thread* me = g_cur;
    make_runnable(t);
    g_last_switch = g_steps;
    g_yield_flag = g_resched = false;
    if (t == me && !g_jumped && kind == 'V') { set_event(); return; }     // a thread whose wait ends at once starts a new segment
    rec_seg(me, kind);
    if (t == me) { hash_event(0x60000 + me->lsteps); set_event(); return; }
    g_res->switches++;
    if (kind == 'V') g_res->preempts++;
    hash_event((u64)me->lsteps << 16 | (u64)me->id << 8 | t->id);
    if (g_cov) {
        u32 e = (me->last_pc * 2654435761u ^ (t->last_pc * 40503u + (t->last_pc >> 7))) & ((1u << 20) - 1);
        u64 bit = 1ull << (e & 63);
        if (!(g_cov->edges[e >> 6] & bit)) __sync_fetch_and_or(&g_cov->edges[e >> 6], bit);
    }
    if (g_strat == ST_REPLAY && g_seg_i < g_seg->size() && (*g_seg)[g_seg_i].tid == (u32)me->id) g_seg_i++;
    me->saved_quiet = g_quiet;
    g_cur = t;
    set_event();
    t->baton = 1;
    raw_futex(&t->baton, FUTEX_WAKE_PRIVATE, 1);
    while (!me->baton) raw_futex(&me->baton, FUTEX_WAIT_PRIVATE, 0);
    me->baton = 0;
    g_quiet = me->saved_quiet;
}

static u64 next_timer() {
    u64 w = 0;
    for (int i = 0; i < g_nthreads; i++) {
        Thread* t = &g_threads[i];
        if (t->st != T_DONE && t->st != T_NONE && t->st != T_RUN && t->wake && (!w || steady_of(t->wake) < w)) w = steady_of(t->wake);
    }
    return w;
}

static bool is_spinning(Thread* t) {
    if (t->spinning && t->spin_epoch != g_progress) { t->spinning = false; t->spin = 0; }
    return t->spinning;
}

// choose who runs next. cur_ok: the current thread may keep running. Returns nullptr if nobody can run, ever.
static Thread* pick(bool cur_ok, bool want_other) {
    Thread* me = g_cur;
    const bool scripted = g_strat == ST_REPLAY && g_seg_i < g_seg->size();
    if (scripted && (*g_seg)[g_seg_i].tid == (u32)me->id && (*g_seg)[g_seg_i].pad) {
        u64 w = next_timer();
        if (w && now_ns() < w) g_time_leap += w - now_ns();
        g_jumped = true;
    }
    for (int round = 0;; round++) {
        Thread* c[MAXT]; int n = 0;
        Thread* sp[MAXT]; int ns = 0;
        Thread* stl[MAXT]; int nst = 0;
        for (int i = 0; i < g_nthreads; i++) {
            Thread* t = &g_threads[i];
            if (t == me && !cur_ok) { if (t->st == T_RUN) continue; }
            if (!runnable(t)) continue;
            if (t->stalled_until > g_steps && !g_fair) { stl[nst++] = t; continue; }
            if (is_spinning(t)) sp[ns++] = t; else c[n++] = t;
        }
        if (n + ns + nst == 0) {
            // jump the clock to the next timer
            u64 w = next_timer();
            if (!w) return nullptr;
            if (now_ns() < w) { g_time_leap += w - now_ns(); g_res->timer_jumps++; }
            continue;
        }
        if (n + ns == 0) { for (int i = 0; i < nst; i++) { stl[i]->stalled_until = 0; c[n++] = stl[i]; } }
        if (n == 0 && ns > 0) {
            // everybody that can run is spinning: let timers fire
            g_allspin++;
            u64 w = next_timer();
            if (nst) { for (int i = 0; i < nst; i++) { stl[i]->stalled_until = 0; c[n++] = stl[i]; } }
            else if (!scripted && w && g_allspin % (2 * ns + 1) == 0) {
                if (now_ns() < w) { g_time_leap += w - now_ns(); g_res->timer_jumps++; g_jumped = true; }
                continue;
            }
            g_spin_limit = 4000;
        } else {
            g_spin_limit = 48;
            g_allspin = 0;
        }
        Thread** set = n ? c : sp;
        int m = n ? n : ns;
        // replay: the next recorded segment that can run
        if (g_strat == ST_REPLAY) {
            size_t j = g_seg_i;
            if (j < g_seg->size() && (*g_seg)[j].tid == (u32)me->id) j++;
            while (j < g_seg->size()) {
                u32 id = (*g_seg)[j].tid;
                for (int k = 0; k < n; k++) if (c[k]->id == (int)id) { g_seg_i = j; return c[k]; }
                for (int k = 0; k < ns; k++) if (sp[k]->id == (int)id) { g_seg_i = j; return sp[k]; }
                for (int k = 0; k < nst; k++) if (stl[k]->id == (int)id) { g_seg_i = j; return stl[k]; }
                if (id == (u32)me->id && cur_ok && me->st == T_RUN) { g_seg_i = j; return me; }
                j++;
            }
            g_seg_i = j;
        }
        if (g_fair || g_strat == ST_RR || g_strat == ST_REPLAY) {
            // round robin by thread number
            for (int d = 1; d <= MAXT; d++) {
                int id = (me->id + d) % MAXT;
                for (int k = 0; k < m; k++) if (set[k]->id == id && (set[k] != me || m == 1)) return set[k];
            }
            return set[0];
        }
        if (g_strat == ST_PCT) {
            // a spinner loses its priority for now
            Thread* best = nullptr;
            for (int k = 0; k < m; k++)
                if ((!want_other || set[k] != me || m == 1) && (!best || set[k]->prio > best->prio)) best = set[k];
            return best;
        }
        if (n && ns && g_rs.below(32) == 0) { set = sp; m = ns; }
        if (want_other && m > 1) {
            Thread* t;
            do t = set[g_rs.below(m)]; while (t == me);
            return t;
        }
        return set[g_rs.below(m)];
    }
}

__attribute__((noinline, noreturn)) static void report_stuck(const char* what) {
    char b[1800];
    b[0] = 0;
    describe_blocked(b, sizeof b);
    violate(what, "%s after %llu steps, simulated time %.3f ms:%s", what, (unsigned long long)g_steps, (now_ns() - BASE_STEADY) / 1e6, b);
}

static void preempt(bool want_other) {
    ++g_quiet;
    Thread* t = pick(true, want_other);
    --g_quiet;
    if (t && (t != g_cur || g_jumped)) switch_to(t, 'V');
    else { g_last_switch = g_steps; set_event(); }
}

static void enter_fair() {
    g_fair = true;
    g_fair_cap = g_steps + g_plan->get("_fair_cap", 4000000);
    g_quantum = 400;
    for (int i = 0; i < 3; i++) g_skip[i] = ~0ull;
    g_crash_at = 0;
}

__attribute__((noinline)) static void event(bool skip_hit) {
    if (g_crash_at && g_steps >= g_crash_at) {
        g_crash_at = 0;
        g_fault_fired[F_CRASH]++;
        note("simulated crash");
        hash_event(0xC4A5);
        rec_seg(g_cur, 'V');
        child_exit(S_CRASHED);
    }
    if (!g_fair && g_steps >= g_max_steps) enter_fair();
    if (g_fair && g_steps >= g_fair_cap) report_stuck("no-progress");
    if (g_leap_at && g_steps >= g_leap_at && !g_fair) {
        if (fault(F_TIME_LEAP)) {
            u64 w = next_timer();
            if (w && now_ns() < w) g_time_leap += w - now_ns();
        }
        g_leap_at = g_steps + 50 + g_rt.below(1500);
    }
    if (g_stall_at && g_steps >= g_stall_at && !g_fair) {
        if (fault(F_STALL)) g_cur->stalled_until = g_steps + g_stall_len;
        g_stall_at = g_steps + 20 + g_rt.below(2000);
    }
    bool yield = g_yield_flag, resched = g_resched;
    g_yield_flag = g_resched = false;
    if (g_strat == ST_REPLAY && g_seg_i < g_seg->size()) {
        const Seg& s = (*g_seg)[g_seg_i];
        if ((s.tid == (u32)g_cur->id && s.kind == 'V' && g_cur->lsteps >= s.end) || g_steps - g_last_switch >= g_replay_cut) preempt(true);
        else set_event();
        return;
    }
    bool pct_point = false;
    if (g_strat == ST_PCT && !g_fair)
        while (g_pct_i < g_pct_points->size() && g_steps >= (*g_pct_points)[g_pct_i]) {
            g_pct_i++;
            g_cur->prio = --g_pct_low;
            pct_point = true;
        }
    if (yield || skip_hit || (g_cur->stalled_until > g_steps && !g_fair)) { preempt(true); return; }
    if (pct_point || resched) { preempt(false); return; }
    if (g_steps - g_last_switch >= g_quantum) {
        if (g_strat == ST_PCT && !g_fair) g_cur->prio = --g_pct_low;
        preempt(true);
        return;
    }
    set_event();
}

static inline __attribute__((always_inline)) void do_step(StepClass c, u32 pc) {
    Thread* me = g_cur;
    g_steps++;
    me->lsteps++;
    me->last_pc = pc;
    bool hit = --g_skip[c] == 0;
    if (__builtin_expect(hit, 0)) g_skip[c] = sample_skip(c);
    if (__builtin_expect(hit || g_steps >= g_event_at, 0)) event(hit);
}

// a step at which the current thread gives way
static void yield_step(u32 pc) {
    g_yield_flag = true;
    g_event_at = 0;
    do_step(C_SYNC, pc);
}
static inline void want_yield() { g_yield_flag = true; g_event_at = 0; }
static inline void want_resched() { if (g_strat == ST_PCT && !g_fair) { g_resched = true; g_event_at = 0; } }

void step(StepClass c, u32 pc) { do_step(c, pc); }
void sync_step() { do_step(C_SYNC, PC_HERE); }

static inline void spin_hint(u32 pc) {
    Thread* me = g_cur;
    if (++me->spin > g_spin_limit) {
        me->spin = 0;
        me->spinning = true;
        me->spin_epoch = g_progress;
        g_res->spin_switches++;
        if (g_strat == ST_REPLAY && g_seg_i < g_seg->size()) return;
        if (g_strat == ST_PCT && !g_fair) me->prio = --g_pct_low;
        want_yield();
    }
    (void)pc;
}

void block(TState st, void* obj, u64 wake) {
    Thread* me = g_cur;
    me->st = st;
    me->wobj = obj;
    me->wake = wake;
    me->timed_out = false;
    me->signaled = false;
    me->spinning = false;
    me->spin = 0;
    ++g_quiet;
    Thread* t = pick(false, true);
    --g_quiet;
    if (!t) report_stuck("deadlock");
    switch_to(t, 'B');
}

void yield_point() {
    if (!in_sim()) return;
    do_step(C_SYNC, PC_HERE);
}

void sleep_ns(u64 ns) {
    if (!g_active) return;
    int q = g_quiet;
    g_quiet = 0;
    do_step(C_SYNC, PC_HERE);
    block(T_SLEEP, nullptr, now_ns() + (ns ? ns : 1));
    g_quiet = q;
}

void sync_release(const void* k) { ++g_quiet; hb_release(sync_get(k, 99)); --g_quiet; }
void sync_acquire(const void* k) { ++g_quiet; hb_acquire(sync_get(k, 99)); --g_quiet; }

void wait_until(const std::function<bool()>& pred) {
    int q = g_quiet;
    g_quiet = 0;
    do_step(C_SYNC, PC_HERE);
    g_quiet = 1;
    bool ok = pred();
    g_quiet = 0;
    if (!ok) {
        g_cur->pred = &pred;
        block(T_PRED, nullptr, 0);
    }
    g_quiet = q;
}

u32 choose(u32 n) {
    if (n <= 1) return 0;
    u32 i = g_choice_i++, v;
    if (g_strat == ST_REPLAY) {
        auto it = g_choice->find(i);
        v = it == g_choice->end() ? 0 : it->second % n;
    } else if (g_fair) v = 0;
    else v = (u32)g_rs.below(n);
    if (v && g_res->nchoice < MAXCHOICE) { Choice& c = g_res->choice[g_res->nchoice++]; c.inc = g_inc; c.idx = i; c.val = v; }
    hash_event(0x10000 + v);
    return v;
}

void faults_enable(u32 mask) { g_fault_mask = mask; }
u32 faults_mask() { return g_fault_mask; }
u64 fault_count(Fault f) { return g_fault_fired[f]; }
void oom_scope(bool on) { if (g_cur) g_cur->oom = on; }

bool fault(Fault f) {
    if (!g_active || !(g_fault_mask >> f & 1) || g_fair) return false;
    u32 occ = g_fault_occ[f]++;
    bool fire;
    u32 param = 0;
    if (g_strat == ST_REPLAY) {
        ++g_quiet;
        auto it = g_fault_at->find((u64)f << 32 | occ);
        fire = it != g_fault_at->end();
        if (fire) param = it->second;
        --g_quiet;
    } else {
        fire = g_fault_rate[f] && g_fault_fired[f] < g_fault_max[f] && g_rf.below(10000) < g_fault_rate[f];
        if (fire) param = (u32)g_rf.next();
    }
    if (!fire) return false;
    g_last_param = param;
    g_fault_fired[f]++;
    if (g_res->nfault < MAXFAULT) { FaultRec& r = g_res->fault[g_res->nfault++]; r.inc = g_inc; r.kind = f; r.occ = occ; r.param = param; }
    hash_event(0x20000 + f);
    return true;
}
u64 fault_param(Fault, u64 n) { return n ? g_last_param % n : 0; }

void arm_crash() {
    long at = g_plan->get("crash_at", 0);
    if (g_inc > 0) {
        char k[32];
        ++g_quiet;
        snprintf(k, sizeof k, "crash_at%d", g_inc);
        at = g_plan->get(k, 0);
        --g_quiet;
    }
    if (at > 0) { g_crash_at = g_steps + at; set_event(); }
}
void disarm_crash() { g_crash_at = 0; }

void* persistent(size_t bytes) {
    size_t n;
    void* p = vfs_persistent_region(&n);
    if (bytes > n) infra_error("persistent region too small");
    return p;
}

// ------------------------------------------------------------------------------------------------ threads
typedef int (*pthread_create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static pthread_create_t real_create;

static void run_dtors(Thread* t) {
    while (t->dtors) {
        DtorNode* d = t->dtors;
        t->dtors = d->next;
        d->fn(d->arg);
    }
}

static void finish_thread(Thread* t) {
    // thread is over: never really exits, parks for good
    g_quiet = 0;
    do_step(C_SYNC, 1);
    t->st = T_DONE;
    g_progress++;
    for (int i = 0; i < g_nthreads; i++) {
        Thread* w = &g_threads[i];
        if (w->st == T_JOIN && w->wobj == t) { w->st = T_RUN; w->wake = 0; }
    }
    hash_event(0x30000 + t->id);
    ++g_quiet;
    Thread* n = pick(false, true);
    if (!n) report_stuck("deadlock");
    rec_seg(t, 'B');
    g_res->switches++;
    hash_event((u64)t->lsteps << 16 | (u64)t->id << 8 | n->id);
    if (g_strat == ST_REPLAY && g_seg_i < g_seg->size() && (*g_seg)[g_seg_i].tid == (u32)t->id) g_seg_i++;
    make_runnable(n);
    g_last_switch = g_steps;
    g_cur = n;
    set_event();
    n->baton = 1;
    raw_futex(&n->baton, FUTEX_WAKE_PRIVATE, 1);
    t->baton = 0;
    for (;;) raw_futex(&t->baton, FUTEX_WAIT_PRIVATE, 0);
}

static void* thread_entry(void* a) {
    Thread* t = (Thread*)a;
    while (!t->baton) raw_futex(&t->baton, FUTEX_WAIT_PRIVATE, 0);
    t->baton = 0;
    g_quiet = 0;
    t->ret = t->fn(t->arg);
    g_quiet = 0;
    run_dtors(t);
    finish_thread(t);
    return nullptr;
}

static Thread* new_thread(void* (*fn)(void*), void* arg) {
    if (g_nthreads >= MAXT) infra_error("too many threads");
    Thread* t = &g_threads[g_nthreads];
    memset((void*)t, 0, sizeof *t);
    t->id = g_nthreads++;
    t->fn = fn; t->arg = arg;
    t->epoch = 1;
    if (g_cur) { t->vc = g_cur->vc; }
    t->vc.c[t->id] = 1;
    if (g_cur) tick(g_cur);
    t->stk_lo = STACKS + t->id * STACK_SIZE;
    t->stk_hi = t->stk_lo + STACK_SIZE;
    t->st = T_RUN;
    if (g_strat == ST_PCT) t->prio = 1000 + (int)g_rs.below(1000000);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)t->stk_lo, STACK_SIZE);
    int e = real_create(&t->real, &at, thread_entry, t);
    if (e) infra_error("pthread_create: %d", e);
    pthread_attr_destroy(&at);
    return t;
}

static Thread* by_real(pthread_t p) {
    for (int i = 0; i < g_nthreads; i++) if (g_threads[i].real == p) return &g_threads[i];
    return nullptr;
}

// exit handlers registered inside the simulation
struct ExitH { void (*fn)(void*); void* arg; };
static std::vector<ExitH>* g_exit_h;
void run_exit_handlers() {
    run_dtors(g_cur);
    for (;;) {
        ++g_quiet;
        if (g_exit_h->empty()) { --g_quiet; break; }
        ExitH h = g_exit_h->back();
        g_exit_h->pop_back();
        --g_quiet;
        h.fn(h.arg);
    }
}

// ------------------------------------------------------------------------------------------------ child process
static void on_signal(int sig, siginfo_t* si, void* uc) {
    g_quiet = 1000;
    u32 pc = (u32)((ucontext_t*)uc)->uc_mcontext.gregs[16];
    uptr a = (uptr)si->si_addr;
    if (!g_active) _exit(99);
    g_res->loc[1] = g_cur ? g_cur->last_pc : pc;
    strcpy(g_res->loc_kind, "signal");
    if (sig == SIGSEGV && a - ARENA < HEAP_SIZE) violate("use-after-free", "access to freed memory at %#lx by t%d (pc %x, last instrumented pc %x)", a, g_cur->id, pc, g_cur->last_pc);
    if (sig == SIGALRM) violate("hang", "real-time watchdog: t%d stuck in code the scheduler does not see, pc %x, last instrumented pc %x", g_cur->id, pc, g_cur->last_pc);
    violate("crash", "%s at address %#lx in t%d, pc %x, last instrumented pc %x", strsignal(sig), a, g_cur ? g_cur->id : -1, pc, g_cur ? g_cur->last_pc : 0);
}

static void on_terminate() {
    g_quiet = 1000;
    char what[512] = "no active exception";
    if (std::type_info* t = abi::__cxa_current_exception_type()) {
        snprintf(what, sizeof what, "%s", t->name());
        try { throw; } catch (const std::exception& e) { snprintf(what, sizeof what, "%s: %s", t->name(), e.what()); } catch (...) {}
    }
    g_res->loc[1] = g_cur ? g_cur->last_pc : 0;
    strcpy(g_res->loc_kind, "terminate");
    violate("terminate", "std::terminate in t%d (%s): %s", self(), g_cur ? tname(g_cur->id) : "", what);
}

static const Scenario* g_sc;
static void* main_entry(void*) {
    g_sc->run(*g_plan, g_inc);
    g_quiet = 1000;
    child_exit(S_PASS);
}

[[noreturn]] void run_child(const Scenario* sc, const Plan& plan, const RunMode& mode, int inc, Result* res) {
    g_res = res;
    res->status = S_NONE;
    g_inc = inc;
    res->incs = inc + 1;
    g_sc = sc;
    g_plan = &plan;
    g_mode = &mode;
    g_rs = Rng(mode.seed * 1000003 + 17 * inc + 5);
    g_rf = Rng(mode.seed * 7919 + 31 * inc + 11);
    g_rt = Rng(mode.seed * 6271 + 37 * inc + 13);
    real_create = (pthread_create_t)dlsym(RTLD_NEXT, "pthread_create");
    g_syn = (SyncObj**)mmap(0, sizeof(void*) * SYN_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_seg = new std::vector<Seg>();
    g_choice = new std::map<u32, u32>();
    g_fault_at = new std::map<u64, u32>();
    g_pct_points = new std::vector<u64>();
    g_exit_h = new std::vector<ExitH>();
    for (auto& s : mode.seg) if ((int)s.inc == inc) g_seg->push_back(s);
    {
        std::map<u32, u32> last;
        for (auto& s : *g_seg) { u64 d = s.end > last[s.tid] ? s.end - last[s.tid] : 0; last[s.tid] = s.end; g_replay_cut = std::max(g_replay_cut, d + 100000); }
    }
    for (auto& c : mode.choice) if ((int)c.inc == inc) (*g_choice)[c.idx] = c.val;
    for (auto& f : mode.fault) if ((int)f.inc == inc) (*g_fault_at)[(u64)f.kind << 32 | f.occ] = f.param;
    long strat = plan.get("_strat", ST_RANDOM);
    g_strat = mode.replay ? ST_REPLAY : (int)strat;
    g_prob[C_PLAIN] = plan.get("_p_plain", 2) / 1e5;
    g_prob[C_ATOMIC] = plan.get("_p_atomic", 500) / 1e5;
    g_prob[C_SYNC] = plan.get("_p_sync", 20000) / 1e5;
    if (g_strat != ST_RANDOM) g_prob[0] = g_prob[1] = g_prob[2] = 0;
    g_quantum = plan.get("_quantum", 3000);
    g_step_ns = plan.get("_step_ns", 20);
    g_max_steps = plan.get("_max_steps", 1500000);
    for (int i = 0; i < F_NUM; i++) {
        std::string k = fault_names[i];
        g_fault_rate[i] = (u32)plan.get(("f." + k).c_str(), 0);
        g_fault_max[i] = (u64)plan.get(("fmax." + k).c_str(), 1000000);
    }
    if (g_strat == ST_PCT) {
        long d = plan.get("_pct_d", 3), len = plan.get("_pct_len", 4000);
        for (long i = 0; i < d; i++) g_pct_points->push_back(1 + g_rs.below(len));
        for (size_t i = 0; i < g_pct_points->size(); i++)
            for (size_t j = i + 1; j < g_pct_points->size(); j++)
                if ((*g_pct_points)[j] < (*g_pct_points)[i]) std::swap((*g_pct_points)[i], (*g_pct_points)[j]);
        g_quantum = plan.get("_quantum", 20000);
    }
    for (int c = 0; c < 3; c++) g_skip[c] = sample_skip(c);
    rearm();
    if (plan.get("f.stall", 0) > 0) { g_stall_at = 20 + g_rt.below(2000); g_stall_len = plan.get("_stall_len", 20000); }
    if (plan.get("f.time_leap", 0) > 0) g_leap_at = 50 + g_rt.below(1500);
    vfs_child_init();
    stdio_child_init();
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    struct itimerval it = {{0, 0}, {plan.get("_watchdog", 30), 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    g_active = 1;
    Thread* t = new_thread(main_entry, nullptr);
    t->name = "main";
    g_cur = t;
    set_event();
    t->baton = 1;
    raw_futex(&t->baton, FUTEX_WAKE_PRIVATE, 1);
    for (;;) pause();
}

}  // namespace sim

using namespace sim;

// ------------------------------------------------------------------------------------------------ pthread interposition
#define REAL(ret, name, args) static ret(*real_##name) args; if (!real_##name) real_##name = (ret(*) args)dlsym(RTLD_NEXT, #name)

enum { K_MUTEX = 1, K_COND, K_SEM, K_ATOMIC, K_ONCE, K_GUARD, K_FUTEX, K_RW };

static void obj_check(void* p, u32 pc) {
    u64* s; u32* q;
    if (shadow_of((uptr)p & ~7ul, s, q) && s[0] >= SH_RED) report_mem((uptr)p, s[0], q[0], true, pc);
}

static bool mutex_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static int mutex_acquire(pthread_mutex_t* m, u64 deadline, u32 pc) {
    for (;;) {
        SyncObj* s = sync_get(m, K_MUTEX);
        if (!s->owner) {
            s->owner = g_cur->id + 1;
            s->count = 1;
            hb_acquire(s);
            return 0;
        }
        if (s->owner == g_cur->id + 1 && mutex_recursive(m)) { s->count++; return 0; }
        if (deadline && passed(deadline)) return ETIMEDOUT;
        block(T_MUTEX, m, deadline);
        obj_check(m, pc);
    }
}

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!in_sim()) { REAL(int, pthread_mutex_lock, (pthread_mutex_t*)); return real_pthread_mutex_lock(m); }
    u32 pc = PC_HERE;
    obj_check(m, pc);
    do_step(C_SYNC, pc);
    obj_check(m, pc);
    return mutex_acquire(m, 0, pc);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!in_sim()) { REAL(int, pthread_mutex_trylock, (pthread_mutex_t*)); return real_pthread_mutex_trylock(m); }
    obj_check(m, PC_HERE);
    do_step(C_SYNC, PC_HERE);
    SyncObj* s = sync_get(m, K_MUTEX);
    if (!s->owner) { s->owner = g_cur->id + 1; s->count = 1; hb_acquire(s); return 0; }
    if (s->owner == g_cur->id + 1 && mutex_recursive(m)) { s->count++; return 0; }
    spin_hint(0);
    return EBUSY;
}
static u64 abs_to_ns(int clk, const struct timespec* ts) {
    u64 t = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    if (clk == CLOCK_REALTIME) return t | WALL_DEADLINE;
    return t ? t : 1;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    do_step(C_SYNC, PC_HERE);
    return mutex_acquire(m, abs_to_ns(clk, ts), PC_HERE);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!in_sim()) { REAL(int, pthread_mutex_unlock, (pthread_mutex_t*)); return real_pthread_mutex_unlock(m); }
    u32 pc = PC_HERE;
    obj_check(m, pc);
    do_step(C_SYNC, pc);
    obj_check(m, pc);
    SyncObj* s = sync_get(m, K_MUTEX);
    if (s->owner != g_cur->id + 1) violate("bad-unlock", "t%d unlocks a mutex it does not own (pc %x)", g_cur->id, pc);
    if (--s->count) return 0;
    hb_release(s);
    s->owner = 0;
    wake_waiters(T_MUTEX, m);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*));
    return real_pthread_mutex_init(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!in_sim()) return 0;
    SyncObj* s = sync_get(m, K_MUTEX);
    if (s->owner) violate("mutex-destroyed-locked", "t%d destroys a mutex that t%d holds", g_cur->id, s->owner - 1);
    return 0;
}

// ---- condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, u32 pc) {
    obj_check(c, pc);
    do_step(C_SYNC, pc);
    SyncObj* s = sync_get(m, K_MUTEX);
    if (s->owner != g_cur->id + 1) violate("bad-wait", "condition wait without holding the mutex (pc %x)", pc);
    int cnt = s->count;
    hb_release(s);
    s->owner = 0;
    wake_waiters(T_MUTEX, m);
    int r = 0;
    if (fault(F_SPURIOUS)) {
        // spurious wake-up: others may run in between
        yield_step(pc);
    } else {
        block(T_COND, c, deadline);
        if (g_cur->timed_out) r = ETIMEDOUT;
    }
    mutex_acquire(m, 0, pc);
    sync_get(m, K_MUTEX)->count = cnt;
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!in_sim()) { REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*)); return real_pthread_cond_wait(c, m); }
    return cond_wait(c, m, 0, PC_HERE);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    return cond_wait(c, m, abs_to_ns(clk, ts), PC_HERE);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    return cond_wait(c, m, abs_to_ns(CLOCK_REALTIME, ts), PC_HERE);
}
static int cond_notify(pthread_cond_t* c, bool all, u32 pc) {
    obj_check(c, pc);
    do_step(C_SYNC, pc);
    obj_check(c, pc);
    Thread* w[MAXT]; int n = 0;
    for (int i = 0; i < g_nthreads; i++)
        if (g_threads[i].st == T_COND && g_threads[i].wobj == c) w[n++] = &g_threads[i];
    if (!n) return 0;
    g_progress++;
    if (all) { wake_waiters(T_COND, c); return 0; }
    want_resched();
    Thread* t = w[choose(n)];
    t->signaled = true; t->timed_out = false; t->st = T_RUN; t->wake = 0; t->spinning = false;
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!in_sim()) { REAL(int, pthread_cond_signal, (pthread_cond_t*)); return real_pthread_cond_signal(c); }
    return cond_notify(c, false, PC_HERE);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!in_sim()) { REAL(int, pthread_cond_broadcast, (pthread_cond_t*)); return real_pthread_cond_broadcast(c); }
    return cond_notify(c, true, PC_HERE);
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!in_sim()) return 0;
    for (int i = 0; i < g_nthreads; i++)
        if (g_threads[i].st == T_COND && g_threads[i].wobj == c)
            violate("cond-destroyed-in-use", "t%d destroys a condition variable t%d waits on", g_cur->id, i);
    return 0;
}

// ---- rwlocks (std::shared_timed_mutex)
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!in_sim()) return 0;
    do_step(C_SYNC, PC_HERE);
    for (;;) {
        SyncObj* s = sync_get(l, K_RW);
        if (!s->owner && !s->count) { s->owner = g_cur->id + 1; hb_acquire(s); return 0; }
        block(T_RW, l, 0);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!in_sim()) return 0;
    do_step(C_SYNC, PC_HERE);
    for (;;) {
        SyncObj* s = sync_get(l, K_RW);
        if (!s->owner) { s->count++; hb_acquire(s); return 0; }
        block(T_RW, l, 0);
    }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!in_sim()) return 0;
    do_step(C_SYNC, PC_HERE);
    SyncObj* s = sync_get(l, K_RW);
    if (!s->owner && !s->count) { s->owner = g_cur->id + 1; hb_acquire(s); return 0; }
    return EBUSY;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!in_sim()) return 0;
    do_step(C_SYNC, PC_HERE);
    SyncObj* s = sync_get(l, K_RW);
    if (!s->owner) { s->count++; hb_acquire(s); return 0; }
    return EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!in_sim()) return 0;
    do_step(C_SYNC, PC_HERE);
    SyncObj* s = sync_get(l, K_RW);
    if (s->owner == g_cur->id + 1) s->owner = 0;
    else if (s->count > 0) s->count--;
    else violate("bad-unlock", "unlock of a read-write lock that is not held");
    hb_release(s);
    wake_waiters(T_RW, l);
    return 0;
}
// ---- spin locks
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) { return pthread_rwlock_wrlock((pthread_rwlock_t*)l); }
int pthread_spin_trylock(pthread_spinlock_t* l) { return pthread_rwlock_trywrlock((pthread_rwlock_t*)l); }
int pthread_spin_unlock(pthread_spinlock_t* l) { return pthread_rwlock_unlock((pthread_rwlock_t*)l); }

// ---- threads
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!in_sim()) { REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)); return real_pthread_create(out, attr, fn, arg); }
    do_step(C_SYNC, PC_HERE);
    if (fault(F_THREAD_ERR)) return EAGAIN;
    ++g_quiet;
    Thread* t = new_thread(fn, arg);
    if (attr) { int d = 0; pthread_attr_getdetachstate(attr, &d); if (d == PTHREAD_CREATE_DETACHED) t->detached = true; }
    --g_quiet;
    *out = t->real;
    hash_event(0x40000 + t->id);
    g_progress++;
    want_resched();
    do_step(C_SYNC, PC_HERE);
    return 0;
}
int pthread_join(pthread_t p, void** ret) {
    if (!in_sim()) { REAL(int, pthread_join, (pthread_t, void**)); return real_pthread_join(p, ret); }
    do_step(C_SYNC, PC_HERE);
    Thread* t = by_real(p);
    if (!t || t->joined) violate("bad-join", "join of a thread that does not exist or was joined before");
    if (t == g_cur) return EDEADLK;
    while (t->st != T_DONE) block(T_JOIN, t, 0);
    t->joined = true;
    vc_join(g_cur->vc, t->vc, g_nthreads);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!in_sim()) { REAL(int, pthread_detach, (pthread_t)); return real_pthread_detach(p); }
    Thread* t = by_real(p);
    if (t) t->detached = true;
    return 0;
}
int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*) {
    if (!g_active || !g_cur) {
        typedef int (*impl_t)(void (*)(void*), void*, void*);
        static impl_t impl;
        if (!impl) impl = (impl_t)dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
        return impl ? impl(fn, arg, nullptr) : 0;
    }
    DtorNode* d = (DtorNode*)__libc_malloc(sizeof *d);
    d->fn = fn; d->arg = arg; d->next = g_cur->dtors;
    g_cur->dtors = d;
    return 0;
}
int __real___cxa_atexit(void (*fn)(void*), void* arg, void* dso);
int __wrap___cxa_atexit(void (*fn)(void*), void* arg, void* dso) {
    if (!in_sim()) return __real___cxa_atexit(fn, arg, dso);
    ++g_quiet;
    g_exit_h->push_back({fn, arg});
    --g_quiet;
    return 0;
}

// ---- once, static initialisation guards
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!in_sim()) { REAL(int, pthread_once, (pthread_once_t*, void (*)(void))); return real_pthread_once(o, fn); }
    do_step(C_SYNC, PC_HERE);
    for (;;) {
        SyncObj* s = sync_get(o, K_ONCE);
        if (s->count == 2) { hb_acquire(s); return 0; }
        if (s->count == 0) {
            s->count = 1;
            try { fn(); }
            catch (...) {
                s->count = 0;
                wake_waiters(T_ONCE, o);
                throw;
            }
            do_step(C_SYNC, PC_HERE);
            s->count = 2;
            hb_release(s);
            wake_waiters(T_ONCE, o);
            return 0;
        }
        block(T_ONCE, o, 0);
    }
}

static void guard_publish(void* g, bool done) {
    SyncObj* s = sync_get(g, K_ATOMIC);        // the inlined fast path is an acquire load of this byte
    if (done) {
        __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE);
        vc_join(s->vc, g_cur->vc, g_nthreads);
        s->has_vc = true;
        s->lastrel = g_cur->id + 1;
        tick(g_cur);
    }
    ((volatile char*)g)[1] = 0;
    wake_waiters(T_ONCE, g);
}
int __cxa_guard_acquire(void* g) {
    if (!in_sim()) { if (*(char*)g) return 0; return 1; }
    do_step(C_SYNC, PC_HERE);
    for (;;) {
        if (*(volatile char*)g) { hb_acquire(sync_get(g, K_ATOMIC)); return 0; }
        if (!((volatile char*)g)[1]) { ((volatile char*)g)[1] = 1; return 1; }
        block(T_ONCE, g, 0);
    }
}
void __cxa_guard_release(void* g) {
    if (!in_sim()) { *(char*)g = 1; return; }
    do_step(C_SYNC, PC_HERE);
    guard_publish(g, true);
}
void __cxa_guard_abort(void* g) {
    if (!in_sim()) { ((char*)g)[1] = 0; return; }
    guard_publish(g, false);
}

// ---- semaphores
#include <semaphore.h>
int sem_init(sem_t* m, int, unsigned v) {
    if (!g_active) return 0;
    SyncObj* s = sync_get(m, K_SEM);
    s->count = (int)v;
    return 0;
}
int sem_destroy(sem_t* m) {
    if (!in_sim()) return 0;
    for (int i = 0; i < g_nthreads; i++)
        if (g_threads[i].st == T_SEM && g_threads[i].wobj == m) violate("sem-destroyed-in-use", "semaphore destroyed while t%d waits on it", i);
    return 0;
}
static int sem_take(sem_t* m, u64 deadline, u32 pc) {
    obj_check(m, pc);
    do_step(C_SYNC, pc);
    for (;;) {
        obj_check(m, pc);
        SyncObj* s = sync_get(m, K_SEM);
        if (s->count > 0) { s->count--; hb_acquire(s); g_progress++; return 0; }
        if (deadline && passed(deadline)) { errno = ETIMEDOUT; return -1; }
        if (fault(F_EINTR)) { yield_step(pc); errno = EINTR; return -1; }
        block(T_SEM, m, deadline);
    }
}
int sem_wait(sem_t* m) { return sem_take(m, 0, PC_HERE); }
int sem_timedwait(sem_t* m, const struct timespec* ts) { return sem_take(m, abs_to_ns(CLOCK_REALTIME, ts), PC_HERE); }
int sem_clockwait(sem_t* m, clockid_t c, const struct timespec* ts) { return sem_take(m, abs_to_ns(c, ts), PC_HERE); }
int sem_trywait(sem_t* m) {
    do_step(C_SYNC, PC_HERE);
    SyncObj* s = sync_get(m, K_SEM);
    if (s->count > 0) { s->count--; hb_acquire(s); return 0; }
    spin_hint(0);
    errno = EAGAIN;
    return -1;
}
int sem_post(sem_t* m) {
    obj_check(m, PC_HERE);
    do_step(C_SYNC, PC_HERE);
    obj_check(m, PC_HERE);
    SyncObj* s = sync_get(m, K_SEM);
    s->count++;
    hb_release(s);
    wake_waiters(T_SEM, m);
    return 0;
}
int sem_getvalue(sem_t* m, int* v) { *v = sync_get(m, K_SEM)->count; return 0; }

// ---- raw system calls made by the library
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_gettid && g_active && g_cur) return 1000 + g_cur->id + 100 * g_inc;       // oracle code included: callers cache it
    if (in_sim()) {
        if (n == SYS_futex) {
            int op = (int)b & 127;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                do_step(C_SYNC, PC_HERE);
                if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
                u64 dl = 0;
                if (d) {
                    const struct timespec* ts = (const struct timespec*)d;
                    if (op == FUTEX_WAIT) dl = now_ns() + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec + 1;
                    else dl = abs_to_ns(((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                }
                if (fault(F_EINTR)) { yield_step(PC_HERE); errno = EINTR; return -1; }
                block(T_FUTEX, (void*)a, dl);
                if (g_cur->timed_out) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                do_step(C_SYNC, PC_HERE);
                int woke = 0;
                for (int i = 0; i < g_nthreads && woke < (int)c; i++)
                    if (g_threads[i].st == T_FUTEX && g_threads[i].wobj == (void*)a) {
                        Thread* t = &g_threads[i];
                        t->signaled = true; t->timed_out = false; t->st = T_RUN; t->wake = 0; woke++;
                    }
                g_progress++;
                return woke;
            }
        }
        if (n == SYS_sched_yield) { do_step(C_SYNC, PC_HERE); return 0; }
    }
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "0"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
pid_t gettid() { return g_active && g_cur ? 1000 + g_cur->id + 100 * g_inc : (pid_t)syscall(SYS_gettid); }

// ---- time
static void ns_to_ts(u64 n, struct timespec* ts) { ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; }
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!g_active || g_quiet >= 1000) { REAL(int, clock_gettime, (clockid_t, struct timespec*)); return real_clock_gettime(c, ts); }
    if (g_quiet == 0) {
        do_step(C_ATOMIC, PC_HERE);
        if (c == CLOCK_REALTIME && fault(F_WALL_JUMP)) {
            static const long long d[] = {1, 999000000, 1000000000, -1, -1000000, -1000000000, -3600000000000, 3600000000000, 86400000000000, -86400000000000, 500000000, 60000000000};
            u64 k = fault_param(F_WALL_JUMP, 12);
            g_wall_off += d[k];
            hash_event(0x50000 + k);
        }
    }
    ns_to_ts(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall_ns() : now_ns(), ts);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*) {
    if (!in_sim()) { REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*)); return real_clock_nanosleep(c, flags, ts, nullptr); }
    do_step(C_SYNC, PC_HERE);
    u64 dl = (flags & TIMER_ABSTIME) ? abs_to_ns(c, ts) : now_ns() + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    if (passed(dl)) return 0;
    block(T_SLEEP, nullptr, dl);
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
    if (!in_sim()) { REAL(int, nanosleep, (const struct timespec*, struct timespec*)); return real_nanosleep(ts, rem); }
    do_step(C_SYNC, PC_HERE);
    u64 ns = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    if (fault(F_EINTR) && ns > 1) {
        u64 part = 1 + fault_param(F_EINTR, ns - 1);
        block(T_SLEEP, nullptr, now_ns() + part);
        if (rem) ns_to_ts(ns - part, rem);
        errno = EINTR;
        return -1;
    }
    block(T_SLEEP, nullptr, now_ns() + (ns ? ns : 1));
    return 0;
}
int usleep(useconds_t us) { struct timespec ts; ns_to_ts((u64)us * 1000, &ts); return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = {(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
int sched_yield() {
    if (in_sim()) {
        u32 pc = PC_HERE;
        do_step(C_SYNC, pc);
        spin_hint(pc);
        if (g_strat == ST_PCT && !g_fair) g_cur->spin += 8;
        else if (g_strat != ST_REPLAY || g_seg_i >= g_seg->size()) want_yield();
    }
    return 0;
}

// ------------------------------------------------------------------------------------------------ __tsan_* entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

static inline __attribute__((always_inline)) void plain(void* p, u32 n, bool w, u32 pc) {
    if (__builtin_expect(g_quiet, 0)) return;
    do_step(C_PLAIN, pc);
    if (w && (uptr)p - g_cur->stk_lo >= STACK_SIZE) { g_progress++; g_cur->spin = 0; }
    rd_access((uptr)p, n, w, false, pc);
}
#define RW(n) \
    void __tsan_read##n(void* p) { plain(p, n, false, PC_HERE); } \
    void __tsan_write##n(void* p) { plain(p, n, true, PC_HERE); } \
    void __tsan_unaligned_read##n(void* p) { plain(p, n, false, PC_HERE); } \
    void __tsan_unaligned_write##n(void* p) { plain(p, n, true, PC_HERE); } \
    void __tsan_volatile_read##n(void* p) { plain(p, n, false, PC_HERE); } \
    void __tsan_volatile_write##n(void* p) { plain(p, n, true, PC_HERE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) plain(p, n, false, PC_HERE); }
void __tsan_write_range(void* p, size_t n) { if (n) plain(p, n, true, PC_HERE); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true, PC_HERE); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC_HERE); }

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static inline void at_load(SyncObj* s, int mo) {
    if (!s->has_vc) return;
    Thread* me = g_cur;
    if (is_acq(mo)) vc_join(me->vc, s->vc, g_nthreads);
    else vc_join(me->facq, s->vc, g_nthreads);
}
static inline void at_store(SyncObj* s, int mo) {
    Thread* me = g_cur;
    if (is_rel(mo)) {
        s->vc = me->vc; s->has_vc = true; s->lastrel = me->id + 1;
        tick(me);
    } else if (s->lastrel == me->id + 1) {          // C++11 release sequence goes on
        if (me->has_frel) vc_join(s->vc, me->frel, g_nthreads);
    } else if (me->has_frel) {
        s->vc = me->frel; s->has_vc = true; s->lastrel = me->id + 1;
    } else {
        s->has_vc = false; memset(&s->vc, 0, sizeof s->vc); s->lastrel = 0;
    }
}
static inline void at_rmw(SyncObj* s, int mo) {
    Thread* me = g_cur;
    at_load(s, mo);
    if (is_rel(mo)) {
        if (!s->has_vc) s->lastrel = me->id + 1;
        vc_join(s->vc, me->vc, g_nthreads); s->has_vc = true;
        tick(me);
    } else if (me->has_frel) {
        if (!s->has_vc) s->lastrel = me->id + 1;
        vc_join(s->vc, me->frel, g_nthreads); s->has_vc = true;
    }
}

}  // extern C
template <class T> static inline T a_load(const volatile T* a, int mo, u32 pc) {
    if (g_quiet) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
    do_step(C_ATOMIC, pc);
    rd_access((uptr)a, sizeof(T), false, true, pc);
    spin_hint(pc);
    T v = *a;
    at_load(sync_get((void*)a, K_ATOMIC), mo);
    return v;
}
template <class T> static inline void a_store(volatile T* a, T v, int mo, u32 pc) {
    if (g_quiet) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
    do_step(C_ATOMIC, pc);
    rd_access((uptr)a, sizeof(T), true, true, pc);
    if (*a != v) { g_progress++; g_cur->spin = 0; }
    *a = v;
    at_store(sync_get((void*)a, K_ATOMIC), mo);
}
template <class T, class F> static inline T a_rmw(volatile T* a, int mo, u32 pc, F f) {
    if (!g_quiet) {
        do_step(C_ATOMIC, pc);
        rd_access((uptr)a, sizeof(T), true, true, pc);
        at_rmw(sync_get((void*)a, K_ATOMIC), mo);
    }
    T o = *a, n = f(o);
    if (g_quiet) { __atomic_exchange_n(a, n, __ATOMIC_SEQ_CST); return o; }
    *a = n;
    if (o != n) { g_progress++; g_cur->spin = 0; }
    else spin_hint(pc);
    return o;
}
template <class T> static inline int a_cas(volatile T* a, T* c, T v, int mo, int fmo, bool weak, u32 pc) {
    if (g_quiet) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    do_step(C_ATOMIC, pc);
    rd_access((uptr)c, sizeof(T), false, false, pc);
    T o = *a;
    if (o == *c && !(weak && fault(F_SPURIOUS))) {
        rd_access((uptr)a, sizeof(T), true, true, pc);
        at_rmw(sync_get((void*)a, K_ATOMIC), mo);
        *a = v;
        if (o != v) { g_progress++; g_cur->spin = 0; }
        return 1;
    }
    rd_access((uptr)a, sizeof(T), false, true, pc);
    at_load(sync_get((void*)a, K_ATOMIC), fmo);
    rd_access((uptr)c, sizeof(T), true, false, pc);
    *c = o;
    spin_hint(pc);
    return 0;
}

extern "C" {
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return a_load<T>(a, mo, PC_HERE); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo, PC_HERE); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC_HERE, [=](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC_HERE, [=](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC_HERE, [=](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC_HERE, [=](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC_HERE, [=](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC_HERE, [=](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC_HERE, [=](T o) { return (T) ~(o & v); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return a_cas<T>(a, c, v, mo, fmo, false, PC_HERE); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return a_cas<T>(a, c, v, mo, fmo, true, PC_HERE); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { a_cas<T>(a, &c, v, mo, fmo, false, PC_HERE); return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

void __tsan_atomic_thread_fence(int mo) {
    if (g_quiet) return;
    do_step(C_ATOMIC, PC_HERE);
    Thread* me = g_cur;
    if (is_acq(mo)) vc_join(me->vc, me->facq, g_nthreads);
    if (is_rel(mo)) { me->frel = me->vc; me->has_frel = true; tick(me); }
}
void __tsan_atomic_signal_fence(int) {}

// memory functions used by the instrumented code
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (!g_quiet && n) {
        u32 pc = PC_HERE;
        do_step(C_PLAIN, pc);
        rd_access((uptr)s, n, false, false, pc);
        rd_access((uptr)d, n, true, false, pc);
        if ((uptr)d - g_cur->stk_lo >= STACK_SIZE) { g_progress++; g_cur->spin = 0; }
    }
    return __real_memcpy(d, s, n);
}
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (!g_quiet && n) {
        u32 pc = PC_HERE;
        do_step(C_PLAIN, pc);
        rd_access((uptr)s, n, false, false, pc);
        rd_access((uptr)d, n, true, false, pc);
        if ((uptr)d - g_cur->stk_lo >= STACK_SIZE) { g_progress++; g_cur->spin = 0; }
    }
    return __real_memmove(d, s, n);
}
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int c, size_t n) {
    if (!g_quiet && n) {
        do_step(C_PLAIN, PC_HERE);
        rd_access((uptr)d, n, true, false, PC_HERE);
    }
    return __real_memset(d, c, n);
}
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) {
    size_t n = __real_strlen(s);
    if (!g_quiet) rd_access((uptr)s, n + 1, false, false, PC_HERE);
    return n;
}
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (!g_quiet && n) { rd_access((uptr)a, n, false, false, PC_HERE); rd_access((uptr)b, n, false, false, PC_HERE); }
    return __real_memcmp(a, b, n);
}
}

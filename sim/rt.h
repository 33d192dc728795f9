// Runtime internals shared by rt.cpp (scheduler, race detector), interpose.cpp, vfs.cpp and driver.cpp.
#pragma once
#include "sim.h"
#include <pthread.h>
#include <setjmp.h>

namespace sim {

typedef unsigned long uptr;
enum { MAXT = 48 };

struct VC { u32 c[MAXT]; };

enum StepClass { C_PLAIN, C_ATOMIC, C_SYNC };
enum TState { T_NONE, T_RUN, T_MUTEX, T_COND, T_JOIN, T_SEM, T_FUTEX, T_SLEEP, T_ONCE, T_PRED, T_FILE, T_RW, T_DONE };

struct DtorNode { void (*fn)(void*); void* arg; DtorNode* next; };

struct Thread {
    int id;
    volatile int baton;
    TState st;
    u64 lsteps;
    u32 epoch;                 // own clock
    VC vc, frel, facq;
    bool has_frel;
    u64 wake;                  // 0: no timer
    bool timed_out, signaled;
    void* wobj;                // what it waits for
    const std::function<bool()>* pred;
    u32 spin; u64 spin_epoch; bool spinning;
    int prio;
    u64 stalled_until;         // global step
    int saved_quiet;
    bool detached, joined;
    void* (*fn)(void*); void* arg; void* ret;
    pthread_t real;
    uptr stk_lo, stk_hi;
    DtorNode* dtors;
    const char* name;
    bool oom;
    u64 nseg;
    u32 last_pc;
};

struct SyncObj {
    uptr key;
    int kind;
    int owner;                 // mutex: thread id + 1
    int count;                 // recursion, semaphore value, once state, readers
    int lastrel;               // atomic: thread heading the release sequence + 1
    bool has_vc;
    VC vc;
};

struct Seg { u32 tid : 8, kind : 8, inc : 8, pad : 8; u32 end; };      // kind: 'V' preempted before step `end`, 'B' ran until it blocked
struct Choice { u32 inc, idx, val; };
struct FaultRec { u32 inc, kind, occ; u32 param; };

enum { MAXSEG = 1 << 18, MAXCHOICE = 1 << 14, MAXFAULT = 1 << 12, MAXNOTE = 1 << 15, MAXPROBE = 96 };
enum Status { S_NONE, S_PASS, S_VIOLATION, S_CRASHED /* simulated crash: restart */, S_INFRA };

struct Result {                 // lives in shared memory, one per worker
    volatile int status;
    char cls[48];
    char msg[4096];
    u64 hash, steps, switches, preempts, sim_ns, timer_jumps;
    u64 spin_switches, races_checked;
    u32 nthreads, incs, fair;
    u64 faults[F_NUM];
    u32 nseg, nchoice, nfault; u32 overflow;
    u32 note_len;
    u32 nprobe;
    struct { char name[40]; u64 n; } probes[MAXPROBE];
    u64 ops_done;
    u32 loc[2]; char loc_kind[16];
    Seg seg[MAXSEG];
    Choice choice[MAXCHOICE];
    FaultRec fault[MAXFAULT];
    char note[MAXNOTE];
};

struct RunMode {
    u64 seed;
    bool replay;                // take decisions from the lists below
    std::vector<Seg> seg;
    std::vector<Choice> choice;
    std::vector<FaultRec> fault;
};

struct GlobalCov {              // shared by all workers
    volatile u64 edges[1 << 14];            // bitmap of (pc, pc) switch edges: 2^20 bits
    volatile u64 nhash;
    volatile u64 hashes[1 << 20];           // distinct interleavings
};

extern Result* g_res;
extern GlobalCov* g_cov;
extern Thread* g_cur;
extern u64 g_steps;
extern int g_active;            // a simulation is running in this process
extern int g_inc;

static inline bool in_sim() { return g_active && g_quiet == 0; }

// entry of the child process: runs one incarnation; never returns
[[noreturn]] void run_child(const Scenario* sc, const Plan& plan, const RunMode& mode, int inc, Result* res);

void step(StepClass c, u32 pc);
void sync_step();                       // a scheduling point of class SYNC
void block(TState st, void* obj, u64 wake);      // current thread blocks; returns when scheduled again
void wake_waiters(TState st, void* obj);
SyncObj* sync_get(const void* addr, int kind);
void hb_acquire(SyncObj* s);
void hb_release(SyncObj* s);
void mem_access(const void* p, size_t n, bool write, u32 pc);      // plain range access: race and lifetime check (no step)
u32 choose(u32 n);                      // recorded choice in [0, n)
u64 fault_param(Fault f, u64 n);        // a parameter of the fault that just fired, in [0, n)
void hash_event(u64 v);

// arena
void* arena_alloc(size_t n, size_t align);
bool  arena_owns(const void* p);
void  arena_free(void* p, u32 pc);
size_t arena_size(const void* p);
void  arena_setup();

// vfs
void vfs_setup(void* region, size_t size);        // driver, before any fork
void vfs_reset();                                 // driver, before each run
void vfs_child_init();
void stdio_child_init();
void* vfs_persistent_region(size_t* n);

// scenario table
extern Scenario* g_scenarios;
const Scenario* find_scenario(const std::string& name);

u32 caller_pc(void* ra);
#define PC_HERE ((sim::u32)(sim::uptr)__builtin_return_address(0))

[[noreturn]] void child_exit(int status);
}

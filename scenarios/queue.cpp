// The queues below the thread pools: the blocking queue (linearizable bounded FIFO) and the lock-free queues (no loss, no
// duplicate, per-producer order, blocking waits), and the semaphore under them.
#include "common.h"
#include "lin.h"
#include "base/block_queue.h"
#include "base/circular_queue.h"
#include "base/concurrentqueue/blockingconcurrentqueue.h"
#include "base/concurrentqueue/concurrentqueue.h"
#include "base/concurrentqueue/lightweightsemaphore.h"
#include <memory>
namespace {
// ------------------------------------------------------------------------------------------------ blocking queue
enum { ROOM, ENQ, NOWAIT, DEQ, DEQFOR, SIZE, OVER, RESET_OVER };
const char* const OPN[] = {"enqueue_if_have_room", "enqueue", "enqueue_nowait", "dequeue", "dequeue_for", "size", "override_count", "reset_override_count"};
struct Rec { int op, val, ret; };     // ret: value taken, -1: timed out
struct BState { std::vector<int> q; size_t over; };
struct BWorld { Lin<BState, Rec> lin; std::vector<int> pend; u64 changes; };
BWorld* BW;
typedef ll::base::block_queue<std::unique_ptr<int>> BQ;

void bq_op(BQ& q, int op, int val, long ms) {
    u64 t0, n0;
    { SIM_QUIET; t0 = sim::stamp(); n0 = sim::now_ns(); BW->pend[op]++; }
    Rec r = {op, val, 0};
    std::unique_ptr<int> x;
    switch (op) {
    case ROOM: q.enqueue_if_have_room(std::unique_ptr<int>(new int(val))); break;
    case ENQ: q.enqueue(std::unique_ptr<int>(new int(val))); break;
    case NOWAIT: q.enqueue_nowait(std::unique_ptr<int>(new int(val))); break;
    case DEQ: q.dequeue(x); break;
    case DEQFOR: if (!q.dequeue_for(x, std::chrono::milliseconds(ms))) r.ret = -1; break;
    case SIZE: r.ret = (int)q.size(); break;
    case OVER: r.ret = (int)q.get_override_count(); break;
    case RESET_OVER: q.reset_override_count(); break;
    }
    if (op == DEQ || (op == DEQFOR && r.ret != -1)) {
        CHECK(x, "empty-item", "%s returned without an item", OPN[op]);
        r.ret = *x;
    }
    SIM_QUIET;
    BW->pend[op]--;
    BW->changes++;
    if (op == DEQFOR && r.ret == -1) {
        CHECK(!x, "item-on-timeout", "dequeue_for timed out and delivered an item");
        CHECK(sim::now_ns() - n0 >= (u64)ms * 1000000, "early-timeout", "dequeue_for gave up after %llu ns, the timeout is %ld ms", (unsigned long long)(sim::now_ns() - n0), ms);
        if (!sim::fault_count(sim::F_TIME_LEAP) && !sim::fault_count(sim::F_STALL) && !sim::fair_mode())
            CHECK(sim::now_ns() - n0 <= (u64)ms * 1000000 + 5000000, "late-timeout", "dequeue_for gave up only after %llu ns, the timeout is %ld ms", (unsigned long long)(sim::now_ns() - n0), ms);
        sim::probe("dequeue_for timed out");
    }
    Lin<BState, Rec>::Item it = {t0, sim::stamp(), r};
    BW->lin.h.push_back(it);
}

void run_bq(const Plan& p, int) {
    { SIM_QUIET; BW = new BWorld(); BW->pend.resize(16); BW->changes = 0; }
    size_t cap = (size_t)p.get("cap");
    int nth = p.nthreads();
    {
        BQ q(cap);
        bool done[16] = {};
        std::vector<std::thread> ts;
        for (int t = 0; t < nth; t++)
            ts.emplace_back([&, t] {
                for (auto& o : ops_of(p, t)) {
                    if (o.name == "sleep") sim::sleep_ns((u64)o.a[0] * 100000);
                    else if (o.name == "jump") sim::jump_wall(o.a[0] * 1000000ll);
                    else bq_op(q, (int)o.a[0], (int)o.a[1], o.a[2]);
                }
                SIM_QUIET;
                done[t] = true;
            });
        // helper: frees threads that wait for an item or for room once nothing else can; it never helps when a waiting
        // thread could proceed, so a lost wake-up stays visible
        int extra = 1000000, stuck = 0;
        u64 last = 0;
        for (;;) {
            bool all = true;
            int deq, enq;
            u64 ch;
            { SIM_QUIET; for (int t = 0; t < nth; t++) all &= done[t]; deq = BW->pend[DEQ]; enq = BW->pend[ENQ]; ch = BW->changes; }
            if (all) break;
            sim::sleep_ns(1000000000ull);
            bool moved;
            { SIM_QUIET; moved = ch != BW->changes || last != ch; last = BW->changes; }
            if (moved) { stuck = 0; continue; }
            size_t n = q.size();
            if (deq && n == 0) bq_op(q, NOWAIT, extra++, 0);
            else if (enq && n == cap) bq_op(q, DEQFOR, 0, 0);
            else if ((deq || enq) && ++stuck > 20)
                sim::violate("lost-wakeup", "a thread waits in %s although the queue holds %zu of %zu items", deq ? "dequeue" : "enqueue", n, cap);
        }
        for (auto& t : ts) t.join();
        {
            SIM_QUIET;
            size_t n = BW->lin.h.size();
            sim::probe("history operations", n);
        }
        size_t room = 0;
        for (auto& o : p.ops) if (o.name == "op" && o.a[0] == ROOM) room++;
        size_t dc = q.get_discard_count();
        // what is left, in order
        for (;;) { size_t n = q.size(); if (!n) break; bq_op(q, DEQ, 0, 0); }
        q.reset_discard_count();
        CHECK(q.get_discard_count() == 0, "discard-count", "discard count is %zu after a reset", q.get_discard_count());
        SIM_QUIET;
        CHECK(dc <= room, "discard-count", "discard count %zu, but only %zu calls could discard", dc, room);
        // conservation: every item went in and came out, was overridden, or was discarded
        bool resets = false;
        size_t in = 0, outn = 0;
        for (auto& i : BW->lin.h) {
            if (i.r.op == ROOM || i.r.op == ENQ || i.r.op == NOWAIT) in++;
            if ((i.r.op == DEQ || i.r.op == DEQFOR) && i.r.ret >= 0) outn++;
            resets |= i.r.op == RESET_OVER;
        }
        size_t over = q.get_override_count();
        if (!resets) CHECK(in == outn + over + dc, "conservation", "%zu items given, %zu taken, %zu overridden, %zu discarded", in, outn, over, dc);
        if (over) sim::probe("items overridden", over);
        if (dc) sim::probe("items discarded", dc);
    }
    SIM_QUIET;
    Lin<BState, Rec>& L = BW->lin;
    L.apply = [cap](BState& s, const Rec& r) {
        switch (r.op) {
        case ROOM: if (s.q.size() < cap) s.q.push_back(r.val); return true;
        case ENQ: if (s.q.size() >= cap) return false; s.q.push_back(r.val); return true;
        case NOWAIT: s.q.push_back(r.val); if (s.q.size() > cap) { s.q.erase(s.q.begin()); s.over++; } return true;
        case DEQ: if (s.q.empty() || s.q[0] != r.ret) return false; s.q.erase(s.q.begin()); return true;
        case DEQFOR: if (r.ret == -1) return s.q.empty(); if (s.q.empty() || s.q[0] != r.ret) return false; s.q.erase(s.q.begin()); return true;
        case SIZE: return (int)s.q.size() == r.ret;
        case OVER: return (int)s.over == r.ret;
        case RESET_OVER: s.over = 0; return true;
        }
        return false;
    };
    L.key = [](const BState& s) { return std::string((const char*)s.q.data(), s.q.size() * sizeof(int)) + (char)s.over; };
    BState init; init.over = 0;
    bool ok = L.check(init);
    if (L.gave_up) sim::probe("linearizability undecided");
    if (!ok) {
        std::string s;
        std::sort(L.h.begin(), L.h.end(), [](const Lin<BState, Rec>::Item& a, const Lin<BState, Rec>::Item& b) { return a.t0 < b.t0; });
        for (auto& i : L.h) { std::string l = strf("[%llu,%llu] %s(%d) -> %d", (unsigned long long)i.t0, (unsigned long long)i.t1, OPN[i.r.op], i.r.val, i.r.ret); sim::note("%s", l.c_str()); if (s.size() < 300) s += l + "; "; }
        sim::violate("not-linearizable", "no sequential order of the bounded FIFO (capacity %zu) explains the history: %s", cap, s.c_str());
    }
}
void gen_bq(Rng& r, Plan& p) {
    static const long caps[] = {1, 1, 1, 2, 2, 3, 4};
    p.set("cap", caps[r.below(7)]);
    int nt = (int)r.range(2, 4), val = 1;
    // swarm: which operations occur
    int w[8];
    for (int i = 0; i < 8; i++) w[i] = r.chance(2, 3) ? (int)r.range(1, 4) : 0;
    if (r.chance(1, 2)) w[SIZE] = w[OVER] = w[RESET_OVER] = 0;
    if (!r.chance(1, 5)) w[RESET_OVER] = 0;
    bool jumps = r.chance(1, 4), longer = r.chance(1, 4);
    if (!w[ROOM] && !w[ENQ] && !w[NOWAIT]) w[ENQ] = 3;
    if (!w[DEQ] && !w[DEQFOR]) w[DEQ] = 3;
    int tot = 0;
    for (int i = 0; i < 8; i++) tot += w[i];
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 7);
        for (int i = 0; i < n; i++) {
            if (r.chance(1, 15)) { p.add(t, "sleep", r.range(1, 40)); continue; }
            if (jumps && r.chance(1, 5)) { p.add(t, "jump", r.range(-1, 1) * r.range(1, 100000)); continue; }
            int x = (int)r.below(tot), op = 0;
            while (x >= w[op]) x -= w[op++];
            p.add(t, "op", op, op <= NOWAIT ? val++ : 0, op == DEQFOR ? (longer ? r.range(5, 60) : r.range(0, 5)) : 0);
        }
    }
}

// ------------------------------------------------------------------------------------------------ lock-free queues
// payload with heap memory, so that a misuse of a slot is a memory error the simulator sees
struct Box {
    std::unique_ptr<long> v;
    static thread_local bool may_throw;
    Box() {}
    explicit Box(long x) : v(new long(x)) {}
    Box(Box&& o) noexcept(false) : v() { tick(); v = std::move(o.v); }
    Box(const Box& o) : v() { tick(); if (o.v) v.reset(new long(*o.v)); }
    Box& operator=(Box&& o) noexcept { v = std::move(o.v); return *this; }
    Box& operator=(const Box& o) { v.reset(o.v ? new long(*o.v) : nullptr); return *this; }
    static void tick() {
        SIM_QUIET;
        if (!may_throw) return;
        if (sim::fault(sim::F_SINK_THROW)) throw std::runtime_error("element constructor");
    }
};
thread_local bool Box::may_throw = true;
struct Quiet { bool was; explicit Quiet(bool on) : was(Box::may_throw) { if (on) Box::may_throw = false; } ~Quiet() { Box::may_throw = was; } };
struct T2 : moodycamel::ConcurrentQueueDefaultTraits {
    static const size_t BLOCK_SIZE = 4;
    static const size_t EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 2;
    static const size_t EXPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 1;
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 2;
    static const int MAX_SEMA_SPINS = 3;
};
struct T4 : moodycamel::ConcurrentQueueDefaultTraits {
    static const size_t BLOCK_SIZE = 2;
    static const size_t EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 32;
    static const size_t EXPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 2;
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 5;
    static const int MAX_SEMA_SPINS = 50;
    static const bool RECYCLE_ALLOCATED_BLOCKS = true;
};
struct TD : moodycamel::ConcurrentQueueDefaultTraits {};       // the configuration the thread pools use

struct Item { int state; u64 t0, t1; int prod; int seq; u64 d0, d1; int consumer; };      // state: 1 offered, 2 accepted, 3 refused, 4 taken
struct QWorld { std::vector<Item> it; std::map<int, int> seq; size_t taken; };
QWorld* QW;

long offer(int prod) {
    SIM_QUIET;
    Item i;
    memset((void*)&i, 0, sizeof i);
    i.state = 1; i.prod = prod; i.seq = QW->seq[prod]++; i.t0 = sim::stamp();
    QW->it.push_back(i);
    return (long)QW->it.size() - 1;
}
void accepted(long id, bool ok) {
    SIM_QUIET;
    Item& i = QW->it[id];
    i.t1 = sim::stamp();
    if (ok) { if (i.state == 1) i.state = 2; }
    else {
        CHECK(i.state != 4, "phantom", "item %ld was refused by the queue and still came out of it", id);
        i.state = 3;
    }
}
void taken(const Box& b, u64 d0) {
    SIM_QUIET;
    CHECK(b.v, "empty-item", "the queue delivered an item without its value (moved-from)");
    long id = *b.v;
    CHECK(id >= 0 && (size_t)id < QW->it.size(), "corrupted", "the queue delivered %ld, which nobody put in", id);
    Item& i = QW->it[id];
    CHECK(i.state != 4, "duplicate", "item %ld of producer %d came out twice", id, i.prod);
    CHECK(i.state != 3, "phantom", "item %ld was refused by the queue and still came out of it", id);
    i.state = 4; i.d0 = d0; i.d1 = sim::stamp(); i.consumer = sim::self();
    QW->taken++;
}

// wrappers giving both queue kinds one interface
template <class Q, bool Blocking> struct Waiter {
    static bool timed(Q& q, Box& b, long us) { (void)us; return q.try_dequeue(b); }
    static bool timed(Q& q, moodycamel::ConsumerToken& t, Box& b, long us) { (void)us; return q.try_dequeue(t, b); }
    static size_t timed_bulk(Q& q, Box* b, size_t n, long us) { (void)us; return q.try_dequeue_bulk(b, n); }
};
template <class Q> struct Waiter<Q, true> {
    static bool timed(Q& q, Box& b, long us) {
        if (us % 3 == 0) return q.wait_dequeue_timed(b, std::chrono::microseconds(us));
        return q.wait_dequeue_timed(b, (int64_t)us);
    }
    static bool timed(Q& q, moodycamel::ConsumerToken& t, Box& b, long us) {
        if (us % 3 == 0) return q.wait_dequeue_timed(t, b, std::chrono::microseconds(us));
        return q.wait_dequeue_timed(t, b, (int64_t)us);
    }
    static size_t timed_bulk(Q& q, Box* b, size_t n, long us) {
        if (us % 3 == 0) return q.wait_dequeue_bulk_timed(b, n, std::chrono::microseconds(us));
        return q.wait_dequeue_bulk_timed(b, n, (int64_t)us);
    }
};
template <class Q, bool B> struct FromProducer { static bool take(Q& q, moodycamel::ProducerToken& t, Box& b) { return q.try_dequeue_from_producer(t, b); } };
template <class Q> struct FromProducer<Q, true> { static bool take(Q& q, moodycamel::ProducerToken&, Box& b) { return q.try_dequeue(b); } };
template <class Q, bool B> struct Block {
    static void one(Q& q, Box& b) { while (!q.try_dequeue(b)) sim::yield_point(); }
    static void one(Q& q, moodycamel::ConsumerToken& t, Box& b) { while (!q.try_dequeue(t, b)) sim::yield_point(); }
    static size_t bulk(Q& q, Box* b, size_t n) { size_t k; while (!(k = q.try_dequeue_bulk(b, n))) sim::yield_point(); return k; }
};
template <class Q> struct Block<Q, true> {
    static void one(Q& q, Box& b) { q.wait_dequeue(b); }
    static void one(Q& q, moodycamel::ConsumerToken& t, Box& b) { q.wait_dequeue(t, b); }
    static size_t bulk(Q& q, Box* b, size_t n) { return q.wait_dequeue_bulk(b, n); }
};

enum { P_ENQ, P_COPY, P_TRY, P_TOK, P_TRYTOK, P_BULK, P_BULKTOK, P_TRYBULK, P_NUM };

template <class Q> void produce(Q& q, std::unique_ptr<moodycamel::ProducerToken>& tok, int op, int n, int prod_base) {
    // implicit and explicit producers of one thread are two producers
    bool use_tok = op == P_TOK || op == P_TRYTOK || op == P_BULKTOK;
    if (use_tok && !tok) tok.reset(new moodycamel::ProducerToken(q));
    if (use_tok && !tok->valid()) use_tok = false, op = P_ENQ;
    int prod = prod_base * 2 + (use_tok ? 1 : 0);
    if (op == P_BULK || op == P_BULKTOK || op == P_TRYBULK) {
        std::vector<long> ids;
        std::vector<Box> in;
        bool ok = false;
        {
            Quiet q(true);
            in.reserve(n);
            for (int i = 0; i < n; i++) { long id = offer(prod); ids.push_back(id); in.emplace_back(id); }
        }
        // An explicit producer does not survive an element whose constructor throws (see DESIGN.md, "outside the property"): the
        // logger's messages never throw when moved, so it is exercised without that fault.
        Quiet quiet(use_tok);
        sim::oom_scope(!use_tok);
        try {
            if (op == P_BULK) ok = q.enqueue_bulk(in.begin(), n);
            else if (op == P_TRYBULK) ok = q.try_enqueue_bulk(std::make_move_iterator(in.begin()), n);
            else ok = q.enqueue_bulk(*tok, std::make_move_iterator(in.begin()), n);
        } catch (const std::exception&) { ok = false; }
        sim::oom_scope(false);
        for (long id : ids) accepted(id, ok);
        return;
    }
    for (int i = 0; i < n; i++) {
        long id = offer(prod);
        Box b(id);
        bool ok = false;
        Quiet quiet(use_tok);
        sim::oom_scope(true);
        try {
            switch (op) {
            case P_ENQ: ok = q.enqueue(std::move(b)); break;
            case P_COPY: ok = q.enqueue(static_cast<const Box&>(b)); break;
            case P_TRY: ok = q.try_enqueue(std::move(b)); break;
            case P_TOK: ok = q.enqueue(*tok, std::move(b)); break;
            default: ok = q.try_enqueue(*tok, std::move(b));
            }
        } catch (const std::runtime_error&) { ok = false; }
        catch (const std::bad_alloc&) { ok = false; }      // copying the element
        sim::oom_scope(false);
        accepted(id, ok);
        if (!ok) {
            // a refused item still belongs to the caller
            if (op != P_COPY && !b.v) { SIM_QUIET; sim::violate("lost", "the queue refused item %ld but took its value", id); }
            SIM_QUIET;
            sim::probe("offer refused");
        }
    }
}

template <class Q, bool Blocking> void consume(Q& q, std::unique_ptr<moodycamel::ConsumerToken>& tok, int op, int n, long us) {
    u64 d0, n0;
    { SIM_QUIET; d0 = sim::stamp(); n0 = sim::now_ns(); }
    Box b;
    auto gave_up = [&] {
        if (!Blocking) return;
        SIM_QUIET;
        CHECK(sim::now_ns() - n0 >= (u64)us * 1000, "early-timeout", "a timed dequeue gave up after %llu ns, the timeout is %ld us", (unsigned long long)(sim::now_ns() - n0), us);
        sim::probe("timed dequeue gave up");
    };
    switch (op) {
    case 0: if (q.try_dequeue(b)) taken(b, d0); break;
    case 1:
        if (!tok) tok.reset(new moodycamel::ConsumerToken(q));
        if (q.try_dequeue(*tok, b)) taken(b, d0);
        break;
    case 2: { std::vector<Box> v(n); size_t k = q.try_dequeue_bulk(v.begin(), n); for (size_t i = 0; i < k; i++) taken(v[i], d0); break; }
    case 3:
        if (!tok) tok.reset(new moodycamel::ConsumerToken(q));
        { std::vector<Box> v(n); size_t k = q.try_dequeue_bulk(*tok, v.begin(), n); for (size_t i = 0; i < k; i++) taken(v[i], d0); }
        break;
    case 4: case 6: {
        bool ok;
        if (op == 6 && !tok) tok.reset(new moodycamel::ConsumerToken(q));
        if (op == 6) ok = Waiter<Q, Blocking>::timed(q, *tok, b, us);
        else ok = Waiter<Q, Blocking>::timed(q, b, us);
        if (ok) taken(b, d0);
        else gave_up();
        break;
    }
    case 5: {
        std::vector<Box> v(n);
        size_t k = Waiter<Q, Blocking>::timed_bulk(q, v.data(), (size_t)n, us);
        CHECK(k <= (size_t)n, "bulk-count", "asked for %d items, got %zu", n, k);
        for (size_t i = 0; i < k; i++) taken(v[i], d0);
        if (!k) gave_up();
        break;
    }
    }
}

template <class Q, bool Blocking> void run_cq_t(const Plan& p) {
    { SIM_QUIET; QW = new QWorld(); QW->taken = 0; }
    std::unique_ptr<Q> q(new Q((size_t)p.get("cap", 4)));
    int phases = (int)p.get("phases", 1), nth = p.nthreads();
    bool move_q = p.get("moveq") != 0;
    std::unique_ptr<Q> decoy;
    if (p.get("decoy")) decoy.reset(new Q(1));      // a second queue used by the same threads
    for (int ph = 0; ph < phases; ph++) {
        std::unique_ptr<moodycamel::ProducerToken> shared_tok;
        size_t base_taken = QW->taken;
        size_t total = 0;       // items the blocking consumers of this phase wait for
        (void)total; (void)base_taken;
        run_threads(nth, [&](int t) {
            std::unique_ptr<moodycamel::ProducerToken> ptok;
            std::unique_ptr<moodycamel::ConsumerToken> ctok;
            for (auto& o : ops_of(p, t)) {
                if (o.a[4] % phases != ph) continue;
                if (o.name == "prod") produce(*q, ptok, (int)o.a[0], (int)o.a[1], ph * 100 + t);
                else if (o.name == "cons") consume<Q, Blocking>(*q, ctok, (int)o.a[0], (int)o.a[1], o.a[2]);
                else if (o.name == "size") q->size_approx();
                else if (o.name == "self" && ptok && !Blocking) { u64 d0; { SIM_QUIET; d0 = sim::stamp(); } Box b; if (FromProducer<Q, Blocking>::take(*q, *ptok, b)) taken(b, d0); }
                else if (o.name == "decoy" && decoy) { Box b(-1); try { decoy->enqueue(std::move(b)); } catch (const std::exception&) {} }
            }
        });
        // quiescent: the size is exact, and what is left can be taken
        size_t in = 0, out = 0;
        { SIM_QUIET; for (auto& i : QW->it) { if (i.state == 2) in++; if (i.state == 4) out++; } }
        CHECK(q->size_approx() == in, "size", "the queue holds %zu items and reports %zu", in, q->size_approx());
        if (move_q && ph + 1 < phases) {
            std::unique_ptr<Q> q2(new Q(std::move(*q)));
            CHECK(q2->size_approx() == in, "size", "a moved queue of %zu items reports %zu", in, q2->size_approx());
            q = std::move(q2);
        }
    }
    if (p.get("drain")) {
        // several consumers take the rest, blocking when the queue can block: each takes a share
        size_t left = 0;
        { SIM_QUIET; for (auto& i : QW->it) left += i.state == 2; }
        int nc = (int)p.get("drain");
        int mode = (int)p.get("dmode");
        run_threads(nc, [&](int t) {
            size_t share = left / nc + ((size_t)t < left % nc ? 1 : 0);
            std::unique_ptr<moodycamel::ConsumerToken> ctok;
            if (mode == 1) ctok.reset(new moodycamel::ConsumerToken(*q));
            while (share) {
                u64 d0;
                { SIM_QUIET; d0 = sim::stamp(); }
                if (mode == 2) {
                    std::vector<Box> v(share);
                    size_t k = Block<Q, Blocking>::bulk(*q, v.data(), share);
                    CHECK(k >= 1 && k <= share, "bulk-count", "asked for up to %zu items, got %zu", share, k);
                    for (size_t i = 0; i < k; i++) taken(v[i], d0);
                    share -= k;
                } else {
                    Box b;
                    if (ctok) Block<Q, Blocking>::one(*q, *ctok, b); else Block<Q, Blocking>::one(*q, b);
                    taken(b, d0);
                    share--;
                }
            }
        });
    }
    for (;;) {
        u64 d0;
        { SIM_QUIET; d0 = sim::stamp(); }
        Box b;
        if (!q->try_dequeue(b)) break;
        taken(b, d0);
    }
    CHECK(q->size_approx() == 0, "size", "the empty queue reports %zu items", q->size_approx());
    if (p.get("reuse")) {
        // every thread that produced may keep one block, all others are free: this thread gets at least one again and again
        Quiet quiet(true);
        const int bs = p.get("type") % 2 ? 2 : 4;
        for (long round = 0; round < p.get("cap") / bs + 3; round++) {
            int n = 0;
            for (;; n++) {
                long id = offer(7777);
                Box b(id);
                bool ok = n < 3 * bs && q->try_enqueue(std::move(b));
                accepted(id, ok);
                if (!ok) break;
            }
            CHECK(n >= bs, "capacity", "an empty queue made for %ld items takes only %d without allocating (round %ld)", p.get("cap"), n, round);
            for (;;) {
                u64 d0;
                { SIM_QUIET; d0 = sim::stamp(); }
                Box b;
                if (!q->try_dequeue(b)) break;
                taken(b, d0);
            }
        }
    }
    {
        SIM_QUIET;
        std::map<int, std::vector<const Item*>> byp;
        for (size_t i = 0; i < QW->it.size(); i++) {
            const Item& x = QW->it[i];
            CHECK(x.state == 4 || x.state == 3, "lost", "item %zu of producer %d was accepted and never came out", i, x.prod);
            if (x.state == 4) byp[x.prod].push_back(&x);
        }
        // order: items of one producer are never taken by operations that are ordered the other way round
        for (auto& kv : byp) {
            auto& v = kv.second;
            for (size_t i = 0; i < v.size(); i++)
                for (size_t j = i + 1; j < v.size(); j++) {
                    CHECK(!(v[j]->d1 < v[i]->d0), "order", "producer %d: item number %d was taken before item number %d", kv.first, v[j]->seq, v[i]->seq);
                    if (v[i]->consumer == v[j]->consumer && v[i]->d0 == v[j]->d0)      // one bulk operation
                        CHECK(v[i]->d1 < v[j]->d1, "order", "producer %d: a bulk dequeue returned item number %d before number %d", kv.first, v[j]->seq, v[i]->seq);
                }
        }
    }
}
void run_cq(const Plan& p, int) {
    switch (p.get("type")) {
    case 0: run_cq_t<moodycamel::ConcurrentQueue<Box, T2>, false>(p); break;
    case 1: run_cq_t<moodycamel::ConcurrentQueue<Box, T4>, false>(p); break;
    case 2: run_cq_t<moodycamel::BlockingConcurrentQueue<Box, T2>, true>(p); break;
    case 3: run_cq_t<moodycamel::BlockingConcurrentQueue<Box, T4>, true>(p); break;
    case 4: run_cq_t<moodycamel::ConcurrentQueue<Box, TD>, false>(p); break;
    default: run_cq_t<moodycamel::BlockingConcurrentQueue<Box, TD>, true>(p); break;
    }
}
void gen_cq(Rng& r, Plan& p) {
    long type = (long)r.below(6);
    p.set("type", type);
    static const long caps[] = {1, 2, 4, 6, 12, 40};
    p.set("cap", caps[r.below(6)]);
    int phases = r.chance(1, 2) ? 1 : (int)r.range(2, 3);
    p.set("phases", phases);
    if (r.chance(1, 5)) p.set("decoy", 1);
    if (phases > 1 && r.chance(1, 3)) p.set("moveq", 1);
    if (r.chance(2, 3)) { p.set("drain", r.range(1, 3)); p.set("dmode", (long)r.below(3)); }
    if (r.chance(1, 4)) { p.set("f.sink_throw", 600); p.set("fmax.sink_throw", 4); }
    if (r.chance(1, 4)) { p.set("f.oom", 1500); p.set("fmax.oom", 6); }
    int nt = (int)r.range(2, 4);
    int pm = (int)r.below(3);     // 0: mixed, 1: producers and consumers apart, 2: few kinds
    int k1 = (int)r.below(P_NUM), c1 = (int)r.below(7);
    bool slow = r.chance(1, 5);      // timeouts of up to 80 ms
    if (r.chance(1, 5)) {
        // only operations that must not allocate: the memory of the queue has to be used again
        static const long tt[] = {0, 1, 2, 3};
        p.set("type", tt[r.below(4)]);
        p.set("reuse", 1);
        p.set("cap", (nt * phases + 6) * (p.get("type") % 2 ? 2 : 4));
        p.set("moveq", 0);
        for (const char* k : {"f.sink_throw", "f.oom"}) p.set(k, 0);
    }
    int maxn = r.chance(1, 4) ? 40 : 6;
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 8);
        for (int i = 0; i < n; i++) {
            bool prod = pm == 1 ? t % 2 == 0 : r.chance(1, 2);
            if (r.chance(1, 20)) { p.add(t, r.chance(1, 2) ? "size" : "decoy", 0, 0, 0, 0, (long)r.below(6)); continue; }
            if (r.chance(1, 15)) { p.add(t, "self", 0, 0, 0, 0, (long)r.below(6)); continue; }
            if (prod) p.add(t, "prod", p.get("reuse") ? (r.chance(2, 3) ? P_TRY : P_TRYBULK) : pm == 2 ? k1 : (long)r.below(P_NUM), r.range(1, maxn), 0, 0, (long)r.below(6));
            else p.add(t, "cons", pm == 2 ? c1 : (long)r.below(7), r.range(1, maxn), slow && r.chance(1, 3) ? r.range(900, 80000) : r.range(0, 300), 0, (long)r.below(6));
        }
    }
}

// ------------------------------------------------------------------------------------------------ blocked consumers while producing
template <class Q> void run_cqw_t(const Plan& p) {
    { SIM_QUIET; QW = new QWorld(); QW->taken = 0; }
    {
        Q q((size_t)p.get("cap", 4));
        int np = (int)p.get("np"), nc = (int)p.get("nc"), total = (int)p.get("total"), mode = (int)p.get("mode");
        std::vector<std::thread> ts;
        for (int t = 0; t < np; t++)
            ts.emplace_back([&, t] {
                std::unique_ptr<moodycamel::ProducerToken> ptok;
                int mine = total / np + (t < total % np ? 1 : 0);
                int kind = (int)p.get(strf("k%d", t).c_str(), 0), chunk = (int)p.get("chunk", 3);
                while (mine > 0) {
                    int n = kind == P_BULK || kind == P_BULKTOK ? std::min(mine, chunk) : 1;
                    produce(q, ptok, kind, n, t);
                    mine -= n;
                }
            });
        for (int t = 0; t < nc; t++)
            ts.emplace_back([&, t] {
                std::unique_ptr<moodycamel::ConsumerToken> ctok;
                if (mode == 1) ctok.reset(new moodycamel::ConsumerToken(q));
                int share = total / nc + (t < total % nc ? 1 : 0);
                while (share > 0) {
                    u64 d0;
                    { SIM_QUIET; d0 = sim::stamp(); }
                    if (mode == 2) {
                        std::vector<Box> v(share);
                        size_t k = q.wait_dequeue_bulk(v.data(), share);
                        CHECK(k >= 1 && k <= (size_t)share, "bulk-count", "asked for up to %d items, got %zu", share, k);
                        for (size_t i = 0; i < k; i++) taken(v[i], d0);
                        share -= (int)k;
                    } else if (mode == 3) {
                        Box b;
                        if (q.wait_dequeue_timed(b, (int64_t)p.get("us", 50))) { taken(b, d0); share--; }
                    } else {
                        Box b;
                        if (ctok) q.wait_dequeue(*ctok, b); else q.wait_dequeue(b);
                        taken(b, d0);
                        share--;
                    }
                }
            });
        for (auto& t : ts) t.join();
        CHECK(q.size_approx() == 0, "size", "the empty queue reports %zu items", q.size_approx());
        Box b;
        CHECK(!q.try_dequeue(b), "duplicate", "an item is left although as many were taken as were put in");
    }
    SIM_QUIET;
    std::map<int, std::vector<const Item*>> byp;
    for (auto& x : QW->it) { CHECK(x.state == 4, "lost", "an item of producer %d never came out", x.prod); byp[x.prod].push_back(&x); }
    for (auto& kv : byp)
        for (size_t i = 0; i < kv.second.size(); i++)
            for (size_t j = i + 1; j < kv.second.size(); j++)
                CHECK(!(kv.second[j]->d1 < kv.second[i]->d0), "order", "producer %d: item number %d was taken before item number %d", kv.first, kv.second[j]->seq, kv.second[i]->seq);
}
void run_cqw(const Plan& p, int) {
    switch (p.get("type")) {
    case 0: run_cqw_t<moodycamel::BlockingConcurrentQueue<Box, T2>>(p); break;
    case 1: run_cqw_t<moodycamel::BlockingConcurrentQueue<Box, T4>>(p); break;
    default: run_cqw_t<moodycamel::BlockingConcurrentQueue<Box, TD>>(p); break;
    }
}
void gen_cqw(Rng& r, Plan& p) {
    p.set("type", (long)r.below(3));
    static const long caps[] = {1, 2, 4, 12};
    p.set("cap", caps[r.below(4)]);
    p.set("np", r.range(1, 3)); p.set("nc", r.range(1, 3));
    p.set("total", r.range(1, r.chance(1, 4) ? 60 : 14));
    p.set("mode", (long)r.below(4));
    p.set("chunk", r.range(1, 9));
    p.set("us", r.chance(1, 6) ? r.range(1000, 30000) : r.range(1, 400));
    static const long ks[] = {P_ENQ, P_COPY, P_TOK, P_BULK, P_BULKTOK};
    for (int i = 0; i < 3; i++) p.set(strf("k%d", i).c_str(), ks[r.below(5)]);
}

// ------------------------------------------------------------------------------------------------ semaphore
struct SWorld { long signalled, acquired; };
SWorld* SW;
// one thread signals, one waits: what was written before a signal is there when it was waited for
void run_handover(const Plan& p) {
    const long init = p.get("init"), total = p.get("total");
    moodycamel::LightweightSemaphore s(init, (int)p.get("spins"));
    std::vector<long> slot((size_t)(init + total), 0);
    for (long i = 0; i < init; i++) slot[(size_t)i] = i + 1;
    std::thread giver([&] {
        size_t at = (size_t)init;
        for (auto& o : ops_of(p, 0)) {
            for (long i = 0; i < o.a[0]; i++, at++) slot[at] = (long)at + 1;
            s.signal(o.a[0]);
            if (o.a[1]) sim::sleep_ns((u64)o.a[1] * 1000);
        }
    });
    std::thread taker([&] {
        auto ops = ops_of(p, 1);
        size_t at = 0, k = 0;
        while (at < slot.size()) {
            auto& o = ops[k++ % ops.size()];
            long left = (long)(slot.size() - at), m = std::min<long>(left, o.a[0]), got = 0;
            switch (o.a[1]) {
            case 0: got = s.wait(); break;
            case 1: got = s.waitMany(m); break;
            case 2: got = s.tryWait(); break;
            case 3: got = s.tryWaitMany(m); break;
            case 4: got = s.wait((int64_t)o.a[2]); break;
            case 5: got = s.waitMany(m, (int64_t)o.a[2]); break;
            }
            if (o.a[1] < 2) CHECK(got >= 1, "semaphore", "a wait without timeout returned %ld units", got);
            if (got == 0 && (o.a[1] == 2 || o.a[1] == 3)) sim::yield_point();
            for (long i = 0; i < got; i++, at++) {
                CHECK(at < slot.size(), "semaphore", "more units were taken than signalled");
                CHECK(slot[at] == (long)at + 1, "hand-over", "what was written before signal %zu is not there after its wait", at);
            }
        }
    });
    giver.join(); taker.join();
    CHECK(s.availableApprox() == 0 && !s.tryWait(), "semaphore", "a unit is left although all were taken");
}
void run_sema(const Plan& p, int) {
    if (p.get("hand")) { run_handover(p); return; }
    { SIM_QUIET; SW = new SWorld(); SW->signalled = p.get("init"); SW->acquired = 0; }
    moodycamel::LightweightSemaphore s((long)p.get("init"), (int)p.get("spins"));
    int nth = p.nthreads();
    long need = 0, have = p.get("init");
    for (auto& o : p.ops) { if (o.name == "wait" || o.name == "many") need += o.a[0]; if (o.name == "signal") have += o.a[0]; }
    (void)need; (void)have;
    auto got = [&](long k, long max, const char* w) {
        SIM_QUIET;
        CHECK(k >= 0 && k <= max, "semaphore", "%s took %ld units of %ld", w, k, max);
        SW->acquired += k;
        CHECK(SW->acquired <= SW->signalled, "semaphore", "%s: %ld units taken, only %ld were ever signalled", w, SW->acquired, SW->signalled);
    };
    run_threads(nth, [&](int t) {
        for (auto& o : ops_of(p, t)) {
            if (o.name == "signal") { { SIM_QUIET; SW->signalled += o.a[0]; } s.signal(o.a[0]); }
            else if (o.name == "try") got(s.tryWait() ? 1 : 0, 1, "tryWait");
            else if (o.name == "trymany") got(s.tryWaitMany(o.a[0]), o.a[0], "tryWaitMany");
            else if (o.name == "wait") { CHECK(s.wait(), "semaphore", "wait() failed"); got(1, 1, "wait"); }
            else if (o.name == "many") {
                for (long left = o.a[0]; left > 0;) { long k = s.waitMany(left); CHECK(k >= 1, "semaphore", "waitMany returned %ld", k); got(k, left, "waitMany"); left -= k; }
            } else if (o.name == "timed") {
                u64 n0;
                { SIM_QUIET; n0 = sim::now_ns(); }
                bool ok = s.wait((int64_t)o.a[1]);
                if (!ok) { SIM_QUIET; CHECK(sim::now_ns() - n0 >= (u64)o.a[1] * 1000, "early-timeout", "a timed wait gave up after %llu ns, the timeout is %ld us", (unsigned long long)(sim::now_ns() - n0), o.a[1]); sim::probe("timed wait gave up"); }
                got(ok, 1, "timed wait");
            } else if (o.name == "timedmany") {
                u64 n0;
                { SIM_QUIET; n0 = sim::now_ns(); }
                long k = s.waitMany(o.a[0], (int64_t)o.a[1]);
                if (!k) { SIM_QUIET; CHECK(sim::now_ns() - n0 >= (u64)o.a[1] * 1000, "early-timeout", "a timed waitMany gave up after %llu ns, the timeout is %ld us", (unsigned long long)(sim::now_ns() - n0), o.a[1]); }
                got(k, o.a[0], "timed waitMany");
            }
        }
    });
    long avail = (long)s.availableApprox();
    CHECK(avail == SW->signalled - SW->acquired, "semaphore", "%ld units signalled, %ld taken, %ld available", SW->signalled, SW->acquired, avail);
    for (long i = 0; i < avail; i++) CHECK(s.tryWait(), "semaphore", "%ld of %ld available units cannot be taken", avail - i, avail);
    CHECK(!s.tryWait(), "semaphore", "one unit more than available was taken");
}
void gen_sema(Rng& r, Plan& p) {
    p.set("init", (long)r.below(3));
    static const long sp[] = {0, 1, 5, 200, 10000};
    p.set("spins", sp[r.below(5)]);
    if (r.chance(1, 3)) {
        p.set("hand", 1);
        long total = 0;
        for (long n = r.range(1, 8); n > 0; n--) { long k = r.range(1, 4); total += k; p.add(0, "give", k, r.chance(1, 4) ? r.range(1, 200) : 0); }
        p.set("total", total);
        for (long n = r.range(1, 5); n > 0; n--) p.add(1, "take", r.range(1, 4), (long)r.below(6), r.range(0, 150));
        p.add(1, "take", 1, 0, 0);
        return;
    }
    int nt = (int)r.range(2, 4);
    long need = 0, opt = 0;
    const bool slow = r.chance(1, 5);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 5);
        for (int i = 0; i < n; i++) {
            switch (r.below(7)) {
            case 0: p.add(t, "try"); opt++; break;
            case 1: { long k = r.range(1, 3); p.add(t, "trymany", k); opt += k; break; }
            case 2: case 3: p.add(t, "wait", 1); need++; break;
            case 4: { long k = r.range(1, 4); p.add(t, "many", k); need += k; break; }
            case 5: p.add(t, "timed", 0, slow ? r.range(900, 60000) : r.range(0, 300)); opt++; break;
            case 6: { long k = r.range(1, 3); p.add(t, "timedmany", k, slow ? r.range(900, 60000) : r.range(0, 300)); opt += k; break; }
            }
        }
    }
    // enough units for every unconditional wait whatever the optional ones take
    long give = need + opt;
    while (give > 0) { long k = std::min<long>(give, r.range(1, 4)); p.add(nt, "signal", k); give -= k; }
}

sim::Scenario s1("queue_bounded", gen_bq, run_bq), s2("queue_lockfree", gen_cq, run_cq), s3("queue_wait", gen_cqw, run_cqw), s4("queue_sema", gen_sema, run_sema);
}

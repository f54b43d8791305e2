// Scenario: user code that the library calls (constructors, destructors, dispatches, wake-up and priming functions) stays
// away for very long, uses the same component again, or throws after that, while other threads use the component.
// Whoever is not waiting for capacity must not notice.  C34.
#include "scn.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "ObjectPool.hpp"
#include "RingBufferGuarded.hpp"

namespace {
const int64_t LONG = 1000000000, SHORT = 100000000;   // user code that takes its time: 1000 s; nobody else may wait a tenth of it
enum Kind { K_OPOOL, K_BPOOL, K_MQ, K_MQLOCK, K_RING, K_N };
const char *const kindName[] = {"ObjectPool", "BlockPool", "MessageQueue", "MessageQueue with dispatch locking", "RingBufferGuarded"};
// What a piece of user code does; two bits of depth are left to what it creates.
enum Act { A_NONE, A_LONG, A_NEW, A_NEWDROP, A_STATS, A_THROW, A_NEWTHROW, A_GET, A_LOCK, A_ABORT, A_N };
struct Obj;
struct Elem;
struct Msg;
using OPool = RR::ObjectPool<Obj>;
using BPool = RR::BlockPool<Elem>;
struct G {
    const Case *c = nullptr;
    int kind = 0;
    OPool *op = nullptr;
    BPool *bp = nullptr;
    RR::MessageQueue *mq = nullptr;
    RR::RingBufferGuarded<int> *ring = nullptr;
    int64_t away[66] = {};                 // virtual time spent in long user code, per thread
    int64_t want[66] = {};                 // for the block pool: actions of the next element constructed
    int64_t live = 0, made = 0, gone = 0, failed = 0, dispatched = 0;
    bool quiet = false, ringAborted = false;
    size_t cap = 0;
};
G *g;
int me() { return sim::self() < 65 ? sim::self() : 65; }
void create(int64_t acts);
void take(int64_t acts);
struct Stats { int64_t size, running, mark; };
Stats stats();
// Runs the lowest action and returns the rest shifted.  child: where an object created in here is kept.
void act(int64_t a, int64_t rest, void (*keep)(void *, int64_t), void *where) {
    switch (a) {
    case A_LONG: { Off o; if (g->quiet) return; g->away[me()] += LONG; } sim::sleepUs(LONG); break;
    case A_NEW: if (keep) keep(where, rest); else create(rest); break;
    case A_NEWDROP: create(rest); break;
    case A_NEWTHROW: if (keep) keep(where, rest); else create(rest); [[fallthrough]];
    case A_THROW: { Off o; sim::countFault(sim::FK_THROW); } throwUser((int)rest);
    case A_STATS: stats(); if (g->mq) { volatile const char *n = g->mq->getNameOfLastMessageDispatched(); (void)n; } break;
    case A_GET: { Off o; if (g->quiet) return; } take(rest); break;
    default: sim::point();
    }
}
// ---------------------------------------------------------------- pools
// acts: 4 bits at construction, 4 bits at destruction, the rest for what these create
struct Obj {
    int64_t acts, serial;
    OPool::ObjectPtrType child{};
    Obj *self;
    static void keep(void *w, int64_t rest) { auto &c = static_cast<Obj *>(w)->child; c = g->op->createObj<Obj>(rest); }
    explicit Obj(int64_t a) : acts(a), self(this) {
        User u;
        { Off o; serial = g->made++; g->live++; }
        try { act(acts & 15, acts >> 8, keep, this); }
        catch (...) { Off o; g->live--; g->gone++; self = nullptr; throw; }
    }
    ~Obj() {
        User u;
        { Off o; if (self != this) sim::violate("user", true, "object %lld changed while it was live, or is destroyed again", (long long)serial); self = nullptr; g->live--; g->gone++; }
        try { act((acts >> 4) & 15, acts >> 8, nullptr, nullptr); } catch (...) { Off o; g->failed++; }
    }
};
struct Holder;
struct Elem {
    int64_t acts = 0;
    Holder *h = nullptr;
    Elem *self;
    static void keep(void *w, int64_t rest);
    Elem();
    ~Elem();
};
struct Holder { BPool::BlockPtrType p; };
void Elem::keep(void *w, int64_t rest) {
    auto *e = static_cast<Elem *>(w);
    { Off o; g->want[me()] = rest; }
    auto p = g->bp->getBlock();
    Off o;
    e->h = new Holder{std::move(p)};
}
Elem::Elem() : self(this) {
    User u;
    { Off o; acts = g->want[me()]; g->want[me()] = 0; g->made++; g->live++; }
    try { act(acts & 15, acts >> 8, keep, this); }
    catch (...) {
        Holder *x = h;
        h = nullptr;
        if (x) { { auto q = std::move(x->p); } Off o; delete x; }
        Off o; g->live--; g->gone++; self = nullptr; throw;
    }
}
Elem::~Elem() {
    User u;
    { Off o; if (self != this) sim::violate("user", true, "an element changed while it was live, or is destroyed again"); self = nullptr; g->live--; g->gone++; }
    if (h) { { auto q = std::move(h->p); } Off o; delete h; }
    try { act((acts >> 4) & 15, acts >> 8, nullptr, nullptr); } catch (...) { Off o; g->failed++; }
}
// ---------------------------------------------------------------- messages
// acts: 4 bits at construction, 4 at dispatch, 4 at destruction
struct Msg : RR::MessageBase {
    int64_t acts;
    Msg *self;
    bool owner = true;
    explicit Msg(int64_t a, bool quiet = false) : acts(a), self(this) {
        User u;
        { Off o; g->live++; }
        if (quiet) return;                  // constructed by the user, to be moved into the queue
        begin();
    }
    Msg(Msg &&m) : acts(m.acts), self(this) {
        User u;
        { Off o; g->live++; m.owner = false; }
        begin();
    }
    void begin() {
        try { act(acts & 15, acts >> 12, nullptr, nullptr); }
        catch (...) { Off o; g->live--; self = nullptr; throw; }
    }
    ~Msg() {
        User u;
        { Off o; if (self != this) sim::violate("user", true, "a message changed while it was held, or is destroyed again"); self = nullptr; g->live--; }
        if (owner) try { act((acts >> 8) & 15, acts >> 12, nullptr, nullptr); } catch (...) { Off o; g->failed++; }
    }
    void dispatch() override {
        User u;
        { Off o; g->dispatched++; }
        act((acts >> 4) & 15, acts >> 12, nullptr, nullptr);
    }
    const char *name() const override { return "user"; }
};
Stats stats() {
    Stats s{};
    if (g->op) { auto x = g->op->getRunningStateStatistics(); s = {(int64_t)x.size, (int64_t)x.runningCount, (int64_t)x.lowWatermark}; }
    else if (g->bp) { auto x = g->bp->getRunningStateStatistics(); s = {(int64_t)x.size, (int64_t)x.runningCount, (int64_t)x.lowWatermark}; }
    else if (g->mq) { auto x = g->mq->getRunningStateStatistics(); s = {(int64_t)x.size, (int64_t)x.runningCount, (int64_t)x.highWatermark}; }
    Off o;
    if (s.running < 0 || s.running > s.size) sim::violate("user", true, "%s: the statistics report %lld of %lld", kindName[g->kind], (long long)s.running, (long long)s.size);
    return s;
}
// ---------------------------------------------------------------- operations
void create(int64_t acts) {
    if (g->op) { auto p = g->op->createObj<Obj>(acts); }
    else if (g->bp) { { Off o; g->want[me()] = acts; } auto p = g->bp->getBlock(); }
    else if (g->mq) {
        if (uint64_t(acts + 1) * 0x9E3779B97F4A7C15ull >> 63) g->mq->emplace<Msg>(acts);
        else { Msg m(acts, true); m.owner = false; g->mq->put(std::move(m)); }
    }
}
void take(int64_t acts) { // a message that was enqueued before, so that it need not wait
    if (!g->mq) return;
    acts &= 15;
    if (acts != A_LONG && acts != A_STATS && acts != A_THROW) acts = 0;
    bool woke = false;
    auto wake = [&]() { woke = true; User u; act(acts, 0, nullptr, nullptr); };
    if (acts) g->mq->getAndDispatch(std::ref(wake)); else g->mq->getAndDispatch();
}
void ringOp(const sim::Op &op, bool &waits) {
    auto prime = [&op](size_t i) {
        User u;
        if ((int64_t)i == op.b) {
            if (op.a == A_ABORT) { { Off o; g->ringAborted = true; } g->ring->abort(); }
            else if (op.a == A_GET) { try { g->ring->get(); } catch (const RR::RingBufferStateError &) {} }
            else act(op.a, 0, nullptr, nullptr);
        }
        return int(i) + 1;
    };
    int64_t n = 0;
    auto flush = [&op, &n](int) { User u; if (n++ == op.b) act(op.a, 0, nullptr, nullptr); };
    if (op.code == "prime") g->ring->prime(std::ref(prime));
    else if (op.code == "flush") g->ring->flush(std::ref(flush));
    else if (op.code == "abort") { { Off o; g->ringAborted = true; } g->ring->abort(); }
    else if (op.code == "probe") {   // unprimed: refused at once
        try { g->ring->get(); waits = true; }
        catch (const RR::RingBufferStateError &) {}
        catch (const RR::SemaphoreAborted &) { waits = true; }
    }
}
void lane(const Lane &l) {
    OPool::ObjectPtrType os[3];
    BPool::BlockPtrType bs[3];
    for (auto &op : l.ops) {
        sim::beginOp(op.id);
        int64_t t0, away0;
        { Off o; t0 = sim::nowUs(); away0 = g->away[me()]; }
        if (op.code == "sleep") { sim::sleepUs(op.a); continue; }
        bool waits = false;                 // may wait for another thread's user code
        try {
            int s = int(op.b % 3);
            if (g->ring) ringOp(op, waits);
            else if (op.code == "new") {
                if (g->op) { auto x = g->op->createObj<Obj>(op.a); os[s] = std::move(x); }
                else if (g->bp) { { Off o; g->want[me()] = op.a; } auto x = g->bp->getBlock(); bs[s] = std::move(x); }
                else create(op.a);
            } else if (op.code == "del") { os[s].reset(); bs[s].reset(); }
            else if (op.code == "stats") stats();
            else if (op.code == "take") {
                waits = g->kind == K_MQLOCK;
                take(op.a);
            } else if (op.code == "lock" && g->mq) {
                waits = true;
                if (g->kind == K_MQLOCK) {
                    auto k = g->mq->getAutoDispatchLock();
                    User u;
                    act(op.a & 15, op.a >> 4, nullptr, nullptr);
                }
            }
        }
        catch (const UserError &) {}
        catch (const RR::RingBufferUnderflow &) { if (g->mq || g->ring) sim::violate("user", true, "%s: an unexpected underflow", kindName[g->kind]); }
        catch (const RR::RingBufferStateError &) { if (!g->ring) sim::violate("user", true, "%s: an unexpected state error", kindName[g->kind]); }
        catch (const std::exception &e) { Off o; sim::violate("user", true, "%s: an unexpected exception: %s", kindName[g->kind], e.what()); }
        Off o;
        int64_t d = sim::nowUs() - t0 - (g->away[me()] - away0);
        if (d >= SHORT && !waits)
            sim::violate("user", true, "%s: '%s' of one thread was held up for %lld s by user code that runs in another one", kindName[g->kind], op.code.c_str(), (long long)d / 1000000);
    }
    for (auto &x : os) { try { x.reset(); } catch (...) {} }
    for (auto &x : bs) { try { x.reset(); } catch (...) {} }
}
struct UserScenario : sim::Scenario {
    int64_t anyActs(Rng &r, int depth, bool mq, bool lk) {
        // construction, [dispatch,] destruction, each: one action of those allowed there
        const int64_t ctor[] = {A_NONE, A_LONG, A_NEW, A_NEWDROP, A_STATS, A_THROW, A_NEWTHROW};
        const int64_t disp[] = {A_NONE, A_LONG, A_NEW, A_NEW, A_STATS, A_THROW, A_NEWTHROW, A_GET};
        const int64_t dtor[] = {A_NONE, A_LONG, A_NEW, A_STATS, A_NEW};
        int64_t rest = depth > 0 ? anyActs(r, depth - 1, mq, lk) : 0;
        auto pk = [&](auto &a) -> int64_t {
            if (r.chance(1, 2)) return A_NONE;
            int64_t x = r.pick(a);
            if (depth == 0 && (x == A_NEW || x == A_NEWDROP || x == A_NEWTHROW || x == A_GET)) x = A_STATS;
            if (x == A_GET && lk) x = A_STATS;
            return x;
        };
        int64_t a = pk(ctor), b = mq ? pk(disp) : 0, d = pk(dtor);
        if (mq && a == A_NEWDROP) a = A_NEW;
        return mq ? a | b << 4 | d << 8 | rest << 12 : a | d << 4 | rest << 8;
    }
    static int64_t count(int64_t a) { // messages that one with these actions can lead to, and dequeues
        int64_t n = 1;
        for (int k = 0; k < 3; k++) {
            int64_t x = (a >> (4 * k)) & 15;
            if (x == A_NEW || x == A_NEWDROP || x == A_NEWTHROW) n += count(a >> 12);
            else if (x == A_GET) n++;
        }
        return n;
    }
    void generate(Case &c, Rng &r) override {
        c.set("prof", 34);
        genSched(c, r, false);
        c.sched.stall = 0;
        c.sched.stepCap = 4000000;
        int kind = (int)r.below(K_N);
        c.set("kind", kind);
        bool mq = kind == K_MQ || kind == K_MQLOCK, lk = kind == K_MQLOCK;
        c.set("n", kind == K_RING ? r.range(1, 5) : r.chance(1, 2) ? 16 : r.range(2, 8));
        c.set("elems", r.range(1, 3));
        int lanes = (int)r.range(2, 4);
        for (int i = 0; i < lanes; i++) {
            Lane l;
            auto add = [&](const char *k, int64_t a = 0, int64_t b = 0) { sim::Op o; o.code = k; o.a = a; o.b = b; l.ops.push_back(o); };
            if (r.oneIn(3)) add("sleep", r.range(1, 2000));
            if (kind == K_RING) {
                const int64_t pa[] = {A_NONE, A_LONG, A_LONG, A_ABORT, A_GET};
                if (i == 0) { add("prime", r.pick(pa), r.range(0, c.get("n") - 1)); if (r.chance(1, 2)) { add("abort"); add("flush", r.chance(1, 2) ? A_LONG : A_NONE, r.below(c.get("n"))); } }
                else for (int k = (int)r.range(1, 3); k > 0; k--) { sim::Op o; add(r.chance(1, 2) ? "probe" : "abort"); }
            } else for (int k = (int)r.range(1, 5); k > 0; k--) {
                int w = (int)r.below(10);
                if (w < 5) add("new", anyActs(r, r.oneIn(3) ? 2 : 1, mq, lk), r.below(3));
                else if (w < 8 && mq) add("take", r.oneIn(3) ? (r.oneIn(4) ? A_THROW : r.chance(1, 2) ? A_LONG : A_STATS) : 0);
                else if (w < 8) add("del", 0, r.below(3));
                else if (w < 9 && lk) add("lock", r.chance(1, 2) ? A_LONG : A_NEW);
                else add("stats");
            }
            c.lanes.push_back(l);
        }
        if (mq) { // room for everything
            int64_t n = 2;
            for (auto &l : c.lanes) for (auto &x : l.ops) n += x.code == "new" ? count(x.a) : 1;
            c.set("n", n);
        }
        numberOps(c);
    }
    void main(const Case &c) override {
        { Off o; delete g; g = new G; g->c = &c; g->kind = (int)c.get("kind"); }
        size_t n = (size_t)std::max<int64_t>(1, c.get("n"));
        if (g->kind == K_OPOOL) { g->op = new OPool(n, sizeof(Obj)); g->cap = g->op->getSize(); }
        else if (g->kind == K_BPOOL) { g->bp = new BPool(n, (size_t)std::max<int64_t>(1, c.get("elems"))); g->cap = g->bp->getSize(); }
        else if (g->kind == K_RING) g->ring = new RR::RingBufferGuarded<int>(n, true);
        else {
            g->mq = new RR::MessageQueue(n, sizeof(Msg), g->kind == K_MQLOCK);
            // so that no dequeue need wait: as many messages as there are dequeues, nested ones included
            int64_t takes = 0;
            for (auto &l : c.lanes) for (auto &x : l.ops) {
                if (x.code == "take") takes++;
                if (x.code == "new") for (int64_t a = x.a; a; a >>= 12) takes += ((a >> 4) & 15) == A_GET;
            }
            for (int64_t k = 0; k < takes; k++) create(0);
        }
        spawnAll(c, lane);
        sim::waitQuiescent();
        {
            Off o;
            if (g->kind != K_RING && !sim::allFinished()) {
                for (auto &l : c.lanes) if (!sim::finished(l.id)) sim::violate("stuck", true, "%s: thread %d is blocked for ever", kindName[g->kind], l.id);
            }
            if (g->kind == K_RING && !g->ringAborted && !sim::allFinished()) g->ringAborted = false;
            g->quiet = true;
        }
        sim::beginOp(60000);
        if (g->ring) { // gets that found it primed and empty wait for this
            g->ring->abort();
            sim::waitQuiescent();
            { Off o; if (!sim::allFinished()) sim::violate("stuck", true, "a thread is blocked in a ring buffer that was aborted"); }
            delete g->ring;
        }
        if (g->mq) { // what is left; these may enqueue more
            for (int k = 0; k < 400; k++) {
                if (stats().running == 0) break;
                try { g->mq->getAndDispatch(); } catch (const UserError &) {}
            }
            auto s = stats();
            { Off o; if (s.running || g->live) sim::violate("user", true, "%s: %lld messages are held and %lld exist after all were dispatched", kindName[g->kind], (long long)s.running, (long long)g->live); }
            delete g->mq;
        }
        if (g->op || g->bp) {
            auto s = stats();
            { Off o; if (s.running != s.size || g->live) sim::violate("user", true, "%s: %lld of %lld are free and %lld objects exist after all were returned", kindName[g->kind], (long long)s.running, (long long)s.size, (long long)g->live); }
            { // the whole capacity can be had
                OPool::ObjectPtrType os[16];
                BPool::BlockPtrType bs[16];
                try { for (size_t k = 0; k < g->cap; k++) { if (g->op) os[k] = g->op->createObj<Obj>(0); else bs[k] = g->bp->getBlock(); } }
                catch (const RR::RingBufferUnderflow &) { sim::violate("user", true, "%s: capacity was lost", kindName[g->kind]); }
            }
            delete g->op;
            delete g->bp;
        }
        Off o;
        if (size_t k = sim::liveBlocks()) sim::violate("leak", true, "%zu heap blocks are never released: %s", k, sim::describeLive().c_str());
    }
};
} // namespace
sim::Scenario *makeUser() { return new UserScenario; }

// Scenario: one processor, fixed-priority preemptive scheduling, threads of low, medium and high
// priority contending inside one component.  C24.  The oracle is in rt.cpp (piOracle).
#include "scn.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "Mutex.hpp"
#include "ObjectPool.hpp"
#include "RingBufferGuarded.hpp"
#include "Semaphore.hpp"
#include <mutex>

namespace {
struct Obj { virtual ~Obj() = default; int v[4] = {1, 2, 3, 4}; };
struct Der : Obj { int w[6]; explicit Der(int a) { for (int &x : w) x = a; } };
struct Msg : RR::MessageBase {
    int pts;
    volatile int *acc;
    Msg(int p, volatile int *a) : pts(p), acc(a) {}
    void dispatch() override { for (int i = 0; i < pts; i++) *acc = *acc + 1; }
    const char *name() const override { return "prio"; }
};
enum Comp { C_MUTEX, C_SEM, C_RING, C_OPOOL, C_BPOOL, C_MQ, C_MQLOCK, C_N };
struct G {
    RR::Mutex *mx = nullptr, *mx2 = nullptr;
    RR::Semaphore *sem = nullptr;
    RR::RingBufferGuarded<int *> *ring = nullptr;
    RR::ObjectPool<Obj> *op = nullptr;
    RR::BlockPool<int> *bp = nullptr;
    RR::MessageQueue *mq = nullptr;
    int comp = 0;
    volatile int acc[64] = {};
    volatile int guarded = 0;
    int used = 0;
};
G *g;
void spend(volatile int *p, int n) { for (int i = 0; i < n; i++) *p = *p + 1; }
void use(const Lane &l, int len, int var) {
    volatile int *acc = &g->acc[l.id & 63];
    uint64_t b0 = sim::blockedCountSelf();
    switch (g->comp) {
    case C_MUTEX:
        if (var == 1) { // nested: the second lock while holding the first
            std::lock_guard<RR::Mutex> a{*g->mx};
            spend(&g->guarded, len / 2);
            std::lock_guard<RR::Mutex> b{*g->mx2};
            spend(acc, len);
        } else if (var == 2) {
            std::lock_guard<RR::Mutex> b{*g->mx2};
            spend(acc, len);
        } else {
            std::unique_lock<RR::Mutex> a{*g->mx};
            spend(&g->guarded, len);
        }
        break;
    case C_SEM: {
        auto f = [acc, len]() { spend(acc, len); };
        if (var == 0) { g->sem->take(); g->sem->give(); }
        else { g->sem->take(std::ref(f)); if (var == 1) g->sem->give(std::ref(f)); else g->sem->give(); }
        (void)g->sem->getAvailableCount();
        break;
    }
    case C_RING:
        g->ring->put((int *)acc);
        spend(acc, len / 4);
        (void)g->ring->get();
        break;
    case C_OPOOL: {
        auto p = g->op->createObj<Der>(len);
        spend(acc, len / 4);
        p.reset();
        (void)g->op->getRunningStateStatistics();
        break;
    }
    case C_BPOOL: {
        auto p = g->bp->getBlock();
        p[0] = len;
        spend(acc, len / 4);
        break;
    }
    case C_MQ: case C_MQLOCK:
        if (var == 3 && g->comp == C_MQLOCK) {
            auto lk = g->mq->getAutoDispatchLock();
            spend(acc, len);
            lk.unlock();
            spend(acc, 3);
            lk.lock();
        } else if (var == 2) {
            g->mq->emplace<Msg>(len, acc);
        } else if (var == 1) {
            g->mq->put(Msg{len, acc});
        } else { g->mq->emplace<Msg>(len, acc); g->mq->getAndDispatch(); }
        break;
    }
    Off o;
    if (sim::blockedCountSelf() != b0 && l.prio >= 30) sim::probe(P_BOOSTED);
    g->used++;
}
void lane(const Lane &l) {
    for (auto &op : l.ops) {
        sim::beginOp(op.id);
        if (op.code == "sleep") sim::sleepUs(op.a);
        else if (op.code == "hog") spend(&g->acc[l.id & 63], (int)op.a);
        else if (op.code == "disp") { if (g->comp >= C_MQ) for (int i = 0; i < op.a; i++) g->mq->getAndDispatch(); }
        else use(l, (int)op.a, (int)op.b);
    }
}
struct PrioScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        c.set("prof", 24);
        c.sched.strat = sim::ST_PRIO;
        c.sched.plainGap = 1;
        c.sched.stepCap = 2000000;
        int comp = (int)r.below(C_N);
        c.set("comp", comp);
        int low = (int)r.range(1, 2), med = (int)r.range(1, 2), high = (int)r.range(1, 3);
        int msgs = 0;
        bool consumer = comp >= C_MQ && r.chance(1, 2);
        auto useOp = [&](Lane &l) {
            sim::Op o;
            o.code = "use";
            o.a = r.range(0, 40);
            o.b = comp == C_MUTEX || comp == C_SEM ? r.range(0, 2) : comp == C_MQLOCK ? (consumer ? r.range(1, 3) : r.pick((const int[]){0, 0, 3})) : comp == C_MQ && consumer ? r.range(1, 2) : 0;
            if (o.b == 1 || o.b == 2) msgs++;
            l.ops.push_back(o);
        };
        auto sleepOp = [&](Lane &l, int64_t m) { sim::Op o; o.code = "sleep"; o.a = r.range(1, m); l.ops.push_back(o); };
        int64_t spread = r.pick((const int64_t[]){60, 200, 600});
        for (int i = 0; i < low; i++) {
            Lane l; l.prio = (int)r.range(1, 9);
            if (i || r.chance(1, 2)) sleepOp(l, spread);
            for (int k = (int)r.range(2, 6); k > 0; k--) useOp(l);
            c.lanes.push_back(l);
        }
        for (int i = 0; i < med; i++) {
            Lane l; l.prio = (int)r.range(10, 19);
            for (int k = (int)r.range(1, 4); k > 0; k--) {
                sleepOp(l, spread);
                sim::Op o; o.code = "hog"; o.a = r.range(5, 300); l.ops.push_back(o);
                if (r.oneIn(3)) useOp(l);
            }
            c.lanes.push_back(l);
        }
        for (int i = 0; i < high; i++) {
            Lane l; l.prio = (int)r.range(30, 39);
            for (int k = (int)r.range(1, 5); k > 0; k--) { sleepOp(l, spread); useOp(l); }
            c.lanes.push_back(l);
        }
        if (consumer) {
            Lane l; l.prio = r.pick((const int[]){5, 15, 25, 35});
            sim::Op o; o.code = "disp"; o.a = msgs; l.ops.push_back(o);
            c.lanes.push_back(l);
        }
        c.set("size", consumer ? r.range(1, 6) : (int64_t)c.lanes.size() + 1);
        c.set("count", r.range(1, 2));
        // the order of the lanes decides nothing but who starts first
        for (size_t i = c.lanes.size(); i > 1; i--) std::swap(c.lanes[i - 1], c.lanes[r.below(i)]);
        numberOps(c);
    }
    void main(const Case &c) override {
        { Off o; delete g; g = new G; g->comp = (int)c.get("comp"); }
        size_t n = (size_t)c.get("size");
        switch (g->comp) {
        case C_MUTEX: g->mx = new RR::Mutex; g->mx2 = new RR::Mutex; break;
        case C_SEM: g->sem = new RR::Semaphore{size_t(c.get("count"))}; break;
        case C_RING: g->ring = new RR::RingBufferGuarded<int *>{n}; break;
        case C_OPOOL: g->op = new RR::ObjectPool<Obj>{n < 4 ? 4 : n, sizeof(Der)}; break;
        case C_BPOOL: g->bp = new RR::BlockPool<int>{n < 4 ? 4 : n, 3}; break;
        default: g->mq = new RR::MessageQueue{n, sizeof(Msg), g->comp == C_MQLOCK};
        }
        spawnAll(c, lane);
        sim::waitQuiescent();
        { Off o; if (!sim::allFinished()) { sim::violate("stuck", true, "a thread never finished"); } }
        delete g->mx; delete g->mx2; delete g->sem; delete g->ring; delete g->op; delete g->bp; delete g->mq;
    }
};
} // namespace
sim::Scenario *makePrio() { return new PrioScenario; }

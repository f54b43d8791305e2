// Scenario: a pipeline built from all components, as the library is meant to be used.  A semaphore limits how many
// objects of a pool are under way; each travels pool -> message queue -> ring buffer (+ hand-over table) -> message
// queue -> back to the pool, through threads of four stages.  Stages throw, everything is aborted, queues are
// destroyed with objects in them.  C32.
#include "scn.hpp"
#include "MessageQueue.hpp"
#include "Mutex.hpp"
#include "ObjectPool.hpp"
#include "RingBufferGuarded.hpp"
#include "Semaphore.hpp"
#include <map>
#include <mutex>
#include <set>

namespace {
struct Item;
using Pool = RR::ObjectPool<Item>;
struct Ptr;
struct G {
    RR::Semaphore *credit = nullptr;
    Pool *pool = nullptr;
    RR::MessageQueue *q1 = nullptr, *q2 = nullptr;
    RR::RingBufferGuarded<int> *ri = nullptr;
    RR::RingBufferGuarded<Ptr *> *rp = nullptr;
    RR::RingBufferGuarded<int> *freeSlots = nullptr;    // indexes of free table entries, primed
    RR::Mutex *mx = nullptr;
    Ptr *table = nullptr;                                // handed over through the ring
    int64_t total = 0;                                   // guarded by *mx
    int K = 0;
    // bookkeeping (not part of the simulation)
    int claims[4] = {}, stage[4] = {};                   // lanes per stage
    std::map<int, int> at;                               // item -> stages passed
    int made = 0, dead = 0, passed = 0;
    std::vector<int> order[4];
    std::set<const void *> live;
    bool aborted = false;
    uint64_t thr = 0;
};
G *g;
bool throwsAt(int id, int st) { return g->thr && sim::mix(uint64_t(id), 77 + st) % g->thr == 0; }
struct Item {
    int id;
    int mark[4];
    explicit Item(int i) : id(i) {
        User u;
        for (auto &m : mark) m = -1;
        mark[0] = i;
        Off o;
        g->made++;
        if (!g->live.insert(this).second) sim::violate("pipe", true, "two live objects at the same address");
        if ((int)g->live.size() > g->K) sim::violate("pipe", true, "%zu objects are under way, the semaphore admits %d", g->live.size(), g->K);
    }
    virtual ~Item() {
        User u;
        Off o;
        g->dead++;
        if (!g->live.erase(this)) sim::violate("pipe", true, "an object was destroyed twice");
    }
    void check(int upTo) const {
        for (int i = 0; i < 4; i++)
            if (mark[i] != (i < upTo ? id + i : -1)) { Off o; sim::violate("pipe", true, "object %d arrives at stage %d in a damaged state (mark %d is %d)", id, upTo, i, mark[i]); }
    }
};
struct Big : Item { int64_t more[5]; explicit Big(int i) : Item(i) { for (auto &m : more) m = i; } };
struct Ptr { Pool::ObjectPtrType p; };
void passes(int id, int st) {
    Off o;
    int &a = g->at[id];
    if (a != st - 1) sim::violate("pipe", true, "object %d passes stage %d after %d stages", id, st, a);
    a = st;
    g->order[st].push_back(id);
}
int takeSlot() { return g->freeSlots->get(); }
// Stage 1: from the first queue into the ring.
struct Msg1 : RR::MessageBase {
    Pool::ObjectPtrType p;
    explicit Msg1(Pool::ObjectPtrType &&x) noexcept : p(std::move(x)) {}
    Msg1(Msg1 &&) = default;
    const char *name() const override { return "stage 1"; }
    void dispatch() override {
        int id = p->id;
        p->check(1);
        passes(id, 1);
        if (throwsAt(id, 1)) throwUser(id);
        p->mark[1] = id + 1;
        int s = takeSlot();
        g->table[s].p = std::move(p);
        if (throwsAt(id, 2)) { // thrown away here, the message then being empty
            g->table[s].p.reset();
            g->freeSlots->put(s);
            throwUser(id);
        }
        if (g->ri) g->ri->put(s); else g->rp->put(&g->table[s]);
    }
};
struct Msg2 : RR::MessageBase {
    int64_t pad[3];
    Pool::ObjectPtrType p;
    explicit Msg2(Pool::ObjectPtrType &&x) noexcept : p(std::move(x)) {}
    Msg2(Msg2 &&) = default;
    const char *name() const override { return "stage 3"; }
    void dispatch() override {
        int id = p->id;
        p->check(3);
        passes(id, 3);
        {
            std::lock_guard<RR::Mutex> l(*g->mx);
            g->total += id;
        }
        if (throwsAt(id, 3)) throwUser(id);
        p.reset();
    }
};
bool claim(int st) { Off o; if (g->claims[st] <= 0) return false; g->claims[st]--; return true; }
// A stage's threads share its work; each item claimed is one that will come.
void work(const Lane &l, const sim::Op &op) {
    const char *k = op.code.c_str();
    if (!strcmp(k, "sleep")) { sim::sleepUs(op.a); return; }
    if (!strcmp(k, "prod")) {
        for (int64_t i = 0; i < op.a; i++) {
            g->credit->take();
            int id = l.id * 10000 + (int)(op.b + i) * 10;
            Pool::ObjectPtrType p;
            if (op.c & 1) p = g->pool->createObj<Big>(id); else p = g->pool->createObj<Item>(id);
            if (op.c & 2) g->q1->put(Msg1{std::move(p)}); else g->q1->emplace<Msg1>(std::move(p));
        }
        return;
    }
    if (!strcmp(k, "st1")) {
        while (claim(1)) {
            bool ex = false;
            try { g->q1->getAndDispatch(); } catch (const UserError &) { ex = true; }
            if (ex) g->credit->give();     // the object is gone
        }
        return;
    }
    if (!strcmp(k, "st2")) {
        while (claim(2)) {
            int s;
            if (g->ri) s = g->ri->get(); else s = int(g->rp->get() - g->table);
            Pool::ObjectPtrType p = std::move(g->table[s].p);
            g->freeSlots->put(s);
            p->check(2);
            passes(p->id, 2);
            p->mark[2] = p->id + 2;
            if (op.c & 2) g->q2->put(Msg2{std::move(p)}); else g->q2->emplace<Msg2>(std::move(p));
        }
        return;
    }
    if (!strcmp(k, "fin")) {
        bool woken = true;
        auto w = [&woken]() { woken = true; };
        while (claim(3)) {
            try {
                if (op.c & 1) { woken = false; g->q2->getAndDispatch(std::ref(w)); } else g->q2->getAndDispatch();
            } catch (const UserError &) {}
            g->credit->give();
            Off o;
            g->passed++;
            if (!woken) sim::violate("pipe", true, "a message was dispatched without the wake-up call");
        }
        return;
    }
    if (!strcmp(k, "abort")) {
        { Off o; sim::countFault(sim::FK_ABORT); g->aborted = true; }
        for (int i = 0; i < 6; i++)
            switch ((i + op.a) % 6) {
            case 0: g->q1->abort(); break;
            case 1: g->q2->abort(); break;
            case 2: if (g->ri) g->ri->abort(); else g->rp->abort(); break;
            case 3: g->freeSlots->abort(); break;
            case 4: g->credit->abort(); break;
            default: sim::sleepUs(op.b); break;
            }
    }
}
void lane(const Lane &l) {
    try {
        for (auto &op : l.ops) { sim::beginOp(op.id); work(l, op); }
    } catch (const RR::SemaphoreAborted &) { Off o; if (!g->aborted) sim::violate("pipe", true, "a call was aborted though nobody aborted anything"); }
    catch (const RR::RingBufferStateError &) { Off o; if (!g->aborted) sim::violate("pipe", true, "a ring refused a call though nobody aborted anything"); }
    catch (const std::exception &e) { Off o; sim::violate("pipe", true, "a stage failed: %s", e.what()); }
}
struct PipeScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        c.set("prof", 32);
        genSched(c, r, r.oneIn(4));
        const int lens[] = {100, 500, 2000, 10000};
        c.sched.pctLen = r.pick(lens);
        c.set("K", r.range(1, 5));
        c.set("q1", r.range(1, 3)); c.set("q2", r.range(1, 3)); c.set("ring", r.range(1, 3)); c.set("slots", r.range(1, 3));
        c.set("lock", r.below(4));
        c.set("ptr", r.below(2));
        c.set("end", r.below(3));
        const int th[] = {0, 0, 2, 3, 7};
        c.set("thr", r.pick(th));
        bool single = r.chance(1, 2);
        auto stage = [&](const char *k, int max) {
            int n = single ? 1 : (int)r.range(1, max);
            for (int i = 0; i < n; i++) {
                Lane l; sim::Op o;
                if (r.oneIn(6)) { o.code = "sleep"; o.a = r.range(1, 500); l.ops.push_back(o); }
                o.code = k; o.a = 0; o.b = 0; o.c = r.below(4);
                if (!strcmp(k, "prod")) {
                    int64_t b = 0;
                    for (int j = (int)r.range(1, 2); j > 0; j--) { o.a = r.range(1, 6); o.b = b; b += o.a; o.c = r.below(4); l.ops.push_back(o); }
                } else l.ops.push_back(o);
                c.lanes.push_back(l);
            }
        };
        stage("prod", 2); stage("st1", 2); stage("st2", 2); stage("fin", 2);
        if (r.oneIn(3)) {
            Lane l; sim::Op o;
            if (r.oneIn(3)) { o.code = "sleep"; o.a = r.range(1, 600); l.ops.push_back(o); }
            o.code = "abort"; o.a = r.below(6); o.b = r.oneIn(2) ? 0 : r.range(1, 300);
            l.ops.push_back(o);
            c.lanes.push_back(l);
        }
        for (size_t i = c.lanes.size(); i > 1; i--) std::swap(c.lanes[i - 1], c.lanes[r.below(i)]);
        numberOps(c);
    }
    void main(const Case &c) override {
        int made = 0, prods = 0;
        {
            Off o;
            delete g; g = new G;
            g->K = (int)c.get("K"); g->thr = (uint64_t)c.get("thr");
            for (auto &l : c.lanes) {
                bool p = false, s[4] = {};
                for (auto &x : l.ops) {
                    if (x.code == "prod") {
                        p = true;
                        made += (int)x.a;
                        for (int64_t i = 0; i < x.a; i++) {
                            int id = l.id * 10000 + (int)(x.b + i) * 10;
                            g->claims[1]++;
                            if (!throwsAt(id, 1) && !throwsAt(id, 2)) { g->claims[2]++; g->claims[3]++; }
                        }
                    }
                    if (x.code == "st1") s[1] = true;
                    if (x.code == "st2") s[2] = true;
                    if (x.code == "fin") s[3] = true;
                }
                prods += p;
                for (int i = 1; i < 4; i++) g->stage[i] += s[i];
            }
            g->stage[0] = prods;
        }
        // a minimised case may lack a stage
        if (!g->stage[1] || !g->stage[2] || !g->stage[3]) return;
        int survive = g->claims[3];
        g->credit = new RR::Semaphore{size_t(g->K), size_t(g->K)};
        g->pool = new Pool{size_t(g->K), sizeof(Big)};
        g->q1 = new RR::MessageQueue{size_t(c.get("q1")), sizeof(Msg1), bool(c.get("lock") & 1)};
        g->q2 = new RR::MessageQueue{size_t(c.get("q2")), sizeof(Msg2), bool(c.get("lock") & 2)};
        if (c.get("ptr")) g->rp = new RR::RingBufferGuarded<Ptr *>{size_t(c.get("ring"))}; else g->ri = new RR::RingBufferGuarded<int>{size_t(c.get("ring"))};
        g->freeSlots = new RR::RingBufferGuarded<int>{size_t(c.get("slots")), true};
        auto number = [](size_t i) { return (int)i; };
        g->freeSlots->prime(std::ref(number));
        g->mx = new RR::Mutex;
        g->table = new Ptr[size_t(c.get("slots"))];
        spawnAll(c, lane);
        sim::waitQuiescent();
        {
            Off o;
            if (!sim::allFinished()) sim::violate("pipe", true, "the pipeline came to a halt: %d of %d objects were made, %zu are under way%s", g->made, made, g->live.size(), g->aborted ? " (aborted)" : "");
            if (!g->aborted) {
                if (g->made != made) sim::violate("pipe", true, "%d objects were made instead of %d", g->made, made);
                if (g->passed != survive) sim::violate("pipe", true, "%d objects passed the last stage instead of %d", g->passed, survive);
                if (!g->live.empty()) sim::violate("pipe", true, "%zu objects are still alive though all have passed the last stage", g->live.size());
                int64_t sum = 0;
                for (auto &x : g->at) if (x.second == 3) sum += x.first;
                if (sum != g->total) sim::violate("pipe", true, "the total kept under the mutex is %lld instead of %lld", (long long)g->total, (long long)sum);
            }
            bool ordered = true;
            for (int st = 1; st < 4; st++) { // one thread per stage so far: everybody's objects stay in order
                if (g->stage[st] != 1) ordered = false;
                if (!ordered) break;
                std::map<int, int> last;
                for (int id : g->order[st]) { int &x = last[id / 10000]; if (id < x) sim::violate("pipe", true, "object %d passes stage %d after object %d", id, st, x); x = id; }
            }
        }
        bool ab = g->aborted;
        if (!ab) {
            if ((int)g->pool->getRunningStateStatistics().runningCount != (int)g->pool->getSize()) { Off o; sim::violate("pipe", true, "objects are missing in the pool though all were destroyed"); }
            if (g->q1->getRunningStateStatistics().runningCount || g->q2->getRunningStateStatistics().runningCount) { Off o; sim::violate("pipe", true, "a queue reports messages though all were dispatched"); }
        }
        // take everything down, in any order
        int64_t end = c.get("end");
        if (ab && end > 1) end = 0;     // there is no purging an aborted queue
        if (end == 0) { delete g->q1; delete g->q2; }
        else if (end == 1) { delete g->q2; delete g->q1; }
        else { g->q1->purge(); g->q2->purge(); }
        delete[] g->table;
        {
            Off o;
            if (!g->live.empty()) sim::violate("pipe", true, "%zu objects were never destroyed", g->live.size());
            if (g->made != g->dead) sim::violate("pipe", true, "%d objects were made and %d destroyed", g->made, g->dead);
        }
        if ((int)g->pool->getRunningStateStatistics().runningCount != (int)g->pool->getSize()) { Off o; sim::violate("pipe", true, "blocks are missing in the pool though every object was destroyed"); }
        if (end > 1) { delete g->q1; delete g->q2; }
        delete g->credit; delete g->ri; delete g->rp; delete g->freeSlots; delete g->mx; delete g->pool;
        Off o;
        if (size_t n = sim::liveBlocks()) sim::violate("leak", true, "%zu heap blocks are never released: %s", n, sim::describeLive().c_str());
    }
};
} // namespace
sim::Scenario *makePipe() { return new PipeScenario; }

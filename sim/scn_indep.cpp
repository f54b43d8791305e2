// Scenario: several threads, each with components of its own that nobody else touches, constructed, used and
// destroyed at the same time.  Each component is compared with a sequential model, step by step.  Other threads
// stay blocked in components of theirs, or stay in user code called by the library for very long.  C31.
#include "scn.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "Mutex.hpp"
#include "ObjectPool.hpp"
#include "RingBufferGuarded.hpp"
#include "RingBufferSimple.hpp"
#include "Semaphore.hpp"
#include <deque>
#include <mutex>

namespace {
const int64_t LONG = 1000000000, SHORT = 100000000;   // user code that takes its time: 1000 s; nobody else may wait a tenth of it
struct Obj {
    int64_t v;
    int *live;
    Obj(int64_t a, int *l) : v(a), live(l) { Off o; ++*live; }
    virtual ~Obj() { Off o; --*live; }
};
struct Der : Obj { int64_t w[6]; Der(int64_t a, int *l) : Obj(a, l) { for (auto &x : w) x = a; } };
struct Elem { int64_t v = 11; };
struct PodElem { short s; };
struct Stop { RR::Semaphore *sem = nullptr; RR::RingBufferGuarded<int> *ring = nullptr; RR::MessageQueue *mq = nullptr; };
struct G {
    std::vector<Stop> stops;
    std::vector<char> blocker;            // per lane number
    std::vector<int64_t> away;            // virtual time spent in long user code, per lane
    int64_t solo[16] = {};                // virtual time that the destruction of one of each kind takes when nothing else happens
};
G *g;
enum Kind { K_SEM, K_SEMLIM, K_RSIMPLE, K_RING, K_RINGPRIME, K_OPOOL, K_BPOOL, K_BPOOLO, K_MQ, K_MQLOCK, K_MUTEX, K_N };
const char *const kindName[] = {"Semaphore", "bounded Semaphore", "RingBufferSimple", "RingBufferGuarded", "RingBufferGuarded (primed)", "ObjectPool",
    "BlockPool of scalars", "BlockPool of objects", "MessageQueue", "MessageQueue with dispatch locking", "Mutex"};

struct Thing {
    int kind;
    bool longUse = false;                 // the next piece of user code takes LONG
    explicit Thing(int k) : kind(k) {}
    virtual ~Thing() = default;
    virtual void step(Rng &r) = 0;        // one operation that does not block if the component is alone
    void bad(const char *fmt, int64_t a = 0, int64_t b = 0) {
        Off o;
        char t[200];
        snprintf(t, sizeof t, fmt, (long long)a, (long long)b);
        sim::violate("indep", true, "%s used by this thread only: %s", kindName[kind], t);
    }
    void user() {
        if (!longUse) return;
        longUse = false;
        { Off o; g->away[sim::self()] += LONG; }
        User u;
        sim::sleepUs(LONG);
    }
};
struct TSem : Thing {
    RR::Semaphore s;
    int64_t n, max;
    TSem(int64_t a, int64_t m) : Thing(m ? K_SEMLIM : K_SEM), s{size_t(a), size_t(m)}, n(a), max(m) {}
    void step(Rng &r) override {
        bool up = r.chance(1, 2);
        int64_t cnt = -1;
        auto f = [this, &cnt]() { cnt = 0; user(); };
        if (up && max && n == max) up = false;
        if (!up && !n) up = true;
        bool cb = longUse || r.chance(1, 2);
        if (up) { if (cb) s.give(std::ref(f)); else s.give(); n++; }
        else { if (cb) s.take(std::ref(f)); else s.take(); n--; }
        if (cb && cnt) bad("the function was not called");
        if ((int64_t)s.getAvailableCount() != n) bad("the available count is %lld, it should be %lld", s.getAvailableCount(), n);
    }
};
template <class R> struct TRing : Thing {
    R r;
    std::deque<int> *q;
    size_t n;
    int64_t next = 100;
    TRing(size_t a, int k) : Thing(k), r{a}, n(a) { Off o; q = new std::deque<int>; }
    TRing(size_t a, int k, bool p) : Thing(k), r{a, p}, n(a) { Off o; q = new std::deque<int>; }
    ~TRing() { Off o; delete q; }
    void step(Rng &rg) override {
        bool in = rg.chance(1, 2);
        if (q->size() >= n) in = false;
        if (q->empty()) in = true;
        if (in) { int v = int(next++ * 7); r.put(v); Off o; q->push_back(v); }
        else {
            int v = r.get();
            Off o;
            if (v != q->front()) bad("get returned %lld, it should have returned %lld", v, q->front());
            q->pop_front();
        }
    }
};
struct TPrime : TRing<RR::RingBufferGuarded<int>> {
    using Base = TRing<RR::RingBufferGuarded<int>>;
    bool primed = false;
    explicit TPrime(size_t a) : Base(a, K_RINGPRIME, true) {}
    void step(Rng &rg) override {
        if (primed) { longUse = false; return Base::step(rg); }
        primed = true;
        auto f = [this](size_t i) { user(); Off o; q->push_back(int(i) * 3 + 1); return int(i) * 3 + 1; };
        r.prime(std::ref(f));
    }
    ~TPrime() {
        r.abort();
        size_t i = 0;
        auto f = [this, &i](int v) { Off o; if (i >= q->size() || (*q)[i] != v) bad("flush handed out %lld as number %lld", v, i); i++; };
        if (primed) r.flush(std::ref(f));
        if (i != q->size() && primed) bad("flush handed out %lld elements, %lld were left", i, q->size());
    }
};
struct TOp : Thing {
    RR::ObjectPool<Obj> p;
    using Ptr = RR::ObjectPool<Obj>::ObjectPtrType;
    size_t n, low;
    int live = 0;
    int64_t next = 1;
    Ptr held[12];
    int64_t val[12] = {};
    struct Slow : Obj { Slow(TOp *t, int64_t a, int *l) : Obj(a, l) { t->user(); } };
    explicit TOp(size_t a) : Thing(K_OPOOL), p{a, sizeof(Der)}, n(p.getSize()), low(n) {}
    ~TOp() {
        for (int i = 0; i < 12; i++) drop(i);
        if (live) bad("%lld objects were not destroyed", live);
    }
    void drop(int i) {
        if (!held[i]) return;
        if (held[i]->v != val[i] || held[i]->live != &live) bad("an object changed");
        held[i].reset();
    }
    void step(Rng &r) override {
        int i = (int)r.below(12);
        if (held[i]) drop(i);
        else if ((size_t)live < n) {
            val[i] = next++;
            if (longUse) held[i] = p.createObj<Slow>(this, val[i], &live);
            else if (r.chance(1, 2)) held[i] = p.createObj<Der>(val[i], &live);
            else held[i] = p.createObj<Obj>(val[i], &live);
        } else {
            bool threw = false;
            try { auto x = p.createObj<Obj>(5, &live); } catch (const RR::RingBufferUnderflow &) { threw = true; }
            if (!threw) bad("an exhausted pool created an object");
        }
        longUse = false;
        if (n - live < low) low = n - live;
        auto st = p.getRunningStateStatistics();
        if (st.size != n || st.runningCount != n - live) bad("%lld are reported available, there are %lld", st.runningCount, n - live);
        if (st.lowWatermark != low) bad("the low watermark is %lld, it should be %lld", st.lowWatermark, low);
    }
};
template <class T> struct TBp : Thing {
    RR::BlockPool<T> p;
    using Ptr = typename RR::BlockPool<T>::BlockPtrType;
    size_t n, elems, live = 0;
    Ptr held[6];
    int64_t val[6] = {}, next = 1, fresh;
    TBp(size_t a, size_t e, int k, int64_t f) : Thing(k), p{a, e}, n(p.getSize()), elems(e), fresh(f) {}
    ~TBp() { for (int i = 0; i < 6; i++) drop(i); }
    static int64_t rd(const Elem &e) { return e.v; }
    static int64_t rd(short s) { return s; }
    static void wr(Elem &e, int64_t v) { e.v = v; }
    static void wr(short &s, int64_t v) { s = (short)v; }
    void drop(int i) {
        if (!held[i]) return;
        for (size_t k = 0; k < elems; k++) if (rd(held[i][k]) != val[i]) bad("element %lld of a block changed", k);
        held[i].reset();
        live--;
    }
    void step(Rng &r) override {
        int i = (int)r.below(6);
        longUse = false;
        if (held[i]) drop(i);
        else if (live < n) {
            held[i] = p.getBlock();
            live++;
            val[i] = next++ % 1000;
            for (size_t k = 0; k < elems; k++) {
                if (rd(held[i][k]) != fresh) bad("element %lld of a new block is %lld", k, rd(held[i][k]));
                wr(held[i][k], val[i]);
            }
        }
        auto st = p.getRunningStateStatistics();
        if (st.size != n || st.runningCount != n - live) bad("%lld are reported available, there are %lld", st.runningCount, n - live);
    }
};
struct TMq;
struct Msg : RR::MessageBase {
    int64_t v;
    TMq *t;
    Msg(int64_t a, TMq *q) : v(a), t(q) {}
    void dispatch() override;
    const char *name() const override { return "indep"; }
};
struct Big : Msg { int64_t x[4]; Big(int64_t a, TMq *q) : Msg(a, q) { for (auto &e : x) e = a; } void dispatch() override; const char *name() const override { return "big"; } };
struct TMq : Thing {
    RR::MessageQueue q;
    size_t n, high = 0;
    std::deque<std::pair<int64_t, bool>> *want;
    int64_t next = 1, got = -1;
    bool lk;
    TMq(size_t a, bool l) : Thing(l ? K_MQLOCK : K_MQ), q{a, sizeof(Big), l}, n(a), lk(l) { Off o; want = new std::deque<std::pair<int64_t, bool>>; }
    ~TMq() { Off o; delete want; }
    void step(Rng &r) override {
        bool in = r.chance(1, 2), was = longUse;
        if (want->size() >= n) in = false;
        if (want->empty()) in = true;
        if (in) {
            bool big = r.chance(1, 2);
            int64_t v = next++;
            if (big) q.emplace<Big>(v, this); else if (r.chance(1, 2)) q.emplace<Msg>(v, this); else q.put(Msg{v, this});
            Off o;
            want->push_back({v, big});
        } else {
            std::pair<int64_t, bool> e;
            { Off o; e = want->front(); }
            got = -1;
            bool woke = false;
            auto w = [&woke]() { woke = true; };
            if (r.chance(1, 2)) { q.getAndDispatch(); woke = true; } else q.getAndDispatch(std::ref(w));
            { Off o; want->pop_front(); }
            if (!woke) bad("the wake-up function was not called");
            if (got != e.first) bad("message %lld was dispatched, it should have been %lld", got, e.first);
            if (strcmp(q.getNameOfLastMessageDispatched(), e.second ? "big" : "indep")) bad("the name of the last message is wrong");
        }
        if (!was) { if (lk && r.oneIn(4)) { auto l = q.getAutoDispatchLock(); (void)l; } }
        longUse = false;
        if (want->size() > high) high = want->size();
        auto st = q.getRunningStateStatistics();
        if (st.size != n || st.runningCount != want->size()) bad("%lld messages are reported, there are %lld", st.runningCount, want->size());
        if (st.highWatermark != high) bad("the high watermark is %lld, it should be %lld", st.highWatermark, high);
    }
};
void Msg::dispatch() { t->got = v; t->user(); }
void Big::dispatch() { for (auto &e : x) if (e != v) t->bad("a message changed"); t->got = v; t->user(); }
struct TMutex : Thing {
    RR::Mutex m;
    bool locked = false;
    TMutex() : Thing(K_MUTEX) {}
    ~TMutex() { if (locked) m.unlock(); }
    void step(Rng &r) override {
        if (locked) {
            if (longUse) { user(); }
            if (r.oneIn(3) && m.try_lock()) bad("try_lock succeeded on a locked mutex");
            m.unlock();
            locked = false;
        } else if (r.chance(1, 2)) { m.lock(); locked = true; }
        else { if (!m.try_lock()) bad("try_lock failed on a free mutex"); locked = true; }
        longUse = false;
    }
};
Thing *make(int kind, size_t a, size_t b) {
    a = std::max<size_t>(a, 1); b = std::max<size_t>(b, 1);
    switch (kind) {
    case K_SEM: return new TSem((int64_t)a, 0);
    case K_SEMLIM: return new TSem((int64_t)a, (int64_t)a + 2);
    case K_RSIMPLE: return new TRing<RR::RingBufferSimple<int>>(a, K_RSIMPLE);
    case K_RING: return new TRing<RR::RingBufferGuarded<int>>(a, K_RING);
    case K_RINGPRIME: return new TPrime(a);
    case K_OPOOL: return new TOp(a);
    case K_BPOOL: return new TBp<short>(a, b, K_BPOOL, 0);
    case K_BPOOLO: return new TBp<Elem>(a, b, K_BPOOLO, 11);
    case K_MQ: return new TMq(a, false);
    case K_MQLOCK: return new TMq(a, true);
    default: return new TMutex;
    }
}
// Blocks in a component of its own until the end of the run.
void blocker(int kind) {
    size_t me = (size_t)sim::self();
    bool aborted = false;
    try {
        if (kind == 0) { RR::Semaphore s{0}; { Off o; g->stops[me].sem = &s; } try { s.take(); } catch (const RR::SemaphoreAborted &) { aborted = true; } Off o; g->stops[me].sem = nullptr; }
        else if (kind == 1) { RR::Semaphore s{1, 1}; { Off o; g->stops[me].sem = &s; } try { s.give(); } catch (const RR::SemaphoreAborted &) { aborted = true; } Off o; g->stops[me].sem = nullptr; }
        else if (kind == 2) { RR::RingBufferGuarded<int> s{2}; { Off o; g->stops[me].ring = &s; } try { s.get(); } catch (const RR::SemaphoreAborted &) { aborted = true; } Off o; g->stops[me].ring = nullptr; }
        else {
            RR::MessageQueue s{2, sizeof(Big)};
            { Off o; g->stops[me].mq = &s; }
            try { if (kind == 3) s.getAndDispatch(); else for (int i = 0; i < 3; i++) s.emplace<Msg>(i, nullptr); } catch (const RR::SemaphoreAborted &) { aborted = true; }
            Off o;
            g->stops[me].mq = nullptr;
        }
    } catch (const std::exception &e) { sim::violate("indep", true, "an unexpected exception: %s", e.what()); }
    if (!aborted) sim::violate("indep", true, "a call that could not go on, as nobody else uses the component, returned (kind %d)", kind);
}
void destroy(Thing *&t, bool alone = false) {
    if (!t) return;
    int64_t t0;
    int k = t->kind;
    { Off o; t0 = sim::nowUs(); }
    delete t;
    t = nullptr;
    Off o;
    int64_t d = sim::nowUs() - t0;
    if (alone) { g->solo[k] = std::max(g->solo[k], d); return; }
    if (d > 2 * g->solo[k] + 60000)
        sim::violate("indep", true, "the destruction of a %s took %lld ms while others were destroyed, it takes %lld ms", kindName[k], (long long)d / 1000, (long long)g->solo[k] / 1000);
}
void lane(const Lane &l) {
    Thing *slot[4] = {};
    for (auto &op : l.ops) {
        sim::beginOp(op.id);
        int64_t t0, away0;
        { Off o; t0 = sim::nowUs(); away0 = g->away[sim::self()]; }
        if (op.code == "sleep") { sim::sleepUs(op.a); continue; }
        if (op.code == "block") { blocker((int)op.a); continue; }
        Thing *&t = slot[op.a & 3];
        if (op.code == "new") { destroy(t); t = make((int)op.b, (size_t)op.c, (size_t)op.d); }
        else if (op.code == "del") destroy(t);
        else if (t) {
            Rng r(uint64_t(op.c) * 977 + 5);
            if (op.code == "long") t->longUse = true;
            for (int64_t i = 0; i < op.b; i++) t->step(r);
            t->longUse = false;
        }
        Off o;
        int64_t d = sim::nowUs() - t0 - (g->away[sim::self()] - away0);
        if (d >= SHORT) sim::violate("indep", true, "a thread with components of its own was held up for %lld ms by what another one does", (long long)d / 1000);
    }
    for (auto &t : slot) destroy(t);
}
struct IndepScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        c.set("prof", 31);
        genSched(c, r, false);
        c.sched.stepCap = 4000000;
        int lanes = (int)r.range(2, 5);
        bool same = r.chance(1, 2);            // all of one kind, or any
        int kind = (int)r.below(K_N);
        auto anyKind = [&]() { return same && r.chance(7, 8) ? kind : (int)r.below(K_N); };
        int longs = r.oneIn(4) ? (int)r.range(1, 2) : 0;
        for (int i = 0; i < lanes; i++) {
            Lane l;
            auto add = [&](const char *k, int64_t a, int64_t b = 0, int64_t cc = 0, int64_t d = 0) { sim::Op o; o.code = k; o.a = a; o.b = b; o.c = cc; o.d = d; l.ops.push_back(o); };
            if (r.oneIn(4)) add("sleep", r.range(1, 2000));
            int slots = (int)r.range(1, 3);
            for (int s = 0; s < slots; s++) add("new", s, anyKind(), r.range(1, 9), r.range(1, 12));
            for (int k = (int)r.range(2, 7); k > 0; k--) {
                int s = (int)r.below(slots);
                if (r.oneIn(5)) { if (r.chance(1, 2)) add("del", s); add("new", s, anyKind(), r.range(1, 9), r.range(1, 12)); }
                if (longs && r.oneIn(4)) { longs--; add("long", s, r.range(1, 3), r.below(100000)); }
                else add("use", s, r.range(1, 12), r.below(100000));
            }
            c.lanes.push_back(l);
        }
        int nb = r.oneIn(2) ? (int)r.range(1, 2) : 0;
        for (int i = 0; i < nb; i++) {
            Lane l; sim::Op o;
            o.code = "block"; o.a = r.below(5);
            l.ops.push_back(o);
            c.lanes.insert(c.lanes.begin() + r.below(c.lanes.size() + 1), l);
        }
        numberOps(c);
    }
    void main(const Case &c) override {
        {
            Off o;
            delete g; g = new G;
            g->stops.resize(c.lanes.size() + 1); g->away.resize(c.lanes.size() + 1); g->blocker.resize(c.lanes.size() + 1);
        }
        for (int k = 0; k < K_N; k++) {
            bool used = false;
            { Off o; for (auto &l : c.lanes) for (auto &x : l.ops) used |= x.code == "new" && x.b == k; }
            if (!used) continue;
            Thing *t = make(k, 3, 2);
            destroy(t, true);
        }
        spawnAll(c, lane);
        sim::waitQuiescent();
        {
            Off o;
            for (auto &l : c.lanes) {
                bool b = false;
                for (auto &x : l.ops) b |= x.code == "block";
                if (!b && !sim::finished(l.id)) sim::violate("indep", true, "thread %d is blocked, though nobody else uses its components", l.id);
            }
            sim::grantSync();
        }
        for (size_t i = 0; i < g->stops.size(); i++) {
            Stop s = g->stops[i];
            if (s.sem) s.sem->abort();
            if (s.ring) s.ring->abort();
            if (s.mq) s.mq->abort();
        }
        sim::waitQuiescent();
        Off o;
        if (!sim::allFinished()) sim::violate("indep", true, "a thread is still blocked in a component that was aborted");
        if (size_t n = sim::liveBlocks()) sim::violate("leak", true, "%zu heap blocks are never released: %s", n, sim::describeLive().c_str());
    }
};
} // namespace
sim::Scenario *makeIndep() { return new IndepScenario; }

// Scenario: components are constructed while each of their allocations in turn fails, next to threads
// that keep using healthy components.  C26.
#include "scn.hpp"
#include "BlockPool.hpp"
#include "MessageQueue.hpp"
#include "Mutex.hpp"
#include "ObjectPool.hpp"
#include "RingBufferGuarded.hpp"
#include "RingBufferSimple.hpp"
#include "Semaphore.hpp"
#include <mutex>
#include <new>
#include <system_error>

namespace {
struct Obj { virtual ~Obj() = default; int64_t v = 7; };
struct Der : Obj { int64_t w[5]; explicit Der(int64_t a) { for (auto &x : w) x = a; } };
struct Msg : RR::MessageBase {
    int64_t v, *out;
    Msg(int64_t a, int64_t *o) : v(a), out(o) {}
    void dispatch() override { *out += v; }
};
enum Comp { C_MUTEX, C_SEM, C_RSIMPLE, C_RSIMPLEP, C_RING, C_RINGP, C_RINGPRIME, C_OPOOL, C_BPOOL, C_BPOOLO, C_MQ, C_MQLOCK, C_N };
const char *const compName[] = {"Mutex", "Semaphore", "RingBufferSimple<int>", "RingBufferSimple<T*>", "RingBufferGuarded<double>", "RingBufferGuarded<T*>",
    "RingBufferGuarded for priming", "ObjectPool", "BlockPool of scalars", "BlockPool of objects", "MessageQueue", "MessageQueue with dispatch locking"};
struct G {
    RR::MessageQueue *mq = nullptr;     // healthy bystanders
    RR::ObjectPool<Obj> *op = nullptr;
    RR::Semaphore *sem = nullptr;
    int64_t done = 0, want = 0;
};
G *g;
void broken(const char *what, int comp) { Off o; sim::violate("ctor", true, "%s: %s", compName[comp], what); }

// Every component answers two calls: build it, and try it out (then destroy it).
struct Made { virtual ~Made() = default; virtual bool works() = 0; };
struct MMutex : Made { RR::Mutex m; MMutex(int64_t, int64_t) {} bool works() override { m.lock(); bool b = !m.try_lock(); m.unlock(); return b && (m.try_lock() ? (m.unlock(), true) : false); } };
struct MSem : Made {
    RR::Semaphore s; int64_t n;
    MSem(int64_t a, int64_t b) : s{size_t(a), size_t(b)}, n(a) {}
    bool works() override {
        if ((int64_t)s.getAvailableCount() != n) return false;
        if (n) { s.take(); s.give(); }
        else { s.give(); s.take(); }
        return (int64_t)s.getAvailableCount() == n;
    }
};
template <class R> bool ringFifo(R &r, int64_t n) {
    if (n > 40) n = 40;
    for (int64_t i = 0; i < n; i++) r.put(typename R::ValueType(i + 3));
    for (int64_t i = 0; i < n; i++) if (r.get() != typename R::ValueType(i + 3)) return false;
    return true;
}
struct MRs : Made { struct R : RR::RingBufferSimple<int> { using ValueType = int; using RR::RingBufferSimple<int>::RingBufferSimple; } r; int64_t n;
    MRs(int64_t a, int64_t) : r{size_t(a)}, n(a) {} bool works() override { return (int64_t)r.getSize() >= n && ringFifo(r, n); } };
struct MRp : Made { RR::RingBufferSimple<Obj *> r; int64_t n;
    MRp(int64_t a, int64_t) : r{size_t(a)}, n(a) {} bool works() override { Obj o; r.put(&o); return r.get() == &o; } };
struct MRg : Made { struct R : RR::RingBufferGuarded<double> { using ValueType = double; using RR::RingBufferGuarded<double>::RingBufferGuarded; } r; int64_t n;
    MRg(int64_t a, int64_t) : r{size_t(a)}, n(a) {} bool works() override { return ringFifo(r, n); } };
struct MRgp : Made { RR::RingBufferGuarded<Obj *> r;
    MRgp(int64_t a, int64_t) : r{size_t(a)} {} bool works() override { Obj o; r.put(&o); bool b = r.get() == &o; r.abort(); return b; } };
struct MRprime : Made { RR::RingBufferGuarded<int> r; int64_t n;
    MRprime(int64_t a, int64_t) : r{size_t(a), true}, n(a) {}
    bool works() override {
        auto f = [](size_t i) { return int(i) + 1; };
        r.prime(std::ref(f));
        for (int64_t i = 0; i < n && i < 40; i++) if (r.get() != i + 1) return false;
        return true;
    } };
struct MOp : Made { RR::ObjectPool<Obj> p;
    MOp(int64_t a, int64_t b) : p{size_t(a), size_t(b)} {}
    bool works() override {
        auto n = p.getRunningStateStatistics();
        auto x = p.createObj<Obj>();
        bool b = x->v == 7 && p.getRunningStateStatistics().runningCount + 1 == n.runningCount;
        x.reset();
        return b && p.getRunningStateStatistics().runningCount == n.runningCount;
    } };
struct MBp : Made { RR::BlockPool<short> p; int64_t n;
    MBp(int64_t a, int64_t b) : p{size_t(a), size_t(b ? b : 1)}, n(b ? b : 1) {}
    bool works() override { auto x = p.getBlock(); for (int64_t i = 0; i < n && i < 100; i++) { if (x[i]) return false; x[i] = 9; } return true; } };
struct MBo : Made { RR::BlockPool<Obj> p; int64_t n;
    MBo(int64_t a, int64_t b) : p{size_t(a), size_t(b ? b : 1)}, n(b ? b : 1) {}
    bool works() override { auto x = p.getBlock(); for (int64_t i = 0; i < n && i < 100; i++) if (x[i].v != 7) return false; return true; } };
struct MMq : Made { RR::MessageQueue q; int64_t n; bool lk;
    MMq(int64_t a, int64_t b, bool l) : q{size_t(a), size_t(b > (int64_t)sizeof(Msg) ? b : sizeof(Msg)), l}, n(a), lk(l) {}
    bool works() override {
        int64_t sum = 0, want = 0;
        for (int64_t i = 0; i < n && i < 30; i++) { q.emplace<Msg>(i + 1, &sum); want += i + 1; }
        for (int64_t i = 0; i < n && i < 30; i++) q.getAndDispatch();
        if (lk) { auto l = q.getAutoDispatchLock(); (void)l; }
        q.emplace<Msg>(1, &sum);    // left undelivered
        return sum == want;
    } };
Made *build(int comp, int64_t a, int64_t b) {
    switch (comp) {
    case C_MUTEX: return new MMutex(a, b);
    case C_SEM: return new MSem(a, b);
    case C_RSIMPLE: return new MRs(a, b);
    case C_RSIMPLEP: return new MRp(a, b);
    case C_RING: return new MRg(a, b);
    case C_RINGP: return new MRgp(a, b);
    case C_RINGPRIME: return new MRprime(a, b);
    case C_OPOOL: return new MOp(a, b);
    case C_BPOOL: return new MBp(a, b);
    case C_BPOOLO: return new MBo(a, b);
    default: return new MMq(a, b, comp == C_MQLOCK);
    }
}
// Constructs with the k-th allocation failing (k < 0: none).  Returns whether the construction succeeded.
Made *attempt(int comp, int64_t a, int64_t b, int64_t k, bool mustFail) {
    size_t before;
    int64_t tries0;
    { Off o; before = sim::liveBlocksOf(sim::self()); tries0 = sim::attemptsSelf(); }
    sim::allocFailAfter(k);
    Made *m = nullptr;
    bool threw = false, other = false;
    try { m = build(comp, a, b); } catch (const std::bad_alloc &) { threw = true; } catch (...) { threw = other = true; }
    sim::allocFailAfter(-1);
    Off o;
    bool failed = mustFail || (k >= 0 && sim::attemptsSelf() - tries0 > k);
    char t[120];
    if (other) { snprintf(t, sizeof t, "failure of allocation %lld surfaced as something other than std::bad_alloc", (long long)k); broken(t, comp); }
    if (failed && !threw) { snprintf(t, sizeof t, "allocation %lld failed but the constructor reported success", (long long)k); broken(t, comp); }
    if (!failed && threw) broken("construction failed although no allocation did", comp);
    if (threw) {
        sim::probe(P_ALLOC_FAILED_CTOR);
        size_t now = sim::liveBlocksOf(sim::self());
        if (now != before) {
            std::string d = sim::describeLive(sim::self());
            sim::violate("leak", true, "%s: a construction that failed at allocation %lld left %zu blocks behind: %s", compName[comp], (long long)k, now - before, d.c_str());
        }
    }
    return m;
}
// The same, with the k-th initialisation of an operating system object failing.
Made *attemptOs(int comp, int64_t a, int64_t b, int64_t k, int err) {
    size_t before;
    int64_t tries0;
    { Off o; before = sim::liveBlocksOf(sim::self()); tries0 = sim::osInitsSelf(); }
    sim::osInitFailAfter(k, err);
    Made *m = nullptr;
    int code = 0;
    try { m = build(comp, a, b); } catch (const std::system_error &e) { code = e.code().value(); } catch (...) { code = -1; }
    sim::osInitFailAfter(-1, 0);
    Off o;
    bool failed = sim::osInitsSelf() - tries0 > k;
    char t[160];
    if (failed && m) { snprintf(t, sizeof t, "initialisation %lld of an operating system object failed but the constructor reported success", (long long)k); broken(t, comp); }
    if (!failed && !m) broken("construction failed although nothing else did", comp);
    if (failed && code != err) { snprintf(t, sizeof t, "error %d of initialisation %lld of an operating system object surfaced as %d", err, (long long)k, code); broken(t, comp); }
    if (!m) {
        size_t now = sim::liveBlocksOf(sim::self());
        if (now != before) {
            std::string d = sim::describeLive(sim::self());
            sim::violate("leak", true, "%s: a construction that failed at operating system object %lld left %zu blocks behind: %s", compName[comp], (long long)k, now - before, d.c_str());
        }
    }
    return m;
}
void finish(Made *m, int comp, size_t before) {
    bool ok = m->works();
    if (!ok) broken("a component constructed with memory available does not work", comp);
    delete m;
    Off o;
    if (sim::liveBlocksOf(sim::self()) != before)
        sim::violate("leak", true, "%s: destruction left memory behind: %s", compName[comp], sim::describeLive(sim::self()).c_str());
}
void lane(const Lane &l) {
    for (auto &op : l.ops) {
        sim::beginOp(op.id);
        size_t before;
        { Off o; before = sim::liveBlocksOf(sim::self()); }
        if (op.code == "sleep") { sim::sleepUs(op.a); continue; }
        if (op.code == "use") {             // a healthy bystander
            for (int64_t i = 0; i < op.a; i++) {
                g->sem->take();
                g->sem->give();
                auto p = g->op->createObj<Der>(i);
                { Off o; g->want += i + 1; }
                g->mq->emplace<Msg>(i + 1, &g->done);
                if (static_cast<Der *>(p.get())->w[4] != i || p->v != 7) broken("an object of another pool changed", C_OPOOL);
            }
            continue;
        }
        if (op.code == "disp") {
            try { for (int64_t i = 0; i < op.a; i++) g->mq->getAndDispatch(); } catch (const RR::SemaphoreAborted &) {}
            continue;
        }
        int comp = (int)op.a;
        if (op.code == "enum") {            // every allocation in turn
            for (int64_t k = 0;; k++) {
                Made *m = attempt(comp, op.b, op.c, k, false);
                if (m) { finish(m, comp, before); break; }
                if (op.d && k % 2) { Made *n = attempt(comp, op.b, op.c, -1, false); if (n) finish(n, comp, before); }
                if (k > 64) { broken("more than 64 allocations in a constructor", comp); break; }
            }
        } else if (op.code == "enumos") {   // every mutex and condition variable in turn
            const int errs[] = {EAGAIN, ENOMEM, ENOTSUP, EPERM};
            for (int64_t k = 0;; k++) {
                Made *m = attemptOs(comp, op.b, op.c, k, errs[(op.d + k) % 4]);
                if (m) { finish(m, comp, before); break; }
                if (k > 64) { broken("more than 64 operating system objects in a constructor", comp); break; }
            }
        } else if (op.code == "huge") {     // more memory than there is
            Made *m = attempt(comp, op.b, op.c, -1, true);
            (void)m;
            Made *n = attempt(comp, 3, 24, -1, false);
            if (n) finish(n, comp, before);
        }
    }
}
struct CtorScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        c.set("prof", 26);
        genSched(c, r, false); c.sched.stepCap = 40000000;
        int lanes = (int)r.range(1, 3), msgs = 0;
        for (int i = 0; i < lanes; i++) {
            Lane l;
            for (int k = (int)r.range(1, 3); k > 0; k--) {
                sim::Op o;
                o.code = "enum";
                o.a = r.below(C_N);
                const int64_t n[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257, 1000};
                o.b = r.chance(1, 3) ? r.pick(n) : r.range(1, 12);
                const int64_t e[] = {1, 2, 3, 7, 8, 9, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 255, 1024, 4097};
                o.c = r.pick(e);
                if (o.a == C_SEM) { o.b = r.range(0, 3); o.c = r.chance(1, 2) ? 0 : o.b + r.range(1, 3); }
                if (o.b > 64 && o.c > 1024) o.c = 33;
                o.d = r.chance(1, 2);
                if (r.oneIn(3)) { o.code = "enumos"; o.d = r.below(4); }
                else
                if (r.oneIn(12) && (o.a == C_OPOOL || o.a == C_BPOOL || o.a == C_BPOOLO || o.a == C_MQ || o.a == C_MQLOCK)) {
                    o.code = "huge";
                    o.b = r.range(4, 64);
                    o.c = int64_t(1) << r.range(33, 50);
                }
                l.ops.push_back(o);
            }
            c.lanes.push_back(l);
        }
        int by = (int)r.range(1, 2);
        for (int i = 0; i < by; i++) {
            Lane l; sim::Op o;
            for (int k = (int)r.range(1, 3); k > 0; k--) { o.code = "use"; o.a = r.range(1, 4); msgs += (int)o.a; l.ops.push_back(o); }
            c.lanes.push_back(l);
        }
        Lane l; sim::Op o; o.code = "disp"; o.a = msgs;
        l.ops.push_back(o);
        c.lanes.push_back(l);
        numberOps(c);
    }
    void main(const Case &c) override {
        { Off o; delete g; g = new G; }
        g->mq = new RR::MessageQueue{3, sizeof(Msg), true};
        g->op = new RR::ObjectPool<Obj>{4, sizeof(Der)};
        g->sem = new RR::Semaphore{1, 1};
        spawnAll(c, lane);
        sim::waitQuiescent();
        {
            Off o;
            // a minimised case may dispatch more often than anything is enqueued
            if (sim::allFinished() && g->done != g->want) sim::violate("ctor", true, "a message queue next to the failed constructions misbehaved");
        }
        g->mq->abort();
        sim::waitQuiescent();
        { Off o; if (!sim::allFinished()) return; }
        delete g->mq; delete g->op; delete g->sem;
        Off o;
        if (sim::liveBlocks()) sim::violate("leak", true, "memory was left behind: %s", sim::describeLive().c_str());
    }
};
} // namespace
sim::Scenario *makeCtor() { return new CtorScenario; }

#include "scn.hpp"
#include "MessageQueue.hpp"
#include "ObjectPool.hpp"
#include "RingBufferGuarded.hpp"
#include "Semaphore.hpp"
const char *const probeNames[P_N] = {"take_blocked", "give_blocked", "callback_threw_while_others_wait", "abort_with_waiters",
    "pool_exhausted", "storage_reused", "constructor_threw", "dispatch_threw", "wakeup_threw", "purge_nonempty",
    "flush_nonempty", "dispatch_lock_contended", "dispatch_lock_moved", "cross_thread_release", "overflow_hit", "counter_wrap",
    "hundreds_of_waiters", "lock_contended_by_high_priority", "destroyed_with_blocked_callers", "destroyed_with_queued_messages",
    "abort_during_priming", "abort_during_call", "construction_failed", "name_query_during_dispatch", "stats_during_call",
    "trylock_busy"};
bool has(const Case &c, const char *p) { return c.prop == p; }
void genSched(Case &c, Rng &r, bool stalls) {
    sim::SchedCfg &s = c.sched;
    int k = (int)r.below(100);
    s.strat = k < 45 ? sim::ST_RANDOM : k < 75 ? sim::ST_PCT : sim::ST_PAUSE;
    const int sw[] = {1, 2, 3, 5, 10, 30};
    s.pSwitch = r.pick(sw);
    const int gaps[] = {3, 10, 40, 200};
    s.plainGap = r.chance(1, 2) ? 0 : r.pick(gaps);
    s.pctDepth = (int)r.range(1, 4);
    const int lens[] = {50, 150, 500, 2000};
    s.pctLen = r.pick(lens);
    const int sp[] = {2, 4, 10};
    s.spurious = r.chance(1, 2) ? 0 : r.pick(sp);
    const int wc[] = {2, 5};
    s.weakCas = r.chance(1, 2) ? 0 : r.pick(wc);
    s.weakMem = r.chance(1, 2) ? 0 : r.pick(wc);
    s.sigChoice = r.chance(7, 10);
    s.fill = r.chance(1, 2) ? 0 : (int)r.range(1, 4);
    if (r.chance(1, 2)) c.set("uex", r.range(1, 10));
    if (r.oneIn(8) && !has(c, "C25")) c.set("nest", r.range(1, 8));
    if (stalls) {
        const int st[] = {5, 20, 80};
        s.stall = r.pick(st);
        s.stallMaxUs = 30000;
        s.stallBudgetUs = 80000;
    } else if (r.oneIn(8)) {
        s.stall = 50; s.stallMaxUs = 5000; s.stallBudgetUs = 50000;
    }
}
void genAge(Case &c, Rng &r, bool far) {
    const int64_t some[] = {62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512};
    if (r.oneIn(40)) c.set("age", r.range(3, 40));
    else if (r.oneIn(400)) c.set("age", r.pick(some));
    else if (far && r.oneIn(8000)) { c.set("age", r.range(65534, 65538)); c.sched.races = 0; c.sched.stepCap = 40000000; }
}
void throwUser(int n) {
    Off o;
    int64_t k = sim::runParam("uex");
    switch (k ? (uint64_t(k) + uint64_t(n)) % 10 : 0) {
    case 1: throw UserEx<std::runtime_error>(n, "user");
    case 2: throw UserEx<std::logic_error>(n, "user");
    case 3: throw UserEx<std::bad_alloc>(n);
    case 4: throw UserEx<RR::SemaphoreAborted>(n, "user");
    case 5: throw UserEx<RR::SemaphoreOverflow>(n, "user");
    case 6: throw UserEx<RR::RingBufferStateError>(n, "user");
    case 7: throw UserEx<RR::RingBufferUnderflow>(n, "user");
    case 8: throw UserEx<RR::MessageQueueElementSizeError>(n, "user");
    case 9: throw UserEx<std::bad_function_call>(n);
    default: throw UserError{n};
    }
}
void numberOps(Case &c) {
    int n = 1, l = 1;
    for (auto &x : c.lanes) { x.id = l++; for (auto &o : x.ops) o.id = n++; }
}
std::string Hist::text(const lin::Model &m, size_t max) const {
    std::string s;
    char b[200];
    for (size_t i = 0; i < ops.size() && i < max; i++) {
        auto &o = ops[i];
        snprintf(b, sizeof b, "  [%llu..%lld] thread %d %s(%lld) = %lld\n", (unsigned long long)o.inv,
                 o.ret == lin::INF ? -1ll : (long long)o.ret, o.lane, m.name(o.kind), (long long)o.a, (long long)o.res);
        s += b;
    }
    return s;
}
bool simVerbose = false;
void linCheck(const char *tag, const lin::Model &m, const std::vector<lin::Op> &ops, size_t cap) {
    std::string why;
    if (simVerbose) { Hist h; h.ops = ops; fprintf(stderr, "history:\n%s", h.text(m, 400).c_str()); }
    lin::Verdict v = lin::check(m, ops, cap, why);
    std::string t = tag;
    if (v == lin::NOT_LINEARIZABLE) sim::violate((t + ".lin").c_str(), true, "%s", why.c_str());
    else if (v == lin::STUCK) sim::violate((t + ".stuck").c_str(), true, "%s", why.c_str());
    else if (v == lin::CAPPED) sim::linCapped();
}
// Everything a thread does may happen in user code called by another component, which is its own.
static void (*nestedFn)(const Lane &);
namespace {
struct Wrap : RR::MessageBase {
    const Lane *l;
    explicit Wrap(const Lane *x) : l(x) {}
    void dispatch() override { if (l) nestedFn(*l); }
    const char *name() const override { return "outer"; }
};
struct WrapObj { explicit WrapObj(const Lane *l) { nestedFn(*l); } char room[24]; };
void nestedLane(const Lane &l) {
    auto run = [&l]() { nestedFn(l); };
    switch ((sim::runParam("nest") + l.id) % 8) {
    case 0: return nestedFn(l);
    case 1: case 2: {
        RR::MessageQueue q{2, sizeof(Wrap), (sim::runParam("nest") + l.id) % 8 == 1};
        q.emplace<Wrap>(&l);
        return q.getAndDispatch();
    }
    case 3: { RR::Semaphore s{1}; return s.take(std::ref(run)); }
    case 4: { RR::Semaphore s{0}; return s.give(std::ref(run)); }
    case 5: { RR::ObjectPool<WrapObj> p{2}; auto x = p.createObj<WrapObj>(&l); return; }
    case 6: {
        RR::RingBufferGuarded<int> r{1};
        r.put(1);
        r.abort();
        auto f = [&l](int) { nestedFn(l); };
        return r.flush(std::ref(f));
    }
    default: {
        RR::MessageQueue q{2, sizeof(Wrap)};
        q.emplace<Wrap>(nullptr);
        return q.getAndDispatch(std::ref(run));
    }
    }
}
} // namespace
void spawnAll(const Case &c, void (*fn)(const Lane &)) {
    Off o;
    nestedFn = fn;
    for (auto &l : c.lanes) sim::spawnLane(l, c.get("nest") ? nestedLane : fn);
}

void heapPhaseBegin(const Case &c) { if (has(c, "C25")) sim::allocFailAll(true); }
void heapPhaseEnd(const Case &c) { if (has(c, "C25")) sim::allocFailAll(false); }

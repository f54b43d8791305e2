// Scenario: one blocking ring buffer shared by several threads.  Properties C06-C10 (and C25, C27).
#include "scn.hpp"
#include "RingBufferGuarded.hpp"
#include <set>

namespace lin {
// What a put says about its outcome: accepted, ignored, or nothing.
template <class F> typename std::enable_if<std::is_same<decltype(std::declval<F>()()), bool>::value, int64_t>::type putRes(F f) { return f() ? R_ACCEPTED : R_DROPPED; }
template <class F> typename std::enable_if<!std::is_same<decltype(std::declval<F>()()), bool>::value, int64_t>::type putRes(F f) { f(); return R_OK; }
}
namespace {
// ---------------------------------------------------------------- the ring buffer behind a type-free interface
struct IRing {
    virtual ~IRing() {}
    virtual int64_t put(int64_t) = 0;
    virtual int64_t get() = 0;
    virtual void abort() = 0;
    virtual void prime(int64_t (*next)(size_t)) = 0;
    virtual void flush(void (*sink)(int64_t)) = 0;
    virtual size_t size() = 0;
};
template <class T> struct Conv {
    static T to(int64_t v) { return T(v); }
    static int64_t from(T v) { return int64_t(v); }
};
template <> struct Conv<double> {
    static double to(int64_t v) { return double(v) + 0.25; }
    static int64_t from(double v) { return v == double(int64_t(v)) + 0.25 ? int64_t(v) : -999; }
};
template <> struct Conv<uint64_t> {
    static uint64_t to(int64_t v) { return uint64_t(v) * 0x0000100010001001ull; }
    static int64_t from(uint64_t v) { return v % 0x0000100010001001ull ? -999 : int64_t(v / 0x0000100010001001ull); }
};
template <class P> struct Conv<P *> {
    static P *to(int64_t v) { return reinterpret_cast<P *>(v * 16); }
    static int64_t from(const void *p) { return int64_t(p) % 16 ? -999 : int64_t(p) / 16; }
};
template <class T> struct RingOf : IRing {
    RR::RingBufferGuarded<T> r;
    RingOf(size_t n, bool p) : r{n, p} {}
    int64_t put(int64_t v) override { return lin::putRes([&] { return r.put(Conv<T>::to(v)); }); }
    int64_t get() override { return Conv<T>::from(r.get()); }
    void abort() override { r.abort(); }
    using V = typename std::conditional<std::is_pointer<T>::value, void *, T>::type;
    void prime(int64_t (*next)(size_t)) override {
        std::function<V(size_t)> f;
        { Off o; Captured big; f = [next, big](size_t i) { big.use(); return Conv<V>::to(next(i)); }; }
        r.prime(f);
    }
    void flush(void (*sink)(int64_t)) override {
        std::function<void(V)> f;
        { Off o; Captured big; f = [sink, big](V v) { big.use(); sink(Conv<V>::from(v)); }; }
        r.flush(f);
    }
    size_t size() override { return r.getSize(); }
};
struct Payload { int64_t a, b; };
struct G {
    Case const *c = nullptr;
    IRing *ring = nullptr;
    Hist h;
    int64_t cap = 0;
    std::vector<std::vector<int64_t>> lists;   // what prime and flush delivered
    bool priming = false, flushing = false;
    std::vector<int64_t> *sinkTo = nullptr;    // current flush
    std::vector<int64_t> *primeTo = nullptr;   // current prime
    int64_t primeAbortAt = -1, primeThrowAt = -1, sinkThrowAt = -1;
    bool primeThrew = false;   // priming was left half done
    int primePts = 0;
    bool quick = false;
    // payload mode: pointers to plain data travel through the buffer
    RR::RingBufferGuarded<const Payload *> *pr = nullptr;
    Payload *pool = nullptr;
    // soak: per producer order
    int64_t soakNext = 0, soakGot = 0;
    bool closing = false;      // the ring is being destroyed: no new calls
};
G *g;

void doAbort(int lane) {
    size_t a = g->h.begin(64 + lane * 2, lin::T_ABORT), b = g->h.begin(65 + lane * 2, lin::S_ABORT);
    { Off o; sim::countFault(sim::FK_ABORT); }
    g->ring->abort();
    g->h.end(a, 0);
    g->h.end(b, 0);
}
int64_t primeValue(size_t i) {
    int64_t v = 0;
    bool ab = false;
    if (g->quick) return int64_t(i & 0x7F);
    {
        Off o;
        v = 1 + int64_t(g->primeTo->size());
        if (int64_t(i) + 1 != v) sim::violate("ring.prime", true, "priming asked for element %zu, expected %lld", i, (long long)v - 1);
        g->primeTo->push_back(v);
        ab = g->primeAbortAt == int64_t(i);
    }
    for (int k = 0; k < g->primePts; k++) sim::point();
    if (ab) { { Off o; sim::probe(P_PRIME_ABORT); } doAbort(90); }
    if (g->primeThrowAt == int64_t(i)) {
        { Off o; g->primeTo->pop_back(); g->primeThrew = true; sim::countFault(sim::FK_THROW); }
        throwUser(int(i));
    }
    return v;
}
void sink(int64_t v) {
    bool th;
    { Off o; g->sinkTo->push_back(v); th = int64_t(g->sinkTo->size()) == g->sinkThrowAt; if (th) sim::countFault(sim::FK_THROW); }
    if (th) throwUser(int(v));
}

template <class F> typename std::enable_if<std::is_same<decltype(std::declval<F>()()), int64_t>::value, int64_t>::type call(F f) { return f(); }
template <class F> typename std::enable_if<!std::is_same<decltype(std::declval<F>()()), int64_t>::value, int64_t>::type call(F f) { f(); return lin::R_OK; }
// Runs one call and maps its outcome.
template <class F> int64_t outcome(F f, const char *what) {
    try { return call(f); }
    catch (const UserError &) { if (!strcmp(what, "flush") || !strcmp(what, "prime")) return lin::R_EXC; }
    catch (const RR::SemaphoreAborted &) { return lin::R_ERR; }
    catch (const RR::RingBufferStateError &) { return lin::R_ERR; }
    catch (const std::exception &e) {
        Off o;
        sim::violate(!strcmp(what, "flush") ? "ring.flush" : !strcmp(what, "prime") ? "ring.prime" : "ring.err", true,
                     "%s failed with an error of another kind: %s", what, e.what());
    }
    return lin::R_ERR;
}
void doFlush(int laneId, int64_t throwAt = 0) {
    std::vector<int64_t> *l;
    size_t idx;
    {
        Off o;
        if (g->flushing || g->priming) return;
        g->flushing = true;
        sim::hbAcquire(7);      // whoever primed or flushed before us told us so
        g->lists.reserve(4096);
        g->lists.emplace_back();
        idx = g->lists.size() - 1;
        l = &g->lists[idx];
        g->sinkTo = l;
        g->sinkThrowAt = throwAt;
    }
    size_t i = g->h.begin(laneId, lin::FLUSH, int64_t(idx));
    int64_t r = outcome([] { g->ring->flush(sink); }, "flush");
    g->h.end(i, r);
    Off o;
    g->flushing = false;
    sim::hbRelease(7);
    if (r == lin::R_EXC && (throwAt <= 0 || int64_t(l->size()) != throwAt)) sim::violate("ring.flush", true, "flush went on after its function threw");
    if (r == lin::R_OK && throwAt > 0 && int64_t(l->size()) >= throwAt) sim::violate("ring.flush", true, "flush hid an exception of its function");
    if (r == lin::R_OK && !l->empty()) sim::probe(P_FLUSH_NONEMPTY);
}

void lane(const Lane &l) {
    for (auto &op : l.ops) {
        { Off o; if (g->closing) return; }
        sim::beginOp(op.id);
        const char *k = op.code.c_str();
        if (!strcmp(k, "sleep")) sim::sleepUs(op.a);
        else if (!strcmp(k, "put")) {
            uint64_t b0 = sim::blockedCountSelf();
            size_t i = g->h.begin(l.id, lin::PUT, op.a);
            int64_t r = outcome([&] { return g->ring->put(op.a); }, "put");
            g->h.end(i, r);
            if (sim::blockedCountSelf() != b0) sim::probe(P_BLOCKED_GIVE);
        } else if (!strcmp(k, "get")) {
            int64_t v = -1;
            uint64_t b0 = sim::blockedCountSelf();
            size_t i = g->h.begin(l.id, lin::GET);
            int64_t r = outcome([&] { v = g->ring->get(); }, "get");
            { Off o; g->h.ops[i].a = v; }
            g->h.end(i, r);
            if (sim::blockedCountSelf() != b0) sim::probe(P_BLOCKED_TAKE);
        } else if (!strcmp(k, "abort")) doAbort(l.id);
        else if (!strcmp(k, "flush")) doFlush(l.id, op.a);
        else if (!strcmp(k, "prime")) {
            size_t idx;
            {
                Off o;
                if (g->priming || g->flushing || g->primeThrew) continue;
                g->priming = true;
                sim::hbAcquire(7);
                g->lists.reserve(4096);
                g->lists.emplace_back();
                idx = g->lists.size() - 1;
                g->primeTo = &g->lists[idx];
                g->primeAbortAt = op.a - 1;
                g->primePts = (int)(op.b & 15);
                g->primeThrowAt = op.b / 16 - 1;
            }
            size_t i = g->h.begin(l.id, lin::PRIME, int64_t(idx));
            int64_t r = outcome([] { g->ring->prime(primeValue); }, "prime");
            g->h.end(i, r);
            Off o;
            g->priming = false;
            sim::hbRelease(7);
            if ((r == lin::R_EXC) != g->primeThrew) sim::violate("ring.prime", true, "priming hid or made up an exception of its function");
            if (r == lin::R_ERR && !g->lists[idx].empty()) sim::violate("ring.prime", true, "a refused priming delivered %zu elements", g->lists[idx].size());
        } else if (!strcmp(k, "puts")) {   // soak: op.a values in sequence
            for (int64_t n = 0; n < op.a; n++) g->ring->put(n % 101);
        } else if (!strcmp(k, "gets")) {
            for (int64_t n = 0; n < op.a; n++) {
                int64_t v = g->ring->get();
                if (v != n % 101) { Off o; sim::violate("ring.lin", true, "element %lld came out as %lld", (long long)(n % 101), (long long)v); }
            }
        } else if (!strcmp(k, "pput")) {   // payload pointers
            Payload *p = &g->pool[op.a];
            p->a = op.a * 7 + 1;
            p->b = ~p->a;
            if (outcome([&] { g->pr->put(p); }, "put") != lin::R_OK) return;
        } else if (!strcmp(k, "pget")) {
            const Payload *p = nullptr;
            if (outcome([&] { p = g->pr->get(); }, "get") != lin::R_OK) return;
            if (p < g->pool || p->b != ~p->a || p->a != (p - g->pool) * 7 + 1) {
                Off o;
                sim::violate("ring.lin", true, "a payload arrived damaged");
            }
        }
    }
}

struct RingScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        int p = atoi(c.prop.c_str() + 1);
        const int safe[] = {7, 8, 10};
        if (p == 25) p = r.pick(safe);
        if (p == 27) p = (int)r.range(6, 10);
        c.set("prof", p);
        genSched(c, r, p == 6);
        const int64_t small[] = {0, 1, 2, 3, 4, 5, 7, 8, 9};
        int64_t req = r.pick(small);
        c.set("type", r.range(0, 5));
        bool pointerPayload = (p == 7 || p == 8) && !has(c, "C07") && r.oneIn(5);
        if (has(c, "C27") && (p == 7 || p == 8)) pointerPayload = r.chance(1, 2);
        int lanes = (int)r.range(2, 5);
        if ((p == 8 || p == 7) && r.oneIn(1200) && !has(c, "C25")) { // many elements: counters wrap
            c.set("type", r.range(0, 5));
            const int64_t mid[] = {127, 128, 129, 255, 256, 257, 300, 1000};
            c.set("req", r.oneIn(3) ? r.range(1, 9) : r.chance(1, 2) ? r.range(10, 126) : r.pick(mid));
            c.set("soak", 1);
            c.sched.races = 0; c.sched.plainGap = 0; c.sched.stepCap = 40000000; c.sched.spurious = 0;
            if (c.sched.strat != sim::ST_RANDOM) c.sched.strat = sim::ST_RANDOM;
            c.sched.pSwitch = 200;
            Lane a, b; sim::Op o;
            o.a = r.oneIn(3) ? 66000 : 1200;
            o.code = "puts"; a.ops.push_back(o);
            if (r.chance(1, 2)) { sim::Op w; w.code = "sleep"; w.a = 100; b.ops.push_back(w); }     // lets it fill
            o.code = "gets"; b.ops.push_back(o);
            c.lanes.push_back(a); c.lanes.push_back(b);
            numberOps(c);
            return;
        }
        if ((p == 8 || p == 10) && r.oneIn(has(c, "C08") || has(c, "C10") ? 3000 : 20000)) { // the largest sizes, filled by priming
            const int64_t big[] = {(1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 20) + 100};
            c.set("req", r.pick(big));
            c.set("type", 0);
            c.set("big", 1);
            c.sched.races = 0; c.sched.plainGap = 0; c.sched.stepCap = 400000000; c.sched.strat = sim::ST_RANDOM; c.sched.pSwitch = 1000;
            Lane a, b; sim::Op o;
            o.code = "sleep"; o.a = 2000; a.ops.push_back(o);
            o.code = "get"; o.a = 0; a.ops.push_back(o);
            o.code = "put"; o.a = 5;
            b.ops.push_back(o);
            c.lanes.push_back(b); c.lanes.push_back(a);
            numberOps(c);
            return;
        }
        bool large = p >= 9 && p <= 10 && !has(c, "C25") && r.oneIn(1000);
        if (large) { // more elements than a byte counts
            const int64_t l[] = {127, 128, 129, 255, 256, 257, 300, 1000};
            req = r.chance(1, 2) ? r.range(10, 126) : r.pick(l);
            c.set("type", r.range(1, 5));
        }
        if (p == 10) c.set("prime", r.oneIn(8) ? 0 : 1);
        if (p == 9 && r.oneIn(4)) c.set("prime", 1);
        if (large) c.set("prime", 1);
        if (p == 6) c.set("destroy", r.range(1, 3));
        bool heap = has(c, "C25");
        c.set("req", req);
        if (pointerPayload) {
            c.set("payload", 1);
            int n = 0;
            for (int i = 0; i < lanes; i++) {
                Lane l; sim::Op o;
                for (int k = (int)r.range(1, 4); k > 0; k--) { o.code = r.chance(1, 2) ? "pput" : "pget"; o.a = o.code[1] == 'p' ? n++ : 0; l.ops.push_back(o); }
                c.lanes.push_back(l);
            }
            c.set("n", n + 1);
            numberOps(c);
            return;
        }
        int64_t v = 1 + (c.get("prime") ? std::max<int64_t>(20, req) : 0);
        int putBias = (int)r.range(25, 75);
        bool balanced = p == 8 && r.chance(1, 3);
        for (int i = 0; i < lanes; i++) {
            Lane l;
            int n = (int)r.range(1, p == 6 ? 2 : 7);
            for (int k = 0; k < n; k++) {
                sim::Op o;
                o.code = r.chance(putBias, 100) ? "put" : "get";
                if (o.code == "put") o.a = v++;
                l.ops.push_back(o);
            }
            c.lanes.push_back(l);
        }
        if (balanced) { // as many puts as gets in total: everything must finish
            int d = 0;
            for (auto &l : c.lanes) for (auto &o : l.ops) d += o.code == "put" ? 1 : -1;
            Lane l;
            while (d != 0) { sim::Op o; o.code = d > 0 ? "get" : "put"; if (d < 0) o.a = v++; l.ops.push_back(o); d += d > 0 ? -1 : 1; }
            if (!l.ops.empty()) c.lanes.push_back(l);
        }
        auto flushThrow = [&]() -> int64_t { return r.oneIn(3) ? r.range(1, 4) : 0; };
        auto insert = [&](const char *code, int64_t a, int64_t b) {
            sim::Op o; o.code = code; o.a = a; o.b = b;
            auto &x = c.lanes[r.below(c.lanes.size())].ops;
            x.insert(x.begin() + r.below(x.size() + 1), o);
        };
        if (c.get("prime")) {
            int64_t cap = req;
            bool ab = !heap && r.chance(p == 10 ? 2 : 1, 4);
            int np = heap ? 1 : (int)r.range(p == 9 ? 0 : 1, 2);
            // mostly early, so that the buffer gets used afterwards
            for (int k = 0; k < np; k++) {
                sim::Op o; o.code = "prime"; o.a = ab && r.chance(1, 2) ? 1 + r.range(0, cap) : 0; o.b = r.range(0, 3);
                if (!heap && r.oneIn(8)) o.b += 16 * (1 + r.range(0, cap));
                auto &x = c.lanes[r.below(c.lanes.size())].ops;
                x.insert(x.begin() + (r.chance(3, 4) ? 0 : r.below(x.size() + 1)), o);
            }
            if (ab) insert("abort", 0, 0);
            if (!heap && r.chance(1, 2)) { insert("flush", flushThrow(), 0); }
        }
        if (p == 9) {
            insert("abort", 0, 0);
            for (int k = (int)r.range(0, 2); k > 0; k--) { bool f = r.chance(2, 3); insert(f ? "flush" : "abort", f ? flushThrow() : 0, 0); }
        }
        if (heap && c.get("prime")) { // every other operation waits for priming
            for (auto &l : c.lanes) {
                bool hasPrime = false;
                for (auto &o : l.ops) if (o.code == "prime") hasPrime = true;
                std::vector<sim::Op> w;
                sim::Op o;
                if (hasPrime) { o.code = "prime"; w.push_back(o); } else { o.code = "sleep"; o.a = 1000; w.push_back(o); }
                for (auto &x : l.ops) if (x.code != "prime") w.push_back(x);
                l.ops = w;
            }
        }
        if (!heap && r.oneIn(4)) c.set("flushThrow", r.range(1, 4));
        if (!c.get("prime")) genAge(c, r, p != 6 && !heap);
        numberOps(c);
    }

    static IRing *make(const Case &c) {
        size_t n = size_t(c.get("req"));
        bool pr = c.get("prime") || c.get("big");
        switch (c.get("type")) {
        case 0: return new RingOf<char>(n, pr);
        case 1: return new RingOf<int>(n, pr);
        case 2: return new RingOf<uint64_t>(n, pr);
        case 3: return new RingOf<double>(n, pr);
        case 4: return new RingOf<const char *>(n, pr);
        default: return new RingOf<void *>(n, pr);
        }
    }
    void main(const Case &c) override {
        { Off o; delete g; g = new G; g->c = &c; }
        if (c.get("payload")) { payload(c); return; }
        g->ring = make(c);
        int64_t size = int64_t(g->ring->size());
        int64_t req = c.get("req");
        g->cap = req == 0 || req > size ? size : req;
        if (c.get("big")) {
            g->quick = true;
            outcome([] { g->ring->prime(primeValue); }, "prime");
            g->quick = false;
        }
        if (int64_t age = c.get("age")) {
            Lane l;
            {
                Off o;
                sim::Op x;
                for (int64_t k = 0; k < age; k++) { x.code = "put"; x.a = 1 + k % 100; l.ops.push_back(x); x.code = "get"; l.ops.push_back(x); }
            }
            lane(l);
            Off o;
            std::vector<lin::Op> t;
            for (auto &y : g->h.ops) if (y.kind == lin::GET) t.push_back(y);
            for (size_t k = 0; k < t.size(); k++) if (t[k].res != lin::R_OK || t[k].a != 1 + int64_t(k) % 100) sim::violate("ring.lin", true, "use %zu by a single thread: get returned %lld", k, (long long)t[k].a);
            g->h.ops.clear();
        }
        heapPhaseBegin(c);
        spawnAll(c, lane);
        sim::waitQuiescent();
        heapPhaseEnd(c);
        g->h.mark();
        sim::beginOp(60000);
        bool blocked = !sim::allFinished();
        if (int64_t mode = c.get("destroy")) {
            { Off o; g->closing = true; if (blocked) { sim::probe(P_DESTROY_BLOCKED); sim::countFault(sim::FK_DESTROY); } }
            if (mode == 2) outcome([] { g->ring->abort(); }, "abort");
            if (mode == 3 && blocked) { // wake one caller and destroy at once
                // only calls that cannot block the destroying thread itself
                bool taker = false, safe = false;
                {
                    Off o;
                    for (auto &x : g->h.ops) if (x.ret == lin::INF) { taker = x.kind == lin::GET; break; }
                    int64_t left = 0;
                    for (auto &l : c.lanes) for (auto &x : l.ops) if (x.code == (taker ? "put" : "get")) left++;
                    for (auto &x : g->h.ops) if (x.kind == (taker ? lin::PUT : lin::GET)) left--;
                    safe = left + 1 <= g->cap;
                }
                if (safe && taker) outcome([] { g->ring->put(100); }, "put");
                else if (safe) outcome([] { g->ring->get(); }, "get");
            }
            delete g->ring;
            { Off o; g->ring = nullptr; }
            sim::waitQuiescent();
            Off o;
            if (!sim::allFinished()) sim::violate("ring.destroy", true, "a caller stays blocked in a destroyed ring buffer");
            return;
        }
        if (c.get("soak")) {
            { Off o; if (blocked) sim::violate("ring.stuck", true, "as many puts as gets did not all complete"); }
            delete g->ring;
            return;
        }
        if (c.get("big")) {
            Off o;
            if (blocked) sim::violate("ring.stuck", true, "a put into the full buffer did not proceed after a get");
            uint64_t putRet = 0, getInv = 0;
            for (auto &x : g->h.ops) { if (x.kind == lin::PUT) putRet = x.ret; else getInv = x.inv; }
            if (putRet < getInv) sim::violate("ring.cap", true, "a put into the full buffer did not wait");
        } else if (blocked) { Off o; linNow(); sim::probe(P_ABORT_WITH_WAITERS); }
        // end of the run: abort, everybody leaves, the remainder is handed back
        doAbort(0);
        sim::waitQuiescent();
        { Off o; if (!sim::allFinished()) sim::violate("ring.abort", true, "a caller stays blocked after abort returned"); }
        if (!c.get("big")) {
            int64_t v = 0;
            size_t i = g->h.begin(0, lin::GET);
            int64_t r = outcome([&] { v = g->ring->get(); }, "get");
            { Off o; g->h.ops[i].a = v; }
            g->h.end(i, r);
            if (r == lin::R_OK) { Off o; sim::violate("ring.abort", true, "get returned a value after abort"); }
            i = g->h.begin(0, lin::PUT, 119);
            r = outcome([&] { return g->ring->put(119); }, "put");
            g->h.end(i, r);
            doFlush(0, c.get("flushThrow"));
            doFlush(0);
            doFlush(0);
        }
        if (c.get("big")) {
            size_t n = 0;
            { Off o; g->lists.emplace_back(); g->sinkTo = &g->lists.back(); }
            outcome([] { g->ring->flush(sink); }, "flush");
            { Off o; n = g->sinkTo->size(); if (int64_t(n) != g->cap) sim::violate("ring.flush", true, "flush handed back %zu of %lld elements", n, (long long)g->cap); }
        }
        delete g->ring;
        { Off o; g->ring = nullptr; }
    }
    void payload(const Case &c) {
        g->pool = new Payload[c.get("n")];
        g->pr = new RR::RingBufferGuarded<const Payload *>(size_t(c.get("req")));
        heapPhaseBegin(c);
        spawnAll(c, lane);
        sim::waitQuiescent();
        heapPhaseEnd(c);
        sim::beginOp(60000);
        g->pr->abort();
        sim::waitQuiescent();
        { Off o; if (!sim::allFinished()) sim::violate("ring.abort", true, "a caller stays blocked after abort returned"); }
        delete g->pr;
        delete[] g->pool;
    }
    bool checked = false;
    // Checks the history up to the quiescent point, or the whole one.
    void linNow(bool whole = false) {
        checked = true;
        int p = prof(*g->c);
        auto ops = whole ? g->h.ops : g->h.upToMark();
        if (p == 8) {
            std::vector<lin::Op> t;
            for (auto &x : ops) if (x.kind != lin::FLUSH && x.kind != lin::PRIME) t.push_back(x);
            std::string why;
            lin::RingCountModel m(g->cap);
            lin::Verdict v = lin::check(m, t, 200000, why);
            if (v == lin::NOT_LINEARIZABLE) sim::violate("ring.cap", true, "%s", why.c_str());
            if (v == lin::STUCK) sim::violate("ring.stuck", true, "%s", why.c_str());
            if (v == lin::CAPPED) sim::linCapped();
            return;
        }
        lin::RingModel m(p == 7 ? int64_t(1) << 40 : g->cap, g->c->get("prime"));
        m.primeCount = g->cap;
        m.flushes = g->lists;
        if (p == 7) { // order only: blocked calls are C08's business
            std::vector<lin::Op> t;
            for (auto &x : ops) if (x.ret != lin::INF) t.push_back(x);
            ops = t;
        }
        linCheck("ring", m, ops);
    }
    void check(const Case &c) override {
        if (c.get("soak") || c.get("big") || c.get("destroy") || c.get("payload")) {
            if (c.get("destroy"))
                for (auto &x : g->h.ops)
                    if (x.ret == lin::INF) sim::violate("ring.destroy", true, "a caller never left the destroyed ring buffer");
            return;
        }
        linNow(true);
    }
};
} // namespace
sim::Scenario *makeRing() { return new RingScenario; }

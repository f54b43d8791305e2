// Scenario: one Semaphore shared by several threads.  Properties C01-C06.
#include "scn.hpp"
#include "Semaphore.hpp"
#include <limits>

namespace {
struct CbRec { int lane; int op; uint64_t start, end; };
struct G {
    Case const *c = nullptr;
    RR::Semaphore *sem = nullptr;
    Hist h;
    std::vector<CbRec> cbs;
    int inCb = 0;
    bool countless = false, narrow = false;
    volatile int *shared = nullptr;
    bool closing = false;      // the semaphore is being destroyed: no new calls
};
G *g;

int64_t effInit(int64_t i) { return uint64_t(i) > 0xFFFFFFFFull ? 0xFFFFFFFFll : i; }
int64_t effMax(int64_t i, int64_t m) {
    int64_t ci = effInit(i);
    if (m == 0) return 0xFFFFFFFFll;
    if (uint64_t(m) > 0xFFFFFFFFull) return 0xFFFFFFFFll;
    return m < ci ? ci : m;
}
// Model without counting: only what abort may and must do.
struct AbortModel : lin::SemModel {
    AbortModel() : SemModel(0, 0) {}
    bool step(lin::State &s, const lin::Op &o, int) const override {
        if (o.kind == lin::ABORT) { s[1] = 1; return true; }
        if (o.kind == lin::COUNT) return true;
        if (o.res == lin::R_ABORTED) return s[1];
        return !s[1];
    }
    bool enabled(const lin::State &s, const lin::Op &) const override { return s[1]; }
};

// The callback handed to take/give.
void callback(int lane, const sim::Op &op, int &runs, int mode, int pts) {
    size_t i;
    {
        Off o;
        if (g->inCb) sim::violate("sem.cb", true, "two callbacks of one semaphore run at the same time");
        g->inCb++;
        runs++;
        g->cbs.push_back({lane, op.id, sim::tick(), 0});
        i = g->cbs.size() - 1;
    }
    for (int k = 0; k < pts; k++) sim::point();
    {
        Off o;
        g->inCb--;
        g->cbs[i].end = sim::tick();
    }
    if (mode == 1) {
        {
            Off o;
            sim::countFault(sim::FK_THROW);
            for (auto &x : g->c->lanes) if (sim::blockKind(x.id) == sim::BK_COND) { sim::probe(P_THROW_WHILE_WAITERS); break; }
        }
        throwUser(op.id);
    }
}

void lane(const Lane &l) {
    for (auto &op : l.ops) {
        { Off o; if (g->closing) return; }
        sim::beginOp(op.id);
        const char *k = op.code.c_str();
        if (!strcmp(k, "sleep")) { sim::sleepUs(op.a); continue; }
        if (!strcmp(k, "abort")) {
            size_t i = g->h.begin(l.id, lin::ABORT);
            { Off o; sim::countFault(sim::FK_ABORT); }
            g->sem->abort();
            g->h.end(i, 0);
            continue;
        }
        if (!strcmp(k, "count")) {
            size_t i = g->h.begin(l.id, lin::COUNT);
            size_t v = g->sem->getAvailableCount();
            g->h.end(i, (int64_t)v);
            continue;
        }
        if (!strcmp(k, "crit")) {
            size_t i = g->h.begin(l.id, lin::TAKE);
            g->sem->take();
            g->h.end(i, 0);
            *g->shared = *g->shared + 1;
            i = g->h.begin(l.id, lin::GIVE);
            g->sem->give();
            g->h.end(i, 0);
            continue;
        }
        bool take = k[0] == 't';
        bool fn = k[strlen(k) - 1] == 'f';
        int runs = 0, mode = (int)op.a, pts = (int)op.b;
        auto body = [&l, &op, &runs, mode, pts]() { callback(l.id, op, runs, mode, pts); };
        std::function<void()> f;
        { Off o; Captured big; auto *b = &body; if (fn && mode != 2) f = [b, big] { big.use(); (*b)(); }; }
        size_t i = g->h.begin(l.id, take ? lin::TAKE : lin::GIVE, op.id);
        uint64_t b0 = sim::blockedCountSelf();
        int res = lin::R_OK;
        int gotErr = 0;
        try {
            if (take) { if (fn) g->sem->take(f); else g->sem->take(); }
            else { if (fn) g->sem->give(f); else g->sem->give(); }
        } catch (const UserError &e) { res = lin::R_EXC; gotErr = e.n; }
        catch (const RR::SemaphoreAborted &) { res = lin::R_ABORTED; }
        catch (const RR::SemaphoreOverflow &) { res = lin::R_OVERFLOW; sim::probe(P_OVERFLOW); }
        catch (const std::bad_function_call &) { res = lin::R_EXC; gotErr = -1; }
        catch (...) { res = lin::R_ERR; }
        g->h.end(i, res);
        {
            Off o;
            if (sim::blockedCountSelf() != b0) sim::probe(take ? P_BLOCKED_TAKE : P_BLOCKED_GIVE);
            if (res == lin::R_ERR) sim::violate("sem.lin", true, "an undocumented exception left a semaphore operation");
            if (fn) {
                int want = (res == lin::R_OK || (res == lin::R_EXC && mode == 1)) ? 1 : 0;
                if (runs != want)
                    sim::violate("sem.cb", true, "callback of a %s that ended with outcome %d ran %d times", take ? "take" : "give", res, runs);
                if (mode == 1 && res == lin::R_OK) sim::violate("sem.cb", true, "an exception thrown by the callback did not reach the caller");
                if (mode == 2 && res == lin::R_OK) sim::violate("sem.cb", true, "an empty callback was accepted");
                if (res == lin::R_EXC && mode == 1 && gotErr != op.id) sim::violate("sem.cb", true, "the caller received an exception of another callback");
                if (res == lin::R_EXC && mode == 0) sim::violate("sem.cb", true, "the caller received an exception although its callback did not throw");
            } else if (res == lin::R_EXC) sim::violate("sem.cb", true, "the caller received an exception of another caller's callback");
        }
    }
}

struct SemScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        int p = atoi(c.prop.c_str() + 1);
        const int safe[] = {1, 1, 4};
        if (p == 25) p = r.pick(safe);
        if (p == 27) p = (int)r.range(1, 6);
        c.set("prof", p);
        bool heap = has(c, "C25");
        bool dest = (prof(c) == 6);
        genSched(c, r, dest);
        int64_t init = r.range(0, 3), max = r.chance(1, 3) ? 0 : r.range(1, 4);
        if ((prof(c) == 2) && r.chance(1, 2)) { init = 0; max = r.chance(1, 2) ? 1 : 0; }
        if ((prof(c) == 1) && r.oneIn(20)) { const int64_t big[] = {255, 256, 257, 65535, 65536, 70000, 4294967290ll}; init = r.pick(big); if (r.chance(1, 2)) max = init + r.range(0, 2); }
        else if (p <= 5 && !has(c, "C25") && r.oneIn(40)) { init = r.range(5, 70); max = r.oneIn(3) ? 0 : init + r.range(0, 2); }
        if ((prof(c) == 4)) {
            const int64_t i[] = {0, 1, 2, 3, 5, 254, 255, 65534, 65535, 65536, 0x7FFFFFFF, 0xFFFFFFFDll, 0xFFFFFFFEll, 0xFFFFFFFFll, 0x100000000ll, 0x100000001ll, 0x7FFFFFFFFFFFFFFFll, -1};
            const int64_t m[] = {0, 1, 2, 3, 255, 256, 65535, 65536, 0x80000000ll, 0xFFFFFFFEll, 0xFFFFFFFFll, 0x100000000ll, 0x100000001ll, 0x7FFFFFFFFFFFFFFFll, -1};
            init = r.chance(1, 2) ? r.range(0, 2) : r.pick(i);
            max = r.chance(1, 2) ? r.range(0, 3) : r.pick(m);
            if (r.chance(1, 3)) max = effInit(init) + r.range(0, 1);
        }
        c.set("init", init);
        c.set("max", max);
        genAge(c, r, p != 6 && !heap);
        int lanes = (int)r.range(2, (prof(c) == 2) ? 6 : 5);
        bool many = ((prof(c) == 5) || (prof(c) == 2) || (prof(c) == 1)) && r.oneIn(100), lots = many && r.chance(1, 2);
        int abortRate = (prof(c) == 5) ? 100 : (prof(c) == 3) ? 30 : ((prof(c) == 4) && !heap && r.oneIn(4)) ? 100 : 0;
        int throwRate = (prof(c) == 2) || (prof(c) == 3) ? 35 : 0;
        int fnRate = (prof(c) == 3) ? 80 : (prof(c) == 2) ? 60 : 35;
        int takeBias = (int)r.range(25, 75);
        if (dest) { c.set("destroy", r.range(1, 3)); c.set("gives", r.chance(1, 2) ? 0 : r.range(1, 2)); c.set("init", r.range(0, 1)); c.set("max", r.chance(1, 2) ? 1 : 0); }
        if (p == 1 && r.oneIn(heap ? 5 : 12)) { // the semaphore as a lock: what it guards needs no other synchronisation
            c.set("init", 1);
            c.set("max", r.range(0, 1));
            c.set("crit", 1);
            for (int i = 0; i < lanes; i++) {
                Lane l; sim::Op o;
                o.code = "crit";
                for (int k = (int)r.range(1, 4); k > 0; k--) l.ops.push_back(o);
                c.lanes.push_back(l);
            }
            numberOps(c);
            return;
        }
        if (many) {
            lanes = lots ? (int)r.range(257, 330) : (int)r.range(7, 70);
            c.sched.races = 0; c.sched.plainGap = 0; c.sched.stepCap = 4000000;
            bool g = r.chance(1, 2);
            c.set("init", g ? 1 : 0);
            c.set("max", g ? 1 : 0);
            int shape = (prof(c) == 5) ? 0 : 1;
            for (int i = 0; i < lanes; i++) {
                Lane l; sim::Op o;
                if (i >= lanes - 2 && shape == 0) { o.code = "sleep"; o.a = 1000; l.ops.push_back(o); o.code = "abort"; o.a = 0; l.ops.push_back(o); }
                else if (shape == 1 && i == lanes - 1) {
                    o.code = "sleep"; o.a = 1000; l.ops.push_back(o); o.a = 0;
                    o.code = g ? "take" : "give";
                    int n = r.chance(1, 2) ? lanes - 1 : (int)r.range(1, lanes);
                    for (int k = 0; k < n; k++) l.ops.push_back(o);
                } else { o.code = g ? "give" : "take"; l.ops.push_back(o); }
                c.lanes.push_back(l);
            }
            numberOps(c);
            return;
        }
        bool anyAbort = false;
        for (int i = 0; i < lanes; i++) {
            Lane l;
            int n = (int)r.range(1, dest ? 2 : 6);
            for (int k = 0; k < n; k++) {
                sim::Op o;
                bool fn = r.chance(fnRate, 100);
                if ((prof(c) == 1) || (prof(c) == 4) ? r.oneIn(6) : r.oneIn(15)) o.code = "count";
                else if (r.chance(abortRate, 100) && !anyAbort && r.chance(1, lanes)) { o.code = "abort"; anyAbort = !r.oneIn(4); }
                else {
                    o.code = r.chance(takeBias, 100) ? "take" : "give";
                    if (fn) {
                        o.code += "f";
                        o.b = r.range(0, 3);
                        if (r.chance(throwRate, 100)) o.a = r.oneIn(6) ? 2 : 1;
                    }
                }
                l.ops.push_back(o);
            }
            c.lanes.push_back(l);
        }
        if ((prof(c) == 5) && !anyAbort) { sim::Op o; o.code = "abort"; auto &v = c.lanes[r.below(lanes)].ops; v.insert(v.begin() + r.below(v.size() + 1), o); }
        numberOps(c);
    }

    void main(const Case &c) override {
        { Off o; delete g; g = new G; g->c = &c; g->countless = (prof(c) == 5); g->narrow = (prof(c) == 3); }
        g->sem = new RR::Semaphore{size_t(c.get("init")), size_t(c.get("max"))};
        g->shared = new int(0);
        if (int64_t age = c.get("age")) {
            Lane l;
            {
                Off o;
                sim::Op x;
                bool take = effInit(c.get("init")) > 0;
                for (int64_t k = 0; k < 2 * age; k++, take = !take) { x.code = take ? "take" : "give"; if (k % 5 == 0) x.code += "f"; l.ops.push_back(x); }
            }
            lane(l);
            Off o;
            g->h.ops.clear();
            g->cbs.clear();
        }
        heapPhaseBegin(c);
        spawnAll(c, lane);
        sim::waitQuiescent();
        heapPhaseEnd(c);
        g->h.mark();
        sim::beginOp(60000);
        if (c.get("crit")) {
            int n = *g->shared, want = 0;
            { Off o; for (auto &l : c.lanes) want += (int)l.ops.size(); }
            if (n != want && sim::allFinished()) sim::violate("sem.lin", true, "%d increments guarded by the semaphore left the value %d", want, n);
        }
        delete g->shared;
        int64_t mode = c.get("destroy");
        bool blocked = !sim::allFinished();
        if (mode) {
            { Off o; g->closing = true; if (blocked) { sim::probe(P_DESTROY_BLOCKED); sim::countFault(sim::FK_DESTROY); } }
            for (int64_t k = 0; k < c.get("gives"); k++) {
                // only gives that cannot block the destroyer
                if (c.get("max") == 0) { try { g->sem->give(); } catch (...) {} }
            }
            if (mode == 2) g->sem->abort();
            delete g->sem;
            { Off o; g->sem = nullptr; }
            sim::waitQuiescent();
            Off o;
            if (!sim::allFinished()) sim::violate("sem.destroy", true, "a caller stays blocked in a destroyed semaphore");
            return;
        }
        { Off o; if (blocked) { linNow(); sim::probe(P_ABORT_WITH_WAITERS); } }
        g->sem->abort();
        sim::waitQuiescent();
        { Off o; if (!sim::allFinished()) sim::violate("sem.abort", true, "a caller stays blocked after abort returned"); }
        // after abort everything fails
        bool took = false, gave = false;
        try { g->sem->take(); took = true; } catch (const RR::SemaphoreAborted &) {} catch (...) { took = true; }
        try { g->sem->give(); gave = true; } catch (const RR::SemaphoreAborted &) {} catch (...) { gave = true; }
        { Off o; if (took || gave) sim::violate("sem.abort", true, "%s after abort did not fail with the aborted error", took ? "take" : "give"); }
        delete g->sem;
    }
    bool checked = false;
    void linNow() {
        checked = true;
        const Case &c = *g->c;
        auto ops = g->h.upToMark();
        if (g->countless) { linCheck("sem", AbortModel(), ops); return; }
        lin::SemModel m(effInit(c.get("init")), effMax(c.get("init"), c.get("max")));
        if (g->narrow) {
            auto t = ops;
            for (auto &x : t)
                for (auto &b : g->cbs)
                    if (x.a == b.op && (x.kind == lin::TAKE || x.kind == lin::GIVE) && x.ret != lin::INF && b.end) { x.inv = b.start; x.ret = b.end; }
            linCheck("sem", m, ops);
            std::string why;
            if (lin::check(m, t, 200000, why) == lin::NOT_LINEARIZABLE)
                sim::violate("sem.cb", true, "the effect of an operation is not atomic with its callback: %s", why.c_str());
            return;
        }
        linCheck("sem", m, ops);
    }
    void check(const Case &c) override {
        if (c.get("destroy")) {
            int64_t okAfter = 0;
            for (auto &x : g->h.ops)
                if (x.inv < g->h.endTick && x.ret > g->h.endTick) {
                    if (x.res == lin::R_OK) okAfter++;
                    else if (x.res != lin::R_ABORTED && x.kind != lin::ABORT && x.res != lin::R_EXC) sim::violate("sem.destroy", true, "a blocked caller left with outcome %lld", (long long)x.res);
                }
            (void)okAfter;
            return;
        }
        if (!checked) linNow();
    }
};
} // namespace
sim::Scenario *makeSem() { return new SemScenario; }

// Scenario: Mutex used directly by several threads, with operating-system errors injected.  C23 (and C27).
#include "scn.hpp"
#include "Mutex.hpp"
#include <cerrno>
#include <mutex>
#include <system_error>

namespace {
struct G {
    Case const *c = nullptr;
    RR::Mutex *mx[3] = {};
    int holder[3] = {};            // harness view of the owner
    volatile int *shared[3] = {};  // guarded by the mutexes alone
    int adds[3] = {};
    Hist h[3];
    int sysErrs = 0;
};
G *g;
enum { LOCK, TRY, UNLOCK };
enum { OK = 0, BUSY = 1, ERR = 2 };
struct MutexModel : lin::Model {
    lin::State init() const override { return {0}; }
    bool step(lin::State &s, const lin::Op &o, int) const override {
        if (o.res == ERR) return true;
        switch (o.kind) {
        case LOCK: if (s[0]) return false; s[0] = o.lane + 1; return true;
        case TRY: if (o.res == BUSY) return s[0] != 0; if (s[0]) return false; s[0] = o.lane + 1; return true;
        default: if (s[0] != o.lane + 1) return false; s[0] = 0; return true;
        }
    }
    bool enabled(const lin::State &s, const lin::Op &o) const override { return o.kind != LOCK || !s[0]; }
    const char *name(int k) const override { const char *n[] = {"lock", "try_lock", "unlock"}; return n[k]; }
};
void *native(int m) { return (void *)g->mx[m]->native_handle(); }

// One call.  Returns OK, BUSY or ERR; err != 0 is the code the operating system will answer with.
int call(const Lane &l, int m, int kind, int err) {
    int before;
    uint64_t blocked0;
    { Off o; before = sim::mutexOwner(native(m)); blocked0 = sim::blockedCountSelf(); if (err) sim::mutexErrorNext(err, kind == LOCK ? sim::MX_LOCK : kind == TRY ? sim::MX_TRYLOCK : sim::MX_UNLOCK); }
    size_t i = g->h[m].begin(l.id, kind, m);
    int res = OK, code = 0;
    bool other = false;
    try {
        if (kind == LOCK) g->mx[m]->lock();
        else if (kind == TRY) { if (!g->mx[m]->try_lock()) res = BUSY; }
        else g->mx[m]->unlock();
    } catch (const std::system_error &e) {
        res = ERR;
        code = e.code().value();
        if (e.code().category() != std::system_category() && e.code().category() != std::generic_category()) code = -1;
    } catch (...) { res = ERR; other = true; }
    g->h[m].end(i, res);
    Off o;
    if (sim::mutexErrorPending()) err = 0; // the operating system was not asked
    sim::mutexErrorNext(0, sim::MX_LOCK);
    const char *n[] = {"lock", "try_lock", "unlock"};
    if (other) sim::violate("mutex", true, "%s failed with something other than a system error", n[kind]);
    if (err && res != ERR) sim::violate("mutex", true, "%s reported success although the operating system answered with error %d", n[kind], err);
    if (err && code != err) sim::violate("mutex", true, "%s reported error %d instead of %d", n[kind], code, err);
    if (!err && res == ERR) sim::violate("mutex", true, "%s failed (error %d) without any error of the operating system", n[kind], code);
    int owner = sim::mutexOwner(native(m)), me = sim::self();
    if (kind == TRY && sim::blockedCountSelf() != blocked0) sim::violate("mutex", true, "try_lock blocked its caller");
    if (res == ERR && (owner == me) != (before == me)) sim::violate("mutex", true, "a failed %s changed the owner of the mutex", n[kind]);
    if (kind != UNLOCK && res == OK) {
        if (g->holder[m]) sim::violate("mutex", true, "thread %d and thread %d own the mutex at the same time", g->holder[m], l.id);
        g->holder[m] = l.id;
        if (owner != me) sim::violate("mutex", true, "%s returned although the caller does not own the mutex", n[kind]);
    }
    if (kind == TRY && res == BUSY) {
        sim::probe(P_TRYLOCK_BUSY);
        if (owner == me && before != me) sim::violate("mutex", true, "try_lock reported failure but took the mutex");
    }
    if (kind == UNLOCK && res == OK && owner == me) sim::violate("mutex", true, "unlock returned but the caller still owns the mutex");
    if (err && res == ERR) g->sysErrs++;
    return res;
}
void work(const Lane &l, int m, int pts) {
    *g->shared[m] = *g->shared[m] + 1;
    for (int k = 0; k < pts; k++) {
        sim::point();
        Off o;
        if (g->holder[m] != l.id) sim::violate("mutex", true, "another thread entered the mutex of thread %d", l.id);
    }
    Off o;
    g->adds[m]++;
}
void release(const Lane &l, int m, int err) {
    if (err) call(l, m, UNLOCK, err);       // fails; still owned
    { Off o; g->holder[m] = 0; }
    call(l, m, UNLOCK, 0);
}
// std::lock_guard and std::unique_lock work on the mutex itself; nothing is injected there.
struct Track {
    const Lane &l; int m; size_t i = 0;
    Track(const Lane &ll, int mm, int kind) : l(ll), m(mm) { i = g->h[m].begin(l.id, kind, m); }
    void got() {
        g->h[m].end(i, OK);
        Off o;
        if (g->holder[m]) sim::violate("mutex", true, "thread %d and thread %d own the mutex at the same time", g->holder[m], l.id);
        g->holder[m] = l.id;
    }
    void leave() { Off o; g->holder[m] = 0; i = g->h[m].begin(l.id, UNLOCK, m); }
    void left() { g->h[m].end(i, OK); }
};
void lane(const Lane &l) {
    for (auto &op : l.ops) {
        sim::beginOp(op.id);
        const char *k = op.code.c_str();
        int m = (int)op.a, pts = (int)op.b;
        int e1 = (int)op.c, e2 = (int)op.d;
        if (!strcmp(k, "sleep")) { sim::sleepUs(op.b); continue; }
        if (!strcmp(k, "lock")) {
            int r = call(l, m, LOCK, e1);
            if (r == ERR && e1) r = call(l, m, LOCK, 0);
            if (r == OK) {
                work(l, m, pts);
                release(l, m, e2);
            }
        } else if (!strcmp(k, "try")) {
            int r = call(l, m, TRY, e1);
            if (r == OK) {
                work(l, m, pts);
                release(l, m, e2);
            }
        } else if (!strcmp(k, "both")) {    // a second mutex while holding the first (always in ascending order)
            int m2 = m + 1;
            if (call(l, m, LOCK, e1) == OK) {
                work(l, m, pts);
                int r = call(l, m2, e2 ? TRY : LOCK, 0);
                if (r == OK) { work(l, m2, pts); release(l, m2, 0); }
                int t = call(l, m, TRY, 0);  // owned by ourselves
                if (t == OK) { Off o; sim::violate("mutex", true, "try_lock succeeded on a mutex the caller already owns"); }
                release(l, m, 0);
            }
        } else if (!strcmp(k, "guard")) {
            Track t(l, m, LOCK);
            {
                std::lock_guard<RR::Mutex> lk{*g->mx[m]};
                t.got();
                work(l, m, pts);
                t.leave();
            }
            t.left();
        } else if (!strcmp(k, "uniq")) {
            std::unique_lock<RR::Mutex> lk{*g->mx[m], std::defer_lock};
            for (int i = 0; i < 2; i++) {
                Track t(l, m, LOCK);
                lk.lock();
                t.got();
                work(l, m, pts);
                t.leave();
                lk.unlock();
                t.left();
            }
        } else if (!strcmp(k, "uguard")) {  // the error leaves a scoped lock's constructor
            bool threw = false;
            { Off o; sim::mutexErrorNext(e1 ? e1 : EAGAIN, sim::MX_LOCK); }
            size_t i = g->h[m].begin(l.id, LOCK, m), j = 0;
            try {
                std::unique_lock<RR::Mutex> lk{*g->mx[m]};
                g->h[m].end(i, OK);
                j = g->h[m].begin(l.id, UNLOCK, m);
            } catch (const std::system_error &e) { threw = e.code().value() == (e1 ? e1 : EAGAIN); } catch (...) {}
            if (j) g->h[m].end(j, OK); else g->h[m].end(i, ERR);
            Off o;
            bool told = !sim::mutexErrorPending();
            sim::mutexErrorNext(0, sim::MX_LOCK);
            if (told && !threw) sim::violate("mutex", true, "a scoped lock was obtained although the operating system answered with error %d", e1 ? e1 : EAGAIN);
            if (threw && sim::mutexOwner(native(m)) == sim::self()) sim::violate("mutex", true, "a failed lock changed the owner of the mutex");
        }
    }
}
struct MutexScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        int p = atoi(c.prop.c_str() + 1);
        c.set("prof", 23);
        bool errs = p == 23 && r.chance(2, 3);
        genSched(c, r, false);
        int nm = (int)r.range(1, 3);
        c.set("mutexes", nm);
        const int ec[] = {EINVAL, EAGAIN, EDEADLK, EPERM, ENOMEM, EOWNERDEAD, ENOTRECOVERABLE, ETIMEDOUT, EINTR, EBUSY, 4095};
        int lanes = (int)r.range(2, 5);
        for (int i = 0; i < lanes; i++) {
            Lane l;
            for (int k = (int)r.range(1, 7); k > 0; k--) {
                sim::Op o;
                o.a = r.range(0, nm - 1);
                o.b = r.range(0, 3);
                int w = (int)r.below(100);
                if (w < 35) o.code = "lock";
                else if (w < 65) o.code = "try";
                else if (w < 75) o.code = "guard";
                else if (w < 82) o.code = "uniq";
                else if (w < 92 && nm > 1) { o.code = "both"; o.a = r.range(0, nm - 2); o.d = r.chance(1, 3); }
                else if (w < 96) { o.code = "sleep"; o.b = r.range(1, 50); }
                else if (errs) { o.code = "uguard"; o.c = r.pick(ec); }
                else o.code = "lock";
                if (errs && (o.code == "lock" || o.code == "try")) {
                    if (r.oneIn(3)) { do o.c = r.pick(ec); while (o.code == "try" && o.c == EBUSY); }
                    if (r.oneIn(3)) o.d = r.pick(ec);
                }
                if (errs && o.code == "both" && r.oneIn(5)) o.c = r.pick(ec);
                l.ops.push_back(o);
            }
            c.lanes.push_back(l);
        }
        numberOps(c);
    }
    void main(const Case &c) override {
        { Off o; delete g; g = new G; g->c = &c; }
        int nm = (int)c.get("mutexes");
        for (int i = 0; i < nm; i++) { g->mx[i] = new RR::Mutex; g->shared[i] = new int(0); }
        heapPhaseBegin(c);
        spawnAll(c, lane);
        sim::waitQuiescent();
        heapPhaseEnd(c);
        for (int i = 0; i < nm; i++) g->h[i].mark();
        {
            Off o;
            if (!sim::allFinished()) { sim::violate("mutex", true, "a thread stays blocked in lock although nothing can happen any more"); }
        }
        for (int i = 0; i < nm; i++) {
            int n = *g->shared[i];
            Off o;
            if (n != g->adds[i]) sim::violate("mutex", true, "%d increments under the mutex left the value %d", g->adds[i], n);
        }
        for (int i = 0; i < nm; i++) { delete g->shared[i]; delete g->mx[i]; }
    }
    void check(const Case &c) override {
        for (int i = 0; i < (int)c.get("mutexes"); i++) linCheck("mutex", MutexModel(), g->h[i].ops);
    }
};
} // namespace
sim::Scenario *makeMutex() { return new MutexScenario; }

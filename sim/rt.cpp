// Deterministic simulator runtime.  See rt.hpp.  This file is compiled WITHOUT instrumentation.
#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <thread>
#include <unordered_map>
#include <vector>

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_memset(void *, int, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__cxa_get_globals(void);
extern char __executable_start, etext, __data_start, _end;
}
#define HIDDEN_NOINLINE __attribute__((noinline))

namespace sim {

const char *const faultNames[FK_N] = {"preemption_at_sync_point", "preemption_at_plain_access", "spurious_wakeup",
    "reordered_wakeup", "weak_cas_failure", "thread_stall", "allocation_failure", "mutex_call_error",
    "user_code_throw", "abort", "destroy_with_callers", "timer_fired", "thread_setup_error", "delayed_store"};

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// ====================================================================== memory layout
static char *const HEAP = (char *)0x100000000000ull;
static const size_t HEAP_SIZE = 512ull << 20;
struct Slot { uint32_t clock; uint16_t fid; uint8_t mask; uint8_t fl; }; // fl: 1 write, 2 atomic
static uint8_t *const ST = (uint8_t *)0x110000000000ull;      // byte state per granule
static Slot *const RS = (Slot *)0x120000000000ull;            // 4 race slots per granule (heap)
static uint32_t *const SV = (uint32_t *)0x130000000000ull;    // sync variable index per granule (heap)
static Slot *const GRS = (Slot *)0x140000000000ull;           // race slots for .data/.bss
static uint32_t *const GSV = (uint32_t *)0x150000000000ull;
static char *const STACKS = (char *)0x160000000000ull;
static const size_t STACK_SIZE = 1 << 20;
static const int MAXF = 1200;
static uintptr_t gLo, gHi; // .data/.bss

enum : uint8_t { S_OK = 0, S_RED = 0xFA, S_FREED = 0xFD, S_NEVER = 0xFE, S_PROT = 0x40 }; // 1..7 partial
using VC = std::vector<uint32_t>;

enum FState { F_READY, F_MUTEX, F_COND, F_SLEEP, F_QUIESCE, F_JOIN, F_DONE, F_RW };
// An atomic store weaker than sequentially consistent, in the store buffer of the thread's processor.
struct Delayed { uintptr_t a; uint8_t n; unsigned char v[16]; VC vc; int left; };
static void drainSlow(size_t k = ~size_t(0));
struct Fiber {
    int id = 0;
    void *sp = nullptr;
    char *stack = nullptr;
    FState st = F_READY;
    int off = 0;
    int user = 0;
    int op = 0;
    uint32_t step = 0;
    uint64_t cxa[2] = {0, 0};
    int err = 0;
    std::vector<char> tls;
    std::vector<std::pair<void (*)(void *), void *>> atExit; // destructors of thread_local variables
    int64_t wake = -1;       // virtual time (us), -1 none
    void *obj = nullptr;     // mutex/cond blocked on
    bool woken = false, timedOut = false;
    int joinFid = -1;
    int prio = 0;
    int64_t pctPrio = 0;
    VC vc;
    int mxErr = 0, mxErrKind = 0;
    int64_t failAfter = -1;
    int64_t myAttempts = 0;
    int64_t osFailAfter = -1, osAttempts = 0; int osErr = 0;
    bool lastLockBlocked = false;
    uint64_t blocked = 0;
    void (*fn)(const Lane &) = nullptr;
    const Lane *lane = nullptr;
    void *(*start)(void *) = nullptr;    // a thread created by the code under test
    void *arg = nullptr, *ret = nullptr;
    bool joined = false, detached = false;
    bool frozen = false;     // ST_PAUSE
    VC fenceRel, pendAcq;    // atomic_thread_fence
    std::vector<Delayed> sb; // atomic stores others do not see yet, oldest first
};
struct SimMutex { int owner = -1; int count = 0; int type = 0; bool pi = false; bool dead = false; int waiting = 0; VC vc; };
struct SimCond { std::vector<int> w; bool dead = false; };
struct SimRw { int writer = -1; int readers = 0; VC vc; std::vector<int> rd; };
struct SimSem { unsigned v = 0; VC vc; };
struct Block { size_t size; int fid; int op; bool live; uint32_t off; void *pc; };

struct World {
    bool active = false;
    const Case *cs = nullptr;
    Scenario *scn = nullptr;
    ClaimFn claims = nullptr;
    Result *res = nullptr;
    std::vector<Decision> *rec = nullptr;
    Rng rng{1};
    bool replay = false;
    std::unordered_map<uint64_t, int64_t> ovr;
    std::vector<Fiber *> fibers;
    VC fenceVC;             // sequentially consistent fences
    Fiber *cur = nullptr;
    uint64_t ticks = 0, total = 0;
    int64_t now = 0;
    uint64_t hash = 0;
    int64_t stallLeft = 0;
    int plainCount = 0;
    // strategies
    std::vector<uint64_t> pctPoints;    // counted from the first thread's creation
    size_t pctNext = 0;
    uint64_t base = 0;
    int64_t pctLow = 0;
    int pauseFid = -1; uint64_t pauseAt = 0, pauseLen = 0, pauseEnd = 0;
    // heap
    size_t brk = 0;
    std::vector<Block> blocks;
    size_t live = 0;
    int64_t allocs = 0, attempts = 0;
    bool failAll = false;
    bool abandoned = false;
    std::unordered_map<void *, SimMutex> mx;
    std::unordered_map<void *, SimCond> cv;
    std::unordered_map<void *, SimRw> rw;
    std::unordered_map<void *, SimSem> sems;
    std::vector<VC> svs;
    std::unordered_map<void *, uint32_t> svOther;
    std::unordered_map<int, VC> chan;
    bool fair = false, notime = false;
};
static World g;
static void *osSp;
static uint64_t osCxa[2];
static std::vector<char> osTls;
static char *tlsBase; static size_t tlsSize; static std::vector<char> tlsInit;
static std::vector<Fiber *> fiberPool;
static size_t gDirtyLo, gDirtyHi; static bool gDirty;

// The entry of every interposed function: true when a fiber runs simulated code.
static inline bool on() { return g.active && g.cur && g.cur->off == 0; }
struct Guard { Guard() { g.cur->off++; } ~Guard() { g.cur->off--; } };
static inline bool exeText(const void *pc) { return (const char *)pc >= &__executable_start && (const char *)pc < &etext; }

Off::Off() { if (g.cur) { if (!g.cur->sb.empty()) drainSlow(); g.cur->off++; } }
Off::~Off() { if (g.cur) g.cur->off--; }
User::User() { if (g.cur) g.cur->user++; }
User::~User() { if (g.cur) g.cur->user--; }

void countFault(FaultKind k) { if (g.res) g.res->faults[k]++; }
void probe(int n) { if (g.res) g.res->probes[n & 31]++; }
void linCapped() { if (g.res) g.res->linCapped = true; }
int self() { return g.cur ? g.cur->id : -1; }
uint64_t tick() { return ++g.ticks; }
int64_t nowUs() { return g.now; }
bool inSim() { return g.active; }

// ====================================================================== context switch
extern "C" void sim_switch(void **from, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static void saveCtx(uint64_t *cxa, std::vector<char> &tls) {
    __real_memcpy(cxa, __cxa_get_globals(), 16);
    if (tlsSize) { tls.resize(tlsSize); __real_memcpy(tls.data(), tlsBase, tlsSize); }
}
static void loadCtx(const uint64_t *cxa, const std::vector<char> &tls) {
    __real_memcpy(__cxa_get_globals(), cxa, 16);
    if (tlsSize) __real_memcpy(tlsBase, tls.data(), tlsSize);
}
static void leaveToOs() {
    Fiber *f = g.cur;
    g.cur = nullptr;
    loadCtx(osCxa, osTls);
    void *dummy;
    sim_switch(f ? &f->sp : &dummy, osSp);
}
[[noreturn]] static void abandon() {
    g.abandoned = true;
    leaveToOs();
    __builtin_unreachable();
}

void violate(const char *tag, bool fatal, const char *fmt, ...) {
    char buf[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char *q = buf; *q; q++) if ((unsigned char)*q < 32 || (unsigned char)*q > 126) *q = '?';   // names read from memory that was released
    Result *r = g.res;
    if (!r) { fprintf(stderr, "sim: violation outside a run: %s %s\n", tag, buf); _exit(2); }
    bool claimed = g.claims(tag);
    if (!claimed && !fatal) { r->softForeign++; return; }
    if (!r->violated && !r->foreign) {
        snprintf(r->tag, sizeof r->tag, "%s", tag);
        if (g.cur)
            snprintf(r->msg, sizeof r->msg, "%s [thread %d, op %d, step %u, t=%lldus]", buf, g.cur->id, g.cur->op,
                     g.cur->step, (long long)g.now);
        else
            snprintf(r->msg, sizeof r->msg, "%s", buf);
        r->violated = claimed;
        r->foreign = !claimed;
    }
    if (g.cur) abandon();
}

// ====================================================================== scheduling
static void logEvent(uint64_t k, const void *addr) {
    uint64_t a = (uint64_t)addr;
    // addresses outside the simulated address space (the plain heap) are not reproducible
    if (!(a - (uint64_t)HEAP < HEAP_SIZE || (a >= gLo && a < gHi) || a - (uint64_t)STACKS < (STACK_SIZE + 4096) * MAXF)) a = 0;
    g.hash = mix(g.hash, (uint64_t(g.cur->id) << 56) ^ (k << 48) ^ a);
}
static inline uint64_t dkey(char kind, int fid, int op, uint32_t idx) {
    return (uint64_t(uint8_t(kind)) << 56) ^ (uint64_t(uint16_t(fid)) << 44) ^ (uint64_t(uint32_t(op) & 0xFFFF) << 28) ^ (idx & 0xFFFFFFF);
}
static bool ovrGet(char kind, int64_t &v) {
    auto it = g.ovr.find(dkey(kind, g.cur->id, g.cur->op, g.cur->step));
    if (it == g.ovr.end()) return false;
    v = it->second;
    return true;
}
static void record(char kind, int64_t v) {
    if (g.rec) g.rec->push_back({kind, g.cur->id, g.cur->op, g.cur->step, v});
    g.res->nDecisions++;
}

static void switchTo(Fiber *n) {
    Fiber *c = g.cur;
    if (n == c) return;
    g.res->switches++;
    g.hash = mix(g.hash, 0x5157 + (uint64_t(c->id) << 20) + uint64_t(n->id));
    saveCtx(c->cxa, c->tls);
    c->err = errno;
    g.cur = n;
    loadCtx(n->cxa, n->tls);
    errno = n->err;
    sim_switch(&c->sp, n->sp);
}

static int effPrio(const Fiber *f, int depth = 0) {
    int p = f->prio;
    if (depth > 8) return p;
    for (Fiber *w : g.fibers)
        if (w->st == F_MUTEX && w != f) {
            auto it = g.mx.find(w->obj);
            if (it != g.mx.end() && it->second.owner == f->id && it->second.pi) p = std::max(p, effPrio(w, depth + 1));
        }
    return p;
}

static void fireTimers() {
    for (Fiber *f : g.fibers)
        if (f->wake >= 0 && f->wake <= g.now && (f->st == F_SLEEP || f->st == F_COND)) {
            if (f->st == F_COND) {
                auto &w = g.cv[f->obj].w;
                w.erase(std::remove(w.begin(), w.end(), f->id), w.end());
                f->timedOut = true;
            }
            f->st = F_READY;
            f->wake = -1;
            countFault(FK_TIMER);
        }
}

static Fiber *cyc(Fiber *from) {
    size_t n = g.fibers.size();
    for (size_t i = 1; i <= n; i++) {
        Fiber *f = g.fibers[(from->id + i) % n];
        if (f->st == F_READY) return f;
    }
    return nullptr;
}

// Picks the fiber to run when the current one cannot continue (or yields).
static Fiber *pickNext(bool yielding) {
    g.cur->step++;
    for (;;) {
        int ready = 0;
        for (Fiber *f : g.fibers) if (f->st == F_READY && f != g.cur) ready++;
        bool self = g.cur->st == F_READY;
        if (!ready && self) return g.cur;
        if (ready) {
            Fiber *def = cyc(g.cur);
            if (g.cs->sched.strat == ST_PRIO) {
                Fiber *best = nullptr; int bp = 0;
                for (Fiber *f : g.fibers)
                    if (f->st == F_READY && !(yielding && f == g.cur)) {
                        int p = effPrio(f);
                        if (!best || p > bp) { best = f; bp = p; }
                    }
                // a yield only lets equal priorities run
                if (yielding && effPrio(g.cur) > bp) return g.cur;
                return best;
            }
            if (g.fair) return def;
            if (g.replay) {
                int64_t v;
                if (ovrGet('B', v) && v >= 0 && v < (int64_t)g.fibers.size() && g.fibers[v]->st == F_READY) return g.fibers[v];
                return def;
            }
            Fiber *ch = def;
            const SchedCfg &s = g.cs->sched;
            if (s.strat == ST_RR) ch = def;
            else if (s.strat == ST_PCT) {
                ch = nullptr;
                for (Fiber *f : g.fibers)
                    if (f->st == F_READY && !(yielding && f == g.cur) && (!ch || f->pctPrio > ch->pctPrio)) ch = f;
            } else {
                std::vector<Fiber *> c;
                for (Fiber *f : g.fibers)
                    if (f->st == F_READY && f != g.cur && !(s.strat == ST_PAUSE && f->id == g.pauseFid && f->frozen)) c.push_back(f);
                if (c.empty())
                    for (Fiber *f : g.fibers) if (f->st == F_READY && f != g.cur) c.push_back(f);
                ch = c[g.rng.below(c.size())];
            }
            if (ch != def) record('B', ch->id);
            return ch;
        }
        // nothing ready: advance time
        int64_t t = -1;
        for (Fiber *f : g.fibers)
            if (f->wake >= 0 && (f->st == F_SLEEP || f->st == F_COND) && (t < 0 || f->wake < t)) t = f->wake;
        if (t >= 0) {
            if (t > g.now) g.now = t;
            fireTimers();
            continue;
        }
        // quiescent
        Fiber *q = nullptr;
        for (Fiber *f : g.fibers) if (f->st == F_QUIESCE) { q = f; break; }
        if (q) { q->st = F_READY; continue; }
        std::string who;
        for (Fiber *f : g.fibers)
            if (f->st != F_DONE) {
                char b[96];
                snprintf(b, sizeof b, "%sthread %d (op %d) in %s", who.empty() ? "" : ", ", f->id, f->op,
                         f->st == F_MUTEX ? "mutex lock" : f->st == F_COND ? "condition wait" : f->st == F_JOIN ? "harness join" : "wait");
                if (who.size() < 500) who += b;
            }
        violate("stuck", true, "deadlock: no thread can run and no timer is pending: %s", who.c_str());
        abandon();
    }
}

static void piOracle() {
    Fiber *c = g.cur;
    for (Fiber *h : g.fibers) {
        if (h->st == F_RW && h->prio > c->prio) {   // reader-writer locks do not lend priority at all
            auto it = g.rw.find(h->obj);
            if (it == g.rw.end() || effPrio(c) >= h->prio) continue;
            std::vector<int> own = it->second.rd;
            if (it->second.writer >= 0) own.push_back(it->second.writer);
            for (int i : own)
                if (g.fibers[i] != c && g.fibers[i]->st == F_READY)
                    violate("pi", true, "priority inversion: thread %d (priority %d) runs while thread %d (priority %d) waits for a "
                            "reader-writer lock held by preempted thread %d (priority %d)", c->id, c->prio, h->id, h->prio, i, g.fibers[i]->prio);
            continue;
        }
        if (h->st != F_MUTEX || h->prio <= c->prio) continue;
        Fiber *o = h;
        int hops = 0;
        while (o->st == F_MUTEX && hops++ < 8) {
            auto it = g.mx.find(o->obj);
            if (it == g.mx.end() || it->second.owner < 0) { o = nullptr; break; }
            o = g.fibers[it->second.owner];
        }
        if (!o || o == c || o->st != F_READY || effPrio(c) >= h->prio) continue;
        violate("pi", true, "priority inversion: thread %d (priority %d) runs while thread %d (priority %d) waits for a lock "
                "held by preempted thread %d (priority %d)", c->id, c->prio, h->id, h->prio, o->id, o->prio);
    }
}

static void checkCap() {
    if (g.total > (uint64_t)g.cs->sched.stepCap) {
        if (!g.fair) { g.fair = true; }
        if (g.total > 2 * (uint64_t)g.cs->sched.stepCap)
            violate("livelock", true, "no progress within %llu steps of fair scheduling without faults",
                    (unsigned long long)g.cs->sched.stepCap);
    }
}

static void block() { // current fiber's state already set to a non-ready one
    g.cur->blocked++;
    if (g.cs->sched.strat == ST_PRIO) { g.now += 1; fireTimers(); }
    switchTo(pickNext(false));
}

static void doStall(int64_t us) {
    if (!g.cur->sb.empty()) drainSlow();
    countFault(FK_STALL);
    g.stallLeft -= us;
    g.cur->st = F_SLEEP;
    g.cur->wake = g.now + us;
    block();
    g.cur->blocked--;        // a stall is not the program's doing
}

static inline void advancePrio() {
    g.now += 1;
    fireTimers();
    Fiber *n = pickNext(false);
    // pickNext(false) considers the current fiber too in ST_PRIO mode
    if (n != g.cur) {
        if (effPrio(n) > effPrio(g.cur)) { g.res->preempts++; countFault(FK_PREEMPT); switchTo(n); }
    }
    piOracle();
}

// A synchronisation point.
static void syncPoint2(int kind, const void *addr) {
    Fiber *c = g.cur;
    c->step++;
    g.total++;
    checkCap();
    logEvent(kind, addr);
    const SchedCfg &s = g.cs->sched;
    if (s.strat == ST_PRIO) { advancePrio(); return; }
    if (g.fair) {
        if (g.total % 37 == 0) { Fiber *n = cyc(c); if (n) switchTo(n); }
        return;
    }
    if (g.replay) {
        int64_t v;
        if (g.ovr.empty()) return;
        if (ovrGet('D', v)) { if (v > 0 && v <= g.stallLeft) doStall(v); return; }
        if (ovrGet('S', v)) {
            if (v >= 0 && v < (int64_t)g.fibers.size() && g.fibers[v]->st == F_READY && g.fibers[v] != c) {
                g.res->preempts++; countFault(FK_PREEMPT);
                switchTo(g.fibers[v]);
            }
        }
        return;
    }
    if (s.stall && c->id != 0 && g.stallLeft > 0 && g.rng.oneIn(s.stall)) {
        int64_t us = 1 + g.rng.below(s.stallMaxUs);
        if (us > g.stallLeft) us = g.stallLeft;
        record('D', us);
        doStall(us);
        return;
    }
    Fiber *t = nullptr;
    if (s.strat == ST_PCT) {
        while (g.pctNext < g.pctPoints.size() && g.pctPoints[g.pctNext] <= g.total - g.base) { c->pctPrio = --g.pctLow; g.pctNext++; }
        Fiber *best = c;
        for (Fiber *f : g.fibers) if (f->st == F_READY && f->pctPrio > best->pctPrio) best = f;
        if (best != c) t = best;
    } else if (s.strat == ST_RR) {
        return;
    } else {
        if (s.strat == ST_PAUSE) {
            if (g.pauseFid == c->id && !c->frozen && g.total - g.base >= g.pauseAt && g.pauseEnd == 0) {
                c->frozen = true; g.pauseEnd = g.total + g.pauseLen;
            }
            if (g.pauseEnd && g.total > g.pauseEnd) for (Fiber *f : g.fibers) f->frozen = false;
        }
        if (c->frozen || g.rng.oneIn(s.pSwitch)) {
            int n = 0;
            Fiber *sel[64];
            for (Fiber *f : g.fibers) if (f->st == F_READY && f != c && !f->frozen && n < 64) sel[n++] = f;
            if (n) t = sel[g.rng.below(n)];
        }
    }
    if (t) {
        record('S', t->id);
        g.res->preempts++; countFault(FK_PREEMPT);
        switchTo(t);
    }
}
static void plainPointSlow() {
    Fiber *c = g.cur;
    checkCap();
    const SchedCfg &s = g.cs->sched;
    if (s.strat == ST_PRIO) { advancePrio(); return; }
    if (g.fair) { if (g.total % 37 == 0) { Fiber *n = cyc(c); if (n) switchTo(n); } return; }
    if (g.replay) {
        int64_t v;
        if (!g.ovr.empty() && ovrGet('S', v) && v >= 0 && v < (int64_t)g.fibers.size() && g.fibers[v]->st == F_READY && g.fibers[v] != c) {
            g.res->preempts++; countFault(FK_PREEMPT_PLAIN);
            switchTo(g.fibers[v]);
        }
        return;
    }
    g.plainCount = s.plainGap ? 1 + (int)g.rng.below(2 * s.plainGap) : 1 << 30;
    if (!s.plainGap) return;
    int n = 0;
    Fiber *sel[64];
    for (Fiber *f : g.fibers) if (f->st == F_READY && f != c && !f->frozen && n < 64) sel[n++] = f;
    if (!n) return;
    Fiber *t = sel[g.rng.below(n)];
    if (s.strat == ST_PCT) { c->pctPrio = --g.pctLow; for (Fiber *f : g.fibers) if (f->st == F_READY && f->pctPrio > t->pctPrio) t = f; if (t == c) return; }
    record('S', t->id);
    g.res->preempts++; countFault(FK_PREEMPT_PLAIN);
    switchTo(t);
}
static void syncPoint(int kind, const void *addr) {
    syncPoint2(kind, addr);
    auto &sb = g.cur->sb;
    if (sb.empty()) return;
    // Atomic loads and stores may overtake it, everything else waits for it.
    if (kind != 10 && kind != 11) { drainSlow(); return; }
    size_t k = 0;
    for (size_t i = 0; i < sb.size(); i++) if (--sb[i].left <= 0) k = i + 1;
    if (k) drainSlow(k);
}
static inline void plainPoint() {
    g.cur->step++;
    g.total++;
    if (g.replay || g.fair || g.cs->sched.strat == ST_PRIO || --g.plainCount <= 0 || (g.total & 0xFFF) == 0) plainPointSlow();
}
// A yes/no fault decision at the current step.
static bool decide(char kind, int oneIn) {
    if (g.fair) return false;
    if (g.replay) { int64_t v; return ovrGet(kind, v) && v; }
    if (!oneIn || !g.rng.oneIn(oneIn)) return false;
    record(kind, 1);
    return true;
}

// ====================================================================== vector clocks
static void joinVC(VC &a, const VC &b) {
    if (b.size() > a.size()) a.resize(b.size());
    for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i];
}
static void relTick() {
    if (!g.cur->sb.empty()) drainSlow();    // releasing a lock, posting, ending
    g.cur->vc[g.cur->id]++;
}

// ====================================================================== shadow memory
static inline bool inHeap(uintptr_t a) { return a - (uintptr_t)HEAP < HEAP_SIZE; }
static std::string descAddr(uintptr_t a) {
    char b[200];
    if (inHeap(a)) {
        uint32_t off = uint32_t(a - (uintptr_t)HEAP);
        int best = -1;
        // blocks are in increasing offset order
        size_t lo = 0, hi = g.blocks.size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if (g.blocks[m].off <= off) lo = m + 1; else hi = m; }
        best = int(lo) - 1;
        if (best >= 0) {
            Block &k = g.blocks[best];
            snprintf(b, sizeof b, "byte %lld of heap block #%d (%zu bytes, %s, allocated by thread %d op %d)",
                     (long long)off - k.off, best, k.size, k.live ? "live" : "released", k.fid, k.op);
        } else snprintf(b, sizeof b, "heap offset %u", off);
    } else if (a >= gLo && a < gHi) snprintf(b, sizeof b, "static variable at 0x%lx", (unsigned long)a);
    else snprintf(b, sizeof b, "address 0x%lx", (unsigned long)a);
    return b;
}
static void memViolation(const char *what, uintptr_t a, size_t n, const void *pc) {
    violate("mem", false, "%s of %zu bytes: %s pc=%p", what, n, descAddr(a).c_str(), pc);
}
static void badWild(uintptr_t a, size_t n, const void *pc) {
    violate("crash", true, "access of %zu bytes at invalid address 0x%lx pc=%p", n, (unsigned long)a, pc);
}
static inline Slot *raceCell(uintptr_t granule) {
    uintptr_t a = granule << 3;
    if (inHeap(a)) return RS + ((a - (uintptr_t)HEAP) >> 3) * 4;
    if (a >= (gLo & ~7ull) && a < gHi) {
        size_t i = (a - (gLo & ~7ull)) >> 3;
        if (!gDirty) { gDirty = true; gDirtyLo = gDirtyHi = i; }
        if (i < gDirtyLo) gDirtyLo = i;
        if (i > gDirtyHi) gDirtyHi = i;
        return GRS + i * 4;
    }
    return nullptr;
}
static void raceAccess(uintptr_t gran, uint8_t mask, bool w, bool at, const void *pc) {
    Slot *s = raceCell(gran);
    if (!s) return;
    Fiber *c = g.cur;
    int rep = -1, emp = -1;
    for (int i = 0; i < 4; i++) {
        Slot &x = s[i];
        if (!x.clock) { if (emp < 0) emp = i; continue; }
        if (x.fid == c->id) {
            if (rep < 0 && (x.mask & ~mask) == 0 && ((x.fl & 1) <= w) && ((x.fl & 2) >= (at ? 2 : 0))) rep = i;
            continue;
        }
        bool hb = x.clock <= (x.fid < c->vc.size() ? c->vc[x.fid] : 0);
        if ((x.mask & mask) && ((x.fl & 1) || w) && !((x.fl & 2) && at) && !hb) {
            uintptr_t a = gran << 3;
            violate("race", false, "data race: %s%s by thread %d and %s%s by thread %d on %s pc=%p",
                    at ? "atomic " : "", w ? "write" : "read", c->id, (x.fl & 2) ? "atomic " : "", (x.fl & 1) ? "write" : "read",
                    x.fid, descAddr(a + __builtin_ctz(mask & x.mask)).c_str(), pc);
        }
        if (hb && rep < 0 && (x.mask & ~mask) == 0 && (w || !(x.fl & 1))) rep = i;
    }
    int k = rep >= 0 ? rep : emp >= 0 ? emp : int((gran + c->vc[c->id]) & 3);
    s[k] = {c->vc[c->id], uint16_t(c->id), mask, uint8_t((w ? 1 : 0) | (at ? 2 : 0))};
}
static void accessRange(uintptr_t a, size_t n, bool w, bool at, const void *pc) {
    if (!n) return;
    if (a < 4096) { badWild(a, n, pc); return; }
    bool heap = inHeap(a);
    if (heap) {
        uintptr_t o = a - (uintptr_t)HEAP, e = o + n;
        if (e > HEAP_SIZE) { badWild(a, n, pc); return; }
        for (uintptr_t q = o >> 3; q <= (e - 1) >> 3; q++) {
            uint8_t st = ST[q];
            if (st == S_OK) continue;
            if (st & S_PROT && st < 0x48) {
                if (w && !g.cur->user && !at) {
                    violate("obj", false, "library code writes into the contents of a live object: %s pc=%p",
                            descAddr(std::max(a, (uintptr_t)HEAP + (q << 3))).c_str(), pc);
                    break;
                }
                continue;
            }
            if (st < 8) {
                size_t endInG = (q == (e - 1) >> 3) ? ((e - 1) & 7) + 1 : 8;
                if (endInG <= st) continue;
            }
            memViolation(st == S_FREED ? (w ? "write to released memory" : "read of released memory")
                                       : (w ? "out-of-bounds write" : "out-of-bounds read"),
                         std::max(a, (uintptr_t)HEAP + (q << 3)), n, pc);
            break;
        }
    }
    if (!g.cs->sched.races) return;
    if (!heap && !(a >= gLo && a < gHi)) return;
    uintptr_t ga = a >> 3, ge = (a + n - 1) >> 3;
    size_t cap = 0;
    for (uintptr_t q = ga; q <= ge; q++) {
        if (++cap > 8192) break;
        uint8_t m = 0xFF;
        if (q == ga) m &= uint8_t(0xFF << (a & 7));
        if (q == ge) m &= uint8_t(0xFF >> (7 - ((a + n - 1) & 7)));
        raceAccess(q, m, w, at, pc);
    }
}
static inline void hookAccess(uintptr_t a, size_t n, bool w, const void *pc) {
    if (!on()) return;
    if (!g.cur->sb.empty()) for (auto &d : g.cur->sb) if (a < d.a + d.n && d.a < a + n) { drainSlow(); break; }
    // own stack: no sharing, no scheduling point
    if (a - (uintptr_t)g.cur->stack < STACK_SIZE) return;
    Guard gd;
    plainPoint();
    accessRange(a, n, w, false, pc);
}

void protect(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!n || !inHeap(a)) return;
    for (uintptr_t q = (a + 7) >> 3; q < (a + n) >> 3; q++) {
        uint8_t &st = ST[(((q << 3)) - (uintptr_t)HEAP) >> 3];
        if (st == S_OK) st = S_PROT;
    }
}
void unprotect(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!n || !inHeap(a)) return;
    for (uintptr_t q = (a + 7) >> 3; q < (a + n) >> 3; q++) {
        uint8_t &st = ST[(((q << 3)) - (uintptr_t)HEAP) >> 3];
        if (st == S_PROT) st = S_OK;
    }
}
bool heapValid(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!inHeap(a)) return false;
    uintptr_t o = a - (uintptr_t)HEAP, e = o + n;
    for (uintptr_t q = o >> 3; q <= (e - 1) >> 3; q++) {
        uint8_t st = ST[q];
        if (st == S_OK || st == S_PROT) continue;
        if (st < 8 && q == (e - 1) >> 3 && ((e - 1) & 7) + 1 <= st) continue;
        return false;
    }
    return true;
}

// ====================================================================== heap
// What memory holds that nobody has initialised.
static void fillFresh(char *p, size_t n, uint64_t where) {
    int k = g.cs->sched.fill;
    if (k < 3) { __real_memset(p, k == 0 ? 0xCD : k == 1 ? 0 : 0xFF, n); return; }
    uint64_t x = mix(mix(g.cs->seed, g.cs->run * 8 + k), where);
    for (size_t i = 0; i < n; i += 8) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        uint64_t v = (x >> 29) ^ (x << 35);
        __real_memcpy(p + i, &v, n - i < 8 ? n - i : 8);
    }
}
static void *heapAlloc(size_t n, size_t align, const void *pc) {
    size_t o = (g.brk + 32 + align - 1) & ~(align - 1);
    if (o + n + 64 > HEAP_SIZE || n > HEAP_SIZE) return nullptr;
    g.brk = o + n + 16;
    size_t full = n >> 3;
    __real_memset(ST + (o >> 3), 0, full);
    if (n & 7) ST[(o >> 3) + full] = uint8_t(n & 7);
    if (o & 7) {}
    fillFresh(HEAP + o, n, o);
    g.blocks.push_back({n, g.cur ? g.cur->id : -1, g.cur ? g.cur->op : 0, true, uint32_t(o), (void *)pc});
    g.live++;
    if (g.cur && g.cs->sched.races && n)
        for (uintptr_t q = ((uintptr_t)HEAP + o) >> 3, e = ((uintptr_t)HEAP + o + n - 1) >> 3, k = 0; q <= e && k < 8192; q++, k++)
            raceAccess(q, 0xFF, true, false, pc);
    return HEAP + o;
}
static void heapFree(void *p, const void *pc) {
    uint32_t off = uint32_t((char *)p - HEAP);
    size_t lo = 0, hi = g.blocks.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (g.blocks[m].off <= off) lo = m + 1; else hi = m; }
    if (!lo || g.blocks[lo - 1].off != off) { memViolation("release of a pointer that was never allocated", (uintptr_t)p, 0, pc); return; }
    Block &b = g.blocks[lo - 1];
    if (!b.live) { memViolation("double release", (uintptr_t)p, b.size, pc); return; }
    if (g.cur) { // a release counts as a write for the race detector; protection does not apply
        if (g.cs->sched.races && b.size)
            for (uintptr_t q = (uintptr_t)p >> 3, e = ((uintptr_t)p + b.size - 1) >> 3, k = 0; q <= e && k < 8192; q++, k++)
                raceAccess(q, 0xFF, true, false, pc);
    }
    Block &b2 = g.blocks[lo - 1];
    b2.live = false;
    g.live--;
    size_t full = (b2.size + 7) >> 3;
    __real_memset(ST + (off >> 3), S_FREED, full);
    __real_memset(p, 0xDD, b2.size);
}
void allocFailAfter(int64_t n) { g.cur->failAfter = n; }
int64_t attemptsSelf() { return g.cur->myAttempts; }
void osInitFailAfter(int64_t n, int err) { g.cur->osFailAfter = n; g.cur->osErr = err; }
int64_t osInitsSelf() { return g.cur->osAttempts; }
// Whether the current thread's initialisation of an operating system object fails.
static int osInit() {
    if (!on()) return 0;
    g.cur->osAttempts++;
    if (g.cur->osFailAfter < 0 || g.cur->osFailAfter-- > 0) return 0;
    countFault(FK_OSERR);
    return g.cur->osErr;
}
void allocFailAll(bool v) { g.failAll = v; }
int64_t runParam(const char *k) { return g.cs->get(k); }
int64_t allocCount() { return g.allocs; }
int64_t allocAttempts() { return g.attempts; }
// Blocks that the library's static or thread_local variables lead to belong to those variables; they are not left behind.
extern "C" char __start_simlibdata[] __attribute__((weak)), __stop_simlibdata[] __attribute__((weak));
static std::vector<char> ownedByStatics() {
    std::vector<char> own(g.blocks.size(), 0);
    std::vector<size_t> work;
    auto scan = [&](const char *b, size_t n) {
        const char *e = b + n;
        for (b = (const char *)(((uintptr_t)b + 7) & ~(uintptr_t)7); b + 8 <= e; b += 8) {
            char *p;
            __real_memcpy(&p, b, 8);
            if (p < HEAP || p >= HEAP + g.brk) continue;
            uint32_t off = uint32_t(p - HEAP);
            size_t lo = 0, hi = g.blocks.size();
            while (lo < hi) { size_t m = (lo + hi) / 2; if (g.blocks[m].off <= off) lo = m + 1; else hi = m; }
            if (!lo) continue;
            Block &k = g.blocks[lo - 1];
            if (!k.live || own[lo - 1] || off > k.off + k.size) continue;
            own[lo - 1] = 1;
            work.push_back(lo - 1);
        }
    };
    scan(__start_simlibdata, __stop_simlibdata - __start_simlibdata);
    if (tlsSize) {
        scan(tlsBase, tlsSize);
        for (auto *f : g.fibers) if (f != g.cur && !f->tls.empty()) scan(f->tls.data(), f->tls.size());
    }
    while (!work.empty()) { size_t i = work.back(); work.pop_back(); scan(HEAP + g.blocks[i].off, g.blocks[i].size); }
    return own;
}
size_t liveBlocks() {
    if (!g.live) return 0;
    size_t n = 0;
    auto own = ownedByStatics();
    for (size_t i = 0; i < g.blocks.size(); i++) if (g.blocks[i].live && !own[i]) n++;
    return n;
}
size_t liveBlocksOf(int fid) {
    size_t n = 0;
    auto own = ownedByStatics();
    for (size_t i = 0; i < g.blocks.size(); i++) if (g.blocks[i].live && g.blocks[i].fid == fid && !own[i]) n++;
    return n;
}
std::string describeLive(int fid) {
    std::string s;
    char b[160];
    int n = 0;
    auto own = ownedByStatics();
    for (size_t i = 0; i < g.blocks.size() && n < 6; i++)
        if (g.blocks[i].live && !own[i] && (fid < 0 || g.blocks[i].fid == fid)) {
            snprintf(b, sizeof b, "%s#%zu: %zu bytes allocated by thread %d op %d pc=%p", n ? "; " : "", i, g.blocks[i].size,
                     g.blocks[i].fid, g.blocks[i].op, g.blocks[i].pc);
            s += b;
            n++;
        }
    return s;
}
// Returns true if the allocation must fail.
static bool allocFault(size_t n, const void *pc) {
    g.attempts++;
    if (g.failAll) {
        countFault(FK_ALLOC);
        violate("heap", true, "%zu bytes of heap memory were requested after construction pc=%p", n, pc);
        return true;
    }
    g.cur->myAttempts++;
    if (g.cur->failAfter >= 0) {
        if (g.cur->failAfter-- == 0) { countFault(FK_ALLOC); return true; }
    }
    return false;
}
static void *hookedNew(size_t n, size_t align, const void *pc, bool isMalloc) {
    // libstdc++ internals (exception texts and the like) use the plain heap
    if (!on() || !exeText(pc)) return __real_malloc(n ? n : 1);
    Guard gd;
    plainPoint();
    if (allocFault(n, pc)) return nullptr;
    g.allocs++;
    void *p = heapAlloc(n, align < 16 ? 16 : align, pc);
    (void)isMalloc;
    return p;
}
static void hookedDelete(void *p, const void *pc) {
    if (!p) return;
    if (inHeap((uintptr_t)p)) {
        if (g.cur) {
            if (!g.cur->sb.empty()) drainSlow();
            Guard gd;
            if (g.cur->off == 1) plainPoint();
            heapFree(p, pc);
        } else heapFree(p, pc);
        return;
    }
    __real_free(p);
}

// ====================================================================== fibers
static void fiberMain() {
    Fiber *f = g.cur;
    f->off = 0;
    try {
        if (f->id == 0) g.scn->main(*g.cs);
        else if (f->start) f->ret = f->start(f->arg);
        else f->fn(*f->lane);
        while (!f->atExit.empty()) {
            std::pair<void (*)(void *), void *> d;
            { Guard gd; d = f->atExit.back(); f->atExit.pop_back(); }
            d.first(d.second);
        }
    } catch (...) {
        f->off = 1;
        if (f->start) violate("crash", true, "std::terminate was called because an exception left a thread");
        violate("harness", true, "exception escaped a harness thread");
    }
    if (!f->sb.empty()) drainSlow();
    f->off = 1;
    f->st = F_DONE;
    logEvent(99, nullptr);
    for (Fiber *w : g.fibers)
        if (w->st == F_JOIN && w->joinFid == f->id) { joinVC(w->vc, f->vc); w->st = F_READY; }
    if (f->id == 0) { leaveToOs(); }
    switchTo(pickNext(false));
    __builtin_unreachable();
}
extern "C" void sim_fiber_entry() { fiberMain(); __builtin_trap(); }

static Fiber *newFiber() {
    int id = (int)g.fibers.size();
    if (id >= MAXF) { fprintf(stderr, "too many fibers\n"); _exit(2); }
    if ((int)fiberPool.size() <= id) {
        Fiber *f = new Fiber;
        f->stack = STACKS + (STACK_SIZE + 4096) * id + 4096;
        if (mmap(f->stack - 4096, STACK_SIZE + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED ||
            mprotect(f->stack, STACK_SIZE, PROT_READ | PROT_WRITE)) { perror("stack"); _exit(2); }
        fiberPool.push_back(f);
    }
    Fiber *f = fiberPool[id];
    char *st = f->stack;
    std::vector<char> tls;
    tls.swap(f->tls);
    VC vc;
    vc.swap(f->vc);
    *f = Fiber();
    f->stack = st;
    f->id = id;
    f->off = 1;
    f->tls.swap(tls);
    f->tls = tlsInit;
    vc.assign(id + 1, 0);
    f->vc.swap(vc);
    fillFresh(st + STACK_SIZE - 4096, 4096, (uint64_t)id << 32);
    uint64_t *sp = (uint64_t *)(st + STACK_SIZE);
    *--sp = 0; // keeps the stack aligned as at a call
    *--sp = (uint64_t)&sim_fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    if (id == 1) g.base = g.total;
    g.fibers.push_back(f);
    return f;
}
int spawnLane(const Lane &l, void (*fn)(const Lane &)) {
    Off off;
    Fiber *f = newFiber();
    f->fn = fn;
    f->lane = &l;
    f->prio = l.prio;
    joinVC(f->vc, g.cur->vc);
    f->vc[f->id] = 1;
    if (f->vc.size() < g.fibers.size()) f->vc.resize(g.fibers.size());
    relTick();
    if (!g.replay) f->pctPrio = 1000 + (int64_t)g.rng.below(1000000);
    return f->id;
}
static Fiber *byHandle(pthread_t t) {
    size_t i = (size_t)t - 0x7000;
    return i < g.fibers.size() ? g.fibers[i] : nullptr;
}
void beginOp(int opId) { g.cur->op = opId; g.cur->step = 0; }
void point() { if (!on()) return; Guard gd; syncPoint(1, nullptr); }
static void doSleep(int64_t us) {
    Off off;
    syncPoint(2, nullptr);
    g.cur->st = F_SLEEP;
    g.cur->wake = g.now + us;
    block();
    // A grace period orders the sleeper after everything that was done while it slept.
    if (us >= 1000) for (Fiber *f : g.fibers) if (f != g.cur) { joinVC(g.cur->vc, f->vc); f->vc[f->id]++; }
}
void sleepUs(int64_t us) {
    if (g.notime) point(); else doSleep(us);
}
void grantSync() { for (Fiber *f : g.fibers) if (f != g.cur) { joinVC(g.cur->vc, f->vc); f->vc[f->id]++; } }
void hbRelease(int ch) { joinVC(g.chan[ch], g.cur->vc); relTick(); }
void hbAcquire(int ch) { joinVC(g.cur->vc, g.chan[ch]); }
void waitQuiescent() {
    Off off;
    g.cur->st = F_QUIESCE;
    block();
    grantSync();
    if (g.notime) {
        g.notime = false;
        if (g.now != 1000000)
            violate("time", true, "%lld us of virtual time had to pass for the calls to return, though nothing but the calls of others kept them", (long long)(g.now - 1000000));
    }
}
void waitFinished(int fid) {
    Off off;
    Fiber *f = g.fibers[fid];
    if (f->st != F_DONE) { g.cur->st = F_JOIN; g.cur->joinFid = fid; block(); }
    joinVC(g.cur->vc, f->vc);
}
bool finished(int fid) { return g.fibers[fid]->st == F_DONE; }
bool allFinished() { for (Fiber *f : g.fibers) if (f->id && f->st != F_DONE) return false; return true; }
BlockKind blockKind(int fid) {
    switch (g.fibers[fid]->st) {
    case F_MUTEX: return BK_MUTEX;
    case F_COND: return BK_COND;
    case F_SLEEP: return BK_SLEEP;
    case F_READY: case F_DONE: return BK_NONE;
    default: return BK_OTHER;
    }
}
void setPrio(int fid, int p) { g.fibers[fid]->prio = p; }
void mutexErrorNext(int e, MxCall k) { g.cur->mxErr = e; g.cur->mxErrKind = k; }
int mutexErrorPending() { return g.cur->mxErr; }
int mutexOwner(void *n) { auto it = g.mx.find(n); return it == g.mx.end() ? -1 : it->second.owner; }
bool mutexWasBlocked() { return g.cur->lastLockBlocked; }
uint64_t blockedCountSelf() { return g.cur->blocked; }

// ====================================================================== run
// The library's static variables (check.py moves them into one section): every run starts with those of a new process.
static std::vector<char> staticsInit;
static void restoreStatics() {
    size_t n = __stop_simlibdata - __start_simlibdata;
    if (!n) return;
    if (staticsInit.empty()) staticsInit.assign(__start_simlibdata, __stop_simlibdata);
    else if (__real_memcmp(__start_simlibdata, staticsInit.data(), n)) __real_memcpy(__start_simlibdata, staticsInit.data(), n);
}
static void resetRun() {
    size_t used = g.brk;
    if (used > (4u << 20)) {
        madvise(HEAP, HEAP_SIZE, MADV_DONTNEED);
        madvise(RS, (HEAP_SIZE / 8) * 4 * sizeof(Slot), MADV_DONTNEED);
        madvise(SV, (HEAP_SIZE / 8) * 4, MADV_DONTNEED);
        __real_memset(ST, S_NEVER, (used + 128) >> 3);
    } else {
        __real_memset(ST, S_NEVER, (used + 128) >> 3);
        __real_memset(RS, 0, ((used + 128) >> 3) * 4 * sizeof(Slot));
        __real_memset(SV, 0, ((used + 128) >> 3) * 4);
    }
    if (gDirty) {
        __real_memset(GRS + gDirtyLo * 4, 0, (gDirtyHi - gDirtyLo + 1) * 4 * sizeof(Slot));
        gDirty = false;
    }
    size_t gn = (gHi - gLo) / 8 + 2;
    if (!g.svs.empty()) __real_memset(GSV, 0, gn * 4);
    g.brk = 64;
    g.blocks.clear();
    g.live = 0;
    g.allocs = g.attempts = 0;
    g.failAll = false;
    g.mx.clear(); g.cv.clear(); g.rw.clear(); g.sems.clear();
    g.svs.clear(); g.svs.push_back({});
    g.svOther.clear();
    g.chan.clear();
    g.fibers.clear();
    g.fenceVC.clear();
    g.ticks = g.total = 0;
    g.now = 1000000;
    g.notime = false;
    g.fair = false;
    g.abandoned = false;
    g.pctPoints.clear();
    g.pctNext = 0;
    g.base = 0;
    g.pctLow = 0;
    g.pauseFid = -1; g.pauseAt = g.pauseLen = g.pauseEnd = 0;
}

void runCase(const Case &c, Scenario &s, ClaimFn claims, Result &r, std::vector<Decision> &out) {
    r = Result();
    resetRun();
    restoreStatics();
    g.cs = &c;
    g.notime = c.get("notime");
    g.scn = &s;
    g.claims = claims;
    g.res = &r;
    g.replay = c.replay;
    g.rec = c.replay ? nullptr : &out;
    g.rng = Rng(mix(mix(c.seed, 0x5C4ED), c.run));
    g.ovr.clear();
    for (auto &d : c.decisions) g.ovr[dkey(d.kind, d.fid, d.op, d.idx)] = d.val;
    g.hash = 0x1234567;
    g.stallLeft = c.sched.stallBudgetUs;
    if (!g.replay) {
        g.plainCount = c.sched.plainGap ? 1 + (int)g.rng.below(2 * c.sched.plainGap) : 1 << 30;
        for (int i = 0; i < c.sched.pctDepth; i++) g.pctPoints.push_back(1 + g.rng.below(c.sched.pctLen));
        std::sort(g.pctPoints.begin(), g.pctPoints.end());
        g.pauseFid = 1 + (int)g.rng.below(std::max<size_t>(1, c.lanes.size() + c.get("threads")));
        g.pauseAt = 1 + g.rng.below(c.sched.pctLen);
        g.pauseLen = 20 + g.rng.below(2000);
    }
    g.active = true;
    Fiber *f0 = newFiber();
    f0->vc[0] = 1;
    f0->pctPrio = 500; // main runs after the lanes unless told otherwise
    saveCtx(osCxa, osTls);
    g.cur = f0;
    loadCtx(f0->cxa, f0->tls);
    sim_switch(&osSp, f0->sp);
    g.cur = nullptr;
    r.hash = g.hash;
    r.steps = g.total;
    r.simUs = g.now - 1000000;
    r.fibers = (int)g.fibers.size();
    g.active = false;
    if (!r.violated && !r.foreign) s.check(c);
    g.res = nullptr;
}

// ====================================================================== process setup
static void crashReport(const char *what) {
    if (!g.res || !g.active) { fprintf(stderr, "sim: %s outside a run\n", what); _exit(2); }
    if (g.cur) g.cur->off = 1;
    violate("crash", true, "%s", what);
    _exit(2);
}
static void onSignal(int sig, siginfo_t *si, void *uc) {
    greg_t pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    char b[160];
    if (sig == SIGVTALRM) {
        if (g.res && g.active && g.cur) { g.cur->off = 1; violate("livelock", true, "a thread runs forever without any synchronisation pc=%p", (void *)pc); }
        fprintf(stderr, "sim: time limit outside a run\n");
        _exit(2);
    }
    snprintf(b, sizeof b, "the process was terminated by signal %d (%s) at address %p pc=%p", sig, strsignal(sig), si->si_addr, (void *)pc);
    crashReport(b);
}
static void onTerminate() {
    char b[200] = "std::terminate was called";
    if (std::current_exception()) {
        try { throw; }
        catch (const std::exception &e) { snprintf(b, sizeof b, "std::terminate was called because of an exception: %s", e.what()); }
        catch (...) { snprintf(b, sizeof b, "std::terminate was called because of an exception"); }
    }
    crashReport(b);
}
static int phdrCb(dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const auto &p = i->dlpi_phdr[k];
        if (p.p_type == PT_TLS && p.p_memsz) {
            size_t al = p.p_align ? p.p_align : 1;
            tlsSize = p.p_memsz;
            char *fs;
            asm("mov %%fs:0, %0" : "=r"(fs));
            size_t off = (p.p_memsz + al - 1) & ~(al - 1);
            tlsBase = fs - off;
            tlsInit.assign(tlsSize, 0);
            __real_memcpy(tlsInit.data(), (char *)(i->dlpi_addr + p.p_vaddr), p.p_filesz);
        }
    }
    return 1; // only the main program
}
static void *mapAt(void *at, size_t n) {
    void *p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED || p != at) { perror("sim: mmap"); _exit(2); }
    return p;
}
void initProcess() {
    mapAt(HEAP, HEAP_SIZE);
    mapAt(ST, HEAP_SIZE / 8);
    mapAt(RS, HEAP_SIZE / 8 * 4 * sizeof(Slot));
    mapAt(SV, HEAP_SIZE / 8 * 4);
    gLo = (uintptr_t)&__data_start & ~7ull;
    gHi = (uintptr_t)&_end;
    if (__start_simlibdata != __stop_simlibdata) {
        gLo = std::min(gLo, (uintptr_t)__start_simlibdata & ~(uintptr_t)7);
        gHi = std::max(gHi, (uintptr_t)__stop_simlibdata);
    }
    mapAt(GRS, ((gHi - gLo) / 8 + 2) * 4 * sizeof(Slot));
    mapAt(GSV, ((gHi - gLo) / 8 + 2) * 4);
    __real_memset(ST, S_NEVER, 1 << 20);
    g.brk = 0;
    dl_iterate_phdr(phdrCb, nullptr);
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
}

// ====================================================================== atomics support
static VC &syncVar(uintptr_t a) {
    uint32_t *ix;
    if (a & 7) ix = &g.svOther[(void *)a];      // two small atomics may share a granule
    else if (inHeap(a)) ix = &SV[(a - (uintptr_t)HEAP) >> 3];
    else if (a >= gLo && a < gHi) ix = &GSV[(a - gLo) >> 3];
    else ix = &g.svOther[(void *)a];
    if (!*ix) { *ix = (uint32_t)g.svs.size(); g.svs.push_back({}); }
    return g.svs[*ix];
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// Makes the k oldest delayed stores of the current thread visible.
static void drainSlow(size_t k) {
    Guard gd;
    auto &sb = g.cur->sb;
    if (k > sb.size()) k = sb.size();
    for (size_t i = 0; i < k; i++) {
        memcpy((void *)sb[i].a, sb[i].v, sb[i].n);
        syncVar(sb[i].a) = sb[i].vc;
    }
    sb.erase(sb.begin(), sb.begin() + k);
}
// The value the current thread itself sees, if it is not the one in memory.
static bool forward(uintptr_t a, size_t n, void *v) {
    auto &sb = g.cur->sb;
    for (size_t i = sb.size(); i-- > 0;) {
        if (a >= sb[i].a + sb[i].n || sb[i].a >= a + n) continue;
        if (sb[i].a == a && sb[i].n == n) { memcpy(v, sb[i].v, n); return true; }
        drainSlow();
        return false;
    }
    return false;
}
static void atomicLoad(uintptr_t a, size_t n, int mo, const void *pc) {
    syncPoint(10, (void *)a);
    accessRange(a, n, false, true, pc);
    joinVC(acq(mo) ? g.cur->vc : g.cur->pendAcq, syncVar(a));
}
// true: the store is delayed
static bool atomicStore(uintptr_t a, size_t n, int mo, const void *val, const void *pc) {
    syncPoint(11, (void *)a);
    accessRange(a, n, true, true, pc);
    Fiber *c = g.cur;
    if (mo == __ATOMIC_SEQ_CST) { if (!c->sb.empty()) drainSlow(); }
    else if (decide('M', g.cs->sched.weakMem)) {
        Delayed d{a, (uint8_t)n, {}, rel(mo) ? c->vc : c->fenceRel, 12};
        memcpy(d.v, val, n);
        c->sb.push_back(d);
        if (rel(mo)) c->vc[c->id]++;
        countFault(FK_STORE);
        return true;
    } else if (!c->sb.empty()) drainSlow();     // a processor's stores become visible in order
    VC &v = syncVar(a);
    if (rel(mo)) { v = c->vc; relTick(); } else v = c->fenceRel;
    return false;
}
static void atomicRmw(uintptr_t a, size_t n, int mo, const void *pc) {
    accessRange(a, n, true, true, pc);
    VC &v = syncVar(a);
    joinVC(acq(mo) ? g.cur->vc : g.cur->pendAcq, v);
    if (rel(mo)) { joinVC(v, g.cur->vc); relTick(); }
    else joinVC(v, g.cur->fenceRel);
}
static void atomicFailed(uintptr_t a, size_t n, int mo, const void *pc) {
    accessRange(a, n, false, true, pc);
    joinVC(acq(mo) ? g.cur->vc : g.cur->pendAcq, syncVar(a));
}
static void atomicFence(int mo) {
    syncPoint(14, nullptr);
    Fiber *c = g.cur;
    if (acq(mo)) joinVC(c->vc, c->pendAcq);
    if (mo == __ATOMIC_SEQ_CST) { joinVC(c->vc, g.fenceVC); joinVC(g.fenceVC, c->vc); }
    if (rel(mo)) { c->fenceRel = c->vc; relTick(); }
}

} // namespace sim
using namespace sim;

// ====================================================================== instrumentation hooks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *p) { hookAccess((uintptr_t)p, n, false, PC); } \
    void __tsan_write##n(void *p) { hookAccess((uintptr_t)p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { hookAccess((uintptr_t)p, n, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { hookAccess((uintptr_t)p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { hookAccess((uintptr_t)p, n, false, PC); } \
    void __tsan_volatile_write##n(void *p) { hookAccess((uintptr_t)p, n, true, PC); } \
    void __tsan_read_write##n(void *p) { hookAccess((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { hookAccess((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void *p, long n) { hookAccess((uintptr_t)p, n, true, PC); }
// Virtual table pointer stores are made by constructors and destructors of user objects.
void __tsan_vptr_update(void **p, void *) {
    if (!on()) return;
    g.cur->user++;
    hookAccess((uintptr_t)p, 8, true, PC);
    g.cur->user--;
}
void __tsan_vptr_read(void **p) { hookAccess((uintptr_t)p, 8, false, PC); }

#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) { \
        if (on()) { Guard gd; atomicLoad((uintptr_t)a, sizeof(T), mo, PC); T v; if (!g.cur->sb.empty() && forward((uintptr_t)a, sizeof(T), &v)) return v; } \
        return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { \
        if (on()) { Guard gd; if (atomicStore((uintptr_t)a, sizeof(T), mo, &v, PC)) return; } \
        *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { \
        if (on()) { Guard gd; syncPoint(12, (void *)a); atomicRmw((uintptr_t)a, sizeof(T), mo, PC); } \
        T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { \
        if (on()) { Guard gd; syncPoint(12, (void *)a); atomicRmw((uintptr_t)a, sizeof(T), mo, PC); } \
        T o = *a; *a = T(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { \
        if (on()) { Guard gd; syncPoint(12, (void *)a); atomicRmw((uintptr_t)a, sizeof(T), mo, PC); } \
        T o = *a; *a = T(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { \
        if (on()) { Guard gd; syncPoint(12, (void *)a); atomicRmw((uintptr_t)a, sizeof(T), mo, PC); } \
        T o = *a; *a = T(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { \
        if (on()) { Guard gd; syncPoint(12, (void *)a); atomicRmw((uintptr_t)a, sizeof(T), mo, PC); } \
        T o = *a; *a = T(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { \
        if (on()) { Guard gd; syncPoint(12, (void *)a); atomicRmw((uintptr_t)a, sizeof(T), mo, PC); } \
        T o = *a; *a = T(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { \
        if (on()) { Guard gd; syncPoint(12, (void *)a); atomicRmw((uintptr_t)a, sizeof(T), mo, PC); } \
        T o = *a; *a = T(~(o & v)); return o; } \
    static int cas##bits(volatile T *a, T *c, T v, int mo, int fmo, bool weak, const void *pc) { \
        bool fail = false; \
        if (on()) { Guard gd; syncPoint(13, (void *)a); \
            if (weak && *a == *c && decide('C', g.cs->sched.weakCas)) { fail = true; countFault(FK_WEAKCAS); } \
            if (!fail && *a == *c) atomicRmw((uintptr_t)a, sizeof(T), mo, pc); \
            else atomicFailed((uintptr_t)a, sizeof(T), fmo, pc); } \
        if (!fail && *a == *c) { *a = v; return 1; } \
        *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, false, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, true, PC); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { cas##bits(a, &c, v, mo, fmo, false, PC); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
typedef unsigned __int128 u128;
ATOMICS(128, u128)
void __tsan_atomic_thread_fence(int mo) { if (on()) { Guard gd; atomicFence(mo); } }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory functions
void *__wrap_memset(void *p, int v, size_t n) {
    if (on() && n) hookAccess((uintptr_t)p, n, true, PC);
    return __real_memset(p, v, n);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (on() && n) { hookAccess((uintptr_t)s, n, false, PC); hookAccess((uintptr_t)d, n, true, PC); }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (on() && n) { hookAccess((uintptr_t)s, n, false, PC); hookAccess((uintptr_t)d, n, true, PC); }
    return __real_memmove(d, s, n);
}
int __wrap_memcmp(const void *d, const void *s, size_t n) {
    if (on() && n) { hookAccess((uintptr_t)s, n, false, PC); hookAccess((uintptr_t)d, n, false, PC); }
    return __real_memcmp(d, s, n);
}
void *__tsan_memset(void *p, int v, size_t n) { return __wrap_memset(p, v, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return __wrap_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return __wrap_memmove(d, s, n); }

// ---------------------------------------------------------------- heap
void *__wrap_malloc(size_t n) { if (!on()) return __real_malloc(n); return hookedNew(n, 16, PC, true); }
void __wrap_free(void *p) { hookedDelete(p, PC); }
void *__wrap_calloc(size_t a, size_t b) {
    if (!on()) return __real_calloc(a, b);
    void *p = hookedNew(a * b, 16, PC, true);
    if (p) __real_memset(p, 0, a * b);
    return p;
}
void *__wrap_realloc(void *p, size_t n) {
    if (!inHeap((uintptr_t)p) && (!on() || p)) return __real_realloc(p, n);
    void *q = hookedNew(n, 16, PC, true);
    if (!q) return nullptr;
    if (p) {
        size_t lo = 0, hi = g.blocks.size(); uint32_t off = uint32_t((char *)p - HEAP);
        while (lo < hi) { size_t m = (lo + hi) / 2; if (g.blocks[m].off <= off) lo = m + 1; else hi = m; }
        size_t old = lo ? g.blocks[lo - 1].size : 0;
        __real_memcpy(q, p, old < n ? old : n);
        hookedDelete(p, PC);
    }
    return q;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { if (!on()) return __real_aligned_alloc(al, n); return hookedNew(n, al, PC, true); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) {
    if (!on()) return __real_posix_memalign(p, al, n);
    void *q = hookedNew(n, al, PC, true);
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
} // extern "C"

static void *opNew(size_t n, size_t al, const void *pc) {
    void *p = hookedNew(n, al, pc, false);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return opNew(n, 16, PC); }
void *operator new[](size_t n) { return opNew(n, 16, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return hookedNew(n, 16, PC, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return hookedNew(n, 16, PC, false); }
void *operator new(size_t n, std::align_val_t a) { return opNew(n, (size_t)a, PC); }
void *operator new[](size_t n, std::align_val_t a) { return opNew(n, (size_t)a, PC); }
void operator delete(void *p) noexcept { hookedDelete(p, PC); }
void operator delete[](void *p) noexcept { hookedDelete(p, PC); }
void operator delete(void *p, size_t) noexcept { hookedDelete(p, PC); }
void operator delete[](void *p, size_t) noexcept { hookedDelete(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { hookedDelete(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { hookedDelete(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { hookedDelete(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { hookedDelete(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { hookedDelete(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { hookedDelete(p, PC); }

// ====================================================================== pthread interposition
static void useObject(void *p, size_t n, const void *pc, const char *what) {
    uintptr_t a = (uintptr_t)p;
    if (a < 4096) { violate("crash", true, "%s on a null object pc=%p", what, pc); return; }
    if (inHeap(a) && !heapValid(p, n)) violate("mem", false, "%s on released or unallocated memory: %s pc=%p", what, descAddr(a).c_str(), pc);
}
static SimMutex &mxOf(pthread_mutex_t *m, const void *pc, const char *what) {
    useObject(m, sizeof *m, pc, what);
    auto it = g.mx.find(m);
    if (it == g.mx.end()) {
        SimMutex x;
        bool zero = true;
        for (size_t i = 0; i < sizeof *m; i++) if (((char *)m)[i] && (i < 16 || i >= 20)) zero = false;
        if (!zero) violate("mem", false, "%s on an uninitialised mutex pc=%p", what, pc);
        int k = zero ? m->__data.__kind : 0;
        x.type = (k & 3) == 1 ? PTHREAD_MUTEX_RECURSIVE : (k & 3) == 2 ? PTHREAD_MUTEX_ERRORCHECK : PTHREAD_MUTEX_NORMAL;
        it = g.mx.emplace(m, x).first;
    }
    if (it->second.dead) violate("mem", false, "%s on a destroyed mutex: %s pc=%p", what, descAddr((uintptr_t)m).c_str(), pc);
    return it->second;
}
static bool simCaller(const void *pc) { return on() && exeText(pc); }

static int mxAcquire(pthread_mutex_t *m, const void *pc, int64_t deadline) {
    SimMutex *x = &mxOf(m, pc, "lock");
    Fiber *c = g.cur;
    c->lastLockBlocked = false;
    if (x->owner == c->id) {
        if (x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
        if (x->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (x->owner >= 0) {
        if (deadline >= 0 && g.now >= deadline) return ETIMEDOUT;
        c->lastLockBlocked = true;
        x->waiting++;
        c->st = F_MUTEX;
        c->obj = m;
        if (deadline >= 0) { c->wake = deadline; c->st = F_SLEEP; } // simplified: re-test at the deadline or at unlock
        block();
        c->wake = -1;
        c->obj = nullptr;
        x = &mxOf(m, pc, "lock");
        x->waiting--;
    }
    x->owner = c->id;
    x->count = 1;
    joinVC(c->vc, x->vc);
    return 0;
}
static void mxRelease(pthread_mutex_t *m, SimMutex &x) {
    x.owner = -1;
    x.count = 0;
    x.vc = g.cur->vc;
    relTick();
    for (Fiber *f : g.fibers)
        if ((f->st == F_MUTEX || f->st == F_SLEEP) && f->obj == m) { f->st = F_READY; f->wake = -1; }
}
static int injected(MxCall k) {
    int e = g.cur->mxErrKind == k ? g.cur->mxErr : 0;
    if (e) { g.cur->mxErr = 0; countFault(FK_MUTEXERR); }
    return e;
}
static int64_t absUs(const struct timespec *t) { return int64_t(t->tv_sec) * 1000000 + (t->tv_nsec + 999) / 1000; }

static void wakeWaiter(int fid) { Fiber *f = g.fibers[fid]; f->st = F_READY; f->woken = true; f->wake = -1; }
static SimCond &cvOf(pthread_cond_t *c, const void *pc, const char *what) {
    useObject(c, sizeof *c, pc, what);
    auto it = g.cv.find(c);
    if (it == g.cv.end()) {
        bool zero = true;
        for (size_t i = 0; i < sizeof *c; i++) if (((char *)c)[i]) zero = false;
        if (!zero) violate("mem", false, "%s on an uninitialised condition variable pc=%p", what, pc);
        it = g.cv.emplace(c, SimCond()).first;
    }
    if (it->second.dead) violate("mem", false, "%s on a destroyed condition variable: %s pc=%p", what, descAddr((uintptr_t)c).c_str(), pc);
    return it->second;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline, const void *pc) {
    Guard gd;
    syncPoint(23, c);
    SimMutex &x = mxOf(m, pc, "condition wait");
    SimCond &v = cvOf(c, pc, "condition wait");
    Fiber *f = g.cur;
    if (x.owner != f->id) {
        violate("mem", false, "condition wait without owning the mutex pc=%p", pc);
        return EPERM;
    }
    f->woken = f->timedOut = false;
    int savedCount = x.count;
    bool spur = decide('P', g.cs->sched.spurious);
    mxRelease(m, x);
    if (spur) {
        // The waiter is awake for no reason; it still has to win the mutex again.
        countFault(FK_SPURIOUS);
        f->blocked++;
        switchTo(pickNext(true));
    } else if (deadline >= 0 && g.now >= deadline) {
        f->timedOut = true;
        switchTo(pickNext(true));
    } else {
        v.w.push_back(f->id);
        f->st = F_COND;
        f->obj = c;
        if (deadline >= 0) f->wake = deadline;
        block();
        f->obj = nullptr;
    }
    cvOf(c, pc, "waking from a condition wait");
    bool lb = f->lastLockBlocked;
    mxAcquire(m, pc, -1);
    f->lastLockBlocked = lb;
    g.mx[m].count = savedCount;
    return f->timedOut ? ETIMEDOUT : 0;
}

#define EXP extern "C" __attribute__((visibility("default")))

EXP int pthread_mutexattr_init(pthread_mutexattr_t *a) __THROW { *(int *)a = 0; return osInit(); }
EXP int pthread_mutexattr_destroy(pthread_mutexattr_t *) __THROW { return 0; }
EXP int pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) __THROW { *(int *)a = (*(int *)a & ~0xFF) | t; return 0; }
EXP int pthread_mutexattr_gettype(const pthread_mutexattr_t *a, int *t) __THROW { *t = *(const int *)a & 0xFF; return 0; }
EXP int pthread_mutexattr_setprotocol(pthread_mutexattr_t *a, int p) __THROW {
    if (p < 0 || p > 2) return EINVAL;
    if (int e = osInit()) return e;
    *(int *)a = (*(int *)a & ~0xF00) | (p << 8);
    return 0;
}
EXP int pthread_mutexattr_getprotocol(const pthread_mutexattr_t *a, int *p) __THROW { *p = (*(const int *)a >> 8) & 0xF; return 0; }
EXP int pthread_mutexattr_setpshared(pthread_mutexattr_t *, int) __THROW { return 0; }
EXP int pthread_mutexattr_setrobust(pthread_mutexattr_t *, int) __THROW { return 0; }
EXP int pthread_mutexattr_setprioceiling(pthread_mutexattr_t *, int) __THROW { return 0; }

EXP int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) __THROW {
    __real_memset(m, 0, sizeof *m);
    if (!on()) return 0;
    Guard gd;
    useObject(m, sizeof *m, PC, "mutex initialisation");
    SimMutex x;
    int v = a ? *(const int *)a : 0;
    x.type = v & 0xFF;
    x.pi = ((v >> 8) & 0xF) == PTHREAD_PRIO_INHERIT;
    accessRange((uintptr_t)m, sizeof *m, true, false, PC);
    int e = osInit();
    x.dead = e != 0;
    g.mx[m] = x;
    return e;
}
EXP int pthread_mutex_destroy(pthread_mutex_t *m) __THROW {
    if (!on()) return 0;
    Guard gd;
    SimMutex &x = mxOf(m, PC, "mutex destruction");
    if (x.owner >= 0) {
        violate("mem", false, "a mutex is destroyed while thread %d holds it: %s", x.owner, descAddr((uintptr_t)m).c_str());
        return EBUSY;
    }
    x.dead = true;
    return 0;
}
EXP int pthread_mutex_lock(pthread_mutex_t *m) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd;
    syncPoint(20, m);
    if (int e = injected(MX_LOCK)) return e;
    return mxAcquire(m, PC, -1);
}
EXP int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd;
    syncPoint(20, m);
    if (int e = injected(MX_LOCK)) return e;
    return mxAcquire(m, PC, absUs(t));
}
EXP int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd;
    syncPoint(20, m);
    return mxAcquire(m, PC, absUs(t));
}
EXP int pthread_mutex_trylock(pthread_mutex_t *m) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd;
    syncPoint(21, m);
    if (int e = injected(MX_TRYLOCK)) return e;
    SimMutex &x = mxOf(m, PC, "try-lock");
    if (x.owner == g.cur->id && x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
    if (x.owner >= 0) return EBUSY;
    x.owner = g.cur->id;
    x.count = 1;
    joinVC(g.cur->vc, x.vc);
    return 0;
}
EXP int pthread_mutex_unlock(pthread_mutex_t *m) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd;
    g.cur->step++;
    g.total++;
    if (int e = injected(MX_UNLOCK)) return e;
    SimMutex &x = mxOf(m, PC, "unlock");
    if (x.owner != g.cur->id) {
        if (x.pi || x.type != PTHREAD_MUTEX_NORMAL || x.owner < 0) {
            if (!(x.pi || x.type != PTHREAD_MUTEX_NORMAL))
                violate("mem", false, "unlock of a mutex that is not locked pc=%p", PC);
            return EPERM;
        }
        violate("mem", false, "unlock of a mutex held by another thread pc=%p", PC);
    }
    if (x.type == PTHREAD_MUTEX_RECURSIVE && --x.count > 0) return 0;
    mxRelease(m, x);
    syncPoint(22, m);
    return 0;
}

EXP int pthread_condattr_init(pthread_condattr_t *a) __THROW { *(int *)a = 0; return osInit(); }
EXP int pthread_condattr_destroy(pthread_condattr_t *) __THROW { return 0; }
EXP int pthread_condattr_setclock(pthread_condattr_t *, clockid_t) __THROW { return 0; }
EXP int pthread_condattr_setpshared(pthread_condattr_t *, int) __THROW { return 0; }
EXP int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) __THROW {
    __real_memset(c, 0, sizeof *c);
    if (!on()) return 0;
    Guard gd;
    useObject(c, sizeof *c, PC, "condition variable initialisation");
    accessRange((uintptr_t)c, sizeof *c, true, false, PC);
    int e = osInit();
    g.cv[c] = SimCond();
    g.cv[c].dead = e != 0;
    return e;
}
EXP int pthread_cond_destroy(pthread_cond_t *c) __THROW {
    if (!on()) return 0;
    Guard gd;
    SimCond &v = cvOf(c, PC, "condition variable destruction");
    if (!v.w.empty())
        violate("mem", false, "a condition variable is destroyed while %zu threads wait on it: %s", v.w.size(), descAddr((uintptr_t)c).c_str());
    v.dead = true;
    return 0;
}
EXP int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!on()) return 0;
    return condWait(c, m, -1, PC);
}
EXP int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (!on()) return 0;
    return condWait(c, m, absUs(t), PC);
}
EXP int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) {
    if (!on()) return 0;
    return condWait(c, m, absUs(t), PC);
}
EXP int pthread_cond_signal(pthread_cond_t *c) __THROWNL {
    if (!on()) return 0;
    Guard gd;
    syncPoint(24, c);
    SimCond &v = cvOf(c, PC, "condition signal");
    if (v.w.empty()) return 0;
    size_t i = 0;
    if (g.cs->sched.strat == ST_PRIO) {
        for (size_t k = 1; k < v.w.size(); k++) if (g.fibers[v.w[k]]->prio > g.fibers[v.w[i]]->prio) i = k;
    } else if (!g.fair && v.w.size() > 1) {
        if (g.replay) {
            int64_t f;
            if (ovrGet('W', f)) for (size_t k = 0; k < v.w.size(); k++) if (v.w[k] == f) { i = k; countFault(FK_WAITER); }
        } else if (g.cs->sched.sigChoice) {
            i = g.rng.below(v.w.size());
            if (i) { record('W', v.w[i]); countFault(FK_WAITER); }
        }
    }
    int fid = v.w[i];
    v.w.erase(v.w.begin() + i);
    wakeWaiter(fid);
    return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t *c) __THROWNL {
    if (!on()) return 0;
    Guard gd;
    syncPoint(25, c);
    SimCond &v = cvOf(c, PC, "condition broadcast");
    for (int f : v.w) wakeWaiter(f);
    v.w.clear();
    return 0;
}

// ---------------------------------------------------------------- other primitives a changed library might use
static void rwWake(void *p) { for (Fiber *f : g.fibers) if (f->st == F_RW && f->obj == p) f->st = F_READY; }
static void rwBlock(void *p) { g.cur->st = F_RW; g.cur->obj = p; block(); g.cur->obj = nullptr; }
EXP int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) __THROW { __real_memset(l, 0, sizeof *l); if (on()) { Guard gd; g.rw[l] = SimRw(); } return 0; }
EXP int pthread_rwlock_destroy(pthread_rwlock_t *l) __THROW { if (on()) { Guard gd; g.rw.erase(l); } return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t *l) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd; syncPoint(26, l); useObject(l, sizeof *l, PC, "rwlock");
    while (g.rw[l].writer >= 0) rwBlock(l);
    g.rw[l].readers++; g.rw[l].rd.push_back(g.cur->id); joinVC(g.cur->vc, g.rw[l].vc); return 0;
}
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd; syncPoint(26, l);
    if (g.rw[l].writer >= 0) return EBUSY;
    g.rw[l].readers++; g.rw[l].rd.push_back(g.cur->id); joinVC(g.cur->vc, g.rw[l].vc); return 0;
}
EXP int pthread_rwlock_wrlock(pthread_rwlock_t *l) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd; syncPoint(26, l); useObject(l, sizeof *l, PC, "rwlock");
    while (g.rw[l].writer >= 0 || g.rw[l].readers) rwBlock(l);
    g.rw[l].writer = g.cur->id; joinVC(g.cur->vc, g.rw[l].vc); return 0;
}
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t *l) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd; syncPoint(26, l);
    if (g.rw[l].writer >= 0 || g.rw[l].readers) return EBUSY;
    g.rw[l].writer = g.cur->id; joinVC(g.cur->vc, g.rw[l].vc); return 0;
}
EXP int pthread_rwlock_unlock(pthread_rwlock_t *l) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd;
    SimRw &x = g.rw[l];
    if (x.writer == g.cur->id) x.writer = -1;
    else if (x.readers) {
        x.readers--;
        auto i = std::find(x.rd.begin(), x.rd.end(), g.cur->id);
        if (i != x.rd.end()) x.rd.erase(i);
    }
    joinVC(x.vc, g.cur->vc); relTick();
    rwWake(l);
    syncPoint(27, l);
    return 0;
}
EXP int pthread_spin_init(pthread_spinlock_t *l, int) __THROW { *l = 0; if (on()) { Guard gd; g.mx[(void *)l] = SimMutex(); } return 0; }
EXP int pthread_spin_destroy(pthread_spinlock_t *) __THROW { return 0; }
EXP int pthread_spin_lock(pthread_spinlock_t *l) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd; syncPoint(20, (void *)l);
    SimMutex *x = &g.mx[(void *)l];
    while (x->owner >= 0) { g.now++; if (g.cs->sched.strat == ST_PRIO) { syncPoint(28, (void *)l); } else switchTo(pickNext(true)); g.total++; checkCap(); x = &g.mx[(void *)l]; }
    x->owner = g.cur->id; joinVC(g.cur->vc, x->vc); return 0;
}
EXP int pthread_spin_trylock(pthread_spinlock_t *l) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd; syncPoint(21, (void *)l);
    SimMutex &x = g.mx[(void *)l];
    if (x.owner >= 0) return EBUSY;
    x.owner = g.cur->id; joinVC(g.cur->vc, x.vc); return 0;
}
EXP int pthread_spin_unlock(pthread_spinlock_t *l) __THROWNL {
    if (!simCaller(PC)) return 0;
    Guard gd;
    SimMutex &x = g.mx[(void *)l]; x.owner = -1; x.vc = g.cur->vc; relTick();
    syncPoint(22, (void *)l);
    return 0;
}
EXP int sem_init(sem_t *s, int, unsigned v) __THROW { if (on()) { Guard gd; SimSem x; x.v = v; g.sems[s] = x; } return 0; }
EXP int sem_destroy(sem_t *) __THROW { return 0; }
EXP int sem_wait(sem_t *s) {
    if (!on()) return 0;
    Guard gd; syncPoint(29, s); useObject(s, sizeof *s, PC, "semaphore wait");
    while (!g.sems[s].v) { rwBlock(s); useObject(s, sizeof *s, PC, "semaphore wait"); }
    g.sems[s].v--; joinVC(g.cur->vc, g.sems[s].vc); return 0;
}
EXP int sem_trywait(sem_t *s) __THROWNL {
    if (!on()) return 0;
    Guard gd; syncPoint(29, s);
    if (!g.sems[s].v) { errno = EAGAIN; return -1; }
    g.sems[s].v--; joinVC(g.cur->vc, g.sems[s].vc); return 0;
}
EXP int sem_post(sem_t *s) __THROWNL {
    if (!on()) return 0;
    Guard gd; syncPoint(30, s); useObject(s, sizeof *s, PC, "semaphore post");
    g.sems[s].v++; joinVC(g.sems[s].vc, g.cur->vc); relTick(); rwWake(s); return 0;
}
EXP int sem_getvalue(sem_t *s, int *v) __THROW { *v = (int)g.sems[s].v; return 0; }

EXP int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    volatile int *p = (volatile int *)o;
    if (!on()) { if (*p == 0) { *p = 2; fn(); } return 0; }
    {
        Guard gd;
        syncPoint(31, o);
        while (*p == 1) switchTo(pickNext(true));
        if (*p == 2) { joinVC(g.cur->vc, syncVar((uintptr_t)o)); return 0; }
        *p = 1;
    }
    fn();
    Guard gd;
    *p = 2;
    joinVC(syncVar((uintptr_t)o), g.cur->vc); relTick();
    return 0;
}
// Threads of the code under test become fibers of the simulation.
EXP int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*start)(void *), void *arg) __THROWNL {
    if (!on()) return EAGAIN;
    Guard gd;
    syncPoint(60, nullptr);
    Fiber *f = newFiber();
    f->start = start;
    f->arg = arg;
    f->prio = g.cur->prio;
    f->op = 20000 + f->id;
    joinVC(f->vc, g.cur->vc);
    f->vc[f->id] = 1;
    relTick();
    if (!g.replay) f->pctPrio = 1000 + (int64_t)g.rng.below(1000000);
    *t = (pthread_t)(0x7000 + f->id);
    syncPoint(61, nullptr);
    return 0;
}
EXP int pthread_join(pthread_t t, void **ret) {
    if (!on()) return ESRCH;
    Guard gd;
    syncPoint(62, nullptr);
    Fiber *f = byHandle(t);
    if (!f) return ESRCH;
    if (f == g.cur) return EDEADLK;
    if (f->joined || f->detached) { violate("mem", false, "a thread is joined twice or after it was detached pc=%p", PC); return EINVAL; }
    f->joined = true;
    waitFinished(f->id);
    if (ret) *ret = f->ret;
    return 0;
}
EXP int pthread_detach(pthread_t t) __THROW {
    if (!on()) return ESRCH;
    Guard gd;
    Fiber *f = byHandle(t);
    if (!f) return ESRCH;
    f->detached = true;
    return 0;
}
EXP int pthread_setname_np(pthread_t, const char *n) __THROW {
    if (!on()) return 0;
    if (runParam("noNames")) { countFault(FK_OSERR); return EPERM; }
    return strlen(n) > 15 ? ERANGE : 0;
}
EXP int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) __THROW {
    if (!on() || !runParam("noAffinity")) return 0;
    countFault(FK_OSERR);
    return EINVAL;
}
EXP int get_nprocs(void) __THROW { return on() ? (int)runParam("cpus") : 1; }
EXP pthread_t pthread_self(void) __THROW { return g.cur ? (pthread_t)(0x7000 + g.cur->id) : (pthread_t)0x6fff; }
EXP int pthread_equal(pthread_t a, pthread_t b) __THROW { return a == b; }

EXP int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *) __THROW {
    if (!g.cur) return 0;
    Guard gd;
    g.cur->atExit.push_back({fn, obj});
    return 0;
}
EXP int __cxa_guard_acquire(uint64_t *gu) {
    volatile char *b = (volatile char *)gu;
    if (!on()) { return *b ? 0 : 1; }
    Guard gd;
    syncPoint(32, gu);
    if (*b) { joinVC(g.cur->vc, syncVar((uintptr_t)gu)); return 0; }
    while (b[1]) { g.total++; checkCap(); switchTo(pickNext(true)); }
    if (*b) { joinVC(g.cur->vc, syncVar((uintptr_t)gu)); return 0; }
    b[1] = 1;
    return 1;
}
EXP void __cxa_guard_release(uint64_t *gu) __THROW {
    volatile char *b = (volatile char *)gu;
    *b = 1; b[1] = 0;
    if (on()) { Guard gd; joinVC(syncVar((uintptr_t)gu), g.cur->vc); relTick(); }
}
EXP void __cxa_guard_abort(uint64_t *gu) __THROW { ((volatile char *)gu)[1] = 0; }

// ---------------------------------------------------------------- time
static int64_t tsUs(const struct timespec *t) { return int64_t(t->tv_sec) * 1000000 + (t->tv_nsec + 999) / 1000; }
EXP int nanosleep(const struct timespec *t, struct timespec *) {
    if (!on()) return 0;
    Guard gd;
    sim::doSleep(tsUs(t));
    return 0;
}
EXP int clock_nanosleep(clockid_t, int flags, const struct timespec *t, struct timespec *) {
    if (!on()) return 0;
    Guard gd;
    int64_t us = tsUs(t);
    if (flags & TIMER_ABSTIME) us = us > g.now ? us - g.now : 0;
    sim::doSleep(us);
    return 0;
}
EXP int usleep(useconds_t us) { if (!on()) return 0; Guard gd; sim::doSleep(us); return 0; }
EXP unsigned sleep(unsigned s) { if (!on()) return 0; Guard gd; sim::doSleep(int64_t(s) * 1000000); return 0; }
EXP int sched_yield(void) __THROW {
    if (!on()) return 0;
    Guard gd;
    g.cur->step++; g.total++; g.now++;
    checkCap();
    logEvent(33, nullptr);
    if (g.cs->sched.strat == ST_PRIO) { fireTimers(); switchTo(pickNext(true)); return 0; }
    if (g.cs->sched.strat == ST_PCT && !g.replay) g.cur->pctPrio = --g.pctLow;
    fireTimers();
    switchTo(pickNext(true));
    return 0;
}
EXP int clock_gettime(clockid_t id, struct timespec *t) __THROW {
    if (!on()) return (int)syscall(SYS_clock_gettime, id, t);
    g.now++;
    t->tv_sec = g.now / 1000000;
    t->tv_nsec = (g.now % 1000000) * 1000;
    return 0;
}
EXP int gettimeofday(struct timeval *t, void *) __THROW {
    if (!on()) return (int)syscall(SYS_gettimeofday, t, nullptr);
    g.now++;
    t->tv_sec = g.now / 1000000;
    t->tv_usec = g.now % 1000000;
    return 0;
}

// ====================================================================== C++ seams
unsigned std::thread::hardware_concurrency() noexcept { return on() ? (unsigned)runParam("cpus") : 1; }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() {
    return g.cs ? (result_type)mix(mix(g.cs->seed, g.cs->run), 0xDE71CE) : 1;
}

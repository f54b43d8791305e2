// Deterministic simulator runtime: public interface.
//
// One OS thread.  Every simulated thread is a fiber; every memory access, atomic operation, lock,
// condition variable, sleep, clock read and heap allocation made by code compiled with the
// simulator's instrumentation enters this runtime, which owns all scheduling, time and faults.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a + 1))); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    bool oneIn(uint32_t n) { return n && below(n) == 0; }
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- a case (what a replay file holds)
struct Op {
    int id = 0;
    std::string code;
    int64_t a = 0, b = 0, c = 0, d = 0;
};
struct Lane {
    int id = 0;      // stable fiber number (1..n); lane 0 is the harness main fiber
    int prio = 0;
    std::vector<Op> ops;
};
struct Param { std::string k; int64_t v; };

// One recorded non-default decision.
struct Decision {
    char kind = 0;        // S switch, B next after block, W waiter choice, P spurious wake, C weak CAS fails,
                          // F allocation fails, E mutex call error, D stall (virtual us)
    int fid = 0;
    int op = 0;
    uint32_t idx = 0;
    int64_t val = 0;
};

enum Strat { ST_RANDOM = 0, ST_PCT = 1, ST_PAUSE = 2, ST_PRIO = 3, ST_RR = 4 };
struct SchedCfg {
    int strat = ST_RANDOM;
    int pSwitch = 3;          // 1/n at synchronisation points
    int plainGap = 0;         // mean number of plain accesses between preemptions (0 = never)
    int pctDepth = 3;
    int pctLen = 400;
    int spurious = 0;         // 1/n per condition wait (0 = off)
    int weakCas = 0;          // 1/n per weak CAS
    int weakMem = 0;          // 1/n per atomic store that is not sequentially consistent
    int stall = 0;            // 1/n per synchronisation point
    int64_t stallMaxUs = 0;
    int64_t stallBudgetUs = 0;
    int sigChoice = 0;        // nonzero: any waiter may be woken, zero: FIFO
    int64_t stepCap = 4000000;
    int races = 1;            // race detector enabled
    int fill = 0;             // what uninitialised memory holds: 0 0xCD, 1 zeros, 2 ones, 3 and more: pseudo-random
};

struct Case {
    std::string prop, scenario;
    uint64_t seed = 0, run = 0;
    std::vector<Param> params;
    std::vector<Lane> lanes;
    SchedCfg sched;
    bool replay = false;
    std::vector<Decision> decisions; // in replay mode: the overrides
    int64_t get(const char *k, int64_t dflt = 0) const;
    void set(const char *k, int64_t v);
    std::string text() const;
    bool parse(const std::string &, std::string &err);
};

// ---------------------------------------------------------------- faults counters
enum FaultKind { FK_PREEMPT, FK_PREEMPT_PLAIN, FK_SPURIOUS, FK_WAITER, FK_WEAKCAS, FK_STALL, FK_ALLOC, FK_MUTEXERR,
                 FK_THROW, FK_ABORT, FK_DESTROY, FK_TIMER, FK_OSERR, FK_STORE, FK_N };
extern const char *const faultNames[FK_N];
void countFault(FaultKind k);

// ---------------------------------------------------------------- scenario interface
struct Scenario {
    virtual ~Scenario() {}
    virtual void generate(Case &, Rng &) = 0;      // fill lanes/params/sched from the rng
    virtual void main(const Case &) = 0;           // runs as fiber 0
    virtual void check(const Case &) {}            // runs after the last fiber ended, outside the simulation
};
Scenario *makeScenario(const std::string &name);   // registry in main.cpp

// ---------------------------------------------------------------- running
struct Result {
    bool violated = false;     // a violation claimed by the property
    bool foreign = false;      // ended early by something the property does not claim
    char tag[64] = "";
    char msg[1024] = "";
    uint64_t hash = 0;
    uint64_t steps = 0, switches = 0, preempts = 0;
    int64_t simUs = 0;
    uint32_t faults[FK_N] = {};
    uint32_t probes[32] = {};
    uint32_t softForeign = 0;  // non-fatal violations of other properties
    int fibers = 0;
    bool linCapped = false;
    uint32_t nDecisions = 0;
};
using ClaimFn = bool (*)(const char *tag);
// Runs the case.  Recorded decisions are appended to out (generation mode).
void runCase(const Case &c, Scenario &s, ClaimFn claims, Result &r, std::vector<Decision> &out);
void onFatal(void (*fn)());         // called when a run is abandoned; must not return (child exits)
void initProcess();

// ---------------------------------------------------------------- services for scenario code
int self();                               // fiber id
uint64_t tick();                          // strictly increasing event number
int64_t nowUs();
int spawnLane(const Lane &, void (*fn)(const Lane &)); // starts a fiber; returns fiber id
void beginOp(int opId);
void point();                             // voluntary scheduling point
void sleepUs(int64_t us);
void waitQuiescent();                     // until nothing else can run and no timer is pending
void waitFinished(int fid);               // blocks (fair) until the fiber ended
bool finished(int fid);
bool allFinished();
enum BlockKind { BK_NONE, BK_MUTEX, BK_COND, BK_SLEEP, BK_OTHER };
BlockKind blockKind(int fid);
void setPrio(int fid, int prio);
void probe(int n);
void linCapped();
// Reports a violation.  Does not return if it is fatal or claimed.
void violate(const char *tag, bool fatal, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
bool inSim();

// Heap control
void allocFailAfter(int64_t n);           // the calling thread's n-th next allocation fails (0 = next); -1 = off
int64_t attemptsSelf();                   // allocations attempted by the calling thread
void osInitFailAfter(int64_t n, int err);  // the calling thread's n-th next initialisation of a mutex, condition variable or attribute fails
int64_t osInitsSelf();                    // such initialisations attempted by the calling thread
void allocFailAll(bool on);               // the heap is exhausted: any request is a violation ("heap")
int64_t runParam(const char *k);           // a parameter of the current run
int64_t allocCount();                     // hooked allocations so far in this run (by instrumented code)
int64_t allocAttempts();
size_t liveBlocks();                      // blocks allocated by instrumented code and not yet released
size_t liveBlocksOf(int fid);             // those allocated by the given fiber
std::string describeLive(int fid = -1);
// Mutex call faults (C23): error code injected in the next pthread_mutex_* call of that kind of the calling fiber.
enum MxCall { MX_LOCK, MX_TRYLOCK, MX_UNLOCK };
void mutexErrorNext(int err, MxCall k);   // 0 = none
int mutexErrorPending();                  // the error that was not delivered yet
int mutexOwner(void *native);             // fiber id or -1
bool mutexWasBlocked();                   // the fiber's last lock had to wait
uint64_t blockedCountSelf();              // times the calling fiber blocked so far
// Harness hand-over of an object between threads over channel ch.
void hbRelease(int ch);
void hbAcquire(int ch);
void grantSync();                         // current fiber happens-after everything so far (harness bookkeeping)

// Marks memory as the contents of a live user object: writes by anybody while not in user code are violations.
void protect(const void *p, size_t n);
void unprotect(const void *p, size_t n);
bool heapValid(const void *p, size_t n);

struct Off {    // runtime hooks disabled, libc heap
    Off(); ~Off();
    Off(const Off &) = delete;
};
struct User {   // running user-supplied code (constructors, callbacks, dispatch)
    User(); ~User();
    User(const User &) = delete;
};
} // namespace sim

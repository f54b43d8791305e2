// Helpers shared by the scenarios.  Scenario files are compiled with instrumentation because they
// instantiate the library's templates; bookkeeping runs under sim::Off.
#pragma once
#include "lin.hpp"
#include "rt.hpp"
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "ReiserRT_CoreExceptions.hpp"

using sim::Case; using sim::Lane; using sim::Off; using sim::Rng; using sim::User;
namespace RR = ReiserRT::Core;

enum Probe {
    P_BLOCKED_TAKE, P_BLOCKED_GIVE, P_THROW_WHILE_WAITERS, P_ABORT_WITH_WAITERS, P_EXHAUSTED, P_SLOT_REUSE,
    P_CTOR_THROW, P_DISPATCH_THROW, P_WAKE_THROW, P_PURGE_NONEMPTY, P_FLUSH_NONEMPTY, P_LOCK_CONTENDED, P_LOCK_MOVED,
    P_CROSS_THREAD_RELEASE, P_OVERFLOW, P_WRAP, P_MANY_WAITERS, P_BOOSTED, P_DESTROY_BLOCKED, P_DESTROY_QUEUED,
    P_PRIME_ABORT, P_ABORT_IN_CALL, P_ALLOC_FAILED_CTOR, P_NAME_QUERY_BUSY, P_STATS_CONCURRENT, P_TRYLOCK_BUSY,
    P_N
};
extern const char *const probeNames[P_N];

// Chooses the scheduling strategy and the enabled fault kinds of a run.
void genSched(Case &, Rng &, bool stalls = false);
// How often the component is used by one thread before the concurrent part begins (parameter "age"):
// counters that wrap and state left behind by use.  far: also more than 16 bits count.
void genAge(Case &, Rng &, bool far = false);
// Re-numbers operations; call at the end of generate().
void numberOps(Case &);
bool has(const Case &, const char *prop);
// The number of the property whose workload the run uses (C25 and C27 borrow the workloads of the others).
inline int prof(const Case &c) { return (int)c.get("prof"); }
// Heap exhaustion (C25): everything between begin and end runs with every allocation failing.
void heapPhaseBegin(const Case &);
void heapPhaseEnd(const Case &);

// History of one run (plain data, libc heap).
struct Hist {
    std::vector<lin::Op> ops;
    std::vector<std::vector<int64_t>> lists;
    uint64_t endTick = 0;
    size_t begin(int lane, int kind, int64_t a = 0) {
        Off o;
        ops.push_back({lane, sim::tick(), lin::INF, kind, a, 0});
        return ops.size() - 1;
    }
    void end(size_t i, int64_t res) {
        Off o;
        ops[i].res = res;
        ops[i].ret = sim::tick();
    }
    void mark() { Off o; endTick = sim::tick(); }
    // Operations begun before the mark; those that had not returned by then are pending.
    std::vector<lin::Op> upToMark() const {
        std::vector<lin::Op> r;
        for (auto &x : ops)
            if (x.inv < endTick) { r.push_back(x); if (x.ret > endTick) r.back().ret = lin::INF; }
        return r;
    }
    std::string text(const lin::Model &, size_t max = 60) const;
};
// Runs the linearizability check and reports tag.lin / tag.stuck.
void linCheck(const char *tag, const lin::Model &m, const std::vector<lin::Op> &ops, size_t cap = 200000);
void spawnAll(const Case &c, void (*fn)(const Lane &));
// Thrown by injected user code faults.  Users throw what they like, the library's own errors included, so
// the base class varies from throw to throw.
struct UserError { int n; };
template <class B> struct UserEx : B, UserError {
    template <class... A> explicit UserEx(int n, A... a) : B(a...), UserError{n} {}
};
[[noreturn]] void throwUser(int n);
// State of a user's function object, too big to be stored without the heap: who copies the function allocates.
struct Captured {
    uint64_t a[8];
    Captured() { for (int i = 0; i < 8; i++) a[i] = 0x1234567 * (i + 1); }
    void use() const { for (int i = 0; i < 8; i++) if (a[i] != uint64_t(0x1234567 * (i + 1))) sim::violate("harness", true, "a function object was damaged"); }
};
extern bool simVerbose;

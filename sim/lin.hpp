// Linearizability checking of recorded histories against small sequential models.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace lin {
static const uint64_t INF = ~0ull;
struct Op {
    int lane;            // sequential per lane
    uint64_t inv, ret;   // ret == INF: pending (blocked) when the history ended
    int kind;
    int64_t a = 0, res = 0;
};
using State = std::vector<int64_t>;
struct Model {
    virtual ~Model() {}
    virtual State init() const = 0;
    // Applies a completed operation; false if it cannot take effect with that result in this state.
    virtual bool step(State &, const Op &, int choice) const = 0;
    virtual int choices(const Op &) const { return 1; }   // number of ways the operation can take effect
    // May the blocked operation proceed (with any result) in this state?
    virtual bool enabled(const State &, const Op &) const = 0;
    virtual const char *name(int kind) const = 0;
    virtual bool ordered() const { return true; } // state depends on the order of operations
};
enum Verdict { OK, NOT_LINEARIZABLE, STUCK, CAPPED };
Verdict check(const Model &, std::vector<Op> ops, size_t nodeCap, std::string &why);

// ------------------------------------------------------------ semaphore
enum SemKind { TAKE, GIVE, COUNT, ABORT };
enum Outcome { R_OK = 0, R_ABORTED = -1, R_EXC = -2, R_OVERFLOW = -3, R_ERR = -4, R_ACCEPTED = 1, R_DROPPED = 2 };
struct SemModel : Model {
    int64_t init0, max;
    SemModel(int64_t i, int64_t m) : init0(i), max(m) {}
    State init() const override { return {init0, 0}; }
    bool step(State &, const Op &, int choice) const override;
    bool enabled(const State &, const Op &) const override;
    const char *name(int k) const override { const char *n[] = {"take", "give", "getAvailableCount", "abort"}; return n[k]; }
    bool ordered() const override { return false; }
};
// ------------------------------------------------------------ ring buffer (blocking) and message queue
enum RingKind { PUT, GET, T_ABORT, S_ABORT, FLUSH, PRIME, ACQ, REL, CGET };
struct RingModel : Model {   // state: [tAborted, sAborted, needsPriming, elements...]
    int64_t cap; bool priming; int64_t primeCount;
    RingModel(int64_t c, bool p) : cap(c), priming(p), primeCount(c) {}
    State init() const override { return {0, 0, priming ? 1 : 0}; }
    int choices(const Op &o) const override { return o.kind == PUT && o.res >= 0 ? 2 : 1; }
    bool step(State &, const Op &, int choice) const override;
    bool enabled(const State &, const Op &) const override;
    const char *name(int k) const override { const char *n[] = {"put", "get", "abort", "abort'", "flush", "prime", "?", "?", "?"}; return n[k]; }
    std::vector<std::vector<int64_t>> flushes; // FLUSH/PRIME op.a indexes this: the values delivered
};
// The same buffer, counting elements only: state [tAborted, sAborted, n]
struct RingCountModel : Model {
    int64_t cap;
    explicit RingCountModel(int64_t c) : cap(c) {}
    State init() const override { return {0, 0, 0}; }
    int choices(const Op &o) const override { return o.kind == PUT && o.res >= 0 ? 2 : 1; }
    bool step(State &, const Op &, int choice) const override;
    bool enabled(const State &, const Op &) const override;
    const char *name(int k) const override { const char *n[] = {"put", "get", "abort", "abort'", "flush", "prime", "?", "?", "?"}; return n[k]; }
};
// Message queue: ACQ takes a slot, PUT enqueues a, GET dequeues a, REL frees a slot.
// state: [free, queue aborted, slots aborted, elements...]
struct MqModel : Model {
    int64_t cap;
    explicit MqModel(int64_t c) : cap(c) {}
    State init() const override { return {cap, 0, 0}; }
    int choices(const Op &o) const override { return o.kind == REL ? 2 : 1; }
    bool step(State &, const Op &, int choice) const override;
    bool enabled(const State &, const Op &) const override;
    const char *name(int k) const override { const char *n[] = {"enqueue", "dequeue", "abort", "abort'", "?", "?", "acquire-slot", "release-slot", "?"}; return n[k]; }
};
// ------------------------------------------------------------ pool: state [free]
struct PoolModel : Model {
    int64_t cap;
    explicit PoolModel(int64_t c) : cap(c) {}
    State init() const override { return {cap}; }
    bool step(State &, const Op &, int choice) const override;
    bool enabled(const State &, const Op &) const override { return true; }
    const char *name(int k) const override { return k == ACQ ? "allocate" : "release"; }
    bool ordered() const override { return false; }
};
} // namespace lin

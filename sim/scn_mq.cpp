// Scenario: one message queue (C18: two) shared by producers, dispatchers, lockers and observers.
// Properties C11, C15-C22 (and C25, C27).
#include "live.hpp"
#include "MessageQueue.hpp"
#include <set>

namespace {
using lin::INF;
enum PutRes { PR_PENDING, PR_OK, PR_THREW, PR_SIZE, PR_ABORT };
enum Flags { FL_THROW = 1, FL_RESEND = 2, FL_SLEEP = 4, FL_POINTS = 8, FL_STATS = 16, FL_NAME = 32 };
struct MRec {
    int lane = 0, type = 0, flags = 0, q = 0;
    uint64_t putInv = 0, ctorStart = 0, ctorEnd = 0, putRet = INF;
    int res = PR_PENDING;
    uint64_t getInv = 0, seen = 0, wakeEnd = 0, dispStart = 0, dispEnd = 0, dtor = 0, getRet = INF;
    int nDisp = 0;
    bool ctorThrew = false, byPutter = false, purged = false, flushed = false;
};
struct GRec { uint64_t inv, ret = INF; int q; int64_t serial = -1; bool err = false; uint64_t seen = 0; };
struct StatRec { int q; uint64_t inv, ret; int64_t size, running, high; };
struct NameRec { int q; uint64_t inv, ret; char s[128] = {}; };
enum CtxKind { CX_NONE, CX_PUT, CX_GET, CX_PURGE, CX_DESTROY };
struct Ctx {
    int kind = CX_NONE, q = 0;
    int64_t serial = -1;
    int throwAt = 0;
    uint64_t seen = 0, wakeEnd = 0;
    int wakes = 0;
    bool useWake = false, wakeThrow = false;
    uint64_t inv = 0;
    std::vector<int64_t> *got = nullptr;   // purge: what was destroyed
};
struct G {
    Case const *c = nullptr;
    LiveReg reg;
    std::vector<MRec> m;                    // by serial
    std::vector<GRec> gets;
    std::vector<StatRec> stats;
    std::vector<NameRec> names;
    RR::MessageQueue *mq[2] = {nullptr, nullptr};
    int64_t cap = 0, slot = 0;
    bool locking = false, roomy = false, soak = false;
    Ctx ctx[64];
    std::function<void()> wake;
    int holder[2] = {-1, -1}, dispatching[2] = {0, 0};
    std::vector<uint64_t> rel[2];           // ticks at which the dispatch lock was about to be released
    uint64_t abortInv = INF, abortRet = INF;
    std::vector<std::pair<uint64_t, uint64_t>> aborts;
    bool closing = false;
    std::string placeholder[2];
    int64_t soakNext = 0;
    uint64_t destroyInv = INF;
};
G *g;
#define ME (sim::self() & 63)
char nameBuf[4096][12];
const char *nameOf(int64_t s) { return nameBuf[s & 4095]; }
void initNames() {
    if (nameBuf[0][0]) return;
    for (int i = 0; i < 4096; i++) snprintf(nameBuf[i], 12, "msg%d", i);
}
int64_t padded(int64_t n) { return (n + 7) / 8 * 8; }

// ---------------------------------------------------------------- hooks called by the messages
void fill(unsigned char *b, size_t n, int64_t s) { for (size_t i = 0; i < n; i++) b[i] = LiveReg::pat(s, i); }
bool intact(const unsigned char *b, size_t n, int64_t s) { for (size_t i = 0; i < n; i++) if (b[i] != LiveReg::pat(s, i)) return false; return true; }
bool placed(const void *p) { Off o; return sim::heapValid(p, 1); }
void born(void *p, size_t n, int64_t s) {
    Off o;
    g->reg.add(p, n, s);
    MRec &r = g->m[s];
    if (!r.ctorStart) r.ctorStart = sim::tick();
}
void ready(void *p, size_t n, int64_t s) { Off o; g->reg.protect(p, n); g->m[s].ctorEnd = sim::tick(); }
bool wantThrow(void *p, size_t n, int64_t s) {
    Off o;
    Ctx &x = g->ctx[ME];
    if (x.kind != CX_PUT || x.serial != s || !x.throwAt) return false;
    g->reg.remove(p, n, s);
    g->m[s].ctorThrew = true;
    sim::countFault(sim::FK_THROW);
    sim::probe(P_CTOR_THROW);
    return true;
}
// Attributes a message to the getAndDispatch call running in this fiber.
void sight(int64_t s) {
    Ctx &x = g->ctx[ME];
    if (x.kind != CX_GET) return;
    if (!x.seen) x.seen = sim::tick();
    if (x.serial < 0) {
        x.serial = s;
        MRec &r = g->m[s];
        if (r.getInv) sim::violate("mq.once", true, "message %lld was taken by two dispatch calls", (long long)s);
        r.getInv = x.inv;
        r.seen = x.seen;
        r.wakeEnd = x.wakeEnd;
    } else if (x.serial != s) sim::violate("mq.once", true, "one dispatch call took messages %lld and %lld", (long long)x.serial, (long long)s);
}
void dispatched(int64_t s, bool ok);
bool died(void *p, size_t n, int64_t s, bool ok) {
    Off o;
    bool was = g->reg.remove(p, n, s);
    if (!was) return false;
    MRec &r = g->m[s];
    if (!r.dtor) r.dtor = sim::tick();
    if (!ok) {
        sim::violate("mq.content", false, "message %lld was damaged before it was destroyed", (long long)s);
        sim::violate("obj", false, "the contents of message %lld changed while it was live", (long long)s);
    }
    Ctx &x = g->ctx[ME];
    switch (x.kind) {
    case CX_GET: sight(s); break;
    case CX_PURGE: r.purged = true; x.got->push_back(s); if (r.nDisp) sim::violate("mq.purge", true, "purge destroyed message %lld, which had been dispatched", (long long)s); break;
    case CX_DESTROY: r.flushed = true; break;
    case CX_PUT: if (x.serial == s) { r.byPutter = true; break; } // fall through
    default: sim::violate("mq.life", true, "message %lld was destroyed by an operation that has nothing to do with it", (long long)s);
    }
    return true;
}
struct Out {};
struct Arg {
    int64_t v; int copies = 0, moves = 0;
    explicit Arg(int64_t x) : v(x) {}
    Arg(const Arg &o) : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    Arg(Arg &&o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1; }
};
void argCheck(int64_t s, const Arg &l, const Arg &r, Arg &mut) {
    if (l.v != s + 1 || l.copies || l.moves || r.v != s + 2 || r.copies || r.moves || mut.v != s + 3 || mut.copies) {
        Off o;
        sim::violate("mq.content", false, "the arguments of message %lld did not arrive as given", (long long)s);
    }
    mut.v = -7;
}
struct Side { uint64_t side = 0x51DE51DE51DE51DEull; virtual ~Side() = default; virtual int s() const { return 1; } };
// TR: the properties of the type a library may look at.
enum Traits { TR_DEFAULT = 1 /* default constructible, without throwing */, TR_MOVE = 2 /* moving cannot throw */, TR_ARGS = 4 /* construction cannot throw */,
              TR_COPY = 8 /* copyable without throwing */ };
struct NotThis {};
#define MSG(NAME, BASES, EXTRAOK) \
template <size_t S, int TR = 0> struct NAME : BASES { \
    int64_t serial; \
    unsigned char body[S]; \
    NAME(Out, int64_t s) : serial(s) { fill(body, S, s); } \
    template <int X = TR, std::enable_if_t<(X & TR_DEFAULT) != 0, int> = 0> NAME() noexcept : serial(-1) {} \
    NAME(typename std::conditional<(TR & TR_COPY) != 0, const NAME &, const NotThis &>::type o) noexcept : serial(-1) { \
        Off x; sim::violate("mq.content", false, "a message was copied although it was given away"); (void)o; } \
    NAME(int64_t s, const Arg &l, Arg &&r, Arg &mut) noexcept((TR & TR_ARGS) != 0) : serial(s) { \
        User u; \
        bool in = placed(this); \
        if (in) born(this, sizeof *this, s); \
        argCheck(s, l, r, mut); \
        fill(body, S, s); \
        if (in) { if constexpr (!(TR & TR_ARGS)) { if (wantThrow(this, sizeof *this, s)) throwUser(int(s)); } ready(this, sizeof *this, s); } \
    } \
    NAME(NAME &&o) noexcept((TR & TR_MOVE) != 0) : serial(o.serial) { \
        User u; \
        bool in = placed(this); \
        if (in) born(this, sizeof *this, serial); \
        for (size_t i = 0; i < S; i++) { body[i] = o.body[i]; o.body[i] = 0x5A; } \
        if (in) { if constexpr (!(TR & TR_MOVE)) { if (wantThrow(this, sizeof *this, serial)) throwUser(int(serial)); } ready(this, sizeof *this, serial); } \
    } \
    bool ok() const { return intact(body, S, serial) EXTRAOK; } \
    ~NAME() noexcept { \
        User u; \
        if (!placed(this)) return; \
        if (!died(this, sizeof *this, serial, ok())) return; \
        for (size_t i = 0; i < S; i++) body[i] = 0xA5; \
    } \
    void dispatch() override { dispatched(serial, ok()); } \
    NAME##_NAME \
};
#define NAMED const char *name() const override { Off o; sight(serial); return nameOf(serial); }
#define Msg_NAME NAMED
#define MsgM_NAME NAMED
#define MsgV_NAME NAMED
#define MsgT_NAME NAMED
#define MsgD_NAME
#define TWO_BASES Side, RR::MessageBase
#define TWO_BASES2 RR::MessageBase, Side
MSG(Msg, RR::MessageBase, )
MSG(MsgM, TWO_BASES, &&side == 0x51DE51DE51DE51DEull)
MSG(MsgT, TWO_BASES2, &&side == 0x51DE51DE51DE51DEull)
MSG(MsgV, virtual RR::MessageBase, )
MSG(MsgD, RR::MessageBase, )
struct TypeInfo { int64_t size; bool named; };
const TypeInfo types[] = {
    {sizeof(Msg<1>), true}, {sizeof(Msg<8>), true}, {sizeof(Msg<17>), true}, {sizeof(Msg<40>), true},
    {sizeof(MsgM<8>), true}, {sizeof(MsgV<8>), true}, {sizeof(MsgD<8>), false}, {sizeof(MsgT<5>), true},
    {sizeof(Msg<3, TR_DEFAULT>), true}, {sizeof(Msg<3, TR_MOVE>), true}, {sizeof(Msg<3, TR_ARGS>), true}, {sizeof(Msg<3, TR_COPY>), true},
    {sizeof(Msg<3, TR_DEFAULT | TR_MOVE>), true}, {sizeof(MsgT<3, TR_DEFAULT | TR_ARGS>), true}, {sizeof(Msg<500>), true}};
const int NTYPES = 14;      // the one after them fits in few queues only

// ---------------------------------------------------------------- operations
template <class M> void send(int q, int64_t s, bool emplace) {
    if (emplace) {
        Arg *a, *b, *c;
        { Off o; a = new Arg(s + 1); b = new Arg(s + 2); c = new Arg(s + 3); }
        struct Free { Arg *a, *b, *c; ~Free() { Off o; delete a; delete b; delete c; } } f{a, b, c};
        g->mq[q]->emplace<M>(s, static_cast<const Arg &>(*a), std::move(*b), *c);
        Off o;
        if (c->v != -7) sim::violate("mq.content", false, "a reference argument did not reach the constructor");
    } else {
        M tmp(Out{}, s);
        g->mq[q]->put(std::move(tmp));
    }
}
int doPut(int q, int type, bool emplace, int throwAt, int flags, int lane) {
    int64_t s;
    Ctx saved;
    {
        Off o;
        s = (int64_t)g->m.size();
        MRec r;
        r.lane = lane; r.type = type; r.flags = flags; r.q = q;
        r.putInv = sim::tick();
        g->m.push_back(r);
        Ctx &x = g->ctx[ME];
        saved = x;
        x = Ctx();
        x.kind = CX_PUT; x.serial = s; x.throwAt = throwAt;
    }
    int res = PR_OK;
    int thrown = -1;
    uint64_t b0 = sim::blockedCountSelf();
    try {
        switch (type) {
        case 0: send<Msg<1>>(q, s, emplace); break;
        case 1: send<Msg<8>>(q, s, emplace); break;
        case 2: send<Msg<17>>(q, s, emplace); break;
        case 3: send<Msg<40>>(q, s, emplace); break;
        case 4: send<MsgM<8>>(q, s, emplace); break;
        case 5: send<MsgV<8>>(q, s, emplace); break;
        case 6: send<MsgD<8>>(q, s, emplace); break;
        case 7: send<MsgT<5>>(q, s, emplace); break;
        case 8: send<Msg<3, TR_DEFAULT>>(q, s, emplace); break;
        case 9: send<Msg<3, TR_MOVE>>(q, s, emplace); break;
        case 10: send<Msg<3, TR_ARGS>>(q, s, emplace); break;
        case 11: send<Msg<3, TR_COPY>>(q, s, emplace); break;
        case 12: send<Msg<3, TR_DEFAULT | TR_MOVE>>(q, s, emplace); break;
        case 13: send<MsgT<3, TR_DEFAULT | TR_ARGS>>(q, s, emplace); break;
        default: send<Msg<500>>(q, s, emplace); break;
        }
    } catch (const UserError &e) { thrown = e.n; res = PR_THREW; }
    catch (const RR::MessageQueueElementSizeError &) { res = PR_SIZE; }
    catch (const RR::SemaphoreAborted &) { res = PR_ABORT; }
    catch (const RR::RingBufferStateError &) { res = PR_ABORT; }
    catch (const std::exception &e) { Off o; sim::violate("mq.err", true, "an enqueue failed with an unexpected error: %s", e.what()); }
    Off o;
    if (sim::blockedCountSelf() != b0) sim::probe(P_BLOCKED_GIVE);
    g->ctx[ME] = saved;
    MRec &r = g->m[s];
    r.putRet = sim::tick();
    r.res = res;
    int64_t sz = types[type].size;
    if (res == PR_SIZE) {
        if (sz <= g->slot) sim::violate("mq.size", true, "a message of %lld bytes was refused by a queue for messages of %lld bytes", (long long)sz, (long long)g->slot);
        if (r.ctorStart) sim::violate("mq.size", true, "a refused message was constructed");
    } else if (sz > padded(g->slot) && res != PR_ABORT) sim::violate("mq.size", true, "a message of %lld bytes was accepted by a queue for messages of %lld bytes", (long long)sz, (long long)g->slot);
    if (res == PR_ABORT && g->abortInv == INF) sim::violate("mq.err", true, "an enqueue failed as aborted although nobody called abort");
    if (res == PR_THREW && (thrown != s || !r.ctorThrew)) sim::violate("mq.exc", true, "an exception of something else left the enqueue of message %lld", (long long)s);
    if (res == PR_OK && r.ctorThrew) sim::violate("mq.exc", true, "an enqueue returned normally although its constructor threw");
    if (res == PR_OK && !r.ctorStart) sim::violate("mq.once", true, "an enqueue returned without having stored message %lld", (long long)s);
    if (res == PR_OK && r.byPutter) sim::violate("mq.once", true, "an enqueue returned normally although it destroyed message %lld again", (long long)s);
    if (res != PR_OK && r.ctorStart && !r.ctorThrew && g->reg.isLive(s) && !r.dtor && !r.getInv) {
        // It must have been destroyed, or be in the queue after all: then its destruction is checked at the end.
        sim::violate("mq.life", false, "message %lld was refused but never destroyed", (long long)s);
    }
    if (res == PR_OK && g->abortRet < r.putInv) sim::violate("mq.abort", true, "message %lld was accepted after abort had returned", (long long)s);
    return res;
}
void queryStats(int q) {
    StatRec r;
    { Off o; r.q = q; r.inv = sim::tick(); }
    auto s = g->mq[q]->getRunningStateStatistics();
    Off o;
    r.ret = sim::tick();
    r.size = (int64_t)s.size; r.running = s.runningCount; r.high = s.highWatermark;
    g->stats.push_back(r);
    for (auto &x : g->ctx) if (x.kind != CX_NONE) { sim::probe(P_STATS_CONCURRENT); break; }
}
void queryName(int q) {
    NameRec r;
    { Off o; r.q = q; r.inv = sim::tick(); }
    const char *s = g->mq[q]->getNameOfLastMessageDispatched();
    for (size_t i = 0; i + 1 < sizeof r.s && (r.s[i] = s[i]); i++) ;   // as a user would read it, at once
    Off o;
    r.ret = sim::tick();
    g->names.push_back(r);
    if (g->dispatching[q]) sim::probe(P_NAME_QUERY_BUSY);
}
void wakeCall() {
    User u;
    bool th;
    {
        Off o;
        Ctx &x = g->ctx[ME];
        x.wakes++;
        if (x.kind != CX_GET) sim::violate("mq.once", true, "the wake-up function ran outside of a dispatch call");
        if (x.serial >= 0) sim::violate("mq.once", true, "the wake-up function ran after the dispatch had begun");
        if (!x.seen) x.seen = sim::tick();
        th = x.wakeThrow;
        if (th) { sim::countFault(sim::FK_THROW); sim::probe(P_WAKE_THROW); }
    }
    sim::point();
    Off o;
    g->ctx[ME].wakeEnd = sim::tick();
    if (th) throwUser(-7);
}
void dispatched(int64_t s, bool ok) {
    User u;
    int q, fl;
    {
        Off o;
        MRec &r = g->m[s];
        Ctx &x = g->ctx[ME];
        if (!g->reg.isLive(s)) sim::violate("mq.life", true, "message %lld was dispatched while it does not exist", (long long)s);
        if (x.kind != CX_GET) sim::violate("mq.once", true, "message %lld was dispatched by something else than getAndDispatch", (long long)s);
        sight(s);
        if (++r.nDisp > 1) sim::violate("mq.once", true, "message %lld was dispatched twice", (long long)s);
        if (x.useWake && x.wakes != 1) sim::violate("mq.once", true, "the wake-up function ran %d times before the dispatch", x.wakes);
        r.dispStart = sim::tick();
        if (!ok) sim::violate("mq.content", true, "message %lld was not intact when it was dispatched", (long long)s);
        q = r.q;
        fl = r.flags;
        if (x.q != q) sim::violate("mq.once", true, "message %lld was dispatched from another queue", (long long)s);
        if (g->soak) { if (s != g->soakNext) sim::violate("mq.lin", true, "message %lld was dispatched instead of %lld", (long long)s, (long long)g->soakNext); g->soakNext = s + 1; }
        if (g->locking) {
            if (g->holder[q] >= 0) sim::violate("mq.lock", true, "message %lld is dispatched while thread %d holds the dispatch lock", (long long)s, g->holder[q]);
            if (g->dispatching[q]) sim::violate("mq.lock", true, "two dispatches overlap although dispatch locking is enabled");
        }
        g->dispatching[q]++;
    }
    if (fl & FL_POINTS) { sim::point(); sim::point(); }
    if (fl & FL_STATS) queryStats(q);
    if (fl & FL_NAME) queryName(q);
    if (fl & FL_SLEEP) sim::sleepUs(700);
    if (fl & FL_RESEND) doPut(q, int(s & 1), true, 0, 0, 63);
    Off o;
    MRec &r = g->m[s];
    g->dispatching[q]--;
    r.dispEnd = sim::tick();
    if (g->locking) g->rel[q].push_back(r.dispEnd);
    if (fl & FL_THROW) { sim::countFault(sim::FK_THROW); sim::probe(P_DISPATCH_THROW); throwUser(int(s)); }
}
// true: a message was taken
bool doGet(int q, bool wake, bool wakeThrow) {
    size_t gi;
    {
        Off o;
        Ctx &x = g->ctx[ME];
        x = Ctx();
        x.kind = CX_GET; x.q = q; x.useWake = wake; x.wakeThrow = wakeThrow;
        x.inv = sim::tick();
        GRec r;
        r.inv = x.inv; r.q = q;
        g->gets.push_back(r);
        gi = g->gets.size() - 1;
    }
    int thrown = -1;
    bool threw = false, ab = false;
    uint64_t b0 = sim::blockedCountSelf();
    try {
        if (wake) g->mq[q]->getAndDispatch(g->wake);
        else g->mq[q]->getAndDispatch();
    } catch (const UserError &e) { threw = true; thrown = e.n; }
    catch (const RR::SemaphoreAborted &) { ab = true; }
    catch (const RR::RingBufferStateError &) { ab = true; }
    catch (const std::exception &e) { Off o; sim::violate("mq.err", true, "getAndDispatch failed with an unexpected error: %s", e.what()); }
    Off o;
    if (sim::blockedCountSelf() != b0) sim::probe(P_BLOCKED_TAKE);
    Ctx x = g->ctx[ME];
    g->ctx[ME] = Ctx();
    GRec &gr = g->gets[gi];
    gr.ret = sim::tick();
    gr.err = ab;
    gr.serial = x.serial;
    gr.seen = x.seen;
    if (ab && g->abortInv == INF) sim::violate("mq.err", true, "getAndDispatch failed as aborted although nobody called abort");
    if (x.serial < 0) {
        if (x.wakes) sim::violate("mq.life", true, "a message was announced by the wake-up function, then neither dispatched nor destroyed");
        if (threw) sim::violate("mq.exc", true, "an exception of something else left getAndDispatch");
        if (!ab) sim::violate("mq.once", true, "getAndDispatch returned without having dispatched a message");
        return false;
    }
    MRec &r = g->m[x.serial];
    r.getRet = gr.ret;
    if (!r.dtor) sim::violate("mq.life", false, "message %lld still exists after its dispatch call ended", (long long)x.serial);
    bool wantEx = wakeThrow || (r.flags & FL_THROW);
    if (wakeThrow && r.nDisp) sim::violate("mq.exc", true, "message %lld was dispatched although the wake-up function threw", (long long)x.serial);
    if (wantEx && !threw) sim::violate("mq.exc", true, "the exception thrown while dispatching message %lld did not reach the caller", (long long)x.serial);
    if (threw && (!wantEx || thrown != (wakeThrow ? -7 : int(x.serial)))) sim::violate("mq.exc", true, "an exception of something else left getAndDispatch");
    if (ab) sim::violate("mq.abort", true, "getAndDispatch took message %lld and failed as aborted", (long long)x.serial);
    if (!wakeThrow && r.nDisp != 1) sim::violate("mq.once", true, "message %lld was taken and never dispatched", (long long)x.serial);
    if (g->abortRet < x.inv) sim::violate("mq.abort", true, "message %lld was taken for dispatch after abort had returned", (long long)x.serial);
    return true;
}
void doAbort() {
    size_t i;
    {
        Off o;
        sim::countFault(sim::FK_ABORT);
        uint64_t t = sim::tick();
        if (g->abortInv == INF) g->abortInv = t;
        g->aborts.push_back({t, INF});
        i = g->aborts.size() - 1;
        for (auto &x : g->ctx) if (x.kind != CX_NONE) { sim::probe(P_ABORT_IN_CALL); break; }
    }
    g->mq[0]->abort();
    Off o;
    g->aborts[i].second = sim::tick();
    if (g->abortRet == INF) g->abortRet = g->aborts[i].second;
}
void doPurge(int q) {
    std::vector<int64_t> got;
    uint64_t inv;
    size_t before = 0;
    {
        Off o;
        inv = sim::tick();
        Ctx &x = g->ctx[ME];
        x = Ctx();
        x.kind = CX_PURGE; x.q = q; x.got = &got; x.inv = inv;
        for (auto &r : g->m) if (r.q == q && r.res == PR_OK && !r.getInv && !r.purged) before++;
        if (before) sim::probe(P_PURGE_NONEMPTY);
    }
    try { g->mq[q]->purge(); }
    catch (const std::exception &e) { Off o; sim::violate("mq.purge", true, "purge failed: %s", e.what()); }
    Off o;
    g->ctx[ME] = Ctx();
    if (got.size() != before) sim::violate("mq.purge", true, "purge destroyed %zu of %zu queued messages", got.size(), before);
    uint64_t end = sim::tick(), prev = inv;
    for (int64_t s : got) {
        MRec &r = g->m[s];
        r.getInv = prev; r.seen = r.dtor; r.getRet = end;
        prev = r.dtor;
    }
}

// ---------------------------------------------------------------- dispatch lock
using Lock = RR::MessageQueueBase::AutoDispatchLock;
void gotLock(int q) {
    Off o;
    if (g->holder[q] >= 0) sim::violate("mq.lock", true, "threads %d and %d hold the dispatch lock at the same time", g->holder[q], sim::self());
    if (g->dispatching[q]) sim::violate("mq.lock", true, "thread %d got the dispatch lock during a dispatch", sim::self());
    g->holder[q] = sim::self();
}
void releasing(int q) {
    Off o;
    if (g->holder[q] != sim::self()) sim::violate("mq.lock", true, "the dispatch lock held by thread %d was lost", sim::self());
    g->holder[q] = -1;
    g->rel[q].push_back(sim::tick());
}
void spin(int n) { for (int i = 0; i < n; i++) sim::point(); }
void moved() { Off o; sim::probe(P_LOCK_MOVED); }
// A random program over three lock variables; the model: the queue each one refers to and whether it owns its lock.
void lockProgram(uint64_t bits, int pts) {
    struct Var { alignas(Lock) unsigned char at[sizeof(Lock)]; Lock *l = nullptr; int q = -1; bool held = false; };
    Var v[3];
    auto mine = [&](int q) { for (auto &x : v) if (x.l && x.q == q && x.held) return true; return false; };
    auto may = [&](int q) { return !mine(1) && !(q == 0 && mine(0)); };     // in order of the queues
    auto drop = [&](Var &x) {
        if (!x.l) return;
        if (x.held) releasing(x.q);
        x.l->~Lock();
        x.l = nullptr; x.q = -1; x.held = false;
    };
    for (int i = 0; i < 8; i++, bits >>= 7) {
        Var &a = v[(bits >> 3 & 3) % 3], &b = v[(bits >> 5 & 3) % 3];
        int code = int(bits & 7);
        switch (code) {
        case 0: case 1: {
            int q = code == 1 && g->mq[1] ? 1 : 0;
            if (!may(q)) break;
            if (!a.l) a.l = new (a.at) Lock(g->mq[q]->getAutoDispatchLock());
            else {
                bool had = a.held;
                int hq = a.q;
                if (had && hq > q) break;
                // The old lock goes only once the new one is there.
                Lock tmp = g->mq[q]->getAutoDispatchLock();
                gotLock(q);
                if (had) releasing(hq);
                *a.l = std::move(tmp);
                a.q = q; a.held = true;
                break;
            }
            gotLock(q);
            a.q = q; a.held = true;
            break;
        }
        case 2:
            if (!a.l) break;
            if (a.held) { releasing(a.q); a.held = false; }
            a.l->unlock();
            break;
        case 3:
            if (!a.l || a.held || (a.q >= 0 && !may(a.q))) break;
            a.l->lock();
            if (a.q >= 0) { gotLock(a.q); a.held = true; }
            break;
        case 4:
            if (!a.l || &a == &b) break;
            drop(b);
            b.l = new (b.at) Lock(std::move(*a.l));
            b.q = a.q; b.held = a.held;
            a.q = -1; a.held = false;
            moved();
            break;
        case 5:
            if (!a.l || !b.l) break;
            if (&a != &b) {
                if (b.held) releasing(b.q);
                *b.l = std::move(*a.l);
                b.q = a.q; b.held = a.held;
                a.q = -1; a.held = false;
            } else *b.l = std::move(*a.l);
            moved();
            break;
        case 6:
            if (!a.l || !b.l || &a == &b) break;
            std::swap(*a.l, *b.l);
            std::swap(a.q, b.q);
            std::swap(a.held, b.held);
            moved();
            break;
        default: drop(a);
        }
        if (a.l && a.held && !a.l->native_handle()) { Off o; sim::violate("mq.lock", true, "a held dispatch lock has no native handle"); }
        spin(pts);
        if (bits & 1 && mine(0)) queryName(0);
    }
    for (auto &x : v) drop(x);
}
void doLock(int variant, int pts, int64_t arg) {
    RR::MessageQueue &A = *g->mq[0];
    bool two = g->mq[1] != nullptr;
    if (!g->locking) {
        bool refused = false;
        try { Lock l = A.getAutoDispatchLock(); }
        catch (const RR::MessageQueueDispatchLockingDisabled &) { refused = true; }
        Off o;
        if (!refused) sim::violate("mq.lock", true, "a dispatch lock was given out although dispatch locking is disabled");
        return;
    }
    uint64_t b0 = sim::blockedCountSelf();
    struct Contended { uint64_t b; ~Contended() { Off o; if (sim::blockedCountSelf() != b) sim::probe(P_LOCK_CONTENDED); } } cont{b0};
    if (!two && (variant == 5 || variant == 10)) variant = 3;
    switch (variant) {
    default: {
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        if (!a.native_handle()) { Off o; sim::violate("mq.lock", true, "a held dispatch lock has no native handle"); }
        spin(pts);
        if (arg & 1) queryName(0);
        releasing(0);
        break;
    }
    case 1: {
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        spin(pts);
        releasing(0);
        a.unlock();
        spin(pts);
        a.lock();
        gotLock(0);
        spin(pts);
        releasing(0);
        break;
    }
    case 2: {
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        spin(pts);
        releasing(0);
        a.unlock();
        spin(pts);
        a.unlock();
        spin(pts);
        break;
    }
    case 3: {
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        spin(pts);
        Lock b(std::move(a));
        moved();
        a.unlock();
        a.lock();
        spin(pts);
        releasing(0);
        b.unlock();
        spin(pts);
        b.lock();
        gotLock(0);
        spin(pts);
        releasing(0);
        break;
    }
    case 4: {
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        releasing(0);
        a.unlock();
        {
            Lock b = A.getAutoDispatchLock();
            gotLock(0);
            spin(pts);
            a = std::move(b);
            moved();
            spin(pts);
        }
        spin(pts);
        releasing(0);
        break;
    }
    case 5: { // overwritten while it holds the lock of another queue
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        {
            Lock b = g->mq[1]->getAutoDispatchLock();
            gotLock(1);
            spin(pts);
            releasing(0);
            a = std::move(b);
            moved();
            spin(pts);
        }
        spin(pts);
        if (arg & 1) { // the first one is free: take it again, in order of the queues
            releasing(1);
            a.unlock();
            Lock c = A.getAutoDispatchLock();
            gotLock(0);
            spin(pts);
            releasing(0);
        } else releasing(1);
        break;
    }
    case 6: {
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        Lock &same = a;
        a = std::move(same);
        moved();
        spin(pts);
        releasing(0);
        break;
    }
    case 7: {
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        {
            Lock b(std::move(a));
            moved();
            spin(pts);
            releasing(0);
        }
        spin(pts + 1);
        break;
    }
    case 8: {
        try {
            Lock a = A.getAutoDispatchLock();
            gotLock(0);
            spin(pts);
            releasing(0);
            throwUser(-9);
        } catch (const UserError &) {}
        break;
    }
    case 9: { // enqueueing does not need the lock
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        spin(pts);
        if (g->roomy) doPut(0, int(arg & 1), arg & 2, 0, 0, 62);
        spin(pts);
        releasing(0);
        break;
    }
    case 10: {
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        Lock b = g->mq[1]->getAutoDispatchLock();
        gotLock(1);
        std::swap(a, b);
        moved();
        spin(pts);
        releasing(0);
        releasing(1);
        break;
    }
    case 12: lockProgram(uint64_t(arg), pts); break;
    case 11: { // released by being overwritten with an empty one
        Lock a = A.getAutoDispatchLock();
        gotLock(0);
        {
            Lock b(std::move(a));
            Lock c(std::move(b));
            moved();
            spin(pts);
            releasing(0);
            c = std::move(a);   // a is empty
            spin(pts);
        }
        spin(pts);
        break;
    }
    }
}

void lane(const Lane &l) {
    for (auto &op : l.ops) {
        { Off o; if (g->closing) break; }
        sim::beginOp(op.id);
        const char *k = op.code.c_str();
        int q = g->mq[1] ? int(op.d & 1) : 0;
        if (!strcmp(k, "put") || !strcmp(k, "emp")) doPut(q, (int)op.a, k[0] == 'e', (int)op.b, (int)op.c, l.id);
        else if (!strcmp(k, "get")) doGet(q, false, false);
        else if (!strcmp(k, "getw")) doGet(q, true, op.b);
        else if (!strcmp(k, "stats")) queryStats(q);
        else if (!strcmp(k, "name")) queryName(q);
        else if (!strcmp(k, "lock")) doLock((int)op.a, (int)op.b, op.c);
        else if (!strcmp(k, "abort")) doAbort();
        else if (!strcmp(k, "sleep")) sim::sleepUs(op.a);
        else if (!strcmp(k, "puts")) for (int64_t n = 0; n < op.a; n++) doPut(0, int(n & 1), n & 2, 0, 0, l.id);
        else if (!strcmp(k, "gets")) for (int64_t n = 0; n < op.a; n++) doGet(0, false, false);
    }
}

struct MqScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        int p = atoi(c.prop.c_str() + 1);
        bool heap = has(c, "C25");
        const int safe[] = {15, 16, 18, 21, 22};
        if (heap) p = r.pick(safe);
        if (p == 27) p = (int)r.range(15, 22);
        c.set("prof", p);
        genSched(c, r, p == 20 && r.chance(1, 2));
        if ((p == 15 || p == 16 || p == 21) && !heap && r.oneIn(4000)) { // long use
            c.set("soak", 1); c.set("n", r.range(1, 9)); c.set("slot", 24);
            c.sched.races = 0; c.sched.plainGap = 0; c.sched.stepCap = 400000000; c.sched.strat = sim::ST_RANDOM; c.sched.pSwitch = 200; c.sched.stall = 0;
            Lane a, b; sim::Op o;
            o.a = r.chance(1, 2) ? 66000 : 1200;
            o.code = "puts"; a.ops.push_back(o);
            o.code = "gets"; b.ops.push_back(o);
            c.lanes.push_back(a); c.lanes.push_back(b);
            numberOps(c);
            return;
        }
        if ((p == 15 || p == 16 || p == 19 || p == 20 || p == 21) && !heap && r.oneIn(p == 20 ? 400 : 1200)) { // many messages at once
            const int64_t mid[] = {127, 128, 255, 256, 257, 300, 512}, big[] = {65535, 65536, 65537};
            bool huge = r.oneIn(40);
            int64_t n = huge ? r.pick(big) : r.chance(1, 2) ? r.range(6, 126) : r.pick(mid);
            c.set("large", 1); c.set("n", n); c.set("slot", 24); c.set("locking", r.oneIn(3));
            c.sched.races = 0; c.sched.plainGap = 0; c.sched.stepCap = 400000000; c.sched.strat = sim::ST_RANDOM; c.sched.pSwitch = huge ? 1000 : 200; c.sched.stall = 0;
            Lane a, b; sim::Op o;
            o.code = "puts"; o.a = r.chance(1, 2) ? n : r.chance(1, 2) ? n - 1 : r.range(n / 2, n); a.ops.push_back(o);
            if (r.oneIn(3)) { o.a = p == 19 || p == 16 ? n + r.range(1, 3) : o.a; a.ops[0].a = o.a; }
            if (r.oneIn(3)) { o.code = "gets"; o.a = r.range(1, a.ops[0].a / 2); b.ops.push_back(o); }
            if (p == 19) { o.code = "sleep"; o.a = 100; b.ops.push_back(o); o.code = "abort"; o.a = 0; b.ops.push_back(o); }
            c.lanes.push_back(a);
            if (!b.ops.empty()) c.lanes.push_back(b);
            c.set("end", p == 20 ? r.range(1, 3) : p == 19 ? 3 : 0);
            numberOps(c);
            return;
        }
        const int64_t ns[] = {1, 1, 1, 2, 2, 3, 4, 5};
        c.set("n", r.oneIn(40) ? 0 : r.pick(ns));
        const int64_t slots[] = {24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 56, 57, 64};
        c.set("slot", p == 16 || p == 11 ? r.pick(slots) : r.chance(3, 4) ? 64 : r.pick(slots));
        const int64_t wides[] = {512, 520, 600, 1000, 1024, 2048, 4096};
        bool wide = (p == 11 || p == 15 || p == 16 || p == 17 || p == 20 || p == 27) && r.oneIn(10);
        if (wide) c.set("slot", r.pick(wides));
        c.set("locking", p == 18 ? !r.oneIn(10) : r.oneIn(3));
        c.set("two", p == 18 && r.oneIn(3));
        bool roomy = (p == 18 || p == 15 || p == 22) && r.oneIn(3);
        if (roomy) { c.set("n", 24); if (!wide) c.set("slot", 64); c.set("roomy", 1); }
        int nprod = (int)r.range(1, 3), ncons = (int)r.range(1, p == 15 || p == 16 || p == 17 || p == 27 ? 3 : 2);
        int thr = heap ? 0 : p == 17 ? 35 : p == 19 || p == 20 || p == 22 || p == 11 ? 12 : p == 18 ? 15 : p == 21 ? 15 : 0;
        int puts = 0;
        auto flags = [&]() {
            int f = 0;
            if (r.chance(thr, 100)) f |= FL_THROW;
            if (r.chance(1, 3)) f |= FL_POINTS;
            if (r.oneIn(10)) f |= FL_SLEEP;
            if (roomy && r.oneIn(6)) f |= FL_RESEND;
            if (p == 21 && r.oneIn(4)) f |= FL_STATS;
            if (p == 22 && r.oneIn(3)) f |= FL_NAME;
            return f;
        };
        bool simpleTypes = r.oneIn(3);
        for (int i = 0; i < nprod; i++) {
            Lane l;
            for (int k = (int)r.range(1, 4); k > 0; k--) {
                sim::Op o;
                o.code = r.chance(1, 2) ? "put" : "emp";
                o.a = simpleTypes ? r.below(2) : r.below(NTYPES);
                if ((p == 16 || p == 11 || wide) && r.oneIn(wide ? 3 : 8) && !heap) o.a = NTYPES;
                o.b = r.chance(thr, 100);
                o.c = flags();
                o.d = c.get("two") ? r.below(2) : 0;
                l.ops.push_back(o);
                puts++;
            }
            c.lanes.push_back(l);
        }
        int gets = (int)(r.oneIn(2) ? puts : r.range(p == 20 || p == 11 ? 0 : 1, puts + 2));
        for (int i = 0; i < ncons; i++) c.lanes.push_back(Lane());
        for (int k = 0; k < gets; k++) {
            sim::Op o;
            o.code = r.oneIn(3) ? "getw" : "get";
            if (o.code == "getw") o.b = r.chance(thr, 100);
            o.d = c.get("two") ? r.below(2) : 0;
            c.lanes[nprod + r.below(ncons)].ops.push_back(o);
        }
        auto insert = [&](const char *code, int64_t a, int64_t b, int64_t cc) {
            sim::Op o; o.code = code; o.a = a; o.b = b; o.c = cc;
            auto &x = c.lanes[r.below(c.lanes.size())].ops;
            x.insert(x.begin() + r.below(x.size() + 1), o);
        };
        auto extraLane = [&](const char *code, int n) {
            Lane l;
            for (int k = 0; k < n; k++) { sim::Op o; o.code = code; o.d = c.get("two") ? r.below(2) : 0; l.ops.push_back(o); }
            c.lanes.push_back(l);
        };
        if (p == 18)
            for (int k = (int)r.range(1, 2); k > 0; k--) {
                Lane l;
                for (int j = (int)r.range(1, 3); j > 0; j--) { sim::Op o; o.code = "lock"; o.a = r.chance(1, 2) ? 12 : r.range(0, 11); o.b = r.range(0, 3); o.c = o.a == 12 ? int64_t(r.next() >> 8) : r.below(4); l.ops.push_back(o); }
                c.lanes.push_back(l);
            }
        if (p == 21) { extraLane("stats", (int)r.range(1, 4)); if (r.chance(1, 2)) insert("stats", 0, 0, 0); }
        if (p == 22) {
            extraLane("name", (int)r.range(1, 5));
            if (r.chance(1, 2)) insert("name", 0, 0, 0);
            if (c.get("locking") && r.chance(1, 2)) insert("lock", 0, r.range(0, 3), 1);
        }
        bool ab = !heap && p != 19 && !c.get("two") && r.oneIn(p == 20 || p == 27 ? 3 : 6);   // any history includes aborted ones
        if (ab) {
            Lane l; sim::Op o;
            if (r.oneIn(4)) { o.code = "sleep"; o.a = 100; l.ops.push_back(o); }
            o.code = "abort"; o.a = 0; l.ops.push_back(o);
            c.lanes.push_back(l);
        }
        if (p == 19) { insert("abort", 0, 0, 0); if (r.oneIn(4)) insert("abort", 0, 0, 0); if (r.oneIn(4)) insert("sleep", 100, 0, 0); }
        // 0: drained and then deleted; 1: deleted as it is; 2: purged; 3: aborted and then deleted
        c.set("end", p == 20 ? r.range(1, 3) : p == 11 || p == 27 ? r.range(0, 3) : p == 19 ? 3 : 0);
        if (p == 16 && r.oneIn(4)) insert("stats", 0, 0, 0);
        genAge(c, r);
        numberOps(c);
    }
    void finishAll() { // callers still waiting are served by this thread
        for (int k = 0; k < 200; k++) {
            {
                Off o;
                if (sim::allFinished()) return;
            }
            // the queue on which somebody waits
            int q = -1; bool put = false;
            {
                Off o;
                for (auto &r : g->m) if (r.res == PR_PENDING) { q = r.q; put = true; }
                for (auto &x : g->gets) if (x.ret == INF && !x.seen) { q = x.q; put = false; }
                if (q < 0) sim::violate("stuck", true, "a thread stays blocked outside of enqueueing and dequeueing");
            }
            if (put) doGet(q, false, false); else doPut(q, 0, true, 0, 0, 0);
            sim::waitQuiescent();
        }
    }
    int64_t queued(int q) { Off o; int64_t n = 0; for (auto &r : g->m) if (r.q == q && r.res == PR_OK && !r.getInv && !r.purged) n++; return n; }
    void destroy(int q) {
        {
            Off o;
            if (queued(q)) sim::probe(P_DESTROY_QUEUED);
            Ctx &x = g->ctx[ME];
            x = Ctx();
            x.kind = CX_DESTROY;
            g->destroyInv = sim::tick();
            if (g->abortInv == INF) g->abortInv = g->destroyInv;
        }
        delete g->mq[q];
        Off o;
        g->mq[q] = nullptr;
        g->ctx[ME] = Ctx();
    }
    void main(const Case &c) override {
        { Off o; delete g; g = new G; g->c = &c; initNames(); Captured big; g->wake = [big] { big.use(); wakeCall(); }; }
        g->locking = c.get("locking");
        g->slot = c.get("slot");
        g->cap = c.get("n") ? c.get("n") : 1;
        g->roomy = c.get("roomy");
        g->soak = c.get("soak");
        int nq = c.get("two") ? 2 : 1;
        for (int i = 0; i < nq; i++) {
            g->mq[i] = new RR::MessageQueue(size_t(c.get("n")), size_t(g->slot), g->locking);
            const char *s = g->mq[i]->getNameOfLastMessageDispatched();
            Off o;
            g->placeholder[i] = s;
        }
        if (int64_t age = c.get("age")) {
            Lane l;
            {
                Off o;
                sim::Op x, y;
                for (int64_t k = 0; k < age; k++) { x.code = k & 1 ? "put" : "emp"; x.a = k / 2 % 2; y.code = k & 2 ? "get" : "getw"; l.ops.push_back(x); l.ops.push_back(y); }
            }
            lane(l);
        }
        heapPhaseBegin(c);
        spawnAll(c, lane);
        sim::waitQuiescent();
        heapPhaseEnd(c);
        sim::beginOp(60000);
        bool blocked;
        { Off o; blocked = !sim::allFinished(); if (blocked && !c.get("large")) lin(true); if (c.get("large")) held(sim::tick()); }
        if (g->soak) {
            { Off o; if (blocked) sim::violate("mq.stuck", true, "as many enqueues as dispatches did not all complete"); }
            queryStats(0);
            destroy(0);
            return;
        }
        int end = (int)c.get("end");
        bool aborted;
        { Off o; aborted = g->abortInv != INF; }
        if (aborted && blocked) { Off o; sim::violate("mq.abort", true, "a caller stays blocked although the queue was aborted"); }
        if (aborted && end != 1) end = 3;
        if (end == 0 || (end == 2 && blocked)) {
            finishAll();
            if (end == 2) end = 0;
        }
        if (end == 2) { // purge: no caller is inside the queue
            for (int q = 0; q < nq; q++) {
                bool lock = g->locking && c.run % 2;
                if (lock) { Lock l = g->mq[q]->getAutoDispatchLock(); doPurge(q); }
                else doPurge(q);
                queryStats(q);
                { Off o; if (g->stats.back().running != 0) sim::violate("mq.purge", true, "after a purge %lld messages are held", (long long)g->stats.back().running); }
                doPurge(q);
            }
            end = 0;
        }
        if (end == 0) {
            for (int q = 0; q < nq; q++) {
                while (int64_t k = queued(q)) for (; k > 0; k--) doGet(q, k & 1, false);
                queryStats(q);
                for (int64_t k = 0; k < g->cap; k++) doPut(q, 0, k & 1, 0, 0, 0);  // full capacity, without waiting
                queryStats(q);
                for (int64_t k = g->cap; k > 0; k--) doGet(q, false, false);
                queryStats(q);
                queryName(q);
            }
        }
        if (end == 3) {
            doAbort();
            sim::waitQuiescent();
            { Off o; if (!sim::allFinished() && nq == 1) sim::violate("mq.abort", true, "a caller stays blocked after abort returned"); }
            if (nq == 1) {
                int res = doPut(0, 0, true, 0, 0, 0);
                bool got = doGet(0, false, false);
                Off o;
                if (res == PR_OK) sim::violate("mq.abort", true, "an enqueue succeeded after abort");
                if (got) sim::violate("mq.abort", true, "a message was dispatched after abort");
            }
            queryName(0);
            queryStats(0);
        }
        { Off o; g->closing = true; if (!sim::allFinished()) { sim::probe(P_DESTROY_BLOCKED); sim::countFault(sim::FK_DESTROY); } }
        for (int q = 0; q < nq; q++) destroy(q);
        sim::waitQuiescent();
        Off o;
        if (!sim::allFinished()) sim::violate("mq.destroy", true, "a caller stays blocked in a destroyed message queue");
        if (sim::liveBlocks()) sim::violate("leak", true, "destroying the message queue left memory behind: %s", sim::describeLive().c_str());
    }
    // Linearizability.  pending: at a quiescent point with blocked callers.
    // Never more messages between the start of construction and destruction than were requested; at rest (now): whoever waits must.
    void held(uint64_t now) {
        std::vector<std::pair<uint64_t, int>> ev;
        bool putWaits = false, getWaits = false;
        int64_t queuedNow = 0;
        for (auto &r : g->m) {
            if (r.ctorStart) ev.push_back({r.ctorStart, 1});
            if (r.ctorStart && r.dtor) ev.push_back({r.dtor, -1});
            if (!r.ctorStart && r.putRet == INF && r.res == PR_PENDING) putWaits = true;
            if (r.res == PR_OK && !r.getInv) queuedNow++;
        }
        std::sort(ev.begin(), ev.end());
        int64_t k = 0;
        for (auto &e : ev) if ((k += e.second) > g->cap) { sim::violate("mq.cap", true, "%lld messages at once in a queue of %lld", (long long)k, (long long)g->cap); return; }
        if (now == INF || g->abortInv != INF) return;
        for (auto &x : g->gets) if (x.ret == INF && !x.seen) getWaits = true;
        if (putWaits && k < g->cap) sim::violate("mq.stuck", true, "an enqueue waits with %lld of %lld slots taken", (long long)k, (long long)g->cap);
        if (getWaits && queuedNow) sim::violate("mq.stuck", true, "a dequeue waits with %lld messages queued", (long long)queuedNow);
    }
    void lin(bool pending) {
        int p = prof(*g->c);
        bool strict = p != 15;                  // slots matter
        for (int q = 0; q < 2; q++) {
            std::vector<lin::Op> ops;
            int lane = 0;
            for (size_t s = 0; s < g->m.size(); s++) {
                MRec &r = g->m[s];
                if (r.q != q || r.res == PR_SIZE) continue;
                if (types[r.type].size > padded(g->slot) && !r.ctorStart && r.putRet == INF) {
                    sim::violate("mq.stuck", true, "the enqueue of a message that does not fit waits");
                    continue;
                }
                int L = lane++;
                bool flushed = r.flushed;
                if (!r.ctorStart) {
                    if (r.res == PR_ABORT) { ops.push_back({L, r.putInv, r.putRet, lin::ACQ, 0, lin::R_ERR}); continue; }
                    if (strict) ops.push_back({L, r.putInv, INF, lin::ACQ, 0, 0});
                    continue;
                }
                if (strict) ops.push_back({L, r.putInv, r.ctorStart, lin::ACQ, 0, 0});
                if (r.ctorThrew) {
                    if (strict) ops.push_back({L, r.ctorStart, r.putRet, lin::REL, 0, 0});
                    continue;
                }
                if (r.res == PR_ABORT || r.byPutter) {
                    ops.push_back({L, r.ctorEnd, r.dtor ? r.dtor : r.putRet, lin::PUT, (int64_t)s, lin::R_ERR});
                    if (strict && r.dtor) ops.push_back({L, r.dtor, r.putRet, lin::REL, 0, 0});
                } else ops.push_back({L, strict ? r.ctorEnd : r.putInv, r.putRet, lin::PUT, (int64_t)s, 0});
                if (r.getInv && !flushed) {
                    int L2 = lane++;
                    ops.push_back({L2, r.getInv, r.seen, lin::GET, (int64_t)s, 0});
                    if (strict && r.dtor) ops.push_back({L2, r.dtor, r.getRet, lin::REL, 0, 0});
                }
            }
            for (auto &x : g->gets)
                if (x.q == q && x.serial < 0 && (x.err || (x.ret == INF && !x.seen && strict))) ops.push_back({lane++, x.inv, x.ret, lin::GET, -1, x.err ? lin::R_ERR : 0});
            if (q == 0)
                for (auto &a : g->aborts) {
                    ops.push_back({lane++, a.first, a.second, lin::T_ABORT, 0, 0});
                    ops.push_back({lane++, a.first, a.second, lin::S_ABORT, 0, 0});
                }
            if (g->destroyInv != INF) {
                ops.push_back({lane++, g->destroyInv, sim::tick(), lin::T_ABORT, 0, 0});
                ops.push_back({lane++, g->destroyInv, sim::tick(), lin::S_ABORT, 0, 0});
            }
            if (ops.empty()) continue;
            std::string why;
            if (simVerbose) { Hist h; h.ops = ops; lin::MqModel m(g->cap); fprintf(stderr, "history of queue %d:\n%s", q, h.text(m, 400).c_str()); }
            lin::MqModel m(strict ? g->cap : int64_t(1) << 40);
            lin::Verdict v = lin::check(m, ops, 200000, why);
            const char *t = p == 15 ? "mq.lin" : p == 19 ? "mq.abort" : "mq.cap";
            if (v == lin::NOT_LINEARIZABLE) sim::violate(t, true, "%s", why.c_str());
            if (v == lin::STUCK) sim::violate("mq.stuck", true, "%s", why.c_str());
            if (v == lin::CAPPED) sim::linCapped();
            (void)pending;
        }
    }

    void check(const Case &c) override {
        if (!g->reg.live.empty()) sim::violate("mq.life", true, "%zu messages were never destroyed (one is message %lld)", g->reg.live.size(), (long long)g->reg.live.begin()->second.serial);
        for (auto &x : g->reg.counts)
            if (x.second.ctor != 1 || x.second.dtor != 1) sim::violate("mq.life", true, "message %lld was constructed %d and destroyed %d times", (long long)x.first, x.second.ctor, x.second.dtor);
        for (size_t s = 0; s < g->m.size(); s++) {
            MRec &r = g->m[s];
            if (r.flushed && (r.nDisp || r.getInv)) sim::violate("mq.once", true, "message %zu was taken and stayed in the queue", s);
            if (r.res == PR_OK && !r.flushed && !r.getInv) sim::violate("mq.once", true, "message %zu was accepted and never taken out", s);
            if (r.res == PR_ABORT && r.ctorStart && r.getInv) sim::violate("mq.abort", true, "message %zu was refused and taken for dispatch", s);
        }
        if (g->soak) { stats(); return; }
        if (c.get("large")) {
            held(INF);
            // one producer: taken in the order of enqueueing
            uint64_t last = 0;
            for (auto &r : g->m) {
                if (!r.getInv || r.flushed) continue;
                if (r.seen < last) sim::violate("mq.lin", true, "message %lld was taken before one enqueued earlier", (long long)(&r - g->m.data()));
                last = r.seen;
            }
            if (g->m.size() < 5000) stats();
            return;
        }
        lin(false);
        stats();
        names();
    }
    void stats() {
        int64_t n = g->cap;
        for (auto &q : g->stats) {
            if (q.size != n) sim::violate("mq.stats", true, "statistics report size %lld, the queue has %lld", (long long)q.size, (long long)n);
            if (q.running < 0 || q.running > n) sim::violate("mq.stats", true, "statistics report %lld held messages in a queue of %lld", (long long)q.running, (long long)n);
            if (q.high > n || q.high < q.running) sim::violate("mq.stats", true, "statistics report a high watermark of %lld with %lld of %lld held", (long long)q.high, (long long)q.running, (long long)n);
            if (g->soak) { if (q.running != 0) sim::violate("mq.stats", true, "statistics report %lld held messages in an empty queue", (long long)q.running); continue; }
            // After an abort slots need not come back.
            if (g->abortInv < q.ret) continue;
            auto definite = [&](uint64_t a, uint64_t b) {
                int64_t k = 0;
                for (auto &r : g->m) if (r.q == q.q && r.res == PR_OK && r.putRet <= a && (!r.dtor || r.dtor >= b)) k++;
                return k;
            };
            auto possible = [&](uint64_t a, uint64_t b) {
                int64_t k = 0;
                for (auto &r : g->m) {
                    if (r.q != q.q || r.res == PR_SIZE || r.putInv > b) continue;
                    uint64_t e = r.ctorThrew ? r.putRet : r.getRet;
                    if (e >= a) k++;
                }
                return k;
            };
            int64_t lo = definite(q.inv, q.ret), hi = std::min(n, possible(q.inv, q.ret));
            if (q.running < lo || q.running > hi)
                sim::violate("mq.stats", true, "statistics report %lld held messages; between %lld and %lld were", (long long)q.running, (long long)lo, (long long)hi);
            int64_t peakDef = lo, peakPos = 0;
            for (auto &r : g->m) {
                if (r.q != q.q || r.res == PR_SIZE) continue;
                if (r.res == PR_OK && r.putRet <= q.inv) peakDef = std::max(peakDef, definite(r.putRet, r.putRet));
                if (r.putInv <= q.ret) peakPos = std::max(peakPos, possible(r.putInv, r.putInv));
            }
            if (q.high < peakDef || q.high > std::min(n, peakPos))
                sim::violate("mq.stats", true, "statistics report a high watermark of %lld; it must be between %lld and %lld", (long long)q.high, (long long)peakDef, (long long)std::min(n, peakPos));
            for (auto &e : g->stats)
                if (e.q == q.q && e.ret < q.inv && e.high > q.high) sim::violate("mq.stats", true, "the high watermark fell from %lld to %lld", (long long)e.high, (long long)q.high);
        }
    }
    void names() {
        struct Iv { uint64_t lo, hi; const char *s; };
        for (int q = 0; q < 2; q++) {
            std::vector<Iv> iv;
            for (size_t s = 0; s < g->m.size(); s++) {
                MRec &r = g->m[s];
                if (r.q != q || !r.nDisp) continue;
                uint64_t lo = std::max(r.getInv, std::max(r.wakeEnd, r.ctorEnd));
                if (g->locking) for (uint64_t t : g->rel[q]) if (t < r.dispStart) lo = std::max(lo, t);
                iv.push_back({lo, r.dispStart, types[r.type].named ? nameOf((int64_t)s) : "Unforgiven"});
            }
            for (auto &n : g->names) {
                if (n.q != q) continue;
                bool ok = false, known = g->placeholder[q] == n.s;
                if (known) {
                    ok = true;
                    for (auto &x : iv) if (x.hi < n.inv) ok = false;
                }
                for (auto &x : iv) {
                    if (strcmp(x.s, n.s)) continue;
                    known = true;
                    if (x.lo > n.ret) continue;
                    bool gone = false;
                    for (auto &y : iv) if (y.lo > x.hi && y.hi < n.inv) gone = true;
                    if (!gone) ok = true;
                }
                if (!ok) {
                    std::string want;
                    for (auto &x : iv) {
                        bool gone = x.lo > n.ret;
                        for (auto &y : iv) if (y.lo > x.hi && y.hi < n.inv) gone = true;
                        if (!gone) { want += want.empty() ? "" : " or "; want += x.s; }
                    }
                    sim::violate("mq.name", true, "the name of the last message dispatched was reported as %.20s%s; it was %s", n.s, known ? "" : " (never dispatched)",
                                 want.empty() ? "the placeholder" : want.c_str());
                }
            }
        }
    }
};
} // namespace
sim::Scenario *makeMq() { return new MqScenario; }

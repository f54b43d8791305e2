// Scenario: object and block pools shared by several threads.  Properties C11-C14 (and C25, C27).
#include "live.hpp"
#include "BlockPool.hpp"
#include "ObjectPool.hpp"

namespace {
struct Rec { int pool; uint64_t acqInv = 0, ctor = 0, acqRet = lin::INF, relInv = lin::INF, relDtor = lin::INF, relRet = lin::INF; bool failed = false; bool exhausted = false; };
struct StatRec { int pool; uint64_t inv, ret; int64_t size, running, low; int lane; };
struct Pools;
struct G {
    Case const *c = nullptr;
    LiveReg reg;
    std::vector<Rec> recs;                 // by serial
    std::vector<StatRec> stats;
    std::vector<struct Held *> mail;
    Pools *pools[2] = {nullptr, nullptr};
    uint64_t endTick = 0;
    int64_t ctorSerial[64] = {};           // what the constructor running in fiber i must use
    int throwAt[64] = {};
    int64_t size[64] = {}, room[64] = {};  // of the object being created; what the pool was made for
    bool refused[64] = {};                 // the last creation was refused because of the object's size
};
G *g;
#define ME (sim::self() & 63)

// ---------------------------------------------------------------- user types
void born(void *p, size_t n, int64_t serial) {
    Off o;
    g->reg.add(p, n, serial);
    Rec &r = g->recs[serial >> 8];
    if (!r.ctor) r.ctor = sim::tick();
}
void ready(void *p, size_t n) { Off o; g->reg.protect(p, n); }
bool dying(void *p, size_t n, int64_t serial) { Off o; return g->reg.remove(p, n, serial); }
void thrown() { Off o; sim::countFault(sim::FK_THROW); sim::probe(P_CTOR_THROW); }
void damaged(int64_t serial, const char *when) {
    Off o;
    sim::violate("obj", false, "the contents of object %lld changed while it was live (seen %s)", (long long)serial, when);
}
void fill(unsigned char *b, size_t n, int64_t s) { for (size_t i = 0; i < n; i++) b[i] = LiveReg::pat(s, i); }
bool intact(const unsigned char *b, size_t n, int64_t s) { for (size_t i = 0; i < n; i++) if (b[i] != LiveReg::pat(s, i)) return false; return true; }

struct Arg { // shows how constructor arguments were passed on
    int64_t v; int copies = 0, moves = 0;
    explicit Arg(int64_t x) : v(x) {}
    Arg(const Arg &o) : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    Arg(Arg &&o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1; }
};
struct VBase {
    virtual ~VBase() = default;
    virtual int64_t id() const = 0;
    virtual bool ok() const = 0;
};
struct Side { uint64_t side = 0x51DE51DE51DE51DEull; virtual ~Side() = default; virtual int s() const { return 1; } };

// TR: the properties of the type a library may look at.
enum Traits { TR_DEFAULT = 1 /* default constructible, without throwing */, TR_MOVE = 2 /* movable without throwing */, TR_ARGS = 4 /* construction cannot throw */ };
struct NotThis {};
#define OBJ_BODY(NAME) \
    int64_t serial; \
    unsigned char body[S]; \
    template <int X = TR, std::enable_if_t<(X & TR_DEFAULT) != 0, int> = 0> NAME() noexcept : serial(-1) {} \
    NAME(typename std::conditional<(TR & TR_MOVE) != 0, NAME, NotThis>::type &&) noexcept : serial(-1) {} \
    NAME(int64_t s, const Arg &l, Arg &&r, Arg &mut) noexcept((TR & TR_ARGS) != 0) : serial(s) { \
        User u; \
        born(this, sizeof *this, s); \
        if (l.v != s + 1 || l.copies || l.moves || r.v != s + 2 || r.copies || r.moves || mut.v != s + 3 || mut.copies) { \
            Off o; sim::violate("pool.life", false, "constructor arguments of object %lld did not arrive as given", (long long)s); } \
        mut.v = -7; \
        fill(body, S, s); \
        if constexpr (!(TR & TR_ARGS)) if (g->throwAt[ME]) { { Off o; g->reg.remove(this, sizeof *this, s); } thrown(); throwUser(int(s)); } \
        ready(this, sizeof *this); \
    } \
    NAME(const NAME &) = delete;
#define OBJ_DTOR(NAME) \
    ~NAME() { \
        User u; \
        if (!dying(this, sizeof *this, serial)) return; \
        if (!intact(body, S, serial)) damaged(serial, "by its destructor"); \
        for (size_t i = 0; i < S; i++) body[i] = 0xA5; \
    }
struct CBase { // can be created itself
    int64_t serial = -1;
    virtual ~CBase() = default;
    virtual int64_t id() const { return serial; }
    virtual bool ok() const { return false; }
};
struct TBase { // as above, but its own construction might throw
    int64_t serial = -1;
    TBase() {}
    TBase(const TBase &) {}
    virtual ~TBase() = default;
    virtual int64_t id() const { return serial; }
    virtual bool ok() const { return false; }
};
template <size_t S, class B = VBase, int TR = 0> struct Der : B {
    OBJ_BODY(Der)
    OBJ_DTOR(Der)
    int64_t id() const override { return serial; }
    bool ok() const override { return intact(body, S, serial); }
};
template <size_t S, class B = VBase, int TR = 0> struct Mult : Side, B { // the pool's type is not the first base
    OBJ_BODY(Mult)
    OBJ_DTOR(Mult)
    int64_t id() const override { return serial; }
    bool ok() const override { return side == 0x51DE51DE51DE51DEull && intact(body, S, serial); }
};
template <size_t S, class B = VBase, int TR = 0> struct Virt : virtual B { // the pool's type is a virtual base
    OBJ_BODY(Virt)
    OBJ_DTOR(Virt)
    int64_t id() const override { return serial; }
    bool ok() const override { return intact(body, S, serial); }
};
template <class B> struct Huge : B {
    unsigned char b[4096];
    Huge() { Off o; sim::violate("pool.cap", false, "a type that does not fit was constructed"); }
    int64_t id() const override { return 0; }
    bool ok() const override { return true; }
};
// A type without virtual functions; alignment 1, any size.  The serial lives in a side table.
template <size_t S, int TR = 0> struct Plain {
    unsigned char body[S];
    template <int X = TR, std::enable_if_t<(X & TR_DEFAULT) != 0, int> = 0> Plain() noexcept {}
    Plain(typename std::conditional<(TR & TR_MOVE) != 0, Plain, NotThis>::type &&) noexcept {}
    Plain(int64_t s, const Arg &, Arg &&, Arg &mut) noexcept((TR & TR_ARGS) != 0) {
        User u;
        born(this, sizeof *this, s);
        mut.v = -7;
        fill(body, S, s);
        if constexpr (!(TR & TR_ARGS)) if (g->throwAt[ME]) { { Off o; g->reg.remove(this, sizeof *this, s); } thrown(); throwUser(int(s)); }
        ready(this, sizeof *this);
    }
    Plain(const Plain &) = delete;
    int64_t id() const { Off o; auto it = g->reg.live.find((uintptr_t)this); return it == g->reg.live.end() ? -1 : it->second.serial; }
    bool ok() const { int64_t s = id(); return s >= 0 && intact(body, S, s); }
    ~Plain() {
        User u;
        int64_t s = id();
        bool good = s >= 0 && intact(body, S, s);
        if (!dying(this, sizeof *this, s)) return;
        if (!good) damaged(s, "by its destructor");
        for (size_t i = 0; i < S; i++) body[i] = 0xA5;
    }
};
// Elements of blocks.
int &elemIdx() { static int x[64]; return x[ME]; }
template <size_t S, bool NT, bool MOVE = false> struct Elem {
    unsigned char body[S];
    Elem(typename std::conditional<MOVE, Elem, NotThis>::type &&) noexcept {}
    Elem() noexcept(NT) {
        User u;
        int64_t s;
        bool th;
        {
            Off o;
            int i = elemIdx()++;
            s = g->ctorSerial[ME] + i;
            th = !NT && g->throwAt[ME] && g->throwAt[ME] - 1 == i;
            // alignment is checked for the block as a whole
            Rec &r = g->recs[s >> 8];
            if (!r.ctor) r.ctor = sim::tick();
            if (th) { thrown(); }
            else {
                auto it = g->reg.live.upper_bound((uintptr_t)this);
                if (it != g->reg.live.end() && it->first < (uintptr_t)this + S)
                    sim::violate("obj", false, "a block element was placed over a live object");
                if (!sim::heapValid(this, S)) sim::violate("obj", false, "a block element lies outside the pool's memory");
                if (it != g->reg.live.begin() && std::prev(it)->first + std::prev(it)->second.size > (uintptr_t)this) {
                    sim::violate("obj", false, "a block element was placed over a live object");
                    sim::violate("pool.life", false, "a block element was placed over one that was never destroyed");
                }
                g->reg.live[(uintptr_t)this] = {S, s};
                g->reg.counts[s].ctor++;
            }
        }
        if constexpr (!NT) if (th) throwUser(int(s));
        fill(body, S, s);
        { Off o; sim::protect(body, S); }
    }
    Elem(const Elem &) = delete;
    ~Elem() {
        User u;
        int64_t s = -1;
        { Off o; auto it = g->reg.live.find((uintptr_t)this); if (it != g->reg.live.end()) s = it->second.serial; }
        bool good = s >= 0 && intact(body, S, s);
        { Off o; if (!g->reg.remove(this, S, s)) return; }
        if (!good) damaged(s, "by its destructor");
        for (size_t i = 0; i < S; i++) body[i] = 0xA5;
    }
};

// The same without a destructor of their own: nothing of theirs runs when they are released.
template <size_t S, bool NT> struct ElemTD {
    unsigned char body[S];
    ElemTD() noexcept(NT) {
        User u;
        int64_t s;
        bool th;
        {
            Off o;
            int i = elemIdx()++;
            s = g->ctorSerial[ME] + i;
            th = !NT && g->throwAt[ME] && g->throwAt[ME] - 1 == i;
            Rec &r = g->recs[s >> 8];
            if (!r.ctor) r.ctor = sim::tick();
            if (th) thrown();
        }
        if constexpr (!NT) if (th) throwUser(int(s));
        fill(body, S, s);
    }
    ElemTD(const ElemTD &) = delete;
};
template <size_t S> struct Pod { unsigned char body[S]; };
template <size_t S, bool NT> struct PlainTD {
    unsigned char body[S];
    PlainTD(int64_t s, const Arg &, Arg &&, Arg &mut) noexcept(NT) {
        User u;
        born(this, sizeof *this, s);
        mut.v = -7;
        fill(body, S, s);
        if constexpr (!NT) if (g->throwAt[ME]) { { Off o; g->reg.remove(this, sizeof *this, s); } thrown(); throwUser(int(s)); }
        ready(this, sizeof *this);
    }
    PlainTD(const PlainTD &) = delete;
    int64_t id() const { Off o; auto it = g->reg.live.find((uintptr_t)this); return it == g->reg.live.end() ? -1 : it->second.serial; }
    bool ok() const { int64_t s = id(); return s >= 0 && intact(body, S, s); }
};
// Objects of these types do not see their own end; it is booked when they are let go.
template <class T> constexpr bool passive = std::is_scalar<T>::value || std::is_trivially_destructible<T>::value;
template <class T> constexpr bool isPod = !std::is_scalar<T>::value && std::is_trivially_default_constructible<T>::value;

// ---------------------------------------------------------------- type-free pools
struct Held {
    int64_t serial = 0;
    int pool = 0;
    virtual ~Held() {}
    virtual void drop() = 0;
    virtual bool ok() = 0;
    virtual void adopt(Held &) = 0;     // move assignment of the pointers: releases what this one held
};
struct Pools {
    virtual ~Pools() {}
    virtual Held *make(int64_t serial, int cls, int pool) = 0;
    virtual void tooBig() {}
    virtual int64_t size() = 0;
    virtual void stats(StatRec &) = 0;
};
template <class P> struct ObjHeld : Held {
    P p;
    void letGo() {
        if constexpr (passive<typename P::element_type>) {
            if (!p) return;
            if (!p->ok()) damaged(serial, "at release");
            dying(p.get(), sizeof *p, serial);
        }
    }
    void drop() override { letGo(); P q(std::move(p)); }
    bool ok() override { return p && p->ok() && p->id() == serial; }
    void adopt(Held &o) override { letGo(); p = std::move(static_cast<ObjHeld<P> &>(o).p); }
};
template <class T> struct Objects : Pools {
    RR::ObjectPool<T> pool;
    int64_t room;
    Objects(size_t n, size_t min) : pool{n, min}, room((int64_t)min) {}
    template <class D> Held *mk(int64_t s) {
        ObjHeld<typename RR::ObjectPool<T>::ObjectPtrType> *h;
        Arg *a, *b, *c;
        { Off o; h = new ObjHeld<typename RR::ObjectPool<T>::ObjectPtrType>; a = new Arg(s + 1); b = new Arg(s + 2); c = new Arg(s + 3); }
        { Off o; g->size[ME] = (int64_t)sizeof(D); g->room[ME] = std::max(room, (int64_t)sizeof(T)); }
        try {
            h->p = pool.template createObj<D>(s, static_cast<const Arg &>(*a), std::move(*b), *c);
        } catch (...) {
            { Off o; delete a; delete b; delete c; delete h; }
            throw;
        }
        Off o;
        if (c->v != -7) sim::violate("pool.life", false, "a reference argument did not reach the constructor");
        delete a; delete b; delete c;
        return h;
    }
    Held *make(int64_t s, int cls, int) override { return sel(s, cls, (T *)nullptr); }
    Held *sel(int64_t s, int cls, VBase *) {
        switch (cls) {
        case 0: return mk<Der<1>>(s);
        case 1: return mk<Der<8>>(s);
        case 2: return mk<Der<21>>(s);
        case 3: return mk<Der<40>>(s);
        case 4: return mk<Mult<5>>(s);
        case 5: return mk<Mult<24>>(s);
        case 6: return mk<Virt<9>>(s);
        default: return mk<Der<16, VBase, TR_DEFAULT>>(s);
        }
    }
    template <class B> Held *sel(int64_t s, int cls, B *) {
        switch (cls) {
        case 0: return mk<Der<1, B>>(s);
        case 1: return mk<Der<8, B, TR_DEFAULT>>(s);
        case 2: return mk<Der<21, B, TR_MOVE>>(s);
        case 3: return mk<Der<40, B, TR_ARGS>>(s);
        case 4: return mk<Mult<5, B>>(s);
        case 5: return mk<Mult<24, B, TR_ARGS>>(s);
        case 6: return mk<Virt<9, B>>(s);
        default: return mk<Der<8, B, TR_DEFAULT | TR_MOVE | TR_ARGS>>(s);
        }
    }
    template <size_t S, bool NT> Held *sel(int64_t s, int, PlainTD<S, NT> *) { return mk<PlainTD<S, NT>>(s); }
    template <size_t S, int TR> Held *sel(int64_t s, int, Plain<S, TR> *) { return mk<Plain<S, TR>>(s); }
    template <class B> std::enable_if_t<std::is_polymorphic<B>::value> big(B *) { pool.template createObj<Huge<B>>(); }
    void big(void *) {}
    void tooBig() override { big((T *)nullptr); }
    int64_t size() override { return (int64_t)pool.getSize(); }
    void stats(StatRec &r) override { auto s = pool.getRunningStateStatistics(); r.size = (int64_t)s.size; r.running = s.runningCount; r.low = s.lowWatermark; }
};
template <class T> struct Blocks : Pools {
    using Ptr = typename RR::BlockPool<T>::BlockPtrType;
    RR::BlockPool<T> pool;
    size_t n;
    Blocks(size_t c, size_t per) : pool{c, per}, n(per) {}
    struct BH : Held {
        Ptr p;
        size_t n = 0;
        void drop() override {
            if (passive<T>) {
                if (!okS(p.get(), std::is_scalar<T>())) damaged(serial, "at release");
                Off o;
                g->reg.remove((void *)p.get(), n * sizeof(T), serial);
            }
            Ptr q(std::move(p));
        }
        bool okS(T *t, std::true_type) {
            for (size_t i = 0; i < n; i++) { T want; wr(want, serial, i); if (!(t[i] == want)) return false; }
            return true;
        }
        bool okS(T *t, std::false_type) { for (size_t i = 0; i < n; i++) if (!intact(t[i].body, sizeof(T), serial + (int64_t)i)) return false; return true; }
        bool ok() override {
            size_t ne = p.get_deleter().getNumElements();
            if (ne != n) { Off o; sim::violate("pool.life", false, "a block of %zu elements claims to have %zu", n, ne); }
            return okS(p.get(), std::is_scalar<T>());
        }
        void adopt(Held &o) override {
            if (passive<T>) { Off x; g->reg.remove((void *)p.get(), n * sizeof(T), serial); }
            p = std::move(static_cast<BH &>(o).p);
        }
        static void wr(bool &t, int64_t s, size_t i) { t = LiveReg::pat(s, i) & 1; }
        template <class U> static void wr(U *&t, int64_t s, size_t i) { t = (U *)(uintptr_t)(LiveReg::pat(s, i) * 0x01010101ull + 1); }
        template <class U> static void wr(U &t, int64_t s, size_t i) { t = U(LiveReg::pat(s, i) + 1); }
    };
    void first(BH *h, std::true_type) {
        T *t = h->p.get();
        { Off o;
          Rec &r = g->recs[h->serial >> 8];
          if (!r.ctor) r.ctor = sim::tick();
          g->reg.add((void *)t, n * sizeof(T), h->serial); }
        for (size_t i = 0; i < n; i++) {
            unsigned char *b = (unsigned char *)&t[i];
            for (size_t k = 0; k < (std::is_same<T, long double>::value ? 10 : sizeof(T)); k++)
                if (b[k]) { Off o; sim::violate("pool.zero", false, "element %zu of a fresh scalar block is not zero", i); k = sizeof(T); i = n - 1; }
        }
        { User u; for (size_t i = 0; i < n; i++) BH::wr(t[i], h->serial, i); }
        Off o;
        sim::protect((void *)t, n * sizeof(T));
    }
    void first(BH *h, std::false_type) {
        T *t = h->p.get();
        if (isPod<T>) { Off o; g->recs[h->serial >> 8].ctor = sim::tick(); }
        if (isPod<T>) { User u; for (size_t i = 0; i < n; i++) fill(t[i].body, sizeof(T), h->serial + (int64_t)i); }
        Off o;
        if (passive<T>) { g->reg.add((void *)t, n * sizeof(T), h->serial); sim::protect((void *)t, n * sizeof(T)); }
        if (isPod<T>) return;
        if ((uintptr_t)t % sizeof(void *)) sim::violate("obj", false, "a block is not pointer aligned");
        int made = elemIdx();
        if (made != (int)n) sim::violate("pool.life", false, "a block of %zu elements constructed %d of them", n, made);
    }
    Held *make(int64_t s, int, int) override {
        BH *h;
        { Off o; h = new BH; h->serial = s; h->n = n; g->ctorSerial[ME] = s; elemIdx() = 0; }
        try { h->p = pool.getBlock(); }
        catch (...) { Off o; delete h; throw; }
        first(h, std::is_scalar<T>());
        return h;
    }
    int64_t size() override { return (int64_t)pool.getSize(); }
    void stats(StatRec &r) override { auto s = pool.getRunningStateStatistics(); r.size = (int64_t)s.size; r.running = s.runningCount; r.low = s.lowWatermark; }
};
enum class Colour : int { black };
Pools *makePools(int kind, size_t n, size_t sz) {
    switch (kind) {
    case 0: case 1: return new Objects<VBase>(n, sz);
    case 2: return new Objects<Plain<1>>(n, sz > 40 ? sz : 1);
    case 3: return new Objects<Plain<3>>(n, 3);
    case 4: return new Objects<Plain<12>>(n, 12);
    case 5: return new Objects<Plain<17>>(n, sz > 40 ? sz : 17);
    case 6: return new Blocks<char>(n, sz);
    case 7: return new Blocks<int16_t>(n, sz);
    case 8: return new Blocks<double>(n, sz);
    case 9: return new Blocks<const void *>(n, sz);
    case 10: return new Blocks<Elem<3, true>>(n, sz);
    case 11: return new Blocks<Elem<5, false>>(n, sz);
    case 12: return new Blocks<Elem<12, false>>(n, sz);
    case 13: return new Blocks<bool>(n, sz);
    case 14: return new Objects<CBase>(n, sz);
    case 15: return new Objects<TBase>(n, sz);
    case 16: return new Objects<Plain<9, TR_DEFAULT>>(n, 9);
    case 17: return new Objects<Plain<9, TR_ARGS>>(n, 9);
    case 18: return new Objects<Plain<24, TR_MOVE>>(n, 1);
    case 21: return new Blocks<Colour>(n, sz);
    case 22: return new Blocks<long double>(n, sz);
    case 23: return new Blocks<ElemTD<6, false>>(n, sz);
    case 24: return new Blocks<ElemTD<8, true>>(n, sz);
    case 25: return new Blocks<Pod<10>>(n, sz);
    case 26: return new Objects<PlainTD<11, false>>(n, 11);
    case 27: return new Objects<PlainTD<20, true>>(n, sz > 40 ? sz : 20);
    case 19: return new Blocks<Elem<7, false, true>>(n, sz);
    default: return new Blocks<Elem<16, true, true>>(n, sz);
    }
}
bool objectKind(int k) { return k <= 5 || (k >= 14 && k <= 18) || k >= 26; }
bool polyKind(int k) { return k <= 1 || k == 14 || k == 15; }
const int NKINDS = 28;

void drop(Held *h) {
    int64_t idx = h->serial >> 8;
    {
        Off o;
        g->recs[idx].relInv = sim::tick();
    }
    h->drop();
    Off o;
    g->recs[idx].relRet = sim::tick();
    delete h;
}
// Returns the new object or null.
Held *create(int pool, int cls, int throwAt, bool &exhausted) {
    int64_t serial;
    exhausted = false;
    {
        Off o;
        serial = int64_t(g->recs.size()) << 8;
        Rec r;
        r.pool = pool;
        r.acqInv = sim::tick();
        g->recs.push_back(r);
        g->throwAt[ME] = throwAt;
    }
    Held *h = nullptr;
    bool threw = false, tooBig = false;
    try { h = g->pools[pool]->make(serial, cls, pool); }
    catch (const UserError &) { threw = true; }
    catch (const RR::RingBufferUnderflow &) { exhausted = true; }
    catch (const RR::ObjectPoolElementSizeError &) { tooBig = true; }
    catch (const std::exception &e) { Off o; sim::violate("pool.cap", true, "creating an object failed with an unexpected error: %s", e.what()); }
    Off o;
    Rec &r = g->recs[serial >> 8];
    g->throwAt[ME] = 0;
    g->refused[ME] = tooBig;
    if (h) { h->serial = serial; h->pool = pool; r.acqRet = sim::tick(); return h; }
    r.acqRet = sim::tick();
    if (exhausted) { r.exhausted = true; sim::probe(P_EXHAUSTED); }
    else if (tooBig) {
        r.failed = true;
        if (r.ctor) sim::violate("pool.cap", true, "an object that was refused for its size was constructed");
        r.ctor = 0;
        if (g->size[ME] <= g->room[ME]) sim::violate("pool.cap", true, "an object of %lld bytes was refused by a pool for objects of %lld bytes", (long long)g->size[ME], (long long)g->room[ME]);
    }
    else { r.failed = true; r.relInv = r.acqInv; r.relRet = r.acqRet; if (!threw) sim::violate("pool.cap", true, "creating an object produced nothing"); }
    if (throwAt == 1 && !threw && !exhausted && !tooBig) {}
    // nothing constructed for a failed request may survive
    for (auto &x : g->reg.live) if ((x.second.serial >> 8) == (serial >> 8)) sim::violate("pool.life", false, "an element of a failed request stays alive");
    return nullptr;
}
void query(int pool, int lane) {
    StatRec r;
    { Off o; r.pool = pool; r.lane = lane; r.inv = sim::tick(); }
    g->pools[pool]->stats(r);
    Off o;
    r.ret = sim::tick();
    g->stats.push_back(r);
}
void lane(const Lane &l) {
    std::vector<Held *> *held;
    { Off o; held = new std::vector<Held *>; }
    bool ex;
    for (auto &op : l.ops) {
        sim::beginOp(op.id);
        const char *k = op.code.c_str();
        int pool = g->pools[1] ? int(op.c & 1) : 0;
        if (!strcmp(k, "new")) {
            Held *h = create(pool, (int)op.a, (int)op.b, ex);
            if (h) {
                if (!h->ok()) { damaged(h->serial, "right after creation"); }
                Off o; held->push_back(h);
            }
        } else if (!strcmp(k, "assign")) { // overwrite a held pointer with a new object
            if (held->empty()) continue;
            Held *h = create(pool, (int)op.a, 0, ex);
            if (!h) continue;
            Held *old;
            { Off o; old = (*held)[op.b % held->size()]; g->recs[old->serial >> 8].relInv = sim::tick(); }
            old->adopt(*h);
            Off o;
            g->recs[old->serial >> 8].relRet = sim::tick();
            old->serial = h->serial;
            old->pool = h->pool;
            delete h;
        } else if (!strcmp(k, "del")) {
            if (held->empty()) continue;
            Held *h;
            { Off o; size_t i = size_t(op.a) % held->size(); h = (*held)[i]; held->erase(held->begin() + i); }
            drop(h);
        } else if (!strcmp(k, "check")) {
            for (size_t i = 0; i < held->size(); i++) if (!(*held)[i]->ok()) damaged((*held)[i]->serial, "by its owner");
        } else if (!strcmp(k, "send")) {
            Off o;
            if (held->empty()) continue;
            g->mail.push_back(held->back());
            held->pop_back();
            sim::hbRelease(int(1 + g->mail.back()->serial));
        } else if (!strcmp(k, "recv")) {
            Held *h = nullptr;
            { Off o; if (!g->mail.empty()) { h = g->mail.front(); g->mail.erase(g->mail.begin()); sim::hbAcquire(int(1 + h->serial)); sim::probe(P_CROSS_THREAD_RELEASE); } }
            if (h) {
                if (!h->ok()) damaged(h->serial, "by its receiver");
                drop(h);
            }
        } else if (!strcmp(k, "stats")) query(pool, l.id);
        else if (!strcmp(k, "big")) {
            bool refused = false;
            int64_t a0 = 0;
            (void)a0;
            if (!polyKind((int)g->c->get("kind"))) continue;
            try { g->pools[pool]->tooBig(); }
            catch (const RR::ObjectPoolElementSizeError &) { refused = true; }
            catch (...) { refused = true; }
            Off o;
            if (!refused) sim::violate("pool.cap", true, "a type that does not fit was accepted");
        } else if (!strcmp(k, "soak")) {
            for (int64_t n = 0; n < op.a; n++) { Held *h = create(pool, 0, 0, ex); if (h) drop(h); }
        }
    }
    // whatever is left goes back from here, oldest first
    sim::beginOp(50000 + l.id);
    bool keep = g->c->get("keep") && l.id == 1;
    for (size_t i = 0; i < held->size() && !keep; i++) {
        if (!(*held)[i]->ok()) damaged((*held)[i]->serial, "by its owner");
        drop((*held)[i]);
    }
    Off o;
    if (keep) for (auto *h : *held) { g->mail.push_back(h); sim::hbRelease(int(1 + h->serial)); }
    delete held;
}

struct PoolScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        int p = atoi(c.prop.c_str() + 1);
        bool heap = has(c, "C25");
        if (p == 25 || p == 27) p = (int)r.range(11, 14);
        c.set("prof", p);
        genSched(c, r);
        int kind = (int)r.below(NKINDS);
        if (p == 13 && r.oneIn(3)) kind = (int)r.range(6, 13);
        c.set("kind", kind);
        const int64_t n[] = {1, 1, 2, 2, 2, 3, 4, 5, 8};
        c.set("n", r.oneIn(30) ? 0 : r.pick(n));
        const int64_t mins[] = {0, 1, 17, 24, 25, 31, 33, 40, 41, 47, 56, 57, 64};
        c.set("size", objectKind(kind) ? r.pick(mins) : r.oneIn(300) ? r.range(10, 255) : r.range(1, 9));
        if (r.oneIn(1500)) { // more elements than a byte counts
            const int64_t l[] = {127, 128, 129, 255, 256, 257, 300};
            c.set("n", r.pick(l));
        } else if (r.oneIn(150)) c.set("n", r.range(9, 126));
        bool two = polyKind(kind) && r.oneIn(4);
        if (c.get("n") > 8) c.sched.stepCap = 40000000;
        c.set("pools", two ? 2 : 1);
        c.set("keep", r.oneIn(3));
        if ((p == 12 || p == 14) && !heap && r.oneIn(4000)) { // more objects than a 16 bit counter holds
            c.set("kind", 2); c.set("n", 65537); c.set("size", 1); c.set("big", 1); c.set("pools", 1); c.set("keep", 0);
            c.sched.races = 0; c.sched.plainGap = 0; c.sched.stepCap = 400000000; c.sched.strat = sim::ST_RANDOM; c.sched.pSwitch = 1000;
            numberOps(c);
            return;
        }
        int lanes = (int)r.range(2, 4);
        if (!heap && r.oneIn(3000)) { // long use: counters wrap
            c.set("soak", 1); c.set("kind", 3); c.set("pools", 1); c.set("keep", 0);
            c.sched.races = 0; c.sched.plainGap = 0; c.sched.stepCap = 400000000; c.sched.strat = sim::ST_RANDOM; c.sched.pSwitch = 200;
            for (int i = 0; i < 2; i++) { Lane l; sim::Op o; o.code = "soak"; o.a = r.chance(1, 2) ? 35000 : 700; l.ops.push_back(o); c.lanes.push_back(l); }
            numberOps(c);
            return;
        }
        int delRate = (int)r.range(20, 60);
        int throwRate = heap ? 0 : p == 12 || p == 13 ? 25 : 8;
        for (int i = 0; i < lanes; i++) {
            Lane l;
            int k = (int)r.range(2, 9);
            for (int j = 0; j < k; j++) {
                sim::Op o;
                int w = (int)r.below(100);
                o.c = r.below(2);
                if (p == 14 ? r.oneIn(3) : r.oneIn(12)) o.code = "stats";
                else if (w < delRate) { o.code = "del"; o.a = r.below(4); }
                else if (w < delRate + 6) o.code = "send";
                else if (w < delRate + 12) o.code = "recv";
                else if (w < delRate + 15) o.code = "check";
                else if (w < delRate + 18 && !heap) o.code = "big";
                else if (w < delRate + 22) { o.code = "assign"; o.a = r.below(8); o.b = r.below(3); }
                else { o.code = "new"; o.a = r.below(8); if (r.chance(throwRate, 100)) o.b = 1 + r.below(4); }
                l.ops.push_back(o);
            }
            c.lanes.push_back(l);
        }
        genAge(c, r);
        numberOps(c);
    }
    void main(const Case &c) override {
        { Off o; if (g) delete g; g = new G; g->c = &c; }
        int np = (int)c.get("pools", 1);
        for (int i = 0; i < np; i++) g->pools[i] = makePools((int)c.get("kind"), size_t(c.get("n")), size_t(c.get("size")));
        int64_t want = 2;
        while (want < c.get("n")) want *= 2;
        for (int i = 0; i < np; i++) {
            int64_t n = g->pools[i]->size();
            Off o;
            if (n != want) sim::violate("pool.cap", true, "a pool of %lld elements has capacity %lld instead of %lld", (long long)c.get("n"), (long long)n, (long long)want);
        }
        heapPhaseBegin(c);
        if (int64_t age = c.get("age")) {
            Lane l;
            { Off o; sim::Op x; for (int64_t k = 0; k < age; k++) { x.code = "new"; x.a = k % 3; l.ops.push_back(x); x.code = "del"; l.ops.push_back(x); } }
            lane(l);
        }
        if (c.get("big")) { huge(want); for (int i = 0; i < np; i++) delete g->pools[i]; return; }
        spawnAll(c, lane);
        sim::waitQuiescent();
        { Off o; if (!sim::allFinished()) sim::violate("stuck", true, "a thread stays blocked in a pool operation"); }
        sim::beginOp(60000);
        for (int i = 0; i < np && !c.get("soak"); i++) query(i, 0);   // idle: exact
        { Off o; g->endTick = sim::tick(); }
        // the full capacity is there: what is outstanding plus what can be allocated
        for (int i = 0; i < np; i++) {
            std::vector<Held *> *all;
            int64_t out = 0;
            { Off o; all = new std::vector<Held *>; for (auto *h : g->mail) if (h->pool == i) out++; }
            bool ex = false;
            int cls = c.get("kind") <= 1 ? 0 : 0;
            for (int64_t k = 0; k < want - out; k++) {
                Held *h = create(i, cls, 0, ex);
                Off o;
                if (!h && g->refused[ME]) break;
                if (!h) { sim::violate("pool.cap", true, "with %lld of %lld elements in use no more can be allocated", (long long)(out + k), (long long)want); break; }
                all->push_back(h);
            }
            Held *h = create(i, cls, 0, ex);
            { Off o; if (h) { sim::violate("pool.cap", false, "%lld elements are outstanding from a pool of %lld", (long long)(want + 1), (long long)want); all->push_back(h); } }
            size_t n;
            { Off o; n = all->size(); }
            for (size_t k = 0; k < n; k++) if (!(*all)[k]->ok()) damaged((*all)[k]->serial, "by its owner");
            for (size_t k = 0; k < n; k++) drop((*all)[k]);
            Off o;
            delete all;
        }
        size_t m;
        { Off o; m = g->mail.size(); }
        for (size_t k = 0; k < m; k++) {
            { Off o; sim::hbAcquire(int(1 + g->mail[k]->serial)); }
            if (!g->mail[k]->ok()) damaged(g->mail[k]->serial, "by its owner");
            drop(g->mail[k]);
        }
        heapPhaseEnd(c);
        for (int i = 0; i < np; i++) delete g->pools[i];
    }
    void huge(int64_t n) {
        bool ex;
        std::vector<Held *> *all;
        { Off o; all = new std::vector<Held *>; all->reserve(n + 2); }
        for (int64_t k = 0; k < n; k++) { Held *h = create(0, 0, 0, ex); Off o; if (!h) sim::violate("pool.cap", true, "only %lld of %lld elements could be allocated", (long long)k, (long long)n); all->push_back(h); }
        StatRec s;
        g->pools[0]->stats(s);
        { Off o; if (s.running != 0 || s.low != 0) sim::violate("pool.stats", true, "with everything in use the statistics report %lld free, minimum %lld", (long long)s.running, (long long)s.low); }
        Held *h = create(0, 0, 0, ex);
        { Off o; if (h) sim::violate("pool.cap", true, "more elements than the capacity are outstanding"); }
        for (int64_t k = 0; k < n; k++) drop((*all)[k]);
        g->pools[0]->stats(s);
        { Off o; if (s.running != n || s.low != 0) sim::violate("pool.stats", true, "with nothing in use the statistics report %lld free, minimum %lld", (long long)s.running, (long long)s.low); delete all; g->recs.clear(); }
    }
    void check(const Case &c) override {
        if (!g->reg.live.empty()) sim::violate("pool.life", false, "%zu objects were never destroyed", g->reg.live.size());
        for (auto &x : g->reg.counts)
            if (x.second.ctor != 1 || x.second.dtor != 1) sim::violate("pool.life", false, "object %lld was constructed %d and destroyed %d times", (long long)x.first, x.second.ctor, x.second.dtor);
        if (c.get("big") || c.get("soak")) return;
        int64_t n = 2;
        while (n < c.get("n")) n *= 2;
        for (int p = 0; p < c.get("pools", 1); p++) {
            // capacity: linearizable against a counter
            std::vector<lin::Op> ops;
            int lane = 0;
            for (auto &r : g->recs) {
                if (r.pool != p || r.acqInv > g->endTick) continue;
                if (r.exhausted) { ops.push_back({lane++, r.acqInv, r.acqRet, lin::ACQ, 0, lin::R_ERR}); continue; }
                if (r.failed && !r.ctor) continue;
                ops.push_back({lane, r.acqInv, r.ctor, lin::ACQ, 0, 0});
                uint64_t ri = r.failed ? r.ctor : r.relInv, rr = r.failed ? r.acqRet : r.relRet;
                if (ri < g->endTick) ops.push_back({lane, ri, rr, lin::REL, 0, 0});
                lane++;
            }
            lin::PoolModel m(n);
            linCheck("pool", m, ops);
            // statistics
            for (size_t qi = 0; qi < g->stats.size(); qi++) {
                auto &q = g->stats[qi];
                if (q.pool != p) continue;
                auto definite = [&](uint64_t a, uint64_t b) { // outstanding during all of [a, b]
                    int64_t k = 0;
                    for (auto &r : g->recs) if (r.pool == p && !r.exhausted && !r.failed && r.acqRet <= a && r.relInv >= b) k++;
                    return k;
                };
                auto possible = [&](uint64_t a, uint64_t b) { // outstanding at some moment of [a, b]
                    int64_t k = 0;
                    for (auto &r : g->recs) if (r.pool == p && !r.exhausted && (!r.failed || r.ctor) && r.acqInv <= b && r.relRet >= a) k++;
                    return k;
                };
                int64_t lo = n - std::min(n, possible(q.inv, q.ret)), hi = n - definite(q.inv, q.ret);
                if (q.size != n) sim::violate("pool.stats", true, "statistics report size %lld, capacity is %lld", (long long)q.size, (long long)n);
                if (q.running < lo || q.running > hi)
                    sim::violate("pool.stats", true, "statistics report %lld free elements; between %lld and %lld were", (long long)q.running, (long long)lo, (long long)hi);
                int64_t peakDef = definite(q.inv, q.ret), peakPos = 0;
                for (auto &r : g->recs) {
                    if (r.pool != p || r.exhausted) continue;
                    if (r.acqRet <= q.inv && !r.failed) peakDef = std::max(peakDef, definite(r.acqRet, r.acqRet));
                    if (r.acqInv <= q.ret) peakPos = std::max(peakPos, possible(r.acqInv, r.acqInv));
                }
                int64_t wlo = n - std::min(n, peakPos), whi = std::min(n - peakDef, q.running);
                if (q.low < wlo || q.low > whi)
                    sim::violate("pool.stats", true, "statistics report a low watermark of %lld (free %lld); it must be between %lld and %lld", (long long)q.low,
                                 (long long)q.running, (long long)wlo, (long long)whi);
                for (auto &e : g->stats)
                    if (e.pool == p && e.ret < q.inv && e.low < q.low) sim::violate("pool.stats", true, "the low watermark rose from %lld to %lld", (long long)e.low, (long long)q.low);
            }
        }
    }
};
} // namespace
sim::Scenario *makePool() { return new PoolScenario; }

// Registry of live user objects: overlap, alignment, bounds, contents, single construction/destruction.
// Used by the pool and message queue scenarios for the objects they place into library storage.
#pragma once
#include "scn.hpp"
#include <map>

struct LiveReg {
    struct Ent { size_t size; int64_t serial; };
    std::map<uintptr_t, Ent> live;
    struct Count { int ctor = 0, dtor = 0; };
    std::map<int64_t, Count> counts;       // by serial
    const char *lifeTag = "pool.life";
    bool tornDown = false;                 // the container has gone: no library storage may be used
    void add(const void *p, size_t n, int64_t serial) {
        uintptr_t a = (uintptr_t)p;
        if (a % sizeof(void *)) bad("storage at %p for object %lld is not pointer aligned", p, (long long)serial);
        if (!sim::heapValid(p, n)) bad("storage at %p (%lld bytes needed) is not inside the container's memory", p, (long long)n);
        auto it = live.upper_bound(a);
        const Ent *hit = nullptr;
        if (it != live.end() && it->first < a + n) hit = &it->second;
        if (it != live.begin()) { auto q = std::prev(it); if (q->first + q->second.size > a) hit = &q->second; }
        if (hit) {
            sim::violate("obj", false, "object %lld was placed over the storage of live object %lld", (long long)serial, (long long)hit->serial);
            sim::violate(lifeTag, false, "object %lld was placed over object %lld, which was never destroyed", (long long)serial, (long long)hit->serial);
        }
        live[a] = {n, serial};
        if (++counts[serial].ctor != 1) sim::violate(lifeTag, false, "object %lld was constructed twice", (long long)serial);
    }
    void protect(const void *p, size_t n) { sim::protect(p, n); }
    // false: not a live object
    bool remove(const void *p, size_t n, int64_t serial) {
        auto it = live.find((uintptr_t)p);
        if (it == live.end() || it->second.serial != serial) {
            sim::violate(lifeTag, false, "a destructor ran on storage at %p that holds no live object (or another one)", p);
            return false;
        }
        sim::unprotect(p, n);
        live.erase(it);
        if (++counts[serial].dtor != 1) sim::violate(lifeTag, false, "object %lld was destroyed twice", (long long)serial);
        return true;
    }
    bool isLive(int64_t serial) const { for (auto &x : live) if (x.second.serial == serial) return true; return false; }
    static unsigned char pat(int64_t serial, size_t i) { return (unsigned char)(serial * 37 + i * 11 + 5); }
private:
    void bad(const char *f, const void *p, long long v) {
        char b[200];
        snprintf(b, sizeof b, f, p, v);
        sim::violate("obj", false, "%s", b);
    }
};

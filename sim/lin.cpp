#include "lin.hpp"
#include <algorithm>
#include <cstdio>
#include <unordered_set>
namespace lin {
namespace {
struct Search {
    const Model &m;
    std::vector<std::vector<Op>> lanes;   // completed ops
    std::vector<Op> pend;
    std::vector<size_t> at;
    std::unordered_set<uint64_t> seen;
    size_t nodes = 0, cap;
    bool complete = false, capped = false;
    size_t best = 0, done = 0;
    std::string bestWhy, stuckWhy;
    Search(const Model &mm, size_t c) : m(mm), cap(c) {}
    static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
    bool dfs(State &st) {
        if (++nodes > cap) { capped = true; return true; }
        uint64_t lim = INF;
        bool all = true;
        for (size_t i = 0; i < lanes.size(); i++)
            if (at[i] < lanes[i].size()) { all = false; lim = std::min(lim, lanes[i][at[i]].ret); }
        if (all) {
            complete = true;
            for (auto &p : pend)
                if (m.enabled(st, p)) {
                    char b[160];
                    snprintf(b, sizeof b, "thread %d stays blocked in %s although it could proceed", p.lane, m.name(p.kind));
                    stuckWhy = b;
                    return false;
                }
            return true;
        }
        uint64_t h = 0x51;
        for (size_t x : at) h = mix(h, x);
        if (m.ordered()) for (int64_t x : st) h = mix(h, uint64_t(x));
        if (!seen.insert(h).second) return false;
        if (done >= best) {
            best = done;
            bestWhy.clear();
            for (size_t i = 0; i < lanes.size(); i++)
                if (at[i] < lanes[i].size() && lanes[i][at[i]].inv < lim) {
                    const Op &o = lanes[i][at[i]];
                    char b[160];
                    snprintf(b, sizeof b, "%sthread %d: %s(%lld)=%lld", bestWhy.empty() ? "" : ", ", o.lane, m.name(o.kind), (long long)o.a, (long long)o.res);
                    bestWhy += b;
                }
            bestWhy += " in state [";
            for (size_t i = 0; i < st.size() && i < 12; i++) { char b[32]; snprintf(b, sizeof b, "%s%lld", i ? " " : "", (long long)st[i]); bestWhy += b; }
            bestWhy += "]";
        }
        // try the operations in order of their return time
        std::vector<size_t> idx;
        for (size_t i = 0; i < lanes.size(); i++)
            if (at[i] < lanes[i].size() && lanes[i][at[i]].inv < lim) idx.push_back(i);
        std::sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return lanes[a][at[a]].ret < lanes[b][at[b]].ret; });
        for (size_t i : idx) {
            const Op &o = lanes[i][at[i]];
            for (int ch = 0, nc = m.choices(o); ch < nc; ch++) {
                State s2 = st;
                if (!m.step(s2, o, ch)) continue;
                at[i]++;
                done++;
                if (dfs(s2)) return true;
                at[i]--;
                done--;
            }
        }
        return false;
    }
};
}
Verdict check(const Model &m, std::vector<Op> ops, size_t nodeCap, std::string &why) {
    Search s(m, nodeCap);
    int maxLane = 0;
    for (auto &o : ops) maxLane = std::max(maxLane, o.lane);
    s.lanes.resize(maxLane + 1);
    std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
    for (auto &o : ops) (o.ret == INF ? s.pend : s.lanes[o.lane]).push_back(o);
    s.lanes.erase(std::remove_if(s.lanes.begin(), s.lanes.end(), [](const std::vector<Op> &v) { return v.empty(); }), s.lanes.end());
    s.at.assign(s.lanes.size(), 0);
    State st = m.init();
    if (s.dfs(st)) return s.capped ? CAPPED : OK;
    if (s.complete) { why = s.stuckWhy; return STUCK; }
    char b[96];
    snprintf(b, sizeof b, "no sequential order explains the results; after %zu of %zu operations none of these fits: ", s.best, ops.size() - s.pend.size());
    why = b + s.bestWhy;
    return NOT_LINEARIZABLE;
}
bool SemModel::step(State &s, const Op &o, int) const {
    int64_t &c = s[0], &ab = s[1];
    switch (o.kind) {
    case TAKE:
        if (o.res == R_ABORTED) return ab;
        if (ab || c <= 0) return false;
        if (o.res == R_OK) { c--; return true; }
        return o.res == R_EXC;
    case GIVE:
        if (o.res == R_ABORTED) return ab;
        if (ab) return false;
        if (o.res == R_OVERFLOW) return c == 0xFFFFFFFFll;
        if (c >= max || c == 0xFFFFFFFFll) return false;
        if (o.res == R_OK) { c++; return true; }
        return o.res == R_EXC;
    case COUNT: return o.res == c;
    case ABORT: ab = 1; return true;
    }
    return false;
}
bool SemModel::enabled(const State &s, const Op &o) const {
    if (s[1]) return true;
    if (o.kind == TAKE) return s[0] > 0;
    if (o.kind == GIVE) return s[0] < max || s[0] == 0xFFFFFFFFll;
    return true;
}
bool RingModel::step(State &s, const Op &o, int choice) const {
    size_t n = s.size() - 3;
    bool t = s[0], sa = s[1], np = s[2];
    switch (o.kind) {
    case PUT:
        if (o.res >= 0) {
            if (choice == 1) return t && o.res != R_ACCEPTED;   // dropped: the buffer is terminal
            if (o.res == R_DROPPED) return false;
            if (sa || np || (int64_t)n >= cap) return false;
            s.push_back(o.a);
            return true;
        }
        if (o.res == R_ERR) return sa || t || np;
        return false;
    case GET:
        if (o.res == R_ERR) return sa || t || np;
        if (sa || np || !n || s[3] != o.a) return false;
        s.erase(s.begin() + 3);
        return true;
    case T_ABORT: s[0] = 1; return true;
    case S_ABORT: s[1] = 1; return true;
    case PRIME: {
        if (o.res == R_ERR) return !np || t;
        const auto &v = flushes[o.a];
        if (!np || (o.res == R_OK && (int64_t)v.size() != primeCount && !t)) return false;
        for (int64_t x : v) s.push_back(x);
        if (o.res == R_OK) s[2] = 0;
        return true;
    }
    case FLUSH: {
        if (o.res == R_ERR) return !t;
        if (!t) return false;
        const auto &v = flushes[o.a];
        if (v.size() > n || (o.res == R_OK && v.size() != n)) return false;   // a function that throws ends it early
        for (size_t i = 0; i < v.size(); i++) if (v[i] != s[3 + i]) return false;
        s.erase(s.begin() + 3, s.begin() + 3 + v.size());
        return true;
    }
    }
    return false;
}
bool RingModel::enabled(const State &s, const Op &o) const {
    size_t n = s.size() - 3;
    if (s[0] || s[1] || s[2]) return true;
    if (o.kind == PUT) return (int64_t)n < cap;
    if (o.kind == GET) return n > 0;
    return true;
}
bool RingCountModel::step(State &s, const Op &o, int choice) const {
    bool t = s[0], sa = s[1];
    switch (o.kind) {
    case PUT:
        if (o.res == R_ERR) return sa || t;
        if (choice == 1) return t && o.res != R_ACCEPTED;
        if (o.res == R_DROPPED || sa || s[2] >= cap) return false;
        s[2]++;
        return true;
    case GET:
        if (o.res == R_ERR) return sa || t;
        if (sa || s[2] <= 0) return false;
        s[2]--;
        return true;
    case T_ABORT: s[0] = 1; return true;
    case S_ABORT: s[1] = 1; return true;
    }
    return true;
}
bool RingCountModel::enabled(const State &s, const Op &o) const {
    if (s[0] || s[1]) return true;
    return o.kind == PUT ? s[2] < cap : o.kind == GET ? s[2] > 0 : true;
}
bool MqModel::step(State &s, const Op &o, int choice) const {
    size_t n = s.size() - 3;
    bool ab = s[1] || s[2];
    switch (o.kind) {
    case ACQ:
        if (o.res == R_ERR) return ab;
        if (s[0] <= 0) return false;
        s[0]--;
        return true;
    case REL:
        if (choice == 1) return ab;     // lost: nobody can get it any more
        if (s[0] >= cap) return false;
        s[0]++;
        return true;
    case PUT:
        if (o.res == R_ERR) return ab;
        if (s[1]) return false;
        s.push_back(o.a);
        return true;
    case GET:
        if (o.res == R_ERR) return ab;
        if (s[1] || !n || s[3] != o.a) return false;
        s.erase(s.begin() + 3);
        return true;
    case T_ABORT: s[1] = 1; return true;
    case S_ABORT: s[2] = 1; return true;
    }
    return false;
}
bool MqModel::enabled(const State &s, const Op &o) const {
    if (s[1] || s[2]) return true;
    if (o.kind == ACQ) return s[0] > 0;
    if (o.kind == GET) return s.size() > 3;
    return true;
}
bool PoolModel::step(State &s, const Op &o, int) const {
    if (o.kind == ACQ) {
        if (o.res == R_ERR) return s[0] == 0;
        if (s[0] <= 0) return false;
        s[0]--;
        return true;
    }
    if (s[0] >= cap) return false;
    s[0]++;
    return true;
}
} // namespace lin

// Case text format (also the replay file format).
#include "rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
namespace sim {
int64_t Case::get(const char *k, int64_t d) const {
    for (auto &p : params) if (p.k == k) return p.v;
    return d;
}
void Case::set(const char *k, int64_t v) {
    for (auto &p : params) if (p.k == k) { p.v = v; return; }
    params.push_back({k, v});
}
static const struct { const char *n; int SchedCfg::*f; } schedInts[] = {
    {"strat", &SchedCfg::strat}, {"pSwitch", &SchedCfg::pSwitch}, {"plainGap", &SchedCfg::plainGap},
    {"pctDepth", &SchedCfg::pctDepth}, {"pctLen", &SchedCfg::pctLen}, {"spurious", &SchedCfg::spurious},
    {"weakCas", &SchedCfg::weakCas}, {"weakMem", &SchedCfg::weakMem}, {"stall", &SchedCfg::stall}, {"sigChoice", &SchedCfg::sigChoice}, {"races", &SchedCfg::races}, {"fill", &SchedCfg::fill}};
static const struct { const char *n; int64_t SchedCfg::*f; } schedLongs[] = {
    {"stallMaxUs", &SchedCfg::stallMaxUs}, {"stallBudgetUs", &SchedCfg::stallBudgetUs}, {"stepCap", &SchedCfg::stepCap}};
std::string Case::text() const {
    std::ostringstream o;
    o << "case " << prop << " " << scenario << " " << seed << " " << run << "\n";
    for (auto &p : params) o << "param " << p.k << " " << p.v << "\n";
    for (auto &f : schedInts) o << "sched " << f.n << " " << sched.*f.f << "\n";
    for (auto &f : schedLongs) o << "sched " << f.n << " " << sched.*f.f << "\n";
    for (auto &l : lanes) {
        o << "thread " << l.id << " prio " << l.prio << "\n";
        for (auto &p : l.ops) o << "  op " << p.id << " " << p.code << " " << p.a << " " << p.b << " " << p.c << " " << p.d << "\n";
    }
    for (auto &d : decisions) o << "decision " << d.kind << " thread " << d.fid << " op " << d.op << " step " << d.idx << " value " << d.val << "\n";
    return o.str();
}
bool Case::parse(const std::string &t, std::string &err) {
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#' || w == "expect" || w == "message") continue;
        if (w == "case") l >> prop >> scenario >> seed >> run;
        else if (w == "param") { Param p; l >> p.k >> p.v; params.push_back(p); }
        else if (w == "sched") {
            std::string n; int64_t v; l >> n >> v;
            for (auto &f : schedInts) if (n == f.n) sched.*f.f = (int)v;
            for (auto &f : schedLongs) if (n == f.n) sched.*f.f = v;
        } else if (w == "thread") { Lane x; std::string k; l >> x.id >> k >> x.prio; lanes.push_back(x); }
        else if (w == "op") {
            if (lanes.empty()) { err = "op before thread"; return false; }
            Op o; l >> o.id >> o.code >> o.a >> o.b >> o.c >> o.d; lanes.back().ops.push_back(o);
        } else if (w == "decision") {
            Decision d; std::string a, b, c, e; l >> d.kind >> a >> d.fid >> b >> d.op >> c >> d.idx >> e >> d.val; decisions.push_back(d);
        } else { err = "unknown line: " + line; return false; }
        if (l.fail()) { err = "bad line: " + line; return false; }
    }
    replay = true;
    return true;
}
} // namespace sim

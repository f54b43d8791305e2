// Scenario: the shipped JobDispatcher example (all of it but main.cpp) on 0 to 9 processors, jobs of 10 to 20
// seconds in virtual time, its threads as fibers.  C30.  What it prints is the history of jobs.
#include "scn.hpp"
#include "JobDispatcher.hpp"
#include <iostream>
#include <map>
#include <set>
#include <streambuf>

namespace {
const int MAXJOBS = 128;
struct G {
    int workers = 0, cpus = 0, tasks = 0;
    std::map<int, std::string> part;      // text of the unfinished line per thread
    std::map<unsigned, unsigned> task;    // the task a job was sent to
    std::set<unsigned> done;
    std::map<unsigned, unsigned> busy;    // jobs a task has
    std::string trouble;
    bool active = false, finished = false;  // activated; runJobs returned
    int fired = 0;
};
G *g;
void fired(unsigned j, unsigned t) {
    g->fired++;
    if (j < 1 || j > MAXJOBS) sim::violate("jobs", true, "job %u was sent to a task, there are only jobs 1 to %d", j, MAXJOBS);
    if (g->task.count(j)) sim::violate("jobs", true, "job %u was sent out twice", j);
    g->task[j] = t;
}
void completed(unsigned j, unsigned t) {
    if (j < 1 || j > MAXJOBS) sim::violate("jobs", true, "job %u was completed, there are only jobs 1 to %d", j, MAXJOBS);
    if (!g->done.insert(j).second) sim::violate("jobs", true, "job %u was completed twice", j);
    auto i = g->task.find(j);
    if (i != g->task.end() && i->second != t) sim::violate("jobs", true, "job %u was sent to task %u and completed by task %u", j, i->second, t);
    if (g->finished) sim::violate("jobs", true, "job %u was completed after runJobs had returned", j);
}
void line(const std::string &s) {
    if (!g) return;
    if (simVerbose) fprintf(stderr, "[t=%lldus thread %d] %s\n", (long long)sim::nowUs(), sim::self(), s.c_str());
    unsigned j, t;
    size_t p = 0;
    if (sscanf(s.c_str(), "Constructed JobTask #%u", &j) == 1 && ++g->tasks > 1000)
        sim::violate("jobs", true, "more than 1000 JobTasks are constructed when %d processors are reported", g->cpus);
    if (sscanf(s.c_str(), "Job #%u was completed by task #%u.", &j, &t) == 2) { completed(j, t); p = s.find(" Fired off"); if (p == std::string::npos) return; p++; }
    if (sscanf(s.c_str() + p, "Fired off Job #%u to task #%u.", &j, &t) == 2) fired(j, t);
    if (s.find("exception") != std::string::npos) sim::violate("jobs", true, "the example reports: %s", s.c_str());
}
// Receives std::cout and std::cerr.
struct Out : std::streambuf {
    void add(const char *p, size_t n) {
        Off o;
        if (!g) return;
        std::string &b = g->part[sim::self()];
        for (size_t i = 0; i < n; i++) { if (p[i] == '\n') { std::string l; l.swap(b); line(l); } else b += p[i]; }
    }
    int overflow(int c) override { if (c != EOF) { char ch = (char)c; add(&ch, 1); } return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *p, std::streamsize n) override { add(p, (size_t)n); return n; }
};
Out out;
JobDispatcher *jd;
void lane(const Lane &l) {
    for (auto &op : l.ops) {
        sim::beginOp(op.id);
        const char *k = op.code.c_str();
        if (!strcmp(k, "sleep")) sim::sleepUs(op.a);
        else if (!strcmp(k, "activate")) { jd->activate(); g->active = true; }
        else if (!strcmp(k, "deactivate")) jd->deactivate();
        else if (!strcmp(k, "run") && g->active) {
            int64_t t0 = sim::nowUs();
            jd->runJobs();
            Off o;
            int64_t t = sim::nowUs() - t0, w = g->workers;
            g->finished = true;
            // 128 jobs of 10 to 20 seconds each; a worker that finished a job gets another as long as there is one
            if (t < MAXJOBS / w * 10000000ll)
                sim::violate("jobs", true, "runJobs returned after %lld ms, %d jobs take %lld workers at least %lld ms", (long long)t / 1000, MAXJOBS, (long long)w, MAXJOBS / w * 10000ll);
            if (t > MAXJOBS * 20000000ll / w + 21000000ll)
                sim::violate("jobs", true, "runJobs returned after %lld ms only, %d jobs take %lld workers at most %lld ms", (long long)t / 1000, MAXJOBS, (long long)w, MAXJOBS * 20000ll / w + 21000);
            if (!g->done.empty() || g->fired) {
                if ((int)g->done.size() != MAXJOBS) sim::violate("jobs", true, "runJobs returned when %d of %d jobs were completed", (int)g->done.size(), MAXJOBS);
            }
        }
    }
}
struct JobsScenario : sim::Scenario {
    void generate(Case &c, Rng &r) override {
        c.set("prof", 30);
        genSched(c, r, r.oneIn(4));
        c.sched.stepCap = 20000000;
        const int lens[] = {300, 3000, 20000, 60000};
        c.sched.pctLen = r.pick(lens);
        // runJobs on fewer than two processors is searched apart (see KNOWN_FINDINGS.txt)
        const int cpus[] = {1, 2, 2, 2, 3, 3, 4, 5, 6, 9};
        bool one = c.prop == "C30.one", unknown = c.prop == "C30.unknown";
        int n = one ? 1 : unknown ? 0 : r.pick(cpus);
        c.set("cpus", n);
        c.set("threads", n < 2 ? 2 : n);
        if (r.oneIn(8)) c.set("noNames", 1);
        if (r.oneIn(8)) c.set("noAffinity", 1);
        Lane l;
        auto add = [&](Lane &x, const char *k, int64_t a = 0) { sim::Op o; o.code = k; o.a = a; x.ops.push_back(o); };
        auto nap = [&](Lane &x) { if (r.oneIn(3)) add(x, "sleep", r.range(1, 30000)); };
        int w = one ? 0 : n < 2 && !unknown ? (int)r.range(6, 9) : (int)r.below(10);
        if (w < 6) {
            add(l, "activate"); nap(l); add(l, "run"); nap(l);
            if (!r.oneIn(4)) add(l, "deactivate");
            nap(l);
            c.lanes.push_back(l);
        } else if (w < 9) {                       // no jobs at all
            if (r.oneIn(5)) add(l, "deactivate");
            if (!r.oneIn(6)) { add(l, "activate"); nap(l); if (r.oneIn(4)) add(l, "activate"); if (r.chance(1, 2)) add(l, "deactivate"); nap(l); }
            c.lanes.push_back(l);
        } else {                                  // deactivated by another thread, whenever
            Lane m;
            add(l, "activate"); nap(l);
            nap(m); add(m, "deactivate");
            c.lanes.push_back(l); c.lanes.push_back(m);
        }
        numberOps(c);
    }
    void main(const Case &c) override {
        {
            Off o;
            delete g; g = new G;
            g->cpus = (int)c.get("cpus");
            g->workers = c.get("cpus") < 2 ? 1 : (int)c.get("cpus") - 1;
            std::cout.rdbuf(&out); std::cerr.rdbuf(&out);
        }
        jd = new JobDispatcher;
        spawnAll(c, lane);
        for (auto &l : c.lanes) sim::waitFinished(l.id);
        delete jd;
        Off o;
        if (!sim::allFinished()) sim::violate("jobs", true, "a thread of the example is still alive after its destruction");
        if (size_t n = sim::liveBlocks()) sim::violate("leak", true, "%zu heap blocks are never released: %s", n, sim::describeLive().c_str());
    }
};
} // namespace
sim::Scenario *makeJobs() { return new JobsScenario; }

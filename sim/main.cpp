// Driver of the simulator: seeded batches, the violation gate, minimisation, replay.
#include "rt.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
sim::Scenario *makeSem();
sim::Scenario *makeRing();
sim::Scenario *makePool();
sim::Scenario *makeMq();
sim::Scenario *makeMutex();
sim::Scenario *makeCtor();
sim::Scenario *makePrio();
sim::Scenario *makeJobs();
sim::Scenario *makeIndep();
sim::Scenario *makeUser();
sim::Scenario *makePipe();
extern const char *const probeNames[];
extern bool simVerbose;
static const int NPROBES = 26;

Scenario *sim::makeScenario(const std::string &n) {
    if (n == "sem") return makeSem();
    if (n == "ring") return makeRing();
    if (n == "pool") return makePool();
    if (n == "mq") return makeMq();
    if (n == "mutex") return makeMutex();
    if (n == "ctor") return makeCtor();
    if (n == "prio") return makePrio();
    if (n == "jobs") return makeJobs();
    if (n == "indep") return makeIndep();
    if (n == "user") return makeUser();
    if (n == "pipe") return makePipe();
    return nullptr;
}

struct PropDef { const char *id; const char *scenarios; const char *claims; };
// claims: comma separated tags; a tag matches exactly or as a prefix up to a dot.
static const PropDef props[] = {
    {"C01", "sem", "sem.lin,sem.stuck,stuck,livelock,mem"},
    {"C02", "sem", "sem.stuck,stuck,livelock,mem"},
    {"C03", "sem", "sem.cb,sem.lin,sem.stuck,stuck,livelock,mem"},
    {"C04", "sem", "sem.lin,sem.stuck,stuck,livelock,mem"},
    {"C05", "sem", "sem.abort,sem.lin,sem.stuck,stuck,livelock,mem"},
    {"C06", "sem,ring", "sem.destroy,ring.destroy,mem,stuck,livelock"},
    {"C07", "ring", "ring.lin,ring.stuck,ring.err,stuck,livelock,mem"},
    {"C08", "ring", "ring.cap,ring.stuck,ring.err,stuck,livelock,mem"},
    {"C09", "ring", "ring.abort,ring.err,ring.lin,ring.flush,ring.stuck,stuck,livelock,mem"},
    {"C10", "ring", "ring.prime,ring.abort,ring.err,ring.lin,ring.flush,ring.stuck,stuck,livelock,mem"},
    {"C11", "pool,mq", "obj,mem"},
    {"C12", "pool", "pool.lin,pool.cap,stuck,livelock,mem"},
    {"C13", "pool", "pool.life,pool.zero,obj,mem"},
    {"C14", "pool", "pool.stats,stuck,livelock,mem"},
    {"C15", "mq", "mq.err,mq.lin,mq.once,mq.content,mq.stuck,mq.life,stuck,livelock,obj,mem"},
    {"C16", "mq", "mq.err,mq.stuck,mq.cap,mq.size,stuck,livelock,mem"},
    {"C17", "mq", "mq.err,mq.exc,mq.life,mq.stuck,mq.cap,stuck,livelock,mq.once,mq.content,obj,mem"},
    {"C18", "mq", "mq.lock,mq.stuck,stuck,livelock,mem"},
    {"C19", "mq", "mq.err,mq.abort,mq.life,mq.stuck,stuck,livelock,mq.once,obj,mem"},
    {"C20", "mq", "mq.err,mq.life,mq.purge,mq.destroy,mq.stuck,leak,mem,stuck,livelock,mq.once,obj"},
    {"C21", "mq", "mq.stats,stuck,livelock,mem"},
    {"C22", "mq", "mq.name,stuck,livelock,mem"},
    {"C23", "mutex", "mutex,stuck,livelock,mem"},
    {"C24", "prio", "pi,livelock,stuck"},
    {"C25", "sem,ring,pool,mq,mutex", "heap"},
    {"C26", "ctor", "ctor,leak,mem,stuck,livelock"},
    {"C27", "sem,ring,pool,mq,mutex", "race,mem"},
    {"C30", "jobs", "jobs,stuck,livelock,leak,mem,race"},
    {"C30.one", "jobs", "jobs,stuck,livelock,leak,mem,race"},       // with one processor
    {"C30.unknown", "jobs", "jobs,stuck,livelock,leak,mem,race"},   // with an unknown number of processors
    {"C31", "indep", "indep,stuck,livelock,leak,mem,race,obj"},
    {"C33", "sem,ring,pool,mq,mutex", "time"},
    {"C34", "user", "user,stuck,livelock,leak,mem,race"},
    {"C32", "pipe", "pipe,stuck,livelock,leak,mem,race"},
};
static const PropDef *prop;
static bool claims(const char *tag) {
    if (!strcmp(tag, "crash") || !strcmp(tag, "harness")) return true;
    const char *p = prop->claims;
    while (*p) {
        const char *e = strchr(p, ',');
        size_t n = e ? size_t(e - p) : strlen(p);
        if (!strncmp(p, tag, n) && (tag[n] == 0 || tag[n] == '.')) return true;
        p += n + (e ? 1 : 0);
    }
    return false;
}
static const PropDef *findProp(const std::string &id) {
    for (auto &p : props) if (id == p.id) return &p;
    return nullptr;
}
static double realNow() {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + t.tv_nsec * 1e-9;
}
static void guardTime(int sec) {
    struct itimerval it{};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static Case generate(uint64_t seed, uint64_t run) {
    Case c;
    c.prop = prop->id;
    c.seed = seed;
    c.run = run;
    std::vector<std::string> sc;
    std::stringstream ss(prop->scenarios);
    for (std::string x; std::getline(ss, x, ',');) sc.push_back(x);
    c.scenario = sc[run % sc.size()];
    Rng r(mix(mix(seed, run), 0xA11CE + strtoul(prop->id + 1, nullptr, 10)));
    Scenario *s = makeScenario(c.scenario);
    s->generate(c, r);
    if (c.prop == "C33") { c.set("notime", 1); c.set("nest", 0); c.sched.stall = 0; }
    delete s;
    return c;
}

// ---------------------------------------------------------------- one run in a forked child
struct Outcome { Result r; std::vector<Decision> dec; bool died = false; int status = 0; };
static void writeAll(int fd, const void *p, size_t n) {
    const char *c = (const char *)p;
    while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(2); c += k; n -= k; }
}
static bool readAll(int fd, void *p, size_t n) {
    char *c = (char *)p;
    while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; }
    return true;
}
static Outcome runForked(const Case &c) {
    Outcome o;
    int fd[2];
    if (pipe(fd)) { perror("pipe"); exit(2); }
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        guardTime(60);
        std::vector<Decision> d;
        Scenario *s = makeScenario(c.scenario);
        Result *r = new Result;
        runCase(c, *s, claims, *r, d);
        uint64_t n = d.size();
        writeAll(fd[1], r, sizeof *r);
        writeAll(fd[1], &n, sizeof n);
        writeAll(fd[1], d.data(), n * sizeof(Decision));
        _exit(0);
    }
    close(fd[1]);
    uint64_t n = 0;
    o.r = Result();
    if (readAll(fd[0], &o.r, sizeof o.r) && readAll(fd[0], &n, sizeof n)) {
        o.dec.resize(n);
        if (!readAll(fd[0], o.dec.data(), n * sizeof(Decision))) o.died = true;
    } else o.died = true;
    close(fd[0]);
    waitpid(p, &o.status, 0);
    if (o.died) {
        if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 2) { fprintf(stderr, "sim: child failed\n"); exit(2); }
        o.r = Result();
        o.r.violated = true;
        strcpy(o.r.tag, "crash");
        snprintf(o.r.msg, sizeof o.r.msg, "the process ended (status %x)", o.status);
    }
    return o;
}

// ---------------------------------------------------------------- batches
struct WStats {
    uint64_t cur, runs, nontrivial, foreign, softForeign, capped, steps, switches, preempts, decisions, fibers;
    int64_t simUs;
    uint64_t faults[FK_N];
    uint64_t runsWith[FK_N];
    uint64_t probes[32], runsProbe[32];
    char foreignTag[64];
    uint64_t foreignRun;
    char foreignMsg[300];
};
struct Shared {
    volatile uint64_t minViol;
    volatile int error;
    WStats w[64];
};
static void accumulate(WStats &w, const Result &r, uint64_t *hashes, uint64_t idx) {
    w.runs++;
    w.softForeign += r.softForeign;
    w.capped += r.linCapped;
    w.steps += r.steps; w.switches += r.switches; w.preempts += r.preempts; w.simUs += r.simUs;
    w.decisions += r.nDecisions;
    w.fibers += r.fibers;
    bool fault = false;
    for (int i = 0; i < FK_N; i++) {
        w.faults[i] += r.faults[i];
        if (r.faults[i]) { w.runsWith[i]++; if (i != FK_TIMER) fault = true; }
    }
    for (int i = 0; i < 32; i++) { w.probes[i] += r.probes[i]; if (r.probes[i]) w.runsProbe[i]++; }
    bool nt = r.fibers >= 2 && (fault || r.preempts);
    if (nt) w.nontrivial++;
    hashes[idx] = nt ? (r.hash | 1) : 0;
}
static bool sameFailure(const Outcome &o, const std::string &tag) { return o.r.violated && tag == o.r.tag; }


static double minimiseDeadline;
static bool tryCase(Case &best, const Case &cand, const std::string &tag, int &tried) {
    if (realNow() > minimiseDeadline) return false;
    tried++;
    Outcome o = runForked(cand);
    if (!sameFailure(o, tag)) return false;
    best = cand;
    return true;
}
static void minimise(Case &c, const std::string &tag, int &tried) {
    minimiseDeadline = realNow() + 45;
    bool changed = true;
    while (changed && realNow() < minimiseDeadline) {
        changed = false;
        for (size_t i = c.lanes.size(); i-- > 0;) { // whole threads: keep the lane (fiber numbers), drop its operations
            if (c.lanes[i].ops.empty()) continue;
            Case n = c;
            n.lanes[i].ops.clear();
            if (tryCase(c, n, tag, tried)) changed = true;
        }
        for (size_t i = 0; i < c.lanes.size(); i++)
            for (size_t chunk = std::max<size_t>(c.lanes[i].ops.size() / 2, 1);; chunk /= 2) {
                for (size_t k = 0; k < c.lanes[i].ops.size();) {
                    Case n = c;
                    auto &v = n.lanes[i].ops;
                    v.erase(v.begin() + k, v.begin() + std::min(k + chunk, v.size()));
                    if (tryCase(c, n, tag, tried)) changed = true; else k += chunk;
                }
                if (chunk <= 1) break;
            }
        for (size_t chunk = std::max<size_t>(c.decisions.size() / 2, 1); !c.decisions.empty(); chunk /= 2) {
            for (size_t k = 0; k < c.decisions.size();) {
                Case n = c;
                auto &v = n.decisions;
                v.erase(v.begin() + k, v.begin() + std::min(k + chunk, v.size()));
                if (tryCase(c, n, tag, tried)) changed = true; else k += chunk;
            }
            if (chunk <= 1) break;
        }
        for (auto &l : c.lanes) // simplify arguments
            for (auto &o : l.ops) {
                (void)l;
                for (int64_t sim::Op::*f : {&sim::Op::a, &sim::Op::b, &sim::Op::c, &sim::Op::d})
                    if (o.*f != 0) {
                        Case n = c;
                        int64_t old = o.*f;
                        o.*f = 0;
                        Case m = c;
                        o.*f = old;
                        if (tryCase(c, m, tag, tried)) { changed = true; goto again; }
                    }
            }
    again:;
    }
    // trailing empty threads can go entirely
    while (!c.lanes.empty() && c.lanes.back().ops.empty()) {
        Case n = c;
        n.lanes.pop_back();
        if (!tryCase(c, n, tag, tried)) break;
    }
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if ((unsigned char)ch < 32) r += ' ';
        else r += ch;
    }
    return r + "\"";
}

static int batch(uint64_t seed, uint64_t from, uint64_t count, int workers, double wall, const std::string &replayPath, const char *self) {
    double t0 = realNow();
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t *hashes = (uint64_t *)mmap(nullptr, (count + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh->minViol = ~0ull;
    std::vector<pid_t> pids;
    fflush(stdout);
    for (int w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p) { pids.push_back(p); continue; }
        WStats &ws = sh->w[w];
        uint64_t next = w;
        while (next < count && !sh->error) {
            pid_t q = fork();
            if (q == 0) {
                std::vector<Decision> d;
                Result *r = new Result;
                uint64_t sinceFork = 0;
                for (uint64_t i = next; i < count; i += workers) {
                    if (i > sh->minViol || realNow() - t0 > wall) _exit(20);
                    if (++sinceFork > 20000) { ws.cur = i; _exit(21); } // bounds memory growth
                    ws.cur = i;
                    guardTime(60);
                    Case c = generate(seed, from + i);
                    Scenario *s = makeScenario(c.scenario);
                    d.clear();
                    runCase(c, *s, claims, *r, d);
                    delete s;
                    accumulate(ws, *r, hashes, i);
                    if (r->violated) { if (getenv("SIM_DEBUG")) fprintf(stderr, "run %llu: %s: %s (steps %llu)\n", (unsigned long long)(from + i), r->tag, r->msg, (unsigned long long)r->steps); _exit(10); }
                    if (r->foreign) {
                        ws.foreign++;
                        if (!ws.foreignTag[0]) { strcpy(ws.foreignTag, r->tag); ws.foreignRun = from + i; snprintf(ws.foreignMsg, sizeof ws.foreignMsg, "%.290s", r->msg); }
                        _exit(11);
                    }
                }
                _exit(20);
            }
            int st = 0;
            waitpid(q, &st, 0);
            int ec = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
            if (ec == 20) break;
            if (ec == 21) { next = ws.cur; continue; }
            if (ec == 11) { next = ws.cur + workers; continue; }
            if (ec == 2) { sh->error = 1; break; }
            // violated (10) or the process died in the run
            uint64_t v = ws.cur, old = sh->minViol;
            while (v < old && !__sync_bool_compare_and_swap(&sh->minViol, old, v)) old = sh->minViol;
            break;
        }
        _exit(0);
    }
    for (pid_t p : pids) waitpid(p, nullptr, 0);
    if (sh->error) { fprintf(stderr, "sim: internal error in a worker\n"); return 2; }
    double t1 = realNow();
    WStats t;
    memset(&t, 0, sizeof t);
    for (int w = 0; w < workers; w++) {
        WStats &x = sh->w[w];
        t.runs += x.runs; t.nontrivial += x.nontrivial; t.foreign += x.foreign; t.softForeign += x.softForeign; t.capped += x.capped;
        t.steps += x.steps; t.switches += x.switches; t.preempts += x.preempts; t.simUs += x.simUs; t.decisions += x.decisions; t.fibers += x.fibers;
        for (int i = 0; i < FK_N; i++) { t.faults[i] += x.faults[i]; t.runsWith[i] += x.runsWith[i]; }
        for (int i = 0; i < 32; i++) { t.probes[i] += x.probes[i]; t.runsProbe[i] += x.runsProbe[i]; }
        if (x.foreignTag[0] && !t.foreignTag[0]) { strcpy(t.foreignTag, x.foreignTag); t.foreignRun = x.foreignRun; strcpy(t.foreignMsg, x.foreignMsg); }
    }
    std::unordered_set<uint64_t> dist;
    for (uint64_t i = 0; i < count; i++) if (hashes[i]) dist.insert(hashes[i]);
    bool viol = sh->minViol != ~0ull;
    std::ostringstream j;
    j << "{\"runs\":" << t.runs << ",\"nontrivial\":" << t.nontrivial << ",\"distinct\":" << dist.size() << ",\"foreign\":" << t.foreign
      << ",\"soft_foreign\":" << t.softForeign << ",\"foreign_tag\":" << jstr(t.foreignTag) << ",\"foreign_run\":" << t.foreignRun
      << ",\"foreign_msg\":" << jstr(t.foreignMsg) << ",\"lin_capped\":" << t.capped << ",\"steps\":" << t.steps << ",\"switches\":" << t.switches
      << ",\"preemptions\":" << t.preempts << ",\"decisions\":" << t.decisions << ",\"threads\":" << t.fibers << ",\"sim_us\":" << t.simUs
      << ",\"search_s\":" << (t1 - t0) << ",\"faults\":{";
    for (int i = 0; i < FK_N; i++) j << (i ? "," : "") << "\"" << faultNames[i] << "\":[" << t.faults[i] << "," << t.runsWith[i] << "]";
    j << "},\"probes\":{";
    bool first = true;
    for (int i = 0; i < NPROBES; i++)
        if (t.probes[i]) { j << (first ? "" : ",") << "\"" << probeNames[i] << "\":[" << t.probes[i] << "," << t.runsProbe[i] << "]"; first = false; }
    j << "},\"samples\":[";
    for (uint64_t i = 0; i < 2 && i < count; i++) j << (i ? "," : "") << jstr(generate(seed, from + i).text());
    j << "]";
    int rc = 0;
    if (viol) {
        uint64_t run = from + sh->minViol;
        Case c = generate(seed, run);
        Outcome a = runForked(c), b = runForked(c);
        if (!a.r.violated || !b.r.violated || a.r.hash != b.r.hash || strcmp(a.r.tag, b.r.tag)) {
            fprintf(stderr, "sim: run %llu is not reproducible (tags %s %s)\n", (unsigned long long)run, a.r.tag, b.r.tag);
            return 2;
        }
        std::string tag = a.r.tag;
        Case full = c;
        full.replay = true;
        full.decisions = a.dec;
        Outcome e = runForked(full);
        if (!sameFailure(e, tag) && !a.died) {
            fprintf(stderr, "sim: the recorded schedule of run %llu does not replay (%s vs %s: %s)\n", (unsigned long long)run, tag.c_str(), e.r.tag, e.r.msg);
            return 2;
        }
        int tried = 0;
        minimise(full, tag, tried);
        Outcome m = runForked(full);
        if (!sameFailure(m, tag)) { fprintf(stderr, "sim: minimised case does not replay\n"); return 2; }
        char hb[32];
        snprintf(hb, sizeof hb, "%016llx", (unsigned long long)m.r.hash);
        std::ofstream f(replayPath);
        f << "# replay file: bash /verif/replay.sh <this file>\n"
          << "# found by VERIF_SEED=" << seed << " run " << run << "; minimised with " << tried << " candidate executions\n"
          << "message " << m.r.msg << "\nexpect " << tag << " " << hb << "\n" << full.text();
        f.close();
        // fresh process replay must agree
        std::string cmd = std::string(self) + " replay " + replayPath + " >/dev/null 2>&1";
        int st = system(cmd.c_str());
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "sim: replay in a fresh process disagrees (%x)\n", st); return 2; }
        size_t nops = 0;
        for (auto &l : full.lanes) nops += l.ops.size();
        j << ",\"violation\":{\"run\":" << run << ",\"tag\":" << jstr(tag) << ",\"msg\":" << jstr(m.r.msg) << ",\"first_msg\":" << jstr(a.r.msg)
          << ",\"ops\":" << nops << ",\"decisions\":" << full.decisions.size() << ",\"tried\":" << tried << ",\"replay\":" << jstr(replayPath) << "}";
        rc = 1;
    }
    j << "}";
    printf("%s\n", j.str().c_str());
    return rc;
}

static int replay(const std::string &path, bool verbose) {
    std::ifstream f(path);
    if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    std::stringstream ss;
    ss << f.rdbuf();
    Case c;
    std::string err;
    if (!c.parse(ss.str(), err)) { fprintf(stderr, "bad replay file: %s\n", err.c_str()); return 2; }
    prop = findProp(c.prop);
    if (!prop) { fprintf(stderr, "unknown property\n"); return 2; }
    std::string tag, hash;
    {
        std::istringstream in(ss.str());
        for (std::string l; std::getline(in, l);) { std::istringstream x(l); std::string w; x >> w; if (w == "expect") x >> tag >> hash; }
    }
    simVerbose = verbose;
    Outcome o = runForked(c);
    char hb[32];
    snprintf(hb, sizeof hb, "%016llx", (unsigned long long)o.r.hash);
    if (o.r.violated) {
        printf("REPRODUCED property=%s class=%s %s\n", prop->id, o.r.tag, o.r.msg);
        if (!tag.empty() && (tag != o.r.tag || hash != hb)) { printf("but not as recorded: expected %s %s, got %s %s\n", tag.c_str(), hash.c_str(), o.r.tag, hb); return 3; }
        return 1;
    }
    printf("no violation of %s%s%s\n", prop->id, o.r.foreign ? "; the run ended early: " : "", o.r.foreign ? o.r.msg : "");
    return 0;
}

static std::string selfPath() {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    return n > 0 ? std::string(b, n) : "";
}
int main(int argc, char **argv) {
    initProcess();
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "replay" && argc >= 3) return replay(argv[2], argc > 3);
    if (argc >= 3) {
        prop = findProp(argv[2]);
        if (!prop) { fprintf(stderr, "unknown property %s\n", argv[2]); return 2; }
    }
    if (cmd == "batch" && argc >= 9)
        return batch(strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), atoi(argv[6]), atof(argv[7]), argv[8], selfPath().c_str());
    if (cmd == "hash" && argc >= 6) { // per-run event-log hashes, for determinism checks
        for (uint64_t i = 0, from = strtoull(argv[4], 0, 10), n = strtoull(argv[5], 0, 10); i < n; i++) {
            Case c = generate(strtoull(argv[3], 0, 10), from + i);
            Outcome o = runForked(c);
            printf("%llu %016llx %llu %lld %s\n", (unsigned long long)(from + i), (unsigned long long)o.r.hash, (unsigned long long)o.r.steps, (long long)o.r.simUs, o.r.violated || o.r.foreign ? o.r.tag : "-");
        }
        return 0;
    }
    if (cmd == "show" && argc >= 5) {
        Case c = generate(strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10));
        simVerbose = argc > 5;
        Outcome o = runForked(c);
        c.decisions = o.dec;
        printf("%s# %s %s %s steps=%llu\n", c.text().c_str(), o.r.violated ? "VIOLATED" : o.r.foreign ? "foreign" : "ok", o.r.tag, o.r.msg, (unsigned long long)o.r.steps);
        return 0;
    }
    fprintf(stderr, "usage: sim batch|hash|show|replay ...\n");
    return 2;
}

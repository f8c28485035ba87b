// C14 / C15: every schedule (up to the preemption bound) of clients and background builders of the tree pool, without and with failures.
#include <mc.hpp>
#include <sched.hpp>
#include <pooltree.hpp>
#include <qrl/xmssPool.h>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <thread>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
struct Op { char kind; int thread; sched::Moment inv, ret; bool done, ok; uint64_t val; };   // val: tree index, current index or availability
static std::string base48() { std::string s; for (int i = 0; i < 48; i++) s.push_back((char) (i * 5 + 3)); return s; }
static const std::string BASE = base48();
struct Q { Q() { sched::quiet(true); } ~Q() { sched::quiet(false); } };

struct Config {
    int pool; uint64_t start; int height; std::vector<std::string> prog; // one program per client
    std::vector<int> failCreate, failBuild; long failNew = 0; int failNewTh = 0; int after = 0; // extra calls at the end
    bool faulty() const { return !failCreate.empty() || !failBuild.empty() || failNew; }
    std::string str() const {
        std::string s = "pool of " + std::to_string(pool) + " from " + std::to_string(start) + ", height " + std::to_string(height) + ", clients";
        for (auto &p : prog) s += " " + (p.empty() ? "-" : p);
        for (int f : failCreate) s += ", creation of thread " + std::to_string(f) + " fails";
        for (int f : failBuild) s += ", building of tree start+" + std::to_string(f) + " fails";
        if (failNew) s += ", allocation " + std::to_string(failNew) + " of thread " + std::to_string(failNewTh) + " fails";
        return s;
    }
};
static const Config *cfg;
static XmssPool *thePool;
static Op ops[64];
static int nOps;
static const char *names[] = {"getNextTree", "isAvailable", "getCurrentIndex"};

static uint64_t indexOf(XmssFast &t) {
    Bytes s = t.getSeed();
    if (s.size() != 48) sched::violation("the seed of a tree has %zu bytes", s.size());
    for (uint64_t k = 0; k < 64; k++) {
        uint8_t e[48];
        pool::expectSeed((const uint8_t *) BASE.data(), BASE.size(), cfg->start + k, e);
        if (!memcmp(e, s.data(), 48)) {
            if (t.getHeight() != cfg->height) sched::violation("tree %lu has height %u", cfg->start + k, t.getHeight());
            uint8_t pk[64];
            pool::expectPk(e, cfg->height, pk);
            Bytes got = t.getPK();
            if (got.size() != 67 || memcmp(got.data() + 3, pk, 64)) sched::violation("the keys of tree %lu are not those of its seed", cfg->start + k);
            if (t.getIndex() != 0) sched::violation("tree %lu starts at leaf %u", cfg->start + k, t.getIndex());
            return cfg->start + k;
        }
    }
    sched::violation("a tree was handed out that belongs to no index from %lu to %lu", cfg->start, cfg->start + 63);
}
static Op run(char kind) {
    Op o{kind, sched::self(), {}, {}, false, true, 0};
    int slot;
    { Q q; sched::clockOf(o.inv); slot = nOps++; ops[slot] = o; }
    try {
        if (kind == 'N') {
            std::shared_ptr<XmssFast> t = thePool->getNextTree();
            if (!t) sched::violation("getNextTree returned nothing");
            o.val = indexOf(*t);
        } else if (kind == 'A') {
            if (!cfg->faulty()) sched::noWait(true, names[1]);
            o.val = thePool->isAvailable();
            sched::noWait(false, nullptr);
        } else {
            o.val = thePool->getCurrentIndex();
        }
    } catch (std::exception &e) {
        sched::noWait(false, nullptr);
        o.ok = false;
        if (!cfg->faulty()) sched::violation("%s reported \"%s\" although nothing failed", names[kind == 'N' ? 0 : kind == 'A' ? 1 : 2], e.what());
    }
    { Q q; sched::clockOf(o.ret); o.done = true; ops[slot] = o; }
    return o;
}
static bool builtIdx(uint64_t i) {
    uint8_t e[48];
    pool::expectSeed((const uint8_t *) BASE.data(), BASE.size(), i, e);
    return pool::built(e);
}
static void client(const std::string &p) {
    for (char k : p) {
        if (k == 'D') { sched::drain(); continue; }
        Op o = run(k);
        bool alone = cfg->prog.size() == 1;
        if (k == 'A' && o.ok && alone && pool::light()) {
            Q q;
            uint64_t cur = cfg->start;
            for (int i = 0; i < nOps; i++) if (ops[i].kind == 'N') cur++;
            if (o.val && cfg->pool == 0) sched::violation("an empty pool claims that a tree is available");
            if (!cfg->faulty() && o.val && !builtIdx(cur)) sched::violation("isAvailable is true but tree %lu has not been generated", cur);
        }
    }
}
// One of the schedules that this execution stands for has a's return before b's call.
static bool before(const Op &a, const Op &b) { return sched::mayPrecede(a.ret, b.inv); }
static void judge(uint64_t finalIndex, int claimsExpected) {
    Q q;
    std::vector<Op> N, C;
    for (int i = 0; i < nOps; i++) {
        if (!ops[i].done) sched::violation("a call never returned");
        if (ops[i].kind == 'N') N.push_back(ops[i]);
        if (ops[i].kind == 'C' && ops[i].ok) C.push_back(ops[i]);
    }
    std::vector<uint64_t> idx;
    int failed = 0;
    for (auto &o : N) if (o.ok) idx.push_back(o.val); else failed++;
    std::sort(idx.begin(), idx.end());
    for (size_t i = 0; i + 1 < idx.size(); i++) if (idx[i] == idx[i + 1]) sched::violation("index %lu was handed out twice", idx[i]);
    for (auto &a : N) for (auto &b : N) if (a.ok && b.ok && before(a, b) && a.val >= b.val)
        sched::violation("a later call got index %lu after index %lu had been handed out", b.val, a.val);
    if (!cfg->faulty()) {
        for (size_t i = 0; i < idx.size(); i++) if (idx[i] != cfg->start + i) sched::violation("index %lu was left out (%lu came instead)", cfg->start + i, idx[i]);
        if (finalIndex != cfg->start + N.size()) sched::violation("the current index is %lu after %zu trees from %lu", finalIndex, N.size(), cfg->start);
        for (auto &o : C) {
            uint64_t lo = cfg->start, hi = cfg->start;
            for (auto &n : N) { if (before(n, o)) lo++; if (!before(o, n)) hi++; }
            if (o.val < lo || o.val > hi) sched::violation("getCurrentIndex said %lu when between %lu and %lu trees had been claimed", o.val, lo - cfg->start, hi - cfg->start);
            // The trees handed out before the reading are below it, those claimed after it are not.
            for (auto &n : N) {
                if (before(n, o) && n.val >= o.val) sched::violation("getCurrentIndex said %lu after index %lu had been handed out", o.val, n.val);
                if (before(o, n) && n.val < o.val) sched::violation("index %lu was handed out after getCurrentIndex had said %lu", n.val, o.val);
            }
        }
    } else {
        if (!idx.empty() && finalIndex <= idx.back()) sched::violation("the current index is %lu although index %lu has been handed out", finalIndex, idx.back());
        int faults = cfg->failCreate.size() + cfg->failBuild.size() + (cfg->failNew ? 1 : 0);
        // One failed allocation can cost one call; each failed creation or tree likewise.
        if (failed > faults) sched::violation("%d calls failed after %d faults", failed, faults);
    }
    for (auto &a : C) for (auto &b : C) if (before(a, b) && a.val > b.val) sched::violation("the current index went back from %lu to %lu", a.val, b.val);
}
static bool faultHit;
static std::set<std::string> *outcomes;
static long allocations;
static void body() {
    { Q q; nOps = 0; pool::beginRun(); thePool = nullptr; faultHit = false; }
    int clients = cfg->prog.size();
    Bytes seed;
    { Q q; seed.assign(BASE.begin(), BASE.end()); }
    // Faults count thread creations of the pool only: the clients are created first and wait for the pool.
    std::thread th[3];
    static pthread_mutex_t gateM = PTHREAD_MUTEX_INITIALIZER;
    static pthread_cond_t gateC = PTHREAD_COND_INITIALIZER;
    bool open = false;
    if (!cfg->failCreate.empty())
        for (int i = 1; i < clients; i++) th[i] = std::thread([&, i] {
            pthread_mutex_lock(&gateM); while (!open) pthread_cond_wait(&gateC, &gateM); pthread_mutex_unlock(&gateM);
            if (thePool) client(cfg->prog[i]);
        });
    for (int f : cfg->failCreate) sched::failCreate(clients - 1 + f);
    for (int f : cfg->failBuild) {
        uint8_t e[48];
        pool::expectSeed((const uint8_t *) BASE.data(), BASE.size(), cfg->start + f, e);
        pool::failBuild(e);
    }
    XmssPool *p = nullptr;
    sched::failNew(cfg->failNewTh == 0 ? cfg->failNew : 0);
    if (cfg->failNewTh) sched::failNewIn(cfg->failNewTh, cfg->failNew);
    try { p = new XmssPool(seed, cfg->height, cfg->start, cfg->pool); }
    catch (std::exception &e) { if (!cfg->faulty()) sched::violation("creating the pool reported \"%s\"", e.what()); }
    thePool = p;
    if (!cfg->failCreate.empty()) { pthread_mutex_lock(&gateM); open = true; pthread_cond_broadcast(&gateC); pthread_mutex_unlock(&gateM); }
    else if (p && clients > 1) {
        Q q;
        for (int i = 1; i < clients; i++) th[i] = std::thread([i] { client(cfg->prog[i]); });
    }
    if (p) client(cfg->prog[0]);
    for (int i = 1; i < clients; i++) if (th[i].joinable()) th[i].join();
    allocations = sched::newCount();
    if (!p) return;
    sched::clearFaults();
    if (cfg->after) {   // the fault is over
        for (int i = 0; i < cfg->after; i++) { sched::drain(); run('N'); }
        sched::drain();
        Op a = run('N');
        if (!a.ok) sched::violation("the pool still fails %d calls after the fault", cfg->after);
    }
    uint64_t fin = p->getCurrentIndex();
    if (cfg->prog.size() == 1 && !cfg->faulty()) {   // settled pool
        sched::drain();
        bool av = p->isAvailable();
        if (av != (cfg->pool > 0)) sched::violation("isAvailable is %d once everything has been generated (pool of %d)", av, cfg->pool);
    }
    judge(fin, 0);
    if (outcomes) {
        Q q;
        std::vector<std::string> per(8);
        for (int i = 0; i < nOps; i++) per[ops[i].thread & 7] += ops[i].kind + std::to_string(ops[i].ok ? ops[i].val : 99999) + " ";
        std::string s;
        for (auto &x : per) s += x + "|";
        outcomes->insert(s);
    }
    delete p;
}
static uint64_t exploreCfg(Ctx &c, const Config &k, int bound, uint64_t maxRuns) {
    cfg = &k;
    c.at("%s, at most %d preemptions", k.str().c_str(), bound);
    sched::Options o;
    o.preemptions = bound;
    o.maxRuns = maxRuns;
    if (c.thorough) o.maxPolling = 20000;
    sched::Stats s = sched::explore(c, o, body);
    c.states += s.points; c.transitions += s.transitions; c.evals += s.runs; c.distinctN += s.runs; c.traces += s.runs;
    c.extra["schedules"] += s.runs;
    c.extra["memory_accesses_checked_for_races"] += s.accesses;
    c.faults += s.runs * (k.failCreate.size() + k.failBuild.size() + (k.failNew ? 1 : 0));
    c.extra["distinct_partial_orders"] += s.traces;
    if (s.diverged) c.extra["diverged"] += s.diverged;
    if (s.capped) c.capped = true;
    if (getenv("VT_SCHED")) fprintf(stderr, "%s: runs %lu depth %lu transitions %lu redundant %lu%s%s\n", k.str().c_str(), s.runs, s.maxDepth, s.transitions, s.redundant, s.bounded ? " BOUNDED" : "", s.capped ? " CAPPED" : "");
    return s.faultsHit;
}
static void pin(Ctx &c) {   // the threads of one shard take turns: keep them on one processor
    cpu_set_t a;
    if (sched_getaffinity(0, sizeof a, &a)) return;
    int n = CPU_COUNT(&a), want = c.slot % n;
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &a) && want-- == 0) { cpu_set_t b; CPU_ZERO(&b); CPU_SET(i, &b); sched_setaffinity(0, sizeof b, &b); return; }
}
static void probeLight() {
    uint64_t before = pool::lightCalls();
    XmssFast x(Bytes(48, 7), 4);
    pool::probe(pool::lightCalls() > before);
}
static std::vector<std::string> words(const char *alphabet, int maxLen) {
    std::vector<std::string> r, last = {""};
    for (int l = 1; l <= maxLen; l++) {
        std::vector<std::string> nx;
        for (auto &w : last) for (const char *a = alphabet; *a; a++) nx.push_back(w + *a);
        r.insert(r.end(), nx.begin(), nx.end());
        last = nx;
    }
    return r;
}
static void group(const std::string &name, std::vector<Config> v, int bound, int parts, uint64_t maxRuns) {
    for (int p = 0; p < parts; p++)
        add(name + "/" + std::to_string(p), [=](Ctx &c) {
            pin(c);
            probeLight();
            std::set<std::string> spent;
            for (size_t i = p; i < v.size(); i += parts) {
                Config k = v[i];
                if (!pool::light() && k.height > 6) continue;
                std::string key = std::to_string(k.pool) + "/" + std::to_string(k.failNewTh) + "/" + std::to_string(k.prog.size());
                if (k.failNew && spent.count(key)) continue;     // already past the last allocation
                uint64_t hits = exploreCfg(c, k, pool::light() ? bound : 0, pool::light() ? maxRuns : 40);
                if (k.failNew && !hits) spent.insert(key);
                c.sample(k.str());
            }
        });
}
// The reduction agrees with plain enumeration: the same outcomes with and without it.
static void agree(Ctx &c, const Config &k, int bound) {
    std::set<std::string> a, b;
    cfg = &k;
    c.at("reduction against plain enumeration: %s", k.str().c_str());
    sched::Options o;
    outcomes = &a;
    sched::Stats s1 = sched::explore(c, o, body);
    o.por = false; o.preemptions = bound; o.maxRuns = c.thorough ? 2000000 : 30000;
    outcomes = &b;
    sched::Stats s2 = sched::explore(c, o, body);
    outcomes = nullptr;
    c.evals += s1.runs + s2.runs; c.transitions += s1.transitions + s2.transitions; c.states += s1.points + s2.points; c.distinctN += s1.runs;
    if (getenv("VT_SCHED")) fprintf(stderr, "AGREE %s: %zu outcomes in %lu, %zu in %lu%s\n", k.str().c_str(), a.size(), s1.runs, b.size(), s2.runs, s2.capped ? " CAPPED" : "");
    if (s2.capped || s1.bounded) { for (auto &x : b) c.check(a.count(x) || s1.bounded, "outcome %s is missed by the reduction", x.c_str()); }
    else c.check(a == b, "outcomes differ: %zu with, %zu without the reduction", a.size(), b.size());
}
#ifndef POOL_FAULTS
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        uint64_t cap = th ? 3000000 : 60000;
        std::vector<Config> one, two, three, starts;
        for (int pool = 0; pool <= 3; pool++) {
            for (auto &w : words("NAC", th ? 6 : 4)) one.push_back({pool, 5, 4, {w}});
            for (auto &w : words("NAD", th ? 5 : 4)) if (w.find('D') != std::string::npos) one.push_back({pool, 254, 6, {w}});
            for (auto &a : words("NAC", th && pool < 3 ? 3 : 2)) for (auto &b : words("NAC", 3)) two.push_back({pool, 9, 4, {a, b}});
            for (auto &a : words("NAC", 1)) for (auto &b : words("NAC", 1)) for (auto &d : words("NAC", (th && pool < 3) || pool < 2 ? 2 : 1)) three.push_back({pool, 0, 4, {a, b, d}});
        }
        for (uint64_t s : {0ull, 1ull, 254ull, 255ull, 256ull, 65534ull, 65535ull, 65536ull, 0xfffffdull, 0xfffffeull, 0xffffffull, 0x1000000ull, 0xfffffffdull, 0xfffffffeull, 0xffffffffull, 0x100000000ull,
                            0x123456789aull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffff0ull})
            for (int pool = 0; pool <= 3; pool++) for (int h : {4, 6, 8, 10, 14}) starts.push_back({pool, s, h, {"NNN"}});
        std::vector<Config> ag;
        for (int pool = 0; pool <= 1; pool++) for (auto &w : std::vector<std::vector<std::string>>{{"A"}, {"NA"}, {"N", "N"}, {"N", "A"}, {"NC", "N"}, {"A", "NA"}, {"N", "C", "N"}})
            ag.push_back({pool, 3, 4, w});
        for (int p = 0; p < 8; p++) add("agreement/" + std::to_string(p), [=](Ctx &c) {
            pin(c);
            probeLight();
            if (!pool::light()) return;
            for (size_t i = p; i < ag.size(); i += 8) { Config k = ag[i]; agree(c, k, th ? 3 : 2); }
        });
        group("one-client", one, 2, th ? 32 : 8, cap);
        group("two-clients", two, 2, th ? 48 : 16, cap);
        group("three-clients", three, 1, th ? 32 : 8, cap);
        group("starting-indices", starts, 0, 4, cap);
    });
}
#else
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        uint64_t cap = th ? 3000000 : 60000;
        std::vector<Config> one, two, three, mem;
        for (int pool = 0; pool <= 3; pool++) {
            // Creations and trees of a run with k calls: the pool starts `pool` builders, every call one more.
            for (int calls = 1; calls <= (th ? 5 : 3); calls++) {
                std::string w(calls, 'N');
                int creations = pool ? pool + calls + 1 : 0, trees = pool + calls;
                auto with = [&](std::vector<Config> &out, std::vector<std::string> prog, bool doubles) {
                    Config k{pool, 7, 4, prog};
                    k.after = pool + 2;
                    for (int i = 1; i <= creations; i++) {
                        Config x = k; x.failCreate = {i}; out.push_back(x);
                        if (doubles) for (int j = i + 1; j <= creations; j++) { Config y = k; y.failCreate = {i, j}; out.push_back(y); }
                        if (doubles) for (int j = 0; j <= trees; j++) { Config y = k; y.failCreate = {i}; y.failBuild = {j}; out.push_back(y); }
                    }
                    for (int i = 0; i <= trees; i++) {
                        Config x = k; x.failBuild = {i}; out.push_back(x);
                        if (doubles) for (int j = i; j <= trees; j++) { Config y = k; y.failBuild = {i, j}; out.push_back(y); }
                    }
                };
                with(one, {w}, th || (calls <= 2 && pool < 3));
                if (th || calls <= 1) with(one, {w + "A" + w}, false);
                if ((calls == 1 && pool < 3) || pool < 2 || th) { with(two, {w, "N"}, calls == 1 || th); with(two, {w, "A"}, false); }
                if ((calls == 2 && pool < 2) || th) with(two, {w, "NC"}, false);
                if (calls == 1 && (pool < 3 || th)) with(three, {"N", "N", "N"}, th);
            }
            for (int t = 0; t <= pool + 2; t++) for (int n = 1; n <= (t ? 60 : 80); n++) {
                Config x{pool, 7, 4, {"NN"}};
                x.after = pool + 2; x.failNew = n; x.failNewTh = t;
                mem.push_back(x);
                if (n <= 20 && (pool < 3 || th)) { x.prog = {"N", "N"}; mem.push_back(x); }
            }
        }
        group("one-client", one, 2, 16, cap);
        group("two-clients", two, 1, 16, cap);
        group("three-clients", three, 1, th ? 32 : 8, cap);
        group("memory", mem, 1, 8, cap);
    });
}
#endif

// Harness runner: a check is a set of deterministic shards, each enumerating a disjoint part of a bounded space
// against a reference model. Shards run in forked workers; every failure is re-run before it is reported.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <map>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <algorithm>

namespace mc {
struct Fail { std::string msg; };
constexpr size_t CASE_LEN = 2048;

struct Ctx {
    std::string shard, tier;
    bool thorough = false;
    long seed = 1;
    uint64_t states = 0, transitions = 0, evals = 0, traces = 0, distinctN = 0, faults = 0;
    bool capped = false;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> softFails; // key, message
    std::map<std::string, uint64_t> extra;
    char *shared = nullptr;
    int slot = 0;                                           // worker number, below the number of jobs
    void at(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(shared, CASE_LEN, fmt, ap);
        va_end(ap);
    }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char buf[4096];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        throw Fail{buf};
    }
    void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        if (ok) return;
        char buf[4096];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        throw Fail{buf};
    }
    // A failure identified by a stable key; exploration continues.
    void soft(const std::string &key, const std::string &msg) { if (softFails.size() < 50) softFails.push_back({key, msg}); }
    void eval(uint64_t h) { evals++; if (seen.insert(h).second) distinctN++; }
    void evalDistinct(uint64_t n = 1) { evals += n; distinctN += n; }   // caller's loop makes them distinct
    void sample(const std::string &s) { if (samples.size() < 2) samples.push_back(s.substr(0, 400)); }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto b = (const uint8_t *) p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}
template <class V> uint64_t hv(const V &v, uint64_t h = 1469598103934665603ULL) { return fnv(v.data(), v.size(), h); }

struct Shard { std::string name; std::function<void(Ctx &)> fn; };
inline std::vector<Shard> &shards() { static std::vector<Shard> s; return s; }
inline void add(const std::string &name, std::function<void(Ctx &)> fn) { shards().push_back({name, fn}); }

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline void runShardToFile(const Shard &s, Ctx &c, const std::string &out) {
    std::string failMsg;
    bool failed = false;
    double t0 = now();
    try { s.fn(c); }
    catch (Fail &f) { failed = true; failMsg = f.msg; }
    catch (std::exception &e) { failed = true; failMsg = std::string("unexpected exception: ") + e.what(); }
    FILE *f = fopen(out.c_str(), "w");
    if (!f) _exit(3);
    fprintf(f, "{\"wall\":%.2f,", now() - t0);
    fprintf(f, "\"shard\":\"%s\",\"states\":%lu,\"transitions\":%lu,\"evals\":%lu,\"distinct\":%lu,\"traces\":%lu,\"faults\":%lu,\"capped\":%s,\"samples\":[",
            jesc(s.name).c_str(), c.states, c.transitions, c.evals, c.distinctN, c.traces, c.faults, c.capped ? "true" : "false");
    for (size_t i = 0; i < c.samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(c.samples[i]).c_str());
    fprintf(f, "],\"extra\":{");
    bool first = true;
    for (auto &kv : c.extra) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
    fprintf(f, "},\"fails\":[");
    first = true;
    for (auto &sf : c.softFails) {
        fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}", first ? "" : ",", jesc(sf.first).c_str(), jesc(sf.second).c_str(), "");
        first = false;
    }
    if (failed) fprintf(f, "%s{\"key\":\"\",\"msg\":\"%s\",\"case\":\"%s\"}", first ? "" : ",", jesc(failMsg).c_str(), jesc(c.shared).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    fflush(nullptr);
    _exit(0);
}

inline int runMain(int argc, char **argv, std::function<void(bool thorough)> setup) {
    std::string tier = "quick", out = ".", only;
    int jobs = 8; double limit = 150; long seed = 1; bool list = false, hang = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--tier") tier = next();
        else if (a == "--out") out = next();
        else if (a == "--shard") only = next();
        else if (a == "--stop-on-hang") hang = true;
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--limit") limit = atof(next().c_str());
        else if (a == "--seed") seed = atol(next().c_str());
        else if (a == "--list") list = true;
    }
    setup(tier == "thorough");
    auto &S = shards();
    if (list) { for (auto &s : S) puts(s.name.c_str()); return 0; }
    signal(SIGPIPE, SIG_IGN);
    struct Run { pid_t pid; size_t idx; double start; int slot; };
    char *sh = (char *) mmap(nullptr, CASE_LEN * (jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Run> running;
    std::vector<int> freeSlots;
    for (int i = 0; i < jobs; i++) freeSlots.push_back(i);
    size_t next = 0, timeouts = 0;
    FILE *res = fopen((out + "/results.jsonl").c_str(), "w");
    if (!res) { perror("results"); return 3; }
    auto slurp = [](const std::string &p, size_t max) {
        std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s;
        char b[4096]; size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n);
        fclose(f); return s;
    };
    std::vector<size_t> order;
    for (size_t i = 0; i < S.size(); i++) if (only.empty() || S[i].name == only) order.push_back(i);
    while (next < order.size() || !running.empty()) {
        while (next < order.size() && !freeSlots.empty()) {
            size_t idx = order[next++];
            int slot = freeSlots.back(); freeSlots.pop_back();
            char *cs = sh + CASE_LEN * slot; cs[0] = 0;
            std::string base = out + "/s" + std::to_string(idx);
            unlink((base + ".json").c_str());
            fflush(nullptr);
            pid_t p = fork();
            if (p == 0) {
                int fd = open((base + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                if (!getenv("VT_SCHED")) { dup2(fd, 1); dup2(fd, 2); } close(fd);
                rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
#if !defined(__SANITIZE_ADDRESS__)
                rlim_t gb = getenv("VT_MEM_GB") ? atoi(getenv("VT_MEM_GB")) : 3;      // a worker that runs away fails alone
                rlimit mem{gb << 30, gb << 30}; setrlimit(RLIMIT_DATA, &mem);
#endif
                Ctx c; c.shard = S[idx].name; c.tier = tier; c.thorough = tier == "thorough"; c.seed = seed; c.shared = cs; c.slot = slot;
                runShardToFile(S[idx], c, base + ".json");
            }
            if (p < 0) { perror("fork"); return 3; }
            running.push_back({p, idx, now(), slot});
        }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            for (auto &r : running) if (now() - r.start > limit) { kill(r.pid, SIGKILL); r.start = 1e18; }
            usleep(3000);
            continue;
        }
        for (size_t k = 0; k < running.size(); k++) if (running[k].pid == p) {
            auto r = running[k];
            running.erase(running.begin() + k);
            freeSlots.push_back(r.slot);
            std::string base = out + "/s" + std::to_string(r.idx);
            std::string j = slurp(base + ".json", 1 << 20);
            bool okExit = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !j.empty();
            if (okExit) fputs(j.c_str(), res);
            else {
                std::string kind;
                if (r.start > 1e17) { kind = "timeout"; timeouts++; }
                else if (WIFSIGNALED(st)) kind = "crash: signal " + std::to_string(WTERMSIG(st));
                else kind = "abnormal exit " + std::to_string(WEXITSTATUS(st));
                std::string log = slurp(base + ".log", 1 << 16);
                size_t e = log.find("ERROR: AddressSanitizer"); if (e == std::string::npos) e = log.find("runtime error");
                std::string tail = e != std::string::npos ? log.substr(e, 900) : (log.size() > 900 ? log.substr(log.size() - 900) : log);
                fprintf(res, "{\"shard\":\"%s\",\"died\":\"%s\",\"case\":\"%s\",\"log\":\"%s\"}\n", jesc(S[r.idx].name).c_str(), kind.c_str(),
                        jesc(sh + CASE_LEN * r.slot).c_str(), jesc(tail).c_str());
            }
            fflush(res);
            unlink((base + ".json").c_str()); unlink((base + ".log").c_str());
            break;
        }
        if (timeouts >= 4 && hang) {        // the code seems to hang everywhere: let the caller confirm that with one shard
            for (auto &r : running) { kill(r.pid, SIGKILL); waitpid(r.pid, nullptr, 0); }
            fprintf(res, "{\"stopped\":true}\n");
            break;
        }
    }
    fclose(res);
    return 0;
}
} // namespace mc

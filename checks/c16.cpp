// C16: every ordered pair of operations on independent objects in two unsynchronised threads under a race detector, and all interleavings of
// operation sequences of two objects in one thread.
#include <mc.hpp>
#include <sched.hpp>
#include <memory>
#include <poll.h>
#include <pthread.h>
#include <qrl/xmssBasic.h>
#include <qrl/xmssFast.h>
#include <qrl/qrlHelper.h>
#include <qrl/hashing.h>
#include <qrl/misc.h>
#include <thread>
using namespace mc;
typedef std::vector<uint8_t> Bytes;
static Bytes blob(size_t n, unsigned k) { Bytes b(n); uint32_t x = 12345 + k * 77; for (auto &c : b) { x = x * 1664525 + 1013904223; c = x >> 24; } return b; }
static eHashFunction HF(int f) { return static_cast<eHashFunction>(f); }
static void put(Bytes &o, const Bytes &b) { o.push_back(b.size() & 255); o.insert(o.end(), b.begin(), b.end()); }
static void put(Bytes &o, const std::string &b) { put(o, Bytes(b.begin(), b.end())); }

// An operation is prepared (before the threads start) and then run.
struct Prepared { std::shared_ptr<XmssBase> x; Bytes sig, pk, msg; };
struct OpDef { std::string name; std::function<void(Prepared &)> prepare; std::function<Bytes(Prepared &)> run; };
static std::vector<OpDef> alphabet() {
    std::vector<OpDef> v;
    auto none = [](Prepared &) {};
    for (int f = 0; f < 3; f++) {
        std::string h = std::to_string(f);
        v.push_back({"construct-fast/" + h, none, [f](Prepared &) { XmssFast x(blob(48, f), 4, HF(f)); Bytes o; put(o, x.getPK()); put(o, x.getSK()); return o; }});
        if (f == 1) v.push_back({"construct-basic/" + h, none, [f](Prepared &) { XmssBasic x(blob(48, f), 4, HF(f), eAddrFormatType::SHA256_2X, 4); Bytes o; put(o, x.getPK()); put(o, x.getSK()); return o; }});
        v.push_back({"sign-fast/" + h, [f](Prepared &p) { p.x.reset(new XmssFast(blob(48, 9 + f), 4, HF(f))); },
                     [f](Prepared &p) { Bytes o; put(o, p.x->sign(blob(33, f))); put(o, p.x->sign(blob(200, f))); put(o, p.x->getSK()); return o; }});
        v.push_back({"jump-fast/" + h, [f](Prepared &p) { p.x.reset(new XmssFast(blob(48, 19 + f), 4, HF(f))); },
                     [f](Prepared &p) { p.x->setIndex(5 + f); Bytes o; put(o, p.x->sign(blob(1, f))); return o; }});
        if (f != 2) v.push_back({"sign-basic/" + h, [f](Prepared &p) { p.x.reset(new XmssBasic(blob(48, 29 + f), 4, HF(f), eAddrFormatType::SHA256_2X, 4)); },
                     [f](Prepared &p) { Bytes o; put(o, p.x->sign(blob(20, f))); p.x->setIndex(7); put(o, p.x->sign(blob(20, f))); return o; }});
        v.push_back({"verify/" + h, [f](Prepared &p) { XmssFast x(blob(48, 39 + f), 4, HF(f)); p.msg = blob(40, f); p.sig = x.sign(p.msg); p.pk = x.getPK(); },
                     [](Prepared &p) { Bytes o; o.push_back(XmssBase::verify(p.msg, p.sig, p.pk)); p.msg[0] ^= 1; o.push_back(XmssBase::verify(p.msg, p.sig, p.pk)); return o; }});
    }
    v.push_back({"verify-w4", [](Prepared &p) { XmssBasic x(blob(48, 49), 4, HF(1), eAddrFormatType::SHA256_2X, 4); p.msg = blob(40, 1); p.sig = x.sign(p.msg); p.pk = x.getPK(); },
                 [](Prepared &p) { return Bytes{(uint8_t) XmssBase::verify(p.msg, p.sig, p.pk, 4), (uint8_t) XmssBase::verify(p.msg, p.sig, p.pk, 16)}; }});
    v.push_back({"copy", [](Prepared &p) { p.x.reset(new XmssFast(blob(48, 50), 4, HF(1))); },
                 [](Prepared &p) { XmssFast y(*(XmssFast *) p.x.get()); Bytes o; put(o, y.sign(blob(5, 1))); put(o, p.x->sign(blob(6, 1))); return o; }});
    v.push_back({"getters", [](Prepared &p) { p.x.reset(new XmssFast(blob(48, 51), 4, HF(1))); }, [](Prepared &p) {
        Bytes o;
        put(o, p.x->getPK()); put(o, p.x->getExtendedSeed()); put(o, p.x->getAddress()); put(o, p.x->getRoot()); put(o, p.x->getPKSeed()); put(o, p.x->getSKSeed()); put(o, p.x->getSKPRF());
        put(o, p.x->getDescriptorBytes()); o.push_back(p.x->getRemainingSignatures()); o.push_back(p.x->getSignatureSize() >> 4); return o; }});
    v.push_back({"hashes", none, [](Prepared &) {
        Bytes o;
        put(o, shake128(77, blob(300, 1))); put(o, shake256(64, blob(137, 2))); put(o, sha2_256(blob(65, 3))); put(o, sha2_256_n(blob(10, 4), 3)); return o; }});
    v.push_back({"hexadecimal", none, [](Prepared &) { Bytes o; std::string s = bin2hstr(blob(70, 1)); put(o, s); put(o, hstr2bin(s)); try { hstr2bin("0g"); } catch (std::exception &) { o.push_back(1); } return o; }});
    v.push_back({"mnemonic", none, [](Prepared &) { Bytes o; std::string s = bin2mnemonic(blob(51, 1)); put(o, s); put(o, mnemonic2bin(s)); try { mnemonic2bin("aback notaword"); } catch (std::exception &) { o.push_back(1); } return o; }});
    v.push_back({"mnemonic-decode", none, [](Prepared &) { Bytes o; put(o, mnemonic2bin("aback zurich ")); return o; }});
    v.push_back({"address", none, [](Prepared &) { Bytes o; Bytes pk = blob(67, 2); pk[0] = 1; pk[1] = 2; pk[2] = 0; Bytes a = QRLHelper::getAddress(pk); put(o, a); o.push_back(QRLHelper::addressIsValid(a)); a[9] ^= 4; o.push_back(QRLHelper::addressIsValid(a)); return o; }});
    v.push_back({"descriptor", none, [](Prepared &) { Bytes o; auto d = QRLDescriptor::fromBytes({1, 2, 0}); put(o, d.getBytes()); o.push_back(d.getHeight()); put(o, QRLDescriptor::fromExtendedSeed(blob(51, 1)).getBytes()); return o; }});
    v.push_back({"hash-chain", none, [](Prepared &) { Bytes o; for (auto &e : getHashChainSeed(blob(48, 5), 3, 5)) put(o, e); return o; }});
    v.push_back({"random-seed", none, [](Prepared &) { return Bytes{(uint8_t) getRandomSeed(51, "entropy").size()}; }});
#ifdef HASHES_ONLY   // the real primitives
    std::vector<OpDef> few;
    for (auto &o : v) if (o.name == "hashes" || o.name == "hash-chain" || o.name == "verify/0" || o.name == "verify/1" || o.name == "verify/2" || o.name == "address") few.push_back(o);
    return few;
#endif
    return v;
}
static const auto *ALPHA = new std::vector<OpDef>(alphabet());

// Runs body in a fresh process, whose lazily initialised state is still untouched; returns what it wrote.
static bool fresh(const std::function<Bytes()> &body, Bytes &out, std::string &err, double limit = 60) {
    int fd[2], ef[2];
    if (pipe(fd) || pipe(ef)) return false;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]); close(ef[0]);
        dup2(ef[1], 2);
        Bytes o = body();
        size_t off = 0;
        while (off < o.size()) { ssize_t n = write(fd[1], o.data() + off, o.size() - off); if (n <= 0) _exit(9); off += n; }
        _exit(0);
    }
    close(fd[1]); close(ef[1]);
    out.clear(); err.clear();
    double t0 = now();
    bool openO = true, openE = true, timeout = false;
    while (openO || openE) {
        pollfd pf[2] = {{openO ? fd[0] : -1, POLLIN, 0}, {openE ? ef[0] : -1, POLLIN, 0}};
        poll(pf, 2, 500);
        if (now() - t0 > limit) { timeout = true; kill(p, SIGKILL); break; }
        char b[4096];
        if (openO && pf[0].revents) { ssize_t n = read(fd[0], b, sizeof b); if (n <= 0) openO = false; else out.insert(out.end(), b, b + n); }
        if (openE && pf[1].revents) { ssize_t n = read(ef[0], b, sizeof b); if (n <= 0) openE = false; else err.append(b, n); }
    }
    close(fd[0]); close(ef[0]);
    int st; waitpid(p, &st, 0);
    if (timeout) err += "(no end)";
    else if (WIFSIGNALED(st)) err += " (signal " + std::to_string(WTERMSIG(st)) + ")";
    else if (WEXITSTATUS(st)) err += " (exit status " + std::to_string(WEXITSTATUS(st)) + ")";
    return !timeout && WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void pin(Ctx &c) {
    cpu_set_t a;
    if (sched_getaffinity(0, sizeof a, &a)) return;
    int n = CPU_COUNT(&a), want = c.slot % n;
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &a) && want-- == 0) { cpu_set_t b; CPU_ZERO(&b); CPU_SET(i, &b); sched_setaffinity(0, sizeof b, &b); return; }
}
static Bytes alone(Ctx &c, size_t i) {
    Bytes o; std::string err;
    c.at("%s alone", (*ALPHA)[i].name.c_str());
    c.check(fresh([&] { Prepared p; (*ALPHA)[i].prepare(p); return (*ALPHA)[i].run(p); }, o, err), "%s alone does not end properly: %s", (*ALPHA)[i].name.c_str(), err.substr(0, 400).c_str());
    return o;
}
static void together(Ctx &c, size_t a, size_t b, const Bytes &ea, const Bytes &eb, bool warmObjects) {
    auto &A = (*ALPHA)[a], &B = (*ALPHA)[b];
    c.at("%s and %s in two threads%s", A.name.c_str(), B.name.c_str(), warmObjects ? "" : ", objects created in the threads");
    Bytes o; std::string err;
    bool ok = fresh([&] {
        Bytes ra, rb, all;
        uint64_t runs = 0;
        sched::Options opt;
        opt.ownStackSkip = true;
        opt.maxRuns = 300;
        sched::Stats s = sched::explore(c, opt, [&] {
            Prepared pa, pb;
            ra.clear(); rb.clear();
            if (warmObjects) { A.prepare(pa); B.prepare(pb); }
            std::thread t([&] { if (!warmObjects) A.prepare(pa); ra = A.run(pa); });
            if (!warmObjects) B.prepare(pb);
            rb = B.run(pb);
            t.join();
            sched::quiet(true);
            if (runs == 0) { put(all, Bytes()); all.clear(); for (auto *r : {&ra, &rb}) { for (int k = 0; k < 4; k++) all.push_back(r->size() >> (8 * k)); all.insert(all.end(), r->begin(), r->end()); } }
            else if (ra != ea || rb != eb) sched::violation("schedule %lu changes a result", runs);
            runs++;
            sched::quiet(false);
        });
        for (int k = 0; k < 4; k++) all.push_back(runs >> (8 * k));
        for (int k = 0; k < 8; k++) all.push_back(s.accesses >> (8 * k));
        return all;
    }, o, err, 100);
    c.check(ok, "%s | %s: %s", A.name.c_str(), B.name.c_str(), err.substr(0, 700).c_str());
    size_t off = 0;
    auto next = [&] { size_t n = o[off] | o[off + 1] << 8 | o[off + 2] << 16 | (size_t) o[off + 3] << 24; Bytes r(o.begin() + off + 4, o.begin() + off + 4 + n); off += 4 + n; return r; };
    Bytes ra = next(), rb = next();
    c.check(ra == ea, "%s gives another result while %s runs", A.name.c_str(), B.name.c_str());
    c.check(rb == eb, "%s gives another result while %s runs", B.name.c_str(), A.name.c_str());
    uint64_t runs = o[off] | o[off + 1] << 8, acc = 0;
    memcpy(&acc, &o[off + 4], 8);
    c.states += runs; c.transitions += runs; c.evals += runs; c.distinctN++; c.traces += runs;
    c.extra["schedules"] += runs;
    c.extra["memory_accesses_checked_for_races"] += acc;
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        size_t n = ALPHA->size();
        int parts = 24;
        for (int p = 0; p < parts; p++) add("pairs/" + std::to_string(p), [=](Ctx &c) {
            pin(c);
            std::vector<Bytes> exp;
            for (size_t i = 0; i < n; i++) exp.push_back(alone(c, i));
            for (size_t k = p; k < n * n; k += parts) {
                size_t a = k / n, b = k % n;
                if (th || a <= b) together(c, a, b, exp[a], exp[b], true);
                if (th || a >= b) together(c, a, b, exp[a], exp[b], false);
                c.sample((*ALPHA)[a].name + " | " + (*ALPHA)[b].name);
            }
        });
    });
}

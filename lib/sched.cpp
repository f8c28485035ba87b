#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <dlfcn.h>
#include <iostream>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <semaphore.h>
#include <unordered_map>

// Runtime for code compiled with -fsanitize=thread; itself compiled without.
extern "C" void *__real_calloc(size_t, size_t);
namespace sched {
constexpr int MAXT = 28;
typedef uint32_t VC[MAXT];
enum State { READY, COND, FUTEX, DONE };
enum Kind { NOP, START, LOCK, UNLOCK, TRYLOCK, READ, WRITE, WAKE, CREATE, JOIN, FIN, ONCE, ONCEEND, RDLOCK, WRLOCK, RWEND, SEMWAIT, DRAIN, RESUME };
static const char *kindName[] = {"running", "starting", "waiting for a mutex", "unlocking", "trying a mutex", "reading", "writing", "waking others", "creating a thread",
                                 "joining a thread", "ending", "waiting for a one-time initialisation", "ending an initialisation", "waiting for a read lock", "waiting for a write lock",
                                 "unlocking", "waiting for a semaphore", "draining", "resuming"};
struct Pend { Kind kind; const void *obj, *obj2; };
struct Th {
    int id; State st; const void *waitAddr; int waitTh; bool timed, timedOut, yielded, detached, worker;
    Pend pend;
    VC vc, pend_acq, frel, dvc; int baton; pthread_t os;
    void *(*fn)(void *); void *arg; void *ret;
    const char *noWaitOp; VC noWaitFrom; int buildDepth, held; uint64_t solo; long newN, newFail;
    char *stackLo, *stackHi;
};
static Th th[MAXT];
static int nth_, cur;
static void execute(Th &t, int node);
static bool on_ = false;
static thread_local Th *me = nullptr;
static thread_local int hook = 0;
struct Quiet { Quiet() { hook++; } ~Quiet() { hook--; } };
static Options opt;
static Stats st;
static uint64_t clock_;
static mc::Ctx *ctx;

// One state of the exploration: what every thread is about to do there, and which threads are still to be tried.
struct Node {
    uint8_t n, chosen; int chosenTh; uint8_t opts[MAXT], cost[MAXT];       // preemption-bounded mode: alternatives in order
    uint32_t enabledM, sleep, backtrack, done; Pend pend[MAXT];            // partial-order mode: masks over threads
};
struct Ev { int th, node; uint32_t k; Pend p; VC dvc; };
static std::vector<Node> path;
static std::vector<Ev> evs;
static size_t depth_;
static bool por_, redundant_, unfair_;
static uint64_t inRun;
struct ObjEvs { std::vector<int> w, r; };
static std::unordered_map<const void *, ObjEvs> objs;

static long raw_futex(int *a, int op, int v) {
    long r; register long r10 asm("r10") = 0;
    asm volatile("syscall" : "=a"(r) : "0"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
static void take(Th *t) {
    while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0) raw_futex(&t->baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
    __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void give(Th *t) {
    __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
    raw_futex(&t->baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
void violation(const char *fmt, ...) {
    hook++;
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    std::string s = "VIOLATED: " + std::string(buf) + " | schedule of threads (thread after each choice):";
    int last = -1;
    for (size_t i = 0; i < path.size() && i < depth_; i++) {
        int t = path[i].chosenTh;
        if (t != last) s += " " + std::to_string(t) + "@" + std::to_string(i);
        last = t;
    }
    if (s.size() > 860) s = s.substr(0, 860);
    s += "\n";
    fflush(nullptr);
    if (write(2, s.data(), s.size())) {}
    on_ = false;
    signal(SIGABRT, SIG_DFL);
    abort();
}

// ---------------------------------------------------------------- shadow memory
struct Ent { uint32_t clk; uint8_t tid, mask, write, atomic; };
struct Cell { uintptr_t a; uint32_t gen; uint8_t n, nx; Ent e[8]; };
static size_t CELLS = 1 << 16;
static Cell *cells;
static uint32_t gen_ = 1;
static size_t used_;
static Cell *cellOf(uintptr_t a, bool create) {
    size_t h = (a * 0x9e3779b97f4a7c15ULL) >> 20 & (CELLS - 1);
    for (;;) {
        Cell &c = cells[h];
        if (c.gen != gen_) {
            if (!create) return nullptr;
            if (++used_ > CELLS / 4 * 3) {   // grow
                Quiet q;
                size_t old = CELLS; Cell *oc = cells;
                CELLS *= 2;
                cells = (Cell *) __real_calloc(CELLS, sizeof(Cell));
                used_ = 0;
                for (size_t i = 0; i < old; i++) if (oc[i].gen == gen_) *cellOf(oc[i].a, true) = oc[i];
                free(oc);
                return cellOf(a, true);
            }
            c.a = a; c.gen = gen_; c.n = 0; c.nx = 0;
            return &c;
        }
        if (c.a == a) return &c;
        h = (h + 1) & (CELLS - 1);
    }
}
static void clearRange(const void *p, size_t n) {
    uintptr_t a = (uintptr_t) p & ~7ULL, e = (uintptr_t) p + n;
    for (; a < e; a += 8) if (Cell *c = cellOf(a, false)) c->n = 0;
}
static void access1(uintptr_t a, uint8_t mask, bool write, bool atomic, const char *what) {
    Cell *c = cellOf(a, true);
    Th *t = me;
    for (int i = 0; i < c->n; i++) {
        Ent &e = c->e[i];
        if (e.tid == t->id || !(e.mask & mask) || (!e.write && !write) || (e.atomic && atomic)) continue;
        if (e.clk > t->vc[e.tid])
            violation("data race on %p: %s by thread %d and earlier %s by thread %d are not ordered", (void *) a,
                      what, t->id, e.atomic ? "atomic access" : e.write ? "write" : "read", e.tid);
    }
    // Keep the newest entry per (thread, kind, mask).
    for (int i = 0; i < c->n; i++) {
        Ent &e = c->e[i];
        if (e.tid == t->id && e.write == write && e.atomic == atomic && e.mask == mask) { e.clk = t->vc[t->id]; return; }
    }
    Ent ne{t->vc[t->id], (uint8_t) t->id, mask, write, atomic};
    // Entries ordered before this access are covered by it when it writes the same bytes.
    if (write && !atomic) {
        int k = 0;
        for (int i = 0; i < c->n; i++) {
            Ent &e = c->e[i];
            if (!(e.clk <= t->vc[e.tid] && (e.mask & ~mask) == 0)) c->e[k++] = e;
        }
        c->n = k;
    }
    if (c->n < 8) c->e[c->n++] = ne;
    else { c->e[c->nx] = ne; c->nx = (c->nx + 1) % 8; }
}
static void access(const void *p, size_t n, bool write, bool atomic = false, const char *what = nullptr) {
    if (!on_ || hook || !me || n == 0) return;
    if (opt.ownStackSkip && (char *) p >= me->stackLo && (char *) p < me->stackHi) return;
    st.accesses++;
    if (!what) what = atomic ? "atomic access" : write ? "write" : "read";
    uintptr_t a = (uintptr_t) p, e = a + n;
    while (a < e) {
        uintptr_t base = a & ~7ULL;
        unsigned lo = a - base, hi = std::min<uintptr_t>(e - base, 8);
        access1(base, (uint8_t) (((1u << hi) - 1) & ~((1u << lo) - 1)), write, atomic, what);
        a = base + 8;
    }
}

// ---------------------------------------------------------------- clocks of synchronisation objects
struct Sync { uintptr_t a; uint32_t gen; VC vc; };
static size_t SYNCS = 1 << 12;
static Sync *syncs;
static size_t syncUsed;
static Sync *syncOf(const void *p) {
    uintptr_t a = (uintptr_t) p;
    size_t h = (a * 0x9e3779b97f4a7c15ULL) >> 24 & (SYNCS - 1);
    for (;; h = (h + 1) & (SYNCS - 1)) {
        Sync &s = syncs[h];
        if (s.gen == gen_ && s.a == a) return &s;
        if (s.gen != gen_) {
            if (++syncUsed > SYNCS / 4 * 3) {
                Quiet q;
                size_t old = SYNCS; Sync *os = syncs;
                SYNCS *= 2; syncs = (Sync *) __real_calloc(SYNCS, sizeof(Sync)); syncUsed = 0;
                for (size_t i = 0; i < old; i++) if (os[i].gen == gen_) memcpy(syncOf((void *) os[i].a)->vc, os[i].vc, sizeof(VC));
                free(os);
                return syncOf(p);
            }
            s.gen = gen_; s.a = a; memset(s.vc, 0, sizeof s.vc);
            return &s;
        }
    }
}
static void joinVC(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(const void *p) { joinVC(me->vc, syncOf(p)->vc); }
static void release(const void *p) { joinVC(syncOf(p)->vc, me->vc); me->vc[me->id]++; }

// ---------------------------------------------------------------- scheduling
static bool mutexFree(const void *m) { return ((const pthread_mutex_t *) m)->__data.__lock == 0; }
static bool enabled(const Th &t) {
    if (t.st != READY) return false;
    switch (t.pend.kind) {
        case LOCK: return mutexFree(t.pend.obj);
        case JOIN: return th[t.waitTh].st == DONE;
        case ONCE: return ((const uint8_t *) t.pend.obj)[t.pend.obj2 ? 1 : 0] != 1;     // pthread_once_t or guard object
        case RDLOCK: return ((const pthread_rwlock_t *) t.pend.obj)->__data.__cur_writer == 0;
        case WRLOCK: { auto *l = (const pthread_rwlock_t *) t.pend.obj; return l->__data.__cur_writer == 0 && l->__data.__readers == 0; }
        case SEMWAIT: return *(const int *) t.pend.obj > 0;
        case DRAIN: return false;
        default: return true;
    }
}
static bool isRead(const Pend &p) { return p.kind == READ || p.kind == RDLOCK; }
static bool overlap(const Pend &a, const Pend &b) {
    return (a.obj && (a.obj == b.obj || a.obj == b.obj2)) || (a.obj2 && (a.obj2 == b.obj || a.obj2 == b.obj2));
}
static bool dependent(const Pend &a, const Pend &b) { return overlap(a, b) && !(isRead(a) && isRead(b)); }
// Whether two dependent operations could also happen in the other order from the state before the first.
static bool reversible(const Pend &first, const Pend &second) {
    if (first.kind == UNLOCK && second.kind == LOCK) return false;
    if (first.kind == ONCEEND && second.kind == ONCE) return false;
    if (first.kind == RWEND && (second.kind == WRLOCK || second.kind == RDLOCK)) return false;
    if (first.kind == FIN || second.kind == JOIN || second.kind == START || second.kind == RESUME) return false;
    return true;
}
static bool hb(const Ev &a, const Ev &b) { return b.dvc[a.th] >= a.k; }
// An operation that may not wait reached something that another thread holds while it generates a tree or waits.
static void checkNoWait() {
    for (int i = 0; i < nth_; i++) {
        Th *t = &th[i];
        if (!t->noWaitOp || t->st == DONE || enabled(*t)) continue;
        int guard = 0;
        while (t->st == READY && t->pend.kind == LOCK && !mutexFree(t->pend.obj) && guard++ < MAXT) {
            int ow = ((const pthread_mutex_t *) t->pend.obj)->__data.__owner - 1;
            if (ow < 0 || ow >= nth_ || &th[ow] == t) break;
            t = &th[ow];
        }
        if (t->st == FUTEX || t->st == COND || (t->st == READY && t->pend.kind == JOIN && !enabled(*t)) || t->buildDepth)
            violation("%s waits for tree generation (thread %d is behind thread %d, which is %s)", th[i].noWaitOp, i, t->id,
                      t->buildDepth ? "generating a tree" : t->st == READY ? kindName[t->pend.kind] : "waiting for another thread");
    }
}
// Partial-order bookkeeping of the operation that t is about to execute.
static void execute(Th &t, int node) {
    Ev e;
    e.th = t.id; e.node = node; e.p = t.pend;
    memcpy(e.dvc, t.dvc, sizeof(VC));
    e.k = ++e.dvc[t.id];
    if (t.pend.kind == DRAIN) for (int i = 0; i < nth_; i++) joinVC(e.dvc, th[i].dvc);
    if (evs.size() > 60000) { memcpy(t.dvc, e.dvc, sizeof(VC)); st.capped = true; return; }
    std::vector<int> preds;               // operations that could have come after this one instead
    std::vector<int> cand;
    for (const void *o : {t.pend.obj, t.pend.obj2}) if (o) {
        ObjEvs &l = objs[o];
        cand.insert(cand.end(), l.w.begin(), l.w.end());
        if (!isRead(t.pend)) cand.insert(cand.end(), l.r.begin(), l.r.end());
        (isRead(t.pend) ? l.r : l.w).push_back((int) evs.size());
        if (t.pend.obj == t.pend.obj2) break;
    }
    if (cand.size() > 1) std::sort(cand.begin(), cand.end());
    for (int ci = (int) cand.size() - 1; ci >= 0; ci--) {
        int i = cand[ci];
        Ev &o = evs[i];
        if (o.th == t.id) continue;
        if (o.k <= e.dvc[o.th]) continue;                 // ordered already, or through a later dependent operation
        if (reversible(o.p, e.p)) preds.push_back(i);
        else for (int cj = ci - 1; cj >= 0; cj--)         // the end of a critical section: its beginning could have come later
            if (evs[cand[cj]].th == o.th) {
                if (evs[cand[cj]].k > e.dvc[o.th]) preds.push_back(cand[cj]);
                break;
            }
        joinVC(e.dvc, o.dvc);
    }
    if (por_ && !redundant_)
        for (int i : preds) {
            Ev &o = evs[i];
            if (o.node < 0) continue;
            Node &nd = path[o.node];
            // Threads that can start the part of the execution after o that does not depend on it, followed by e.
            uint32_t seen = 0, initials = 0;
            VC first{};                          // number of the first such operation of every thread
            auto independent = [&](const VC &d) { for (int q = 0; q < nth_; q++) if ((seen >> q & 1) && d[q] >= first[q]) return false; return true; };
            for (size_t j = i + 1; j < evs.size(); j++) {
                Ev &x = evs[j];
                if (hb(o, x) || (seen >> x.th & 1)) continue;
                if (independent(x.dvc)) initials |= 1u << x.th;
                seen |= 1u << x.th;
                first[x.th] = x.k;
            }
            if (!(seen >> t.id & 1)) {
                // e itself, as it would be without o: what it depends on among the operations counted above
                VC d; memcpy(d, t.dvc, sizeof(VC));
                for (int ci : cand) if (ci > i && !hb(o, evs[ci])) joinVC(d, evs[ci].dvc);
                if (independent(d)) initials |= 1u << t.id;
            }
            if (!(initials & nd.backtrack)) {
                uint32_t add = initials >> t.id & 1 ? 1u << t.id : initials & -initials;
                if (!(add & nd.enabledM)) add = nd.enabledM;
                nd.backtrack |= add;
            }
        }
    memcpy(t.dvc, e.dvc, sizeof(VC));
    evs.push_back(e);
}
static bool timedOption(const Th &t) { return t.timed && t.st != DONE && t.st != READY; }
// Picks who runs next. The calling thread has announced its next operation in pend.
static void dispatch(bool yield, bool ending = false) {
    checkNoWait();
    bool curOk = !ending && enabled(*me);
    bool others = false;
    uint32_t em = 0;
    for (int i = 0; i < nth_; i++) {
        if (enabled(th[i])) em |= 1u << i;
        if (i != me->id && (enabled(th[i]) || timedOption(th[i]))) others = true;
        if (timedOption(th[i])) unfair_ = true;
    }
    if (yield) unfair_ = true;
    Node c{};
    int n = 0;
    if (curOk && !(yield && others)) { c.opts[n] = me->id; c.cost[n++] = 0; }
    bool costly = curOk && !yield;
    for (int pass = 0; pass < 2; pass++)       // threads that only poll come after those that can make progress
        for (int i = 0; i < nth_; i++)
            if (i != me->id && (em >> i & 1) && th[i].yielded == (pass == 1)) { c.opts[n] = i; c.cost[n++] = costly; }
    int plain = n;
    for (int i = 0; i < nth_; i++)
        if (timedOption(th[i]) && !(ending && i == me->id)) { c.opts[n] = i; c.cost[n] = plain ? 1 : 0; n++; }
    bool draining = false;
    if (n == 0) for (int i = 0; i < nth_; i++) if (th[i].st == READY && th[i].pend.kind == DRAIN) { c.opts[n] = i; c.cost[n++] = 0; em = 1u << i; draining = true; break; }
    if (n == 0) {
        std::string s;
        for (int i = 0; i < nth_; i++) if (th[i].st != DONE)
            s += " thread " + std::to_string(i) + " is " + (th[i].st == READY ? kindName[th[i].pend.kind] : "waiting for another thread") + ";";
        violation("no thread can run:%s", s.c_str());
    }
    int nx = c.opts[0];
    bool single = false;
    if (por_ && !redundant_ && !(em & (em - 1)) && em) single = true;      // no choice here
    if (por_ && evs.size() > 60000) single = true;
    if (single) {}
    else if (por_ && !redundant_) {
        bool fresh = depth_ >= path.size();
        if (!fresh && !(em >> path[depth_].chosenTh & 1)) { path.resize(depth_); st.diverged++; fresh = true; }  // state kept from earlier executions
        if (fresh) {
            c.enabledM = em;
            for (int i = 0; i < nth_; i++) c.pend[i] = th[i].pend;
            if (!path.empty()) {
                Node &b = path.back();
                uint32_t s = (b.sleep | b.done) & ~(1u << b.chosenTh);
                for (int i = 0; i < MAXT; i++) if ((s >> i & 1) && !dependent(b.pend[i], b.pend[b.chosenTh])) c.sleep |= 1u << i;
            }
            int pick = -1;
            for (int i = 0; i < n && pick < 0; i++) if (!(c.sleep >> c.opts[i] & 1)) pick = c.opts[i];
            if (pick < 0) { redundant_ = true; st.redundant++; }
            else {
                c.chosenTh = nx = pick;
                c.backtrack = 1u << pick;
                path.push_back(c);
                depth_++;
            }
        } else {
            Node &b = path[depth_];
            b.enabledM = em;
            for (int i = 0; i < nth_; i++) b.pend[i] = th[i].pend;
            nx = b.chosenTh;
            depth_++;
        }
        st.points++;
    } else if (!por_ && opt.points && n > 1) {
        int pick = 0;
        if (depth_ < path.size()) {
            pick = path[depth_].chosen;
            if (path[depth_].n != n || path[depth_].opts[pick] != c.opts[pick]) { path.resize(depth_); st.diverged++; }
        }
        if (depth_ >= path.size()) { pick = 0; c.n = n; c.chosen = 0; path.push_back(c); }
        nx = c.opts[pick];
        path[depth_].chosenTh = nx;
        depth_++;
        st.points++;
    }
    st.transitions++;
    if (++inRun > 20000000) violation("an execution does not end (more than 20000000 operations)");
    Th &t = th[nx];
    if (draining) t.pend.kind = DRAIN;
    execute(t, por_ && !redundant_ && !single ? (int) depth_ - 1 : -1);
    if (t.st != READY && t.timed) { t.timedOut = true; t.st = READY; }
    if (t.pend.kind == DRAIN) t.pend = {NOP, nullptr, nullptr};
    t.yielded = false;
    if (nx == me->id) return;
    Th *self = me;
    self->solo = 0;
    cur = nx;
    give(&t);
    if (!ending) take(self);
}
static void opPoint(Kind k, const void *obj = nullptr, const void *obj2 = nullptr, bool yield = false) {
    me->pend = {k, obj, obj2};
    if (++me->solo > 3000) { yield = true; me->solo = 0; }
    if (yield) me->yielded = true;
    dispatch(yield);
}
static void pointIn(bool yield = false) {
    if (!on_ || hook || !me) return;
    Quiet q;
    opPoint(NOP, nullptr, nullptr, yield);
}
// Sleeps until another thread wakes this one; the operation that led here has been executed.
static void block(State s, const void *addr, bool timed = false) {
    me->st = s; me->waitAddr = addr; me->timed = timed; me->timedOut = false;
    me->pend = {RESUME, nullptr, nullptr};
    dispatch(false);
    me->timed = false; me->waitAddr = nullptr;
}
static int wake(State s, const void *addr, int n) {
    int k = 0;
    for (int i = 0; i < nth_ && k < n; i++) if (th[i].st == s && th[i].waitAddr == addr) { th[i].st = READY; joinVC(th[i].dvc, me->dvc); k++; }
    return k;
}
bool active() { return on_ && me; }
int self() { return me ? me->id : -1; }
uint64_t tick() { return ++clock_; }
void point() { pointIn(); }
void drain() { if (active()) { Quiet q; opPoint(DRAIN); } }
// Mutexes under which a thread waited or generated a tree, with the clock of that.
struct Slow { const void *m; int th; uint32_t k; };
static std::vector<Slow> slow_;
static std::vector<const void *> heldBy[MAXT];
static void slowSection() { for (const void *m : heldBy[me->id]) slow_.push_back({m, me->id, me->dvc[me->id]}); }
static void lockNoWait(const void *m) {
    if (!me->noWaitOp) return;
    for (auto &s : slow_) if (s.m == m && s.th != me->id && me->noWaitFrom[s.th] < s.k)
        violation("%s can have to wait for tree generation: thread %d generates or waits for a tree while holding the lock", me->noWaitOp, s.th);
}
void noWait(bool b, const char *what) {
    if (!active()) return;
    me->noWaitOp = b ? what : nullptr;
    memcpy(me->noWaitFrom, me->dvc, sizeof(VC));
}
void building(bool b) { if (active()) { me->buildDepth += b ? 1 : -1; if (b) { Quiet q; slowSection(); } } }
int threadsCreated() { return nth_ - 1; }
void quiet(bool b) { hook += b ? 1 : -1; }
void clockOf(Moment &m) { if (active()) { m.th = me->id; memcpy(m.vc, me->dvc, sizeof(VC)); } }
bool mayPrecede(const Moment &a, const Moment &b) {
    if (a.th == b.th) return a.vc[a.th] <= b.vc[b.th];
    return a.vc[b.th] <= b.vc[b.th];
}

static std::vector<int> createFaults;
static int createN;
void failCreate(int nth) { Quiet q; createFaults.push_back(nth); }
void failNew(long nth) { me->newN = 0; me->newFail = nth; }
static std::vector<std::pair<int, long>> newFaults;
void failNewIn(int t, long nth) { Quiet q; newFaults.push_back({t, nth}); }
long newCount() { return me->newN; }
void clearFaults() { Quiet q; createFaults.clear(); newFaults.clear(); for (int i = 0; i < nth_; i++) th[i].newFail = 0; }

static void stackOf(Th &t) {
    pthread_attr_t a; void *lo; size_t n;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &lo, &n);
    pthread_attr_destroy(&a);
    t.stackLo = (char *) lo; t.stackHi = (char *) lo + n;
}
static void finishThread() {
    hook++;
    opPoint(FIN);
    me->st = DONE;
    release(me);
    dispatch(false, true);
}
// OS threads are kept for all executions: thread i of every execution runs on the same one.
static void *worker(void *p) {
    Th *t = (Th *) p;
    hook++;
    for (;;) {
        take(t);
        me = t;
        if (!t->stackHi) stackOf(*t);
        hook--;
        t->ret = t->fn(t->arg);
        finishThread();
        me = nullptr;
    }
}
static pthread_t osOf[MAXT];
static char *loOf[MAXT], *hiOf[MAXT];
static void reset() {
    for (int i = 0; i < MAXT; i++) { if (th[i].stackHi) { loOf[i] = th[i].stackLo; hiOf[i] = th[i].stackHi; } }
    memset((void *) th, 0, sizeof th);
    for (int i = 0; i < MAXT; i++) { th[i].stackLo = loOf[i]; th[i].stackHi = hiOf[i]; heldBy[i].clear(); }
    gen_++; used_ = 0; syncUsed = 0;
    nth_ = 1; cur = 0; clock_ = 0; depth_ = 0; inRun = 0;
    createN = 0; createFaults.clear(); newFaults.clear(); slow_.clear();
    evs.clear(); objs.clear(); redundant_ = false;
    th[0].st = READY; th[0].vc[0] = 1;
    me = &th[0];
    if (!me->stackHi) stackOf(th[0]);
}
static bool nextSchedule() {
    if (por_) {
        while (!path.empty()) {
            Node &k = path.back();
            k.done |= 1u << k.chosenTh;
            uint32_t left = k.backtrack & ~k.done & ~k.sleep;
            if (left) { k.chosenTh = __builtin_ctz(left); return true; }
            path.pop_back();
        }
        return false;
    }
    path.resize(depth_);
    while (!path.empty()) {
        int spent = 0;
        for (size_t i = 0; i + 1 < path.size(); i++) spent += path[i].cost[path[i].chosen];
        Node &k = path.back();
        while (++k.chosen < k.n) if (spent + k.cost[k.chosen] <= opt.preemptions) return true;
        path.pop_back();
    }
    return false;
}
Stats explore(mc::Ctx &c, const Options &o, const std::function<void()> &body) {
    ctx = &c; opt = o; st = Stats();
    if (!cells) { cells = (Cell *) __real_calloc(CELLS, sizeof(Cell)); syncs = (Sync *) __real_calloc(SYNCS, sizeof(Sync)); }
    path.clear();
    por_ = opt.por && opt.points; unfair_ = false;
    for (;;) {
        reset();
        on_ = true;
        body();
        {
            Quiet q;
            for (;;) {   // let threads that nobody joined come to their end
                bool left = false;
                for (int i = 1; i < nth_; i++) left |= th[i].st != DONE;
                if (!left) break;
                opPoint(DRAIN);
                for (int i = 1; i < nth_; i++) if (th[i].st != DONE) violation("thread %d is left blocked for ever at the end", i);
            }
            on_ = false;
            st.runs++;
            if (evs.size() > st.maxDepth) st.maxDepth = evs.size();
            if (por_ && !redundant_) st.traces++;
        }
        if (por_ && unfair_) {   // polling or timed waits: schedules are bounded by preemptions instead
            por_ = false; path.clear();
            st.bounded = true;
            continue;
        }
        if (!nextSchedule()) return st;
        if (st.runs >= (st.bounded ? std::min(opt.maxPolling, opt.maxRuns) : opt.maxRuns)) { st.capped = true; return st; }
    }
}
} // namespace sched
using namespace sched;

// ---------------------------------------------------------------- interposed functions
#define NX(name) static auto real = (decltype(&name)) dlsym(RTLD_NEXT, #name)
extern "C" {
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    NX(pthread_create);
    if (!active()) return real(p, a, fn, arg);
    Quiet q;
    opPoint(CREATE, &createN);
    createN++;
    for (int f : createFaults) if (f == createN) { st.faultsHit++; return EAGAIN; }
    if (nth_ >= MAXT) { fprintf(stderr, "too many threads\n"); _exit(3); }
    Th &t = th[nth_];
    t.id = nth_; t.st = READY; t.fn = fn; t.arg = arg; t.pend = {START, nullptr, nullptr};
    memcpy(t.vc, me->vc, sizeof(VC));
    memcpy(t.dvc, me->dvc, sizeof(VC));
    t.vc[t.id] = 1;
    me->vc[me->id]++;
    for (auto &f : newFaults) if (f.first == t.id) t.newFail = f.second;
    if (!osOf[t.id]) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        int r = real(&osOf[t.id], &at, worker, &t);
        if (r) { fprintf(stderr, "cannot create a thread: %d\n", r); _exit(3); }
    }
    // The stack of the new thread holds nothing of interest yet; an earlier execution's entries are gone anyway.
    *p = t.os = osOf[t.id];
    nth_++;
    return 0;
}
static Th *byOs(pthread_t p) { for (int i = nth_ - 1; i > 0; i--) if (th[i].os == p && !th[i].detached) return &th[i]; return nullptr; }
int pthread_join(pthread_t p, void **r) {
    NX(pthread_join);
    if (!active()) return real(p, r);
    Quiet q;
    Th *t = byOs(p);
    if (!t) return ESRCH;
    if (t == me) return EDEADLK;
    if (t->st != DONE) slowSection();
    me->waitTh = t->id;
    opPoint(JOIN);
    joinVC(me->dvc, t->dvc);
    acquire(t);
    t->detached = true;
    if (r) *r = t->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    NX(pthread_detach);
    if (!active()) return real(p);
    if (Th *t = byOs(p)) t->detached = true;
    return 0;
}
static void own(pthread_mutex_t *m) {
    m->__data.__lock = 1; m->__data.__owner = me->id + 1; m->__data.__count = 1;
    heldBy[me->id].push_back(m);
    acquire(m);
    lockNoWait(m);
}
static void disown(pthread_mutex_t *m) {
    release(m);
    auto &h = heldBy[me->id];
    for (size_t i = h.size(); i-- > 0;) if (h[i] == m) { h.erase(h.begin() + i); break; }
    m->__data.__count = 0; m->__data.__lock = 0; m->__data.__owner = 0;
}
static bool mine(pthread_mutex_t *m) { return m->__data.__lock && m->__data.__owner == me->id + 1; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    NX(pthread_mutex_lock);
    if (!active() || hook) return on_ ? 0 : real(m);
    Quiet q;
    if (mine(m)) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    opPoint(LOCK, m);
    own(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    NX(pthread_mutex_trylock);
    if (!active() || hook) return on_ ? 0 : real(m);
    Quiet q;
    opPoint(TRYLOCK, m);
    if (m->__data.__lock) {
        if (mine(m) && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
        return EBUSY;
    }
    own(m);
    return 0;
}
static int timedLock(pthread_mutex_t *m) { return pthread_mutex_trylock(m) ? ETIMEDOUT : 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) { NX(pthread_mutex_timedlock); return active() ? timedLock(m) : real(m, t); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const timespec *t) { NX(pthread_mutex_clocklock); return active() ? timedLock(m) : real(m, k, t); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    NX(pthread_mutex_unlock);
    if (!active() || hook) return on_ ? 0 : real(m);
    Quiet q;
    if (m->__data.__count > 1) { m->__data.__count--; return 0; }
    opPoint(UNLOCK, m);
    disown(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    Quiet q;
    opPoint(UNLOCK, m, c);
    disown(m);
    slowSection();
    block(COND, c, timed);
    bool to = me->timedOut;
    if (!to) acquire(c);
    opPoint(LOCK, m);
    own(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { NX(pthread_cond_wait); return active() ? condWait(c, m, false) : real(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { NX(pthread_cond_timedwait); return active() ? condWait(c, m, true) : real(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) { NX(pthread_cond_clockwait); return active() ? condWait(c, m, true) : real(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t *c) {
    NX(pthread_cond_signal);
    if (!active()) return real(c);
    Quiet q;
    opPoint(WAKE, c);
    release(c); wake(COND, c, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    NX(pthread_cond_broadcast);
    if (!active()) return real(c);
    Quiet q;
    opPoint(WAKE, c);
    release(c); wake(COND, c, INT_MAX);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!active()) {
        NX(pthread_once);
        return real(o, fn);
    }
    { Quiet q; opPoint(ONCE, o); if (*o == 2) { acquire(o); return 0; } *o = 1; }
    try { fn(); }
    catch (...) { Quiet q; opPoint(ONCEEND, o); *o = 0; throw; }
    Quiet q;
    opPoint(ONCEEND, o);
    *o = 2; release(o);
    return 0;
}
// Guards of function-local statics that are initialised: they never change again, so that looking at one is no scheduling
// point (seeing it a moment earlier would only mean waiting for the initialisation that has just ended).
static const void *guards[4096];
static size_t nGuards;
static size_t guardSlot(const void *g) { return ((uintptr_t) g * 0x9e3779b97f4a7c15ULL) >> 40 & 4095; }
static void guardDone(const void *g) {
    size_t h = guardSlot(g);
    while (guards[h] && guards[h] != g) h = (h + 1) & 4095;
    if (!guards[h] && nGuards < 2048) { guards[h] = g; nGuards++; }
}
bool guardIsDone(const void *g) {
    for (size_t h = guardSlot(g); guards[h]; h = (h + 1) & 4095) if (guards[h] == g) return *(const volatile uint8_t *) g != 0;
    return false;
}
int __cxa_guard_acquire(long long *g) {
    auto *b = (volatile uint8_t *) g;
    if (!active()) return b[0] ? 0 : 1;
    Quiet q;
    opPoint(ONCE, g, g);
    if (b[0]) { acquire(g); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long *g) {
    auto *b = (volatile uint8_t *) g;
    guardDone(g);
    if (active()) { Quiet q; opPoint(ONCEEND, g, g); release(g); }
    b[0] = 1; b[1] = 0;
}
void __cxa_guard_abort(long long *g) {
    auto *b = (volatile uint8_t *) g;
    if (active()) { Quiet q; opPoint(ONCEEND, g, g); }
    b[1] = 0;
}
static int rd(pthread_rwlock_t *l, bool tryit) {
    Quiet q;
    opPoint(tryit ? WRITE : RDLOCK, l);
    if (l->__data.__cur_writer) return EBUSY;
    l->__data.__readers++;
    acquire(l);
    return 0;
}
static int wr(pthread_rwlock_t *l, bool tryit) {
    Quiet q;
    opPoint(tryit ? WRITE : WRLOCK, l);
    if (l->__data.__cur_writer || l->__data.__readers) return EBUSY;
    l->__data.__cur_writer = me->id + 1;
    acquire(l);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { NX(pthread_rwlock_rdlock); return active() ? rd(l, false) : real(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { NX(pthread_rwlock_tryrdlock); return active() ? rd(l, true) : real(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { NX(pthread_rwlock_wrlock); return active() ? wr(l, false) : real(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { NX(pthread_rwlock_trywrlock); return active() ? wr(l, true) : real(l); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    NX(pthread_rwlock_unlock);
    if (!active()) return real(l);
    Quiet q;
    opPoint(RWEND, l);
    release(l);
    if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else l->__data.__readers--;
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
// POSIX semaphores: the count is kept in the object.
static int *semv(sem_t *s) { return (int *) s; }
int sem_init(sem_t *s, int, unsigned v) { *semv(s) = (int) v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_post(sem_t *s) { if (active()) { Quiet q; opPoint(WRITE, s); release(s); } ++*semv(s); return 0; }
int sem_wait(sem_t *s) { if (active()) { Quiet q; opPoint(SEMWAIT, s); acquire(s); } --*semv(s); return 0; }
int sem_trywait(sem_t *s) { if (active()) { Quiet q; opPoint(WRITE, s); } if (*semv(s) == 0) { errno = EAGAIN; return -1; } --*semv(s); if (active()) acquire(s); return 0; }

int sched_yield() { if (active()) pointIn(true); return 0; }
int nanosleep(const timespec *t, timespec *r) { NX(nanosleep); if (!active()) return real(t, r); pointIn(true); return 0; }
int clock_nanosleep(clockid_t k, int f, const timespec *t, timespec *r) { NX(clock_nanosleep); if (!active()) return real(k, f, t, r); pointIn(true); return 0; }
int usleep(useconds_t u) { NX(usleep); if (!active()) return real(u); pointIn(true); return 0; }

long syscall(long no, ...) {
    va_list ap; va_start(ap, no);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    typedef long (*F)(long, ...);
    static F real = (F) dlsym(RTLD_NEXT, "syscall");
    if (no != SYS_futex || !active()) return real(no, a, b, c, d, e, f);
    int op = (int) b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    int *addr = (int *) a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        Quiet q;
        opPoint(WRITE, (void *) (a & ~7L));
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int) c) { errno = EAGAIN; return -1; }
        slowSection();
        block(FUTEX, addr, d != 0);
        if (me->timedOut) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        Quiet q;
        opPoint(WAKE, (void *) (a & ~7L));
        return wake(FUTEX, addr, (int) c);
    }
    return real(no, a, b, c, d, e, f);
}
void *__real_memcpy(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n);
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *d, int v, size_t n) { access(d, n, true); return __real_memset(d, v, n); }
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
void *__real___cxa_allocate_exception(size_t n);
void *__wrap___cxa_allocate_exception(size_t n) {
    void *p = __real___cxa_allocate_exception(n);
    if (on_ && !hook && me) clearRange(p, n);
    return p;
}
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && on_ && me) clearRange(p, n); return p; }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p && on_ && me) clearRange(p, a * b); return p; }
} // extern "C"

static constexpr size_t HDR = 16;
static void *mynew(size_t n, bool nothrow) {
    if (on_ && me && !hook) {
        me->newN++;
        if (me->newFail && me->newN == me->newFail) {
            st.faultsHit++;
            if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    char *p = (char *) __real_malloc(n + HDR);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    *(size_t *) p = n;
    if (on_ && me) clearRange(p + HDR, n ? n : 1);
    return p + HDR;
}
static void mydelete(void *p) {
    if (!p) return;
    char *b = (char *) p - HDR;
    if (on_ && me && !hook) access(p, *(size_t *) b, true, false, "release of memory");
    free(b);
}
void *operator new(size_t n) { return mynew(n, false); }
void *operator new[](size_t n) { return mynew(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mynew(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return mynew(n, true); }
void operator delete(void *p) noexcept { mydelete(p); }
void operator delete[](void *p) noexcept { mydelete(p); }
void operator delete(void *p, size_t) noexcept { mydelete(p); }
void operator delete[](void *p, size_t) noexcept { mydelete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mydelete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mydelete(p); }

extern "C" void vt_library_access(void *p, int kind) {
    if (!on_ || hook || !me) return;
    for (void *q : {(void *) &std::cout, (void *) &std::cerr, (void *) &std::clog, (void *) &std::cin}) if (p == q) return;   // these may be shared
    access(p, kind & 2 ? 32 : 8, kind & 1, false, kind & 1 ? "library call that changes the object" : "library call");
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void *p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void *p) { access(p, 8, false); }
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static char fenceVar;
static void order(const volatile void *p, bool write, bool read, int mo) {
    if (read) {
        if (acq(mo)) acquire((const void *) p);
        else joinVC(me->pend_acq, syncOf((const void *) p)->vc);   // for a later acquire fence
    }
    if (write) {
        if (rel(mo)) release((const void *) p);
        else {
            Sync *s = syncOf((const void *) p);
            if (!read) memset(s->vc, 0, sizeof s->vc);
            joinVC(s->vc, me->frel);                            // published by an earlier release fence
        }
    }
}
static void at(const volatile void *p, size_t n, bool write, bool read, int mo) {
    if (!active() || hook) return;
    if (!write && guardIsDone((const void *) p)) { Quiet q; acquire((const void *) p); return; }
    { Quiet q; opPoint(write ? WRITE : READ, (const void *) ((uintptr_t) p & ~7ULL)); }
    access((const void *) p, n, write, true);
    Quiet q;
    order(p, write, read, mo);
}
#define ATOMIC(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int mo) { at(p, sizeof(T), false, true, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { at(p, sizeof(T), true, false, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { at(p, sizeof(T), true, true, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { at(p, sizeof(T), true, true, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { at(p, sizeof(T), true, true, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { at(p, sizeof(T), true, true, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { at(p, sizeof(T), true, true, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { at(p, sizeof(T), true, true, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { at(p, sizeof(T), true, true, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { \
    if (active() && !hook) { Quiet q; opPoint(WRITE, (const void *) ((uintptr_t) p & ~7ULL)); } \
    T cur = __atomic_load_n(p, __ATOMIC_SEQ_CST); bool ok = cur == *e; \
    atNoPoint(p, sizeof(T), ok, true, ok ? mo : fmo); \
    if (ok) __atomic_store_n(p, v, __ATOMIC_SEQ_CST); else *e = cur; \
    return ok; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
static void atNoPoint(const volatile void *p, size_t n, bool write, bool read, int mo) {
    if (!active() || hook) return;
    access((const void *) p, n, write, true);
    Quiet q;
    order(p, write, read, mo);
}
extern "C" {
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!active() || hook) return;
    Quiet q;
    opPoint(mo == __ATOMIC_SEQ_CST ? WRITE : NOP, mo == __ATOMIC_SEQ_CST ? &fenceVar : nullptr);
    if (acq(mo)) joinVC(me->vc, me->pend_acq);
    if (mo == __ATOMIC_SEQ_CST) { acquire(&fenceVar); release(&fenceVar); }
    if (rel(mo)) { memcpy(me->frel, me->vc, sizeof(VC)); me->vc[me->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
}

// C27: every memory allocation of every operation fails once (and from there on), at every index of small trees.
#include <qrl.hpp>
#include <new>
#include <typeinfo>
using namespace mc;
static thread_local bool armed;
static thread_local bool persistent;
static thread_local long allocs, failAt, hits;
static bool deny() {
    if (!armed) return false;
    allocs++;
    if (allocs == failAt || (persistent && allocs > failAt)) { hits++; return true; }
    return false;
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return deny() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return deny() ? nullptr : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return deny() ? nullptr : __real_realloc(p, n); }
}
static void *get(size_t n, size_t align = 0) {
    if (deny()) throw std::bad_alloc();
    void *p = align ? aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, std::align_val_t a) { return get(n, (size_t) a); }
void *operator new[](size_t n, std::align_val_t a) { return get(n, (size_t) a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return deny() ? nullptr : __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return deny() ? nullptr : __real_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

// Runs f with the n-th allocation failing; true when it reported a failure.
template <class F> static bool under(long n, bool every, F f) {
    bool threw = false;
    allocs = 0; hits = 0; failAt = n; persistent = every; armed = true;
    try { f(); } catch (std::exception &) { armed = false; threw = true; } catch (...) { armed = false; throw Fail{"an exception that is not a std::exception"}; }
    armed = false;
    return threw;
}
// The positions to fail at: all of the first and last ones, and every step-th between.
struct Positions {
    long n = 0, step, dense, total;
    Positions(long total, long dense, long step) : step(step), dense(dense), total(total) {}
    bool next() {
        if (n < dense || n >= total - dense || step <= 1) n++;
        else n = std::min(n + step, std::max(n + 1, total - dense));
        return n <= total;
    }
};
// How many allocations f makes.
template <class F> static long count(F f) { under(-1, false, f); return allocs; }

struct Key { Bytes seed; unsigned h; int f; unsigned w; ref::Xmss r; std::vector<std::map<int, Bytes>> sigs; std::vector<Bytes> msgs;
    Key(uint64_t n, unsigned h, int f, unsigned w) : seed(seedN(n)), h(h), f(f), w(w), r(seed, h, f, w), sigs(1u << h) {
        for (size_t l : {0, 33, 700}) msgs.push_back(msgN(l, l));
    }
    const Bytes &sig(uint32_t i, int m) { Bytes &s = sigs[i][m]; if (s.empty()) s = r.sign(i, msgs[m]); return s; }
};
static XmssFast *make(const XmssFast *, Key &q) { return static_cast<XmssFast *>(mkFast(q.seed, q.h, q.f, q.w).release()); }
static XmssBasic *make(const XmssBasic *, Key &q) { return new XmssBasic(q.seed, q.h, HF(q.f), eAddrFormatType::SHA256_2X, q.w); }
// From here on the signer x must behave as the model of its key does at its index.
template <class X> static void onwards(Ctx &c, Key &k, X &x, uint32_t lo, uint32_t hi) {
    uint32_t i = x.getIndex();
    c.check(i >= lo && i <= hi, "the index is %u after the failure, not between %u and %u", i, lo, hi);
    c.check(x.getSK() == k.r.sk(i) && x.getPK() == k.r.pk() && x.getSeed() == k.seed, "the keys changed");
    for (; i < 1u << k.h; i++) {
        Bytes s;
        try { s = x.sign(k.msgs[1]); } catch (std::exception &e) { c.fail("a later signature at index %u is refused: %s", i, e.what()); }
        c.check(s == k.sig(i, 1), "a later signature at index %u is wrong", i);
        c.transitions++;
    }
    bool ok = true;
    try { x.sign(k.msgs[1]); } catch (std::exception &) { ok = false; }
    c.check(!ok, "a signature after the last leaf");
    c.traces++;
}
template <class X> static void signer(const char *kind, unsigned h, int f, unsigned w, unsigned part, unsigned parts, long dense, long step, unsigned every) {
    add(std::string("signer/") + kind + "/h" + std::to_string(h) + "/" + hname(f) + "/w" + std::to_string(w) + "/" + std::to_string(part), [=](Ctx &c) {
        probeHash();
        Key k(2700 + h, h, f, w);
        const uint32_t N = 1u << h;
        std::unique_ptr<X> start(make((X *) nullptr, k));
        for (uint32_t i = 0; i <= N; i++) {
            if (i % parts == part && (i % every == 0 || i >= N - 1)) {
                c.states++;
                auto fork1 = [&] { return std::unique_ptr<X>(new X(*start)); };
                for (int m = 0; m < 3; m++) for (int p = 0; p < 2; p++) {
                    long total = 0;
                    { auto x = fork1(); total = count([&] { x->sign(k.msgs[m]); }); }
                    for (Positions at(total, dense, step); at.next();) {
                        auto x = fork1();
                        c.at("%s h=%u %s w=%u at index %u: sign(%zu bytes), allocation %ld of %ld fails%s", kind, h, hname(f), w, i, k.msgs[m].size(), at.n, total, p ? ", and all later ones" : "");
                        Bytes s;
                        bool threw = under(at.n, p, [&] { s = x->sign(k.msgs[m]); });
                        c.faults++; c.evalDistinct();
                        if (i == N) { c.check(threw, "signed after the last leaf"); onwards(c, k, *x, N, N); continue; }
                        if (!threw) c.check(s == k.sig(i, m), "the signature made while memory ran out is wrong");
                        onwards(c, k, *x, threw ? i : i + 1, i + 1);
                    }
                }
                for (uint32_t j : {i, i + 1, i + 3, N - 1, N, 0xffffffffu}) for (int p = 0; p < 2; p++) {
                    if (j < i) continue;
                    long total = 0;
                    { auto x = fork1(); total = count([&] { x->setIndex(j); }); }
                    for (Positions at(total, dense, step); at.next();) {
                        auto x = fork1();
                        c.at("%s h=%u %s w=%u at index %u: setIndex(%u), allocation %ld of %ld fails%s", kind, h, hname(f), w, i, j, at.n, total, p ? ", and all later ones" : "");
                        bool threw = under(at.n, p, [&] { x->setIndex(j); });
                        c.faults++; c.evalDistinct();
                        if (j >= N) { c.check(threw, "setIndex accepted an index outside the tree"); onwards(c, k, *x, i, i); }
                        else onwards(c, k, *x, threw ? i : j, j);
                    }
                }
                for (int g = 0; g < 8; g++) for (int p = 0; p < 2; p++) {
                    auto x = fork1();
                    auto getter = [&](X &y) -> Bytes {
                        switch (g) {
                            case 0: return y.getSK(); case 1: return y.getPK(); case 2: return y.getAddress(); case 3: return y.getExtendedSeed();
                            case 4: return y.getRoot(); case 5: return y.getPKSeed(); case 6: return y.getSKSeed(); default: return y.getSKPRF();
                        }
                    };
                    Bytes want = getter(*x), got;
                    long total = count([&] { getter(*x); });
                    for (Positions at(total, dense, step); at.next();) {
                        c.at("%s at index %u: getter %d, allocation %ld of %ld fails", kind, i, g, at.n, total);
                        bool threw = under(at.n, p, [&] { got = getter(*x); });
                        c.faults++; c.evalDistinct();
                        if (!threw) c.check(got == want, "a getter returned a wrong value while memory ran out");
                    }
                    if (g == 2) onwards(c, k, *x, i, i);
                }
                {   // copies: neither half a copy nor a changed source
                    auto y = fork1();
                    long total = count([&] { X z(*y); });
                    for (Positions at(total, dense, step); at.next();) {
                        c.at("%s at index %u: copy, allocation %ld of %ld fails", kind, i, at.n, total);
                        std::unique_ptr<X> z;
                        bool threw = under(at.n, false, [&] { z.reset(new X(*y)); });
                        c.faults++; c.evalDistinct();
                        c.check(threw == !z, "copying reported %d", (int) threw);
                        if (z) onwards(c, k, *z, i, i);
                    }
                    onwards(c, k, *y, i, i);
                }
            }
            if (i < N) start->sign(k.msgs[1]);
        }
        c.sample(c.shared);
    });
}
template <class X> static void construct(const char *kind, unsigned h, int f, unsigned w, long dense, long step) {
    add(std::string("construct/") + kind + "/h" + std::to_string(h) + "/" + hname(f) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Key k(2750 + h, h, f, w);
        for (int p = 0; p < 2; p++) {
            long total = count([&] { delete make((X *) nullptr, k); });
            for (Positions at(total, dense, step); at.next();) {
                c.at("new %s(h=%u %s w=%u), allocation %ld of %ld fails%s", kind, h, hname(f), w, at.n, total, p ? ", and all later ones" : "");
                std::unique_ptr<X> x;
                bool threw = under(at.n, p, [&] { x.reset(make((X *) nullptr, k)); });
                c.faults++; c.evalDistinct();
                c.check(threw || x, "neither a signer nor a failure");
                if (!threw) onwards(c, k, *x, 0, 0);
            }
            std::unique_ptr<X> x(make((X *) nullptr, k));
            onwards(c, k, *x, 0, 0);
        }
        c.sample(c.shared);
    });
}
// Two failures in a row, at every pair of positions, then everything must still be right.
template <class X> static void twice(const char *kind, unsigned h, int f, unsigned w) {
    add(std::string("twice/") + kind + "/" + hname(f), [=](Ctx &c) {
        probeHash();
        Key k(2780 + h, h, f, w);
        const uint32_t N = 1u << h;
        std::unique_ptr<X> start(make((X *) nullptr, k));
        for (uint32_t i = 0; i < N; i++) {
            for (int m = 0; m < 3; m++) {
                long total = 0;
                { X x(*start); total = count([&] { x.sign(k.msgs[m]); }); }
                for (long a = 1; a <= total; a++) for (long b = 1; b <= total; b++) {
                    X x(*start);
                    c.at("%s h=%u %s w=%u at index %u: allocations %ld and then %ld of sign(%zu bytes) fail", kind, h, hname(f), w, i, a, b, k.msgs[m].size());
                    uint32_t lo = i, used = i;
                    for (long n : {a, b}) {
                        uint32_t at = x.getIndex();
                        c.check(at >= lo, "the index moved backwards");
                        if (at >= N) break;
                        Bytes s;
                        if (!under(n, false, [&] { s = x.sign(k.msgs[m]); })) { c.check(s == k.sig(at, m), "the signature made while memory ran out is wrong"); used = at + 1; }
                        lo = at;
                        c.faults++;
                    }
                    c.evalDistinct();
                    onwards(c, k, x, used, i + 2);
                }
            }
            start->sign(k.msgs[1]);
        }
        c.sample(c.shared);
    });
}
static void verification(int f, unsigned h, unsigned w, long dense, long step) {
    add(std::string("verify/") + hname(f) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Key k(2790, h, f, w);
        for (int m = 0; m < 3; m++) {
            struct Case { const char *what; Bytes msg, sig, pk; bool valid; };
            std::vector<Case> cases;
            Bytes s = k.sig(3, m), pk = k.r.pk();
            cases.push_back({"valid", k.msgs[m], s, pk, true});
            for (size_t at : {(size_t) 0, (size_t) 3, (size_t) 4, (size_t) 40, s.size() - 1}) { Bytes t = s; t[at] ^= 1; cases.push_back({"altered signature", k.msgs[m], t, pk, false}); }
            for (size_t at : {(size_t) 3, (size_t) 34, (size_t) 35, (size_t) 66}) { Bytes t = pk; t[at] ^= 1; cases.push_back({"altered key", k.msgs[m], s, t, false}); }
            cases.push_back({"other message", k.msgs[(m + 1) % 3], s, pk, false});
            cases.push_back({"zero signature", k.msgs[m], Bytes(s.size()), pk, false});
            cases.push_back({"zero key", k.msgs[m], s, [&] { Bytes t = pk; std::fill(t.begin() + 3, t.end(), 0); return t; }(), false});
            cases.push_back({"short signature", k.msgs[m], Bytes(s.begin(), s.end() - 1), pk, false});
            cases.push_back({"short key", k.msgs[m], s, Bytes(pk.begin(), pk.end() - 1), false});
            for (auto &q : cases) for (int p = 0; p < 2; p++) {
                long total = count([&] { XmssBase::verify(q.msg, q.sig, q.pk, w); });
                for (Positions at(total, dense, step); at.next();) {
                    c.at("verify %s (message %d, w=%u), allocation %ld of %ld fails%s", q.what, m, w, at.n, total, p ? ", and all later ones" : "");
                    bool ok = false;
                    bool threw = under(at.n, p, [&] { ok = XmssBase::verify(q.msg, q.sig, q.pk, w); });
                    c.faults++; c.evalDistinct();
                    c.check(!(ok && !threw) || q.valid, "accepted because memory ran out");
                }
                c.check(XmssBase::verify(q.msg, q.sig, q.pk, w) == q.valid, "the verdict on %s is wrong after a failure", q.what);
                c.states++;
            }
        }
        c.sample(c.shared);
    });
}
// Encoders, from a process that has never used them (each position in a process of its own) and again afterwards.
// A validity check that fails closed is right, one that accepts because of it is not.
static Bytes verdict(bool ok) { return ok ? Bytes{1} : Bytes(); }
static bool right(const Bytes &got, const Bytes &want) { return got == want || (got.empty() && want == Bytes{1}); }
static Bytes cat(const std::string &s) { return Bytes(s.begin(), s.end()); }
static void encoders() {
    static std::vector<std::pair<const char *, std::function<Bytes()>>> ops;
    static Bytes ext = [] { Bytes e = seedN(27); e.insert(e.begin(), {1, 5, 0}); return e; }();
    static Bytes pk = [] { Bytes e = msgN(67, 9); e[0] = 0; e[1] = 5; e[2] = 0; return e; }();
    static std::string words, hex, bad = "no words of the list at all";
    ops = {
        {"bin2hstr", [] { return cat(bin2hstr(ext)); }}, {"bin2hstr wrapped", [] { return cat(bin2hstr(ext, 16)); }},
        {"bin2mnemonic", [] { return cat(bin2mnemonic(ext)); }}, {"mnemonic2bin", [] { return mnemonic2bin(words); }}, {"hstr2bin", [] { return hstr2bin(hex); }},
        {"str2bin", [] { return str2bin("some text of more than a few bytes"); }}, {"getAddress", [] { return QRLHelper::getAddress(pk); }},
        {"addressIsValid", [] { return verdict(QRLHelper::addressIsValid(QRLHelper::getAddress(pk))); }},
        {"bad address", [] { Bytes a(39, 7); return verdict(QRLHelper::addressIsValid(a)); }},
        {"descriptor", [] { auto d = QRLDescriptor::fromExtendedSeed(ext); return d.getBytes(); }},
        {"shake128", [] { return shake128(300, ext); }}, {"shake256", [] { return shake256(300, ext); }}, {"sha2_256", [] { return sha2_256(ext); }}, {"sha2_256_n", [] { return sha2_256_n(ext, 3); }},
        {"getHashChainSeed", [] { Bytes all; for (auto &x : getHashChainSeed(ext, 5, 7)) all.insert(all.end(), x.begin(), x.end()); return all; }},
        {"bad mnemonic", [] { try { mnemonic2bin(bad); } catch (std::invalid_argument &) { return Bytes{3}; } return Bytes{2}; }},
        {"bad hex", [] { try { hstr2bin("0g"); } catch (std::invalid_argument &) { return Bytes{3}; } return Bytes{2}; }},
        {"first signature", [] { XmssBasic x(seedN(5), 4, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X, 16); return x.sign(msgN(40)); }},
    };
    for (size_t o = 0; o < ops.size(); o++) add(std::string("cold/") + ops[o].first, [o](Ctx &c) {
        struct Shared { long total, size; char why[200]; uint8_t out[8192]; };
        auto *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto child = [&](std::function<void()> f) {
            sh->why[0] = 0;
            pid_t p = fork();
            if (p == 0) { try { f(); } catch (Fail &e) { snprintf(sh->why, sizeof sh->why, "%s", e.msg.c_str()); } catch (std::exception &e) { snprintf(sh->why, sizeof sh->why, "after the failure: %s", e.what()); } _exit(0); }
            int st; waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("crashed or aborted (status %d)", st);
            if (sh->why[0]) c.fail("%s", sh->why);
        };
        auto keep = [&](const Bytes &b) { sh->size = b.size(); memcpy(sh->out, b.data(), std::min(b.size(), sizeof sh->out)); };
        auto wordsFor = [&](auto f) { child([&] { keep(f()); }); return std::string((char *) sh->out, sh->size); };
        words = wordsFor([] { return cat(bin2mnemonic(ext)); });
        hex = wordsFor([] { return cat(bin2hstr(ext)); });
        auto &op = ops[o];
        child([&] { keep(op.second()); });
        Bytes want(sh->out, sh->out + sh->size);
        child([&] { sh->total = count([&] { op.second(); }); });
        long total = sh->total;
        for (int p = 0; p < 2; p++) for (Positions at(total, c.thorough ? 100000 : 300, 13); at.next();) {
            c.at("%s for the first time in a process, allocation %ld of %ld fails%s", op.first, at.n, total, p ? ", and all later ones" : "");
            child([&] {
                Bytes got;
                for (int again = 0; again < 2; again++) {
                    bool threw = under(at.n, p, [&] { got = op.second(); });
                    if (!threw && !right(got, want)) throw Fail{"wrong result while memory ran out"};
                    if (again == 0 && p) break;
                }
                if (op.second() != want) throw Fail{"wrong result after memory ran out once"};
            });
            c.faults++; c.evalDistinct(); c.traces++;
        }
        // and once it has been used
        if (op.second() != want) c.fail("unstable result");
        total = count([&] { op.second(); });
        for (int p = 0; p < 2; p++) for (Positions at(total, 100000, 1); at.next();) {
            c.at("%s, allocation %ld of %ld fails%s", op.first, at.n, total, p ? ", and all later ones" : "");
            Bytes got;
            bool threw = under(at.n, p, [&] { got = op.second(); });
            c.faults++; c.evalDistinct();
            c.check(threw || right(got, want), "wrong result while memory ran out");
            c.check(op.second() == want, "wrong result after memory ran out once");
        }
        c.states++;
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        long all = 1L << 40;
#ifdef VT_SHA_ALLOC
        // hashing allocates: thousands of positions within every operation
        long step = th ? 1 : 61, dense = th ? all : 20;
        unsigned parts = 17;
        for (unsigned p = 0; p < parts; p++) {
            signer<XmssFast>("fast", 4, 0, 4, p, parts, dense, step, 1);
            if (th) signer<XmssFast>("fast", 4, 0, 16, p, parts, dense, 3, 1);
            signer<XmssBasic>("basic", 4, 0, 4, p, parts, th ? 200 : 10, th ? 17 : 401, th ? 1 : 4);
        }
        construct<XmssFast>("fast", 4, 0, 4, 50, th ? 7 : 97);
        construct<XmssBasic>("basic", 4, 0, 4, 50, th ? 7 : 97);
        verification(0, 4, 4, th ? all : 30, 11);
        verification(0, 4, 16, th ? all : 30, 11);
#else
        for (int f = 0; f < 3; f++) {
            for (unsigned p = 0; p < 2; p++) { signer<XmssFast>("fast", 4, f, 2, p, 2, all, 1, 1); signer<XmssBasic>("basic", 4, f, 4, p, 2, all, 1, 1); }
            construct<XmssFast>("fast", 4, f, 16, all, 1);
            construct<XmssFast>("fast", 6, f, 4, all, 1);
            construct<XmssBasic>("basic", 4, f, 16, all, 1);
            if (th || f == 1) twice<XmssFast>("fast", 4, f, 2);
            if (th || f == 1) twice<XmssBasic>("basic", 4, f, 2);
            for (unsigned w : {2u, 16u, 256u}) verification(f, 4, w, all, 1);
        }
        for (unsigned p = 0; p < 16; p++) signer<XmssFast>("fast", 6, 1, 4, p, 16, all, 1, th ? 1 : 5);
        if (th) for (unsigned p = 0; p < 32; p++) signer<XmssFast>("fast", 8, 2, 4, p, 32, all, 1, 3);
        encoders();
#endif
    });
}

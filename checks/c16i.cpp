// C16: all interleavings of operation sequences of two independent objects (and free functions between them) in one thread.
#include <qrl.hpp>
using namespace mc;
struct Kind { int f; bool fast; unsigned w; int h; };
static const Kind KINDS[] = {{0, true, 16, 4}, {1, true, 16, 4}, {2, true, 16, 4}, {1, true, 16, 6}, {1, true, 4, 4}, {1, false, 4, 4}, {2, false, 16, 4}, {0, false, 16, 4}};
static std::unique_ptr<XmssBase> mk(const Kind &k, const Bytes &seed) { return k.fast ? std::unique_ptr<XmssBase>(mkFast(seed, k.h, k.f, k.w)) : mkBasic(seed, k.h, k.f, k.w); }
// One step of a signer: s sign, j jump forward by two, b jump back (refused), v verify own last signature, p keys, r re-create from the seed.
struct Obj {
    Kind k; Bytes seed, last, msg; std::unique_ptr<XmssBase> x; unsigned n = 0;
    Bytes step(char op) {
        Bytes o;
        n++;
        try {
            switch (op) {
                case 's': msg = msgN(10 + n, k.f * 10 + k.w); last = x->sign(msg); o = last; break;
                case 'j': o.push_back((uint8_t) x->setIndex(x->getIndex() + 2)); break;
                case 'b': o.push_back((uint8_t) x->setIndex(0)); break;
                case 'v': if (!last.empty()) o.push_back(XmssBase::verify(msg, last, x->getPK(), k.w)); break;
                case 'p': o = x->getPK(); { auto s = x->getSK(); o.insert(o.end(), s.begin(), s.end()); auto a = x->getAddress(); o.insert(o.end(), a.begin(), a.end()); } break;
                case 'r': x = mk(k, seed); break;
            }
        } catch (std::exception &e) { o = {'!'}; }
        o.push_back((uint8_t) x->getIndex());
        return o;
    }
};
static std::vector<std::string> words(const char *al, size_t len) {
    std::vector<std::string> v = {""};
    for (size_t l = 0; l < len; l++) { std::vector<std::string> n; for (auto &w : v) for (const char *a = al; *a; a++) n.push_back(w + *a); v = n; }
    return v;
}
static std::vector<Bytes> alone(const Kind &k, const Bytes &seed, const std::string &w) {
    Obj o{k, seed}; o.x = mk(k, seed);
    std::vector<Bytes> r;
    for (char c : w) r.push_back(o.step(c));
    return r;
}
// Two signers of the same seed, signing the same messages, in all orders, against the reference model: whatever a hidden cache forgets to key by
// (hash function, parameter, height, kind) shows, also when it is already stale in the first object.
static void sameSeed(size_t a, size_t step0) {
    add("sameseed/" + std::to_string(a), [=](Ctx &c) {
        probeHash();
        bool real = !ref::g_fast;
        std::vector<Kind> K;
        for (int f = 0; f < 3; f++) for (unsigned w : {4u, 16u}) for (int h : {4, 6}) for (bool fast : {true, false}) if ((!real && fast) || h == 4) K.push_back({f, fast, w, h});
        if (a >= K.size()) return;
        Bytes seed = seedN(300 + a);
        // step 0 creates the signer, the last one verifies, those between sign leaf after leaf
        auto run = [&](const Kind &k, ref::Xmss &r, std::unique_ptr<XmssBase> &x, unsigned n, unsigned len, const char *who) {
            Bytes m = msgN(20, n);
            if (n == 0) { x = mk(k, seed); c.check(x->getPK() == r.pk() && x->getSK() == r.sk(0), "the %s signer's keys are not its own", who); }
            else if (n < len - 1) c.check(x->sign(m) == r.sign(n - 1, m), "signature %u of the %s signer is not its own", n - 1, who);
            else c.check(XmssBase::verify(msgN(20, 2), r.sign(1, msgN(20, 2)), r.pk(), k.w), "the %s signer's signature is not accepted", who);
            c.transitions++;
        };
        ref::Xmss ra(seed, K[a].h, K[a].f, K[a].w);
        for (size_t b = a % step0; b < K.size(); b += step0) {
            ref::Xmss rb(seed, K[b].h, K[b].f, K[b].w);
            bool tall = K[a].h > 4 || K[b].h > 4, slow = !K[a].fast || !K[b].fast;
            unsigned la = slow ? 5 : K[a].h == 4 ? 18 : 34, lb = slow ? 5 : K[b].h == 4 ? 18 : 34;
            for (unsigned mask = 0; mask < 256; mask++) {
                // the order, repeated every eight steps
                if (__builtin_popcount(mask) != 4) continue;
                if ((real || tall || slow) && mask != 0x0f && mask != 0xf0 && mask != 0x55 && mask != 0xcc) continue;
                c.at("same seed, %s %s w=%u h=%d and %s %s w=%u h=%d, order %02x", K[a].fast ? "fast" : "basic", hname(K[a].f), K[a].w, K[a].h, K[b].fast ? "fast" : "basic", hname(K[b].f), K[b].w, K[b].h, mask);
                std::unique_ptr<XmssBase> x, y;
                for (unsigned s = 0, i = 0, j = 0; i < la || j < lb; s++) if (mask >> s % 8 & 1) { if (i < la) run(K[a], ra, x, i++, la, "first"); } else if (j < lb) run(K[b], rb, y, j++, lb, "second");
                c.states += la + lb;
                c.evalDistinct();
                c.traces++;
            }
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (size_t a = 0; a < 24; a++) sameSeed(a, 1);
        size_t NK = sizeof KINDS / sizeof *KINDS;
        for (size_t a = 0; a < NK; a++) for (size_t b = th ? 0 : a; b < NK; b++) add("interleavings/" + std::to_string(a) + "/" + std::to_string(b), [=](Ctx &c) {
            probeHash();
            bool real = !ref::g_fast;
            size_t len = real && !th ? 2 : 3;
            auto W = real && !th ? std::vector<std::string>{"ss", "js"} : th ? words("sjvr", 3) : std::vector<std::string>{"sss", "sjs", "jsv", "svs", "spb", "rsv"};
            Bytes sa = seedN(100 + a), sb = seedN(200 + b);
            auto tmplA = mk(KINDS[a], sa), tmplB = mk(KINDS[b], sb);
            std::map<std::string, std::vector<Bytes>> EA, EB;
            for (auto &w : W) { EA[w] = alone(KINDS[a], sa, w); EB[w] = alone(KINDS[b], sb, w); }
            auto fresh = [&](const Kind &k, XmssBase &t) -> std::unique_ptr<XmssBase> {
                if (k.fast) return std::unique_ptr<XmssBase>(new XmssFast(dynamic_cast<XmssFast &>(t)));
                return std::unique_ptr<XmssBase>(new XmssBasic(dynamic_cast<XmssBasic &>(t)));
            };
            uint64_t n = 0;
            for (auto &wa : W) for (auto &wb : W) {
                if (real && !th && wa > wb) continue;
                for (unsigned mask = 0; mask < (1u << (2 * len)); mask++) {
                    if (__builtin_popcount(mask) != (int) len) continue;
                    c.at("objects %zu and %zu, operations %s and %s, order %x", a, b, wa.c_str(), wb.c_str(), mask);
                    // Every eighth case builds both objects anew, so that construction itself is interleaved too.
                    bool anew = (n++ & 7) == 0;
                    Obj A{KINDS[a], sa}, B{KINDS[b], sb};
                    A.x = anew ? mk(KINDS[a], sa) : fresh(KINDS[a], *tmplA);
                    B.x = anew ? mk(KINDS[b], sb) : fresh(KINDS[b], *tmplB);
                    size_t i = 0, j = 0;
                    for (unsigned s = 0; s < 2 * len; s++) {
                        if (mask >> s & 1) { c.check(A.step(wa[i]) == EA[wa][i], "step %zu of the first object differs from the same step alone", i); i++; }
                        else { c.check(B.step(wb[j]) == EB[wb][j], "step %zu of the second object differs from the same step alone", j); j++; }
                        c.transitions++;
                    }
                    c.states += 2 * len;
                    c.evalDistinct();
                    c.traces++;
                }
            }
            c.sample("objects " + std::to_string(a) + " and " + std::to_string(b));
        });
    });
}

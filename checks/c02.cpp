// C02: all histories of sign / setIndex. The model is the index; the real signer is driven through every
// operation sequence up to a depth, and through every (state, operation, operation, sign) of the index space.
#include <qrl.hpp>
#include <climits>
#include <tall.hpp>
using namespace mc;
struct Model {
    int kind; unsigned h, w; int f;
    Bytes seed;
    std::unique_ptr<ref::Xmss> r;
    Model(int kind, unsigned h, int f, unsigned w) : kind(kind), h(h), w(w), f(f), seed(seedN(2000 + h * 10 + f)) {
        r.reset(new ref::Xmss(seed, h, f, w));
    }
    std::unique_ptr<XmssBase> fresh(Ctx &c) const {
        auto x = kind ? std::unique_ptr<XmssBase>(mkFast(seed, h, f, w)) : mkBasic(seed, h, f, w);
        c.check(x->getIndex() == 0, "a new signer starts at index %u", x->getIndex());
        return x;
    }
};
// One live signer and what the model says about it.
struct Run {
    Ctx &c; const Model &m;
    std::unique_ptr<XmssBase> x;
    uint64_t idx = 0;            // next leaf
    int64_t lastUsed = -1;
    unsigned n = 0;
    Run(Ctx &c, const Model &m) : c(c), m(m), x(m.fresh(c)) {}
    uint64_t N() const { return 1ULL << m.h; }
    void observe() {
        c.check(x->getIndex() == idx, "index is %u, the history leads to %lu", x->getIndex(), (unsigned long) idx);
        c.check(x->getRemainingSignatures() == N() - idx, "remaining %u, expected %lu", x->getRemainingSignatures(), (unsigned long) (N() - idx));
        c.check(x->getSK() == m.r->sk(idx), "secret key differs from the one of index %lu", (unsigned long) idx);
        c.check(x->getPK() == m.r->pk(), "public key changed");
    }
    bool sign() {
        Bytes msg = msgN(1 + (n++ * 7) % 40, 1000 * idx + n);
        Bytes s;
        c.transitions++;
        bool ok = true;
        try { s = x->sign(msg); } catch (std::exception &) { ok = false; }
        if (idx >= N()) {
            c.check(!ok, "signed although all %lu leaves are used (index %lu)", (unsigned long) N(), (unsigned long) idx);
        } else {
            c.check(ok, "refused to sign at index %lu", (unsigned long) idx);
            c.check(s == m.r->sign(idx, msg), "signature at index %lu is not the one of that leaf and message", (unsigned long) idx);
            c.traces++;
            if (m.kind) c.check((int64_t) idx > lastUsed, "leaf %lu signed after leaf %ld", (unsigned long) idx, (long) lastUsed);
            lastUsed = idx;
            idx++;
        }
        observe();
        return ok;
    }
    bool set(uint32_t k) {
        c.transitions++;
        bool ok = true;
        unsigned ret = 0;
        try { ret = x->setIndex(k); } catch (std::exception &) { ok = false; }
        if (k >= N()) c.check(!ok, "setIndex(%u) accepted, the tree has %lu leaves", k, (unsigned long) N());
        else if (k < idx) {
            if (m.kind) c.check(!ok, "setIndex(%u) rewound a fast signer from %lu", k, (unsigned long) idx);
        } else c.check(ok, "setIndex(%u) refused at index %lu", k, (unsigned long) idx);
        if (ok) { c.check(ret == k, "setIndex(%u) returned %u", k, ret); idx = k; }
        observe();
        return ok;
    }
    void queries() {
        c.check(x->getNumberSignatures() == N(), "number of signatures changed");
        c.check(x->getHeight() == m.h, "height changed");
        c.check(x->getSeed() == m.seed, "seed changed");
        c.check(x->getExtendedSeed() == m.r->extendedSeed(), "extended seed changed");
        x->getAddress(); x->getRoot(); x->getPKSeed(); x->getSKPRF(); x->getSKSeed(); x->getSignatureSize(m.w);
        c.transitions++;
        observe();
    }
};
enum { SIGN, P1, P3, LAST, OVER, BACK, HUGE_, Q, NOPS };
static const char *opname[] = {"sign", "set+1", "set+3", "setLast", "set2^h", "set-1", "set2^32-1", "queries"};
static void apply(Run &r, int op) {
    switch (op) {
        case SIGN: r.sign(); break;
        case P1: r.set(r.idx + 1); break;
        case P3: r.set(r.idx + 3); break;
        case LAST: r.set(r.N() - 1); break;
        case OVER: r.set(r.N()); break;
        case BACK: r.set(r.idx - 1); break;       // wraps to 2^32-1 at index 0
        case HUGE_: r.set(UINT_MAX - 1); break;
        case Q: r.queries(); break;
    }
}
static std::string desc(const Model &m, uint32_t start, const std::vector<int> &ops) {
    std::string s = std::string(m.kind ? "fast" : "basic") + " h=" + std::to_string(m.h) + " w=" + std::to_string(m.w) + " " + hname(m.f) + " from " + std::to_string(start) + ":";
    for (int o : ops) s += std::string(" ") + opname[o];
    return s;
}
static void sequences(int kind, int f, unsigned w, uint32_t start, int first, int depth) {
    add(std::string("seq/") + (kind ? "fast" : "basic") + "/w" + std::to_string(w) + "/from" + std::to_string(start) + "/" + opname[first] + "/d" + std::to_string(depth), [=](Ctx &c) {
        probeHash();
        Model m(kind, 4, f, w);
        std::vector<int> ops(depth, 0);
        ops[0] = first;
        std::unordered_set<uint64_t> states;
        while (true) {
            std::string d = desc(m, start, ops);
            c.at("%s", d.c_str());
            Run r(c, m);
            if (start == 16) { r.set(15); r.sign(); } else if (start) r.set(start);
            for (int o : ops) { apply(r, o); states.insert(r.idx * 64 + (r.lastUsed + 1)); }
            int k = depth - 1;
            while (k > 0 && ++ops[k] == NOPS - 1) ops[k--] = 0;     // queries only inside the index-space search
            if (k == 0) break;
        }
        c.states += states.size();
        c.sample(c.shared);
    });
}
// Every index i, every target k, then sign twice and set again: transitions of the full index graph.
static void graph(int kind, int f, unsigned h, unsigned w, unsigned part, unsigned parts, bool dense) {
    add(std::string("graph/") + (kind ? "fast" : "basic") + "/h" + std::to_string(h) + "/w" + std::to_string(w) + "/" + hname(f) + "/" + std::to_string(part), [=](Ctx &c) {
        probeHash();
        Model m(kind, h, f, w);
        uint32_t N = 1u << h;
        std::vector<uint32_t> I, extra = {N, N + 1, N + 2, 2 * N - 1, 2 * N, 255, 256, 257, 65535, 65536, 65537, 1u << 24, (1u << 24) - 1, 1u << 30, (1u << 31) - 1, 1u << 31, (1u << 31) + 1, UINT_MAX - 1, UINT_MAX, UINT_MAX - N, (1u << 16) | 3, (1u << 24) | 3, 256 + 3};
        if (dense) for (uint32_t i = 0; i <= N; i++) I.push_back(i);
        else for (uint32_t i : {0u, 1u, 2u, 3u, 5u, 7u, 8u, N / 2 - 2, N / 2 - 1, N / 2, N / 2 + 1, N - 9, N - 5, N - 4, N - 3, N - 2, N - 1, N}) I.push_back(i);
        for (size_t n = 0; n < I.size(); n++) {
            if (n % parts != part) continue;
            uint32_t i = I[n];
            c.states++;
            std::vector<uint32_t> K(extra);
            if (dense) for (uint32_t k = 0; k < N; k += (h <= 4 ? 1 : 3)) K.push_back(k);
            for (uint32_t d : {-2u, -1u, 0u, 1u, 2u, 4u, 5u}) K.push_back(i + d);
            K.push_back(N - 1); K.push_back(N - 2); K.push_back(0);
            // all refused ones in a row on one signer, the accepted ones each on a fresh one
            {
                c.at("%s h=%u w=%u at index %u: all refused targets, then sign to the end", kind ? "fast" : "basic", h, w, i);
                Run r(c, m);
                if (i == N) { r.set(N - 1); r.sign(); } else r.set(i);
                for (uint32_t k : K) if (k >= N || (m.kind && k < r.idx)) r.set(k);
                r.queries();
                for (int z = 0; z < 3; z++) r.sign();
            }
            for (uint32_t k : K) {
                if (k >= N || (kind && k < i)) continue;
                c.at("%s h=%u w=%u %s at index %u: setIndex(%u), sign, sign, setIndex(0), setIndex(%u), sign", kind ? "fast" : "basic", h, w, hname(f), i, k, N);
                Run r(c, m);
                if (i == N) { r.set(N - 1); r.sign(); } else r.set(i);
                r.set(k);
                r.sign(); r.sign();
                if (kind) r.set(0);
                r.set(N);
                r.sign();
            }
            c.sample(c.shared);
        }
    });
}
// Straight to the end, then refusals for ever.
static void exhaust(int kind, int f, unsigned h, unsigned w, uint32_t from) {
    add(std::string("exhaust/") + (kind ? "fast" : "basic") + "/h" + std::to_string(h) + "/w" + std::to_string(w) + "/" + hname(f), [=](Ctx &c) {
        probeHash();
        Model m(kind, h, f, w);
        Run r(c, m);
        uint32_t N = 1u << h;
        c.at("%s h=%u w=%u %s: setIndex(%u), sign to the end and beyond", kind ? "fast" : "basic", h, w, hname(f), from);
        r.set(from);
        while (r.idx < N) { r.sign(); c.states++; }
        for (int k = 0; k < 5; k++) r.sign();
        r.set(N); r.sign(); r.set(N + 1); r.sign(); r.set(UINT_MAX); r.sign();
        if (kind) { r.set(0); r.set(N - 1); r.sign(); }
        r.queries();
        c.sample(c.shared);
    });
}
// Index bytes carrying over 65535 -> 65536 in a tall tree.
static void tall(int kind) {
    add(std::string("tall/h18/") + (kind ? "fast" : "basic"), [=](Ctx &c) {
        probeHash();
        int f = 1; unsigned h = 18, w = 2;
        Bytes seed = seedN(1818);
        auto x = kind ? std::unique_ptr<XmssBase>(mkFast(seed, h, f, w)) : mkBasic(seed, h, f, w);
        Bytes pk = x->getPK();
        c.at("%s h=18 w=2 around index 65536", kind ? "fast" : "basic");
        uint32_t i = kind ? 65534 : 65535;
        x->setIndex(i);
        for (int n = 0; n < (kind ? 4 : 2); n++, i++) {
            c.states++; c.transitions++; c.traces++;
            c.check(x->getIndex() == i, "index %u, expected %u", x->getIndex(), i);
            Bytes m = msgN(20, n), s = x->sign(m);
            uint32_t si = (uint32_t) s[0] << 24 | s[1] << 16 | s[2] << 8 | s[3];
            c.check(si == i, "signature carries index %u, expected %u", si, i);
            c.check(XmssBase::verify(m, s, pk, w), "signature at index %u does not verify", i);
            c.check(x->getIndex() == i + 1, "index after signing %u, expected %u", x->getIndex(), i + 1);
            c.check(x->getRemainingSignatures() == (1u << 18) - i - 1, "remaining signatures wrong at %u", i);
        }
        for (uint32_t k : {1u << 18, 65535u, 0u, UINT_MAX}) {
            if (!kind && k < (1u << 18)) continue;
            bool ok = true;
            try { x->setIndex(k); } catch (std::exception &) { ok = false; }
            c.check(!ok, "setIndex(%u) accepted at %u", k, i);
            c.check(x->getIndex() == i, "refused setIndex(%u) moved the index", k);
        }
        c.sample(c.shared);
    });
}
// The fast signer of every height at every index edge, on a blank traversal state: the leaf it names, the index it
// moves to, refusal of rewinds and of the end. (What the signature says about the tree is not looked at here.)
static void edge(unsigned h, unsigned part, unsigned parts) {
    add("edge/fast/h" + std::to_string(h) + "/" + std::to_string(part), [=](Ctx &c) {
        uint32_t N = 1u << h;
        TallFast proto(seedN(77), 1);
        if (!proto.preset(h, 0)) { c.extra["skipped"]++; return; }
        auto E = edges(N);
        E.push_back(N);
        auto at = [&](uint32_t i) { TallFast x(proto); c.check(x.preset(h, i), "cannot place the signer"); return x; };
        auto idxOf = [](const Bytes &s) { return (uint32_t) s[0] << 24 | s[1] << 16 | s[2] << 8 | s[3]; };
        auto refusal = [&](TallFast &x, uint32_t k) {
            uint32_t i = x.getIndex();
            Bytes sk = x.getSK();
            bool ok = true;
            try { x.setIndex(k); } catch (std::exception &) { ok = false; }
            c.transitions++;
            c.check(!ok, "at index %u: setIndex(%u) accepted", i, k);
            c.check(x.getSK() == sk && x.getIndex() == i, "the refused setIndex(%u) changed the key", k);
        };
        for (size_t n = part; n < E.size(); n += parts) {
            uint32_t i = E[n];
            c.states++;
            c.at("fast h=%u at index %u: sign, sign, refused rewinds", h, i);
            TallFast x = at(i);
            uint32_t cur = i;
            for (int k = 0; k < 2; k++) {
                Bytes s, sk = x.getSK();
                bool ok = true;
                try { s = x.sign(msgN(9, i + k)); } catch (std::exception &) { ok = false; }
                c.transitions++;
                c.check(ok == (cur < N), ok ? "signed at index %u of an exhausted tree" : "refused to sign at index %u", cur);
                if (!ok) { c.check(x.getSK() == sk, "the refused signature changed the key"); break; }
                c.check(s.size() == x.getSignatureSize() && idxOf(s) == cur, "the signature names leaf %u, expected %u", idxOf(s), cur);
                cur++;
                Bytes now = x.getSK();
                c.check(x.getIndex() == cur && idxOf(now) == cur && !memcmp(now.data() + 4, sk.data() + 4, 128), "index %u after signing, expected %u, or other key bytes changed", x.getIndex(), cur);
                c.check(x.getRemainingSignatures() == N - cur, "%u signatures remain", x.getRemainingSignatures());
            }
            for (uint32_t k : E) if (k < cur) refusal(x, k);
            for (uint32_t k : {N, N + 1, N + cur, 2 * N - 1, 0x80000000u | (cur + 1), UINT_MAX, UINT_MAX - 1}) if (k >= N) refusal(x, k);
            if (i < N) for (uint32_t k = i; k < N && k < i + 3; k++) {
                c.at("fast h=%u at index %u: setIndex(%u), sign", h, i, k);
                TallFast y = at(i);
                bool ok = true;
                unsigned r = 0;
                try { r = y.setIndex(k); } catch (std::exception &) { ok = false; }
                c.transitions++;
                c.check(ok && r == k && y.getIndex() == k, "setIndex(%u): %s, index %u", k, ok ? "accepted" : "refused", y.getIndex());
                c.check(idxOf(y.sign(msgN(3))) == k && y.getIndex() == k + 1, "signature at %u", k);
            }
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        if (ref::g_fast) {
            for (unsigned h = 4; h <= 30; h += 2) for (unsigned p = 0; p < (h > 16 ? 4u : 1u); p++) edge(h, p, h > 16 ? 4 : 1);
            if (th) { tall(1); tall(0); }
            for (int kind = 0; kind < 2; kind++)
                for (uint32_t s : {0u, 5u, 12u, 15u, 16u}) for (int o = 0; o < NOPS - 1; o++) sequences(kind, 1, 2, s, o, th ? (kind ? 6 : 5) : 4);
            for (int kind = 0; kind < 2; kind++) for (unsigned w : {2u, 16u}) for (int f = 0; f < 3; f++) for (unsigned p = 0; p < 4; p++) if (th || f == 1 || w == 2) graph(kind, f, 4, w, p, 4, true);
            for (unsigned p = 0; p < 16; p++) { graph(1, 1, 6, 2, p, 16, th); graph(0, 1, 6, 2, p, 16, th); }
            for (unsigned p = 0; p < 18 && th; p++) graph(1, 2, 8, 2, p, 18, false);
            if (th) for (unsigned p = 0; p < 9; p++) { graph(0, 2, 8, 2, p, 9, false); graph(1, 2, 10, 2, p, 9, false); graph(1, 0, 8, 16, p, 9, false); }
            for (int f = 0; f < 3; f++) for (unsigned w : {2u, 4u, 16u}) { exhaust(1, f, 6, w, 0); exhaust(1, f, 8, w, 3); exhaust(0, f, 6, w, 7); }
            exhaust(1, 1, 10, 2, 250); exhaust(1, 0, 12, 2, 4000); exhaust(0, 1, 10, 2, 1000);
            exhaust(1, 1, 6, 256, 0);
            if (th) { exhaust(1, 1, 14, 2, 0); exhaust(1, 2, 16, 2, 65000); exhaust(0, 1, 8, 2, 0); }
        } else {
            for (int kind = 0; kind < 2; kind++) for (int f = 0; f < 3; f++) { exhaust(kind, f, 4, 16, 0); if (th || f == 2) graph(kind, f, 4, 16, 0, 6, true); }
            exhaust(1, 1, 8, 16, 100);
            if (th) for (int f = 0; f < 3; f++) { exhaust(1, f, 10, 16, 0); for (unsigned p = 1; p < 4; p++) graph(1, f, 4, 16, p, 4, true); }
        }
    });
}

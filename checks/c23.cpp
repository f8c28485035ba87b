// C23: the Rust signers and verifier against the C++ ones, in lock step.
#include <qrl.hpp>
#include <rs.hpp>
using namespace mc;
static const char *KN[] = {"basic", "fast"};
// Both implementations of one signer. Every operation runs on both and every observable is compared.
struct Both {
    Ctx &c;
    int kind; unsigned h, w; int f;
    std::unique_ptr<XmssBase> x;
    rs::Signer r;
    unsigned n = 0;
    Both(Ctx &c, int kind, const Bytes &seed, unsigned h, int f, unsigned w)
        : c(c), kind(kind), h(h), w(w), f(f), x(kind ? std::unique_ptr<XmssBase>(mkFast(seed, h, f, w)) : mkBasic(seed, h, f, w)), r(kind, seed, h, f, w) {
        c.check(r.rc == rs::OK, "the Rust library refuses to create the signer (status %d)", r.rc);
    }
    void num(const char *what, int64_t rust, uint64_t cpp) { c.check(rust >= 0 && (uint64_t) rust == cpp, "%s: C++ %lu, Rust %ld", what, (unsigned long) cpp, (long) rust); }
    void bytes(const char *what, rs::R got, const Bytes &cpp) {
        c.check(got.ok(), "%s: Rust status %d", what, got.rc);
        c.check(got.v == cpp, "%s: C++ %.80s, Rust %.80s", what, ref::hex(cpp).c_str(), ref::hex(got.v).c_str());
    }
    void observe() {
        num("index", r.num(0), x->getIndex());
        num("remaining signatures", r.num(3), x->getRemainingSignatures());
        bytes("secret key", r.get(1), x->getSK());
    }
    void all() {
        observe();
        num("height", r.num(1), x->getHeight());
        num("number of signatures", r.num(2), x->getNumberSignatures());
        for (unsigned v : {2u, 4u, 16u, 256u}) num("signature size", r.num(4, v), x->getSignatureSize(v));
        bytes("public key", r.get(0), x->getPK());
        bytes("seed", r.get(2), x->getSeed());
        bytes("extended seed", r.get(3), x->getExtendedSeed());
        bytes("address", r.get(4), x->getAddress());
        bytes("root", r.get(5), x->getRoot());
        bytes("public seed", r.get(6), x->getPKSeed());
        bytes("secret seed", r.get(7), x->getSKSeed());
        bytes("PRF key", r.get(8), x->getSKPRF());
        bytes("descriptor", r.get(9), x->getDescriptorBytes());
    }
    Bytes sign(const Bytes &m, bool look = true) {
        Bytes s;
        bool ok = true;
        try { s = x->sign(m); } catch (std::exception &) { ok = false; }
        auto g = r.sign(m);
        c.transitions++;
        c.check(g.ok() == ok, "sign: C++ %s, Rust status %d", ok ? "signs" : "refuses", g.rc);
        if (ok) {
            size_t d = 0;
            while (d < s.size() && d < g.v.size() && s[d] == g.v[d]) d++;
            c.check(g.v == s, "signatures differ: sizes %zu and %zu, first difference at byte %zu", s.size(), g.v.size(), d);
            c.traces++;
        }
        if (look) observe();
        return s;
    }
    void set(uint32_t k) {
        unsigned ret = 0; uint32_t got = 0;
        bool ok = true;
        try { ret = x->setIndex(k); } catch (std::exception &) { ok = false; }
        int g = r.setIndex(k, got);
        c.transitions++;
        c.check((g == rs::OK) == ok, "set index %u: C++ %s, Rust status %d", k, ok ? "accepts" : "refuses", g);
        if (ok) c.check(ret == got, "set index %u: C++ returns %u, Rust %u", k, ret, got);
        observe();
    }
    // both verifiers must give this verdict
    void verdict(const Bytes &m, const Bytes &s, const Bytes &k, unsigned v, bool wellFormed = true) { verify(c, m, s, k, v, wellFormed); }
    static bool verify(Ctx &c, const Bytes &m, const Bytes &s, const Bytes &k, unsigned v, bool wellFormed = true) {
        bool changed = false;
        Bytes m1 = m;
        bool a = XmssBase::verify(m1, s, k, v);
        int b = rs::verify(m, s, k, v, &changed);
        c.evals++; c.distinctN++;
        c.check((b == rs::OK) == a, "verify: C++ says %s, Rust status %d", a ? "valid" : "invalid", b);
        if (wellFormed) c.check(b != rs::PANIC, "verify: Rust panics");
        c.check(m1 == m, "C++ verification changed the message");
        return a;
    }
};
static std::string nm(const char *k, int f, unsigned h, unsigned w) { return std::string(k) + "/" + hname(f) + "/h" + std::to_string(h) + "/w" + std::to_string(w); }
// All leaves in order, to the end and beyond; every observable along the way.
static void walk(int kind, int f, unsigned h, unsigned w, uint32_t from, unsigned len0, uint64_t sd) {
    add(nm("walk", f, h, w) + "/" + KN[kind] + "/len" + std::to_string(len0), [=](Ctx &c) {
        Bytes seed = sd == 0 ? Bytes(48, 0) : sd == 1 ? Bytes(48, 255) : seedN(2300 + sd);
        Both b(c, kind, seed, h, f, w);
        uint32_t N = 1u << h;
        c.at("%s %s h=%u w=%u from %u, message lengths from %u", KN[kind], hname(f), h, w, from, len0);
        b.all();
        if (from) b.set(from);
        Bytes pk = b.x->getPK();
        for (uint32_t i = from; i < N; i++) {
            Bytes m = msgN(len0 + i - from, i);
            c.at("%s %s h=%u w=%u leaf %u, message of %zu bytes", KN[kind], hname(f), h, w, i, m.size());
            Bytes s = b.sign(m);
            c.states++;
            if (i % 3 == 0 || h == 4) c.check(Both::verify(c, m, s, pk, w), "the signature is not valid");
        }
        for (int k = 0; k < 3; k++) { b.sign(msgN(5)); b.set(N); b.set(k ? N - 1 : 0); }
        b.all();
        c.sample(c.shared);
    });
}
// Every operation sequence to the depth.
enum { SIGN, SAME, P1, P3, LAST, OVER, BACK, NOPS };
static void sequences(int kind, int f, unsigned w, uint32_t start, int first, int depth) {
    add(nm("seq", f, 4, w) + "/" + KN[kind] + "/from" + std::to_string(start) + "/" + std::to_string(first), [=](Ctx &c) {
        std::vector<int> ops(depth, 0);
        ops[0] = first;
        std::unordered_set<uint64_t> states;
        Bytes seed = seedN(2310);
        while (true) {
            std::string d;
            for (int o : ops) d += std::to_string(o);
            c.at("%s %s h=4 w=%u from %u, operations %s (0 sign, 1 same, 2 +1, 3 +3, 4 last, 5 2^h, 6 -1)", KN[kind], hname(f), w, start, d.c_str());
            Both b(c, kind, seed, 4, f, w);
            if (start) b.set(start);
            for (int o : ops) {
                uint32_t i = b.x->getIndex();
                switch (o) {
                    case SIGN: b.sign(msgN(9 + b.n, b.n)); b.n++; break;
                    case SAME: b.set(i); break;
                    case P1: b.set(i + 1); break;
                    case P3: b.set(i + 3); break;
                    case LAST: b.set(15); break;
                    case OVER: b.set(16); break;
                    case BACK: b.set(i - 1); break;
                }
                states.insert(b.x->getIndex() * 8 + o);
            }
            int k = depth - 1;
            while (k > 0 && ++ops[k] == NOPS) ops[k--] = 0;
            if (k == 0) break;
        }
        c.states += states.size();
        c.sample(c.shared);
    });
}
// Every (index, target) of a small tree, signing twice afterwards.
static void graph(int kind, int f, unsigned w, unsigned part, unsigned parts) {
    add(nm("graph", f, 4, w) + "/" + KN[kind] + "/" + std::to_string(part), [=](Ctx &c) {
        Bytes seed = seedN(2320);
        for (uint32_t i = part; i <= 16; i += parts) {
            c.states++;
            for (uint32_t k = 0; k < 16; k++) {
                c.at("%s %s h=4 w=%u index %u: set %u, sign, sign", KN[kind], hname(f), w, i, k);
                Both b(c, kind, seed, 4, f, w);
                if (i == 16) { b.set(15); b.sign(msgN(3)); } else b.set(i);
                for (uint32_t z : {16u, 17u, 32u, 255u, 256u, 65536u, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x01000003u}) if (k == 0) b.set(z);
                b.set(k); b.sign(msgN(30 + k, k)); b.sign(msgN(3));
            }
        }
        c.sample(c.shared);
    });
}
static Bytes pkOf(int f, unsigned h, const ref::Node &root, const ref::Node &pub) {
    Bytes pk = {(uint8_t) f, (uint8_t) (h / 2), 0};
    pk.insert(pk.end(), root.begin(), root.end());
    pk.insert(pk.end(), pub.begin(), pub.end());
    return pk;
}
// Verification in trees of every height: one real leaf, arbitrary siblings.
static void synthetic(int f, unsigned h, unsigned w, bool full) {
    add(nm("synthetic", f, h, w), [=](Ctx &c) {
        ref::Xmss r(seedN(2330 + f), h, f, w, false);
        uint64_t N = 1ULL << h;
        std::vector<uint64_t> I = {0, 1, N / 2 - 1, N / 2, N - 2, N - 1, 255, 256, 65535, 65536, (1u << 24) - 1, 1u << 24, 0x5555555555 % N};
        if (full) for (unsigned b = 0; b < h; b++) { I.push_back(1ULL << b); I.push_back((N - 1) ^ (1ULL << b)); }
        std::sort(I.begin(), I.end());
        I.erase(std::unique(I.begin(), I.end()), I.end());
        for (uint64_t i64 : I) {
            if (i64 >= N) continue;
            uint32_t i = i64;
            ref::Node n = r.leaf(i);
            std::vector<ref::Node> path(h);
            for (unsigned l = 0; l < h; l++) {
                Bytes p = msgN(32, i * 64ULL + l);
                memcpy(path[l].data(), p.data(), 32);
                n = (i >> l) & 1 ? r.Hn(path[l], n, 2, 0, l, i >> (l + 1)) : r.Hn(n, path[l], 2, 0, l, i >> (l + 1));
            }
            Bytes pk = pkOf(f, h, n, r.pub), m = msgN(i % 80, h), s(4), R = msgN(32, i);
            ref::Hasher::word(s.data(), i);
            s.insert(s.end(), R.begin(), R.end());
            Bytes d = r.hmsg(R.data(), n, i, m), o = r.otsSign(i, d.data());
            s.insert(s.end(), o.begin(), o.end());
            for (auto &p : path) s.insert(s.end(), p.begin(), p.end());
            c.at("%s h=%u w=%u index %u, synthetic path", hname(f), h, w, i);
            c.check(Both::verify(c, m, s, pk, w), "a valid signature is rejected");
            for (unsigned l = 0; l < h; l += full ? 1 : 1 + h / 4) { Bytes t = s; t[t.size() - 32 * (h - l)] ^= 1; Both::verify(c, m, t, pk, w); }
            for (unsigned b : {0u, h - 1, h, 31u}) { Bytes t = s; ref::Hasher::word(t.data(), i ^ (1u << b)); Both::verify(c, m, t, pk, w); }
        }
        c.sample(c.shared);
    });
}
// Tampered triples: every byte of the signature, key and message; lengths; parameters; descriptors.
static void tamper(int f, unsigned w, unsigned part, unsigned parts, bool bits) {
    add(nm("tamper", f, 4, w) + "/" + std::to_string(part), [=](Ctx &c) {
        ref::Xmss r(seedN(2340), 4, f, w);
        Bytes m = msgN(50, f), s = r.sign(5, m), pk = r.pk();
        c.check(Both::verify(c, m, s, pk, w), "a valid signature is rejected");
        unsigned n = 0;
        auto turn = [&] { return n++ % parts == part; };
        for (size_t p = 0; p < s.size(); p++) for (int v : {1, 0x80, 0x3c, 0xff}) {
            if (!bits && v != (1 << (p % 8)) && p > 36) continue;
            if (!turn()) continue;
            c.at("%s w=%u signature byte %zu ^ %d", hname(f), w, p, v);
            Bytes t = s; t[p] ^= v; Both::verify(c, m, t, pk, w);
        }
        for (size_t p = 3; p < 67; p++) for (int v : {1, 0x80, 0xff}) {
            if (!turn()) continue;
            c.at("%s w=%u key byte %zu ^ %d", hname(f), w, p, v);
            Bytes t = pk; t[p] ^= v; Both::verify(c, m, s, t, w);
        }
        for (size_t p = 0; p < m.size(); p++) if (turn()) { c.at("%s w=%u message byte %zu", hname(f), w, p); Bytes t = m; t[p] ^= 4; Both::verify(c, t, s, pk, w); }
        for (size_t l = 0; l < 120; l++) if (l != m.size() && turn()) { c.at("%s w=%u message of %zu bytes", hname(f), w, l); Bytes t = m; t.resize(l); Both::verify(c, t, s, pk, w); }
        for (int v = 0; v < 256; v++) if (turn()) { c.at("%s w=%u third key byte %d", hname(f), w, v); Bytes t = pk; t[2] = v; Both::verify(c, m, s, t, w, false); }
        for (unsigned a = 0; a < 16; a++) for (unsigned b = 0; b < 16; b++) if (turn()) {   // (an address format the Rust library does not know is not well formed)
            unsigned d0 = part % 2 ? a << 4 | f : a; 
            c.at("%s w=%u descriptor %u %u", hname(f), w, d0, b);
            Bytes t = pk; t[0] = d0; t[1] = b; Both::verify(c, m, s, t, w, false);
        }
        for (size_t l = 0; l < s.size() + 70; l++) if (l != s.size() && turn()) { c.at("%s w=%u signature of %zu bytes", hname(f), w, l); Bytes t = s; t.resize(l); Both::verify(c, m, t, pk, w, false); }
        for (size_t l = 0; l < 140; l++) if (l != 67 && turn()) { c.at("%s w=%u key of %zu bytes", hname(f), w, l); Bytes t = pk; t.resize(l); Both::verify(c, m, s, t, w, false); }
        for (unsigned v = 0; v < 300; v++) if (turn()) { c.at("%s signature for w=%u verified with w=%u", hname(f), w, v); Both::verify(c, m, s, pk, v, false); }
        c.sample(c.shared);
    });
}
// Message lengths across the sponge blocks.
static void lengths(int f, unsigned part, unsigned parts, unsigned max) {
    add(nm("lengths", f, 8, 16) + "/" + std::to_string(part), [=](Ctx &c) {
        Both b(c, 1, seedN(2350 + part), 8, f, 16);
        Bytes pk = b.x->getPK();
        for (unsigned l = part; l < max; l += parts) {
            if (b.x->getIndex() == 255) break;
            Bytes m = msgN(l, l);
            c.at("%s message of %u bytes, leaf %u", hname(f), l, b.x->getIndex());
            Bytes s = b.sign(m, false);
            c.check(Both::verify(c, m, s, pk, 16), "the signature is not valid");
            c.states++;
        }
        if (part == 0) for (size_t l : {65535u, 65536u, 70001u, 1u << 20, 3000017u}) {
            Bytes m = msgN(l, l);
            c.at("%s message of %zu bytes", hname(f), l);
            Bytes s = b.sign(m);
            c.check(Both::verify(c, m, s, pk, 16), "the signature is not valid");
            m[l - 1] ^= 1;
            c.check(!Both::verify(c, m, s, pk, 16), "a changed message is valid");
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (int f = 0; f < 3; f++) {
            lengths(f, 0, 4, 1000); lengths(f, 1, 4, 1000); lengths(f, 2, 4, 1000); lengths(f, 3, 4, 1000);
            for (int kind = 0; kind < 2; kind++) {
                for (unsigned w : {2u, 4u, 16u, 256u}) walk(kind, f, 4, w, 0, w, w == 16 ? 0 : w == 4 ? 1 : w);
                walk(kind, f, 6, 16, kind ? 0 : 56, 100, 7);
                if (th) { walk(kind, f, 8, 16, kind ? 0 : 200, 10, 8); walk(kind, f, 6, 4, 0, 10, 8); for (unsigned p = 0; p < 4; p++) if (kind) walk(kind, f, 10, 2, 256 * p, 200, 9); }
                for (unsigned p = 0; p < 4; p++) if (th || (kind ? f == 1 : f == 0)) graph(kind, f, th ? 16 : kind ? 4 : 2, p, 4);
                for (uint32_t s : {0u, 11u}) for (int o = 0; o < NOPS; o++) if (th || f == (kind ? 1 : 2)) sequences(kind, f, 4, s, o, th ? 4 : kind ? 3 : 2);
            }
            for (unsigned h = 4; h <= 30; h += 2) synthetic(f, h, 16, th);
            for (unsigned w : {2u, 4u, 256u}) { synthetic(f, 30, w, th); if (th) synthetic(f, 16, w, true); }
            for (unsigned p = 0; p < 4; p++) { tamper(f, 16, p, 4, th); if (th) { tamper(f, 4, p, 4, true); tamper(f, 2, p, 4, true); tamper(f, 256, p, 4, false); } }
        }
        // the Rust side of the configuration range: signers from extended seeds
        add("extended", [=](Ctx &c) {
            for (int f = 0; f < 3; f++) for (unsigned h : {4u, 6u}) for (uint64_t sd = 0; sd < 3; sd++) {
                Bytes e = {(uint8_t) f, (uint8_t) (h / 2), 0}, s = seedN(2360 + sd);
                e.insert(e.end(), s.begin(), s.end());
                c.at("extended seed %s", ref::hex(e).c_str());
                XmssFast x(e);
                rs::Signer r(e);
                c.evalDistinct();
                c.check(r.rc == rs::OK, "Rust refuses the extended seed");
                c.check(r.get(0).v == x.getPK() && r.get(1).v == x.getSK() && r.get(3).v == x.getExtendedSeed() && r.get(4).v == x.getAddress(), "keys differ");
                Bytes m = msgN(20, sd);
                c.check(r.sign(m).v == x.sign(m), "signatures differ");
            }
            c.sample(c.shared);
        });
    });
}

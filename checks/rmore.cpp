// The Rust side of properties C01-C04, C06, C07, C13 and C16: VT_SECTION names the property.
#include <qrl.hpp>
#include <rs.hpp>
#include <tall.hpp>
#include <set>
#include <thread>
using namespace mc;
static const char *KN[] = {"basic", "fast", "basic (defaults)", "fast (defaults)"};
static std::string nm(const char *k, int kind, int f, unsigned h, unsigned w) { return std::string("rust/") + k + "/" + KN[kind] + "/" + hname(f) + "/h" + std::to_string(h) + "/w" + std::to_string(w); }
static Bytes must(Ctx &c, const rs::R &r, const char *what) { c.check(r.ok(), "%s: Rust status %d", what, r.rc); return r.v; }
static void made(Ctx &c, const rs::Signer &s) { c.check(s.rc == rs::OK, "the signer is refused (status %d)", s.rc); }
static uint32_t word(const Bytes &s) { return s.size() < 4 ? ~0u : (uint32_t) s[0] << 24 | s[1] << 16 | s[2] << 8 | s[3]; }

// C01
static void signs(int kind, int f, unsigned h, unsigned w, size_t len0, uint32_t step) {
    add(nm("signs", kind, f, h, w) + "/m" + std::to_string(len0), [=](Ctx &c) {
        c.at("Rust %s %s h=%u w=%u: creation", KN[kind], hname(f), h, w);
        rs::Signer x(kind, seedN(100 + h + f), h, f, w);
        made(c, x);
        Bytes pk = must(c, x.get(0), "public key");
        for (uint32_t i = 0; i < (1u << h); i += step) {
            Bytes m = msgN(len0 + i, i);
            c.at("Rust %s %s h=%u w=%u index %u, message of %zu bytes", KN[kind], hname(f), h, w, i, m.size());
            uint32_t got;
            if (step > 1) c.check(x.setIndex(i, got) == rs::OK, "set index refused");
            Bytes s = must(c, x.sign(m), "sign");
            c.check((int64_t) s.size() == x.num(4, w), "signature of %zu bytes, announced %ld", s.size(), (long) x.num(4, w));
            c.check(word(s) == i, "the signature begins with index %u", word(s));
            int v = rs::verify(m, s, pk, w);
            c.check(v == rs::OK, "not accepted (status %d)", v);
            c.states++; c.transitions++;
        }
        c.sample(c.shared);
    });
}
static void bytes(int f, unsigned h, unsigned w) {
    add(nm("bytes", 1, f, h, w), [=](Ctx &c) {
        rs::Signer x(1, seedN(130 + h), h, f, w);
        made(c, x);
        Bytes pk = must(c, x.get(0), "public key");
        uint32_t N = 1u << h, got;
        std::set<uint32_t> I{N - 2, N - 1};
        for (uint32_t b = 64; b < N; b += 64) for (uint32_t d : {b - 1, b}) if (b % 256 == 0 || b < 320) I.insert(d);
        for (uint32_t i : I) {
            Bytes m = msgN(7 + i % 5, i);
            c.at("Rust fast %s h=%u w=%u index %u after a jump", hname(f), h, w, i);
            c.check(x.setIndex(i, got) == rs::OK, "set index refused");
            Bytes s = must(c, x.sign(m), "sign");
            c.check(word(s) == i, "the signature begins with index %u", word(s));
            c.check(rs::verify(m, s, pk, w) == rs::OK, "not accepted");
            c.states++; c.transitions++;
        }
        c.sample(c.shared);
    });
}
static void lengths(int f, unsigned part, unsigned parts, bool th) {
    add(nm("lengths", 1, f, 4, 16) + "/" + std::to_string(part), [=](Ctx &c) {
        std::vector<size_t> L;
        for (size_t n = 0; n <= (th ? 700 : 300); n++) L.push_back(n);
        for (size_t p = 512; p <= (1 << 20); p *= 2) for (int d = -1; d <= 1; d++) L.push_back(p + d);
        if (th) L.push_back((1 << 24) + 1);
        std::unique_ptr<rs::Signer> x;
        Bytes pk;
        for (size_t k = part, n = 0; k < L.size(); k += parts, n++) {
            if (n % 16 == 0) { x.reset(new rs::Signer(1, seedN(120), 4, f, 16)); made(c, *x); pk = must(c, x->get(0), "public key"); }
            c.at("Rust fast %s h=4 w=16 index %zu, message of %zu bytes", hname(f), n % 16, L[k]);
            Bytes m = msgN(L[k], k), s = must(c, x->sign(m), "sign");
            c.check(rs::verify(m, s, pk, 16) == rs::OK, "not accepted");
            c.states++; c.transitions++;
        }
        c.sample(c.shared);
    });
}
// C02
enum { SIGN, SAME, P1, P3, LAST, OVER, BACK, NOPS };
struct Run {
    Ctx &c; int kind; unsigned h, w; ref::Xmss &r; rs::Signer x; uint64_t idx = 0; int64_t last = -1; unsigned n = 0;
    Run(Ctx &c, int kind, ref::Xmss &r, unsigned h, int f, unsigned w) : c(c), kind(kind), h(h), w(w), r(r), x(kind, r.seed, h, f, w) { made(c, x); }
    uint64_t N() const { return 1ULL << h; }
    void observe() {
        c.check(x.num(0) == (int64_t) idx, "index is %ld, the history leads to %lu", (long) x.num(0), (unsigned long) idx);
        c.check(x.num(3) == (int64_t) (N() - idx), "%ld signatures remain", (long) x.num(3));
        c.check(must(c, x.get(1), "secret key") == r.sk(idx), "secret key differs from the one of index %lu", (unsigned long) idx);
    }
    void sign() {
        Bytes m = msgN(3 + n % 9, 50 + n); n++;
        auto s = x.sign(m);
        c.transitions++;
        if (idx >= N()) c.check(s.rc == rs::ERR, "status %d although all leaves are used", s.rc);
        else {
            c.check(s.ok(), "refused to sign at index %lu (status %d)", (unsigned long) idx, s.rc);
            c.check(s.v == r.sign(idx, m), "the signature is not the one of leaf %lu and this message", (unsigned long) idx);
            c.check(!kind || (int64_t) idx > last, "leaf %lu signed after %ld", (unsigned long) idx, (long) last);
            last = idx++; c.traces++;
        }
        observe();
    }
    void set(uint32_t k) {
        uint32_t got = 0;
        int g = x.setIndex(k, got);
        c.transitions++;
        if (k >= N()) c.check(g == rs::ERR, "set index %u: status %d, the tree has %lu leaves", k, g, (unsigned long) N());
        else if (k < idx) { c.check(!kind || g == rs::ERR, "set index %u from %lu: status %d", k, (unsigned long) idx, g); }
        else c.check(g == rs::OK, "set index %u refused at %lu (status %d)", k, (unsigned long) idx, g);
        if (g == rs::OK) { c.check(got == k, "set index %u returned %u", k, got); idx = k; }
        observe();
    }
};
static void sequences(int kind, int f, unsigned w, uint32_t start, int first, int depth) {
    add(nm("seq", kind, f, 4, w) + "/from" + std::to_string(start) + "/" + std::to_string(first), [=](Ctx &c) {
        ref::Xmss r(seedN(2000), 4, f, w);
        std::vector<int> ops(depth, 0);
        ops[0] = first;
        std::unordered_set<uint64_t> states;
        while (true) {
            std::string d;
            for (int o : ops) d += std::to_string(o);
            c.at("Rust %s %s h=4 w=%u from %u, operations %s (0 sign, 1 same, 2 +1, 3 +3, 4 last, 5 2^h, 6 -1)", KN[kind], hname(f), w, start, d.c_str());
            Run x(c, kind, r, 4, f, w);
            if (start == 16) { x.set(15); x.sign(); } else if (start) x.set(start);
            for (int o : ops) {
                switch (o) {
                    case SIGN: x.sign(); break;
                    case SAME: x.set(x.idx); break;
                    case P1: x.set(x.idx + 1); break;
                    case P3: x.set(x.idx + 3); break;
                    case LAST: x.set(15); break;
                    case OVER: x.set(16); break;
                    case BACK: x.set(x.idx - 1); break;
                }
                states.insert(x.idx * 64 + x.last + 1);
            }
            int k = depth - 1;
            while (k > 0 && ++ops[k] == NOPS) ops[k--] = 0;
            if (k == 0) break;
        }
        c.states += states.size();
        c.sample(c.shared);
    });
}
static void targets(int kind, int f, unsigned h, unsigned w) {
    add(nm("targets", kind, f, h, w), [=](Ctx &c) {
        ref::Xmss r(seedN(2001), h, f, w);
        Run x(c, kind, r, h, f, w);
        uint32_t N = 1u << h;
        for (uint32_t i : {0u, 1u, N / 2, N - 2, N - 1, N}) {
            c.at("Rust %s %s h=%u w=%u index %u", KN[kind], hname(f), h, w, i);
            if (i < N) x.set(i); else x.sign();
            for (uint32_t k : {N, N + 1, 2 * N - 1, 2 * N, 255u, 256u, 257u, 65535u, 65536u, 65537u, 1u << 24, (1u << 24) + 3, 1u << 30, 1u << 31, (1u << 31) + 1, UINT32_MAX, UINT32_MAX - 1, 0x10000u | i, 0x1000000u | i}) if (k >= N) x.set(k);
            if (kind) for (uint32_t k : {0u, 1u, i - 1, i / 2}) if (k < i) x.set(k);
            c.states++;
        }
        for (int k = 0; k < 3; k++) { x.sign(); x.set(N); if (kind) x.set(0); }
        c.sample(c.shared);
    });
}
// The index and the signing primitives at every index edge of every height; the trees are never built.
static void tall(int f, unsigned h, unsigned w) {
    add(nm("tall", 1, f, h, w), [=](Ctx &c) {
        ref::Xmss r(seedN(2002), h, f, w, false);
        uint32_t N = 1u << h;
        auto E = edges(N);
        Bytes sk0(132, 0x5a);
        std::copy(r.skSeed.begin(), r.skSeed.end(), sk0.begin() + 4);
        std::copy(r.skPrf.begin(), r.skPrf.end(), sk0.begin() + 36);
        std::copy(r.pub.begin(), r.pub.end(), sk0.begin() + 68);
        ref::Node root; std::fill(root.begin(), root.end(), 0x5a);
        auto at = [&](uint32_t i) { Bytes s = sk0; ref::Hasher::word(s.data(), i); return s; };
        for (uint32_t i : E) {
            c.at("Rust h=%u index %u: index arithmetic", h, i);
            c.states++;
            uint32_t got = 0;
            Bytes sk = at(i);
            c.check(rs_base(h, sk.data(), 3, 0, &got) == 0 && got == i, "index is %u", got);
            c.check(rs_base(h, sk.data(), 1, 0, &got) == 0 && got == N, "%u signatures in all", got);
            c.check(rs_base(h, sk.data(), 2, 0, &got) == 0 && got == N - i, "%u signatures remain", got);
            sk = at(5 % N);
            c.check(rs_base(h, sk.data(), 0, i, &got) == 0 && got == i && sk == at(i), "set index to %u: returned %u, key %s", i, got, ref::hex(sk.data(), 4).c_str());
            c.transitions++;
            for (uint32_t k : {N, N + 1, N + i, 2 * N - 1, 0x80000000u | (i + 1), UINT32_MAX, UINT32_MAX - 1}) if (k >= N) {
                sk = at(i);
                c.check(rs_base(h, sk.data(), 0, k, &got) == rs::ERR && sk == at(i), "set index to %u accepted, or the key changed", k);
                c.check(rs_tall(h, f, w, sk.data(), k, nullptr, UINT32_MAX, nullptr) == rs::ERR && sk == at(i), "the fast update to %u is accepted, or the key changed", k);
            }
            for (uint32_t k : {i - 1, i / 2, 0u, i & ~0xffu, i & ~0xffffu, i ^ 1, i - 255, i - 256, i - 65536}) if (k < i) { sk = at(i); c.check(rs_tall(h, f, w, sk.data(), k, nullptr, UINT32_MAX, nullptr) == rs::ERR && sk == at(i), "the fast signer rewinds to %u", k); }
            for (uint32_t k : {i, i + 1, i + 2}) if (k < N) {
                c.at("Rust fast %s h=%u w=%u at index %u: to %u, sign", hname(f), h, w, i, k);
                sk = at(i);
                Bytes m = msgN(k % 50, k);
                RsOut *o = nullptr;
                int rc = rs_tall(h, f, w, sk.data(), k == i && i % 2 ? ~0ull : k, m.data(), m.size(), &o);
                rs::R s = rs::take(rc, o);
                c.transitions++;
                c.check(s.ok(), "status %d", s.rc);
                Bytes a(32); ref::Hasher::word(a.data() + 28, k);
                ref::Node R = r.prf(r.skPrf.data(), a.data());
                Bytes d = r.hmsg(R.data(), root, k, m), want(4), ots = r.otsSign(k, d.data());
                ref::Hasher::word(want.data(), k);
                want.insert(want.end(), R.begin(), R.end());
                want.insert(want.end(), ots.begin(), ots.end());
                c.check(s.v.size() == want.size() + 32 * h && word(s.v) == k, "signature of %zu bytes names leaf %u", s.v.size(), word(s.v));
                c.check(!memcmp(s.v.data(), want.data(), want.size()), "the signature is not the one of leaf %u", k);
                c.check(sk == at(k + 1), "the key holds index %u afterwards, or other bytes changed", word(sk));
            }
        }
        c.sample(c.shared);
    });
}
// C03
struct Sigs {
    ref::Xmss r; std::map<uint32_t, Bytes> memo;
    Sigs(const Bytes &seed, unsigned h, int f, unsigned w) : r(seed, h, f, w) {}
    const Bytes &at(uint32_t i) { auto &s = memo[i]; if (s.empty()) s = r.sign(i, msg(i)); return s; }
    static Bytes msg(uint32_t i) { return msgN(5 + i % 40, i); }
};
static void leaf(Ctx &c, rs::Signer &x, Sigs &g, uint32_t i) {
    uint32_t got;
    if (x.num(0) != (int64_t) i) c.check(x.setIndex(i, got) == rs::OK, "the jump to %u is refused", i);
    Bytes s = must(c, x.sign(Sigs::msg(i)), "sign");
    c.check(s == g.at(i), "the signature at index %u is not the one of the full tree", i);
    c.transitions++;
}
static void patterns(int f, unsigned h, unsigned w, unsigned part, unsigned parts) {
    add(nm("patterns", 1, f, h, w) + "/" + std::to_string(part), [=](Ctx &c) {
        Sigs g(seedN(300), h, f, w);
        for (unsigned mask = 1 + part; mask < 256; mask += parts) {
            c.at("Rust fast %s h=%u w=%u, leaves signed by the pattern %02x repeated, the others jumped over", hname(f), h, w, mask);
            rs::Signer x(1, g.r.seed, h, f, w);
            made(c, x);
            for (uint32_t i = 0; i < (1u << h); i++) if (mask >> (i % 8) & 1) { leaf(c, x, g, i); x.get(0); x.get(4); }
            c.states++; c.traces++;
        }
        c.sample(c.shared);
    });
}
static void jumps(int f, unsigned h, unsigned w, unsigned part, unsigned parts, uint32_t step) {
    add(nm("jumps", 1, f, h, w) + "/" + std::to_string(part), [=](Ctx &c) {
        Sigs g(seedN(301), h, f, w);
        uint32_t N = 1u << h;
        for (uint32_t i = part; i < N; i += parts) for (uint32_t k = i; k < N; k += step) {
            c.at("Rust fast %s h=%u w=%u: to %u, sign, to %u, sign twice, to the last", hname(f), h, w, i, k);
            rs::Signer x(1, g.r.seed, h, f, w);
            made(c, x);
            leaf(c, x, g, i);
            for (uint32_t q : {k, k + 1, k + 2, N - 1}) if (q < N && x.num(0) <= (int64_t) q) leaf(c, x, g, q);
            c.states++; c.traces++;
        }
        c.sample(c.shared);
    });
}
static void strides(int f, unsigned h, unsigned w) {
    add(nm("strides", 1, f, h, w), [=](Ctx &c) {
        Sigs g(seedN(302), h, f, w);
        for (uint32_t d : {1u, 2u, 3u, 5u, 7u, 11u, 16u, 31u}) {
            c.at("Rust fast %s h=%u w=%u, every %u-th leaf", hname(f), h, w, d);
            rs::Signer x(1, g.r.seed, h, f, w);
            made(c, x);
            for (uint32_t i = d - 1; i < (1u << h); i += d) leaf(c, x, g, i);
            c.states++; c.traces++;
        }
        rs::Signer b(0, g.r.seed, h, f, w);
        made(c, b);
        for (uint32_t i : {0u, 1u, (1u << h) - 1, 5u}) leaf(c, b, g, i);
        rs::Signer x(1, g.r.seed, h, f, w);
        for (int k = 0; k < 10; k++) if (k != 1) c.check(must(c, b.get(k), "get") == must(c, x.get(k), "get"), "basic and fast signers differ in observable %d", k);
        c.sample(c.shared);
    });
}
// C04
struct Batch {
    Ctx &c; Bytes m, s, pk; unsigned w; std::string name;
    Batch(Ctx &c, int f, unsigned h, unsigned w, uint32_t i, size_t len) : c(c), m(msgN(len, 9)), w(w) {
        rs::Signer x(1, seedN(400), h, f, w);
        made(c, x);
        uint32_t got;
        x.setIndex(i, got);
        s = must(c, x.sign(m), "sign");
        pk = must(c, x.get(0), "public key");
        name = std::string("Rust ") + hname(f) + " h=" + std::to_string(h) + " w=" + std::to_string(w) + " index " + std::to_string(i) + ", message of " + std::to_string(len) + " bytes";
        c.at("%s", name.c_str());
        c.check(rs::verify(m, s, pk, w) == rs::OK, "the valid triple is rejected");
    }
    void no(const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w, const char *fmt, ...) __attribute__((format(printf, 6, 7))) {
        char b[300];
        va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        c.at("%s: %s", name.c_str(), b);
        c.evalDistinct();
        c.check(rs::verify(m, s, pk, w) != rs::OK, "accepted: %s", b);
    }
};
static void changes(int f, unsigned w, unsigned part, unsigned parts, bool th) {
    add(nm("changes", 1, f, 4, w) + "/" + std::to_string(part), [=](Ctx &c) {
        Batch b(c, f, 4, w, 6, 33);
        size_t n = b.s.size();
        for (size_t p = part; p < n; p += parts) for (int k = 0; k < 8; k++) {
            if (!th && p >= 68 && k != (int) (p / parts % 8)) continue;
            Bytes s = b.s; s[p] ^= 1 << k;
            b.no(b.m, s, b.pk, w, "bit %d of signature byte %zu flipped", k, p);
        }
        if (part == 0) {
            for (size_t p = 3; p < 67; p++) for (int k = 0; k < 8; k++) { Bytes pk = b.pk; pk[p] ^= 1 << k; b.no(b.m, b.s, pk, w, "bit %d of key byte %zu flipped", k, p); }
            for (int v = 0; v < 256; v++) { Bytes pk = b.pk; pk[0] = v; if (v != b.pk[0]) b.no(b.m, b.s, pk, w, "descriptor byte 0 = %d", v); pk = b.pk; pk[1] = v; if ((v ^ b.pk[1]) & 15) b.no(b.m, b.s, pk, w, "descriptor byte 1 = %d", v); }
            for (size_t p = 0; p < b.m.size(); p++) for (int k = 0; k < 8; k++) { Bytes m = b.m; m[p] ^= 1 << k; b.no(m, b.s, b.pk, w, "bit %d of message byte %zu flipped", k, p); }
            for (size_t l = 0; l < b.m.size(); l++) b.no(Bytes(b.m.begin(), b.m.begin() + l), b.s, b.pk, w, "message cut to %zu bytes", l);
            for (unsigned l = 1; l < 300; l = l < 70 ? l + 1 : l + 29) for (int v : {0, 0x1f, 0x80}) { Bytes m = b.m; m.insert(m.end(), l, v); b.no(m, b.s, b.pk, w, "message extended by %u bytes of %d", l, v); m = b.m; m.insert(m.begin(), l, v); b.no(m, b.s, b.pk, w, "message prefixed by %u bytes of %d", l, v); }
            for (unsigned v : {2u, 4u, 16u, 256u, 0u, 1u, 3u, 8u, 17u, 32u, 128u, 65536u}) if (v != w) b.no(b.m, b.s, b.pk, v, "verified with parameter %u", v);
            ref::Xmss r(seedN(400), 4, f, w);
            unsigned q = 0;
            for (auto &root : ref::nearRoots(r.root())) { Bytes pk = b.pk; std::copy(root.begin(), root.end(), pk.begin() + 3); q++; b.no(b.m, r.signAs(q % 16, b.m, root), pk, w, "signed for a key with root %s", ref::hex(root.data(), 32).c_str()); }
        }
        if (part == 1) {
            for (size_t l = 0; l < n; l += l % 32 == 4 || th || l < 70 ? 1 : 31) b.no(b.m, Bytes(b.s.begin(), b.s.begin() + l), b.pk, w, "signature cut to %zu bytes", l);
            for (size_t l = 1; l <= 256 * 32; l = l < 70 ? l + 1 : (l + 32) / 32 * 32) { Bytes s = b.s; s.resize(n + l, 0); b.no(b.m, s, b.pk, w, "signature extended by %zu zero bytes", l); }
            for (int nh = 0; nh <= 30; nh += 2) if (nh != 4) {
                Bytes s = b.s; s.resize(n + 32 * (nh - 4), 0x5a);
                Bytes pk = b.pk; pk[1] = nh / 2;
                b.no(b.m, s, pk, w, "declared height %d with a signature of that size", nh);
                b.no(b.m, b.s, pk, w, "declared height %d with the original signature", nh);
                b.no(b.m, s, b.pk, w, "size of height %d under the original key", nh);
            }
            size_t blocks = (n - 4) / 32;
            for (size_t i = 0; i + 1 < blocks; i++) { Bytes s = b.s; std::swap_ranges(s.begin() + 4 + 32 * i, s.begin() + 36 + 32 * i, s.begin() + 36 + 32 * i); if (s != b.s) b.no(b.m, s, b.pk, w, "signature blocks %zu and %zu swapped", i, i + 1); }
            for (size_t p : {0ul, 1ul, 2ul, 3ul, 4ul, 35ul, 36ul, n - 129, n - 128, n - 1}) for (int v = 0; v < 256; v++) if (v != b.s[p]) { Bytes s = b.s; s[p] = v; b.no(b.m, s, b.pk, w, "signature byte %zu = %d", p, v); }
        }
        c.at("%s", b.name.c_str());
        c.check(rs::verify(b.m, b.s, b.pk, w) == rs::OK, "the valid triple is rejected after the batch");
        c.sample(b.name);
    });
}
static void longMessage(int f, size_t len) {
    add(nm("long", 1, f, 4, 16) + "/m" + std::to_string(len), [=](Ctx &c) {
        Batch b(c, f, 4, 16, 9, len);
        std::set<size_t> P;
        for (size_t p = 1; p <= 2 * len; p *= 2) for (int d = -2; d <= 1; d++) P.insert(p + d);
        for (size_t d = 1; d <= 140; d++) P.insert(len - d);
        for (size_t k = 0; k < 60; k++) P.insert(len / 60 * k + k % 7);
        for (size_t p : P) if (p < len) {
            Bytes m = b.m; m[p] ^= 1 << (p % 8);
            b.no(m, b.s, b.pk, 16, "bit %zu of message byte %zu flipped", p % 8, p);
            b.no(Bytes(b.m.begin(), b.m.begin() + p), b.s, b.pk, 16, "message cut to %zu bytes", p);
        }
        c.sample(b.name);
    });
}
// C06
static void observables(Ctx &c, rs::Signer &x, const ref::Xmss &r, uint32_t i) {
    auto sub = [](const Bytes &b, size_t o) { return Bytes(b.begin() + o, b.begin() + o + 32); };
    Bytes sk = r.sk(i);
    c.check(must(c, x.get(0), "public key") == r.pk(), "public key differs");
    c.check(must(c, x.get(1), "secret key") == sk, "secret key differs");
    c.check(must(c, x.get(7), "secret seed") == sub(sk, 4), "secret seed differs");
    c.check(must(c, x.get(8), "PRF key") == sub(sk, 36), "PRF key differs");
    c.check(must(c, x.get(6), "public seed") == sub(sk, 68), "public seed differs");
    c.check(must(c, x.get(5), "root") == sub(sk, 100), "root differs");
    c.check(must(c, x.get(2), "seed") == r.seed, "seed differs");
    c.check(must(c, x.get(3), "extended seed") == r.extendedSeed(), "extended seed differs");
    c.evalDistinct(8);
}
static void conforms(int f, unsigned h, unsigned w, uint64_t sd, uint32_t step) {
    add(nm("tree", 1, f, h, w) + "/seed" + std::to_string(sd), [=](Ctx &c) {
        Bytes seed = sd == 0 ? Bytes(48, 0) : sd == 1 ? Bytes(48, 255) : seedN(600 + sd);
        ref::Xmss r(seed, h, f, w);
        for (int kind = 0; kind < (w != 16 ? 2 : f != 1 ? 3 : 4); kind++) {
            c.at("Rust %s %s h=%u w=%u seed %lu", KN[kind], hname(f), h, w, (unsigned long) sd);
            rs::Signer x(kind, seed, h, f, w);
            made(c, x);
            observables(c, x, r, 0);
            for (uint32_t i = 0; i < (1u << h); i += kind == 1 ? step : 5 * step) {
                Bytes m = msgN(i * 19 % 210, i);
                c.at("Rust %s %s h=%u w=%u seed %lu index %u, message of %zu bytes", KN[kind], hname(f), h, w, (unsigned long) sd, i, m.size());
                uint32_t got;
                c.check(x.setIndex(i, got) == rs::OK, "set index refused");
                Bytes want = r.sign(i, m);
                c.check(must(c, x.sign(m), "sign") == want, "signature differs from the reference");
                c.check(rs::verify(m, want, r.pk(), w) == rs::OK, "reference signature not accepted");
                c.evalDistinct();
            }
        }
        c.sample(c.shared);
    });
}
static void seeds(int f, unsigned part, unsigned parts) {
    add(nm("seeds", 1, f, 4, 16) + "/" + std::to_string(part), [=](Ctx &c) {
        for (unsigned p = part; p < 48; p += parts) for (int v : {0, 1, 0x80, 0xff}) {
            Bytes seed = seedN(650); seed[p] = v;
            c.at("Rust fast %s h=4 w=16 seed byte %u = %d", hname(f), p, v);
            ref::Xmss r(seed, 4, f, 16);
            rs::Signer x(1, seed, 4, f, 16);
            made(c, x);
            observables(c, x, r, 0);
        }
        c.sample(c.shared);
    });
}
static void synthetic(int f, unsigned h, unsigned w) {
    add(nm("synthetic", 1, f, h, w), [=](Ctx &c) {
        ref::Xmss r(seedN(660 + f), h, f, w, false);
        uint64_t N = 1ULL << h;
        std::set<uint64_t> I = {0, 1, N / 2 - 1, N / 2, N - 2, N - 1, 255, 256, 65535, 65536, (1u << 24) - 1, 1u << 24, 0x1234567 % N};
        for (unsigned b = 0; b < h; b += 3) { I.insert(1ULL << b); I.insert((N - 1) ^ (1ULL << b)); }
        for (uint64_t i : I) {
            if (i >= N) continue;
            std::vector<ref::Node> path(h);
            ref::Node n = r.leaf(i);
            for (unsigned l = 0; l < h; l++) {
                Bytes p = msgN(32, i * 64 + l);
                memcpy(path[l].data(), p.data(), 32);
                n = (i >> l) & 1 ? r.Hn(path[l], n, 2, 0, l, i >> (l + 1)) : r.Hn(n, path[l], 2, 0, l, i >> (l + 1));
            }
            Bytes pk = {(uint8_t) f, (uint8_t) (h / 2), 0}, m = msgN(i % 80, h), s(4), R = msgN(32, i);
            pk.insert(pk.end(), n.begin(), n.end());
            pk.insert(pk.end(), r.pub.begin(), r.pub.end());
            ref::Hasher::word(s.data(), i);
            s.insert(s.end(), R.begin(), R.end());
            Bytes d = r.hmsg(R.data(), n, i, m), o = r.otsSign(i, d.data());
            s.insert(s.end(), o.begin(), o.end());
            for (auto &p : path) s.insert(s.end(), p.begin(), p.end());
            c.at("Rust %s h=%u w=%u index %lu, synthetic path", hname(f), h, w, (unsigned long) i);
            c.evalDistinct();
            c.check(rs::verify(m, s, pk, w) == rs::OK, "valid signature rejected");
            for (unsigned l = 0; l < h; l += 1 + h / 5) { Bytes t = s; t[t.size() - 32 * (h - l)] ^= 1; c.evalDistinct(); c.check(rs::verify(m, t, pk, w) != rs::OK, "accepted with sibling of level %u changed", l); }
            for (unsigned b : {0u, h - 1, h / 2}) { Bytes t = s; ref::Hasher::word(t.data(), (uint32_t) i ^ (1u << b)); c.evalDistinct(); c.check(rs::verify(m, t, pk, w) != rs::OK, "accepted under index %u", (uint32_t) i ^ (1u << b)); }
        }
        c.sample(c.shared);
    });
}
// C07
static void restore(int f, unsigned h, unsigned part, unsigned parts, bool th) {
    add(nm("restore", 1, f, h, 16) + "/" + std::to_string(part), [=](Ctx &c) {
        std::vector<Bytes> S = {Bytes(48, 0), Bytes(48, 255), seedN(700), seedN(701)};
        for (unsigned p = 0; p < 48; p += h > 4 ? 7 : 1) for (int v : {0, 0x0a, 0x20, 0xff}) { Bytes s = seedN(702); s[p] = v; S.push_back(s); }
        for (size_t k = part; k < S.size(); k += parts) {
            if (!th && f != 1 && k > 3 && k % 4) continue;
            Bytes ext = {(uint8_t) f, (uint8_t) (h / 2), 0};
            ext.insert(ext.end(), S[k].begin(), S[k].end());
            c.at("Rust %s h=%u extended seed %s", hname(f), h, ref::hex(ext).c_str());
            rs::Signer x(1, S[k], h, f, 16);
            made(c, x);
            c.check(must(c, x.get(3), "extended seed") == ext, "the signer's extended seed differs");
            Bytes hex = must(c, rs::op(rs::BIN2HSTR, 0, 0, ext), "to hexadecimal"), mn = must(c, rs::op(rs::BIN2MNEMONIC, 0, 0, ext), "to mnemonic");
            Bytes b1 = must(c, rs::ops(rs::HSTR2BIN, 0, 0, std::string(hex.begin(), hex.end())), "from hexadecimal"), b2 = must(c, rs::ops(rs::MNEMONIC2BIN, 0, 0, std::string(mn.begin(), mn.end())), "from mnemonic");
            c.check(b1 == ext && b2 == ext, "the extended seed does not survive its text forms");
            rs::Signer y(b2);
            made(c, y);
            for (int g = 0; g < 10; g++) c.check(must(c, x.get(g), "get") == must(c, y.get(g), "get"), "the restored signer differs in observable %d", g);
            for (int g = 0; g < 4; g++) c.check(x.num(g) == y.num(g), "the restored signer differs in number %d", g);
            for (uint32_t i : {0u, 5u, (1u << h) - 1}) { uint32_t got; Bytes m = msgN(12, i); x.setIndex(i, got); y.setIndex(i, got); c.check(must(c, x.sign(m), "sign") == must(c, y.sign(m), "sign"), "signatures at index %u differ", i); }
            c.evalDistinct();
        }
        if (part == 0) for (size_t n = 0; n < 200; n++) if (n != 51) {
            Bytes e = seedN(703); e.resize(n, 7);
            if (n > 2) { e[0] = f; e[1] = h / 2; e[2] = 0; }
            c.at("Rust: extended seed of %zu bytes", n);
            rs::Signer z(e);
            c.evalDistinct();
            c.check(z.rc == rs::ERR, "status %d instead of an error", z.rc);
        }
        c.sample(c.shared);
    });
}
static void textForms(unsigned part, unsigned parts) {
    add("rust/text/" + std::to_string(part), [=](Ctx &c) {
        for (unsigned p = part; p < 51; p += parts) for (int v = 0; v < 256; v++) {
            Bytes e = seedN(704); e.resize(51, 3); e[p] = v;
            c.at("Rust: extended seed byte %u = %d", p, v);
            Bytes hex = must(c, rs::op(rs::BIN2HSTR, 0, 0, e), "to hexadecimal"), mn = must(c, rs::op(rs::BIN2MNEMONIC, 0, 0, e), "to mnemonic");
            c.check(must(c, rs::ops(rs::HSTR2BIN, 0, 0, std::string(hex.begin(), hex.end())), "from hexadecimal") == e, "the hexadecimal form gives other bytes");
            c.check(must(c, rs::ops(rs::MNEMONIC2BIN, 0, 0, std::string(mn.begin(), mn.end())), "from mnemonic") == e, "the mnemonic gives other bytes");
            c.evalDistinct();
        }
        c.sample(c.shared);
    });
}
// C13: messages are tried until every checksum sum of a range has been met; the chains revealed are those of the digest.
static void sums(int f, unsigned w, unsigned want) {
    add(nm("sums", 1, f, 4, w), [=](Ctx &c) {
        ref::Xmss r(seedN(1300 + f), 4, f, w);
        std::unique_ptr<rs::Signer> x;
        std::set<unsigned> met;
        std::set<unsigned> digits;
        unsigned n = 0;
        for (unsigned t = 0; t < 40 * want && n < want; t++) {
            uint32_t i = n % 16;
            Bytes m = msgN(8, t);
            Bytes s = r.sign(i, m), R(s.begin() + 4, s.begin() + 36);
            ref::Node root = r.root();
            Bytes d = r.hmsg(R.data(), root, i, m);
            unsigned sum = 0; bool fresh = false;
            unsigned lg = w == 2 ? 1 : w == 4 ? 2 : w == 16 ? 4 : 8;
            for (unsigned k = 0; k < r.wots.len1; k++) { unsigned bit = k * lg; unsigned v = d[bit / 8] >> (8 - lg - bit % 8) & (w - 1); sum += w - 1 - v; if (digits.insert(v).second) fresh = true; }
            if (!met.insert(sum).second && !fresh) continue;
            if (i == 0) { x.reset(new rs::Signer(1, r.seed, 4, f, w)); made(c, *x); }
            c.at("Rust fast %s h=4 w=%u index %u, message %u, checksum %u", hname(f), w, i, t, sum);
            uint32_t got;
            if (x->num(0) != (int64_t) i) x->setIndex(i, got);
            c.check(must(c, x->sign(m), "sign") == s, "the chains revealed are not those of the digest and its checksum");
            c.check(rs::verify(m, s, r.pk(), w) == rs::OK, "verification uses other positions");
            c.evalDistinct();
            n++;
        }
        c.check(n > 8, "only %u checksums met", n);
        c.sample(c.shared);
    });
}
static void advance(int f, unsigned w) {
    add(nm("advance", 1, f, 4, w), [=](Ctx &c) {
        // a signature with every single chain advanced, moved back through the checksum, or swapped for a neighbour's value
        ref::Xmss r(seedN(1310), 4, f, w);
        Bytes m = msgN(10, 1), s = r.sign(3, m);
        c.at("Rust %s w=%u: chains advanced", hname(f), w);
        c.check(rs::verify(m, s, r.pk(), w) == rs::OK, "valid signature rejected");
        for (unsigned k = 0; k < r.wots.len; k++) for (unsigned pos = 0; pos + 1 < std::min(w, 17u); pos++) {
            Bytes t = s;
            ref::Node nd; std::copy(t.begin() + 36 + 32 * k, t.begin() + 68 + 32 * k, nd.begin());
            nd = r.F(nd, 3, k, pos);
            std::copy(nd.begin(), nd.end(), t.begin() + 36 + 32 * k);
            c.evalDistinct();
            c.check(rs::verify(m, t, r.pk(), w) != rs::OK, "chain %u advanced from position %u is accepted for the same message", k, pos);
        }
        for (unsigned v = 0; v < 70000; v = v < 1100 ? v + 1 : v * 2 - v % 3) if (v != 2 && v != 4 && v != 16 && v != 256) {
            c.at("Rust %s: parameter %u", hname(f), v);
            c.evalDistinct();
            for (int kind = 0; kind < 2; kind++) { rs::Signer x(kind, seedN(1), 4, f, v); c.check(x.rc == rs::ERR, "creation: status %d", x.rc); }
        }
        c.sample(c.shared);
    });
}
// C16: two signers in one thread, operations interleaved in every order; and in free-running threads.
static void interleave(int k1, int f1, int k2, int f2) {
    add(nm("pairs", k1, f1, 4, 16) + "/" + KN[k2] + "/" + hname(f2), [=](Ctx &c) {
        struct Obj { int kind, f; uint64_t sd; std::unique_ptr<rs::Signer> x; std::vector<Bytes> out; };
        auto step = [&](Obj &o, int k) {
            uint32_t got = 0;
            switch (k) {
                case 0: o.x.reset(new rs::Signer(o.kind, seedN(o.sd), 4, o.f, 16)); o.out.push_back(o.x->get(0).v); break;
                case 1: o.out.push_back(o.x->sign(msgN(9, o.sd)).v); break;
                case 2: o.x->setIndex(7, got); o.out.push_back(Bytes{(uint8_t) got}); break;
                case 3: o.out.push_back(o.x->sign(msgN(90, o.sd)).v); o.out.push_back(o.x->get(4).v); break;
            }
        };
        auto fresh = [&](Obj &o, int kind, int f, uint64_t sd) { o.kind = kind; o.f = f; o.sd = sd; o.x.reset(); o.out.clear(); };
        Obj a, b, ra, rb;
        fresh(ra, k1, f1, 5); fresh(rb, k2, f2, 6);
        for (int k = 0; k < 4; k++) step(ra, k);
        for (int k = 0; k < 4; k++) step(rb, k);
        for (unsigned mask = 0; mask < 256; mask++) {
            if (__builtin_popcount(mask) != 4) continue;
            c.at("Rust %s %s and %s %s, order %02x", KN[k1], hname(f1), KN[k2], hname(f2), mask);
            fresh(a, k1, f1, 5); fresh(b, k2, f2, 6);
            for (int i = 0, p = 0, q = 0; i < 8; i++) { if (mask >> i & 1) step(a, p++); else step(b, q++); c.transitions++; }
            c.check(a.out == ra.out && b.out == rb.out, "the results are not those each signer gives alone");
            c.states++;
        }
        for (int n = 0; n < 8; n++) {
            c.at("Rust %s %s and %s %s in two threads, run %d", KN[k1], hname(f1), KN[k2], hname(f2), n);
            fresh(a, k1, f1, 5); fresh(b, k2, f2, 6);
            std::thread t([&] { for (int k = 0; k < 4; k++) step(a, k); });
            for (int k = 0; k < 4; k++) step(b, k);
            t.join();
            c.check(a.out == ra.out && b.out == rb.out, "the results are not those each signer gives alone");
        }
        c.sample(c.shared);
    });
}
// Two signers of one seed with different parameters, in several orders, against the reference model.
static void sameSeed(int f, unsigned w, int kind) {
    add(nm("sameseed", kind, f, 4, w), [=](Ctx &c) {
        Bytes seed = seedN(310 + f + w);
        ref::Xmss ra(seed, 4, f, w);
        auto run = [&](int kd, int fn, unsigned ww, ref::Xmss &r, std::unique_ptr<rs::Signer> &x, unsigned n, unsigned len, const char *who) {
            Bytes m = msgN(20, n);
            if (n == 0) { x.reset(new rs::Signer(kd, seed, 4, fn, ww)); made(c, *x); c.check(x->get(0).v == r.pk() && x->get(1).v == r.sk(0), "the %s signer's keys are not its own", who); }
            else if (n < len - 1) c.check(x->sign(m).v == r.sign(n - 1, m), "signature %u of the %s signer is not its own", n - 1, who);
            else c.check(rs::verify(msgN(20, 2), r.sign(1, msgN(20, 2)), r.pk(), ww) == rs::OK, "the %s signer's signature is not accepted", who);
            c.transitions++;
        };
        for (int g = 0; g < 3; g++) for (unsigned v : {4u, 16u}) for (int k2 = 0; k2 < 2; k2++) {
            ref::Xmss rb(seed, 4, g, v);
            for (unsigned mask : {0x0fu, 0xf0u, 0x55u, 0xccu}) {
                c.at("Rust, same seed, %s %s w=%u and %s %s w=%u, order %02x", KN[kind], hname(f), w, KN[k2], hname(g), v, mask);
                std::unique_ptr<rs::Signer> x, y;
                unsigned len = kind && k2 ? 18 : 4;
                for (unsigned s = 0, i = 0, j = 0; i < len || j < len; s++) if (mask >> s % 8 & 1) { if (i < len) run(kind, f, w, ra, x, i++, len, "first"); } else if (j < len) run(k2, g, v, rb, y, j++, len, "second");
                c.states++; c.traces++;
            }
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        const char *e = getenv("VT_SECTION");
        std::string S = e ? e : "";
        for (int f = 0; f < 3; f++) {
            if (S == "C01") {
                for (unsigned w : {2u, 4u, 16u, 256u}) for (int kind = 0; kind < 2; kind++) signs(kind, f, 4, w, w, w == 256 && !kind && !th ? 5 : 1);
                signs(1, f, 6, 16, 100, 1); signs(1, f, 8, 4, 0, 1); signs(0, f, 6, 4, 60, th ? 1 : 9);
                if (th) { signs(1, f, 8, 16, 40, 1); signs(1, f, 10, 2, 0, 1); }
                if (f != 2 || th) bytes(f, 10, f ? 4 : 16);
                for (unsigned p = 0; p < 3; p++) lengths(f, p, 3, th);
            }
            if (S == "C02") for (int kind = 0; kind < 2; kind++) {
                for (uint32_t start : {0u, 13u, 16u}) for (int o = 0; o < NOPS; o++) sequences(kind, f, f ? 4 : 2, start, o, th ? 4 : kind ? 3 : 2);
                for (unsigned w : {2u, 4u, 16u, 256u}) targets(kind, f, 4, w);
                if (kind) for (unsigned h = 4; h <= 30; h += 2) if (th || f == 1 || h == 4 || h == 10 || h == 18 || h == 30) tall(f, h, h % 4 ? 4 : 16);
                targets(kind, f, 6, 4); if (kind) targets(kind, f, 8, 4);
            }
            if (S == "C03") {
                for (unsigned p = 0; p < 3; p++) patterns(f, 4, 4, p, 3);
                for (unsigned p = 0; p < 2; p++) { jumps(f, 4, 16, p, 2, 1); jumps(f, 6, 4, p, 2, th ? 3 : 13); }
                strides(f, 6, 4); strides(f, 6, 16); strides(f, 8, 4); if (th) { strides(f, 8, 16); strides(f, 10, 4); for (unsigned p = 0; p < 4; p++) patterns(f, 6, 4, p, 4); }
            }
            if (S == "C04") {
                for (unsigned p = 0; p < 3; p++) { changes(f, 16, p, 3, th); changes(f, 4, p, 3, th); }
                for (size_t l : {300, 1025, 65537}) longMessage(f, l);
                if (f == 1 || th) longMessage(f, (1 << 20) + 1);
                for (unsigned w : {2u, 256u}) for (unsigned p = 0; p < 8; p++) if (th || p < 2) changes(f, w, p, th ? 8 : 16, th);
            }
            if (S == "C06") {
                for (unsigned w : {2u, 4u, 16u, 256u}) conforms(f, 4, w, f + 2, w == 256 ? 5 : 1);
                conforms(f, 4, 16, 0, 3); conforms(f, 4, 16, 1, 3); conforms(f, 6, 4, 9, 3); conforms(f, 8, 4, 10, th ? 3 : 37);
                for (unsigned p = 0; p < (th || f == 1 ? 4u : 1u); p++) seeds(f, p, 4);
                for (unsigned h = 4; h <= 30; h += 2) synthetic(f, h, 16);
                for (unsigned w : {2u, 4u}) synthetic(f, 30, w);
            }
            if (S == "C07") { for (unsigned p = 0; p < 3; p++) restore(f, 4, p, 3, th); restore(f, 6, 0, th ? 1 : 4, th); if (th) restore(f, 8, 0, 4, th); if (f == 0) for (unsigned p = 0; p < 2; p++) textForms(p, 2); }
            if (S == "C13") for (unsigned w : {2u, 4u, 16u, 256u}) { sums(f, w, (th ? 4 : 1) * (w == 256 ? 40 : 100)); advance(f, w); }
            if (S == "C16") { for (unsigned w : {4u, 16u}) for (int k = 0; k < 2; k++) sameSeed(f, w, k); interleave(0, f, 1, f); for (int g = 0; g < 3; g++) { interleave(1, f, 1, g); if (th) interleave(0, f, 0, g); } }
        }
    });
}

// C04: neighbourhoods of valid triples. Every enumerated change must be rejected; the unchanged triple is accepted
// before and after each batch.
#include <qrl.hpp>
#include <set>
using namespace mc;
struct Triple { int f; unsigned h, w; uint32_t idx; Bytes m, s, pk; };
static Triple make(int f, unsigned h, unsigned w, uint32_t idx, size_t mlen, uint64_t sd = 0) {
    Triple t{f, h, w, idx};
    Bytes seed = seedN(400 + sd);
    XmssFast x(seed, h, HF(f), eAddrFormatType::SHA256_2X);
    if (w != 16) x.initialize_tree(w);
    x.setIndex(idx);
    t.m = msgN(mlen, idx + 1);
    t.s = x.sign(t.m);
    t.pk = x.getPK();
    return t;
}
static std::string nm(const Triple &t) {
    char b[160];
    snprintf(b, sizeof b, "%s h=%u w=%u index=%u msglen=%zu", hname(t.f), t.h, t.w, t.idx, t.m.size());
    return b;
}
static bool V(const Triple &t) { return XmssBase::verify(t.m, t.s, t.pk, t.w); }
struct Batch {
    Ctx &c; const Triple &t;
    Batch(Ctx &c, const Triple &t) : c(c), t(t) { c.check(V(t), "%s: the valid triple is rejected", nm(t).c_str()); }
    ~Batch() noexcept(false) { if (!std::uncaught_exceptions()) c.check(V(t), "%s: the valid triple is rejected after the batch", nm(t).c_str()); }
    void no(const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w, const char *fmt, ...) __attribute__((format(printf, 6, 7))) {
        char b[300];
        va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        c.at("%s: %s", nm(t).c_str(), b);
        c.evalDistinct();
        c.check(!XmssBase::verify(m, s, pk, w), "accepted: %s", b);
        if (c.evals == 3) c.sample(c.shared);
    }
};
static void sigBits(int f, unsigned h, unsigned w, uint32_t idx, unsigned part, unsigned parts, bool allbits) {
    add("sigbits/" + std::string(hname(f)) + "/h" + std::to_string(h) + "/w" + std::to_string(w) + "/i" + std::to_string(idx) + "/" + std::to_string(part), [=](Ctx &c) {
        probeHash();
        Triple t = make(f, h, w, idx, 33);
        Batch b(c, t);
        for (size_t p = 0; p < t.s.size(); p++) {
            if (p % parts != part) continue;
            for (int k = 0; k < 8; k++) {
                if (!allbits && p >= 40 && k != (int) (p / parts % 8)) continue;
                Bytes s = t.s;
                s[p] ^= 1 << k;
                b.no(t.m, s, t.pk, w, "bit %d of signature byte %zu flipped", k, p);
            }
        }
    });
}
static void keyAndMessage(int f, unsigned h, unsigned w, uint32_t idx, size_t mlen, unsigned step) {
    add("keymsg/" + std::string(hname(f)) + "/h" + std::to_string(h) + "/w" + std::to_string(w) + "/m" + std::to_string(mlen), [=](Ctx &c) {
        probeHash();
        Triple t = make(f, h, w, idx, mlen);
        Batch b(c, t);
        for (size_t p = 3; p < 67; p++) for (int k = 0; k < 8; k++) {
            if ((p * 8 + k) % step) continue;
            Bytes pk = t.pk;
            pk[p] ^= 1 << k;
            b.no(t.m, t.s, pk, w, "bit %d of public key byte %zu flipped", k, p);
        }
        // every other value of the fields the descriptor uses for verification: hash, scheme, height
        for (int v = 0; v < 256; v++) if (v != t.pk[0]) { Bytes pk = t.pk; pk[0] = v; b.no(t.m, t.s, pk, w, "descriptor byte 0 = %d", v); }
        for (int v = 0; v < 256; v++) if ((v & 15) != (t.pk[1] & 15)) { Bytes pk = t.pk; pk[1] = v; b.no(t.m, t.s, pk, w, "descriptor byte 1 = %d", v); }
        for (size_t p = 0; p < t.m.size(); p++) for (int k = 0; k < 8; k++) {
            if (t.m.size() > 64 && p > 8 && p + 8 < t.m.size() && (p * 8 + k) % (step * 5)) continue;
            Bytes m = t.m;
            m[p] ^= 1 << k;
            b.no(m, t.s, t.pk, w, "bit %d of message byte %zu flipped", k, p);
        }
        for (size_t n = 0; n < t.m.size(); n++) {
            if (n > 64 && n + 40 < t.m.size() && n % (step * 7)) continue;
            b.no(Bytes(t.m.begin(), t.m.begin() + n), t.s, t.pk, w, "message cut to %zu bytes", n);
            b.no(Bytes(t.m.begin() + (t.m.size() - n), t.m.end()), t.s, t.pk, w, "message reduced to its last %zu bytes", n);
        }
        for (unsigned n = 1; n <= 300; n = n < 70 ? n + 1 : n + 23) for (int v : {0, 0x80, 0x1f, 0xff}) {
            Bytes m = t.m;
            m.insert(m.end(), n, v);
            b.no(m, t.s, t.pk, w, "message extended by %u bytes of %d", n, v);
            m = t.m;
            m.insert(m.begin(), n, v);
            b.no(m, t.s, t.pk, w, "message prefixed by %u bytes of %d", n, v);
        }
        for (size_t p = 0; p + 1 < t.m.size(); p++) if (t.m[p] != t.m[p + 1]) { Bytes m = t.m; std::swap(m[p], m[p + 1]); b.no(m, t.s, t.pk, w, "message bytes %zu,%zu swapped", p, p + 1); }
        { Bytes m = t.m; m.insert(m.end(), t.m.begin(), t.m.end()); if (m != t.m) b.no(m, t.s, t.pk, w, "message doubled"); }
    });
}
// Long messages: bits around every power of two, at the end and spread between; lengths off by a little; blocks removed, repeated, exchanged.
static void longMessage(int f, size_t len, bool th) {
    add("long/" + std::string(hname(f)) + "/m" + std::to_string(len), [=](Ctx &c) {
        probeHash();
        Triple t = make(f, 4, 16, 9, len);
        Batch b(c, t);
        std::set<size_t> P;
        for (size_t p = 1; p <= 2 * len; p *= 2) for (int d = -2; d <= 1; d++) P.insert(p + d);
        for (size_t d = 1; d <= (th ? 400 : 140); d++) P.insert(len - d);
        for (size_t k = 0; k < (th ? 500 : 60); k++) P.insert(len / (th ? 500 : 60) * k + k % 7);
        for (size_t p : P) if (p < len) {
            Bytes m = t.m;
            m[p] ^= 1 << (p % 8);
            b.no(m, t.s, t.pk, 16, "bit %zu of message byte %zu flipped", p % 8, p);
            if (p) b.no(Bytes(t.m.begin(), t.m.begin() + p), t.s, t.pk, 16, "message cut to %zu bytes", p);
            m = t.m; m.erase(m.begin() + p);
            if (m != Bytes(t.m.begin(), t.m.end() - 1)) b.no(m, t.s, t.pk, 16, "message byte %zu removed", p);
        }
        for (size_t n : {1ul, 2ul, 31ul, 32ul, 64ul, 136ul, 168ul, 256ul, 4096ul, 65536ul}) for (int v : {0, 0x80}) { Bytes m = t.m; m.insert(m.end(), n, v); b.no(m, t.s, t.pk, 16, "message extended by %zu bytes of %d", n, v); }
        for (size_t n : {32ul, 64ul, 136ul, 168ul, 256ul, 4096ul, 65536ul}) if (len >= 3 * n) {
            Bytes m = t.m;
            std::swap_ranges(m.begin() + n, m.begin() + 2 * n, m.begin() + 2 * n);
            if (m != t.m) b.no(m, t.s, t.pk, 16, "blocks of %zu bytes exchanged", n);
            m = t.m; m.erase(m.begin() + n, m.begin() + 2 * n);
            b.no(m, t.s, t.pk, 16, "the second block of %zu bytes removed", n);
            m = t.m; m.erase(m.end() - 2 * n, m.end() - n);
            b.no(m, t.s, t.pk, 16, "the last block but one of %zu bytes removed", n);
        }
    });
}
static void shapes(int f, unsigned h, unsigned w, uint32_t idx) {
    add("shapes/" + std::string(hname(f)) + "/h" + std::to_string(h) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Triple t = make(f, h, w, idx, 20);
        Batch b(c, t);
        size_t n = t.s.size();
        for (size_t l = 0; l < n; l++) b.no(t.m, Bytes(t.s.begin(), t.s.begin() + l), t.pk, w, "signature cut to %zu bytes", l);
        for (size_t l = 1; l < n; l += l < 80 ? 1 : 32) b.no(t.m, Bytes(t.s.begin() + l, t.s.end()), t.pk, w, "first %zu signature bytes removed", l);
        for (size_t l = 1; l <= 256 * 32 + 1; l = l < 100 ? l + 1 : (l % 32 == 0 ? l + 1 : (l % 32 == 1 ? l + 30 : l + 1))) {
            Bytes s = t.s;
            s.resize(n + l, 0);
            b.no(t.m, s, t.pk, w, "signature extended by %zu zero bytes", l);
        }
        // extra or missing path nodes with the height in the key adapted to the new size
        for (int dh = -14; dh <= 26; dh += 2) {
            int nh = (int) h + dh;
            if (dh == 0 || nh < 0 || nh > 30) continue;
            Bytes s = t.s;
            s.resize(n + 32 * dh, 0x5a);
            Bytes pk = t.pk;
            pk[1] = nh / 2;
            b.no(t.m, s, pk, w, "declared height %d with a signature of that size", nh);
            b.no(t.m, t.s, pk, w, "declared height %d with the original signature", nh);
            b.no(t.m, s, t.pk, w, "size of height %d under the original key", nh);
        }
        for (unsigned v : {2u, 4u, 16u, 256u, 0u, 1u, 3u, 8u, 15u, 17u, 32u, 64u, 128u, 512u, 65536u}) if (v != w) b.no(t.m, t.s, t.pk, v, "verified with parameter %u", v);
        // block swaps
        size_t blocks = (n - 4) / 32;
        auto blk = [&](Bytes &s, size_t i) { return s.begin() + 4 + 32 * i; };
        for (size_t i = 0; i < blocks; i++) for (size_t j = i + 1; j < blocks; j++) {
            if (blocks > 80 && j != i + 1 && j + 8 < blocks && (i + j) % 7) continue;
            if (std::equal(t.s.begin() + 4 + 32 * i, t.s.begin() + 36 + 32 * i, t.s.begin() + 4 + 32 * j)) continue;
            Bytes s = t.s;
            std::swap_ranges(blk(s, i), blk(s, i) + 32, blk(s, j));
            b.no(t.m, s, t.pk, w, "signature blocks %zu and %zu swapped", i, j);
        }
        for (size_t i = 0; i < blocks; i++) for (int v : {0, 255}) {
            Bytes s = t.s;
            std::fill(blk(s, i), blk(s, i) + 32, v);
            b.no(t.m, s, t.pk, w, "signature block %zu filled with %d", i, v);
        }
        for (size_t i = 0; i < blocks; i++) { Bytes s = t.s; std::rotate(blk(s, i), blk(s, i) + 1, blk(s, i) + 32); b.no(t.m, s, t.pk, w, "signature block %zu rotated", i); }
        // every value of every structural byte
        for (size_t p : {0ul, 1ul, 2ul, 3ul, 4ul, 35ul, 36ul, 67ul, n - 32 * h - 1, n - 32 * h, n - 32, n - 1}) for (int v = 0; v < 256; v++) if (v != t.s[p]) {
            Bytes s = t.s; s[p] = v;
            b.no(t.m, s, t.pk, w, "signature byte %zu = %d", p, v);
        }
        for (size_t p : {3ul, 34ul, 35ul, 66ul}) for (int v = 0; v < 256; v++) if (v != t.pk[p]) {
            Bytes pk = t.pk; pk[p] = v;
            b.no(t.m, t.s, pk, w, "public key byte %zu = %d", p, v);
        }
        // same byte sums, same XORs: two compensating changes in root, seed and R
        for (size_t p = 3; p < 66; p++) { Bytes pk = t.pk; pk[p] ^= 1; pk[p + 1] ^= 1; b.no(t.m, t.s, pk, w, "bits of public key bytes %zu and %zu flipped", p, p + 1); }
        for (size_t p = 3; p < 35; p++) { Bytes pk = t.pk; pk[p]++; pk[p == 34 ? 3 : p + 1]--; b.no(t.m, t.s, pk, w, "root bytes %zu up, next down", p); }
        { Bytes pk = t.pk; std::swap_ranges(pk.begin() + 3, pk.begin() + 35, pk.begin() + 35); b.no(t.m, t.s, pk, w, "root and seed swapped"); }
        for (int v : {0, 255}) { Bytes pk = t.pk; std::fill(pk.begin() + 3, pk.end(), v); b.no(t.m, t.s, pk, w, "key filled with %d", v); b.no(t.m, Bytes(n, v), pk, w, "key and signature filled with %d", v); b.no(t.m, Bytes(n, v), t.pk, w, "signature filled with %d", v); }
        { Bytes pk = t.pk; for (size_t p = 3; p < 35; p++) pk[p] = 0; b.no(t.m, t.s, pk, w, "root zeroed"); }
    });
}
// Parts of signatures of two indices (and two messages) recombined: only the two originals verify.
static void splice(int f, unsigned h, unsigned w) {
    add("splice/" + std::string(hname(f)) + "/h" + std::to_string(h) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Bytes seed = seedN(440);
        ref::Xmss r(seed, h, f, w);
        auto x = mkFast(seed, h, f, w);
        std::vector<Triple> T;
        uint32_t N = 1u << h;
        for (uint32_t i = 0; i < N; i++) {
            Triple t{f, h, w, i};
            t.m = msgN(10 + i % 3, i); t.s = x->sign(t.m); t.pk = x->getPK();
            if (N > 16 && i % 5 && i + 1 != N) continue;
            T.push_back(t);
        }
        size_t cut[5] = {0, 4, 36, 36 + 32 * r.wots.len, T[0].s.size()};
        for (auto &a : T) for (auto &bt : T) {
            if (a.idx == bt.idx) continue;
            Batch b(c, a);
            for (unsigned mask = 1; mask < 32; mask++) {
                Bytes s = a.s;
                for (int p = 0; p < 4; p++) if (mask >> p & 1) std::copy(bt.s.begin() + cut[p], bt.s.begin() + cut[p + 1], s.begin() + cut[p]);
                const Bytes &m = mask & 16 ? bt.m : a.m;
                if (mask == 31 || (s == bt.s && m == bt.m)) continue;
                if (s == a.s && m == a.m) continue;
                b.no(m, s, a.pk, w, "index/randomiser/chains/path/message parts %u (bit set) taken from index %u", mask, bt.idx);
            }
        }
    });
}
// Signatures the owner of a tree can issue for a key with another root and the same seed: the root must be compared in full.
static void forge(int f, unsigned h, unsigned w) {
    add("forge/" + std::string(hname(f)) + "/h" + std::to_string(h) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Bytes seed = seedN(450);
        ref::Xmss r(seed, h, f, w);
        auto x = mkFast(seed, h, f, w);
        Triple t{f, h, w, 0};
        t.m = msgN(21, 3); t.s = x->sign(t.m); t.pk = x->getPK();
        Batch b(c, t);
        unsigned n = 0;
        for (auto &root : ref::nearRoots(r.root())) {
            Bytes pk = t.pk;
            std::copy(root.begin(), root.end(), pk.begin() + 3);
            n++;
            b.no(t.m, r.signAs(n % (1u << h), t.m, root), pk, w, "signed for a key with root %s", ref::hex(root.data(), 32).c_str());
        }
    });
}
// All keys x all signatures x all parameters.
static void cross(unsigned part, unsigned parts) {
    add("cross/" + std::to_string(part), [=](Ctx &c) {
        probeHash();
        std::vector<Triple> T;
        for (int f = 0; f < 3; f++) for (unsigned h : {4u, 6u}) for (unsigned w : {2u, 4u, 16u, 256u}) for (uint64_t sd : {0, 1}) if (h == 4 || w == 16) T.push_back(make(f, h, w, h == 4 ? 5 : 37, 25, sd));
        for (size_t i = 0; i < T.size(); i++) {
            if (i % parts != part) continue;
            Batch b(c, T[i]);
            for (size_t j = 0; j < T.size(); j++) for (unsigned w : {2u, 4u, 16u, 256u}) {
                if (i == j && w == T[i].w) continue;
                // same seed and hash function but another w is another key: the root differs
                b.no(T[i].m, T[i].s, T[j].pk, w, "key of %s (seed %zu), parameter %u", nm(T[j]).c_str(), j % 2, w);
                if (T[j].m != T[i].m) b.no(T[j].m, T[i].s, T[i].pk, w, "message of another triple");
                Bytes pk = T[i].pk;
                std::copy(T[j].pk.begin(), T[j].pk.begin() + 3, pk.begin());
                if (pk != T[i].pk) b.no(T[i].m, T[i].s, pk, w, "descriptor of %s", nm(T[j]).c_str());
                pk = T[i].pk;
                std::copy(T[j].pk.begin() + 35, T[j].pk.end(), pk.begin() + 35);
                if (pk != T[i].pk) b.no(T[i].m, T[i].s, pk, w, "public seed of %s", nm(T[j]).c_str());
            }
        }
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        if (ref::g_fast) {
            for (int f = 0; f < 3; f++) {
                for (unsigned p = 0; p < 4; p++) { sigBits(f, 4, 16, 6, p, 4, th || f == 1); sigBits(f, 6, 4, 63, p, 4, th); sigBits(f, 4, 2, 0, p, 8, th); sigBits(f, 4, 2, 0, p + 4, 8, th); sigBits(f, 4, 256, 15, p, 4, th); }
                if (th) for (unsigned p = 0; p < 4; p++) { sigBits(f, 8, 16, 255, p, 4, true); sigBits(f, 10, 16, 512, p, 4, false); }
                for (unsigned w : {2u, 4u, 16u, 256u}) { keyAndMessage(f, 4, w, 9, 24, w == 256 && !th ? 3 : 1); shapes(f, 4, w, 11); splice(f, 4, w); }
                for (size_t l : {0, 1, 7, 8, 9, 40, 128, 135, 136, 137, 168, 169, 300}) keyAndMessage(f, 6, 16, 20, l, th ? 1 : 3);
                shapes(f, 6, 16, 33); shapes(f, 8, 16, 129); splice(f, 6, 4);
            }
            for (int f = 0; f < 3; f++) { for (unsigned w : {2u, 4u, 16u, 256u}) forge(f, 4, w); forge(f, 6, 16); }
            for (unsigned p = 0; p < 15; p++) cross(p, 15);
            for (int f = 0; f < 3; f++) for (size_t l : {1023, 1024, 4097, 65535, 65536, 65537, 1 << 20}) if (l < 70000 || f == 1 || th) longMessage(f, l, th);
        } else {
            for (int f = 0; f < 3; f++) {
                for (unsigned p = 0; p < 4; p++) sigBits(f, 4, 16, 6, p, 4, th);
                forge(f, 4, th ? 16 : 4);
                for (size_t l : {511, 1025, 4096, 65537, (1 << 20) + 1}) if (l < 70000 || f == 2 || th) longMessage(f, l, th);
                for (size_t l : {0, 24, 137}) keyAndMessage(f, 4, 16, 9, l, th ? 1 : 3);
                if (th) { splice(f, 4, 16); shapes(f, 4, 16, 11); keyAndMessage(f, 4, 4, 3, 300, 1); }
            }
        }
    });
}

// Independent reference model: FIPS 202 / FIPS 180-4 hashes and XMSS as QRL uses it.
// Deliberately written differently from the code under test (plain recursion over a fully stored tree,
// value types, no incremental state).
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <algorithm>
#include <vector>

namespace ref {
using Bytes = std::vector<uint8_t>;
using Node = std::array<uint8_t, 32>;

// ---------------------------------------------------------------- Keccak
inline uint64_t rol(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
inline void keccakf(uint64_t A[25]) {
    static const unsigned R[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
    uint8_t lfsr = 1;
    for (int round = 0; round < 24; round++) {
        uint64_t C[5], B[25];
        for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
        for (int x = 0; x < 5; x++) {
            uint64_t d = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
            for (int y = 0; y < 25; y += 5) A[x + y] ^= d;
        }
        for (int x = 0; x < 5; x++)
            for (int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rol(A[x + 5 * y], R[x + 5 * y]);
        for (int y = 0; y < 25; y += 5)
            for (int x = 0; x < 5; x++) A[x + y] = B[x + y] ^ (~B[(x + 1) % 5 + y] & B[(x + 2) % 5 + y]);
        for (int j = 0; j < 7; j++) {           // round constant from the LFSR, as in the specification
            if (lfsr & 1) A[0] ^= 1ULL << ((1 << j) - 1);
            lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x71);
        }
    }
}
inline void shake(unsigned rate, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen) {
    uint64_t A[25] = {0};
    auto xorbyte = [&](size_t pos, uint8_t b) { A[pos / 8] ^= (uint64_t) b << (8 * (pos % 8)); };
    size_t pos = 0;
    for (size_t i = 0; i < inlen; i++) {
        xorbyte(pos++, in[i]);
        if (pos == rate) { keccakf(A); pos = 0; }
    }
    xorbyte(pos, 0x1f);
    xorbyte(rate - 1, 0x80);
    keccakf(A);
    pos = 0;
    for (size_t i = 0; i < outlen; i++) {
        if (pos == rate) { keccakf(A); pos = 0; }
        out[i] = (uint8_t) (A[pos / 8] >> (8 * (pos % 8)));
        pos++;
    }
}
inline Bytes shake128(size_t n, const Bytes &in) { Bytes o(n); shake(168, in.data(), in.size(), o.data(), n); return o; }
inline Bytes shake256(size_t n, const Bytes &in) { Bytes o(n); shake(136, in.data(), in.size(), o.data(), n); return o; }

// ---------------------------------------------------------------- SHA2-256
struct Sha256K {
    uint32_t k[64], h[8];
    Sha256K() {
        // constants from the fractional parts of cube and square roots of the primes
        int n = 0;
        for (uint32_t p = 2; n < 64; p++) {
            bool prime = true;
            for (uint32_t d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
            if (!prime) continue;
            auto frac = [](uint32_t p, int pow) {    // floor(frac(p^(1/pow)) * 2^32), by integer bisection
                unsigned __int128 target = (unsigned __int128) p << 96 >> (pow == 2 ? 32 : 0);
                uint64_t lo = 0, hi = 1ULL << 40;
                while (hi - lo > 1) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    unsigned __int128 v = pow == 2 ? (unsigned __int128) mid * mid : (unsigned __int128) mid * mid * mid;
                    bool over = pow == 3 && (double) mid * mid * mid > 3.3e38;
                    if (!over && v <= target) lo = mid; else hi = mid;
                }
                return (uint32_t) lo;
            };
            k[n] = frac(p, 3);
            if (n < 8) h[n] = frac(p, 2);
            n++;
        }
    }
};
inline void sha256(const uint8_t *in, size_t len, uint8_t out[32]) {
    static const Sha256K K;
    uint32_t h[8];
    memcpy(h, K.h, sizeof h);
    auto rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
    auto block = [&](const uint8_t *b) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t) b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3];
        for (int i = 16; i < 64; i++)
            w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] +
                   (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
        uint32_t a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = hh + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + K.k[i] + w[i];
            uint32_t t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & bb) ^ (a & c) ^ (bb & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = bb; bb = a; a = t1 + t2;
        }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    };
    size_t full = len / 64;
    for (size_t i = 0; i < full; i++) block(in + 64 * i);
    uint8_t tail[128] = {0};
    size_t rest = len - 64 * full;
    if (rest) memcpy(tail, in + 64 * full, rest);
    tail[rest] = 0x80;
    size_t tl = rest < 56 ? 64 : 128;
    uint64_t bits = (uint64_t) len * 8;
    for (int i = 0; i < 8; i++) tail[tl - 1 - i] = (uint8_t) (bits >> (8 * i));
    block(tail);
    if (tl == 128) block(tail + 64);
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) out[4 * i + j] = (uint8_t) (h[i] >> (24 - 8 * j));
}
inline Bytes sha256(const Bytes &in) { Bytes o(32); sha256(in.data(), in.size(), o.data()); return o; }

// ---------------------------------------------------------------- cheap stand-in hash (structural exploration only)
inline uint64_t mix(uint64_t a, uint64_t b) {
    unsigned __int128 m = (unsigned __int128) (a ^ 0x9e3779b97f4a7c15ULL) * (b ^ 0xd6e8feb86659fd93ULL);
    return (uint64_t) m ^ (uint64_t) (m >> 64);
}
inline void fasthash(uint64_t tag, const uint8_t *in, size_t len, uint8_t *out, size_t outlen) {
    uint64_t a = 0x243f6a8885a308d3ULL ^ tag * 0x9e3779b97f4a7c15ULL, b = 0x13198a2e03707344ULL + len;
    size_t i = 0;
    for (; i + 16 <= len; i += 16) {
        uint64_t x, y;
        memcpy(&x, in + i, 8); memcpy(&y, in + i + 8, 8);
        unsigned __int128 m = (unsigned __int128) (x ^ a) * (y ^ b ^ 0xd6e8feb86659fd93ULL);
        a = rol(a, 23) + (uint64_t) (m >> 64) + y;
        b = rol(b, 41) ^ ((uint64_t) m + x);
    }
    if (len > i) {
        uint64_t t[2] = {0, 0};
        memcpy(t, in + i, len - i);
        unsigned __int128 m = (unsigned __int128) (t[0] ^ a) * (t[1] ^ b ^ 0xd6e8feb86659fd93ULL);
        a = rol(a, 23) + (uint64_t) (m >> 64) + t[1];
        b = rol(b, 41) ^ ((uint64_t) m + t[0]);
    }
    a ^= mix(a, b); b += mix(b, len);
    for (size_t o = 0, n = 1; o < outlen; o += 8, n++) {
        uint64_t v = mix(a + n * 0xa0761d6478bd642fULL, b ^ n);
        memcpy(out + o, &v, outlen - o < 8 ? outlen - o : 8);
    }
}

// ---------------------------------------------------------------- hash suite used by the XMSS model
enum Func { SHA2 = 0, SHAKE128 = 1, SHAKE256 = 2 };
extern bool g_fast;                      // true: the build replaces the primitives by fasthash
inline void H(int f, const uint8_t *in, size_t len, uint8_t *out, size_t outlen = 32) {
    if (g_fast) { fasthash(f, in, len, out, outlen); return; }
    switch (f) {
        case SHA2: sha256(in, len, out); break;
        case SHAKE128: shake(168, in, len, out, outlen); break;
        case SHAKE256: shake(136, in, len, out, outlen); break;
        default: throw std::logic_error("hash");
    }
}

struct Wots {
    unsigned w, logw, len1, len2, len;
    explicit Wots(unsigned w_) : w(w_) {
        logw = 0;
        while ((1u << logw) < w) logw++;
        len1 = 256 / logw;
        unsigned maxsum = len1 * (w - 1), digits = 0;
        while (maxsum) { maxsum /= w; digits++; }
        len2 = digits;
        len = len1 + len2;
    }
    // Positions revealed for a digest: base-w digits, then the base-w digits of the checksum, most significant first.
    std::vector<unsigned> positions(const uint8_t *digest) const {
        std::vector<unsigned> d(len);
        unsigned sum = 0;
        for (unsigned i = 0; i < len1; i++) {
            unsigned bit = i * logw;
            d[i] = (digest[bit / 8] >> (8 - logw - bit % 8)) & (w - 1);
            sum += w - 1 - d[i];
        }
        for (unsigned i = len2; i-- > 0;) { d[len1 + i] = sum % w; sum /= w; }
        return d;
    }
};

struct Hasher {
    int f;
    Node pub{};
    static void word(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
    static void addr(uint8_t *p, uint32_t type, uint32_t a, uint32_t b, uint32_t c, uint32_t km) {
        memset(p, 0, 12);
        word(p + 12, type); word(p + 16, a); word(p + 20, b); word(p + 24, c); word(p + 28, km);
    }
    Node prf(const uint8_t *key, const uint8_t *in32) const {
        uint8_t buf[96] = {0};
        buf[31] = 3;
        memcpy(buf + 32, key, 32); memcpy(buf + 64, in32, 32);
        Node o; H(f, buf, 96, o.data()); return o;
    }
    Node prfNum(const uint8_t *key, uint32_t v) const {
        uint8_t b[32] = {0}; word(b + 28, v); return prf(key, b);
    }
    Node F(const Node &x, uint32_t ots, uint32_t chain, uint32_t step) const {
        uint8_t a[32];
        uint8_t buf[96] = {0};
        addr(a, 0, ots, chain, step, 0);
        Node key = prf(pub.data(), a);
        addr(a, 0, ots, chain, step, 1);
        Node bm = prf(pub.data(), a);
        memcpy(buf + 32, key.data(), 32);
        for (int i = 0; i < 32; i++) buf[64 + i] = x[i] ^ bm[i];
        Node o; H(f, buf, 96, o.data()); return o;
    }
    Node Hn(const Node &l, const Node &r, uint32_t type, uint32_t tree, uint32_t height, uint32_t index) const {
        uint8_t a[32];
        uint8_t buf[128] = {0};
        buf[31] = 1;
        addr(a, type, tree, height, index, 0); Node key = prf(pub.data(), a);
        addr(a, type, tree, height, index, 1); Node m1 = prf(pub.data(), a);
        addr(a, type, tree, height, index, 2); Node m2 = prf(pub.data(), a);
        memcpy(buf + 32, key.data(), 32);
        for (int i = 0; i < 32; i++) { buf[64 + i] = l[i] ^ m1[i]; buf[96 + i] = r[i] ^ m2[i]; }
        Node o; H(f, buf, 128, o.data()); return o;
    }
    Node ltree(std::vector<Node> v, uint32_t leaf) const {
        uint32_t height = 0;
        while (v.size() > 1) {
            std::vector<Node> up;
            for (size_t i = 0; i + 1 < v.size(); i += 2) up.push_back(Hn(v[i], v[i + 1], 1, leaf, height, i / 2));
            if (v.size() % 2) up.push_back(v.back());
            v.swap(up);
            height++;
        }
        return v[0];
    }
    Bytes hmsg(const uint8_t *R, const Node &root, uint32_t idx, const Bytes &msg) const {
        Bytes b(32 + 96 + msg.size(), 0);
        b[31] = 2;
        memcpy(&b[32], R, 32); memcpy(&b[64], root.data(), 32); word(&b[96 + 28], idx);
        if (!msg.empty()) memcpy(&b[128], msg.data(), msg.size());
        Bytes o(32); H(f, b.data(), b.size(), o.data()); return o;
    }
};

struct Xmss : Hasher {
    unsigned h;
    Wots wots;
    Bytes seed;                          // 48 bytes
    Node skSeed{}, skPrf{};
    std::vector<std::vector<Node>> level; // level[0] leaves .. level[h] root
    Xmss(const Bytes &seed_, unsigned h_, int f_, unsigned w = 16, bool build = true) : h(h_), wots(w), seed(seed_) {
        f = f_;
        uint8_t exp[96];
        H(SHAKE256, seed.data(), 48, exp, 96);
        memcpy(skSeed.data(), exp, 32); memcpy(skPrf.data(), exp + 32, 32); memcpy(pub.data(), exp + 64, 32);
        if (!build) return;
        level.resize(h + 1);
        for (uint32_t i = 0; i < (1u << h); i++) level[0].push_back(leaf(i));
        for (unsigned l = 0; l < h; l++)
            for (uint32_t i = 0; i < level[l].size(); i += 2)
                level[l + 1].push_back(Hn(level[l][i], level[l][i + 1], 2, 0, l, i / 2));
    }
    Node chain(Node x, uint32_t ots, uint32_t c, unsigned from, unsigned to) const {
        for (unsigned s = from; s < to; s++) x = F(x, ots, c, s);
        return x;
    }
    Node otsSecret(uint32_t i, uint32_t c) const {
        uint8_t a[32]; addr(a, 0, i, 0, 0, 0);
        Node s = prf(skSeed.data(), a);
        return prfNum(s.data(), c);
    }
    std::vector<Node> otsSecrets(uint32_t i) const {
        uint8_t a[32]; addr(a, 0, i, 0, 0, 0);
        Node s = prf(skSeed.data(), a);
        std::vector<Node> v;
        for (unsigned c = 0; c < wots.len; c++) v.push_back(prfNum(s.data(), c));
        return v;
    }
    Node leaf(uint32_t i) const {
        auto v = otsSecrets(i);
        for (unsigned c = 0; c < wots.len; c++) v[c] = chain(v[c], i, c, 0, wots.w - 1);
        return ltree(v, i);
    }
    const Node &root() const { return level[h][0]; }
    Bytes descriptor() const { return {(uint8_t) f, (uint8_t) ((h >> 1) & 0x0f), 0}; }
    Bytes pk() const {
        Bytes p = descriptor();
        p.insert(p.end(), root().begin(), root().end());
        p.insert(p.end(), pub.begin(), pub.end());
        return p;
    }
    Bytes sk(uint32_t idx) const {
        Bytes p(4); word(p.data(), idx);
        for (const Node *n : {&skSeed, &skPrf, &pub, &root()}) p.insert(p.end(), n->begin(), n->end());
        return p;
    }
    Bytes extendedSeed() const { Bytes p = descriptor(); p.insert(p.end(), seed.begin(), seed.end()); return p; }
    Bytes otsSign(uint32_t idx, const uint8_t *digest) const {
        auto pos = wots.positions(digest);
        auto v = otsSecrets(idx);
        Bytes s;
        for (unsigned c = 0; c < wots.len; c++) { Node n = chain(v[c], idx, c, 0, pos[c]); s.insert(s.end(), n.begin(), n.end()); }
        return s;
    }
    size_t sigSize() const { return 4 + 32 + 32 * (wots.len + h); }
    Bytes sign(uint32_t idx, const Bytes &msg) const { return signAs(idx, msg, root()); }
    // What the owner of this tree can issue for a key that claims another root.
    Bytes signAs(uint32_t idx, const Bytes &msg, const Node &claimed) const {
        Bytes s(4); word(s.data(), idx);
        Node R = prfNum(skPrf.data(), idx);
        s.insert(s.end(), R.begin(), R.end());
        Bytes d = hmsg(R.data(), claimed, idx, msg);
        Bytes o = otsSign(idx, d.data());
        s.insert(s.end(), o.begin(), o.end());
        for (unsigned l = 0; l < h; l++) { const Node &n = level[l][(idx >> l) ^ 1]; s.insert(s.end(), n.begin(), n.end()); }
        return s;
    }
};

// Root obtained from a signature. h may be any height; no size checks here.
inline Node rootFromSig(int f, unsigned w, unsigned h, const Bytes &sig, const Bytes &msg, const Node &pub, const Node &root) {
    Hasher x; x.f = f; x.pub = pub;
    Wots W(w);
    uint32_t idx = (uint32_t) sig[0] << 24 | sig[1] << 16 | sig[2] << 8 | sig[3];
    Bytes d = x.hmsg(&sig[4], root, idx, msg);
    auto pos = W.positions(d.data());
    std::vector<Node> v(W.len);
    for (unsigned c = 0; c < W.len; c++) {
        Node n; memcpy(n.data(), &sig[36 + 32 * c], 32);
        for (unsigned s = pos[c]; s < w - 1; s++) n = x.F(n, idx, c, s);
        v[c] = n;
    }
    Node n = x.ltree(v, idx);
    for (unsigned l = 0; l < h; l++) {
        Node sib; memcpy(sib.data(), &sig[36 + 32 * W.len + 32 * l], 32);
        n = (idx >> l) & 1 ? x.Hn(sib, n, 2, 0, l, l + 1 < 32 ? idx >> (l + 1) : 0) : x.Hn(n, sib, 2, 0, l, l + 1 < 32 ? idx >> (l + 1) : 0);
    }
    return n;
}
inline bool verify(const Bytes &msg, const Bytes &sig, const Bytes &pk, unsigned w = 16) {
    if (pk.size() != 67) return false;
    if (w != 2 && w != 4 && w != 16 && w != 256) return false;
    int f = pk[0] & 15; unsigned h = (pk[1] & 15) * 2;
    if (f > 2 || (pk[0] >> 4) != 0 || h < 4) return false;
    Wots W(w);
    if (sig.size() != 4 + 32 + 32 * (W.len + h)) return false;
    Node root, pub;
    memcpy(root.data(), &pk[3], 32); memcpy(pub.data(), &pk[35], 32);
    return rootFromSig(f, w, h, sig, msg, pub, root) == root;
}
// Roots that a careless comparison might take for the given one: every bit, compensating and exchanged bytes.
inline std::vector<Node> nearRoots(const Node &r) {
    std::vector<Node> v;
    auto put = [&](const Node &n) { if (n != r) v.push_back(n); };
    for (int b = 0; b < 256; b++) { Node n = r; n[b / 8] ^= 1 << (b % 8); put(n); }
    for (int d : {1, 2, 4, 8, 16}) for (int i = 0; i + d < 32; i++) {
        Node n = r; n[i]++; n[i + d]--; put(n);
        n = r; n[i] ^= 0x80; n[i + d] ^= 0x80; put(n);
        n = r; std::swap(n[i], n[i + d]); put(n);
    }
    for (int k = 0; k < 32; k++) {                     // only the first or only the last k bytes agree
        Node n = r; for (int i = k; i < 32; i++) n[i] = ~n[i]; put(n);
        n = r; for (int i = 0; i < 32 - k; i++) n[i] = ~n[i]; put(n);
    }
    Node n = r; std::rotate(n.begin(), n.begin() + 1, n.end()); put(n);
    n = r; std::reverse(n.begin(), n.end()); put(n);
    n.fill(0); put(n); n.fill(255); put(n);
    return v;
}
inline Bytes address(const Bytes &pk) {
    Bytes a(pk.begin(), pk.begin() + 3);
    a[2] = 0;
    Bytes d = sha256(pk);
    a.insert(a.end(), d.begin(), d.end());
    Bytes c = sha256(a);
    a.insert(a.end(), c.end() - 4, c.end());
    return a;
}
inline std::string hex(const uint8_t *p, size_t n) {
    static const char *D = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; i++) { s += D[p[i] >> 4]; s += D[p[i] & 15]; }
    return s;
}
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
} // namespace ref

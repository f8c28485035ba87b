// C13: Winternitz positions read back from the real one-time signatures and from the real recomputation of the public key.
#include <qrl.hpp>
#include <xmss-alt/wots.h>
using namespace mc;
typedef std::vector<int> Pos;
struct Ots {      // one key pair; chain[c] maps every value of chain c to its position
    unsigned w; int f;
    wots_params p{};
    ref::Xmss r;
    uint32_t leaf;
    uint8_t seed[32];
    std::vector<std::map<ref::Node, int>> chain;
    std::vector<ref::Node> start;
    Bytes pk;
    void addr(uint32_t a[8]) const { memset(a, 0, 32); a[4] = leaf; }
    Ots(Ctx &c, int f_, unsigned w_, uint32_t leaf_) : w(w_), f(f_), r(seedN(1300 + f_), 4, f_, w_, false), leaf(leaf_) {
        wots_set_params(&p, 32, w);
        c.check(p.len == r.wots.len && p.len_1 == r.wots.len1 && p.len_2 == r.wots.len2 && p.w == w && p.keysize == 32 * r.wots.len && p.n == 32,
                "w=%u: parameters are len_1=%u len_2=%u len=%u keysize=%u, XMSS prescribes %u+%u", w, p.len_1, p.len_2, p.len, p.keysize, r.wots.len1, r.wots.len2);
        uint8_t a[32];
        ref::Hasher::addr(a, 0, leaf, 0, 0, 0);
        ref::Node s = r.prf(r.skSeed.data(), a);
        memcpy(seed, s.data(), 32);
        start = r.otsSecrets(leaf);
        chain.resize(p.len);
        for (unsigned i = 0; i < p.len; i++) {
            ref::Node n = start[i];
            for (unsigned k = 0; k < w; k++) { chain[i][n] = k; if (k + 1 < w) n = r.F(n, leaf, i, k); }
            c.check(chain[i].size() == w, "chain values collide");
        }
        pk.assign(p.keysize + 16, 0xa7);
        uint32_t ad[8]; addr(ad);
        wots_pkgen(HF(f), pk.data(), seed, &p, r.pub.data(), ad);
        for (unsigned i = 0; i < p.len; i++) c.check(at(pk, i) == (int) w - 1, "public key chain %u is not the end of its chain", i);
        tail(c, pk, "wots_pkgen");
    }
    int at(const Bytes &b, unsigned i) const { ref::Node n; memcpy(n.data(), &b[32 * i], 32); auto it = chain[i].find(n); return it == chain[i].end() ? -1 : it->second; }
    void tail(Ctx &c, const Bytes &b, const char *what) const { for (size_t i = p.keysize; i < b.size(); i++) c.check(b[i] == 0xa7, "%s wrote past its output", what); }
    // positions the signer reveals; also checks that verification walks exactly the rest of each chain
    Pos positions(Ctx &c, const Bytes &d, bool both) const {
        uint32_t ad[8]; addr(ad);
        Bytes sig(p.keysize + 16, 0xa7), dd = d;
        wots_sign(HF(f), sig.data(), dd.data(), seed, &p, r.pub.data(), ad);
        tail(c, sig, "wots_sign");
        Pos o;
        for (unsigned i = 0; i < p.len; i++) {
            int k = at(sig, i);
            c.check(k >= 0, "signature chain %u is not a value of its chain", i);
            o.push_back(k);
        }
        if (both) {
            addr(ad);
            Bytes got(p.keysize + 16, 0xa7), s0 = sig;
            wots_pkFromSig(HF(f), got.data(), sig.data(), dd.data(), &p, r.pub.data(), ad);
            c.check(!memcmp(got.data(), pk.data(), p.keysize), "the public key recomputed from the signature differs");
            tail(c, got, "wots_pkFromSig");
            c.check(sig == s0 && dd == d, "verification modified its input");
            // from the chain starts the remaining steps are w-1-position; an independent view of what verification uses
            addr(ad);
            Bytes zs;
            for (auto &n : start) zs.insert(zs.end(), n.begin(), n.end());
            zs.resize(zs.size() + 16);
            wots_pkFromSig(HF(f), got.data(), zs.data(), dd.data(), &p, r.pub.data(), ad);
            // hash addresses differ when the walk starts elsewhere, so only positions 0 can reach the end
            for (unsigned i = 0; i < p.len; i++) c.check((memcmp(&got[32 * i], &pk[32 * i], 32) == 0) == (o[i] == 0), "signing used position %d of chain %u, verification another", o[i], i);
        }
        c.evalDistinct();
        return o;
    }
};
static void setDigit(Bytes &d, unsigned logw, unsigned i, unsigned v) {
    unsigned bit = i * logw, sh = 8 - logw - bit % 8, m = ((1u << logw) - 1) << sh;
    d[bit / 8] = (d[bit / 8] & ~m) | (v << sh);
}
static bool geq(const Pos &a, const Pos &b) { for (size_t i = 0; i < a.size(); i++) if (a[i] < b[i]) return false; return true; }
static void digits(int f, unsigned w, int part, int parts, bool all) {
    add("digits/" + std::string(hname(f)) + "/w" + std::to_string(w) + "/" + std::to_string(part), [=](Ctx &c) {
        probeHash();
        Ots o(c, f, w, 5 + part);
        unsigned L = o.r.wots.logw, n = o.r.wots.len1;
        for (unsigned base : {0u, w - 1, w / 2}) {
            Bytes b(32);
            for (unsigned i = 0; i < n; i++) setDigit(b, L, i, base);
            Pos pb = o.positions(c, b, true);
            for (unsigned i = part; i < n; i += parts) for (unsigned v = 0; v < w; v++) {
                if (!all && w == 256 && !(v < 3 || v > 252 || v % 16 == 0 || v % 16 == 15 || v == base || (v + i) % 13 == 0)) continue;
                Bytes d = b;
                setDigit(d, L, i, v);
                c.at("%s w=%u digest %s (digit %u = %u)", hname(f), w, ref::hex(d).c_str(), i, v);
                Pos p = o.positions(c, d, v % 5 == 0 || w <= 16);
                c.check(p[i] == (int) v, "digit %u is %u but its chain reveals position %d", i, v, p[i]);
                for (unsigned j = 0; j < n; j++) if (j != i) c.check(p[j] == (int) base, "changing digit %u changed the position of digit %u", i, j);
                if (v != base) c.check(!geq(p, pb) && !geq(pb, p), "positions of two digests dominate each other");
                auto want = o.r.wots.positions(d.data());
                for (unsigned j = 0; j < p.size(); j++) c.check(p[j] == (int) want[j], "chain %u reveals position %d, the checksum prescribes %u", j, p[j], want[j]);
            }
        }
        c.sample(c.shared);
    });
}
// The checksum part as a function of the digit sum, read from the implementation for every reachable sum, then every pair.
static void sums(int f, unsigned w, bool th) {
    add("sums/" + std::string(hname(f)) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Ots o(c, f, w, 3);
        unsigned L = o.r.wots.logw, n = o.r.wots.len1, max = n * (w - 1);
        std::vector<Pos> cs;
        for (unsigned sum = 0; sum <= max; sum++) {
            Pos first;
            for (int shape = 0; shape < 3; shape++) {
                if (shape == 2 && w == 256 && !th && sum % 7) continue;
                Bytes d(32);
                unsigned left = sum;
                for (unsigned k = 0; k < n; k++) {
                    unsigned i = shape == 0 ? k : shape == 1 ? n - 1 - k : (k * 7 + sum) % n;
                    unsigned v = shape == 2 ? std::min(w - 1, (left + (n - k) - 1) / (n - k)) : std::min(w - 1, left);
                    if (shape == 2 && n % 7 == 0) v = 0;
                    setDigit(d, L, i, v);
                    left -= v;
                }
                if (left) continue;
                c.at("%s w=%u digit sum %u digest %s", hname(f), w, sum, ref::hex(d).c_str());
                Pos p = o.positions(c, d, shape == 0 || w <= 16);
                Pos tail(p.begin() + n, p.end());
                for (int v : tail) c.check(v >= 0 && v < (int) w, "checksum position out of range");
                if (shape == 0) first = tail;
                else c.check(tail == first, "the checksum positions depend on more than the digit sum");
            }
            cs.push_back(first);
        }
        // a digest whose digits are all at or above another's has the larger digit sum: its checksum must not be at or above too
        for (unsigned a = 0; a <= max; a++) for (unsigned b = a + 1; b <= max; b++) {
            c.evals++;
            if (geq(cs[b], cs[a])) { c.at("%s w=%u digit sums %u and %u", hname(f), w, a, b); c.fail("the checksum of the larger digit sum dominates the smaller one's"); }
        }
        c.states += max + 1; c.transitions += (uint64_t) max * (max + 1) / 2;
        c.sample(c.shared);
    });
}
// every single-bit change of a digest, every pair of such changes
static void bits(int f, unsigned w, bool th) {
    add("bits/" + std::string(hname(f)) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Ots o(c, f, w, 9);
        for (int s = 0; s < (th ? 6 : 2); s++) {
            Bytes d = msgN(32, 1310 + s);
            std::vector<Pos> P;
            P.push_back(o.positions(c, d, true));
            for (int b = 0; b < 256; b++) {
                Bytes e = d; e[b / 8] ^= 1 << (b % 8);
                c.at("%s w=%u digest %s with bit %d flipped", hname(f), w, ref::hex(d).c_str(), b);
                P.push_back(o.positions(c, e, th));
            }
            for (size_t a = 0; a < P.size(); a++) for (size_t b = 0; b < P.size(); b++) if (a != b) {
                c.evals++;
                if (geq(P[a], P[b])) { c.at("%s w=%u digest %s, variations %zu and %zu", hname(f), w, ref::hex(d).c_str(), a, b); c.fail("one digest's positions dominate another's"); }
            }
        }
        c.sample(c.shared);
    });
}
// A signature advanced along its chains never verifies for the digest it was advanced to.
static void forge(int f, unsigned w) {
    add("forge/" + std::string(hname(f)) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Ots o(c, f, w, 2);
        unsigned L = o.r.wots.logw, n = o.r.wots.len1;
        Bytes d(32);
        for (unsigned i = 0; i < n; i++) setDigit(d, L, i, i % w == w - 1 ? w - 2 : i % w);
        auto pos = o.r.wots.positions(d.data());
        for (unsigned i = 0; i < n; i++) for (unsigned j = i; j < n; j += (w == 2 ? 9 : 3)) {
            Bytes e = d;
            setDigit(e, L, i, std::min(w - 1, pos[i] + 1));
            if (j != i) setDigit(e, L, j, std::min(w - 1, pos[j] + 1));
            if (e == d) continue;
            c.at("%s w=%u signature of %s advanced to %s", hname(f), w, ref::hex(d).c_str(), ref::hex(e).c_str());
            auto to = o.r.wots.positions(e.data());
            Bytes sig;
            for (unsigned k = 0; k < o.p.len; k++) {   // what an attacker can compute: never behind the revealed position
                ref::Node x = o.r.chain(o.start[k], o.leaf, k, 0, std::max(pos[k], to[k]));
                sig.insert(sig.end(), x.begin(), x.end());
            }
            Bytes got(o.p.keysize);
            uint32_t ad[8]; o.addr(ad);
            wots_pkFromSig(HF(f), got.data(), sig.data(), e.data(), &o.p, o.r.pub.data(), ad);
            c.evalDistinct();
            c.check(memcmp(got.data(), o.pk.data(), o.p.keysize) != 0, "forged");
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        bool fast = ref::g_fast;
        for (int f = 0; f < 3; f++) for (unsigned w : {2u, 4u, 16u, 256u}) {
            if (!fast && !th && (w == 256 || (f == 2 && w == 2))) continue;
            if (fast && !th && f != 1 && w == 256) { bits(f, w, false); forge(f, w); continue; }
            int parts = w == 256 ? 8 : (w == 2 && !fast) ? 4 : 2;
            for (int p = 0; p < parts; p++) digits(f, w, p, parts, th);
            if (fast || w <= 4 || th) sums(f, w, th);
            bits(f, w, th);
            forge(f, w);
        }
        // every other parameter is refused
        for (int part = 0; part < 4; part++) add("parameters/" + std::to_string(part), [=](Ctx &c) {
            auto one = [&](int w) {
                if (w == 2 || w == 4 || w == 16 || w == 256) return;
                c.at("wots_set_params(32, %d)", w);
                wots_params p{};
                bool refused = false;
                try { wots_set_params(&p, 32, w); } catch (std::invalid_argument &) { refused = true; }
                c.evalDistinct();
                if (refused) return;
                // accepted: then every bit of a digest must count
                auto pos = [&](const Bytes &d) {
                    Bytes sig(p.keysize + 64), dd = d; dd.resize(64);
                    uint8_t seed[32] = {1}, pub[32] = {2};
                    uint32_t ad[8] = {0};
                    wots_sign(HF(1), sig.data(), dd.data(), seed, &p, pub, ad);
                    return sig;
                };
                c.check(p.len_1 > 0 && p.len_1 <= 256 && p.len_2 > 0 && p.len_2 < 64 && p.keysize == 32 * p.len && w > 1 && w <= 65536, "an unusable parameter was accepted");
                Bytes d(32, 0x55), s0 = pos(d);
                for (int b = 0; b < 256; b++) {
                    Bytes e = d; e[b / 8] ^= 1 << (b % 8);
                    c.check(pos(e) != s0, "accepted, but bit %d of the digest does not influence the signature", b);
                }
                c.fail("accepted, although only 2, 4, 16 and 256 are known to carry a sound checksum");
            };
            for (int w = -3000 + part; w <= 70000; w += 4) one(w);
            for (int k = 12; k < 31; k++) for (int d = -2; d <= 2; d++) if ((k + d) % 4 == part) { one((1 << k) + d); one(-(1 << k) + d); }
            if (!part) { one(INT32_MIN); one(INT32_MAX); for (int b : {8, 16, 24}) for (int w : {2, 4, 16, 256}) one(w | 1 << b); for (int w : {2, 4, 16, 256}) one((int) (0x80000000u | w)); }
            c.sample(c.shared);
        });
    });
}

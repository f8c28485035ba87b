// C06: bit-exact agreement of keys, signatures and verdicts with the reference construction.
#include <qrl.hpp>
using namespace mc;
static void keys(Ctx &c, XmssBase &x, const ref::Xmss &r, const char *what) {
    auto sub = [](const Bytes &b, size_t o) { return Bytes(b.begin() + o, b.begin() + o + 32); };
    Bytes sk = r.sk(x.getIndex()), pk = r.pk();
    c.check(x.getSKSeed() == sub(sk, 4), "%s: secret seed differs", what);
    c.check(x.getSKPRF() == sub(sk, 36), "%s: secret PRF key differs", what);
    c.check(x.getPKSeed() == sub(sk, 68), "%s: public seed differs", what);
    c.check(x.getRoot() == sub(sk, 100), "%s: root differs", what);
    c.check(x.getSK() == sk, "%s: secret key differs", what);
    c.check(x.getPK() == pk, "%s: public key differs", what);
    c.check(x.getSeed() == r.seed, "%s: seed differs", what);
    c.evalDistinct(7);
}
static void tree(int f, unsigned h, unsigned w, uint64_t sd, uint32_t step, bool basic) {
    add("tree/" + std::string(hname(f)) + "/h" + std::to_string(h) + "/w" + std::to_string(w) + "/seed" + std::to_string(sd), [=](Ctx &c) {
        probeHash();
        Bytes seed = sd == 0 ? Bytes(48, 0) : sd == 1 ? Bytes(48, 255) : seedN(600 + sd);
        ref::Xmss r(seed, h, f, w);
        c.at("%s h=%u w=%u seed %lu: keys", hname(f), h, w, (unsigned long) sd);
        auto x = mkFast(seed, h, f, w);
        keys(c, *x, r, "fast");
        std::unique_ptr<XmssBase> b;
        if (basic) { b = mkBasic(seed, h, f, w); keys(c, *b, r, "basic"); }
        for (uint32_t i = 0; i < (1u << h); i += (i + step < (1u << h) || i + 1 == (1u << h)) ? step : (1u << h) - 1 - i) {
            Bytes m = msgN((i * 17) % 200, i);
            c.at("%s h=%u w=%u seed %lu index %u msglen %zu", hname(f), h, w, (unsigned long) sd, i, m.size());
            if (x->getIndex() != i) x->setIndex(i);
            Bytes want = r.sign(i, m);
            Bytes s = x->sign(m);
            c.evalDistinct();
            c.check(s == want, "fast signature differs from the reference");
            c.check(XmssBase::verify(m, want, r.pk(), w), "reference signature not accepted");
            if (b && (h <= 4 || i % (5 * step) == 0)) {
                if (b->getIndex() != i) b->setIndex(i);
                c.check(b->sign(m) == want, "basic signature differs from the reference");
            }
            if (i + 1 == (1u << h)) break;
        }
        c.sample(c.shared);
    });
}
static void seedBits(int f, unsigned from, unsigned to, bool sign) {
    add("seedbits/" + std::string(hname(f)) + "/" + std::to_string(from), [=](Ctx &c) {
        probeHash();
        for (unsigned bit = from; bit < to; bit++) {
            Bytes seed = seedN(650);
            if (bit < 384) seed[bit / 8] ^= 1 << (bit % 8);
            else { seed.assign(48, 0); seed[bit - 384] = 1; }
            c.at("%s h=4 w=16 seed variation %u", hname(f), bit);
            ref::Xmss r(seed, 4, f, 16);
            XmssFast x(seed, 4, HF(f), eAddrFormatType::SHA256_2X);
            keys(c, x, r, "fast");
            if (sign) { Bytes m = msgN(bit % 60, bit); x.setIndex(bit % 16); c.check(x.sign(m) == r.sign(bit % 16, m), "signature differs"); c.evalDistinct(); }
        }
        c.sample(c.shared);
    });
}
// Seeds with structure: every byte position at its extremes, repetitions, and the text-like and counter-like seeds users type.
static void seedShapes(int f, unsigned part, unsigned parts) {
    add("seedshapes/" + std::string(hname(f)) + "/" + std::to_string(part), [=](Ctx &c) {
        probeHash();
        std::vector<Bytes> S;
        for (unsigned p = 0; p < 48; p++) for (int v : {0, 1, 0x7f, 0x80, 0xff}) { Bytes s = seedN(651); s[p] = v; S.push_back(s); }
        for (int v = 0; v < 256; v += 5) S.push_back(Bytes(48, v));
        for (unsigned n = 1; n < 48; n++) for (int v : {0, 255}) {
            Bytes s = seedN(652 + n);
            std::fill(s.begin(), s.begin() + n, v); S.push_back(s);
            s = seedN(653 + n);
            std::fill(s.end() - n, s.end(), v); S.push_back(s);
        }
        for (unsigned q : {1u, 2u, 3u, 16u, 24u, 32u}) { Bytes s = seedN(654); for (unsigned p = q; p < 48; p++) s[p] = s[p - q]; S.push_back(s); }
        { Bytes s(48); for (unsigned p = 0; p < 48; p++) s[p] = p; S.push_back(s); std::reverse(s.begin(), s.end()); S.push_back(s); for (unsigned p = 0; p < 48; p++) s[p] = "0123456789abcdef"[p % 16]; S.push_back(s); }
        for (size_t i = part; i < S.size(); i += parts) {
            c.at("%s h=4 w=16 seed %s", hname(f), ref::hex(S[i]).c_str());
            ref::Xmss r(S[i], 4, f, 16);
            XmssFast x(S[i], 4, HF(f), eAddrFormatType::SHA256_2X);
            keys(c, x, r, "fast");
            Bytes m = S[i];
            for (unsigned j : {0u, (unsigned) i % 15 + 1}) { x.setIndex(j); c.check(x.sign(m) == r.sign(j, m), "signature %u of the seed itself differs", j); c.evalDistinct(); }
        }
        c.sample(c.shared);
    });
}
// Messages of any length: the reference's bytes from the signer, and the reference's signature accepted.
static void messages(int f, unsigned part, unsigned parts, bool th) {
    add("messages/" + std::string(hname(f)) + "/" + std::to_string(part), [=](Ctx &c) {
        probeHash();
        std::vector<size_t> L;
        for (size_t n = 0; n < (th ? 1200 : 600); n++) L.push_back(n);
        for (size_t p = 512; p <= (1 << 20); p *= 2) for (int d = -1; d <= 1; d++) L.push_back(p + d);
        for (size_t q : {136, 168, 64}) for (size_t k : {7, 15, 16, 31, 33, 100, 481}) for (int d = -1; d <= 1; d++) L.push_back(q * k + d);
        if (th) for (size_t p : {(1 << 22) + 5, (1 << 24) - 1, 1 << 24, (1 << 24) + 1}) L.push_back(p);
        ref::Xmss r(seedN(670), 4, f, 16);
        auto x = mkFast(seedN(670), 4, f, 16);
        Bytes pk = r.pk();
        unsigned i = 0;
        for (size_t k = part; k < L.size(); k += parts) {
            if (++i == 16) { i = 0; x = mkFast(seedN(670), 4, f, 16); }
            x->setIndex(i);
            for (int fill = 0; fill < (L[k] < 300 ? 3 : 1); fill++) {
                if (fill && i + fill > 15) break;
                Bytes m = fill == 1 ? Bytes(L[k], 0) : fill == 2 ? Bytes(L[k], 255) : msgN(L[k], k);
                unsigned at = x->getIndex();
                c.at("%s h=4 w=16 index %u, message of %zu bytes (%s)", hname(f), at, L[k], fill == 0 ? "mixed" : fill == 1 ? "zeros" : "255s");
                Bytes want = r.sign(at, m);
                c.check(x->sign(m) == want, "signature differs from the reference");
                c.check(XmssBase::verify(m, want, pk, 16), "reference signature not accepted");
                c.evalDistinct(2);
                i = at;
            }
        }
        c.sample(c.shared);
    });
}
// Trees of any height: one real leaf, arbitrary siblings; the root follows from the construction.
static void synthetic(int f, unsigned h, unsigned w, bool full) {
    add("synthetic/" + std::string(hname(f)) + "/h" + std::to_string(h) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        ref::Xmss r(seedN(660 + f), h, f, w, false);
        uint64_t N = 1ULL << h;
        std::vector<uint64_t> I = {0, 1, 2, 3, N / 2 - 1, N / 2, N - 2, N - 1, 255, 256, 65535, 65536, (1u << 24) - 1, 1u << 24, 0x5555555555 % N, 0x2aaaaaaaaa % N, 0x1234567 % N};
        for (unsigned b = 0; b < h; b++) { I.push_back(1ULL << b); I.push_back((N - 1) ^ (1ULL << b)); }
        std::sort(I.begin(), I.end());
        I.erase(std::unique(I.begin(), I.end()), I.end());
        for (uint64_t i64 : I) {
            if (i64 >= N) continue;
            uint32_t i = i64;
            if (!full && w == 256 && i % 3 == 1) continue;
            ref::Node n = r.leaf(i);
            std::vector<ref::Node> path(h);
            for (unsigned l = 0; l < h; l++) {
                Bytes p = msgN(32, i * 64ULL + l);
                memcpy(path[l].data(), p.data(), 32);
                n = (i >> l) & 1 ? r.Hn(path[l], n, 2, 0, l, i >> (l + 1)) : r.Hn(n, path[l], 2, 0, l, i >> (l + 1));
            }
            Bytes pk = {(uint8_t) f, (uint8_t) (h / 2), 0};
            pk.insert(pk.end(), n.begin(), n.end());
            pk.insert(pk.end(), r.pub.begin(), r.pub.end());
            Bytes m = msgN(i % 80, h);
            Bytes s(4);
            ref::Hasher::word(s.data(), i);
            Bytes R = msgN(32, i);
            s.insert(s.end(), R.begin(), R.end());
            Bytes d = r.hmsg(R.data(), n, i, m);
            Bytes o = r.otsSign(i, d.data());
            s.insert(s.end(), o.begin(), o.end());
            for (auto &p : path) s.insert(s.end(), p.begin(), p.end());
            c.at("%s h=%u w=%u index %u, synthetic path", hname(f), h, w, i);
            c.evalDistinct();
            c.check(XmssBase::verify(m, s, pk, w), "valid signature rejected");
            // near misses: each path node, the neighbour index, the highest index bit
            for (unsigned l = 0; l < h; l += full ? 1 : 1 + h / 6) {
                Bytes t = s;
                t[t.size() - 32 * (h - l)] ^= 1;
                c.evalDistinct();
                c.check(!XmssBase::verify(m, t, pk, w), "accepted with sibling of level %u changed", l);
            }
            for (unsigned b : {0u, h - 1, h / 2}) {
                Bytes t = s;
                ref::Hasher::word(t.data(), i ^ (1u << b));
                c.evalDistinct();
                c.check(!XmssBase::verify(m, t, pk, w), "accepted under index %u", i ^ (1u << b));
            }
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        if (!ref::g_fast) {
            for (int f = 0; f < 3; f++) {
                for (unsigned w : {2u, 4u, 16u, 256u}) tree(f, 4, w, f + 2, w == 256 ? 5 : 1, true);
                tree(f, 4, 16, 0, 3, true); tree(f, 4, 16, 1, 3, true); tree(f, 6, 16, 9, 3, th); tree(f, 8, 16, 10, th ? 1 : 37, false);
                for (unsigned a = 0; a < 432; a += 27) { if (f == 1 || th) seedBits(f, a, a + 27, true); else seedBits(f, a, a + 3, true); }
                for (unsigned h = 4; h <= 30; h += 2) synthetic(f, h, 16, th);
                for (unsigned w : {2u, 4u}) { synthetic(f, 30, w, th); synthetic(f, 12, w, th); }
                if (th) { synthetic(f, 30, 256, true); tree(f, 10, 16, 11, 7, false); }
            }
            for (int f = 0; f < 3; f++) for (unsigned p = 0; p < 4; p++) { if (th || f == 1 || p == 0) seedShapes(f, p, th ? 4 : 12); messages(f, p, 4, th); }
        } else {
            for (int f = 0; f < 3; f++) for (unsigned p = 0; p < 3; p++) { seedShapes(f, p, 3); messages(f, p, 3, th); }
            for (int f = 0; f < 3; f++) {
                for (unsigned w : {2u, 4u, 16u, 256u}) { tree(f, 4, w, 20, 1, true); tree(f, 6, w, 21, 1, false); for (unsigned h = 4; h <= 30; h += 2) synthetic(f, h, w, true); }
                for (unsigned w : {2u, 16u}) tree(f, 8, w, 22, 1, false);
                tree(f, 10, 2, 23, 1, false);
                for (unsigned a = 0; a < 432; a += 54) seedBits(f, a, a + 54, true);
                if (th) { tree(f, 10, 16, 24, 1, false); tree(f, 12, 4, 25, 1, false); tree(f, 14, 2, 25, 3, false); tree(f, 16, 2, 26, 11, false); }
            }
        }
    });
}

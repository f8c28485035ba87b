// C03: fast signer output as a function of (seed, index, message) only. All histories over {sign, skip} of a 16-leaf tree,
// all jumps, all jump pairs; long walks with every stride; each signature compared with the full-tree model.
#include <qrl.hpp>
using namespace mc;
static Bytes mm(uint32_t i) { return msgN(1 + i % 37, i); }
static void expect(Ctx &c, XmssBase &x, const ref::Xmss &r, uint32_t i) {
    c.transitions++; c.traces++;
    c.check(x.getIndex() == i, "index %u, expected %u", x.getIndex(), i);
    Bytes m = mm(i), s = x.sign(m);
    static std::map<std::pair<const ref::Xmss *, uint32_t>, Bytes> memo;
    Bytes &e = memo[{&r, i}];
    if (e.empty()) e = r.sign(i, m);
    if (s == e) return;
    size_t p = 0;
    while (p < s.size() && p < e.size() && s[p] == e[p]) p++;
    c.fail("signature at index %u differs from the full-tree one at byte %zu (authentication path starts at %zu)", i, p, e.size() - 32 * r.h);
}
static void query(XmssBase &x) {
    x.getPK(); x.getSK(); x.getAddress(); x.getExtendedSeed(); x.getRoot(); x.getPKSeed(); x.getSKPRF(); x.getSKSeed();
    x.getRemainingSignatures(); x.getSignatureSize(); x.getSignatureSize(4); x.getDescriptorBytes(); x.getDescriptor(); x.getSeed();
    XmssBase::verify({1, 2}, Bytes(2308, 1), x.getPK());
}
// bit i of the history set: sign leaf i; clear: leave it unused and jump over it (adjacent clear bits form one jump)
static void histories(int f, unsigned w, unsigned from, unsigned to) {
    add("subsets/h4/" + std::string(hname(f)) + "/w" + std::to_string(w) + "/" + std::to_string(from), [=](Ctx &c) {
        probeHash();
        Bytes seed = seedN(300 + f);
        ref::Xmss r(seed, 4, f, w);
        for (unsigned b = from; b < to; b++) {
            int pop = __builtin_popcount(b);
            if (!c.thorough && pop > 3 && pop < 13 && (b & 255) != b >> 8) continue;
            c.at("h=4 w=%u %s leaves signed = bit set 0x%04x, the others jumped over", w, hname(f), b);
            auto x = mkFast(seed, 4, f, w);
            c.states++;
            for (unsigned i = 0; i < 16; i++) if (b >> i & 1) {
                if (x->getIndex() != i) { x->setIndex(i); c.transitions++; }
                expect(c, *x, r, i);
            }
        }
        c.sample(c.shared);
    });
}
// from i jump to j (refused jumps and queries in between), then sign every remaining leaf
static void jumps(int f, unsigned h, unsigned w, uint32_t i0, uint32_t i1, uint32_t tail, bool pairs) {
    add("jumps/h" + std::to_string(h) + "/" + hname(f) + "/w" + std::to_string(w) + "/" + std::to_string(i0), [=](Ctx &c) {
        probeHash();
        Bytes seed = seedN(310 + f + h);
        ref::Xmss r(seed, h, f, w);
        uint32_t N = 1u << h;
        for (uint32_t i = i0; i < i1; i++) for (uint32_t j = i; j < N; j++) for (uint32_t k = pairs ? j + 1 : N; k <= N; k++) {
            c.at("h=%u w=%u %s setIndex(%u), sign, setIndex(%u), refused setIndex, queries, sign%s, then sign on", h, w, hname(f), i, j + 1, k < N ? (", setIndex(" + std::to_string(k) + ")").c_str() : "");
            auto x = mkFast(seed, h, f, w);
            c.states++;
            x->setIndex(i); c.transitions++;
            expect(c, *x, r, i);
            if (j + 1 < N) {
                x->setIndex(j + 1); c.transitions++;
                try { x->setIndex(i); } catch (std::exception &) {}
                try { x->setIndex(N); } catch (std::exception &) {}
                query(*x);
                uint32_t p = j + 1;
                if (k < N) { expect(c, *x, r, p); p++; if (k > p) { x->setIndex(k); p = k; c.transitions++; } }
                for (uint32_t t = 0; p < N && t < tail; p++, t++) expect(c, *x, r, p);
            }
            if (k >= N) break;
        }
        c.sample(c.shared);
    });
}
static void stride(int f, unsigned h, unsigned w, uint32_t st, uint32_t burst) {
    add("stride/h" + std::to_string(h) + "/" + hname(f) + "/w" + std::to_string(w) + "/" + std::to_string(st) + "+" + std::to_string(burst), [=](Ctx &c) {
        probeHash();
        Bytes seed = seedN(320 + f + h);
        ref::Xmss r(seed, h, f, w);
        auto x = mkFast(seed, h, f, w);
        c.check(x->getPK() == r.pk(), "public key differs from the full-tree one");
        uint32_t N = 1u << h;
        for (uint32_t i = st - 1; i < N; i += st) {
            c.at("h=%u w=%u %s jump to every %u-th index and sign %u there; now at %u", h, w, hname(f), st, burst, i);
            x->setIndex(i); c.transitions++;
            c.states++;
            for (uint32_t b = 0; b < burst && b < st && i + b < N; b++) expect(c, *x, r, i + b);
        }
        c.sample(c.shared);
    });
}
// Basic and fast signer of the same seed: keys, address, signatures; basic may go anywhere.
static void twin(int f, unsigned h, unsigned w, uint32_t step) {
    add("twin/h" + std::to_string(h) + "/" + hname(f) + "/w" + std::to_string(w), [=](Ctx &c) {
        probeHash();
        Bytes seed = seedN(330 + f + h);
        ref::Xmss r(seed, h, f, w);
        auto b = mkBasic(seed, h, f, w);
        auto x = mkFast(seed, h, f, w);
        c.at("h=%u w=%u %s", h, w, hname(f));
        auto same = [&] {
            c.check(b->getPK() == x->getPK() && b->getSK() == x->getSK() && b->getAddress() == x->getAddress() && b->getRoot() == x->getRoot() &&
                    b->getPKSeed() == x->getPKSeed() && b->getSKPRF() == x->getSKPRF() && b->getSKSeed() == x->getSKSeed() && b->getExtendedSeed() == x->getExtendedSeed() &&
                    b->getSignatureSize(w) == x->getSignatureSize(w) && b->getIndex() == x->getIndex(), "basic and fast signer disagree about keys, address or index");
            c.check(b->getPK() == r.pk(), "public key differs from the full-tree one");
        };
        same();
        for (uint32_t i = 0; i < (1u << h); i += step) {
            c.at("h=%u w=%u %s index %u", h, w, hname(f), i);
            c.states++;
            if (b->getIndex() != i) { b->setIndex(i); x->setIndex(i); }
            Bytes m = mm(i);
            Bytes sb = b->sign(m), sx = x->sign(m);
            c.transitions++; c.traces += 2;
            c.check(sb == sx, "basic and fast signature differ at index %u", i);
            c.check(sb == r.sign(i, m), "signature at index %u differs from the full-tree one", i);
            same();
        }
        // Extended-seed construction is the same signer
        XmssFast y(x->getExtendedSeed());
        if (w == 16) { expect(c, y, r, 0); y.setIndex(3); expect(c, y, r, 3); }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        if (ref::g_fast) {
            for (unsigned a = 0; a < 65536; a += 2048) histories(1, 2, a, a + 2048);
            for (int f = 0; f < 3; f++) for (unsigned w : {2u, 4u, 16u, 256u}) if (f != 1 || w != 2) { jumps(f, 4, w, 0, 16, 16, w == 2); }
            for (uint32_t i = 0; i < 64; i += 2) jumps(1, 6, 2, i, i + 2, th ? 64 : 12, false);
            for (int f = 0; f < 3; f++) for (unsigned h : {6u, 8u, 10u})
                for (uint32_t st : {1u, 2u, 3u, 4u, 5u, 7u, 8u, 9u, 15u, 16u, 17u, 31u, 33u, 63u, 64u, 65u}) { if (h == 10 && (f != 1 || st % 2 == 0) && !th) continue; stride(f, h, 2, st, 1); if (st > 3) stride(f, h, h == 6 ? 4 : 2, st, 3); }
            for (int f = 0; f < 3; f++) for (unsigned w : {2u, 4u, 16u}) { twin(f, 4, w, 1); twin(f, 6, w, 1); }
            for (int f = 0; f < 3; f++) { twin(f, 8, 2, 13); twin(f, 4, 256, 1); stride(f, 8, 16, 1, 1); if (th || f == 1) stride(f, 12, 2, th ? 1 : 5, 2); }
            if (th) {
                for (int f = 0; f < 3; f += 2) for (unsigned a = 0; a < 65536; a += 2048) histories(f, 2, a, a + 2048);
                for (uint32_t i = 0; i < 256; i += 4) jumps(2, 8, 2, i, i + 4, 4, false);
                for (uint32_t st : {1u, 3u, 127u, 129u}) { stride(1, 14, 2, st, 4); stride(2, 12, 4, st, 4); }
                stride(1, 16, 2, 1, 1); stride(1, 16, 2, 5, 2); stride(0, 18, 2, 3, 1); 
                for (int f = 0; f < 3; f++) { twin(f, 10, 2, 101); twin(f, 8, 16, 7); }
            }
        } else {
            for (int f = 0; f < 3; f++) for (unsigned w : {2u, 4u, 16u, 256u}) twin(f, 4, w, w == 256 ? 3 : 1);
            for (int f = 0; f < 3; f++) { stride(f, 6, 16, 1, 1); stride(f, 6, 16, 3, 1); stride(f, 6, 2, 5, 2); stride(f, 8, 16, th ? 1 : 31, 3); }
            if (th) for (int f = 0; f < 3; f++) { jumps(f, 4, 16, 0, 16, 16, false); stride(f, 10, 16, 1, 1); }
        }
    });
}

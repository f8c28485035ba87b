// C01: every state of every signer in the configuration lattice issues a signature that verifies.
#include <qrl.hpp>
using namespace mc;
static std::vector<size_t> lens(bool big) {
    std::vector<size_t> v = {0, 1, 2, 3, 31, 32, 33, 55, 56, 63, 64, 65, 100, 103, 104, 127, 128, 135, 136, 137, 167, 168, 169, 255, 256, 257, 300, 500, 511, 512, 1000};
    if (big) for (size_t x : {4095, 4096, 4097, 65535, 65536, 65537}) v.push_back(x);
    return v;
}
static void one(Ctx &c, XmssBase &x, const Bytes &pk, uint32_t idx, unsigned w, const Bytes &m, size_t refSize) {
    auto keep = m;
    Bytes s = x.sign(m);
    c.transitions++; c.traces++;
    c.check(m == keep, "sign modified the message");
    c.check(s.size() == x.getSignatureSize(w), "signature has %zu bytes, announced %u", s.size(), x.getSignatureSize(w));
    c.check(s.size() == refSize, "signature has %zu bytes, XMSS prescribes %zu", s.size(), refSize);
    uint32_t i = (uint32_t) s[0] << 24 | s[1] << 16 | s[2] << 8 | s[3];
    c.check(i == idx, "signature carries index %u, signer was at %u", i, idx);
    c.check(x.getIndex() == idx + 1, "index after signing %u, expected %u", x.getIndex(), idx + 1);
    c.check(x.getPK() == pk, "public key changed by signing");
    c.check(XmssBase::verify(m, s, pk, w), "signature at index %u of a %zu-byte message does not verify", idx, m.size());
    if (w == 16) c.check(XmssBase::verify(m, s, pk), "signature does not verify with the default parameter");
}
static void walk(int kind, int h, int f, unsigned w, unsigned step) {
    add(std::string(kind ? "fast" : "basic") + "/h" + std::to_string(h) + "/" + hname(f) + "/w" + std::to_string(w),
        [=](Ctx &c) {
            probeHash();
            auto L = lens(h <= 6);
            Bytes seed = seedN(h * 1000 + f * 10 + w);
            std::unique_ptr<XmssBase> x = kind ? std::unique_ptr<XmssBase>(mkFast(seed, h, f, w)) : mkBasic(seed, h, f, w);
            Bytes pk = x->getPK();
            size_t rs = 4 + 32 + 32 * (ref::Wots(w).len + h);
            for (uint32_t i = 0; i < (1u << h); i++) {
                if (i % step && i + 1 != (1u << h)) { if (!kind) { x->setIndex(i + 1); } else x->setIndex(i + 1); c.transitions++; continue; }
                c.states++;
                Bytes m = msgN(L[(i * 7 + f * 3 + w) % L.size()], i);
                c.at("%s h=%d %s w=%u index=%u msglen=%zu", kind ? "fast" : "basic", h, hname(f), w, i, m.size());
                one(c, *x, pk, i, w, m, rs);
                if (i == 1) c.sample(c.shared);
            }
        });
}
static void lengths(int f, size_t from, size_t to, int kind) {
    add(std::string("lengths/") + (kind ? "fast/" : "basic/") + hname(f) + "/" + std::to_string(from), [=](Ctx &c) {
        probeHash();
        // one signer per 256 lengths; the message length is the only thing that varies
        int h = kind ? 8 : 4;
        std::unique_ptr<XmssBase> x;
        Bytes pk;
        uint32_t idx = 1u << h;
        size_t rs = 4 + 32 + 32 * (67 + h);
        for (size_t n = from; n < to; n++) {
            if (idx == 1u << h) {
                Bytes seed = seedN(77 + f);
                x = kind ? std::unique_ptr<XmssBase>(mkFast(seed, h, f)) : mkBasic(seed, h, f);
                pk = x->getPK();
                idx = 0;
            }
            Bytes m = msgN(n, 3);
            c.at("%s h=%d %s msglen=%zu index=%u", kind ? "fast" : "basic", h, hname(f), n, idx);
            c.states++;
            one(c, *x, pk, idx++, 16, m, rs);
        }
        c.sample(c.shared);
    });
}
static void bigMsg(int f, size_t n, int kind) {
    add(std::string("big/") + (kind ? "fast/" : "basic/") + hname(f) + "/" + std::to_string(n), [=](Ctx &c) {
        probeHash();
        Bytes seed = seedN(5 + f);
        std::unique_ptr<XmssBase> x = kind ? std::unique_ptr<XmssBase>(mkFast(seed, 4, f)) : mkBasic(seed, 4, f);
        Bytes pk = x->getPK(), m = msgN(n, 9);
        c.at("%s h=4 %s msglen=%zu", kind ? "fast" : "basic", hname(f), n);
        c.states++;
        one(c, *x, pk, 0, 16, m, 4 + 32 + 32 * 71);
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        bool fast = ref::g_fast;
        std::vector<unsigned> W = {2, 4, 16, 256};
        if (!fast) {
            for (int f = 0; f < 3; f++) for (unsigned w : W) for (int k = 0; k < 2; k++) walk(k, 4, f, w, 1);
            for (int f = 0; f < 3; f++) { walk(1, 6, f, 16, 1); walk(0, 6, f, 16, th ? 1 : 5); walk(1, 6, f, 256, th ? 1 : 3); walk(1, 6, f, 2, 1); walk(1, 6, f, 4, 1); }
            for (int f = 0; f < 3; f++) for (int k = 0; k < 2; k++)
                for (size_t n : {(size_t) 4095, (size_t) 4096, (size_t) 4097, (size_t) 65536, (size_t) 65537, (size_t) 1 << 20, ((size_t) 1 << 20) + 1, (size_t) 5000000, (size_t) 9000001, ((size_t) 1 << 24) + 1}) bigMsg(f, n, k);
            for (int f = 0; f < 3; f++) for (size_t a = 0; a < 768; a += 64) lengths(f, a, a + 64, 1);
            for (int f = 0; f < 3; f++) lengths(f, 0, th ? 320 : 48, 0);
            if (th) { for (int f = 0; f < 3; f++) { for (size_t a = 768; a < 8192; a += 256) lengths(f, a, a + 256, 1); for (unsigned w : W) { walk(0, 6, f, w, 1); walk(1, 8, f, w, 1); } walk(1, 10, f, 16, 1); } }
        } else {
            for (int f = 0; f < 3; f++) for (unsigned w : W) { walk(1, 8, f, w, w < 256 || th ? 1 : 5); if (w < 256) walk(1, 10, f, w, w < 16 || th ? 1 : 3); else if (th) walk(1, 10, f, w, 7); walk(0, 6, f, w, w < 256 || th ? 1 : 7); }
            for (int f = 0; f < 3; f++) { walk(1, 12, f, th ? 16 : 2, 3); walk(0, 8, f, 16, 11); walk(0, 10, f, 2, 41); walk(0, 12, f, 2, 997); }
            if (th) {
                walk(1, 14, 1, 2, 1);
                walk(0, 16, 1, 2, 33001);
                for (int f = 0; f < 3; f++) for (unsigned w : W) { walk(1, 12, f, w, 1); walk(0, 8, f, w, 1); if (w <= 16) walk(1, 14, f, w, 1); }
                for (unsigned w : {2u, 4u}) walk(1, 16, 2, w, 1);
                walk(1, 18, 1, 2, 5); walk(0, 18, 1, 2, 1u << 17); walk(0, 14, 0, 2, 997); walk(1, 20, 1, 2, 1u << 12);
            }
        }
    });
}

// C20: sizes, heights and counts.
#include <qrl.hpp>
#include <rs.hpp>
#include <tall.hpp>
using namespace mc;
static const unsigned WS[4] = {2, 4, 16, 256};
static unsigned chains(unsigned w) { return ref::Wots(w).len; }
static unsigned base(unsigned w) { return 4 + 32 + 32 * chains(w); }
struct Plain : XmssBase {     // the size and count queries of any height, without building a tree
    using XmssBase::XmssBase;
    TSIGNATURE sign(const TMESSAGE &) override { return {}; }
};
static int heightOf(size_t n, unsigned w) { try { return XmssBase::getHeightFromSigSize(n, w); } catch (std::exception &) { return -1; } }
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (unsigned w : WS) add("sizes/w" + std::to_string(w), [=](Ctx &c) {
            c.at("w=%u base size", w);
            c.check(XmssBase::calculateSignatureBaseSize(w) == base(w), "base size is %u", XmssBase::calculateSignatureBaseSize(w));
            auto one = [&](size_t n) {
                c.at("getHeightFromSigSize(%zu, w=%u)", n, w);
                int want = n >= base(w) && (n - base(w)) % 32 == 0 && (n - base(w)) / 32 <= 254 ? (int) ((n - base(w)) / 32) : -1;
                int got = heightOf(n, w);
                c.evalDistinct();
                c.check(got == want, "height %d, expected %d (-1: refused)", got, want);
                uint32_t h = 0;
                int r = rs_height_from_sig_size(n, w, &h);
                c.check(r == 0 ? (int) h == want : (r == 1 && want == -1), "Rust: status %d height %u, expected %d (-1: refused)", r, h, want);
            };
            size_t top = base(w) + 32 * (th ? 200000 : 3000);
            for (size_t n = 0; n <= top; n++) one(n);
            for (int s = 8; s < 64; s++) for (long d : {0L, 4L, 32L, 36L, (long) base(w), (long) base(w) + 32 * 4, (long) base(w) + 32 * 10, (long) base(w) + 32 * 254, (long) base(w) + 32 * 255, -1L, -28L, -32L})
                if ((1ULL << s) + d > top) one((1ULL << s) + d);
            for (size_t k = 255; k < (th ? 3000000u : 200000u); k++) one(base(w) + 32ull * k + (k < 600 ? 0 : 0));   // multiples of 32 far beyond: never wrap to a small height
            for (size_t k = 0; k < 100; k++) one(SIZE_MAX - k);
            for (size_t k = 0; k < 100000; k += 331) one((size_t) 0 - base(w) - k);
            // inverse
            for (unsigned h = 4; h <= 30; h++) {
                c.at("w=%u h=%u", w, h);
                Plain p(Bytes(48, 1), h, HF(1), eAddrFormatType::SHA256_2X);
                c.check(p.getSignatureSize(w) == base(w) + 32 * h, "signature size %u", p.getSignatureSize(w));
                c.check(heightOf(p.getSignatureSize(w), w) == (int) h, "not inverted");
                c.check(p.getNumberSignatures() == 1u << h, "%u signatures in total", p.getNumberSignatures());
                c.check(p.getHeight() == h && p.getSecretKeySize() == 132 && p.getPublicKeySize() == 67, "key sizes or height");
                if (w == 16) c.check(p.getSignatureSize() == base(16) + 32 * h, "default signature size");
            }
            for (unsigned h = 0; h <= 254; h++) one(base(w) + 32 * h);
            c.sample(c.shared);
        });
        // other parameters are refused by the size functions, they never return a made-up size
        for (int part = 0; part < 2; part++) add("badw/" + std::to_string(part), [=](Ctx &c) {
            Plain p(Bytes(48, 1), 10, HF(1), eAddrFormatType::SHA256_2X);
            auto one = [&](uint32_t w) {
                if (w == 2 || w == 4 || w == 16 || w == 256) return;
                c.at("w=%u", w);
                c.evalDistinct();
                int r = 0;
                try { p.getSignatureSize(w); r |= 1; } catch (std::invalid_argument &) {}
                try { XmssBase::calculateSignatureBaseSize(w); r |= 2; } catch (std::invalid_argument &) {}
                for (size_t n : {0, 4, 36, 2500, 2180 + 10 * 32, 8676, 4612, 1124}) try { XmssBase::getHeightFromSigSize(n, w); r |= 4; } catch (std::invalid_argument &) {}
                c.check(r == 0, "accepted (%d)", r);
            };
            for (uint32_t w = part; w < 70000; w += 2) one(w);
            if (part) for (int k = 16; k < 32; k++) for (int d = -2; d <= 2; d++) one((1u << k) + d);
            if (part) for (uint32_t v : WS) for (int k = 9; k < 32; k++) one(v | 1u << k);
            one(0xffffffff - part);
            c.sample(c.shared);
        });
        // sizes of what is really produced, and the counts at every index
        for (int f = 0; f < 3; f++) for (unsigned w : WS) for (int kind = 0; kind < 2; kind++) {
            unsigned H = ref::g_fast ? (w == 4 ? (th ? 16 : 12) : w == 16 ? (th ? 14 : 8) : 6) : (w == 256 ? 4 : 6);
            for (unsigned h = 4; h <= H; h += 2) {
                if (!th && h == H && f != 1 && h > 8) continue;
                add("counts/" + std::string(hname(f)) + "/w" + std::to_string(w) + "/h" + std::to_string(h) + (kind ? "/fast" : "/basic"), [=](Ctx &c) {
                    probeHash();
                    std::unique_ptr<XmssBase> x;
                    if (kind) x = mkFast(seedN(20), h, f, w); else x = mkBasic(seedN(20), h, f, w);
                    uint32_t N = 1u << h;
                    c.check(x->getPK().size() == x->getPublicKeySize() && x->getPublicKeySize() == 67, "public key size");
                    c.check(x->getSK().size() == x->getSecretKeySize() && x->getSecretKeySize() == 132, "secret key size");
                    c.check(x->getSeed().size() == 48 && x->getExtendedSeed().size() == 51 && x->getAddress().size() == 39 && x->getRoot().size() == 32 && x->getDescriptorBytes().size() == 3, "sizes");
                    for (uint32_t i = 0; i <= N; i++) {
                        c.at("%s w=%u h=%u %s index %u", hname(f), w, h, kind ? "fast" : "basic", i);
                        c.states++;
                        c.evalDistinct();
                        c.check(x->getIndex() == i, "index is %u", x->getIndex());
                        c.check(x->getNumberSignatures() == N && x->getHeight() == h, "total count %u", x->getNumberSignatures());
                        c.check(x->getRemainingSignatures() == N - i, "%u signatures remain", x->getRemainingSignatures());
                        if (i == N) break;
                        bool sg = i + 1 == N || (kind && h <= 6) || (h <= 4) || (kind && (i & (i + 1)) == 0);
                        c.transitions++;
                        if (sg) {
                            Bytes s = x->sign(msgN(i % 50));
                            c.check(s.size() == x->getSignatureSize(w) && s.size() == base(w) + 32 * h, "signature of %zu bytes", s.size());
                        } else c.check(x->setIndex(i + 1) == i + 1, "setIndex did not return the index");
                    }
                    c.sample(c.shared);
                });
            }
        }
        if (ref::g_fast) for (int kind = 0; kind < 1; kind++) for (unsigned h : {16u, 18u}) if (h == 16 || th) add("tall/basic/h" + std::to_string(h), [=](Ctx &c) {
            probeHash();
            auto x = mkBasic(seedN(21), h, 1, 4);
            uint32_t N = 1u << h;
            for (uint32_t i = 0; i < N; i++) {
                c.at("h=%u index %u", h, i);
                c.evalDistinct();
                c.check(x->setIndex(i) == i && x->getIndex() == i, "index is %u", x->getIndex());
                c.check(x->getRemainingSignatures() == N - i, "%u signatures remain", x->getRemainingSignatures());
            }
            c.sample(c.shared);
        });
        // every height of the key format: the counter kept in the key, at every index edge and every byte of it
        for (unsigned h = 4; h <= 30; h += 2) add("index/h" + std::to_string(h), [=](Ctx &c) {
            TallBase x(Bytes(48, 7), h, HF(1), eAddrFormatType::SHA256_2X);
            uint32_t N = 1u << h;
            if (!x.preset(0)) { c.extra["skipped"]++; return; }
            auto one = [&](uint32_t i) {
                c.at("h=%u basic counter: setIndex(%u)", h, i);
                Bytes before = x.getSK();
                uint32_t old = x.getIndex();
                bool ok = true;
                unsigned r = 0;
                try { r = x.setIndex(i); } catch (std::exception &) { ok = false; }
                c.evalDistinct();
                c.check(ok == (i < N), ok ? "accepted although the tree has %u leaves" : "refused although the tree has %u leaves", N);
                uint32_t now = ok ? i : old;
                c.check(!ok || r == i, "returned %u", r);
                Bytes sk = x.getSK();
                c.check(sk.size() == 132 && ((uint32_t) sk[0] << 24 | sk[1] << 16 | sk[2] << 8 | sk[3]) == now, "the key carries another index than %u", now);
                c.check(!memcmp(sk.data() + 4, before.data() + 4, 128), "other bytes of the key changed");
                c.check(x.getIndex() == now && x.getNumberSignatures() == N && x.getRemainingSignatures() == N - now, "index %u of %u, %u remaining",
                        x.getIndex(), x.getNumberSignatures(), x.getRemainingSignatures());
            };
            for (uint32_t i : edges(N)) one(i);
            for (int b = 0; b < 4; b++) for (uint32_t v = 0; v < 256; v++) for (uint32_t rest : {0u, 0x01020304u, 0x3ffefdfcu}) one((rest & ~(255u << (8 * b))) | v << (8 * b));
            for (uint32_t d = 0; d < 600; d++) { one(N - 300 + d); one(0u - d); one((1u << 31) - 300 + d); }
            if (th || h <= 16) for (uint32_t i = 0; i < std::min(N, 1u << 22); i += h > 16 ? 3 : 1) one(i);
            for (uint32_t i : {N, N - 1}) {                     // the stored counter itself, also at exhaustion
                c.at("h=%u stored index %u", h, i);
                c.check(x.preset(i) && x.getRemainingSignatures() == N - i, "remaining %u", x.getRemainingSignatures());
            }
            c.sample(c.shared);
        });
    });
}

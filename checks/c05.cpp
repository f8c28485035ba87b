// C05: verification as a total function of its inputs, compared with the reference verdict, under the address sanitizer
// (asan flavours) and under stack/heap poisoning (plain flavours).
#include <qrl.hpp>
#include <alloca.h>
using namespace mc;
static __attribute__((noinline)) void poison(int v, size_t n) {
    volatile uint8_t *p = (volatile uint8_t *) alloca(n);
    for (size_t i = 0; i < n; i++) p[i] = v;
}
static bool call(Ctx &c, const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w) {
    Bytes m2(m), s2(s), pk2(pk);
    bool r;
    try { r = XmssBase::verify(m2, s2, pk2, w); }
    catch (std::exception &e) { c.fail("verification threw %s", e.what()); }
    catch (...) { c.fail("verification threw"); }
    c.check(m2 == m && s2 == s && pk2 == pk, "verification modified its inputs");
    return r;
}
static void total(Ctx &c, const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w, bool expect) {
    c.evalDistinct();
    bool a = call(c, m, s, pk, w);
    c.check(a == expect, "verdict %d, reference verdict %d", a, expect);
}
static void total(Ctx &c, const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w) { total(c, m, s, pk, w, ref::verify(m, s, pk, w)); }
static Bytes key(int f, unsigned h, uint64_t n) {
    Bytes pk = msgN(67, n);
    pk[0] = f; pk[1] = h / 2; pk[2] = 0;
    return pk;
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        // every signature length under keys of several heights
        for (unsigned w : {2u, 4u, 16u, 256u}) for (unsigned part = 0; part < 4; part++)
            add("siglen/w" + std::to_string(w) + "/" + std::to_string(part), [=](Ctx &c) {
                probeHash();
                size_t max = 36 + 32 * ref::Wots(w).len + 32 * 260 + 70;
                Bytes full = msgN(max, w);
                for (size_t n = part; n <= max; n += 4) for (unsigned h : {0u, 2u, 4u, 10u, 30u}) {
                    if (!th && h != 4 && (n + 4) % 32 > 1 && n % 5) continue;
                    c.at("signature length %zu, key of height %u, w=%u", n, h, w);
                    total(c, msgN(5), Bytes(full.begin(), full.begin() + n), key(n % 3, h, n), w);
                }
                c.sample(c.shared);
            });
        add("pklen", [=](Ctx &c) {
            probeHash();
            for (unsigned w : {2u, 4u, 16u, 256u}) for (size_t n = 0; n <= 200; n++) for (size_t sn : {(size_t) 0, (size_t) 36 + 32 * (ref::Wots(w).len + 4), (size_t) 36 + 32 * (ref::Wots(w).len + 10)}) {
                Bytes pk = msgN(n, 3);
                if (n > 0) pk[0] = n % 3;
                if (n > 1) pk[1] = 2;
                c.at("public key length %zu, signature length %zu, w=%u", n, sn, w);
                total(c, msgN(3), msgN(sn, 1), pk, w);
            }
            c.sample(c.shared);
        });
        // all descriptor byte pairs, with the signature size the descriptor declares and with others
        for (unsigned part = 0; part < 8; part++) for (unsigned w : {16u, 256u}) {
            if (w != 16 && !th) continue;
            add("descr/w" + std::to_string(w) + "/" + std::to_string(part), [=](Ctx &c) {
                probeHash();
                for (unsigned a = 0; a < 65536; a++) {
                    if (a % 8 != part) continue;
                    Bytes pk = msgN(67, a);
                    pk[0] = a >> 8; pk[1] = a & 255; pk[2] = a * 37;
                    unsigned h = (pk[1] & 15) * 2;
                    c.at("descriptor bytes %02x %02x, w=%u", pk[0], pk[1], w);
                    total(c, msgN(4), msgN(36 + 32 * (ref::Wots(w).len + h), a), pk, w);
                    total(c, msgN(4), msgN(36 + 32 * (ref::Wots(w).len + 4), a), pk, w);
                }
                c.sample(c.shared);
            });
        }
        // every Winternitz parameter
        for (unsigned part = 0; part < 4; part++) add("w/" + std::to_string(part), [=](Ctx &c) {
            probeHash();
            auto one = [&](uint32_t w) {
                std::vector<size_t> L = {0, 36, 2308, 36 + 32 * (34 + 4), 36 + 32 * (265 + 4), 36 + 32 * (133 + 4)};
                for (unsigned lg = 1; lg < 32; lg++) if (w == 1u << lg) { unsigned l1 = 256 / lg, s = 1; while ((uint64_t) 1 << (lg * s) <= (uint64_t) l1 * (w - 1)) s++; L.push_back(36 + 32 * (l1 + s + 4)); L.push_back(36 + 32 * (l1 + s + 5)); L.push_back(36 + 32 * ((256 + lg - 1) / lg + s + 4)); }
                for (size_t n : L) for (int f = 0; f < (w <= 512 ? 3 : 1); f++) {
                    c.at("w=%u signature length %zu %s", w, n, hname(f));
                    total(c, msgN(9), msgN(n, w), key(f, 4, w), w);
                }
            };
            for (uint32_t w = part; w <= 65540; w += 4) if (th || w <= 1030 || (w & (w - 1)) == 0 || w % 61 == 0 || w > 65530) one(w);
            if (part == 0) for (int b = 16; b < 32; b++) for (int d : {-1, 0, 1}) one((1u << b) + d);
            if (part == 1) for (uint32_t w : {UINT32_MAX, UINT32_MAX - 1, 0x80000010u, 0x100010u, 0x7fffffffu}) one(w);
            c.sample(c.shared);
        });
        // valid triples: accepted; message sizes up to tens of megabytes
        for (int f = 0; f < 3; f++) add(std::string("bigmsg/") + hname(f), [=](Ctx &c) {
            probeHash();
            Bytes seed = seedN(500 + f);
            ref::Xmss r(seed, 4, f, 16);
            std::vector<size_t> L = {0, 1, 4096, 65536, 1 << 20, 7900000, 8388608, 8400000, (1 << 24) + 3, 40000000};
            if (th) L.push_back(300000000);
            uint32_t i = 0;
            for (size_t n : L) {
                Bytes m = msgN(n, 5), s = r.sign(i % 16, m);
                i++;
                c.at("%s valid triple with a message of %zu bytes", hname(f), n);
                total(c, m, s, r.pk(), 16, true);
                if (n) { m[n - 1] ^= 1; total(c, m, s, r.pk(), 16, false); m[n - 1] ^= 1; m[0] ^= 128; total(c, m, s, r.pk(), 16, false); }
            }
            c.sample(c.shared);
        });
        for (int f = 0; f < 3; f++) for (unsigned w : {2u, 4u, 16u, 256u}) add(std::string("valid/") + hname(f) + "/w" + std::to_string(w), [=](Ctx &c) {
            probeHash();
            Bytes seed = seedN(510 + f);
            ref::Xmss r(seed, 4, f, w);
            {   // every other descriptor over a signature that is valid under this one
                Bytes m = msgN(12), s = r.sign(7, m), pk = r.pk();
                for (unsigned a = 0; a < 65536; a++) {
                    if (!th && w != 16 && (a >> 12 || (a >> 4 & 15) > 1)) continue;
                    pk[0] = a >> 8; pk[1] = a & 255;
                    c.at("%s w=%u valid signature under descriptor bytes %02x %02x", hname(f), w, pk[0], pk[1]);
                    total(c, m, s, pk, w);
                }
                for (unsigned v : {4u, 16u, 2u, 256u, 8u, 64u}) if (v != w) { c.at("%s w=%u valid signature verified with w=%u", hname(f), w, v); total(c, m, s, r.pk(), v, false); }
            }
            unsigned n = 0;
            for (auto &root : ref::nearRoots(r.root())) if (th || n++ % (w == 16 ? 2 : 7) == 0) {   // what the owner of the tree can issue for another root
                Bytes pk = r.pk(), m = msgN(n % 50, n);
                std::copy(root.begin(), root.end(), pk.begin() + 3);
                c.at("%s w=%u signed for a key with root %s", hname(f), w, ref::hex(root.data(), 32).c_str());
                total(c, m, r.signAs(n % 16, m, root), pk, w, false);
            }
            for (uint32_t i = 0; i < 16; i++) {
                Bytes m = msgN(i * 11, i), s = r.sign(i, m);
                c.at("%s w=%u index %u", hname(f), w, i);
                total(c, m, s, r.pk(), w, true);
                for (size_t p = i; p < s.size(); p += 97) { Bytes t = s; t[p] ^= 1 << (i % 8); total(c, m, t, r.pk(), w, false); }
                // reserved third descriptor byte carries no meaning for the size or hash checks
                for (int top = 0; top < 3; top++) { Bytes t = s; t.resize(s.size() - top); total(c, m, t, r.pk(), w, top == 0); }
            }
            c.sample(c.shared);
        });
        // the verdict must not depend on what was in memory before
        add("history", [=](Ctx &c) {
            probeHash();
            std::vector<std::array<Bytes, 3>> in;
            std::vector<unsigned> ws;
            for (int f = 0; f < 3; f++) for (unsigned w : {2u, 4u, 16u, 256u}) {
                ref::Xmss r(seedN(520 + f), 4, f, w);
                Bytes m = msgN(30, f), s = r.sign(3, m), bad = s, pk = r.pk();
                bad[50] ^= 1;
                in.push_back({m, s, pk}); ws.push_back(w);
                in.push_back({m, bad, pk}); ws.push_back(w);
                for (int hf = 0; hf < 16; hf++) { Bytes p = pk; p[0] = hf; in.push_back({m, s, p}); ws.push_back(w); p[0] |= 16; in.push_back({m, s, p}); ws.push_back(w); }
            }
            // keys equal to the poison: an uninitialised root buffer would match them
            for (int B : {0, 1, 0x5a, 0xa5, 0xff}) for (int hf = 0; hf < 16; hf++) {
                Bytes pk(67, B);
                pk[0] = hf; pk[1] = 2;
                in.push_back({msgN(4), Bytes(36 + 32 * 71, B), pk}); ws.push_back(16);
            }
            std::vector<bool> want;
            for (size_t i = 0; i < in.size(); i++) want.push_back(ref::verify(in[i][0], in[i][1], in[i][2], ws[i]));
            for (int B : {0, 1, 0x5a, 0xa5, 0xff}) for (size_t i = 0; i < in.size(); i += (th || ref::g_fast || in[i][2][0] > 2 || i > 400) ? 1 : 2) {
                c.at("input %zu (descriptor %02x %02x, w=%u) with memory poisoned by %02x", i, in[i][2][0], in[i][2][1], ws[i], B);
                { Bytes junk(20000, B); Bytes junk2(300, B); }
                poison(B, 200000);
                c.evalDistinct();
                bool v = XmssBase::verify(in[i][0], in[i][1], in[i][2], ws[i]);
                c.check(v == want[i], "verdict %d, reference %d", v, (int) want[i]);
            }
            // every input directly after every other input
            size_t si = ref::g_fast ? (th ? 1 : 5) : (th ? 11 : 37), sj = ref::g_fast ? (th ? 1 : 2) : (th ? 3 : 7);
            for (size_t i = 0; i < in.size(); i += si) for (size_t j = 0; j < in.size(); j += sj) {
                c.at("input %zu verified after input %zu", j, i);
                c.evalDistinct();
                XmssBase::verify(in[i][0], in[i][1], in[i][2], ws[i]);
                bool v = XmssBase::verify(in[j][0], in[j][1], in[j][2], ws[j]);
                c.check(v == want[j], "verdict %d, reference %d", v, (int) want[j]);
            }
            c.sample(c.shared);
        });
    });
}

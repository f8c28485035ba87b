// C29: the index stored in raw secret keys.
#include <qrl.hpp>
#include <rs.hpp>
#include <xmss-alt/algsxmss.h>
#include <xmss-alt/algsxmss_fast.h>
using namespace mc;
static void put(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t get(const uint8_t *p) { return (uint32_t) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void update(Ctx &c, uint32_t cur, uint64_t k, int fill) {
    uint8_t b[8 + 132 + 8], w[sizeof b];
    for (size_t i = 0; i < sizeof b; i++) b[i] = fill == 0 ? 0 : fill == 1 ? 255 : (uint8_t) (i * 37 + 11);
    put(b + 8, cur);
    memcpy(w, b, sizeof b);
    bool ok = k > cur && k <= 0xffffffffull;
    if (ok) put(w + 8, (uint32_t) k);
    c.evals++;
    int r = xmss_updateSK(b + 8, k);
    if ((r == 0) != ok || memcmp(b, w, sizeof b)) {
        c.at("xmss_updateSK(key at index %u, %lu)", cur, (unsigned long) k);
        c.check((r == 0) == ok, "returned %d", r);
        c.fail("the key is %s, expected %s", ref::hex(Bytes(b + 8, b + 20)).c_str(), ref::hex(Bytes(w + 8, w + 20)).c_str());
    }
    memset(b, fill == 1 ? 255 : 3, sizeof b); put(b + 8, cur);
    memcpy(w, b, sizeof b);
    if (ok) put(w + 8, (uint32_t) k);
    r = rs_update_sk(b + 8, k);
    if ((r == 0) != ok || r == 2 || memcmp(b, w, sizeof b)) { c.at("Rust xmss_update_sk(key at index %u, %lu)", cur, (unsigned long) k); c.fail("returned %d, key %s", r, ref::hex(Bytes(b + 8, b + 20)).c_str()); }
}
static std::vector<uint64_t> values() {
    std::vector<uint64_t> v;
    for (int s = 0; s < 64; s++) for (int d = -2; d <= 2; d++) v.push_back((1ULL << s) + d);
    for (uint64_t x : {0x01020304ULL, 0x04030201ULL, 0xff00ff00ULL, 0x00ff00ffULL, 0x12ULL << 32, 0x100000000ULL, 0x1000000ffULL, 0xffffffff00000000ULL, 0xffffffffffffffffULL, 0x80000000ULL << 1, 0x7fffffff00000001ULL}) v.push_back(x);
    for (int b = 0; b < 4; b++) for (int x : {1, 127, 128, 255}) for (int b2 = 0; b2 < 4; b2++) v.push_back((uint64_t) x << (8 * b) | (uint64_t) (256 - x) << (8 * b2));
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
struct FastState {      // caller-owned traversal state, as the low-level interface wants it
    xmss_params p{};
    std::vector<uint8_t> stack, levels, auth, keep, nodes, retain;
    std::vector<treehash_inst> th;
    bds_state s{};
    FastState(unsigned h, unsigned w) : stack((h + 1) * 32), levels(h + 1), auth(h * 32), keep((h / 2) * 32), nodes((h - 2) * 32), retain(32), th(h - 2) {
        xmss_set_params(&p, 32, h, w, 2);
        for (unsigned i = 0; i < h - 2; i++) { th[i].node = &nodes[32 * i]; th[i].h = i; th[i].completed = 1; th[i].next_idx = 0; th[i].stackusage = 0; }
        xmss_set_bds_state(&s, stack.data(), 0, levels.data(), auth.data(), keep.data(), th.data(), retain.data(), 0);
    }
};
static void keyAfter(Ctx &c, const Bytes &before, const Bytes &after, uint32_t idx) {
    c.check(get(after.data()) == idx, "the stored index is %u, expected %u", get(after.data()), idx);
    for (size_t i = 4; i < before.size(); i++) c.check(before[i] == after[i], "byte %zu of the key changed", i);
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (int part = 0; part < 8; part++) add("update/" + std::to_string(part), [=](Ctx &c) {
            uint32_t n = th ? 4000 : 700;
            for (uint32_t a = part; a < n; a += 8) for (uint32_t k = 0; k < n; k++) { update(c, a, k, (a + k) % 3); c.distinctN++; }
            auto V = values();
            for (size_t i = part; i < V.size(); i += 8) if (V[i] <= 0xffffffffull) for (uint64_t k : V) for (int f = 0; f < 3; f++) { update(c, V[i], k, f); c.distinctN++; }
            // around every current index: the boundary of "larger", and the same number with high bits added
            for (size_t i = part; i < V.size(); i += 8) if (V[i] <= 0xffffffffull) for (int d = -300; d <= 300; d++) {
                update(c, V[i], V[i] + d, 2); update(c, V[i], (uint32_t) (V[i] + d), 2); c.distinctN += 2;
                for (uint64_t hi : {1ULL << 32, 1ULL << 33, 1ULL << 63, 0xffffffffULL << 32}) { update(c, V[i], (uint32_t) (V[i] + d) | hi, 2); c.distinctN++; }
            }
            // every byte of the current index against every byte of the request
            for (int b = 0; b < 4; b++) for (int x = part; x < 256; x += 8) for (int y = 0; y < 256; y++) for (uint32_t rest : {0u, 0x01010101u, 0xfefefefeu}) {
                uint32_t m = ~(255u << (8 * b));
                update(c, (rest & m) | (uint32_t) x << (8 * b), (rest & m) | (uint32_t) y << (8 * b), 2); c.distinctN++;
            }
            // histories of updates: the stored index is the running maximum
            uint8_t sk[132]; for (int i = 0; i < 132; i++) sk[i] = i; put(sk, 0);
            uint64_t max = 0;
            for (size_t i = 0; i < 4000; i++) {
                uint64_t k = V[(i * 7919 + part * 131) % V.size()];
                c.at("update history step %zu to %lu", i, (unsigned long) k);
                int r = xmss_updateSK(sk, k);
                bool ok = k > max && k <= 0xffffffffull;
                if (ok) max = k;
                c.check((r == 0) == ok && get(sk) == max, "returned %d, index %u, expected %lu", r, get(sk), (unsigned long) max);
                if (max == 0xffffffff) { put(sk, 0); max = 0; }
            }
            c.sample(c.shared);
        });
        // signing: whole small trees, both signers
        for (int f = 0; f < 3; f++) for (unsigned w : {4u, 16u}) for (unsigned h : {4u, 6u}) add("sign/" + std::string(hname(f)) + "/w" + std::to_string(w) + "/h" + std::to_string(h), [=](Ctx &c) {
            probeHash();
            if (!ref::g_fast && h > 4) { ref::Xmss small(seedN(1), 4, f, w, false); (void) small; }
            ref::Xmss r(seedN(2900), h, f, w);
            FastState fs(h, w);
            Bytes pk(64 + 8, 0xa7), sk(132 + 8, 0xa7), seed = r.seed, want = r.sk(0);
            c.at("xmssfast_Genkeypair");
            xmssfast_Genkeypair(HF(f), &fs.p, pk.data(), sk.data(), &fs.s, seed.data());
            c.check(!memcmp(sk.data(), want.data(), 132) && !memcmp(pk.data(), r.pk().data() + 3, 64) && seed == r.seed, "keys differ from the reference");
            for (int i = 0; i < 8; i++) c.check(pk[64 + i] == 0xa7 && sk[132 + i] == 0xa7, "wrote past a key");
            Bytes bpk(64 + 8, 0xa7), bsk(132 + 8, 0xa7);
            xmss_Genkeypair(HF(f), &fs.p, bpk.data(), bsk.data(), seed.data());
            c.check(bpk == pk && bsk == sk && seed == r.seed, "basic keys differ");
            for (uint32_t i = 0; i < 1u << h; i++) {
                Bytes m = msgN((i * 5) % 80, i), m0 = m, e = r.sign(i, m), s0 = sk;
                Bytes sig(r.sigSize() + 16, 0xa7);
                c.at("xmssfast_Signmsg %s w=%u h=%u index %u", hname(f), w, h, i);
                c.check(xmssfast_Signmsg(HF(f), &fs.p, sk.data(), &fs.s, sig.data(), m.data(), m.size()) == 0, "failed");
                keyAfter(c, s0, sk, i + 1);
                c.check(!memcmp(sig.data(), e.data(), e.size()) && m == m0, "signature differs, or the message was changed");
                for (size_t k = e.size(); k < sig.size(); k++) c.check(sig[k] == 0xa7, "wrote past the signature");
                c.evalDistinct();
                if (ref::g_fast || h == 4) {
                    if (!ref::g_fast && i % 5 && i != 15) put(bsk.data(), i + 1);
                    else {
                        s0 = bsk;
                        std::fill(sig.begin(), sig.end(), 0xa7);
                        c.at("xmss_Signmsg %s w=%u h=%u index %u", hname(f), w, h, i);
                        c.check(xmss_Signmsg(HF(f), &fs.p, bsk.data(), sig.data(), m.data(), m.size()) == 0, "failed");
                        keyAfter(c, s0, bsk, i + 1);
                        c.check(!memcmp(sig.data(), e.data(), e.size()) && m == m0, "signature differs, or the message was changed");
                        for (size_t k = e.size(); k < sig.size(); k++) c.check(sig[k] == 0xa7, "wrote past the signature");
                        c.evalDistinct();
                    }
                }
            }
            c.sample(c.shared);
        });
        // index carries in tall trees. Fast signer: the traversal state is a blank one, so only the authentication path is arbitrary.
        for (int f = 0; f < 3; f++) for (unsigned h : {26u, 30u}) add("carry/" + std::string(hname(f)) + "/h" + std::to_string(h), [=](Ctx &c) {
            probeHash();
            ref::Xmss r(seedN(2901), h, f, 16, false);
            std::vector<uint32_t> I = {0, 1, 127, 254, 255, 256, 511, 65534, 65535, 65536, 0xffff00, 0x1ffff, 0xfffffe, 0xffffff, 0x1000000, 0x1ffffff, 0x2000000};
            if (h == 30) for (uint32_t i : {0x7ffffffu, 0xfffffffu, 0x1fffffffu, 0x20000000u, 0x3ffffffdu, 0x3ffffffeu, 0x3fffffffu}) I.push_back(i);
            for (uint32_t i : I) for (int how = 0; how < 2; how++) {
                FastState fs(h, 16);
                Bytes sk = [&] { Bytes b(4); put(b.data(), i); for (auto n : {&r.skSeed, &r.skPrf, &r.pub, &r.pub}) b.insert(b.end(), n->begin(), n->end()); return b; }();
                Bytes s0 = sk;
                if (how == 0) {
                    Bytes m = msgN(33, i), sig(r.sigSize() + 16, 0xa7);
                    c.at("xmssfast_Signmsg %s h=%u index %u", hname(f), h, i);
                    c.check(xmssfast_Signmsg(HF(f), &fs.p, sk.data(), &fs.s, sig.data(), m.data(), m.size()) == 0, "failed");
                    keyAfter(c, s0, sk, i + 1);
                    Bytes e(4); put(e.data(), i);
                    ref::Node R = r.prfNum(r.skPrf.data(), i);
                    e.insert(e.end(), R.begin(), R.end());
                    Bytes d = r.hmsg(R.data(), r.pub, i, m), o = r.otsSign(i, d.data());
                    e.insert(e.end(), o.begin(), o.end());
                    c.check(!memcmp(sig.data(), e.data(), e.size()), "index, randomiser or one-time signature differs from the reference");
                } else {
                    if (i + 1 >= 1u << h) continue;
                    c.at("xmssfast_update %s h=%u index %u to %u", hname(f), h, i, i + 1);
                    c.check(xmssfast_update(HF(f), &fs.p, sk.data(), &fs.s, i + 1) == 0, "failed");
                    keyAfter(c, s0, sk, i + 1);
                    for (uint64_t bad : std::vector<uint64_t>{i, 0, 1ULL << h, (1ULL << h) + 1, 0xffffffffULL, 0x80000000ULL | (i + 1)}) {
                        if (bad == i + 1) continue;
                        Bytes s1 = sk;
                        bool refused = false;
                        c.at("xmssfast_update %s h=%u index %u to %lu", hname(f), h, i + 1, (unsigned long) bad);
                        try { refused = xmssfast_update(HF(f), &fs.p, sk.data(), &fs.s, bad) != 0; } catch (std::invalid_argument &) { refused = true; }
                        c.check(refused, "accepted");
                        c.check(sk == s1, "the key changed although the request was refused");
                    }
                }
                c.evalDistinct();
            }
            c.sample(c.shared);
        });
        // basic signer: real trees up to the height that still builds quickly
        if (ref::g_fast) for (int f = 0; f < 3; f++) for (unsigned h : {10u, 14u, 18u}) if (h < 18 || f == 1) add("tallbasic/" + std::string(hname(f)) + "/h" + std::to_string(h), [=](Ctx &c) {
            probeHash();
            ref::Xmss r(seedN(2902), h, f, 4, false);
            xmss_params p{};
            xmss_set_params(&p, 32, h, 4, 2);
            std::vector<uint32_t> I = {255, 256, (1u << h) - 1};
            if (h >= 14) I = {255, 4095, 16383};
            if (h == 18) I = {65535};
            if (h == 18 && th) I = {65535, 131071, 262143};
            for (uint32_t i : I) {
                Bytes sk(4); put(sk.data(), i);
                for (auto n : {&r.skSeed, &r.skPrf, &r.pub, &r.pub}) sk.insert(sk.end(), n->begin(), n->end());
                Bytes s0 = sk, m = msgN(20, i), sig(r.sigSize());
                c.at("xmss_Signmsg %s h=%u index %u", hname(f), h, i);
                c.check(xmss_Signmsg(HF(f), &p, sk.data(), sig.data(), m.data(), m.size()) == 0, "failed");
                keyAfter(c, s0, sk, i + 1);
                c.check(get(sig.data()) == i, "the signature names index %u", get(sig.data()));
                c.evalDistinct();
            }
            c.sample(c.shared);
        });
    });
}

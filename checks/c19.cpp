// C19: hash-chain seeds.
#include <qrl.hpp>
#include <rs.hpp>
using namespace mc;
static Bytes entry(const Bytes &seed, uint32_t shift, uint32_t i) {
    Bytes b = seed;
    for (int k = 0; k < 4; k++) b.push_back((uint8_t) (shift >> (8 * k)));
    for (int k = 0; k < 4; k++) b.push_back((uint8_t) (i >> (8 * k)));
    Bytes o(32); ref::H(ref::SHAKE256, b.data(), b.size(), o.data());
    return o;
}
static std::vector<Bytes> one(Ctx &c, const Bytes &seed, uint32_t shift, uint32_t n, uint32_t step = 1) {
    Bytes s = seed;
    c.at("seed of %zu bytes %s.., shift %u, count %u", seed.size(), ref::hex(Bytes(seed.begin(), seed.begin() + std::min<size_t>(4, seed.size()))).c_str(), shift, n);
    auto v = getHashChainSeed(s, shift, n);
    c.check(s == seed, "the seed was modified");
    c.check(v.size() == n, "%zu entries", v.size());
    for (uint32_t i = 0; i < n; i += (i < 70000 || (i & 0xffff) > 0xfff0 || (i & 0xffff) < 16) ? 1 : step) {
        c.evals++;
        if (v[i].size() != 32 || v[i] != entry(seed, shift, i)) c.fail("entry %u is wrong", i);
    }
    c.distinctN++;
    return v;
}
static void rust(Ctx &c, const Bytes &seed, uint32_t shift, uint32_t n) {
    if (ref::g_fast) return;
    rs::R r = rs::op(rs::CHAINSEED, shift, n, seed);
    c.check(r.ok() && r.v.size() == 32ull * n, "Rust: status %d, %zu bytes", r.rc, r.v.size());
    for (uint32_t i = 0; i < n; i++) { Bytes e = entry(seed, shift, i); c.check(!memcmp(&r.v[32 * i], e.data(), 32), "Rust: entry %u is wrong", i); }
    c.evals += n;
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        std::vector<uint32_t> sh = {0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0x7fffff, 0x800000,
                                    0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x01020304, 0x04030201, 0xa0b0c0d0, 0x00ff00ff, 0xff00ff00};
        for (int b = 0; b < 32; b++) sh.push_back(1u << b);
        for (int p = 0; p < 8; p++) add("shifts/" + std::to_string(p), [=](Ctx &c) {
            probeHash();
            for (size_t k = p; k < sh.size(); k += 8) for (size_t n : {0, 1, 32, 48, 51}) {
                auto v = one(c, msgN(n, 7), sh[k], 40);
                for (uint32_t m : {0u, 1u, 2u, 39u}) { auto q = one(c, msgN(n, 7), sh[k], m); c.check(std::equal(q.begin(), q.end(), v.begin()), "a shorter request is not a prefix of a longer one"); }
                rust(c, msgN(n, 7), sh[k], 40);
            }
            c.sample(c.shared);
        });
        for (int p = 0; p < 4; p++) add("seeds/" + std::to_string(p), [=](Ctx &c) {
            probeHash();
            for (size_t n = p; n <= (th ? 2000 : 420); n += 4) for (int k = 0; k < 3; k++) {
                Bytes s = k == 0 ? msgN(n, 3) : Bytes(n, k == 1 ? 0 : 255);
                for (uint32_t shift : {0u, 0x01020304u}) { one(c, s, shift, 5); rust(c, s, shift, 5); }
            }
            c.sample(c.shared);
        });
        // all entries over many (seed, shift, position) are different
        add("distinct", [=](Ctx &c) {
            probeHash();
            std::map<Bytes, std::string> seen;
            for (size_t n : {0, 1, 2, 4, 8, 32, 48}) for (int z = 0; z < 2; z++) {
                if (!n && z) continue;
                Bytes s = z ? Bytes(n, 0) : msgN(n, 5);
                for (uint32_t shift : {0u, 1u, 255u, 256u, 257u, 65535u, 65536u, 1u << 24, 0xffffffffu}) {
                    auto v = one(c, s, shift, 300);
                    for (uint32_t i = 0; i < 300; i++) {
                        // (a zero-extended seed is a different seed only together with what follows: 8 more bytes always follow)
                        std::string id = ref::hex(s) + "/" + std::to_string(shift) + "/" + std::to_string(i);
                        auto it = seen.emplace(v[i], id);
                        if (!it.second) { c.at("%s and %s", it.first->second.c_str(), id.c_str()); c.fail("equal entries"); }
                    }
                }
            }
            c.sample(c.shared);
        });
        add("long", [=](Ctx &c) { probeHash(); one(c, msgN(48, 1), 0, 70000); one(c, msgN(48, 2), 0xfffffff0u, 66000); rust(c, msgN(48, 1), 9, 66000); c.sample(c.shared); });
        if (ref::g_fast || th) add("verylong", [=](Ctx &c) { probeHash(); one(c, msgN(32, 1), 3, (1u << 24) + 20, 251); c.sample(c.shared); });
    });
}

// C07: restore through extended seed, hex and mnemonic.
#include <qrl.hpp>
using namespace mc;
static Bytes ext(int f, unsigned h, const Bytes &seed, unsigned fmt = 0) {
    Bytes e = {(uint8_t) f, (uint8_t) (fmt << 4 | h / 2), 0};
    e.insert(e.end(), seed.begin(), seed.end());
    return e;
}
static void text(Ctx &c, const Bytes &e) {
    c.eval(hv(e));
    std::string hx = bin2hstr(e), mn = bin2mnemonic(e);
    c.check(hx == ref::hex(e), "hex text of the extended seed is wrong");
    c.check(hstr2bin(hx) == e, "hex round trip changed the extended seed %s", hx.c_str());
    c.check(mnemonic2bin(mn) == e, "mnemonic round trip changed the extended seed %s", hx.c_str());
}
static void same(Ctx &c, XmssBase &a, XmssBase &b, const char *how) {
    c.check(a.getHeight() == b.getHeight(), "%s: height", how);
    c.check(a.getDescriptor().getHashFunction() == b.getDescriptor().getHashFunction(), "%s: hash function", how);
    c.check(a.getDescriptor().getAddrFormatType() == b.getDescriptor().getAddrFormatType(), "%s: address format", how);
    c.check(a.getDescriptorBytes() == b.getDescriptorBytes(), "%s: descriptor", how);
    c.check(a.getSeed() == b.getSeed(), "%s: seed", how);
    c.check(a.getExtendedSeed() == b.getExtendedSeed(), "%s: extended seed", how);
    c.check(a.getPK() == b.getPK(), "%s: public key", how);
    c.check(a.getSK() == b.getSK(), "%s: secret key", how);
    c.check(a.getAddress() == b.getAddress(), "%s: address", how);
    Bytes m = msgN(21, 7);
    for (int k = 0; k < 3; k++) {
        if (k == 2) { a.setIndex(a.getNumberSignatures() - 1); b.setIndex(b.getNumberSignatures() - 1); }
        Bytes s = a.sign(m);
        c.check(s == b.sign(m), "%s: signature %d", how, k);
        c.check(XmssBase::verify(m, s, b.getPK()), "%s: signature %d does not verify under the restored key", how, k);
    }
}
static void restore(int f, unsigned h, int kind, uint64_t sd) {
    add(std::string("restore/") + hname(f) + "/h" + std::to_string(h) + (kind ? "/fast" : "/basic") + "/" + std::to_string(sd), [=](Ctx &c) {
        probeHash();
        Bytes seed = sd == 0 ? Bytes(48, 0) : sd == 1 ? Bytes(48, 255) : seedN(700 + sd);
        Bytes want = ext(f, h, seed);
        for (int how = 0; how < 4; how++) {
            auto a = kind ? std::unique_ptr<XmssBase>(mkFast(seed, h, f)) : mkBasic(seed, h, f);
            c.at("%s h=%u %s seed %s restored through route %d", hname(f), h, kind ? "fast" : "basic", ref::hex(seed).c_str(), how);
            Bytes e = a->getExtendedSeed();
            c.check(e == want, "extended seed is %s, expected %s", ref::hex(e).c_str(), ref::hex(want).c_str());
            text(c, e);
            Bytes e2 = how == 0 ? e : how == 1 ? hstr2bin(bin2hstr(e)) : how == 2 ? mnemonic2bin(bin2mnemonic(e)) : hstr2bin(bin2hstr(e));
            if (how == 3) for (size_t i = 0; i < 1; i++) { std::string u = bin2hstr(e); for (auto &ch : u) ch = toupper(ch); e2 = hstr2bin(u); }
            c.evalDistinct();
            XmssFast b(e2);
            same(c, *a, b, how == 0 ? "extended seed" : how == 1 ? "hex" : how == 2 ? "mnemonic" : "upper-case hex");
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        bool fast = ref::g_fast;
        for (int f = 0; f < 3; f++) for (unsigned h : {4u, 6u, 8u, 10u}) for (int kind = 0; kind < 2; kind++) {
            if (!fast && (h > (th ? 8u : 6u) || (h > 4 && !kind))) continue;
            if (fast && h > 8 && !kind && !th) continue;
            for (uint64_t sd = 0; sd < (h == 4 ? 6 : 3); sd++) restore(f, h, kind, sd);
        }
        if (!fast) {
            // text encodings: every byte value at every position, every representable configuration
            for (unsigned part = 0; part < 8; part++) add("text/" + std::to_string(part), [=](Ctx &c) {
                for (unsigned p = part; p < 51; p += 8) for (int v = 0; v < 256; v++) {
                    Bytes e = ext(p % 3, 10, seedN(v % 4));
                    e[p] = v;
                    c.at("byte %u of the extended seed = %d", p, v);
                    text(c, e);
                }
                for (int f = 0; f < 3; f++) for (unsigned h = 4; h <= 30; h += 2) for (unsigned fmt = 0; fmt < 16; fmt++) {
                    if ((f + h + fmt) % 8 != part) continue;
                    Bytes e = ext(f, h, seedN(h), fmt);
                    c.at("configuration %s h=%u format %u", hname(f), h, fmt);
                    text(c, e);
                    auto d = QRLDescriptor::fromExtendedSeed(e);
                    c.check(d.getHashFunction() == f && d.getHeight() == h && d.getAddrFormatType() == fmt && d.getSignatureType() == 0, "descriptor of the extended seed decodes wrongly");
                }
                c.sample(c.shared);
            });
        }
        // constructor keeps every seed byte, for every position
        for (unsigned part = 0; part < 8; part++) add("seedbyte/" + std::to_string(part), [=](Ctx &c) {
            probeHash();
            for (unsigned p = part; p < 48; p += 8) for (int v : {0, 1, 0x80, 0xff, 0x5a}) {
                if (!ref::g_fast && v != 0x80) continue;
                Bytes seed = seedN(3);
                seed[p] = v;
                Bytes e = ext(1, 4, seed);
                c.at("seed byte %u = %d", p, v);
                c.eval(hv(e));
                XmssFast x(e), y(seed, 4, HF(1), eAddrFormatType::SHA256_2X);
                same(c, x, y, "extended seed");
                XmssFast z(x.getExtendedSeed());
                c.check(z.getExtendedSeed() == e, "extended seed changed");
            }
            c.sample(c.shared);
        });
        // every other length is refused; a format the address code does not know is refused or kept
        add("lengths", [=](Ctx &c) {
            probeHash();
            for (size_t n = 0; n <= 300; n++) {
                if (n == 51) continue;
                Bytes e = msgN(n, 4);
                if (n > 1) { e[0] = 1; e[1] = 2; }
                c.at("extended seed of %zu bytes", n);
                c.evalDistinct();
                bool ok = true;
                try { XmssFast x(e); } catch (std::exception &) { ok = false; }
                c.check(!ok, "signer built from an extended seed of %zu bytes", n);
                ok = true;
                try { QRLDescriptor::fromExtendedSeed(e); } catch (std::exception &) { ok = false; }
                c.check(!ok, "descriptor read from an extended seed of %zu bytes", n);
            }
            for (unsigned fmt = 1; fmt < 16; fmt++) {
                Bytes e = ext(1, 4, seedN(3), fmt);
                c.at("address format %u", fmt);
                c.evalDistinct();
                try { XmssFast x(e); c.check(x.getExtendedSeed() == e && x.getDescriptor().getAddrFormatType() == fmt, "address format %u changed", fmt); }
                catch (std::invalid_argument &) {}
            }
            c.sample(c.shared);
        });
    });
}

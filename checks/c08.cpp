// C08: the descriptor codec, C++ and Rust, over its whole input space.
#include <qrl.hpp>
#include <rs.hpp>
using namespace mc;
template <class F> static bool refused(F f) { try { f(); return false; } catch (std::exception &) { return true; } }
static void one(Ctx &c, const Bytes &b, QRLDescriptor d) {
    c.check((unsigned) d.getHashFunction() == (b[0] & 15u), "hash function %u", (unsigned) d.getHashFunction());
    c.check((unsigned) d.getSignatureType() == (b[0] >> 4), "signature scheme %u", (unsigned) d.getSignatureType());
    c.check(d.getHeight() == 2u * (b[1] & 15), "height %u", d.getHeight());
    c.check((unsigned) d.getAddrFormatType() == (b[1] >> 4), "address format %u", (unsigned) d.getAddrFormatType());
    Bytes r = d.getBytes();
    c.check(r.size() == 3 && r[0] == b[0] && r[1] == b[1] && r[2] == 0, "re-encoded as %s", ref::hex(r).c_str());
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (unsigned part = 0; part < 16; part++) add("decode/" + std::to_string(part), [=](Ctx &c) {
            Bytes b(3);
            for (unsigned a = part << 12; a < (part + 1) << 12; a++) for (unsigned t = 0; t < 256; t++) {
                b[0] = a >> 8; b[1] = a; b[2] = t;
                c.at("descriptor %02x %02x %02x", b[0], b[1], b[2]);
                c.evalDistinct();
                one(c, b, QRLDescriptor::fromBytes(b));
            }
            c.sample(c.shared);
        });
        add("carriers", [=](Ctx &c) {
            for (unsigned a = 0; a < 65536; a++) {
                Bytes s = msgN(51, a), k = msgN(67, a);
                s[0] = k[0] = a >> 8; s[1] = k[1] = a; 
                c.at("extended seed and key starting with %02x %02x %02x", s[0], s[1], s[2]);
                c.evalDistinct();
                one(c, s, QRLDescriptor::fromExtendedSeed(s));
                one(c, k, QRLDescriptor::fromExtendedPK(k));
            }
            c.sample(c.shared);
        });
        add("encode", [=](Ctx &c) {
            for (unsigned f = 0; f < 16; f++) for (unsigned s = 0; s < 16; s++) for (unsigned h = 0; h <= 30; h += 2) for (unsigned a = 0; a < 16; a++) {
                c.at("fields hash=%u scheme=%u height=%u format=%u", f, s, h, a);
                c.evalDistinct();
                QRLDescriptor d((eHashFunction) f, (eSignatureType) s, h, (eAddrFormatType) a);
                c.check((unsigned) d.getHashFunction() == f && (unsigned) d.getSignatureType() == s && d.getHeight() == h && (unsigned) d.getAddrFormatType() == a, "fields changed by construction");
                Bytes b = d.getBytes();
                c.check(b.size() == 3 && b[0] == (s << 4 | f) && b[1] == (a << 4 | h / 2) && b[2] == 0, "encoded as %s", ref::hex(b).c_str());
                one(c, b, QRLDescriptor::fromBytes(b));
            }
            c.sample(c.shared);
        });
        add("lengths", [=](Ctx &c) {
            c.check(QRLDescriptor::getSize() == 3, "size");
            for (size_t n = 0; n <= 400; n++) {
                Bytes b = msgN(n, 1);
                for (int z = 0; z < 2; z++) {
                    if (z) std::fill(b.begin(), b.end(), 0);
                    c.at("%zu bytes", n);
                    c.evals++;
                    if (!z) c.distinctN++;
                    c.check(refused([&] { QRLDescriptor::fromBytes(b); }) == (n != 3), "fromBytes with %zu bytes", n);
                    c.check(refused([&] { QRLDescriptor::fromExtendedSeed(b); }) == (n != 51), "fromExtendedSeed with %zu bytes", n);
                    c.check(refused([&] { QRLDescriptor::fromExtendedPK(b); }) == (n != 67), "fromExtendedPK with %zu bytes", n);
                    for (int op : {rs::DESCDEC, rs::DESCSEED, rs::DESCPK}) {
                        auto r = rs::op(op, 0, 0, b);
                        c.check(r.rc != rs::PANIC, "Rust decoder %d panicked", op);
                        if (n != (op == rs::DESCDEC ? 3u : op == rs::DESCSEED ? 51u : 67u)) c.check(r.rc == rs::ERR, "Rust decoder %d accepted %zu bytes", op, n);
                        else if (z) c.check(r.ok(), "Rust decoder %d refused a valid input", op);
                    }
                }
            }
            c.sample(c.shared);
        });
        for (unsigned part = 0; part < 4; part++) add("rust/" + std::to_string(part), [=](Ctx &c) {
            Bytes b(3), s = msgN(51), k = msgN(67);
            for (unsigned a = part << 14; a < (part + 1) << 14; a++) for (unsigned t : {0u, 1u, 0x80u, 0xffu}) {
                b[0] = a >> 8; b[1] = a; b[2] = t;
                c.at("Rust descriptor %02x %02x %02x", b[0], b[1], b[2]);
                c.evalDistinct();
                bool known = (b[0] & 15) <= 2 && (b[0] >> 4) == 0 && (b[1] >> 4) == 0;   // what the Rust types can hold
                auto r = rs::op(rs::DESCDEC, 0, 0, b);
                c.check(r.rc == (known ? rs::OK : rs::ERR), "Rust decoder answered %d", r.rc);
                Bytes want = {b[0], b[1], 0};
                if (known) {
                    Bytes w = {(uint8_t) (b[0] & 15), (uint8_t) (b[0] >> 4), (uint8_t) (2 * (b[1] & 15)), (uint8_t) (b[1] >> 4), b[0], b[1], 0};
                    c.check(r.v == w, "Rust decoder read %s", ref::hex(r.v).c_str());
                    auto e = rs::op(rs::DESCENC, b[0] & 15, 2 * (b[1] & 15), {});
                    c.check(e.ok() && e.v == want, "Rust encoder wrote %s", ref::hex(e.v).c_str());
                }
                std::copy(b.begin(), b.end(), s.begin());
                std::copy(b.begin(), b.end(), k.begin());
                for (int op : {rs::DESCSEED, rs::DESCPK}) {
                    auto q = rs::op(op, 0, 0, op == rs::DESCSEED ? s : k);
                    c.check(q.rc == (known ? rs::OK : rs::ERR) && (!known || q.v == want), "Rust extended decoder %d answered %d %s", op, q.rc, ref::hex(q.v).c_str());
                }
            }
            c.sample(c.shared);
        });
    });
}

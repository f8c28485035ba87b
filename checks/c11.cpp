// C11: addresses and their checksum.
#include <qrl.hpp>
#include <rs.hpp>
using namespace mc;
// Descriptors naming fields that do not exist: each implementation may refuse, neither may answer wrongly.
static bool exists(const Bytes &b) { return b.size() > 1 && (b[0] & 15) <= 2 && b[0] >> 4 == 0 && b[1] >> 4 == 0; }
static int get(Ctx &c, const Bytes &pk, Bytes &a) {
    int r = 0;
    try { a = QRLHelper::getAddress(pk); } catch (std::exception &) { r = 1; }
    rs::R q = rs::op(rs::GETADDRESS, 0, 0, pk);
    c.check(q.rc == rs::OK || q.rc == rs::ERR, "Rust status %d", q.rc);
    if (q.ok()) { c.check(r == 0 || !exists(pk), "Rust accepts, C++ refuses"); c.check(pk.size() == 67 && pk[1] >> 4 == 0 && q.v == ref::address(pk), "Rust address is %s", ref::hex(q.v).c_str()); }
    else c.check(r != 0 || !exists(pk), "Rust refuses the key");
    return r;
}
static bool valid(Ctx &c, const Bytes &a) {
    Bytes b = a;
    bool r;
    try { r = QRLHelper::addressIsValid(b); } catch (...) { c.fail("addressIsValid threw"); }
    c.check(a == b, "addressIsValid modified its input");
    rs::R q = rs::op(rs::ADDRVALID, 0, 0, a);
    c.check(q.ok() && q.v.size() == 1, "Rust status %d", q.rc);
    c.check(q.v[0] ? r : !r || !exists(a), "C++ says %s, Rust %s", r ? "valid" : "invalid", q.v[0] ? "valid" : "invalid");
    return r;
}
static Bytes key(uint64_t n) { Bytes k = msgN(67, n); k[0] = n % 3; k[1] = 2 + n % 14; k[2] = 0; return k; }
static Bytes checksummed(Bytes head) { head.resize(35); Bytes d = ref::sha256(head); head.insert(head.end(), d.end() - 4, d.end()); return head; }
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (int n = 0; n < (th ? 24 : 8); n++) add("changes/" + std::to_string(n), [=](Ctx &c) {
            Bytes pk = key(n), a;
            if (n == 0) { std::fill(pk.begin(), pk.end(), 0); pk[1] = 2; }
            if (n == 1) { std::fill(pk.begin() + 3, pk.end(), 255); }
            c.at("key %s", ref::hex(pk).c_str());
            c.check(get(c, pk, a) == 0, "valid key refused");
            c.check(a == ref::address(pk), "address is %s", ref::hex(a).c_str());
            c.check(valid(c, a), "own address invalid");
            for (size_t p = 0; p < 39; p++) for (int v = 0; v < 256; v++) if (v != a[p]) {
                Bytes b = a; b[p] = v;
                c.at("address %s with byte %zu = %d", ref::hex(a).c_str(), p, v);
                c.evalDistinct();
                c.check(!valid(c, b), "accepted");
            }
            for (size_t p = 0; p < 39; p++) for (size_t q = p + 1; q < 39; q++) {
                Bytes b = a; std::swap(b[p], b[q]);
                if (b == a) continue;
                c.at("address %s with bytes %zu and %zu swapped", ref::hex(a).c_str(), p, q);
                c.evalDistinct();
                c.check(!valid(c, b), "accepted");
                b = a; b[p] ^= 0x10; b[q] ^= 0x10;
                c.check(!valid(c, b), "accepted with both bytes changed");
            }
            for (size_t l = 0; l <= 120; l++) if (l != 39) {
                Bytes b = a; b.resize(l, 0);
                c.at("address %s with length %zu", ref::hex(a).c_str(), l);
                c.evalDistinct();
                c.check(!valid(c, b), "accepted");
                if (l > 4) { b.resize(l - 4); Bytes d = ref::sha256(b); b.insert(b.end(), d.end() - 4, d.end()); c.check(!valid(c, b), "accepted with a matching checksum"); }
                c.check(!valid(c, msgN(l, n)), "accepted");
            }
            { Bytes b(39, 0); c.check(!valid(c, b), "all zero accepted"); b.assign(39, 255); c.check(!valid(c, b), "all ones accepted"); }
            c.sample(c.shared);
        });
        // the address depends on every bit of the key, and any key of the right size has a valid one
        for (int part = 0; part < 4; part++) add("keybits/" + std::to_string(part), [=](Ctx &c) {
            Bytes pk = key(100), a0, a;
            get(c, pk, a0);
            for (size_t p = part; p < 67; p += 4) for (int v = 0; v < 256; v++) {
                if (v == pk[p]) continue;
                Bytes k = pk; k[p] = v;
                c.at("key byte %zu = %d", p, v);
                c.evalDistinct();
                int r = get(c, k, a);
                bool fmt = (k[1] >> 4) == 0, known = (k[0] & 15) <= 2 && k[0] >> 4 == 0;
                if (!fmt) { c.check(r == 1, "unsupported address format %d accepted", k[1] >> 4); continue; }
                if (r == 1) { c.check(!known, "key refused"); continue; }
                c.check(a == ref::address(k), "address is %s", ref::hex(a).c_str());
                c.check(a != a0, "address unchanged");
                c.check(valid(c, a), "own address invalid");
                c.check(!valid(c, Bytes(a.begin(), a.end() - 1)), "cut address accepted");
            }
            c.sample(c.shared);
        });
        add("descriptors", [=](Ctx &c) {
            for (unsigned d = 0; d < 65536; d++) {
                Bytes k = msgN(67, d), a;
                k[0] = d >> 8; k[1] = d;
                c.at("key starting with %02x %02x", k[0], k[1]);
                c.evalDistinct();
                int r = get(c, k, a);
                bool fmt = (k[1] >> 4) == 0, known = (k[0] & 15) <= 2 && k[0] >> 4 == 0;
                if (!fmt) c.check(r == 1, "address format %d accepted", k[1] >> 4);
                else if (known) c.check(r == 0 && a == ref::address(k), "wrong address");
                else if (r == 0) c.check(a == ref::address(k), "wrong address");
                Bytes head = msgN(35, d); head[0] = d >> 8; head[1] = d;
                bool v = valid(c, checksummed(head));
                if (!fmt) c.check(!v, "checksummed address of format %d accepted", k[1] >> 4);
                else if (known && head[2] == 0) c.check(v, "checksummed address refused");
            }
            c.sample(c.shared);
        });
        add("lengths", [=](Ctx &c) {
            for (size_t n = 0; n <= 300; n++) if (n != 67) {
                Bytes k = msgN(n, 5), a;
                if (n > 1) { k[0] = 1; k[1] = 2; }
                c.at("key of %zu bytes", n);
                c.evalDistinct();
                c.check(get(c, k, a) == 1, "accepted");
                k.assign(n, 0);
                c.check(get(c, k, a) == 1, "accepted (zero bytes)");
            }
            c.sample(c.shared);
        });
        for (int f = 0; f < 3; f++) add(std::string("signers/") + hname(f), [=](Ctx &c) {
            for (unsigned h : {4u, 6u}) for (int kind = 0; kind < 2; kind++) {
                auto x = kind ? std::unique_ptr<XmssBase>(mkFast(seedN(h), h, f)) : mkBasic(seedN(h), h, f);
                c.at("signer %s h=%u", hname(f), h);
                c.evalDistinct();
                Bytes a = x->getAddress();
                c.check(a == ref::address(x->getPK()), "signer address differs");
                c.check(valid(c, a), "signer address invalid");
                x->setIndex(3);
                c.check(x->getAddress() == a, "address changed with the index");
            }
            c.sample(c.shared);
        });
    });
}

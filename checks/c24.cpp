// C24: Rust encoders, hashes, descriptors, addresses and chain seeds against the C++ ones.
#include <qrl.hpp>
#include <rs.hpp>
#include <qrl/wordlist.h>
using namespace mc;
template <class F> static bool run(F f, Bytes &o) { try { o = f(); return true; } catch (std::exception &) { return false; } }
static Bytes tob(const std::string &s) { return Bytes(s.begin(), s.end()); }
// Same outcome: the same bytes, or C++ throws and Rust returns an error (never a panic).
static void agree(Ctx &c, const char *what, bool ok, const Bytes &cpp, const rs::R &r) {
    c.check(r.rc != rs::PANIC, "%s: Rust panics", what);
    c.check(r.ok() == ok, "%s: C++ %s, Rust status %d", what, ok ? "answers" : "refuses", r.rc);
    if (ok) c.check(r.v == cpp, "%s: C++ %.100s (%zu bytes), Rust %.100s (%zu bytes)", what, ref::hex(cpp).c_str(), cpp.size(), ref::hex(r.v).c_str(), r.v.size());
}
static void hexDecode(Ctx &c, const std::string &s) {
    c.at("hex text '%s'", jesc(s.substr(0, 300)).c_str());
    c.eval(fnv(s.data(), s.size()));
    Bytes o;
    bool ok = run([&] { return hstr2bin(s); }, o);
    agree(c, "hstr2bin", ok, o, rs::ops(rs::HSTR2BIN, 0, 0, s));
}
static void hexEncode(Ctx &c, const Bytes &b, unsigned wrap) {
    c.at("%zu bytes to hex, wrap %u", b.size(), wrap);
    c.eval(hv(b) + wrap);
    agree(c, "bin2hstr", true, tob(bin2hstr(b, wrap)), rs::op(rs::BIN2HSTR, wrap, 0, b));
    bool text = true;
    for (auto x : b) if (x >= 128) text = false;
    if (!text) return;
    std::string s(b.begin(), b.end());
    agree(c, "bin2hstr of a string", true, tob(bin2hstr(s, wrap)), rs::ops(rs::BINSTR2HSTR, wrap, 0, s));
    agree(c, "str2bin", true, str2bin(s), rs::ops(rs::STR2BIN, 0, 0, s));
}
static void mnEncode(Ctx &c, const Bytes &b) {
    c.eval(hv(b, 77));
    Bytes o;
    bool ok = run([&] { return tob(bin2mnemonic(b)); }, o);
    agree(c, "bin2mnemonic", ok, o, rs::op(rs::BIN2MNEMONIC, 0, 0, b));
}
static void mnDecode(Ctx &c, const std::string &s) {
    c.eval(fnv(s.data(), s.size(), 78));
    Bytes o;
    bool ok = run([&] { return mnemonic2bin(s); }, o);
    agree(c, "mnemonic2bin", ok, o, rs::ops(rs::MNEMONIC2BIN, 0, 0, s));
}
static bool known(const Bytes &b) { return b.size() > 1 && (b[0] & 15) <= 2 && (b[0] >> 4) == 0 && (b[1] >> 4) == 0; }
static Bytes descr(QRLDescriptor d) { return d.getBytes(); }
static void address(Ctx &c, const Bytes &pk) {
    c.eval(hv(pk, 79));
    Bytes a;
    bool ok = run([&] { return QRLHelper::getAddress(pk); }, a);
    auto r = rs::op(rs::GETADDRESS, 0, 0, pk);
    if (pk.size() != 67 || known(pk)) agree(c, "getAddress", ok, a, r);
    else c.check(r.rc == rs::ERR || (r.ok() && ok && r.v == a), "getAddress: Rust status %d", r.rc);
}
static void valid(Ctx &c, const Bytes &a) {
    c.eval(hv(a, 80));
    bool v = QRLHelper::addressIsValid(a);
    auto r = rs::op(rs::ADDRVALID, 0, 0, a);
    c.check(r.ok() && r.v.size() == 1, "addressIsValid: Rust status %d", r.rc);
    if (a.size() != 39 || known(a)) c.check(r.v[0] == v, "addressIsValid: C++ says %d, Rust %d", v, r.v[0]);
    else c.check(!r.v[0] || v, "addressIsValid: only Rust accepts");
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        // hexadecimal
        for (unsigned part = 0; part < 8; part++) add("hex/" + std::to_string(part), [=](Ctx &c) {
            for (unsigned a = part; a < 128; a += 8) for (unsigned b = 0; b < 128; b++) {
                std::string t = {(char) a, (char) b};
                hexDecode(c, t); hexDecode(c, "7f" + t); hexDecode(c, t + "C0"); hexDecode(c, "1" + t + "2");
                if (b == 0) { hexDecode(c, std::string(1, a)); hexDecode(c, std::string(1, a) + "12"); }
            }
            for (unsigned v = part; v < 65536; v += th ? 8 : 56) { Bytes b = {(uint8_t) (v >> 8), (uint8_t) v}; hexEncode(c, b, v % 4); hexDecode(c, bin2hstr(b)); }
            for (size_t n = part; n <= 300; n += 8) for (unsigned w = 0; w <= 40; w += th ? 1 : 3) {
                Bytes b = msgN(n, w);
                hexEncode(c, b, w);
                for (auto &x : b) x &= 127;
                hexEncode(c, b, w);
                hexDecode(c, bin2hstr(b, w));
            }
            for (unsigned w : {0x7fffffffu, 0x80000000u, 0xffffffffu}) hexEncode(c, msgN(20 + part), w);
            // text that is not ASCII: refused, or the whole text is refused before the decoder
            for (const char *u : {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xd9\xa1", "\xef\xbc\x91", "\xc4\xb0", "\xef\xbd\x81", "\xe2\x84\xaa"}) for (const char *x : {"", "a", "ab", "abc"}) for (const char *y : {"", "1", "12"}) {
                std::string s = std::string(x) + u + y;
                c.at("hex text '%s'", jesc(s).c_str());
                c.evals++;
                auto r = rs::ops(rs::HSTR2BIN, 0, 0, s);
                c.check(r.rc == rs::ERR, "hstr2bin: Rust status %d", r.rc);
            }
            c.sample(c.shared);
        });
        // mnemonics
        for (unsigned part = 0; part < 8; part++) add("mnemonic/" + std::to_string(part), [=](Ctx &c) {
            std::vector<std::string> W;
            for (unsigned i = 0; i < 4096; i++) {
                W.push_back(wordlist[i]);
                if (i % 8 == part) { auto r = rs::op(rs::WORD, i, 0, {}); c.at("word %u", i); c.check(r.ok() && r.str() == W[i], "Rust word %u is '%s', C++ has '%s'", i, r.str().c_str(), W[i].c_str()); }
            }
            for (size_t n = part; n <= 400; n += 8) for (int z = 0; z < 3; z++) { c.at("%zu bytes to a mnemonic", n); mnEncode(c, z ? Bytes(n, z == 1 ? 0 : 255) : msgN(n, 5)); }
            for (unsigned hi = part; hi < 4096; hi += th ? 8 : 128) {
                Bytes b;
                for (unsigned lo = 0; lo < 4096; lo++) { unsigned g = hi << 12 | lo; b.push_back(g >> 16); b.push_back(g >> 8); b.push_back(g); }
                c.at("all groups whose first word is number %u", hi);
                mnEncode(c, b); mnDecode(c, bin2mnemonic(b));
            }
            for (unsigned w = part; w < 4096; w += th ? 8 : 32) {
                c.at("word %u", w);
                mnDecode(c, W[w] + " " + W[(w * 7 + 1) % 4096]); mnDecode(c, W[w]); mnDecode(c, W[w] + "x " + W[1]); mnDecode(c, W[1] + " " + W[w].substr(1)); 
                std::string up = W[w]; up[0] = toupper(up[0]); mnDecode(c, up + " " + W[1]);
            }
            // every layout of ASCII white space (and look-alikes that are none) around up to three words
            const char *sep[] = {" ", "  ", "\t", "\n", "\r", "\v", "\f", " \n\t", "", ",", "\x1c", "\x1f", "\x01", "\x7f", "-"};
            unsigned k = 0;
            for (unsigned n = 0; n <= 3; n++) for (auto a : sep) for (auto b : sep) for (auto l : sep) for (auto t : sep) {
                if (k++ % 8 != part || (!th && n == 3 && (*a & 1))) continue;
                std::string s = l;
                for (unsigned i = 0; i < n; i++) s += (i == 0 ? "" : i == 1 ? a : b) + W[11 * i + 4];
                if (n < 2 && *a != ' ') continue;
                s += t;
                c.at("mnemonic '%s'", jesc(s).c_str());
                mnDecode(c, s);
            }
            for (int a = 0; a < 128; a++) { std::string x(1, a); c.at("character %d in a mnemonic", a); mnDecode(c, x); mnDecode(c, W[1] + x + W[2]); mnDecode(c, W[1] + " " + W[2] + x); mnDecode(c, x + W[1] + " " + W[2]); mnDecode(c, W[1] + " " + x); }
            for (unsigned n = 0; n < 60; n++) { std::string s; for (unsigned i = 0; i < n; i++) s += (i ? " " : "") + W[(n * 67 + i * 129) % 4096]; c.at("mnemonic of %u words", n); mnDecode(c, s); }
            for (const char *u : {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}) { auto r = rs::ops(rs::MNEMONIC2BIN, 0, 0, W[1] + " " + u); c.check(r.rc == rs::ERR, "mnemonic2bin: Rust status %d on non-ASCII text", r.rc); }
            c.sample(c.shared);
        });
        // hashes
        for (unsigned part = 0; part < 8; part++) add("hash/" + std::to_string(part), [=](Ctx &c) {
            for (size_t n = part; n <= (th ? 1500 : 700); n += 8) for (size_t o : {size_t(0), size_t(1), size_t(31), size_t(32), size_t(48), size_t(96), size_t(135), size_t(136), size_t(137), size_t(168), size_t(169), size_t(272), size_t(337), n}) {
                Bytes m = msgN(n, 9);
                c.at("hashing %zu bytes to %zu", n, o);
                c.evalDistinct();
                agree(c, "shake128", true, shake128(o, m), rs::op(rs::SHAKE128, o, 0, m));
                agree(c, "shake256", true, shake256(o, m), rs::op(rs::SHAKE256, o, 0, m));
                if (o == 32) {
                    agree(c, "sha2_256", true, sha2_256(m), rs::op(rs::SHA2, 0, 0, m));
                    for (size_t k = 0; k < 6; k++) { Bytes x; bool ok = run([&] { return sha2_256_n(m, k); }, x); agree(c, "sha2_256_n", ok, x, rs::op(rs::SHA2N, k, 0, m)); }
                }
            }
            for (size_t k = part; k < 400; k += 8) { Bytes m = msgN(33, k), x; c.at("sha2_256_n with count %zu", k); bool ok = run([&] { return sha2_256_n(m, k); }, x); agree(c, "sha2_256_n", ok, x, rs::op(rs::SHA2N, k, 0, m)); }
            Bytes big = msgN(1000003 + part, 3);
            c.at("hashing %zu bytes", big.size());
            agree(c, "shake128", true, shake128(100, big), rs::op(rs::SHAKE128, 100, 0, big));
            agree(c, "shake256", true, shake256(100000, big), rs::op(rs::SHAKE256, 100000, 0, big));
            agree(c, "sha2_256", true, sha2_256(big), rs::op(rs::SHA2, 0, 0, big));
            c.sample(c.shared);
        });
        // descriptors
        for (unsigned part = 0; part < 8; part++) add("descriptor/" + std::to_string(part), [=](Ctx &c) {
            Bytes b(3), s = msgN(51), k = msgN(67);
            for (unsigned a = part; a < 65536; a += 8) for (unsigned t : {0u, 1u, 0xffu}) {
                b = {(uint8_t) (a >> 8), (uint8_t) a, (uint8_t) t};
                std::copy(b.begin(), b.end(), s.begin());
                std::copy(b.begin(), b.end(), k.begin());
                c.at("descriptor %02x %02x %02x", b[0], b[1], t);
                c.evalDistinct();
                auto r = rs::op(rs::DESCDEC, 0, 0, b), rs1 = rs::op(rs::DESCSEED, 0, 0, s), rk = rs::op(rs::DESCPK, 0, 0, k);
                for (auto *q : {&r, &rs1, &rk}) c.check(q->rc != rs::PANIC, "Rust panics");
                if (!known(b)) continue;
                QRLDescriptor d = QRLDescriptor::fromBytes(b);
                Bytes w = {(uint8_t) d.getHashFunction(), (uint8_t) d.getSignatureType(), (uint8_t) d.getHeight(), (uint8_t) d.getAddrFormatType()}, e = descr(d);
                w.insert(w.end(), e.begin(), e.end());
                agree(c, "fromBytes", true, w, r);
                agree(c, "fromExtendedSeed", true, descr(QRLDescriptor::fromExtendedSeed(s)), rs1);
                agree(c, "fromExtendedPK", true, descr(QRLDescriptor::fromExtendedPK(k)), rk);
                agree(c, "getBytes", true, descr(QRLDescriptor(d.getHashFunction(), eSignatureType::XMSS, d.getHeight(), eAddrFormatType::SHA256_2X)), rs::op(rs::DESCENC, b[0] & 15, 2 * (b[1] & 15), {}));
            }
            for (size_t n = part; n <= 300; n += 8) {
                Bytes z(n, 0), x;
                c.at("decoders on %zu bytes", n);
                c.evalDistinct();
                bool ok = run([&] { return descr(QRLDescriptor::fromExtendedSeed(z)); }, x);
                agree(c, "fromExtendedSeed", ok, x, rs::op(rs::DESCSEED, 0, 0, z));
                ok = run([&] { return descr(QRLDescriptor::fromExtendedPK(z)); }, x);
                agree(c, "fromExtendedPK", ok, x, rs::op(rs::DESCPK, 0, 0, z));
                ok = run([&] { return descr(QRLDescriptor::fromBytes(z)); }, x);
                auto r = rs::op(rs::DESCDEC, 0, 0, z);
                c.check(r.rc == (ok ? rs::OK : rs::ERR), "fromBytes: C++ %d, Rust status %d", ok, r.rc);
            }
            c.sample(c.shared);
        });
        // addresses
        for (unsigned part = 0; part < 8; part++) add("address/" + std::to_string(part), [=](Ctx &c) {
            Bytes k = msgN(67, part);
            for (unsigned a = part; a < 65536; a += 8) { k[0] = a >> 8; k[1] = a; k[2] = a % 3 ? 0 : a; c.at("key starting with %02x %02x %02x", k[0], k[1], k[2]); address(c, k); }
            for (size_t n = part; n <= 200; n += 8) { Bytes z = msgN(n, 1); if (n > 2) { z[0] = 1; z[1] = 5; z[2] = 0; } c.at("key of %zu bytes", n); address(c, z); c.at("address of %zu bytes", n); valid(c, z); valid(c, Bytes(n, 0)); }
            for (unsigned i = part; i < 48; i += 8) {
                Bytes pk = msgN(67, i); pk[0] = i % 3; pk[1] = 2 + i % 14; pk[2] = 0;
                for (size_t p = 3; p < 67; p++) { Bytes q = pk; q[p] ^= 1 << (p % 8); c.at("key %s", ref::hex(q).c_str()); address(c, q); }
                Bytes a = QRLHelper::getAddress(pk);
                c.at("address %s", ref::hex(a).c_str());
                valid(c, a);
                for (size_t p = 0; p < 39; p++) for (int v = 1; v < 256; v += th ? 1 : v < 16 ? 1 : 15) { Bytes b = a; b[p] ^= v; c.at("address %s byte %zu ^ %d", ref::hex(a).c_str(), p, v); valid(c, b); }
                for (size_t p = 0; p + 1 < 39; p++) { Bytes b = a; std::swap(b[p], b[p + 1]); c.at("address %s bytes %zu, %zu swapped", ref::hex(a).c_str(), p, p + 1); valid(c, b); }
                for (size_t l = 0; l < 60; l++) { Bytes b = a; b.resize(l); c.at("address %s resized to %zu", ref::hex(a).c_str(), l); valid(c, b); }
                // well-formed checksums over every descriptor
                for (unsigned d = i; d < 65536; d += th ? 7 : 53) {
                    Bytes b(a.begin(), a.begin() + 35); b[0] = d >> 8; b[1] = d;
                    Bytes h = ref::sha256(b); b.insert(b.end(), h.end() - 4, h.end());
                    c.at("address %s", ref::hex(b).c_str());
                    valid(c, b);
                }
            }
            c.sample(c.shared);
        });
        // hash-chain seeds
        for (unsigned part = 0; part < 8; part++) add("chain/" + std::to_string(part), [=](Ctx &c) {
            std::vector<uint32_t> sh = {0, 1, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304};
            for (size_t n = part; n <= 200; n += 8) for (auto s : sh) for (uint32_t k : {0u, 1u, 5u, 300u}) {
                if (k == 300 && n % 40 != part) continue;
                Bytes seed = msgN(n, 6), w;
                for (auto &x : getHashChainSeed(seed, s, k)) w.insert(w.end(), x.begin(), x.end());
                c.at("chain seeds: seed of %zu bytes, shift %u, count %u", n, s, k);
                c.evalDistinct();
                agree(c, "getHashChainSeed", true, w, rs::op(rs::CHAINSEED, s, k, seed));
            }
            c.sample(c.shared);
        });
    });
}

// C10: hexadecimal text.
#include <qrl.hpp>
#include <rs.hpp>
using namespace mc;
static int dec(const std::string &s, Bytes &o) { try { o = hstr2bin(s); return 0; } catch (std::exception &) { return 1; } }
static int hv1(unsigned char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
static void decode(Ctx &c, const std::string &s) {
    c.eval(fnv(s.data(), s.size()));
    bool good = s.size() % 2 == 0;
    Bytes want;
    for (size_t i = 0; i + 1 < s.size() && good; i += 2) {
        if (hv1(s[i]) < 0 || hv1(s[i + 1]) < 0) good = false;
        else want.push_back(hv1(s[i]) * 16 + hv1(s[i + 1]));
    }
    Bytes o;
    int r = dec(s, o);
    rs::R q = rs::ops(rs::HSTR2BIN, 0, 0, s);
    if (q.rc != rs::NOTEXT && (q.rc != (good ? rs::OK : rs::ERR) || (good && q.v != want))) c.fail("text '%s': Rust status %d, %s", jesc(s.substr(0, 200)).c_str(), q.rc, ref::hex(q.v).c_str());
    if (r != !good || (good && o != want)) c.fail("text '%s' %s%s", jesc(s.substr(0, 200)).c_str(), r ? "was refused" : "was decoded to ", r ? "" : ref::hex(o).c_str());
}
static std::string enc(const Bytes &b, uint64_t wrap) {
    std::string s;
    for (size_t i = 0; i < b.size(); i++) { if (wrap && i && i % wrap == 0) s += '\n'; s += ref::hex(&b[i], 1); }
    return s;
}
static void encode(Ctx &c, const Bytes &b, uint32_t wrap) {
    c.eval(hv(b, wrap + 77));
    c.at("%zu bytes starting %s, wrap %u", b.size(), ref::hex(b.data(), std::min<size_t>(b.size(), 8)).c_str(), wrap);
    std::string want = enc(b, wrap);
    Bytes b2 = b;
    std::string got = bin2hstr(b2, wrap);
    rs::R q = rs::op(rs::BIN2HSTR, wrap, 0, b);
    c.check(q.ok() && q.str() == want, "Rust status %d, '%.200s'", q.rc, jesc(q.str()).c_str());
    c.check(got == want, "encoded as '%.200s'", jesc(got).c_str());
    c.check(b2 == b, "input modified");
    std::string str(b.begin(), b.end());
    c.check(bin2hstr(str, wrap) == want, "text input encoded differently");
    c.check(str2bin(str) == b, "str2bin changed the bytes");
    if (!wrap) { c.check(bin2hstr(b) == want, "default argument"); Bytes o; c.check(dec(want, o) == 0 && o == b, "does not decode to the same bytes"); std::string up = want; for (auto &ch : up) ch = toupper(ch); c.check(dec(up, o) == 0 && o == b, "upper case does not decode to the same bytes"); }
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        add("bytes", [=](Ctx &c) {
            for (int a = 0; a < 256; a++) { encode(c, Bytes{(uint8_t) a}, 0); for (int b = 0; b < 256; b++) encode(c, Bytes{(uint8_t) a, (uint8_t) b}, 0); }
            c.sample(c.shared);
        });
        for (int part = 0; part < 4; part++) add("wrap/" + std::to_string(part), [=](Ctx &c) {
            std::vector<uint32_t> R;
            for (uint32_t w = 0; w <= 70; w++) R.push_back(w);
            for (uint32_t w : {100u, 255u, 256u, 257u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu}) R.push_back(w);
            for (size_t n = part; n <= 300; n += 4) for (uint32_t w : R) { if (n > 80 && w % 7 && w < 100 && !th) continue; encode(c, msgN(n, n), w); }
            c.sample(c.shared);
        });
        add("long", [=](Ctx &c) {
            for (size_t n : {1000, 65535, 65536, 65537, 1 << 20}) { encode(c, msgN(n, 1), 0); encode(c, msgN(n, 1), 32); std::string s = ref::hex(msgN(n, 2)); decode(c, s); s[n] = 'g'; decode(c, s); s[n] = '0'; s.back() = ' '; decode(c, s); }
            c.sample(c.shared);
        });
        // every two-character string: alone, as first pair, as last pair, straddling two pairs
        for (int part = 0; part < 8; part++) add("pairs/" + std::to_string(part), [=](Ctx &c) {
            for (int a = part; a < 256; a += 8) for (int b = 0; b < 256; b++) {
                std::string p = {(char) a, (char) b};
                c.at("characters %d %d", a, b);
                decode(c, p); decode(c, p + "0f"); decode(c, "A1" + p); decode(c, "1" + p + "2"); decode(c, "00" + p + "ff");
            }
            c.sample(c.shared);
        });
        add("lengths", [=](Ctx &c) {
            for (size_t n = 0; n <= 400; n++) {
                std::string s;
                for (size_t i = 0; i < n; i++) s += "0123456789abcdefABCDEF"[(i * 7 + n) % 22];
                c.at("%zu digits", n);
                decode(c, s);
                for (size_t p = 0; p < n && n < 120; p++) for (char ch : {' ', 'g', 'G', '\n', '/', ':', '@', '`', '\0', 'x'}) { std::string t = s; t[p] = ch; decode(c, t); }
            }
            for (auto s : {"0x", "0x00", "0X1f", " 00", "00 ", "00\n", "-1", "+1", "1e", "0b", "1.", "00 11 22", "00:11"}) decode(c, s);
            c.sample(c.shared);
        });
    });
}

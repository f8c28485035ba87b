// C09: the mnemonic codec, C++ and Rust.
#include <qrl.hpp>
#include <rs.hpp>
#include <qrl/wordlist.h>
#include <set>
using namespace mc;
static std::vector<std::string> W;
static std::set<std::string> Wset;
static void load(Ctx &c) {
    W.clear(); Wset.clear();
    for (auto &w : wordlist) { W.push_back(w); Wset.insert(w); }
    c.check(W.size() == 4096, "%zu words", W.size());
}
static std::string model(const Bytes &b) {
    std::string s;
    for (size_t i = 0; i + 2 < b.size(); i += 3) {
        unsigned x = b[i] << 4 | b[i + 1] >> 4, y = (b[i + 1] & 15) << 8 | b[i + 2];
        if (i) s += ' ';
        s += W[x] + ' ' + W[y];
    }
    return s;
}
static void roundtrip(Ctx &c, const Bytes &b, bool rust = true) {
    c.eval(hv(b));
    std::string m = bin2mnemonic(b);
    std::string want = model(b);
    if (m != want) { size_t p = 0; while (p < m.size() && p < want.size() && m[p] == want[p]) p++; c.fail("%zu bytes: text differs from the word pairs at character %zu: '%.40s'", b.size(), p, m.c_str() + (p > 10 ? p - 10 : 0)); }
    Bytes d = mnemonic2bin(m);
    if (d != b) { size_t p = 0; while (p < d.size() && p < b.size() && d[p] == b[p]) p++; c.fail("%zu bytes decode to %zu bytes, different at byte %zu", b.size(), d.size(), p); }
    if (rust) {
        auto r = rs::op(rs::BIN2MNEMONIC, 0, 0, b);
        c.check(r.ok() && r.str() == want, "Rust encoder disagrees (%d)", r.rc);
        auto q = rs::ops(rs::MNEMONIC2BIN, 0, 0, want);
        c.check(q.ok() && q.v == b, "Rust decoder disagrees (%d)", q.rc);
    }
}
static int decode(const std::string &s, Bytes &out) { try { out = mnemonic2bin(s); return 0; } catch (std::exception &) { return 1; } }
static void bad(Ctx &c, const std::string &s) {
    c.eval(fnv(s.data(), s.size()));
    c.at("text '%s'", jesc(s).c_str());
    Bytes o;
    c.check(decode(s, o) == 1, "decoded to %s", ref::hex(o).c_str());
    auto r = rs::ops(rs::MNEMONIC2BIN, 0, 0, s);
    c.check(r.rc == rs::ERR || r.rc == rs::NOTEXT, "Rust decoder answered %d %s", r.rc, ref::hex(r.v).c_str());
}
// valid words in an unusual layout: the right bytes or a refusal
static void lenient(Ctx &c, const std::string &s, const Bytes &b) {
    c.eval(fnv(s.data(), s.size()));
    c.at("text '%s'", jesc(s).c_str());
    Bytes o;
    if (decode(s, o) == 0) c.check(o == b, "decoded to %s instead of %s", ref::hex(o).c_str(), ref::hex(b).c_str());
    auto r = rs::ops(rs::MNEMONIC2BIN, 0, 0, s);
    c.check(r.rc != rs::PANIC && (!r.ok() || r.v == b), "Rust decoder answered %d %s", r.rc, ref::hex(r.v).c_str());
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        add("wordlist", [=](Ctx &c) {
            load(c);
            c.check(Wset.size() == 4096, "%zu distinct words", Wset.size());
            for (size_t i = 0; i < 4096; i++) {
                c.at("word %zu", i);
                c.evalDistinct();
                c.check(!W[i].empty(), "empty word");
                for (unsigned char ch : W[i]) c.check(ch > 0x20 && ch < 0x7f, "word '%s' contains character %d", W[i].c_str(), ch);
                auto r = rs::op(rs::WORD, i, 0, {});
                c.check(r.ok() && r.str() == W[i], "Rust word %zu is '%s', C++ has '%s'", i, r.str().c_str(), W[i].c_str());
            }
            auto n = rs::op(rs::WORDS, 0, 0, {});
            c.check(n.v == Bytes({0, 16, 0, 0}), "Rust word list length");
            c.sample("word 0 = " + W[0]);
        });
        // every three-byte group, in blocks of 4096 groups
        for (unsigned part = 0; part < 16; part++) add("groups/" + std::to_string(part), [=](Ctx &c) {
            load(c);
            for (unsigned hi = part; hi < 4096; hi += 16) {
                Bytes b;
                for (unsigned lo = 0; lo < 4096; lo++) { unsigned g = hi << 12 | lo; b.push_back(g >> 16); b.push_back(g >> 8); b.push_back(g); }
                c.at("all groups whose first word is number %u", hi);
                roundtrip(c, b, hi % 64 == part);
                c.evalDistinct(4095);
            }
            c.sample(c.shared);
        });
        // every word at every position of a short text
        for (unsigned part = 0; part < 16; part++) add("positions/" + std::to_string(part), [=](Ctx &c) {
            load(c);
            for (unsigned w = part; w < 4096; w += 16) {
                for (unsigned pos = 0; pos < 2; pos++) {
                    Bytes b = pos ? Bytes{0x12, (uint8_t) (0x30 | w >> 8), (uint8_t) w} : Bytes{(uint8_t) (w >> 4), (uint8_t) (w << 4 | 7), 0x89};
                    c.at("word %u at position %u of 2", w, pos);
                    roundtrip(c, b, th || w % 8 == part % 8);
                }
                unsigned pos = w % 34;
                Bytes b = msgN(51, w);
                if (pos % 2) { b[pos / 2 * 3 + 1] = (b[pos / 2 * 3 + 1] & 0xf0) | w >> 8; b[pos / 2 * 3 + 2] = w; }
                else { b[pos / 2 * 3] = w >> 4; b[pos / 2 * 3 + 1] = (b[pos / 2 * 3 + 1] & 15) | w << 4; }
                c.at("word %u at position %u of 34", w, pos);
                roundtrip(c, b, false);
            }
            c.sample(c.shared);
        });
        add("lengths", [=](Ctx &c) {
            load(c);
            for (size_t n = 0; n <= 600; n++) {
                Bytes b = msgN(n, 2);
                c.at("%zu bytes", n);
                if (n % 3 == 0) { roundtrip(c, b); for (int v : {0, 255}) roundtrip(c, Bytes(n, v)); }
                else {
                    c.evalDistinct();
                    bool ok = true;
                    try { bin2mnemonic(b); } catch (std::exception &) { ok = false; }
                    c.check(!ok, "%zu bytes were encoded", n);
                    c.check(rs::op(rs::BIN2MNEMONIC, 0, 0, b).rc == rs::ERR, "%zu bytes were encoded by Rust", n);
                }
            }
            for (size_t n : {4095, 4098, 16383 * 3, 65535, 65538, 65535 * 3, (1 << 20) - 1, 1 << 20, (1 << 20) + 2}) if (n % 3 == 0) roundtrip(c, msgN(n, 2));
            c.sample(c.shared);
        });
        // word counts 0..40 with every separator layout
        for (unsigned part = 0; part < 4; part++) add("counts/" + std::to_string(part), [=](Ctx &c) {
            load(c);
            std::vector<std::string> seps = {" ", "  ", "   ", "\t", "\n", "\r\n", " \t", "\v", "\f", "\n\n"}, ends = {"", " ", "  ", "\n", "\t ", "   "};
            size_t k = 0;
            for (unsigned n = 0; n <= (th ? 41 : 21); n++) for (auto &sep : seps) for (auto &lead : ends) for (auto &trail : ends) {
                if (k++ % 4 != part) continue;
                if (n > 6 && (lead.size() > 1 || trail.size() > 2) && !th) continue;
                Bytes b = msgN((n + 1) / 2 * 3, n);
                std::string s = lead;
                for (unsigned i = 0; i < n; i++) {
                    unsigned g = i / 2 * 3;
                    unsigned w = i % 2 ? (b[g + 1] & 15) << 8 | b[g + 2] : b[g] << 4 | b[g + 1] >> 4;
                    s += (i ? sep : "") + W[w];
                }
                s += trail;
                if (n % 2) bad(c, s); else if (sep == " " && lead.empty() && trail.empty()) roundtrip(c, b); else lenient(c, s, b);
            }
            // separators of mixed width: the number of gaps is no longer one less than the number of words
            for (unsigned n = 1; n <= 9; n++) for (unsigned mask = 0; mask < 1u << (n - 1); mask++) {
                if (mask % 4 != part) continue;
                Bytes b = msgN((n + 1) / 2 * 3, n);
                std::string s;
                for (unsigned i = 0; i < n; i++) {
                    unsigned g = i / 2 * 3;
                    unsigned w = i % 2 ? (b[g + 1] & 15) << 8 | b[g + 2] : b[g] << 4 | b[g + 1] >> 4;
                    if (i) s += mask >> (i - 1) & 1 ? "  " : " ";
                    s += W[w];
                }
                if (n % 2) bad(c, s); else lenient(c, s, b);
            }
            c.sample(c.shared);
        });
        // near-miss words at first, middle and last position
        for (unsigned part = 0; part < 16; part++) add("unknown/" + std::to_string(part), [=](Ctx &c) {
            load(c);
            for (unsigned w = part; w < 4096; w += 16) {
                std::vector<std::string> v = {W[w] + "x", W[w].substr(0, W[w].size() - 1), "x" + W[w]};
                std::string up = W[w]; up[0] = toupper(up[0]); v.push_back(up);
                if (th || w % 128 == part) {
                    for (auto &ch : up) ch = toupper(ch);
                    v.push_back(up);
                    v.push_back(W[w] + W[(w + 1) % 4096]); v.push_back(W[w] + "," + W[w]); v.push_back(W[w] + "\xc2\xa0" + W[w]);
                    v.push_back(std::string(W[w]) + '\0'); v.push_back(W[w] + "\xff"); v.push_back(std::to_string(w)); v.push_back(W[w].substr(1)); v.push_back(W[w].substr(0, W[w].size() / 2));
                }
                for (size_t i = 0; i < v.size(); i++) {
                    if (Wset.count(v[i]) || v[i].empty()) continue;
                    switch ((w + i) % 4) {
                        case 0: bad(c, v[i] + " " + W[5]); break;
                        case 1: bad(c, W[5] + " " + v[i]); break;
                        case 2: bad(c, W[7] + " " + W[8] + " " + v[i] + " " + W[9]); break;
                        default: bad(c, W[7] + " " + W[8] + " " + W[9] + " " + v[i]); break;
                    }
                }
            }
            c.sample(c.shared);
        });
        add("junk", [=](Ctx &c) {
            load(c);
            for (int a = 1; a < 256; a++) { if (isspace(a)) continue; bad(c, std::string(1, a)); bad(c, std::string(1, a) + " " + W[0]); bad(c, W[0] + " " + std::string(1, a)); bad(c, W[1] + " " + W[2] + std::string(1, a)); bad(c, W[1] + std::string(1, a) + W[2]); }
            std::string z = W[0] + " " + W[1]; z[W[0].size()] = 0; bad(c, z);
            for (auto s : {"", " ", "  ", "\n", " \t ", "     "}) lenient(c, s, {});
            Bytes o; c.check(decode("", o) == 0 && o.empty(), "the empty text is the mnemonic of the empty byte string");
            c.sample(c.shared);
        });
    });
}

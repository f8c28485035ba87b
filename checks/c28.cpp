// C28: everything exported to JavaScript, called by its exported name and compared with the library itself.
#include <qrl.hpp>
#include <pq.hpp>
#include <dilithium/dilithium.h>
#include <kyber/kyber.h>
#include <emscripten/bind.h>
using namespace mc;
using emscripten::Value; using emscripten::Args;
static const char *QRL = "jsqrlwrapper.cpp", *DIL = "jsdilwrapper.cpp", *KYB = "jskybwrapper.cpp";
static const emscripten::Callable &find(const std::map<std::string, emscripten::Callable> &m, const std::string &name) {
    auto i = m.find(name);
    if (i == m.end()) throw Fail{name + " is not exported"};
    return i->second;
}
static Value fn(const char *mod, const std::string &name, Args a) { return find(emscripten::modules()[mod].functions, name).call(nullptr, a); }
static Value st(const char *mod, const std::string &name, Args a) { return find(emscripten::modules()[mod].statics, name).call(nullptr, a); }
static Value me(const char *mod, const std::string &name, const Value &o, Args a = {}) { return find(emscripten::modules()[mod].methods, name).call(&o, a); }
static std::string show(const Value &v) {
    switch (v.kind) {
        case Value::Number: return std::to_string(v.number);
        case Value::Text: return "\"" + v.text.substr(0, 150) + "\"";
        case Value::Bytes: return std::to_string(v.bytes.size()) + " bytes " + bin2hstr(Bytes(v.bytes.begin(), v.bytes.begin() + std::min<size_t>(40, v.bytes.size())));
        case Value::Object: return "an object"; default: return "nothing";
    }
}
// The outcome of an operation: a value, or that it was refused.
struct Outcome { bool refused = false; Value v; };
template <class F> static Outcome run(F f) {
    Outcome o;
    try { o.v = Value(f()); } catch (Fail &) { throw; } catch (emscripten::TypeError &e) { throw Fail{std::string("the arguments do not fit the declared types: ") + e.what()}; } catch (std::exception &) { o.refused = true; }
    return o;
}
template <class J, class L> static void same(Ctx &c, const char *what, J js, L lib) {
    Outcome a = run(js), b = run(lib);
    c.evalDistinct();
    if (a.refused != b.refused) c.fail("%s: JavaScript %s, the library %s", what, a.refused ? "gets an error" : show(a.v).c_str(), b.refused ? "refuses" : show(b.v).c_str());
    if (!a.refused && !(a.v == b.v)) c.fail("%s: JavaScript gets %s, the library gives %s", what, show(a.v).c_str(), show(b.v).c_str());
}
template <class J> static Value good(Ctx &c, const char *what, J js) { Outcome a = run(js); c.evalDistinct(); if (a.refused) c.fail("%s: refused", what); return a.v; }
static Bytes bin(const std::string &hex) { return hstr2bin(hex); }
static std::string hexOf(const Bytes &b) { static const char *d = "0123456789abcdef"; std::string s; for (auto x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }

struct Kind { int h; int f; uint64_t seed; };
static std::vector<Kind> kinds(bool th) {
    std::vector<Kind> k;
    for (int f = 0; f < 3; f++) { k.push_back({4, f, 2800u + f}); k.push_back({6, f, 2810u + f}); if (th) k.push_back({8, f, 2820u + f}); }
    return k;
}
static void observe(Ctx &c, const char *what, const Value &j, XmssFast &x) {
    c.at("%s", what);
    same(c, "getIndex", [&] { return me(QRL, "Xmss.getIndex", j); }, [&] { return x.getIndex(); });
    same(c, "getHeight", [&] { return me(QRL, "Xmss.getHeight", j); }, [&] { return (int) x.getHeight(); });
    same(c, "getPKRaw", [&] { return me(QRL, "Xmss.getPKRaw", j); }, [&] { return x.getPK(); });
    same(c, "getPK", [&] { return me(QRL, "Xmss.getPK", j); }, [&] { return hexOf(x.getPK()); });
    same(c, "getAddressRaw", [&] { return me(QRL, "Xmss.getAddressRaw", j); }, [&] { return x.getAddress(); });
    same(c, "getAddress", [&] { return me(QRL, "Xmss.getAddress", j); }, [&] { return "Q" + hexOf(x.getAddress()); });
    same(c, "getHexSeed", [&] { return me(QRL, "Xmss.getHexSeed", j); }, [&] { return hexOf(x.getExtendedSeed()); });
    same(c, "getMnemonic", [&] { return me(QRL, "Xmss.getMnemonic", j); }, [&] { return bin2mnemonic(x.getExtendedSeed()); });
}
// JavaScript and library signer in lock step over every sequence of operations.
static const int XOPS = 8;
static void step(Ctx &c, const Value &j, XmssFast &x, int op) {
    uint32_t N = 1u << x.getHeight(), i = x.getIndex();
    auto sign = [&](size_t len) {
        Bytes m = msgN(len, i), sig;
        same(c, "sign", [&] { return me(QRL, "Xmss.sign", j, {m}); }, [&] { return sig = x.sign(m); });
        if (!sig.empty()) {
            same(c, "verify", [&] { return st(QRL, "Xmss.verify", {m, sig, x.getPK()}); }, [&] { return true; });
            Bytes bad = sig; bad[(i * 37 + len) % bad.size()] ^= 1;
            same(c, "verify of an altered signature", [&] { return st(QRL, "Xmss.verify", {m, bad, x.getPK()}); }, [&] { return false; });
        }
    };
    auto move = [&](uint32_t to) { same(c, "setIndex", [&] { return me(QRL, "Xmss.setIndex", j, {to}); }, [&] { return x.setIndex(to); }); };
    switch (op) {
        case 0: sign(0); break;
        case 1: sign(45); break;
        case 2: move(i); break;
        case 3: move(i + 1); break;
        case 4: move(i + 5); break;
        case 5: move(i ? i - 1 : 0xffffffffu); break;
        case 6: move(N - 1); break;
        case 7: move(N); break;
    }
    same(c, "getIndex", [&] { return me(QRL, "Xmss.getIndex", j); }, [&] { return x.getIndex(); });
    c.states++; c.transitions++;
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        add("exports", [](Ctx &c) {
            for (auto mod : {QRL, DIL, KYB}) {
                c.check(emscripten::modules().count(mod), "%s registers nothing", mod);
                for (auto &e : emscripten::modules()[mod].errors) c.fail("%s: %s", mod, e.c_str());
            }
            auto &en = emscripten::modules()[QRL].enums;
            struct { const char *n; int v; } want[] = {{"eHashFunction.SHA2_256", 0}, {"eHashFunction.SHAKE_128", 1}, {"eHashFunction.SHAKE_256", 2}, {"eSignatureType.XMSS", 0}, {"eAddrFormatType.SHA256_2X", 0}};
            for (auto &w : want) { c.at("%s", w.n); c.evalDistinct(); c.check(en.count(w.n) && en[w.n] == w.v, "the value of %s", w.n); }
            c.sample(c.shared);
        });
        // keys: made, restored from every text, copied out
        for (auto k : kinds(th)) add("keys/h" + std::to_string(k.h) + "/" + hname(k.f), [k](Ctx &c) {
            Bytes seed = seedN(k.seed);
            Value j = good(c, "fromParameters", [&] { return st(QRL, "Xmss.fromParameters", {seed, k.h, k.f}); });
            XmssFast x(seed, k.h, HF(k.f));
            observe(c, "fresh key", j, x);
            std::string hex = me(QRL, "Xmss.getHexSeed", j).text, mn = me(QRL, "Xmss.getMnemonic", j).text;
            std::string up = hex; for (auto &ch : up) ch = toupper(ch);
            Value a = good(c, "fromHexSeed", [&] { return st(QRL, "Xmss.fromHexSeed", {hex}); });
            Value u = good(c, "fromHexSeed in capitals", [&] { return st(QRL, "Xmss.fromHexSeed", {up}); });
            Value b = good(c, "fromMnemonic", [&] { return st(QRL, "Xmss.fromMnemonic", {mn}); });
            const Value *all[] = {&j, &a, &u, &b};
            for (auto v : all) { XmssFast y(seed, k.h, HF(k.f)); observe(c, "restored key", *v, y); }
            uint32_t N = 1u << k.h;
            for (uint32_t i = 0; i <= N; i++) {                 // each used on its own, interleaved
                Bytes m = msgN(30, i), want;
                bool ok = true;
                try { want = x.sign(m); } catch (std::exception &) { ok = false; }
                for (auto v : all) {
                    c.at("%s at index %u", k.h == 4 ? "h4" : "h6", i);
                    Outcome o = run([&] { return me(QRL, "Xmss.sign", *v, {m}); });
                    c.evalDistinct(); c.states++; c.transitions++;
                    c.check(o.refused == !ok, "sign %s", o.refused ? "refused" : "accepted after the last leaf");
                    if (ok) c.check(o.v.bytes == want, "wrong signature");
                }
            }
            for (auto v : all) observe(c, "used key", *v, x);
            c.sample(hex);
        });
        for (int first = 0; first < XOPS; first++) add("walk/" + std::to_string(first), [=](Ctx &c) {
            int depth = th ? 4 : 3, total = 1;
            for (int i = 1; i < depth; i++) total *= XOPS;
            XmssFast start(seedN(2840), 4, eHashFunction::SHAKE_256);
            Value j0 = st(QRL, "Xmss.fromParameters", {seedN(2840), 4, 2});
            for (int n = 0; n < total; n++) {
                XmssFast x(start);
                Value j = st(QRL, "Xmss.fromParameters", {seedN(2840), 4, 2});
                int z = n * XOPS + first;
                c.at("operations %d (base %d) from index 0", z, XOPS);
                for (int i = 0; i < depth; i++, z /= XOPS) step(c, j, x, z % XOPS);
                c.traces++;
            }
            c.sample(c.shared);
        });
        // the basic signer, with any Winternitz parameter
        for (int f = 0; f < 3; f++) for (unsigned w : {2u, 4u, 16u, 256u}) add(std::string("basic/") + hname(f) + "/w" + std::to_string(w), [=](Ctx &c) {
            Bytes seed = seedN(2850 + f);
            XmssBasic x(seed, 4, HF(f), eAddrFormatType::SHA256_2X, w);
            Value j = good(c, "fromParameters", [&] { return st(QRL, "XmssBasic.fromParameters", {seed, 4, f, 0, w}); });
            for (uint32_t to : {0u, 1u, 2u, 16u, 9u, 3u, 14u, 0xffffffffu}) {
                c.at("setIndex(%u) and sign", to);
                same(c, "setIndex", [&] { return me(QRL, "XmssBasic.setIndex", j, {to}); }, [&] { return x.setIndex(to); });
                for (int n = 0; n < 2; n++) {
                    Bytes m = msgN(20 + n, to), s;
                    same(c, "sign", [&] { return me(QRL, "XmssBasic.sign", j, {m}); }, [&] { return s = x.sign(m); });
                    for (unsigned v : {2u, 4u, 16u, 256u, 3u, 0u}) {
                        same(c, "verify", [&] { return st(QRL, "XmssBasic.verify", {m, s, x.getPK(), v}); }, [&] { return XmssBase::verify(m, s, x.getPK(), v); });
                        if (s.empty()) continue;
                        Bytes bad = s; bad[bad.size() - 1] ^= 0x80;
                        same(c, "verify", [&] { return st(QRL, "XmssBasic.verify", {m, bad, x.getPK(), v}); }, [&] { return false; });
                    }
                    c.states++; c.transitions++;
                }
                same(c, "getIndex", [&] { return me(QRL, "XmssBasic.getIndex", j); }, [&] { return x.getIndex(); });
                same(c, "getHeight", [&] { return me(QRL, "XmssBasic.getHeight", j); }, [&] { return (int) x.getHeight(); });
                same(c, "getPK", [&] { return me(QRL, "XmssBasic.getPK", j); }, [&] { return hexOf(x.getPK()); });
                same(c, "getHexSeed", [&] { return me(QRL, "XmssBasic.getHexSeed", j); }, [&] { return hexOf(x.getExtendedSeed()); });
            }
            c.sample(c.shared);
        });
        add("parameters", [](Ctx &c) {
            for (int h = 0; h < 256; h++) for (int f = 0; f < 17; f++) {
                if (f < 3 && h > 6 && h % 2 == 0 && h <= 30) continue;      // valid but too large to build
                c.at("fromParameters(height %d, hash %d)", h, f);
                Bytes seed = seedN(h);
                same(c, "Xmss.fromParameters", [&] { return st(QRL, "Xmss.fromParameters", {seed, h, f}).kind == Value::Object; }, [&] { XmssFast x(seed, h, HF(f)); return true; });
                if (h % 2 == 0 && h <= 6 && f < 3) continue;
                same(c, "XmssBasic.fromParameters", [&] { return st(QRL, "XmssBasic.fromParameters", {seed, h, f, 0, 16}).kind == Value::Object; }, [&] { XmssBasic x(seed, h, HF(f), eAddrFormatType::SHA256_2X, 16); return true; });
            }
            for (int w = 0; w < 300; w++) for (int h : {2, 3, 4}) {
                c.at("XmssBasic.fromParameters(height %d, w %d)", h, w);
                same(c, "XmssBasic.fromParameters", [&] { return st(QRL, "XmssBasic.fromParameters", {seedN(1), h, 1, 0, w}).kind == Value::Object; }, [&] { XmssBasic x(seedN(1), h, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X, w); return true; });
            }
            for (size_t n = 0; n < 110; n++) {
                c.at("a seed of %zu bytes", n);
                Bytes s(n, 5);
                same(c, "Xmss.fromParameters", [&] { return st(QRL, "Xmss.fromParameters", {s, 4, 1}).kind == Value::Object; }, [&] { XmssFast x(s, 4, eHashFunction::SHAKE_128); return true; });
                same(c, "XmssBasic.fromParameters", [&] { return st(QRL, "XmssBasic.fromParameters", {s, 4, 1, 0, 16}).kind == Value::Object; }, [&] { XmssBasic x(s, 4, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X, 16); return true; });
            }
            c.sample(c.shared);
        });
        // restoring keys: every length of text, every descriptor small enough to build, malformed characters and words
        auto restore = [](Ctx &c, const std::string &hex) {
            auto lib = [&](XmssFast x) { return x.getPK(); };
            same(c, "fromHexSeed", [&] { return me(QRL, "Xmss.getPKRaw", st(QRL, "Xmss.fromHexSeed", {hex})); }, [&] { return lib(XmssFast(hstr2bin(hex))); });
        };
        for (int p = 0; p < 4; p++) add("hexseed/" + std::to_string(p), [=](Ctx &c) {
            std::string full = "010200" + hexOf(seedN(2860));
            for (size_t n = p; n < 140; n += 4) {
                std::string t = full.substr(0, n); t.resize(n, '3');
                c.at("fromHexSeed with %zu characters", n);
                restore(c, t);
                for (auto pre : {"Q", "0x", " ", "\n"}) { std::string s = pre + t; c.at("fromHexSeed with \"%s\" before %zu characters", pre, n); restore(c, s); }
            }
            for (int d = p; d < 65536; d += 4) {
                int h = (d & 15) * 2, f = d >> 8 & 15;       // byte 0: scheme and hash; byte 1: address format and height/2
                if (h > 4 && h <= 30 && f < 3 && (d >> 12) == 0) continue;
                if (d >> 12 != 0 && f != 0 && f != 1) continue;
                char t[8]; snprintf(t, sizeof t, "%04x%02x", d, d % 3);
                c.at("fromHexSeed with descriptor %s", t);
                if (h > 4 && f < 3) continue;
                restore(c, std::string(t) + full.substr(6));
            }
            for (size_t pos = p; pos < 102; pos += 4) for (char ch : {'g', 'G', ' ', '\0', '/', ':', '@', '`', '\xff'}) {
                std::string t = full; t[pos] = ch;
                c.at("fromHexSeed with character %d at %zu", (unsigned char) ch, pos);
                restore(c, t);
            }
            c.sample(c.shared);
        });
        for (int p = 0; p < 4; p++) add("mnemonic/" + std::to_string(p), [=](Ctx &c) {
            auto both = [&](const std::string &t) {
                same(c, "fromMnemonic", [&] { return me(QRL, "Xmss.getPKRaw", st(QRL, "Xmss.fromMnemonic", {t})); }, [&] { XmssFast x(mnemonic2bin(t)); return x.getPK(); });
                same(c, "mnemonic2bin", [&] { return fn(QRL, "mnemonic2bin", {t}); }, [&] { return mnemonic2bin(t); });
            };
            Bytes e = seedN(2861); e.insert(e.begin(), {1, 2, 0});
            std::string full = bin2mnemonic(e);
            std::vector<std::string> words;
            for (size_t a = 0; a < full.size();) { size_t b = full.find(' ', a); if (b == std::string::npos) b = full.size(); words.push_back(full.substr(a, b - a)); a = b + 1; }
            for (size_t n = p; n <= 72; n += 4) for (auto sep : {" ", "  ", "\n"}) {
                std::string t;
                for (size_t i = 0; i < n; i++) t += (i ? sep : "") + words[i % words.size()];
                c.at("fromMnemonic of %zu words", n);
                both(t); both(" " + t); both(t + " ");
            }
            for (size_t n = p; n <= full.size(); n += 4) { c.at("fromMnemonic cut to %zu characters", n); both(full.substr(0, n)); }
            for (size_t i = p; i < words.size(); i += 4) for (auto w : {"", "Aback", "abac", "abackk", "1", "\xc3\xa9"}) {
                std::string t;
                for (size_t k = 0; k < words.size(); k++) t += (k ? " " : "") + (k == i ? std::string(w) : words[k]);
                c.at("fromMnemonic with word %zu replaced by \"%s\"", i, w);
                both(t);
            }
            c.sample(c.shared);
        });
        // text and address functions
        for (int p = 0; p < 4; p++) add("addresses/" + std::to_string(p), [=](Ctx &c) {
            auto field = [](const std::string &t, int what) -> double {
                if (t.size() < 7) throw std::invalid_argument("short");
                Bytes a = bin(t.substr(1));
                auto d = QRLDescriptor::fromBytes(Bytes(a.begin(), a.begin() + 3));
                return what == 0 ? (int) d.getHashFunction() : what == 1 ? (int) d.getSignatureType() : d.getHeight();
            };
            auto text = [&](const std::string &t) {
                same(c, "getHashFunction", [&] { return fn(QRL, "getHashFunction", {t}); }, [&] { return field(t, 0); });
                same(c, "getSignatureType", [&] { return fn(QRL, "getSignatureType", {t}); }, [&] { return field(t, 1); });
                same(c, "getHeight", [&] { return fn(QRL, "getHeight", {t}); }, [&] { return field(t, 2); });
                same(c, "validateAddress", [&] { return fn(QRL, "validateAddress", {t}); }, [&] { if (t.size() < 7) throw std::invalid_argument("short"); return QRLHelper::addressIsValid(bin(t.substr(1))); });
            };
            Bytes epk = msgN(67, 28); epk[0] = 1; epk[1] = 5; epk[2] = 0;
            std::string addr = "Q" + hexOf(QRLHelper::getAddress(epk));
            c.check(fn(QRL, "validateAddress", {addr}).number == 1, "a valid address is refused");
            for (size_t n = p; n < 100; n += 4) { std::string t = addr.substr(0, n); t.resize(n, '0'); c.at("address text of %zu characters", n); text(t); }
            for (int d = p; d < 65536; d += 4) {
                char t[8]; snprintf(t, sizeof t, "%04x%02x", d, d & 255);
                c.at("address with descriptor %s", t);
                std::string a = "Q" + std::string(t) + addr.substr(7);
                text(a);
                if (d % 16 == p) text(a.substr(0, 7));
            }
            for (size_t pos = p; pos < addr.size(); pos += 4) for (int ch = 0; ch < 256; ch++) {
                std::string t = addr; t[pos] = (char) ch;
                c.at("address with character %d at %zu", ch, pos);
                if (pos) text(t);
            }
            for (size_t n = p; n < 140; n += 4) {
                Bytes k = epk; k.resize(n, 9);
                c.at("public key of %zu bytes", n);
                same(c, "getAddressRaw", [&] { return fn(QRL, "getAddressRaw", {k}); }, [&] { return QRLHelper::getAddress(k); });
                same(c, "getAddress", [&] { return fn(QRL, "getAddress", {hexOf(k)}); }, [&] { return hexOf(QRLHelper::getAddress(k)); });
                std::string odd = hexOf(k) + "0";
                same(c, "getAddress of an odd text", [&] { return fn(QRL, "getAddress", {odd}); }, [&] { return hexOf(QRLHelper::getAddress(bin(odd))); });
                same(c, "validateAddressRaw", [&] { return fn(QRL, "validateAddressRaw", {k}); }, [&] { return QRLHelper::addressIsValid(k); });
            }
            for (int d = p; d < 65536; d += 4) {
                Bytes k = epk; k[0] = d >> 8; k[1] = d & 255;
                c.at("public key with descriptor %04x", d);
                same(c, "getAddressRaw", [&] { return fn(QRL, "getAddressRaw", {k}); }, [&] { return QRLHelper::getAddress(k); });
                if (d % 64 == p) same(c, "getAddress", [&] { return fn(QRL, "getAddress", {hexOf(k)}); }, [&] { return hexOf(QRLHelper::getAddress(k)); });
                if (d % 64 == p) { auto raw = run([&] { return QRLHelper::getAddress(k); }); if (!raw.refused) same(c, "validateAddressRaw", [&] { return fn(QRL, "validateAddressRaw", {raw.v.bytes}); }, [&] { return true; }); }
            }
            c.sample(c.shared);
        });
        for (int p = 0; p < 4; p++) add("encoders/" + std::to_string(p), [=](Ctx &c) {
            for (size_t n = p; n < 420; n += 4) for (int z = 0; z < 3; z++) {
                Bytes b = msgN(n, z);
                std::string s(b.begin(), b.end()), h = hexOf(b);
                c.at("%zu bytes", n);
                for (auto mod : {QRL, DIL, KYB}) same(c, "bin2hstr", [&] { return fn(mod, "bin2hstr", {b}); }, [&] { return h; });
                same(c, "hstr2bin", [&] { return fn(QRL, "hstr2bin", {h}); }, [&] { return b; });
                same(c, "hstr2bin of half", [&] { return fn(QRL, "hstr2bin", {h.substr(0, n)}); }, [&] { return hstr2bin(h.substr(0, n)); });
                same(c, "hstr2bin of bytes", [&] { return fn(QRL, "hstr2bin", {s}); }, [&] { return hstr2bin(s); });
                same(c, "str2bin", [&] { return fn(QRL, "str2bin", {s}); }, [&] { return b; });
                same(c, "bin2mnemonic", [&] { return fn(QRL, "bin2mnemonic", {b}); }, [&] { return bin2mnemonic(b); });
                same(c, "sha2_256", [&] { return fn(QRL, "sha2_256", {b}); }, [&] { return sha2_256(b); });
                for (size_t len : {0, 1, 31, 32, 33, 64, 168, 169, 400}) same(c, "shake128", [&] { return fn(QRL, "shake128", {len, b}); }, [&] { return shake128(len, b); });
                c.states++;
            }
            same(c, "getString", [&] { return fn(DIL, "getString", {}).kind == Value::Text && fn(KYB, "getString", {}).kind == Value::Text; }, [&] { return true; });
            c.sample(c.shared);
        });
        for (int p = 0; p < 4; p++) add("dilithium/" + std::to_string(p), [=](Ctx &c) {
            pq::counter = 3;
            Dilithium d; pq::counter = 3;
            Value j = good(c, "empty", [&] { return st(DIL, "Dilithium.empty", {}); });
            auto both = [&](const Value &v, Dilithium &x) {
                same(c, "getPKRaw", [&] { return me(DIL, "Dilithium.getPKRaw", v); }, [&] { return x.getPK(); });
                same(c, "getSKRaw", [&] { return me(DIL, "Dilithium.getSKRaw", v); }, [&] { return x.getSK(); });
                same(c, "getPK", [&] { return me(DIL, "Dilithium.getPK", v); }, [&] { return hexOf(x.getPK()); });
                same(c, "getSK", [&] { return me(DIL, "Dilithium.getSK", v); }, [&] { return hexOf(x.getSK()); });
            };
            both(j, d);
            std::string pk = hexOf(d.getPK()), sk = hexOf(d.getSK());
            Value r = good(c, "fromKeys", [&] { return st(DIL, "Dilithium.fromKeys", {pk, sk}); });
            both(r, d);
            auto keys = [&](const std::string &a, const std::string &b) { same(c, "fromKeys", [&] { return st(DIL, "Dilithium.fromKeys", {a, b}).kind == Value::Object; }, [&] { Dilithium x(bin(a), bin(b)); return true; }); };
            for (int x = -9; x <= 9; x++) for (int y = -9; y <= 9; y++) {
                if ((x + y + 18) % 4 != p) continue;
                std::string a = pk, b = sk; a.resize(a.size() + x, '1'); b.resize(b.size() + y, '2');
                c.at("fromKeys with %zu and %zu characters", a.size(), b.size());
                keys(a, b);
            }
            keys("", ""); keys(pk, ""); keys("", sk); keys(sk, pk); keys(pk, "zz" + sk.substr(2)); keys("  " + pk.substr(2), sk);
            for (size_t n = p; n < 200; n += 4) {
                Bytes m = msgN(n, 4);
                c.at("message of %zu bytes", n);
                same(c, "sign", [&] { return me(DIL, "Dilithium.sign", r, {hexOf(m)}); }, [&] { return hexOf(d.sign(m)); });
                same(c, "sign an odd text", [&] { return me(DIL, "Dilithium.sign", r, {hexOf(m) + "1"}); }, [&] { return hexOf(d.sign(bin(hexOf(m) + "1"))); });
                Bytes s = d.sign(m);
                auto open = [&](std::string out, const std::string &sm, const std::string &key) {
                    same(c, "sign_open", [&] { return st(DIL, "Dilithium.sign_open", {out, sm, key}); },
                         [&] { Bytes o(out.begin(), out.end()); Dilithium::sign_open(o, bin(sm), bin(key)); return hexOf(o); });
                };
                std::string t = hexOf(s);
                open("", t, pk); open(std::string(n, 'x'), t, pk); open(std::string(n + 6000, 'x'), t, pk);
                for (size_t at : {(size_t) 0, t.size() / 2, t.size() - 1}) { std::string u = t; u[at] = u[at] == '0' ? '1' : '0'; open("", u, pk); open("old", u, pk); }
                for (int x = -5; x <= 5; x++) { std::string u = t; u.resize(u.size() + x, '0'); open("y", u, pk); u = pk; u.resize(u.size() + x, '0'); open("y", t, u); }
                open("", t.substr(0, 2 * n), pk); open("", "", pk); open("", t, ""); open("", "xy", pk);
                for (size_t len : {(size_t) 0, n, 2 * pq::DSIG - 2, 2 * pq::DSIG - 1, 2 * pq::DSIG, 2 * pq::DSIG + 2 * n}) {
                    std::string u = t; u.resize(len, '7');
                    same(c, "extract_message", [&] { return st(DIL, "Dilithium.extract_message", {u}); }, [&] { Bytes b = bin(u); return hexOf(Dilithium::extract_message(b)); });
                }
                c.states++;
            }
            c.sample(c.shared);
        });
        for (int p = 0; p < 4; p++) add("kyber/" + std::to_string(p), [=](Ctx &c) {
            pq::counter = 5;
            Kyber k; pq::counter = 5;
            Value j = good(c, "empty", [&] { return st(KYB, "Kyber.empty", {}); });
            auto both = [&](const Value &v, Kyber &x) {
                same(c, "getPKRaw", [&] { return me(KYB, "Kyber.getPKRaw", v); }, [&] { return x.getPK(); });
                same(c, "getSKRaw", [&] { return me(KYB, "Kyber.getSKRaw", v); }, [&] { return x.getSK(); });
                same(c, "getPK", [&] { return me(KYB, "Kyber.getPK", v); }, [&] { return hexOf(x.getPK()); });
                same(c, "getSK", [&] { return me(KYB, "Kyber.getSK", v); }, [&] { return hexOf(x.getSK()); });
                same(c, "getCypherText", [&] { return me(KYB, "Kyber.getCypherText", v); }, [&] { return hexOf(x.getCypherText()); });
                same(c, "getMyKey", [&] { return me(KYB, "Kyber.getMyKey", v); }, [&] { return hexOf(x.getMyKey()); });
            };
            both(j, k);
            std::string pk = hexOf(k.getPK()), sk = hexOf(k.getSK());
            Value r = good(c, "fromKeys", [&] { return st(KYB, "Kyber.fromKeys", {pk, sk}); });
            both(r, k);
            auto keys = [&](const std::string &a, const std::string &b) { same(c, "fromKeys", [&] { return st(KYB, "Kyber.fromKeys", {a, b}).kind == Value::Object; }, [&] { Kyber x(bin(a), bin(b)); return true; }); };
            for (int x = -9; x <= 9; x++) for (int y = -9; y <= 9; y++) {
                if ((x + y + 18) % 4 != p) continue;
                std::string a = pk, b = sk; a.resize(a.size() + x, '1'); b.resize(b.size() + y, '2');
                c.at("fromKeys with %zu and %zu characters", a.size(), b.size());
                keys(a, b);
            }
            keys("", ""); keys(pk, ""); keys("", sk); keys(sk, pk); keys(pk, "zz" + sk.substr(2));
            // every sequence of encapsulations and decapsulations with good, bad and malformed arguments
            int depth = th ? 5 : 4, total = 1;
            for (int i = 0; i < depth; i++) total *= 7;
            for (int n = p; n < total; n += 4) {
                Kyber x(bin(pk), bin(sk));
                Value v = st(KYB, "Kyber.fromKeys", {pk, sk});
                c.at("sequence %d (base 7)", n);
                for (int i = 0, z = n; i < depth; i++, z /= 7) {
                    pq::counter = 50 + i;
                    Bytes p2, s2; pq::kkey(p2, s2, 77);
                    std::string arg;
                    bool enc = false;
                    switch (z % 7) {
                        case 0: enc = true; arg = hexOf(p2); break;
                        case 1: enc = true; arg = pk; break;
                        case 2: enc = true; arg = pk.substr(2); break;
                        case 3: enc = true; arg = pk.substr(1); break;
                        case 4: { Kyber o(p2, s2); o.kem_encode(x.getPK()); arg = hexOf(o.getCypherText()); break; }
                        case 5: arg = hexOf(x.getCypherText()); break;
                        case 6: arg = "00"; break;
                    }
                    if (enc) { pq::counter = 60 + i; auto a = [&] { return me(KYB, "Kyber.kem_encode", v, {arg}); }; auto b = [&] { pq::counter = 60 + i; return x.kem_encode(bin(arg)); }; same(c, "kem_encode", a, b); }
                    else same(c, "kem_decode", [&] { return me(KYB, "Kyber.kem_decode", v, {arg}); }, [&] { return x.kem_decode(bin(arg)); });
                    same(c, "getCypherText", [&] { return me(KYB, "Kyber.getCypherText", v); }, [&] { return hexOf(x.getCypherText()); });
                    same(c, "getMyKey", [&] { return me(KYB, "Kyber.getMyKey", v); }, [&] { return hexOf(x.getMyKey()); });
                    c.states++; c.transitions++;
                }
                pq::calls.clear();
                c.traces++;
            }
            c.sample(c.shared);
        });
        // exports that take two numbers: each runs in a process of its own, with little stack and time
        for (auto &e : {std::make_pair(DIL, "crypto_sign_keypair"), std::make_pair(KYB, "crypto_kem_keypair")}) add(std::string("raw/") + e.second, [e](Ctx &c) {
            if (!emscripten::modules()[e.first].functions.count(e.second)) return;
            for (int a : {0, 1, 255}) {
                c.at("%s(%d, %d)", e.second, a, 255 - a);
                fflush(nullptr);
                pid_t p = fork();
                if (p == 0) {
                    rlimit s{1 << 20, 1 << 20}; setrlimit(RLIMIT_STACK, &s);
                    try { fn(e.first, e.second, {a, 255 - a}); } catch (std::exception &) { }
                    _exit(0);
                }
                int st = 0; bool done = false;
                for (int t = 0; t < 400 && !done; t++) { done = waitpid(p, &st, WNOHANG) == p; if (!done) usleep(10000); }
                if (!done) { kill(p, SIGKILL); waitpid(p, &st, 0); }
                c.evalDistinct();
                if (!done || !WIFEXITED(st) || WEXITSTATUS(st)) { c.soft(std::string("recursion:") + e.second, std::string(e.second) + " does not return (it calls itself)"); break; }
            }
            c.sample(c.shared);
        });
    });
}

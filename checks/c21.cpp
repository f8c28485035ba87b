// C21: the Dilithium wrapper over recording stand-ins for the reference functions.
#include <qrl.hpp>
#include <rs.hpp>
#include <pq.hpp>
#include <dilithium/dilithium.h>
using namespace mc;
using pq::DPK; using pq::DSK; using pq::DSIG;
static void open1(Ctx &c, const Bytes &sm, const Bytes &pk, size_t pre, const char *what) {
    Bytes out(pre, 0x6e), s0 = sm, p0 = pk;
    bool size = pk.size() == DPK && sm.size() >= DSIG;
    bool ref = size && (pq::forced ? pq::forcedRet == 0 : pq::dopen(sm, pk));
    pq::calls.clear();
    bool got, threw = false;
    try { got = Dilithium::sign_open(out, sm, pk); } catch (std::invalid_argument &) { got = false; threw = true; }
    c.evalDistinct();
    c.check(got == ref, "%s: sign_open returned %d, the reference says %d", what, got, ref);
    c.check(sm == s0 && pk == p0, "%s: inputs modified", what);
    if (size) {
        c.check(!threw, "%s: refused with an exception", what);
        c.check(pq::calls.size() == 1 && pq::calls[0].fn == "open" && pq::calls[0].a == sm && pq::calls[0].b == pk, "%s: the reference was not asked about exactly these inputs", what);
    }
    for (auto &k : pq::calls) if (k.fn == "open") c.check(size, "%s: the reference was called with a buffer of the wrong size", what);
    if (got) c.check(out.size() >= sm.size() - DSIG && std::equal(sm.begin() + DSIG, sm.end(), out.begin()), "%s: wrong message", what);
    else if (!threw) for (auto b : out) c.check(b == 0 , "%s: a rejected message was returned", what);
}
static int newD(Ctx &c, const Bytes &pk, const Bytes &sk) {
    try { Dilithium d(pk, sk); c.check(d.getPK() == pk && d.getSK() == sk, "keys changed by the constructor"); return 0; }
    catch (std::invalid_argument &) { return 1; }
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (int p = 0; p < 4; p++) add("roundtrip/" + std::to_string(p), [=](Ctx &c) {
            std::vector<size_t> N;
            for (size_t n = p; n <= (th ? 3000u : 600u); n += 4) N.push_back(n);
            for (size_t n : {2700, 2701, 2702, 4096, 65535, 65536, 65537, 1 << 20}) if (n % 4 == (size_t) p) N.push_back(n);
            pq::counter = 100 + p;
            for (size_t n : N) {
                c.at("message of %zu bytes", n);
                Bytes pk, sk, m = msgN(n, 21), m0 = m;
                pq::dkey(pk, sk, pq::counter);
                pq::calls.clear();
                Dilithium d;
                c.check(d.getPK() == pk && d.getSK() == sk, "the generated keys are not the reference's");
                c.check(d.getPublicKeySize() == DPK && d.getSecretKeySize() == DSK, "announced key sizes");
                Dilithium e(pk, sk);
                Dilithium *ds[2] = {&d, &e};
                for (auto x : ds) {
                    pq::calls.clear();
                    Bytes s = x->sign(m);
                    c.evalDistinct();
                    c.check(m == m0, "the message was modified");
                    c.check(s == pq::dsign(m, sk), "the signed message is not the reference's (%zu bytes)", s.size());
                    c.check(pq::calls.size() == 1 && pq::calls[0].a == m && pq::calls[0].b == sk, "the reference was not asked to sign exactly this message with this key");
                    Bytes cp = s;
                    c.check(Dilithium::extract_message(cp) == m, "extract_message");
                    c.check(Dilithium::extract_signature(cp) == Bytes(s.begin(), s.begin() + DSIG), "extract_signature");
                    c.check(cp == s, "extraction modified its input");
                    for (size_t pre : {(size_t) 0, n, s.size(), s.size() + 100}) open1(c, s, pk, pre, "valid");
                    c.check(x->getPK() == pk && x->getSK() == sk, "signing changed the keys");
                }
            }
            c.sample(c.shared);
        });
        for (int p = 0; p < 8; p++) add("tampered/" + std::to_string(p), [=](Ctx &c) {
            Bytes pk, sk, pk2, sk2; pq::dkey(pk, sk, 7); pq::dkey(pk2, sk2, 8);
            Bytes s = pq::dsign(msgN(37, 1), sk);
            for (size_t i = p; i < s.size(); i += 8) if (th || i < 40 || i > DSIG - 20 || i % 5 == 0) { Bytes t = s; t[i] ^= 1 << (i % 8); c.at("byte %zu of the signed message changed", i); open1(c, t, pk, 0, "tampered"); }
            for (size_t i = p; i < DPK; i += 8) if (th || i < 40 || i > DPK - 20 || i % 5 == 0) { Bytes k = pk; k[i] ^= 0x40; c.at("byte %zu of the key changed", i); open1(c, s, k, 0, "other key"); }
            open1(c, s, pk2, 0, "other key");
            // every verdict of the reference is passed on
            pq::forced = true;
            for (int r : {-1, 1, 2, 255, 256, 512, 65536, 1 << 24, INT32_MIN, INT32_MAX, -256, 0}) { pq::forcedRet = r; c.at("the reference returns %d", r); open1(c, s, pk, 0, "forced"); Bytes t = s; t[5] ^= 1; open1(c, t, pk, 3, "forced"); }
            pq::forced = false;
            c.sample(c.shared);
        });
        for (int p = 0; p < 8; p++) add("lengths/" + std::to_string(p), [=](Ctx &c) {
            Bytes pk, sk; pq::dkey(pk, sk, 7);
            Bytes big = pq::dsign(msgN(300, 1), sk);
            for (size_t n = p; n <= DSIG + 300; n += 8) {
                Bytes t(big.begin(), big.begin() + n);
                c.at("signed message of %zu bytes", n);
                for (size_t pre : {(size_t) 0, (size_t) 5000}) open1(c, t, pk, pre, "truncated");
                bool threw = false;
                Bytes cp = t, m;
                try { m = Dilithium::extract_message(cp); } catch (std::exception &) { threw = true; }
                c.check(threw == (n < DSIG) && (threw || m == Bytes(t.begin() + DSIG, t.end())), "extract_message");
                threw = false;
                try { m = Dilithium::extract_signature(cp); } catch (std::exception &) { threw = true; }
                c.check(threw == (n < DSIG) && (threw || m == Bytes(t.begin(), t.begin() + DSIG)), "extract_signature");
                c.check(cp == t, "extraction modified its input");
                Bytes s2 = pq::dsign(msgN(n % 50, 2), sk), k = pk; k.resize(n, 1);
                c.at("public key of %zu bytes", n);
                open1(c, s2, k, 0, "key of another size");
                open1(c, t, k, 0, "key and signed message of other sizes");
            }
            for (size_t n = p; n <= DSK + 300; n += 8) {
                Bytes k = pk, s = sk; k.resize(n, 1);
                c.at("constructor with a public key of %zu bytes", n);
                c.evalDistinct();
                c.check(newD(c, k, sk) == (n != DPK), "%s", n == DPK ? "refused" : "accepted");
                s.resize(n, 1);
                c.at("constructor with a secret key of %zu bytes", n);
                c.check(newD(c, pk, s) == (n != DSK), "%s", n == DSK ? "refused" : "accepted");
                c.at("constructor with keys of %zu and %zu bytes", DPK + DSK - n, n);
                if (n != DSK && n <= DPK + DSK) { k.resize(DPK + DSK - n); c.check(newD(c, k, s) == 1, "accepted"); }
            }
            for (size_t n : {10000, 65536 + 1472, 65536 + 3504, 131072 + 3504, 1 << 20}) { Bytes k(n, 1); c.check(newD(c, k, sk) && newD(c, pk, k), "accepted keys of %zu bytes", n); }
            c.check(newD(c, sk, pk) == 1, "accepted swapped keys");
            c.sample(c.shared);
        });
        // objects do not share state
        add("histories", [=](Ctx &c) {
            for (int h = 0; h < 729; h++) {
                pq::counter = 50;
                std::vector<Bytes> pk(3), sk(3);
                for (int i = 0; i < 3; i++) pq::dkey(pk[i], sk[i], 50 + i);
                std::vector<Dilithium> d(1); d.emplace_back(); d.emplace_back();
                int x = h;
                c.at("history %d", h);
                for (int s = 0; s < 3; s++, x /= 9) {
                    int o = x % 3, k = x / 3 % 3;
                    if (k == 0) c.check(d[o].sign(msgN(s)) == pq::dsign(msgN(s), sk[o]), "signed with another key");
                    if (k == 1) { d[o] = d[(o + 1) % 3]; pk[o] = pk[(o + 1) % 3]; sk[o] = sk[(o + 1) % 3]; }
                    if (k == 2) { Bytes g = d[o].getSK(); if (!g.empty()) g[0] ^= 1; Bytes q = d[o].getPK(); q.clear(); }
                    for (int i = 0; i < 3; i++) c.check(d[i].getPK() == pk[i] && d[i].getSK() == sk[i], "keys of object %d changed", i);
                    c.states++; c.transitions++;
                }
                c.evalDistinct();
            }
            c.sample(c.shared);
        });
        // the Rust wrapper over its own stand-in crate
        for (int p = 0; p < 4; p++) add("rust/" + std::to_string(p), [=](Ctx &c) {
            const size_t RPK = 2592, RSK = 4864, RSIG = 4595;
            Bytes big;
            { rs::R r = rs::pq(3, msgN(300, 1), {}); c.check(r.ok() && r.v.size() == RPK + RSK + RSIG + 300, "Rust sign"); big.assign(r.v.begin() + RPK + RSK, r.v.end()); Bytes pk(r.v.begin(), r.v.begin() + RPK);
              c.check(Bytes(big.begin() + RSIG, big.end()) == msgN(300, 1), "Rust: a signed message does not end with the message");
              for (size_t n = p; n <= RSIG + 300; n += 4) {
                Bytes t(big.begin(), big.begin() + n);
                c.at("Rust: signed message of %zu bytes", n);
                rs::R m = rs::pq(1, t, {}), s = rs::pq(2, t, {}), o = rs::pq(4, t, pk);
                c.evalDistinct(3);
                if (n < RSIG) c.check(m.rc == rs::ERR && s.rc == rs::ERR && o.rc == rs::ERR, "short signed message not refused with an error (%d %d %d)", m.rc, s.rc, o.rc);
                else {
                    c.check(m.ok() && s.ok() && m.v == Bytes(t.begin() + RSIG, t.end()) && s.v == Bytes(t.begin(), t.begin() + RSIG), "extraction wrong");
                    c.check(o.rc == (n == big.size() ? rs::OK : rs::ERR) && (!o.ok() || o.v == msgN(300, 1)), "open returned %d", o.rc);
                }
              }
              for (size_t i = p; i < big.size(); i += 4) if (i % 3 == 0 || i >= RSIG) { Bytes t = big; t[i] ^= 2; c.at("Rust: byte %zu changed", i); c.check(rs::pq(4, t, pk).rc == rs::ERR, "accepted"); c.evalDistinct(); }
            }
            Bytes pk(RPK, 3), sk(RSK, 4);
            for (size_t n = p; n < RSK + 200; n += 4) {
                Bytes k = pk, s = sk; k.resize(n, 3); s.resize(n, 4);
                c.at("Rust: keys of %zu bytes", n);
                rs::R a = rs::pq(0, k, sk), b = rs::pq(0, pk, s);
                c.evalDistinct(2);
                c.check(a.rc == (n == RPK ? rs::OK : rs::ERR) && b.rc == (n == RSK ? rs::OK : rs::ERR), "new returned %d %d", a.rc, b.rc);
                for (auto &r : {a, b}) if (r.ok()) c.check(Bytes(r.v.begin(), r.v.begin() + RPK) == pk && Bytes(r.v.begin() + RPK, r.v.end()) == sk, "keys changed");
            }
            for (size_t n = p; n < 400; n += 4) {
                c.at("Rust: message of %zu bytes", n);
                Bytes m = msgN(n, 5);
                rs::R r = rs::pq(3, m, {});
                c.check(r.ok() && r.v.size() == RPK + RSK + RSIG + n, "sign");
                Bytes k(r.v.begin(), r.v.begin() + RPK), s(r.v.begin() + RPK + RSK, r.v.end());
                rs::R o = rs::pq(4, s, k);
                c.check(o.ok() && o.v == m, "own signed message not opened");
                k[n % RPK] ^= 1;
                c.check(rs::pq(4, s, k).rc == rs::ERR, "opened under another key");
                c.evalDistinct(2);
            }
            rs::R z = rs::pq(5, {}, {});
            uint32_t zs[2]; c.check(z.ok() && z.v.size() == 8, "sizes"); memcpy(zs, z.v.data(), 8);
            c.check(zs[0] == RPK && zs[1] == RSK, "announced key sizes");
            c.sample(c.shared);
        });
    });
}

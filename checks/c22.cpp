// C22: the Kyber wrapper over recording stand-ins for the reference functions.
#include <qrl.hpp>
#include <rs.hpp>
#include <pq.hpp>
#include <kyber/kyber.h>
using namespace mc;
using pq::KPK; using pq::KSK; using pq::KCT; using pq::KSS;
static int newK(Ctx &c, const Bytes &pk, const Bytes &sk) {
    try { Kyber d(pk, sk); c.check(d.getPK() == pk && d.getSK() == sk, "keys changed by the constructor"); return 0; }
    catch (std::invalid_argument &) { return 1; }
}
static bool enc(Ctx &c, Kyber &k, const Bytes &pk) {
    Bytes p0 = pk, a = k.getPK(), b = k.getSK();
    pq::calls.clear();
    bool r, threw = false;
    try { r = k.kem_encode(pk); } catch (std::invalid_argument &) { r = false; threw = true; }
    c.evalDistinct();
    c.check(pk == p0 && k.getPK() == a && k.getSK() == b, "keys modified");
    if (pk.size() != KPK) { c.check(!r && pq::calls.empty(), "a public key of %zu bytes was used", pk.size()); return r; }
    c.check(!threw, "refused with an exception");
    c.check(pq::calls.size() == 1 && pq::calls[0].fn == "kem_enc" && pq::calls[0].a == pk, "the reference was not asked about exactly this key");
    c.check(r == (pq::calls[0].ret == 0), "kem_encode returned %d, the reference %d", r, pq::calls[0].ret);
    if (r) c.check(k.getCypherText() == pq::calls[0].b && k.getMyKey() == pq::calls[0].c, "ciphertext or key differ from the reference's");
    return r;
}
static bool dec(Ctx &c, Kyber &k, const Bytes &ct) {
    Bytes c0 = ct, a = k.getPK(), b = k.getSK();
    pq::calls.clear();
    bool r, threw = false;
    try { r = k.kem_decode(ct); } catch (std::invalid_argument &) { r = false; threw = true; }
    c.evalDistinct();
    c.check(ct == c0 && k.getPK() == a && k.getSK() == b, "inputs modified");
    if (ct.size() != KCT) { c.check(!r && pq::calls.empty(), "a ciphertext of %zu bytes was used", ct.size()); return r; }
    c.check(!threw, "refused with an exception");
    c.check(pq::calls.size() == 1 && pq::calls[0].fn == "kem_dec" && pq::calls[0].a == ct && pq::calls[0].b == b, "the reference was not asked about exactly this ciphertext and key");
    c.check(r == (pq::calls[0].ret == 0), "kem_decode returned %d, the reference %d", r, pq::calls[0].ret);
    if (r) c.check(k.getMyKey() == pq::calls[0].c, "the key differs from the reference's");
    return r;
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        // two parties, every sequence of encapsulations and decapsulations up to the depth
        int D = th ? 7 : 5;
        for (int first = 0; first < 6; first++) add("exchanges/" + std::to_string(first), [=](Ctx &c) {
            int total = 1; for (int i = 1; i < D; i++) total *= 6;
            for (int h = 0; h < total; h++) {
                pq::counter = 10;
                Bytes pk, sk;
                pq::kkey(pk, sk, 10);
                Kyber a;
                c.check(a.getPK() == pk && a.getSK() == sk, "the generated keys are not the reference's");
                pq::kkey(pk, sk, 99);
                Kyber b(pk, sk);
                Kyber *k[2] = {&a, &b};
                Bytes lastCt[2], secret[2];      // what each party last sent, and the secret it then had
                int x = h * 6 + first;
                for (int s = 0; s < D; s++, x /= 6) {
                    int who = x % 2, op = x / 2 % 3;
                    c.at("history %d step %d", h * 6 + first, s);
                    c.states++; c.transitions++;
                    if (op == 0) { c.check(enc(c, *k[who], k[1 - who]->getPK()), "encapsulation failed"); lastCt[who] = k[who]->getCypherText(); secret[who] = k[who]->getMyKey(); }
                    else if (op == 1 && !lastCt[1 - who].empty()) { c.check(dec(c, *k[who], lastCt[1 - who]), "decapsulation failed"); c.check(k[who]->getMyKey() == secret[1 - who], "the two parties have different keys"); }
                    else if (op == 2) { Bytes ct = msgN(KCT, s), kk; dec(c, *k[who], ct); Kyber copy(*k[who]); enc(c, copy, k[1 - who]->getPK()); c.check(k[who]->getMyKey() != copy.getMyKey(), "a copy shares its key"); }
                }
            }
            c.sample(c.shared);
        });
        for (int p = 0; p < 8; p++) add("lengths/" + std::to_string(p), [=](Ctx &c) {
            Bytes pk, sk; pq::kkey(pk, sk, 7);
            for (size_t n = p; n <= KSK + 300; n += 8) {
                Kyber k(pk, sk);
                Bytes b = msgN(n, 3);
                c.at("public key of %zu bytes", n); enc(c, k, b);
                c.at("ciphertext of %zu bytes", n); dec(c, k, b);
                Bytes q = pk, s = sk; q.resize(n, 1); s.resize(n, 1);
                c.at("constructor with a public key of %zu bytes", n);
                c.check(newK(c, q, sk) == (n != KPK), "%s", n == KPK ? "refused" : "accepted");
                c.at("constructor with a secret key of %zu bytes", n);
                c.check(newK(c, pk, s) == (n != KSK), "%s", n == KSK ? "refused" : "accepted");
                if (n != KSK && n <= KPK + KSK) { q.resize(KPK + KSK - n); c.check(newK(c, q, s) == 1, "accepted"); }
                c.evalDistinct(3);
            }
            for (size_t n : {10000, 65536 + 1088, 65536 + 1152, 65536 + 2400, 1 << 20}) { Bytes b(n, 1); Kyber k(pk, sk); c.at("%zu bytes", n); enc(c, k, b); dec(c, k, b); c.check(newK(c, b, sk) && newK(c, pk, b), "accepted"); }
            c.check(newK(c, sk, pk) == 1, "accepted swapped keys");
            c.sample(c.shared);
        });
        add("verdicts", [=](Ctx &c) {
            Bytes pk, sk; pq::kkey(pk, sk, 7);
            pq::forced = true;
            for (int r : {-1, 1, 2, 255, 256, 512, 65536, 1 << 24, INT32_MIN, INT32_MAX, -256, 0}) for (int n = 0; n < 3; n++) {
                pq::forcedRet = r;
                c.at("the reference returns %d", r);
                Kyber k(pk, sk);
                c.check(enc(c, k, pk) == (r == 0), "kem_encode");
                c.check(dec(c, k, msgN(KCT, n)) == (r == 0), "kem_decode");
            }
            c.sample(c.shared);
        });
        for (int p = 0; p < 4; p++) add("rust/" + std::to_string(p), [=](Ctx &c) {
            const size_t RPK = 1184, RSK = 2400;
            for (int i = 0; i < 20; i++) { rs::R r = rs::pq(7, {}, {}); c.at("Rust exchange"); c.check(r.ok(), "the two parties have different secrets"); c.evalDistinct();
                Bytes ct(r.v.begin(), r.v.begin() + 1088), ss(r.v.begin() + 1088, r.v.begin() + 1120), sk(r.v.begin() + 1120, r.v.end());
                rs::R d = rs::pq(8, ct, sk); c.check(d.ok() && d.v == ss, "decapsulation with the restored key differs");
                for (size_t n : {0, 1, 1087, 1089, 1152}) { Bytes t = ct; t.resize(n); c.check(rs::pq(8, t, sk).rc == rs::ERR, "ciphertext of %zu bytes", n); } }
            Bytes pk(RPK, 3), sk(RSK, 4);
            for (size_t n = p; n < RSK + 200; n += 4) {
                Bytes k = pk, s = sk; k.resize(n, 3); s.resize(n, 4);
                c.at("Rust: keys of %zu bytes", n);
                rs::R a = rs::pq(6, k, sk), b = rs::pq(6, pk, s);
                c.evalDistinct(2);
                c.check(a.rc == (n == RPK ? rs::OK : rs::ERR) && b.rc == (n == RSK ? rs::OK : rs::ERR), "new returned %d %d", a.rc, b.rc);
                for (auto &r : {a, b}) if (r.ok()) c.check(Bytes(r.v.begin(), r.v.begin() + RPK) == pk && Bytes(r.v.begin() + RPK, r.v.end()) == sk, "keys changed");
            }
            c.sample(c.shared);
        });
    });
}

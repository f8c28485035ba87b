#include "pq.hpp"
#include <cstring>
#include <dilithium/ref/api.h>
#include <dilithium/ref/randombytes.h>
#include <kyber/ref/api.h>
namespace pq {
std::vector<Call> calls;
bool forced = false; int forcedRet = 0;
uint64_t counter = 1;
static Bytes mix(size_t n, std::initializer_list<std::pair<const uint8_t *, size_t>> in) {
    uint64_t h = 0xcbf29ce484222325ULL;
    for (auto &p : in) for (size_t i = 0; i < p.second; i++) h = (h ^ p.first[i]) * 0x100000001b3ULL;
    Bytes o(n);
    for (size_t i = 0; i < n; i++) { h = (h ^ i) * 0x9e3779b97f4a7c15ULL; h = h << 23 | h >> 41; o[i] = (uint8_t) (h >> 24); }
    return o;
}
static const uint8_t *S(const char *s) { return (const uint8_t *) s; }
void dkey(Bytes &pk, Bytes &sk, uint64_t n) { pk = mix(DPK, {{S("pk"), 2}, {(uint8_t *) &n, 8}}); sk = mix(DSK, {{S("sk"), 2}, {pk.data(), DPK}}); }
Bytes dsign(const Bytes &m, const Bytes &sk) { Bytes s = mix(DSIG, {{sk.data(), DSK}, {m.data(), m.size()}}); s.insert(s.end(), m.begin(), m.end()); return s; }
bool dopen(const Bytes &sm, const Bytes &pk) {
    if (sm.size() < DSIG) return false;
    Bytes sk = mix(DSK, {{S("sk"), 2}, {pk.data(), DPK}});
    return dsign(Bytes(sm.begin() + DSIG, sm.end()), sk) == sm;
}
void kkey(Bytes &pk, Bytes &sk, uint64_t n) { sk = mix(KSK, {{S("sk"), 2}, {(uint8_t *) &n, 8}}); pk = mix(KPK, {{S("pk"), 2}, {sk.data(), KSK}}); }
Bytes kenc(const Bytes &pk, const Bytes &ct) { return mix(KSS, {{pk.data(), KPK}, {ct.data(), KCT}}); }
Bytes kdec(const Bytes &ct, const Bytes &sk) { Bytes pk = mix(KPK, {{S("pk"), 2}, {sk.data(), KSK}}); return kenc(pk, ct); }
static int ret(int r) { return forced ? forcedRet : r; }
static void log(const char *fn, Bytes a, Bytes b, Bytes c, int r) { calls.push_back({fn, std::move(a), std::move(b), std::move(c), r}); }
}
using namespace pq;
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
    Bytes p, s;
    dkey(p, s, counter++);
    memcpy(pk, p.data(), DPK); memcpy(sk, s.data(), DSK);
    log("keypair", p, s, {}, 0);
    return 0;
}
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *msg, unsigned long long len, const unsigned char *sk) {
    Bytes m(msg, msg + len), k(sk, sk + DSK), o = dsign(m, k);
    memcpy(sm, o.data(), o.size());
    *smlen = o.size();
    log("sign", m, k, o, 0);
    return 0;
}
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long smlen, const unsigned char *pk) {
    Bytes in(sm, sm + smlen), k(pk, pk + DPK);
    bool ok = dopen(in, k);
    int r = ret(ok ? 0 : -1);
    if (r == 0 && in.size() >= DSIG) {
        memset(m, 0x3c, smlen);        // the reference uses the whole buffer as scratch space
        memcpy(m, in.data() + DSIG, in.size() - DSIG);
        *mlen = in.size() - DSIG;
    } else {
        memset(m, 0, smlen);
        *mlen = (unsigned long long) -1;
    }
    log("open", in, k, {}, r);
    return r;
}
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk) {
    Bytes p, s;
    kkey(p, s, counter++);
    memcpy(pk, p.data(), KPK); memcpy(sk, s.data(), KSK);
    log("kem_keypair", p, s, {}, 0);
    return 0;
}
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk) {
    Bytes k(pk, pk + KPK);
    uint64_t n = counter++;
    Bytes c = mix(KCT, {{S("ct"), 2}, {(uint8_t *) &n, 8}}), s = kenc(k, c);
    memcpy(ct, c.data(), KCT); memcpy(ss, s.data(), KSS);
    int r = ret(0);
    log("kem_enc", k, c, s, r);
    return r;
}
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk) {
    Bytes c(ct, ct + KCT), k(sk, sk + KSK), s = kdec(c, k);
    memcpy(ss, s.data(), KSS);
    int r = ret(0);
    log("kem_dec", c, k, s, r);
    return r;
}
void randombytes(unsigned char *x, unsigned long long n) { for (unsigned long long i = 0; i < n; i++) x[i] = (unsigned char) (counter * 31 + i); counter++; }

#include "pooltree.hpp"
#include "ref.hpp"
#include "sched.hpp"
#include <set>
#include <stdexcept>
namespace pool {
static uint64_t calls_;
static bool light_ = true;
static std::multiset<std::string> *failAt = new std::multiset<std::string>;
static std::set<std::string> *done = new std::set<std::string>;
struct Q { Q() { sched::quiet(true); } ~Q() { sched::quiet(false); } };
void expectSeed(const uint8_t *base, size_t n, uint64_t index, uint8_t out[48]) {
    Q q;
    ref::Bytes b(base, base + n);
    for (uint64_t i = index + 1; i; i >>= 8) b.push_back((uint8_t) i);
    ref::H(ref::SHAKE256, b.data(), b.size(), out, 48);
}
static void lightKeys(const uint8_t *seed, uint8_t sk[132]) {
    memset(sk, 0, 4);
    ref::H(ref::SHAKE256, seed, 48, sk + 4, 96);
    ref::Bytes b(seed, seed + 48);
    b.push_back(1);
    ref::H(ref::SHAKE256, b.data(), b.size(), sk + 100, 32);
}
void expectPk(const uint8_t seed[48], uint8_t h, uint8_t out[64]) {
    Q q;
    if (light_) {
        uint8_t sk[132];
        lightKeys(seed, sk);
        memcpy(out, sk + 100, 32); memcpy(out + 32, sk + 68, 32);
        return;
    }
    static std::map<std::string, std::string> *memo = new std::map<std::string, std::string>;
    std::string k((const char *) seed, 48); k.push_back((char) h);
    auto it = memo->find(k);
    if (it == memo->end()) {
        ref::Xmss x(ref::Bytes(seed, seed + 48), h, 1);
        ref::Bytes pk = x.pk();
        it = memo->emplace(k, std::string(pk.begin() + 3, pk.end())).first;
    }
    memcpy(out, it->second.data(), 64);
}
uint64_t lightCalls() { return calls_; }
bool light() { return light_; }
void probe(bool called) { light_ = called; }
void beginRun() { Q q; failAt->clear(); done->clear(); }
void failBuild(const uint8_t seed[48]) { Q q; failAt->insert(std::string((const char *) seed, 48)); }
bool built(const uint8_t seed[48]) { Q q; return done->count(std::string((const char *) seed, 48)); }
int generate(unsigned char *pk, unsigned char *sk, unsigned char *seed) {
    calls_++;
    sched::building(true);
    sched::point();
    bool fail;
    {
        Q q;
        auto it = failAt->find(std::string((const char *) seed, 48));
        if ((fail = it != failAt->end())) failAt->erase(it);
    }
    if (fail) { sched::building(false); throw std::runtime_error("injected: the tree cannot be built"); }
    {
        Q q;
        lightKeys(seed, sk);
        memcpy(pk, sk + 100, 32); memcpy(pk + 32, sk + 68, 32);
        done->insert(std::string((const char *) seed, 48));
    }
    sched::building(false);
    sched::point();
    return 0;
}
} // namespace pool
int wrapGen(int, void *, unsigned char *pk, unsigned char *sk, void *, unsigned char *seed)
    asm("__wrap__Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_");
int wrapGen(int, void *, unsigned char *pk, unsigned char *sk, void *, unsigned char *seed) { return pool::generate(pk, sk, seed); }

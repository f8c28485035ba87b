// Recording stand-ins for the Dilithium and Kyber reference functions (the submodules are absent): transparent schemes
// with the reference's interface, buffer use and return conventions. Every call is recorded; return values can be forced.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace pq {
using Bytes = std::vector<uint8_t>;
constexpr size_t DPK = 1472, DSK = 3504, DSIG = 2701, KPK = 1088, KSK = 2400, KCT = 1152, KSS = 32;
struct Call { std::string fn; Bytes a, b, c; int ret; };     // inputs a, b and output c as the callee saw them
extern std::vector<Call> calls;
extern bool forced; extern int forcedRet;
extern uint64_t counter;          // the "randomness" of key pairs and encapsulations
Bytes dsign(const Bytes &msg, const Bytes &sk);
bool dopen(const Bytes &sm, const Bytes &pk);
Bytes kenc(const Bytes &pk, const Bytes &ct);       // shared secret
Bytes kdec(const Bytes &ct, const Bytes &sk);
void dkey(Bytes &pk, Bytes &sk, uint64_t n);
void kkey(Bytes &pk, Bytes &sk, uint64_t n);
}

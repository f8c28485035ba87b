#pragma once
#include <cstdint>
#include <cstddef>
// What the tree of a pool index has to be; in the light build generating the key pair is replaced by a cheap function of the seed.
namespace pool {
void expectSeed(const uint8_t *base, size_t n, uint64_t index, uint8_t out[48]);
void expectPk(const uint8_t seed[48], uint8_t height, uint8_t out[64]); // root || public seed
uint64_t lightCalls();
bool light();                 // the replaced generation is what the code calls
void probe(bool calledDuringProbe);
void beginRun();
void failBuild(const uint8_t seed[48]); // generation from this seed throws, once
bool built(const uint8_t seed[48]); // generation from this seed has finished in this execution
}

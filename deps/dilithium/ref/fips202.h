// Stand-in for the absent submodule: same prototypes as src/xmss-alt/fips202.h, which provides the definitions.
#ifndef VT_DIL_FIPS202_H
#define VT_DIL_FIPS202_H
#include <cstdint>
void shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen);
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen);
#endif

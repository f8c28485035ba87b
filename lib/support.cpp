// Primitives behind the dependency stand-ins, and (fast flavour) replacements for the SHAKE primitives.
#include "ref.hpp"
#include <atomic>
namespace vt { bool fastWanted =
#ifdef VT_FASTHASH
    true;
#else
    false;
#endif
}
namespace ref { bool g_fast = vt::fastWanted; }

void vt_sha256(const unsigned char *in, size_t len, unsigned char out[32]) {
#ifdef VT_FASTHASH
    uint8_t o[32];
    ref::fasthash(ref::SHA2, in, len, o, 32);
    memcpy(out, o, 32);
#else
    uint8_t o[32];
    ref::sha256(in, len, o);
    memcpy(out, o, 32);
#endif
}
#ifdef VT_FASTHASH
// -Wl,--wrap=_Z8shake128PhyPKhy and shake256
extern "C" void __wrap__Z8shake128PhyPKhy(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) {
    if (outlen == 32) { ref::fasthash(ref::SHAKE128, in, inlen, out, 32); return; }
    uint8_t tmp[512];
    ref::fasthash(ref::SHAKE128, in, inlen, tmp, outlen);
    memcpy(out, tmp, outlen);
}
extern "C" void __wrap__Z8shake256PhyPKhy(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) {
    if (outlen == 32) { ref::fasthash(ref::SHAKE256, in, inlen, out, 32); return; }
    uint8_t tmp[512];
    ref::fasthash(ref::SHAKE256, in, inlen, tmp, outlen);
    memcpy(out, tmp, outlen);
}
#endif

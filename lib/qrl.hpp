// Public C++ headers of the code under test.
#pragma once
#include "mc.hpp"
#include "ref.hpp"
#include <memory>
#include <qrl/xmssBase.h>
#include <qrl/xmssBasic.h>
#include <qrl/xmssFast.h>
#include <qrl/qrlHelper.h>
#include <qrl/qrlDescriptor.h>
#include <qrl/hashing.h>
#include <qrl/misc.h>
using ref::Bytes;
inline eHashFunction HF(int f) { return static_cast<eHashFunction>(f); }
inline const char *hname(int f) { static const char *n[] = {"SHA2_256", "SHAKE_128", "SHAKE_256"}; return f < 3 ? n[f] : "?"; }
// A signer of either kind with any Winternitz parameter.
inline std::unique_ptr<XmssBase> mkBasic(const Bytes &seed, int h, int f, unsigned w = 16) {
    return std::unique_ptr<XmssBase>(new XmssBasic(seed, h, HF(f), eAddrFormatType::SHA256_2X, w));
}
inline std::unique_ptr<XmssFast> mkFast(const Bytes &seed, int h, int f, unsigned w = 16) {
    std::unique_ptr<XmssFast> x(new XmssFast(seed, h, HF(f), eAddrFormatType::SHA256_2X));
    if (w != 16) x->initialize_tree(w);
    return x;
}
inline Bytes seedN(uint64_t n) {      // 48 deterministic bytes
    Bytes s(48);
    uint8_t t[8];
    memcpy(t, &n, 8);
    ref::shake(136, t, 8, s.data(), 48);
    return s;
}
inline Bytes msgN(size_t len, uint64_t n = 0) {
    Bytes m(len);
    uint64_t x = n * 0x9e3779b97f4a7c15ULL + len + 1;
    for (size_t i = 0; i < len; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; m[i] = (uint8_t) (x >> 24); }
    return m;
}
// Which model the linked primitives follow: normally the flavour's; if a change routed hashing around the
// replaced primitive, fall back to the real one instead of blaming the code.
inline void probeHash() {
    if (!ref::g_fast) return;
    Bytes s = seedN(4242);
    XmssBasic x(s, 4, HF(1), eAddrFormatType::SHA256_2X, 16);
    if (x.getPK() == ref::Xmss(s, 4, 1).pk()) return;
    ref::g_fast = false;
    bool real = x.getPK() == ref::Xmss(s, 4, 1).pk();
    ref::g_fast = !real;
}

// Stand-in for the absent PicoSHA2 submodule: the part of its interface qrllib uses, with the same semantics.
// With -DVT_FASTHASH it delegates to the cheap structural-exploration hash instead.
#ifndef PICOSHA2_H
#define PICOSHA2_H
#include <cstddef>
#include <cstdint>
#include <vector>
#include <iterator>
#include <algorithm>
#include <string>
void vt_sha256(const unsigned char *in, size_t len, unsigned char out[32]);
namespace picosha2 {
static const size_t k_digest_size = 32;
template <typename In, typename Out>
void hash256(In first, In last, Out ofirst, Out olast) {
    std::vector<unsigned char> buf(first, last);
    unsigned char d[32];
    vt_sha256(buf.data(), buf.size(), d);
    for (size_t i = 0; i < 32 && ofirst != olast; ++i, ++ofirst) *ofirst = d[i];
}
// The real library collects its input in a vector: VT_SHA_ALLOC keeps that (and with it, that hashing can run out of memory).
#ifndef VT_SHA_ALLOC
inline void vt_direct(const unsigned char *first, const unsigned char *last, unsigned char *ofirst, unsigned char *olast) {
    unsigned char d[32];
    vt_sha256(first, (size_t) (last - first), d);
    for (size_t i = 0; i < 32 && ofirst != olast; ++i, ++ofirst) *ofirst = d[i];
}
template <> inline void hash256<unsigned char *, unsigned char *>(unsigned char *a, unsigned char *b, unsigned char *c, unsigned char *d) { vt_direct(a, b, c, d); }
template <> inline void hash256<const unsigned char *, unsigned char *>(const unsigned char *a, const unsigned char *b, unsigned char *c, unsigned char *d) { vt_direct(a, b, c, d); }
#endif
template <typename C, typename D> void hash256(const C &src, D &dst) { hash256(src.begin(), src.end(), dst.begin(), dst.end()); }
}
#endif

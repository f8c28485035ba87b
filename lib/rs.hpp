// The Rust library behind a C interface (rust/ffi/lib.rs).
#pragma once
#include "ref.hpp"
extern "C" {
struct RsOut; struct RsSigner; struct RsPool;
size_t rs_out_len(const RsOut *); const uint8_t *rs_out_data(const RsOut *); void rs_out_free(RsOut *);
int rs_new(uint32_t kind, const uint8_t *, size_t, uint8_t h, uint32_t hash, uint32_t w, RsSigner **);
int rs_from_extended(const uint8_t *, size_t, RsSigner **);
void rs_free(RsSigner *);
int rs_sign(RsSigner *, const uint8_t *, size_t, RsOut **);
int rs_set_index(RsSigner *, uint32_t, uint32_t *);
int rs_init_tree(RsSigner *, uint32_t);
int rs_get(RsSigner *, uint32_t, RsOut **);
int64_t rs_num(RsSigner *, uint32_t, uint32_t);
int rs_verify(const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint32_t, uint32_t *);
int rs_height_from_sig_size(size_t, uint32_t, uint32_t *);
int rs_update_sk(uint8_t *, uint64_t);
int rs_base(uint8_t, uint8_t *, uint32_t, uint32_t, uint32_t *);
int rs_tall(uint32_t, uint32_t, uint32_t, uint8_t *, uint64_t, const uint8_t *, size_t, RsOut **);
int rs_op(uint32_t, uint64_t, uint64_t, const uint8_t *, size_t, RsOut **);
int rs_pq(uint32_t, const uint8_t *, size_t, const uint8_t *, size_t, RsOut **);
int rs_pool_new(const uint8_t *, size_t, uint8_t, uint64_t, uint64_t, RsPool **);
void rs_pool_free(RsPool *);
int rs_pool_next(RsPool *, RsOut **);
uint64_t rs_pool_index(RsPool *);
int rs_pool_available(RsPool *);
}
namespace rs {
using ref::Bytes;
enum { OK = 0, ERR = 1, PANIC = 2, NOTEXT = 3 };
struct R { int rc; Bytes v; bool ok() const { return rc == OK; } std::string str() const { return std::string(v.begin(), v.end()); } };
inline R take(int rc, RsOut *o) {
    R r{rc, {}};
    if (rc == 0 && o) { r.v.assign(rs_out_data(o), rs_out_data(o) + rs_out_len(o)); rs_out_free(o); }
    return r;
}
inline R op(uint32_t n, uint64_t a, uint64_t b, const Bytes &in) { RsOut *o = nullptr; int rc = rs_op(n, a, b, in.data(), in.size(), &o); return take(rc, o); }
inline R ops(uint32_t n, uint64_t a, uint64_t b, const std::string &in) { RsOut *o = nullptr; int rc = rs_op(n, a, b, (const uint8_t *) in.data(), in.size(), &o); return take(rc, o); }
inline R pq(uint32_t n, const Bytes &p, const Bytes &q) { RsOut *o = nullptr; int rc = rs_pq(n, p.data(), p.size(), q.data(), q.size(), &o); return take(rc, o); }
enum Op { SHAKE128, SHAKE256, SHA2, SHA2N, BIN2HSTR, HSTR2BIN, BIN2MNEMONIC, MNEMONIC2BIN, STR2BIN, BINSTR2HSTR, GETADDRESS, ADDRVALID, DESCDEC, DESCENC, DESCSEED, DESCPK, CHAINSEED, WORD, WORDS, RANDSEED };
struct Signer {
    RsSigner *p = nullptr;
    int rc;
    Signer(int kind, const Bytes &seed, unsigned h, int hash, unsigned w) { rc = rs_new(kind, seed.data(), seed.size(), h, hash, w, &p); }
    explicit Signer(const Bytes &ext) { rc = rs_from_extended(ext.data(), ext.size(), &p); }
    Signer(const Signer &) = delete;
    ~Signer() { if (p) rs_free(p); }
    R sign(const Bytes &m) { RsOut *o = nullptr; int r = rs_sign(p, m.data(), m.size(), &o); return take(r, o); }
    int setIndex(uint32_t i, uint32_t &got) { return rs_set_index(p, i, &got); }
    R get(int what) { RsOut *o = nullptr; int r = rs_get(p, what, &o); return take(r, o); }
    int64_t num(int what, uint32_t arg = 16) { return rs_num(p, what, arg); }
};
inline int verify(const Bytes &m, const Bytes &s, const Bytes &k, unsigned w, bool *changed = nullptr) {
    uint32_t ch = 0;
    int r = rs_verify(m.data(), m.size(), s.data(), s.size(), k.data(), k.size(), w, &ch);
    if (changed) *changed = ch;
    return r;
}
}

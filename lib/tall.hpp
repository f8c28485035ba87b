// Signers of any height with an index of our choice, without building their trees: what does not depend on the
// tree (indices, counts, refusals) is explored over the whole range of heights and indices. Where a change to the
// library makes this impossible (the fields are gone), the exploration is skipped; the tree-building ones remain.
#pragma once
#include "qrl.hpp"
struct TallBase : XmssBase {
    using XmssBase::XmssBase;
    TSIGNATURE sign(const TMESSAGE &) override { return {}; }
    template <class T> static auto put(T *t, uint32_t i, int) -> decltype(t->_sk, bool()) {
        t->_sk = TKEY(132, 0x5a);
        for (int k = 0; k < 4; k++) t->_sk[k] = (uint8_t) (i >> (24 - 8 * k));
        return true;
    }
    template <class T> static bool put(T *, uint32_t, long) { return false; }
    bool preset(uint32_t i) { return put(this, i, 0) && getSK().size() == 132 && getIndex() == i; }
};
struct TallFast : XmssFast {
    TallFast(const Bytes &seed, int f) : XmssFast(seed, 4, HF(f), eAddrFormatType::SHA256_2X) {}
    template <class T> static auto put(T *t, unsigned h, uint32_t i, int)
        -> decltype(t->_sk, t->_stack, t->_stacklevels, t->_auth, t->_keep, t->_treehash, t->_th_nodes, t->_retain, t->_state, t->params, t->bindState(), bool()) {
        t->_height = h;
        xmss_set_params(&t->params, 32, h, 16, 2);
        t->_stack.assign((h + 1) * 32, 0); t->_stacklevels.assign(h + 1, 0); t->_auth.assign(h * 32, 0x11); t->_keep.assign((h >> 1) * 32, 0x22);
        t->_treehash.assign(h - 2, treehash_inst{}); t->_th_nodes.assign((h - 2) * 32, 0x33); t->_retain.assign(32, 0x44);
        for (unsigned k = 0; k < h - 2; k++) { t->_treehash[k].h = k; t->_treehash[k].completed = 1; }
        t->_state.stackoffset = 0; t->_state.next_leaf = 1u << h;
        t->bindState();
        for (int k = 0; k < 4; k++) t->_sk[k] = (uint8_t) (i >> (24 - 8 * k));
        return true;
    }
    template <class T> static bool put(T *, unsigned, uint32_t, long) { return false; }
    bool preset(unsigned h, uint32_t i) { return put(this, h, i, 0) && getHeight() == h && getIndex() == i && getNumberSignatures() == 1u << h; }
};
// Indices where a byte or a bit of the counter changes, below n
inline std::vector<uint32_t> edges(uint32_t n) {
    std::vector<uint32_t> v = {0, 1, 2, 3};
    for (int b = 2; b < 31; b++) for (int d = -2; d <= 1; d++) v.push_back((1u << b) + d);
    for (uint32_t p : {0x01020304u, 0x0a0b0c0du, 0x00ff00ffu, 0x3f00ff00u, 0x15555555u, 0x2aaaaaaau, 0x3fffffffu}) v.push_back(p);
    for (int d = 1; d <= 3; d++) v.push_back(n - d);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    while (v.back() >= n) v.pop_back();
    return v;
}

// C12: SHAKE128, SHAKE256, SHA2-256 at every length, C++ and Rust.
#include <qrl.hpp>
#include <rs.hpp>
#include <xmss-alt/fips202.h>
#include <shasha/shasha.h>
using namespace mc;
typedef void (*Raw)(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
static const unsigned RATE[2] = {168, 136};
static Raw raw(int k) { return k ? (Raw) shake256 : (Raw) shake128; }
static Bytes vec(int k, size_t n, const Bytes &in) { return k ? shake256(n, in) : shake128(n, in); }
static Bytes model(int k, size_t n, const Bytes &in) { Bytes o(n); ref::shake(RATE[k], in.data(), in.size(), o.data(), n); return o; }
static const char *NM[2] = {"shake128", "shake256"};
// raw function: exact output, canaries intact, input intact; `off` misaligns both buffers
static void rawCase(Ctx &c, int k, const Bytes &in, size_t n, const Bytes &want, size_t off) {
    Bytes ib(off + in.size() + 16, 0x5c), ob(off + n + 64, 0xa7);
    if (!in.empty()) memcpy(&ib[off], in.data(), in.size());
    Bytes ib0 = ib;
    raw(k)(&ob[off], n, &ib[off], in.size());
    c.evalDistinct();
    c.check(!n || !memcmp(&ob[off], want.data(), n), "digest differs from FIPS 202");
    c.check(ib == ib0, "input modified");
    for (size_t i = 0; i < off; i++) c.check(ob[i] == 0xa7, "wrote before the output");
    for (size_t i = off + n; i < ob.size(); i++) c.check(ob[i] == 0xa7, "wrote past the output");
}
static void lengths(int k, size_t part, size_t parts, size_t maxIn, size_t maxOut, size_t ostep) {
    add(std::string("lengths/") + NM[k] + "/" + std::to_string(part), [=](Ctx &c) {
        for (size_t n = part; n <= maxIn; n += parts) {
            Bytes in = msgN(n, k);
            Bytes all = model(k, maxOut, in);
            for (size_t o = 0; o <= maxOut; o++) {
                size_t r = o % RATE[k];
                if (!(n % 97 == 0 || n <= 40 || r <= 2 || r >= RATE[k] - 2 || o <= 100 || (o + n) % ostep == 0)) continue;
                c.at("%s: %zu input bytes, %zu output bytes", NM[k], n, o);
                rawCase(c, k, in, o, all, (n + o) % 8);
                if ((n + o) % 7 == 0 || o == 32 || o == 48) {
                    Bytes cp = in, v = vec(k, o, cp);
                    c.check(v == Bytes(all.begin(), all.begin() + o), "vector function: wrong digest or %zu bytes", v.size());
                    c.check(cp == in, "vector function modified its input");
                    rs::R r = rs::op(k ? rs::SHAKE256 : rs::SHAKE128, o, 0, in);
                    c.check(r.ok() && r.v == v, "Rust digest differs (status %d)", r.rc);
                    c.evalDistinct(2);
                }
            }
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (int k = 0; k < 2; k++) for (int p = 0; p < 16; p++) lengths(k, p, 16, th ? 2200 : 4 * RATE[k] + 9, th ? 2200 : 4 * RATE[k] + 9, th ? 1 : 5);
        // every position of the input matters and is absorbed in its place
        for (int k = 0; k < 2; k++) for (int p = 0; p < 4; p++) add(std::string("positions/") + NM[k] + "/" + std::to_string(p), [=](Ctx &c) {
            for (size_t n = 1 + p; n <= (th ? 3 : 2) * RATE[k] + 3; n += 4) {
                for (size_t pos = 0; pos < n; pos += (n < 40 || th) ? 1 : 1 + n / 40) {
                    Bytes in(n, 0);
                    in[pos] = 0x80;
                    c.at("%s: %zu zero bytes with byte %zu = 0x80", NM[k], n, pos);
                    Bytes w = model(k, 40, in);
                    rawCase(c, k, in, 40, w, 0);
                    rs::R r = rs::op(k ? rs::SHAKE256 : rs::SHAKE128, 40, 0, in);
                    c.check(r.ok() && r.v == w, "Rust digest differs");
                }
                for (int v : {0, 255, 0x1f, 0x80}) { Bytes in(n, v); c.at("%s: %zu bytes of %d", NM[k], n, v); rawCase(c, k, in, 64, model(k, 64, in), 1); }
            }
            c.sample(c.shared);
        });
        for (int k = 0; k < 2; k++) add(std::string("long/") + NM[k], [=](Ctx &c) {
            for (size_t n : {4095, 4096, 4097, 65535, 65536, 65537, 100000, 1 << 20, (1 << 20) + 3, 3 << 20}) {
                Bytes in = msgN(n, k);
                c.at("%s: %zu input bytes", NM[k], n);
                Bytes w = model(k, 777, in);
                rawCase(c, k, in, 777, w, 3);
                c.check(vec(k, 777, in) == w, "vector function differs");
                rs::R r = rs::op(k ? rs::SHAKE256 : rs::SHAKE128, 777, 0, in);
                c.check(r.ok() && r.v == w, "Rust digest differs");
            }
            for (size_t o : {4096, 32767, 32768, 65535, 65536, 65537, 65537 + 168 * 256, 1 << 20}) {
                Bytes in = msgN(300, k);
                c.at("%s: %zu output bytes", NM[k], o);
                Bytes w = model(k, o, in);
                rawCase(c, k, in, o, w, 0);
                c.check(vec(k, o, in) == w, "vector function differs");
                rs::R r = rs::op(k ? rs::SHAKE256 : rs::SHAKE128, o, 0, in);
                c.check(r.ok() && r.v == w, "Rust digest differs");
            }
            c.sample(c.shared);
        });
        // inputs whose length does not fit 32 bits
        for (int k = 0; k < 2; k++) add(std::string("huge/") + NM[k], [=](Ctx &c) {
            size_t n = (1ULL << 32) + 37;
            auto p = (unsigned char *) mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) { c.capped = true; return; }
            c.at("%s: 2^32+37 zero bytes", NM[k]);
            Bytes o(48, 0);
            raw(k)(o.data(), 48, p, n);
            c.evalDistinct();
            static const char *want[2] = {VT_HUGE128, VT_HUGE256};
            c.check(ref::hex(Bytes(o.begin(), o.begin() + 32)) == want[k], "digest is %s", ref::hex(o).c_str());
            munmap(p, n);
            c.sample(c.shared);
        });
        for (int p = 0; p < 4; p++) add("sha2/" + std::to_string(p), [=](Ctx &c) {
            for (size_t n = p; n <= (th ? 3000 : 700); n += 4) {
                Bytes in = msgN(n, 9), in0 = in, w = ref::sha256(in);
                c.at("sha2_256 of %zu bytes", n);
                c.evalDistinct();
                c.check(sha2_256(in) == w, "vector function differs");
                uint8_t o[48];
                memset(o, 0xa7, 48);
                sha2_256(o + 8, in.data(), n);
                c.check(!memcmp(o + 8, w.data(), 32), "raw function differs");
                for (int i = 0; i < 48; i++) c.check(i >= 8 && i < 40 || o[i] == 0xa7, "raw function wrote outside its output");
                c.check(in == in0, "input modified");
                rs::R r = rs::op(rs::SHA2, 0, 0, in);
                c.check(r.ok() && r.v == w, "Rust digest differs");
            }
            c.sample(c.shared);
        });
        for (int p = 0; p < 6; p++) add("sha2n/" + std::to_string(p), [=](Ctx &c) {
            size_t ns[] = {0, 1, 31, 32, 33, 64, 200};
            for (size_t n : ns) {
                Bytes in = msgN(n, 10), in0 = in, w = ref::sha256(in);
                for (size_t k = 1; k <= (th ? 2000 : 300); k++) {
                    if (k > 1) w = ref::sha256(w);
                    if (k % 6 != (size_t) p) continue;
                    c.at("sha2_256_n of %zu bytes, %zu times", n, k);
                    c.evalDistinct();
                    c.check(sha2_256_n(in, k) == w, "digest differs");
                    rs::R r = rs::op(rs::SHA2N, k, 0, in);
                    c.check(r.ok() && r.v == w, "Rust digest differs");
                }
                c.check(in == in0, "input modified");
                bool thrown = false;
                c.at("sha2_256_n of %zu bytes, 0 times", n);
                try { sha2_256_n(in, 0); } catch (std::exception &) { thrown = true; }
                c.check(thrown, "a count of zero was accepted");
                c.check(rs::op(rs::SHA2N, 0, 0, in).rc == rs::ERR, "Rust: a count of zero was not refused with an error");
                if (!p) for (size_t k : {65535, 65536, 65537}) {
                    Bytes v = in; for (size_t i = 0; i < k; i++) v = ref::sha256(v);
                    c.at("sha2_256_n of %zu bytes, %zu times", n, k);
                    c.check(sha2_256_n(in, k) == v, "digest differs");
                    rs::R r = rs::op(rs::SHA2N, k, 0, in);
                    c.check(r.ok() && r.v == v, "Rust digest differs");
                }
            }
            c.sample(c.shared);
        });
        // the model itself against the published test vectors
        add("vectors", [=](Ctx &c) {
            auto H = [](const Bytes &b) { return ref::hex(b); };
            c.at("published vectors");
            c.check(H(ref::sha256(Bytes())) == "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "sha256 empty");
            c.check(H(ref::sha256(Bytes{'a', 'b', 'c'})) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "sha256 abc");
            c.check(H(ref::shake128(32, Bytes())) == "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26", "shake128 empty");
            c.check(H(ref::shake256(32, Bytes())) == "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f", "shake256 empty");
            c.evalDistinct(4);
        });
    });
}

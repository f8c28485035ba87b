// C25: which parameters create a signer. Everything else must be refused with an invalid-argument error.
#include <qrl.hpp>
#ifdef WITH_RUST
#include <rs.hpp>
#endif
#include <poll.h>
using namespace mc;
enum { MADE, REFUSED, OTHER };
template <class F> static int outcome(F f) {
    try { f(); return MADE; }
    catch (std::invalid_argument &) { return REFUSED; }
    catch (...) { return OTHER; }
}
static const char *ON[] = {"created", "refused", "failed with another error"};
static bool goodH(unsigned h) { return h >= 4 && h <= 30 && h % 2 == 0; }
static bool goodW(uint32_t w) { return w == 2 || w == 4 || w == 16 || w == 256; }
// In a process of its own: the outcome, or MADE when construction is still going on after the limit.
static int apart(Ctx &c, std::function<int()> f, double limit) {
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { close(fd[0]); char r = (char) f(); if (write(fd[1], &r, 1) != 1) {} _exit(0); }
    close(fd[1]);
    pollfd pf{fd[0], POLLIN, 0};
    int n = poll(&pf, 1, (int) (limit * 1000));
    char r = MADE;
    bool ended = n > 0 && read(fd[0], &r, 1) != 1;
    kill(p, SIGKILL);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    c.check(!ended, "creation crashed (%s %d)", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    return r;
}
static void works(Ctx &c, XmssBase &x, const Bytes &seed, unsigned h, int f, unsigned w) {
    ref::Xmss r(seed, h, f, w);
    c.check(x.getPK() == r.pk() && x.getSK() == r.sk(0) && x.getHeight() == h && x.getIndex() == 0 && x.getSeed() == seed, "the created signer is not the one of its parameters");
    Bytes m = msgN(12, w);
    c.check(x.sign(m) == r.sign(0, m), "the created signer signs wrongly");
}
static void basic(Ctx &c, const Bytes &seed, unsigned h, int f, uint32_t w, bool good) {
    c.at("basic signer: seed of %zu bytes, height %u, hash function %d, w=%u", seed.size(), h, f, w);
    c.evalDistinct();
    std::unique_ptr<XmssBasic> x;
    int o = outcome([&] { x.reset(new XmssBasic(seed, h, HF(f), eAddrFormatType::SHA256_2X, w)); });
    c.check(o == (good ? MADE : REFUSED), "%s", ON[o]);
    if (good) works(c, *x, seed, h, f, w);
}
static void fast(Ctx &c, const Bytes &seed, unsigned h, int f, bool good) {
    c.at("fast signer: seed of %zu bytes, height %u, hash function %d", seed.size(), h, f);
    c.evalDistinct();
    std::unique_ptr<XmssFast> x;
    int o = outcome([&] { x.reset(new XmssFast(seed, h, HF(f))); });
    c.check(o == (good ? MADE : REFUSED), "%s", ON[o]);
    if (good) works(c, *x, seed, h, f, 16);
}
static std::vector<int> hashes() {
    std::vector<int> v;
    for (int i = 3; i < 256; i++) v.push_back(i);
    for (int i : {256, 257, 258, 259, -1, -2, -255, -256, 512, 0x10000, 0x10001, 0x7fffffff, (int) 0x80000000, (int) 0x80000001}) v.push_back(i);
    return v;
}
static bool representable(int f) { return (int) HF(f) == f; }     // the enumeration's type may be narrower
static Bytes ext(unsigned b0, unsigned b1, unsigned b2, uint64_t sd) { Bytes e = {(uint8_t) b0, (uint8_t) b1, (uint8_t) b2}, s = seedN(sd); e.insert(e.end(), s.begin(), s.end()); return e; }
static std::vector<uint32_t> params(bool th) {
    std::vector<uint32_t> w;
    for (uint32_t i = 0; i <= (th ? 70000 : 4200); i++) w.push_back(i);
    for (unsigned b = 0; b < 32; b++) for (int d = -2; d <= 2; d++) w.push_back((1u << b) + d);
    for (uint32_t k : {0x10000u, 0x1000000u, 0x80000000u, 0xffff0000u}) for (uint32_t v : {2u, 4u, 16u, 256u}) w.push_back(k + v);
    for (int i = 1; i < 300; i++) w.push_back(0u - i);
    std::sort(w.begin(), w.end());
    w.erase(std::unique(w.begin(), w.end()), w.end());
    return w;
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
#ifndef WITH_RUST
        add("seeds", [=](Ctx &c) {
            probeHash();
            for (size_t n = 0; n <= 300; n++) for (int z = 0; z < 2; z++) {
                Bytes s = z ? Bytes(n, 0) : msgN(n, 3);
                if (!z && n >= 3) { s[0] = 1; s[1] = 2; s[2] = 0; }     // also an extended seed when 51 bytes long
                basic(c, s, 4, 1, 16, n == 48);
                fast(c, s, 4, n % 3, n == 48);
            }
            for (size_t n : {304, 48 + 256, 48 + 65536, 65536, 1 << 20}) { basic(c, msgN(n), 4, 1, 16, false); fast(c, msgN(n), 4, 1, false); }
            for (size_t n = 0; n <= 200; n++) {
                c.at("extended seed of %zu bytes", n);
                Bytes e = msgN(n, 4);
                if (n > 2) { e[0] = 1; e[1] = 2; e[2] = 0; }
                int o = outcome([&] { XmssFast x(e); });
                c.evalDistinct();
                c.check(o == (n == 51 ? MADE : REFUSED), "%s", ON[o]);
            }
            c.sample(c.shared);
        });
        for (int part = 0; part < 4; part++) add("heights/" + std::to_string(part), [=](Ctx &c) {
            probeHash();
            Bytes s = seedN(2500);
            for (unsigned h = part; h < 256; h += 4) for (int f = 0; f < 3; f++) {
                if (goodH(h) && h > 8) {
                    for (int kind = 0; kind < 2; kind++) {
                        c.at("%s signer of height %u, %s", kind ? "fast" : "basic", h, hname(f));
                        c.evalDistinct();
                        int o = apart(c, [&] { return outcome([&] { if (kind) XmssFast x(s, h, HF(f)); else XmssBasic x(s, h, HF(f), eAddrFormatType::SHA256_2X, 16); }); }, 0.3);
                        c.check(o == MADE, "%s", ON[o]);
                    }
                } else {
                    basic(c, s, h, f, 16, goodH(h));
                    fast(c, s, h, f, goodH(h));
                    for (uint32_t w : {2u, 4u, 256u}) basic(c, s, h, f, w, goodH(h));
                }
            }
            c.sample(c.shared);
        });
        add("hash", [=](Ctx &c) {
            probeHash();
            Bytes s = seedN(2501);
            for (int f : hashes()) if (representable(f)) for (unsigned h : {4u, 6u}) { basic(c, s, h, f, 16, false); basic(c, s, h, f, 4, false); fast(c, s, h, f, false); }
            for (int f = 0; f < 3; f++) for (unsigned h : {4u, 6u}) { basic(c, s, h, f, 16, true); fast(c, s, h, f, true); }
            c.sample(c.shared);
        });
        for (int part = 0; part < 4; part++) add("winternitz/" + std::to_string(part), [=](Ctx &c) {
            probeHash();
            Bytes s = seedN(2502);
            auto W = params(th);
            ref::Xmss model(s, 4, 1, 16);
            XmssFast live(s, 4, HF(1), eAddrFormatType::SHA256_2X);
            live.setIndex(3);
            unsigned idx = 3;
            for (size_t k = part; k < W.size(); k += 4) {
                uint32_t w = W[k];
                basic(c, s, 4, 1, w, goodW(w));
                c.at("initialize_tree(%u) on a signer at index %u", w, idx);
                c.evalDistinct();
                if (goodW(w)) {
                    XmssFast x(s, 4, HF(1), eAddrFormatType::SHA256_2X);
                    int o = outcome([&] { x.initialize_tree(w); });
                    c.check(o == MADE, "%s", ON[o]);
                    works(c, x, s, 4, 1, w);
                    continue;
                }
                int o = outcome([&] { live.initialize_tree(w); });
                c.check(o == REFUSED, "%s", ON[o]);
                c.check(live.getIndex() == idx && live.getSK() == model.sk(idx) && live.getPK() == model.pk(), "the refusal changed the signer");
                if (k % 16 == (size_t) part && idx < 15) {
                    Bytes m = msgN(9, w);
                    c.check(live.sign(m) == model.sign(idx, m), "the refusal changed the next signature");
                    idx++;
                } 
                if (k % 16 == (size_t) part && idx == 15) {
                    live = XmssFast(s, 4, HF(1), eAddrFormatType::SHA256_2X); idx = 0; }
            }
            c.sample(c.shared);
        });
        for (int part = 0; part < 8; part++) add("extended/" + std::to_string(part), [=](Ctx &c) {
            probeHash();
            for (unsigned a = part; a < 65536; a += 8) {
                unsigned b0 = a >> 8, b1 = a & 255, f = b0 & 15, sch = b0 >> 4, h = 2 * (b1 & 15), fmt = b1 >> 4;
                bool good = f <= 2 && sch == 0 && h >= 4;
                if (good && fmt) continue;                              // no claim about other address formats
                Bytes e = ext(b0, b1, a % 5 == 0 ? a : 0, 2503);
                c.at("extended seed starting with %02x %02x %02x", b0, b1, e[2]);
                c.evalDistinct();
                if (!good) {
                    int o = outcome([&] { XmssFast x(e); });
                    c.check(o == REFUSED, "%s", ON[o]);
                } else if (h > 8) {
                    int o = apart(c, [&] { return outcome([&] { XmssFast x(e); }); }, 0.3);
                    c.check(o == MADE, "%s", ON[o]);
                } else {
                    XmssFast x(e);
                    works(c, x, Bytes(e.begin() + 3, e.end()), h, f, 16);
                }
            }
            c.sample(c.shared);
        });
#else
        // the Rust signers, the same families
        auto rust = [](Ctx &c, int kind, const Bytes &s, unsigned h, int f, uint32_t w, bool good) {
            c.at("Rust %s signer: seed of %zu bytes, height %u, hash function %d, w=%u", kind ? "fast" : "basic", s.size(), h, f, w);
            c.evalDistinct();
            rs::Signer r(kind, s, h, f, w);
            c.check(r.rc == (good ? rs::OK : rs::ERR), "status %d (0 created, 1 refused, 2 panic)", r.rc);
        };
        add("rust-seeds", [=](Ctx &c) {
            for (size_t n = 0; n <= 200; n++) for (int kind = 0; kind < 2; kind++) rust(c, kind, msgN(n, 3), 4, 1, 16, n == 48);
            for (size_t n = 0; n <= 200; n++) {
                Bytes e = msgN(n, 4);
                if (n > 2) { e[0] = 1; e[1] = 2; e[2] = 0; }
                c.at("Rust: extended seed of %zu bytes", n);
                c.evalDistinct();
                rs::Signer r(e);
                c.check(r.rc == (n == 51 ? rs::OK : rs::ERR), "status %d", r.rc);
            }
            c.sample(c.shared);
        });
        for (int part = 0; part < 4; part++) add("rust-heights/" + std::to_string(part), [=](Ctx &c) {
            for (unsigned h = part; h < 256; h += 4) for (int kind = 0; kind < 2; kind++) for (uint32_t w : {16u, 2u}) {
                if (goodH(h) && h > 6) {
                    c.at("Rust %s signer of height %u, w=%u", kind ? "fast" : "basic", h, w);
                    c.evalDistinct();
                    int o = apart(c, [&] { rs::Signer r(kind, seedN(1), h, 1, w); return r.rc; }, 0.25);
                    c.check(o == rs::OK, "status %d", o);
                } else rust(c, kind, seedN(1), h, 1, w, goodH(h));
            }
            c.sample(c.shared);
        });
        for (int part = 0; part < 4; part++) add("rust-winternitz/" + std::to_string(part), [=](Ctx &c) {
            auto W = params(th);
            Bytes s = seedN(2502);
            rs::Signer live(1, s, 4, 1, 16);
            c.check(live.rc == rs::OK, "no signer");
            uint32_t got;
            live.setIndex(3, got);
            Bytes sk = live.get(1).v;
            for (size_t k = part; k < W.size(); k += 4) {
                uint32_t w = W[k];
                for (int kind = 0; kind < 2; kind++) rust(c, kind, s, 4, 1, w, goodW(w));
                if (goodW(w)) continue;
                c.at("Rust initialize_tree(%u)", w);
                int rc = rs_init_tree(live.p, w);
                c.check(rc == rs::ERR, "status %d", rc);
                c.check(live.get(1).v == sk && live.num(0) == 3, "the refusal changed the signer");
            }
            Bytes m = msgN(9);
            c.check(live.sign(m).v == ref::Xmss(s, 4, 1, 16).sign(3, m), "the refusals changed the next signature");
            c.sample(c.shared);
        });
        for (int part = 0; part < 4; part++) add("rust-extended/" + std::to_string(part), [=](Ctx &c) {
            for (unsigned a = part; a < 65536; a += 4) {
                unsigned b0 = a >> 8, b1 = a & 255, f = b0 & 15, sch = b0 >> 4, h = 2 * (b1 & 15), fmt = b1 >> 4;
                bool good = f <= 2 && sch == 0 && h >= 4;
                if (good && fmt) continue;
                Bytes e = ext(b0, b1, 0, 2503);
                c.at("Rust: extended seed starting with %02x %02x", b0, b1);
                c.evalDistinct();
                int o = good && h > 6 ? apart(c, [&] { rs::Signer r(e); return r.rc; }, 0.25) : rs::Signer(e).rc;
                c.check(o == (good ? rs::OK : rs::ERR), "status %d", o);
            }
            c.sample(c.shared);
        });
#endif
    });
}

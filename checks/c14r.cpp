// C14: pools of real trees, compared with the reference construction; sequentially and with free-running threads.
#include <qrl.hpp>
#include <qrl/xmssPool.h>
#include <thread>
#include <mutex>
using namespace mc;
static Bytes seedOf(const Bytes &base, uint64_t index) {
    Bytes b = base, o(48);
    for (uint64_t i = index + 1; i; i >>= 8) b.push_back((uint8_t) i);
    ref::H(ref::SHAKE256, b.data(), b.size(), o.data(), 48);
    return o;
}
static void same(Ctx &c, XmssFast &t, const Bytes &base, uint64_t index, int h, bool sign) {
    Bytes s = seedOf(base, index);
    c.check(t.getSeed() == s, "tree %lu has the seed of another", index);
    c.check(t.getHeight() == h && t.getIndex() == 0, "tree %lu: height %u, leaf %u", index, t.getHeight(), t.getIndex());
    ref::Xmss x(s, h, 1);
    c.check(t.getPK() == x.pk(), "tree %lu: wrong keys", index);
    if (sign) { Bytes m = msgN(20, index); c.check(t.sign(m) == x.sign(0, m), "tree %lu: wrong signature", index); }
    c.evals++;
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        for (int pool = 0; pool <= 3; pool++) for (size_t blen : {0, 1, 48, 51, 200}) add("sequential/" + std::to_string(pool) + "/" + std::to_string(blen), [=](Ctx &c) {
            probeHash();
            for (uint64_t start : {0ull, 3ull, 254ull, 255ull, 65534ull, 65535ull, 0xffffffull, 0xfffffffeull, 0xffffffffull, 0x100000000ull, 0xffffffffffffull}) {
                if (!th && !ref::g_fast && start != 3 && (start + blen + pool) % 4) continue;
                int h = start == 3 ? (ref::g_fast ? 8 : 6) : 4;
                Bytes base = msgN(blen, 3);
                c.at("pool of %d from %lu, base seed of %zu bytes, height %d", pool, start, blen, h);
                XmssPool p(base, h, start, pool);
                for (uint64_t k = 0; k < (th ? 12 : 4); k++) {
                    c.check(p.getCurrentIndex() == start + k, "current index %zu after %lu trees", p.getCurrentIndex(), k);
                    auto t = p.getNextTree();
                    same(c, *t, base, start + k, h, k < 2);
                    c.distinctN++; c.states++; c.transitions++;
                }
                if (pool == 0) c.check(!p.isAvailable(), "an empty pool has a tree");
                c.sample("pool of " + std::to_string(pool) + " from " + std::to_string(start));
            }
        });
        for (int pool : {4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33}) add("large/" + std::to_string(pool), [=](Ctx &c) {
            probeHash();
            for (uint64_t start : {0ull, 7ull, 250ull, 0xfffffff8ull}) {
                if (!th && !ref::g_fast && start != 250) continue;
                Bytes base = msgN(48, 4);
                c.at("pool of %d from %lu", pool, start);
                XmssPool p(base, 4, start, pool);
                unsigned n = !th && !ref::g_fast ? 6 : pool < 18 ? pool + 4 : 8;
                for (uint64_t k = 0; k < n; k++) {
                    c.check(p.getCurrentIndex() == start + k, "current index %zu after %lu trees", p.getCurrentIndex(), k);
                    auto t = p.getNextTree();
                    same(c, *t, base, start + k, 4, k < 2);
                    c.distinctN++; c.states++; c.transitions++;
                }
                for (int ms = 0; ms < 60000 && !p.isAvailable(); ms++) usleep(1000);
                c.check(p.isAvailable(), "no tree ever becomes available");
                c.sample("pool of " + std::to_string(pool) + " from " + std::to_string(start));
            }
        });
        add("free-running", [=](Ctx &c) {
            probeHash();
            for (int round = 0; round < (th ? 40 : ref::g_fast ? 8 : 2); round++) {
                int pool = round == 1 ? 9 : round == 5 ? 20 : round % 4, n = 8, per = 3;
                c.at("8 free-running threads, pool of %d, round %d", pool, round);
                Bytes base = msgN(48, 9 + round);
                XmssPool p(base, 4, 250, pool);
                std::vector<std::vector<std::shared_ptr<XmssFast>>> got(n);
                std::vector<std::thread> ts;
                for (int i = 0; i < n; i++) ts.emplace_back([&, i] { for (int k = 0; k < per; k++) { p.isAvailable(); got[i].push_back(p.getNextTree()); p.getCurrentIndex(); } });
                for (auto &t : ts) t.join();
                std::map<Bytes, int> seen;
                for (auto &g : got) for (auto &t : g) { c.check(t != nullptr, "no tree"); seen[t->getSeed()]++; }
                for (int k = 0; k < n * per; k++) c.check(seen[seedOf(base, 250 + k)] == 1, "index %d was handed out %d times", 250 + k, seen[seedOf(base, 250 + k)]);
                for (auto &g : got) for (auto &t : g) for (int k = 0; k < n * per; k++) if (t->getSeed() == seedOf(base, 250 + k)) same(c, *t, base, 250 + k, 4, true);
                c.check(p.getCurrentIndex() == 250u + n * per, "current index %zu", p.getCurrentIndex());
            }
        });
    });
}

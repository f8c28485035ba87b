// C30: the Rust tree pool against a counter. States are (configuration, trees claimed).
#include <qrl.hpp>
#include <rs.hpp>
using namespace mc;
static Bytes stakeSeed(const Bytes &base, uint64_t i) {      // the i-th tree's seed, i counted from zero
    std::string s = ref::hex(base) + std::to_string(i + 1);
    Bytes d = ref::sha256(Bytes(s.begin(), s.end()));
    d.insert(d.end(), d.begin(), d.begin() + 16);
    return Bytes(d.begin(), d.begin() + 48);
}
static Bytes expected(const Bytes &base, uint64_t i, unsigned h) {
    static std::map<Bytes, Bytes> memo;
    Bytes s = stakeSeed(base, i), key = s;
    key.push_back(h);
    auto &r = memo[key];
    if (r.empty()) {
        ref::Xmss x(s, h, 1);
        r = s;
        for (const Bytes &p : {x.pk(), x.sign(0, Bytes{1, 2, 3})}) r.insert(r.end(), p.begin(), p.end());
    }
    return r;
}
struct Pool {
    RsPool *p = nullptr; int rc;
    Pool(const Bytes &base, unsigned h, uint64_t start, uint64_t size) { rc = rs_pool_new(base.data(), base.size(), h, start, size, &p); }
    Pool(const Pool &) = delete;
    ~Pool() { if (p) rs_pool_free(p); }
    rs::R next() { RsOut *o = nullptr; int r = rs_pool_next(p, &o); return rs::take(r, o); }
};
static void walk(Ctx &c, const Bytes &base, unsigned h, uint64_t start, uint64_t size, unsigned n) {
    c.at("pool of %lu from %lu, height %u, base seed of %zu bytes: creation", (unsigned long) size, (unsigned long) start, h, base.size());
    Pool p(base, h, start, size);
    c.check(p.rc == rs::OK, "the pool cannot be created (status %d)", p.rc);
    for (unsigned k = 0;; k++) {
        c.states++; c.evalDistinct();
        for (int twice = 0; twice < 2; twice++) {
            c.check(rs_pool_index(p.p) == start + k, "current index is %lu after %u trees", (unsigned long) rs_pool_index(p.p), k);
            if (!size) c.check(!rs_pool_available(p.p), "an empty pool says a tree is available");
        }
        if (size) {                                        // builders may run in the background: they have to finish some time
            for (int ms = 0; ms < 60000 && !rs_pool_available(p.p); ms++) usleep(1000);
            c.check(rs_pool_available(p.p), "no tree ever becomes available after %u trees", k);
        }
        if (k == n) break;
        c.at("pool of %lu from %lu, height %u, base seed of %zu bytes: tree %u", (unsigned long) size, (unsigned long) start, h, base.size(), k);
        auto r = p.next();
        c.transitions++; c.traces++;
        c.check(r.ok(), "no tree (status %d)", r.rc);
        Bytes e = expected(base, start + k, h);
        if (r.v != e) {
            for (uint64_t j = 0; j < 12; j++) c.check(start + j == start + k || r.v != expected(base, start + j, h), "the tree of index %lu instead of %lu", (unsigned long) (start + j), (unsigned long) (start + k));
            c.fail("wrong tree: seed %s, expected %s", ref::hex(Bytes(r.v.begin(), r.v.begin() + std::min<size_t>(48, r.v.size()))).c_str(), ref::hex(Bytes(e.begin(), e.begin() + 48)).c_str());
        }
    }
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        static const std::vector<uint64_t> starts = {0, 1, 8, 9, 98, 255, 256, 999, 65535, 0x7fffffff, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0xfffffffffffffff0};
        for (uint64_t size = 0; size <= (th ? 6 : 4); size++)
            for (auto s : starts) add("order/" + std::to_string(size) + "/" + std::to_string(s), [=](Ctx &c) {
                walk(c, seedN(30), 4, s, size, th ? 12 : 7);
                if (s <= 1 && size < 3) walk(c, seedN(31), 6, s, size, 3);
                c.sample(c.shared);
            });
        for (uint64_t size : {5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33, 64}) if (size > 6 || !th) add("large/" + std::to_string(size), [=](Ctx &c) {
            for (uint64_t s : {0ul, 7ul, 0xfffffff0ul}) walk(c, seedN(32), 4, s, size, size < 18 ? size + 4 : 6);
            c.sample(c.shared);
        });
        for (unsigned part = 0; part < 8; part++) add("seeds/" + std::to_string(part), [=](Ctx &c) {
            for (size_t n = part; n <= (th ? 200 : 70); n += 8) walk(c, msgN(n, 3), 4, n, n % 3, 2);
            c.sample(c.shared);
        });
        // builds that fail: every call says so, and the index does not go backwards
        for (unsigned h : {0u, 1u, 2u, 3u, 5u, 7u, 31u, 32u, 33u, 64u, 127u, 255u}) add("failing/" + std::to_string(h), [=](Ctx &c) {
            for (uint64_t size = 0; size <= 4; size++) for (uint64_t s : {0ul, 9ul, 0xfffffffful}) {
                c.at("pool of %lu from %lu, height %u", (unsigned long) size, (unsigned long) s, h);
                Pool p(seedN(5), h, s, size);
                c.states++; c.evalDistinct();
                if (p.rc == rs::ERR) continue;              // refusing right away is as good
                c.check(p.rc == rs::OK, "creation: status %d", p.rc);
                uint64_t at = s;
                for (int k = 0; k < 8; k++) {
                    c.faults++; c.transitions++;
                    auto r = p.next();
                    c.check(r.rc == rs::ERR, "call %d: status %d instead of an error", k, r.rc);
                    c.check(rs_pool_index(p.p) >= at, "call %d: the index went from %lu to %lu", k, (unsigned long) at, (unsigned long) rs_pool_index(p.p));
                    at = rs_pool_index(p.p);
                }
            }
            c.sample(c.shared);
        });
    });
}

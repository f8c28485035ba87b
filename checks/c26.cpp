// C26: histories of copying, assigning, moving, destroying and using signers.
#include <qrl.hpp>
using namespace mc;
// What a signer is: which key, and where it stands. Keys come from a fixed table with their models.
struct Key { Bytes seed; unsigned h; int f; unsigned w; std::unique_ptr<ref::Xmss> r; std::map<uint64_t, Bytes> sigs; };
static std::vector<Key> *K;
static void keys(const std::vector<std::array<unsigned, 3>> &cfg) {
    K = new std::vector<Key>();
    for (auto &x : cfg) { Key k{seedN(2600 + K->size()), x[0], (int) x[1], x[2], nullptr, {}}; k.r.reset(new ref::Xmss(k.seed, k.h, k.f, k.w)); K->push_back(std::move(k)); }
}
static XmssFast *make(const XmssFast *, int k) { auto &q = (*K)[k]; return mkFast(q.seed, q.h, q.f, q.w).release(); }
static XmssBasic *make(const XmssBasic *, int k) { auto &q = (*K)[k]; return new XmssBasic(q.seed, q.h, HF(q.f), eAddrFormatType::SHA256_2X, q.w); }
template <class X> struct Slot {
    std::unique_ptr<X> x; int key = -1; uint64_t idx = 0; bool gone = false;      // gone: moved from, only to be destroyed or assigned
    bool live() const { return x && !gone; }
};
template <class X> static void look(Ctx &c, Slot<X> &s, const char *who) {
    if (!s.live()) return;
    auto &k = (*K)[s.key];
    c.check(s.x->getIndex() == s.idx, "%s stands at index %u instead of %lu", who, s.x->getIndex(), (unsigned long) s.idx);
    c.check(s.x->getSK() == k.r->sk(s.idx) && s.x->getPK() == k.r->pk() && s.x->getHeight() == k.h && s.x->getSeed() == k.seed && s.x->getExtendedSeed() == k.r->extendedSeed(), "the keys of %s are wrong", who);
}
template <class X> static void use(Ctx &c, Slot<X> &s, const char *who) {
    if (!s.live()) return;
    auto &k = (*K)[s.key];
    Bytes m = msgN(7, s.idx), got;
    bool ok = true;
    try { got = s.x->sign(m); } catch (std::exception &) { ok = false; }
    c.transitions++;
    if (s.idx >= 1u << k.h) { c.check(!ok, "%s signed with no leaf left", who); return; }
    c.check(ok, "%s refused to sign at %lu", who, (unsigned long) s.idx);
    Bytes &want = k.sigs[s.idx];
    if (want.empty()) want = k.r->sign(s.idx, m);
    c.check(got == want, "%s signed wrongly at index %lu", who, (unsigned long) s.idx);
    c.traces++;
    s.idx++;
}
template <class X> static void jump(Ctx &c, Slot<X> &s, uint32_t by) {
    if (!s.live()) return;
    if (s.idx + by >= 1u << (*K)[s.key].h) return;
    s.x->setIndex(s.idx + by);
    s.idx += by;
    c.transitions++;
}
enum { SIGN0, SIGN1, JUMP0, JUMP1, COPY01, COPY10, ASSIGN01, ASSIGN10, MOVE01, MASSIGN10, DROP0, DROP1, FRESH1, SWAP, SELF, NOPS };
static const char *opn[] = {"sign(a)", "sign(b)", "jump(a)", "jump(b)", "b=copy of a", "a=copy of b", "b assigned a", "a assigned b", "b=moved a", "a assigned moved b", "destroy a", "destroy b", "new b", "swap", "a assigned a"};
template <class X> static void apply(Ctx &c, Slot<X> *s, int op) {
    auto copy = [&](int d, int o) { if (!s[o].live()) return; s[d].x.reset(new X(*s[o].x)); s[d].key = s[o].key; s[d].idx = s[o].idx; s[d].gone = false; };
    auto assign = [&](int d, int o) { if (!s[o].live() || !s[d].x) return; *s[d].x = *s[o].x; s[d].key = s[o].key; s[d].idx = s[o].idx; s[d].gone = false; };
    switch (op) {
        case SIGN0: use(c, s[0], "a"); break;
        case SIGN1: use(c, s[1], "b"); break;
        case JUMP0: jump(c, s[0], 2); break;
        case JUMP1: jump(c, s[1], 5); break;
        case COPY01: copy(1, 0); break;
        case COPY10: copy(0, 1); break;
        case ASSIGN01: assign(1, 0); break;
        case ASSIGN10: assign(0, 1); break;
        case MOVE01: if (s[0].live()) { s[1].x.reset(new X(std::move(*s[0].x))); s[1].key = s[0].key; s[1].idx = s[0].idx; s[1].gone = false; s[0].gone = true; } break;
        case MASSIGN10: if (s[1].live() && s[0].x) { *s[0].x = std::move(*s[1].x); s[0].key = s[1].key; s[0].idx = s[1].idx; s[0].gone = false; s[1].gone = true; } break;
        case DROP0: s[0].x.reset(); s[0].gone = false; break;
        case DROP1: s[1].x.reset(); s[1].gone = false; break;
        case FRESH1: s[1].x.reset(make((X *) nullptr, 1)); s[1].key = 1; s[1].idx = 0; s[1].gone = false; break;
        case SWAP: if (s[0].live() && s[1].live()) { std::swap(*s[0].x, *s[1].x); std::swap(s[0].key, s[1].key); std::swap(s[0].idx, s[1].idx); } break;
        case SELF: if (s[0].live()) { X &y = *s[0].x; *s[0].x = y; } break;
    }
    c.transitions++;
    look(c, s[0], "a");
    look(c, s[1], "b");
}
template <class X> static void sequences(const char *kind, const char *set, std::vector<std::array<unsigned, 3>> cfg, int first, int depth, bool tail) {
    add(std::string("seq/") + kind + "/" + set + "/" + std::to_string(first), [=](Ctx &c) {
        probeHash();
        keys(cfg);
        std::vector<int> ops(depth, 0);
        ops[0] = first;
        std::unordered_set<uint64_t> states;
        while (true) {
            std::string d;
            for (int o : ops) d += std::string(d.empty() ? "" : ", ") + opn[o];
            c.at("%s (%s): a has key 0, b key 1: %s", kind, set, d.c_str());
            Slot<X> s[2];
            for (int k = 0; k < 2; k++) { s[k].x.reset(make((X *) nullptr, k)); s[k].key = k; }
            use(c, s[0], "a");                       // so that a and b stand at different places
            for (int o : ops) { apply(c, s, o); states.insert((((uint64_t) s[0].live() << 1 | s[1].live()) * 4 + (s[0].key & 1) * 2 + (s[1].key & 1)) * 4096 + s[0].idx * 64 + s[1].idx); }
            for (int k = 0; k < 2; k++) for (int z = 0; z < 2; z++) { use(c, s[0], "a"); use(c, s[1], "b"); }
            if (tail) { s[0].x.reset(); use(c, s[1], "b"); use(c, s[1], "b"); }
            c.evalDistinct();
            int k = depth - 1;
            while (k > 0 && ++ops[k] == NOPS) ops[k--] = 0;
            if (k == 0) break;
        }
        c.states += states.size();
        c.sample(c.shared);
    });
}
static bool deep;
// At every index: a copy made in every way; then both are used to their ends in every order of three kinds.
template <class X> static void everywhere(const char *kind, unsigned h, unsigned f, unsigned w, unsigned part, unsigned parts) {
    add(std::string("index/") + kind + "/h" + std::to_string(h) + "/w" + std::to_string(w) + "/" + std::to_string(part), [=](Ctx &c) {
        probeHash();
        keys({{h, f, w}, {h == 4 ? 6u : 4u, (f + 1) % 3, 4}});
        uint32_t N = 1u << h;
        for (uint32_t i = part; i <= N; i += parts) for (int way = 0; way < 7; way++) for (int order = 0; order < 3; order++) {
            if (h > 4 && (i + way + order) % (deep ? 3 : 6)) continue;
            static const char *wn[] = {"copy", "assignment over another key", "assignment over the same key", "move", "move assignment", "growing vector", "return from a function"};
            static const char *on[] = {"alternating", "copy first", "source destroyed first"};
            c.at("%s h=%u w=%u at index %u: %s, then %s", kind, h, w, i, wn[way], on[order]);
            Slot<X> a, b;
            a.x.reset(make((X *) nullptr, 0)); a.key = 0;
            if (i == N) { a.x->setIndex(N - 1); a.idx = N - 1; use(c, a, "source"); }
            else if (i > 2) { a.x->setIndex(i - 1); a.idx = i - 1; use(c, a, "source"); }
            else while (a.idx < i) use(c, a, "source");
            std::vector<X> v;
            switch (way) {
                case 0: b.x.reset(new X(*a.x)); break;
                case 1: b.x.reset(make((X *) nullptr, 1)); *b.x = *a.x; break;
                case 2: b.x.reset(make((X *) nullptr, 0)); b.x->sign(msgN(1)); *b.x = *a.x; break;
                case 3: b.x.reset(new X(std::move(*a.x))); a.gone = true; break;
                case 4: b.x.reset(make((X *) nullptr, 1)); *b.x = std::move(*a.x); a.gone = true; break;
                case 5: v.push_back(*a.x); v.push_back(*a.x); v.reserve(v.capacity() * 4); v.erase(v.begin()); b.x.reset(new X(v[0])); break;
                case 6: b.x.reset(new X([&] { X t(*a.x); X u(t); u = t; return u; }())); break;
            }
            b.key = 0; b.idx = a.idx;
            c.states++;
            c.evalDistinct();
            look(c, b, "copy");
            look(c, a, "source");
            if (order == 2) a.x.reset();
            uint32_t last = std::min<uint64_t>(N + 1, i + (h > 4 ? 20 : 40));
            if (order == 1) while (b.idx < N) use(c, b, "copy");
            for (uint32_t n = i; n < last; n++) { use(c, a, "source"); use(c, b, "copy"); if (n % 5 == 4) { jump(c, b, 2); look(c, a, "source"); } }
            look(c, a, "source"); look(c, b, "copy");
        }
        c.sample(c.shared);
    });
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        deep = th;
#ifdef __SANITIZE_ADDRESS__
        int d = th ? 4 : 2; bool all = th;
#else
        int d = th ? 5 : 3; bool all = true;
#endif
        for (int o = 0; o < NOPS; o++) {
            sequences<XmssFast>("fast", "h4w2-h4w2", {{4, 1, 2}, {4, 1, 2}}, o, d, false);
            sequences<XmssFast>("fast", "h4w2-h6w4", {{4, 1, 2}, {6, 0, 4}}, o, th || all ? d - 1 : d, true);
            sequences<XmssBasic>("basic", "h4w2-h4w4", {{4, 1, 2}, {4, 2, 4}}, o, th ? d - 1 : d, true);
        }
        for (unsigned p = 0; p < 4; p++) { everywhere<XmssFast>("fast", 4, 1, 2, p, 4); if (all) { everywhere<XmssFast>("fast", 4, 2, 16, p, 4); everywhere<XmssBasic>("basic", 4, 1, 2, p, 4); } }
        for (unsigned p = 0; p < 8; p++) { if (all) everywhere<XmssFast>("fast", 6, 0, 2, p, 8); if (th) { everywhere<XmssFast>("fast", 8, 1, 2, p, 8); everywhere<XmssBasic>("basic", 6, 1, 2, p, 8); } }
    });
}

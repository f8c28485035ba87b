// C17: random seeds under every scripted behaviour of the entropy source (built with -rdynamic so the Rust and C++
// runtimes reach the scripted fopen/open/read/getrandom/getentropy/syscall below).
#include <qrl.hpp>
#include <rs.hpp>
#include <cerrno>
#include <dlfcn.h>
#include <sys/syscall.h>
using namespace mc;
enum Act { FULL, ONE, HALF, NM1, EINTR_, EAGAIN_, EOF_, EIO_, NACT };
static const char *AN[] = {"full", "1 byte", "half", "all but one", "EINTR", "EAGAIN", "end of file", "EIO"};
namespace src {
    bool on = false;              // the scripted source replaces the system's
    std::vector<int> script; size_t at; int tail;
    int openErr;                  // errno of every open, 0: opens succeed
    Bytes delivered; bool failed; // what was handed out since begin(), and whether a fatal answer was given
    uint64_t gen = 1;             // stream position: every byte ever delivered is different content
    std::vector<int> fds;
    void begin(const std::vector<int> &s, int t, int oe) { script = s; at = 0; tail = t; openErr = oe; delivered.clear(); failed = false; on = true; }
    long answer(void *buf, size_t n, bool file) {
        if (n == 0) return 0;
        int a = at < script.size() ? script[at++] : tail;
        size_t k = n;
        switch (a) {
            case ONE: k = 1; break;
            case HALF: k = (n + 1) / 2; break;
            case NM1: k = n > 1 ? n - 1 : 1; break;
            case EINTR_: errno = EINTR; return -1;
            case EAGAIN_: failed = true; errno = EAGAIN; return -1;
            case EOF_: failed = true; return 0;
            case EIO_: failed = true; errno = EIO; return -1;
        }
        for (size_t i = 0; i < k; i++) { uint64_t z = gen++ * 0x9e3779b97f4a7c15ULL; z ^= z >> 29; ((uint8_t *) buf)[i] = (uint8_t) (z * 0xbf58476d1ce4e5b9ULL >> 56); delivered.push_back(((uint8_t *) buf)[i]); }
        (void) file;
        return k;
    }
    bool entropyPath(const char *p) { return on && p && strstr(p, "random"); }
    template <class F> F next(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
    int openIt() {
        if (openErr) { errno = openErr; return -1; }
        static auto real = next<int (*)(const char *, int, ...)>("open");
        int fd = real("/dev/null", 0);
        fds.push_back(fd);
        return fd;
    }
    bool ours(int fd) { return on && std::find(fds.begin(), fds.end(), fd) != fds.end(); }
    struct Cookie { int fd; };
    std::vector<std::pair<FILE *, int>> files;
    ssize_t cread(void *c, char *b, size_t n) { return answer(b, n, true); (void) c; }
    int cclose(void *c) { delete (Cookie *) c; return 0; }
    FILE *fopenIt() {
        int fd = openIt();
        if (fd < 0) return nullptr;
        cookie_io_functions_t io{}; io.read = cread; io.close = cclose;
        FILE *f = fopencookie(new Cookie{fd}, "r", io);
        files.push_back({f, fd});
        return f;
    }
}
extern "C" {
FILE *fopen(const char *p, const char *m) { if (src::entropyPath(p)) return src::fopenIt(); static auto r = src::next<FILE *(*)(const char *, const char *)>("fopen"); return r(p, m); }
FILE *fopen64(const char *p, const char *m) { if (src::entropyPath(p)) return src::fopenIt(); static auto r = src::next<FILE *(*)(const char *, const char *)>("fopen64"); return r(p, m); }
int fileno(FILE *f) { if (src::on) for (auto &x : src::files) if (x.first == f) return x.second; static auto r = src::next<int (*)(FILE *)>("fileno"); return r(f); }
int fclose(FILE *f) {
    static auto r = src::next<int (*)(FILE *)>("fclose");
    for (size_t i = 0; i < src::files.size(); i++) if (src::files[i].first == f) {
        int fd = src::files[i].second;
        src::files.erase(src::files.begin() + i);
        int q = r(f);
        close(fd);
        return q;
    }
    return r(f);
}
int close(int fd) { for (size_t i = 0; i < src::fds.size(); i++) if (src::fds[i] == fd) { src::fds.erase(src::fds.begin() + i); break; } static auto r = src::next<int (*)(int)>("close"); return r(fd); }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (src::entropyPath(p)) return src::openIt(); static auto r = src::next<int (*)(const char *, int, ...)>("open"); return r(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (src::entropyPath(p)) return src::openIt(); static auto r = src::next<int (*)(const char *, int, ...)>("open64"); return r(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (src::entropyPath(p)) return src::openIt(); static auto r = src::next<int (*)(int, const char *, int, ...)>("openat"); return r(d, p, fl, m); }
ssize_t read(int fd, void *b, size_t n) { if (src::ours(fd)) return src::answer(b, n, true); static auto r = src::next<ssize_t (*)(int, void *, size_t)>("read"); return r(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!src::on) { static auto r = src::next<ssize_t (*)(void *, size_t, unsigned)>("getrandom"); return r(b, n, f); }
    if (src::openErr) { errno = src::openErr == EACCES ? EPERM : ENOSYS; return -1; }
    return src::answer(b, n, false);
}
int getentropy(void *b, size_t n) {
    if (!src::on) { static auto r = src::next<int (*)(void *, size_t)>("getentropy"); return r(b, n); }
    if (n > 256 || src::openErr) { errno = EIO; return -1; }
    size_t d = 0;
    while (d < n) { long k = src::answer((char *) b + d, n - d, false); if (k > 0) d += k; else if (k == 0 || errno != EINTR) { errno = EIO; return -1; } }
    return 0;
}
long syscall(long nr, ...) {
    va_list ap; va_start(ap, nr); long a[6]; for (auto &x : a) x = va_arg(ap, long); va_end(ap);
    if (nr == SYS_getrandom && src::on) return getrandom((void *) a[0], a[1], a[2]);
    static auto r = src::next<long (*)(long, ...)>("syscall");
    return r(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
}
static Bytes derive(const Bytes &d, size_t n, const std::string &e) {
    Bytes b(d.begin(), d.begin() + n);
    b.insert(b.end(), e.begin(), e.end());
    Bytes o(n); ref::shake(136, b.data(), b.size(), o.data(), n);
    return o;
}
// kind 0: C++, 1: Rust
static int seedOf(int kind, size_t n, const std::string &e, Bytes &o) {
    if (kind == 0) { try { o = getRandomSeed(n, e); return 0; } catch (std::exception &) { return 1; } }
    rs::R r = rs::ops(rs::RANDSEED, n, 0, e);
    o = r.v;
    return r.rc == rs::OK ? 0 : 1;
}
static void one(Ctx &c, int kind, size_t n, const std::string &e, const std::vector<int> &script, int tail, int openErr) {
    std::string s;
    for (int a : script) s += std::string(AN[a]) + ", ";
    c.at("%s seed of %zu bytes, %zu bytes of extra entropy, source: %s%sthen %s", kind ? "Rust" : "C++", n, e.size(), openErr ? "cannot be opened, " : "", s.c_str(), AN[tail]);
    src::begin(script, tail, openErr);
    Bytes o;
    int r = seedOf(kind, n, e, o);
    src::on = false;
    c.evalDistinct();
    bool healthy = !openErr && tail == FULL;
    for (int a : script) healthy = healthy && a == FULL;
    if (!healthy) c.faults++;
    if (r) { c.check(!healthy, "refused although the source is healthy"); return; }
    if (n == 0) { c.check(o.empty(), "%zu bytes returned", o.size()); return; }
    c.check(!openErr, "a seed was returned although the source could not be opened");
    c.check(o.size() == n, "%zu bytes returned", o.size());
    c.check(src::delivered.size() >= n, "a seed was returned from only %zu bytes of entropy", src::delivered.size());
    if (o == derive(src::delivered, n, e)) return;
    c.fail("the seed is not SHAKE256 of %zu bytes of the source followed by the extra entropy", n);
}
int main(int argc, char **argv) {
    return runMain(argc, argv, [](bool th) {
        static std::vector<size_t> sizes = {0, 1, 2, 15, 16, 32, 47, 48, 49, 64, 255, 256, 257, 1000, 8190, 8191, 8192, 10000, 65535, 65536, 65537, 70000, 131072, 1 << 20, (1 << 20) + 1};
        int D = th ? 5 : 4;
        for (int kind = 0; kind < 2; kind++) for (int first = 0; first < NACT; first++) add(std::string("scripts/") + (kind ? "rust" : "cpp") + "/" + std::to_string(first), [=](Ctx &c) {
            for (size_t n : sizes) {
                int d = n <= 64 ? D : n <= 1000 ? 3 : 2;
                for (int len = 1; len <= d; len++) {
                    int total = 1; for (int i = 1; i < len; i++) total *= NACT;
                    for (int x = 0; x < total; x++) {
                        std::vector<int> s = {first};
                        bool ended = first >= EAGAIN_;
                        for (int i = 1, y = x; i < len; i++, y /= NACT) { s.push_back(y % NACT); if (i < len - 1 && s.back() >= EAGAIN_) ended = true; }
                        if (ended && len > 3 && !th) continue;
                        for (int tail : {(int) FULL, (int) ONE, (int) EOF_, (int) EIO_}) {
                            if (tail == ONE && n > 1000) continue;
                            one(c, kind, n, x % 2 ? "" : std::string("extra"), s, tail, 0);
                        }
                    }
                }
            }
            c.sample(c.shared);
        });
        for (int kind = 0; kind < 2; kind++) for (int p = 0; p < 4; p++) add(std::string("exact/") + (kind ? "rust" : "cpp") + "/" + std::to_string(p), [=](Ctx &c) {
            // the source ends after every possible number of bytes
            for (size_t n : {1, 16, 48, 64, 200}) for (size_t k = p; k <= n + 2; k += 4) for (int end : {(int) EOF_, (int) EIO_, (int) FULL}) one(c, kind, n, "", std::vector<int>(k, ONE), end, 0);
            // sizes and extra entropy
            for (size_t n = p; n <= (th ? 2000 : 500); n += 4) one(c, kind, n, "x", {}, FULL, 0);
            for (size_t n : sizes) for (size_t l = p; l <= 300; l += 4) {
                if (n > 64 && l % 5) continue;
                std::string e;
                for (size_t i = 0; i < l; i++) e += (char) (kind ? (i * 7 + l) % 128 : (i * 37 + l) % 256);
                one(c, kind, n, e, {}, FULL, 0);
            }
            if (!kind) for (int v = p; v < 256; v += 4) { one(c, 0, 48, std::string(1, (char) v), {}, FULL, 0); one(c, 0, 48, std::string("a") + (char) v + "b", {}, FULL, 0); one(c, 0, 48, std::string(5, (char) v), {}, FULL, 0); }
            else for (int v = p; v < 128; v += 4) one(c, 1, 48, std::string("a") + (char) v + "b", {}, FULL, 0);
            for (size_t n : sizes) if (n) for (int e : {ENOENT, EACCES, EMFILE, ENFILE, ENXIO, EINTR}) { if (kind && e == EINTR) continue; one(c, kind, n, "extra", {}, FULL, e); }
            c.sample(c.shared);
        });
        // consecutive requests never reuse source bytes, also after failures
        for (int kind = 0; kind < 2; kind++) add(std::string("sequence/") + (kind ? "rust" : "cpp"), [=](Ctx &c) {
            for (int h = 0; h < (th ? 6561 : 729); h++) {
                std::vector<Bytes> got;
                int x = h;
                for (int i = 0; i < 6; i++, x /= 3) {
                    static const size_t N[3] = {48, 48, 16};
                    bool bad = x % 3 == 1;
                    c.at("%s history %d request %d", kind ? "Rust" : "C++", h, i);
                    src::begin(bad ? std::vector<int>{ONE} : std::vector<int>{}, bad ? EOF_ : FULL, 0);
                    Bytes o;
                    int r = seedOf(kind, N[x % 3], "", o);
                    src::on = false;
                    c.evals++; c.states++; c.transitions++;
                    c.check(bad == (r == 1), bad ? "a seed was returned although the source failed" : "refused after an earlier failure");
                    if (!r) { c.check(o == derive(src::delivered, N[x % 3], ""), "not derived from this request's bytes"); for (auto &g : got) c.check(memcmp(g.data(), o.data(), 16), "two seeds are equal"); got.push_back(o); }
                }
                c.distinctN++;
            }
            c.sample(c.shared);
        });
    });
}

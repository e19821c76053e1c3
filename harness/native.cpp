// Native runner: the same harness against the compiled code, with inputs taken from a verifier counterexample (--replay FILE)
// or generated (--search SEED SECONDS).  Built with -DVH_NATIVE -DVH_FILE="...".
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <fstream>
#include <map>
#include <random>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include VH_FILE

namespace vhn
{
struct in_val { std::uint64_t n = 0; std::string text; std::vector<std::pair<std::uint64_t, std::string>> list; };
inline std::map<std::string, in_val> given;
inline bool search = false, dump = false;
inline std::uint64_t rng_state;
inline std::jmp_buf* again = nullptr;
inline std::vector<std::unique_ptr<char[]>> bufs;
inline std::vector<std::unique_ptr<char*[]>> pbufs;
inline std::map<std::string, std::uint64_t> covers;
inline std::map<std::string, int> used;   // n-th request of a name gets a name of its own, as in the verifier
inline std::string uname(const char* n) { const auto k = used[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
inline std::uint64_t rnd()
{
    auto z = (rng_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline std::uint64_t below(std::uint64_t n) { return n ? rnd() % n : 0; }
inline char* hold(const std::string& s, bool nul)
{
    auto p = std::make_unique<char[]>(s.size() + nul);
    std::memcpy(p.get(), s.data(), s.size());
    if (nul) p[s.size()] = 0;
    bufs.push_back(std::move(p));
    return bufs.back().get();
}
inline std::string hex(const std::string& s)
{
    std::string r; char b[4];
    for (unsigned char c : s) { std::snprintf(b, 4, "%02x", c); r += b; }
    return r.empty() ? "-" : r;
}
inline std::string unhex(const std::string& s)
{
    std::string r;
    if (s == "-") return r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
    return r;
}
inline std::string rnd_cp()
{
    static const std::uint32_t pick[] = {0x41, 0x62, 0x20, 0x09, 0x0a, 0x0d, 0xe9, 0x300, 0x301, 0x903, 0x600, 0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0x1f1e6, 0x1f1e8, 0x1f468, 0x200d, 0x1f3fb, 0x4e00, 0xff21, 0x200b, 0x2028, 0x7f, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x2d, 0x3d, 0x3000, 0x00a0, 0x0d3f, 0x0915, 0x094d};
    std::uint32_t c = pick[below(sizeof pick / sizeof *pick)];
    if (below(8) == 0) c = (std::uint32_t)below(0x110000);
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
inline std::string rnd_text(std::uint64_t max)
{
    std::string s;
    auto& d = vh::dict();
    switch (below(10)) {
    case 0: for (auto n = below(6); n--;) s += (char)below(256); break;
    case 1: for (auto n = below(12); n--;) s += rnd_cp(); break;
    case 2: for (auto n = 1 + below(6); n--;) s += "abcdhxyz-=19 "[below(13)]; break;
    case 3: if (!d.empty()) { s = d[below(d.size())]; if (!s.empty()) s[below(s.size())] = (char)below(256); } break;
    case 4: if (!d.empty()) for (auto n = 1 + below(3); n--;) s += d[below(d.size())]; break;
    case 5: s = std::to_string((std::int64_t)below(70000) - 300); break;
    default: if (!d.empty()) s = d[below(d.size())]; else for (auto n = below(8); n--;) s += rnd_cp();
    }
    if (s.size() > max) s.resize(max);
    return s;
}
inline void fail(const char* label)
{
    std::printf("NATIVE-FAIL %s\n", label);
    std::fflush(stdout);
    _exit(3);
}
}  // namespace vhn

extern "C" {
std::uint64_t __v_sym(unsigned width, const char* name, std::uint64_t lo, std::uint64_t hi)
{
    const auto nm = vhn::uname(name);
    std::uint64_t v = 0;
    if (vhn::search) {
        const auto span = hi - lo;
        const auto mask = width >= 64 ? ~0ull : (1ull << width) - 1;
        switch (vhn::below(6)) {
        case 0: v = lo + std::min<std::uint64_t>(span, vhn::below(4)); break;
        case 1: v = hi - std::min<std::uint64_t>(span, vhn::below(4)); break;
        case 2: v = (0 - vhn::below(300)) & mask; break;
        case 3: v = vhn::below(300); break;
        case 4: { v = vhn::rnd() >> vhn::below(64); break; }
        default: v = vhn::rnd();
        }
        if (v < lo || v > hi) v = span == ~0ull ? v : lo + v % (span + 1);
    } else v = vhn::given[nm].n;
    if (vhn::dump) std::printf("int %s %llu\n", nm.c_str(), (unsigned long long)v);
    return v;
}
void __v_assume(bool c)
{
    if (c) return;
    if (vhn::again) std::longjmp(*vhn::again, 1);
    std::printf("NATIVE-ASSUME-FALSE\n"); std::fflush(stdout); _exit(4);
}
void __v_assert(bool c, const char* label) { if (!c) vhn::fail(label); }
void __v_cover(const char* l) { ++vhn::covers[l]; }
void __v_cover_decl(const char*) {}
bool __v_and(bool a, bool b) { return a && b; }
bool __v_or(bool a, bool b) { return a || b; }
bool __v_not(bool a) { return !a; }
std::uint64_t __v_ite(bool c, std::uint64_t a, std::uint64_t b) { return c ? a : b; }
bool __v_symbolic() { return false; }
void __v_print(const char* l, std::uint64_t v) { std::printf("%s %llu\n", l, (unsigned long long)v); }
const char* __v_bytes(const char* name, std::uint64_t max, bool nul, std::uint64_t* len)
{
    const auto nm = vhn::uname(name);
    std::string s = vhn::search ? vhn::rnd_text(max) : vhn::given[nm].text;
    if (nul) for (auto& c : s) if (!c) c = 1;
    *len = s.size();
    if (vhn::dump) std::printf("bytes %s %s\n", nm.c_str(), vhn::hex(s).c_str());
    return vhn::hold(s, nul);
}
static std::uint64_t vhn_tokens(const char* name, std::uint64_t max, void* vec, bool plain)
{
    auto& v = *static_cast<arg_router::vector<arg_router::parsing::token_type>*>(vec);
    const auto nm = vhn::uname(name);
    std::vector<std::pair<std::uint64_t, std::string>> l;
    if (vhn::search) {
        auto n = vhn::below(4) ? vhn::below(5) : vhn::below(12);
        if (n > max) n = max;
        while (n--) {
            auto t = vhn::rnd_text(vh::max_text);
            std::uint64_t pre = 2;
            if (plain) {}
            else if (vh::token_prefixes() && vhn::below(2)) { pre = 2; if (t.rfind("--", 0) == 0) { pre = 0; t = t.substr(2); } else if (t.rfind("-", 0) == 0) { pre = 1; t = t.substr(1); } }
            else if (vh::token_prefixes()) pre = vhn::below(3);
            l.push_back({pre, t});
        }
    } else l = vhn::given[nm].list;
    if (vhn::dump) { std::printf("tokens %s %zu\n", nm.c_str(), l.size()); for (auto& t : l) std::printf("%llu %s\n", (unsigned long long)t.first, vhn::hex(t.second).c_str()); }
    v.clear();
    for (auto& t : l) v.push_back({static_cast<arg_router::parsing::prefix_type>(t.first), std::string_view{vhn::hold(t.second, false), t.second.size()}});
    return l.size();
}
std::uint64_t __v_tokens(const char* name, std::uint64_t max, void* vec) { return vhn_tokens(name, max, vec, false); }
std::uint64_t __v_args(const char* name, std::uint64_t max, void* vec) { return vhn_tokens(name, max, vec, true); }
char** __v_argv(const char* name, std::uint64_t max, std::uint64_t* n)
{
    const auto nm = vhn::uname(name);
    std::vector<std::pair<std::uint64_t, std::string>> l;
    if (vhn::search) for (auto k = vhn::below(std::min<std::uint64_t>(max, 7) + 1); k--;) { auto t = vhn::rnd_text(vh::max_text); for (auto& c : t) if (!c) c = 1; l.push_back({0, t}); }
    else l = vhn::given[nm].list;
    if (vhn::dump) { std::printf("cstrs %s %zu\n", nm.c_str(), l.size()); for (auto& t : l) std::printf("0 %s\n", vhn::hex(t.second).c_str()); }
    auto p = std::make_unique<char*[]>(l.size() + 1);
    for (std::size_t i = 0; i < l.size(); ++i) p[i] = vhn::hold(l[i].second, true);
    p[l.size()] = nullptr;
    *n = l.size();
    vhn::pbufs.push_back(std::move(p));
    return vhn::pbufs.back().get();
}
bool __v_same_text(const void* p, std::uint64_t n, const void* q, std::uint64_t m) { return n == m && (!n || !std::memcmp(p, q, n)); }
}

static volatile std::uint64_t* g_iter;
static void on_alarm(int) { static const char m[] = "NATIVE-FAIL does not come to an end\n"; (void)!write(1, m, sizeof m - 1); _exit(3); }
static void arm(int s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_REAL, &t, nullptr); }

int main(int argc, char** argv)
{
    const std::string entry = argv[1], mode = argv[2];
    auto* f = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, ("vh_" + entry).c_str()));
    if (!f) { std::printf("no entry\n"); return 2; }
    std::signal(SIGALRM, on_alarm);
    if (mode == "--replay" || mode == "--one") {
        if (mode == "--replay") {
            std::ifstream i(argv[3]); std::string l;
            while (std::getline(i, l)) {
                std::istringstream s(l); std::string k, n, v; s >> k >> n;
                auto& g = vhn::given[n];
                if (k == "int") s >> g.n;
                else if (k == "bytes") { s >> v; g.text = vhn::unhex(v); }
                else if (k == "tokens" || k == "cstrs") { std::size_t c; s >> c; while (c--) { std::getline(i, l); std::istringstream t(l); std::uint64_t p; t >> p >> v; g.list.push_back({p, vhn::unhex(v)}); } }
            }
        } else { vhn::search = true; vhn::rng_state = std::stoull(argv[3]); }
        vhn::dump = true;
        arm(20);
        std::setvbuf(stdout, nullptr, _IOLBF, 4096);
        f();
        std::printf("NATIVE-OK\n");
        return 0;
    }
    // --search SEED SECONDS STATEFILE
    vhn::search = true;
    const std::uint64_t seed = std::stoull(argv[3]);
    const double secs = std::stod(argv[4]);
    int fd = open(argv[5], O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 64)) return 2;
    g_iter = static_cast<std::uint64_t*>(mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    std::jmp_buf jb; vhn::again = &jb;
    volatile std::uint64_t i = 0, runs = 0;
    for (;; ++i) {
        if (i % 16 == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; arm(20); }
        vhn::rng_state = seed + i * 0x51ed2701f3a5c7b9ull; vhn::rnd();
        *g_iter = seed + i * 0x51ed2701f3a5c7b9ull;
        vhn::bufs.clear(); vhn::pbufs.clear(); vhn::used.clear();
        const auto start = vhn::rng_state; *g_iter = start;
        if (setjmp(jb) == 0) { f(); runs = runs + 1; }
    }
    std::printf("NATIVE-RUNS %llu %llu\n", (unsigned long long)i, (unsigned long long)runs);
    for (auto& c : vhn::covers) std::printf("COVER %llu %s\n", (unsigned long long)c.second, c.first.c_str());
    std::fflush(stdout);
    _exit(0);
}

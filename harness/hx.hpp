// hx.hpp -- tiny monitoring runtime shared by every harness.
//
// A harness is a set of scenarios. A scenario is a function of (rng, iteration);
// the rng is derived only from (VERIF_SEED, scenario name, iteration), so that any single
// case can be replayed with  <binary> --only <scenario>:<iteration> --seed <seed>.
// The process keeps a progress record in a mmap'd file, so that when a sanitizer, an
// assertion or a signal ends the process, the driver knows which case did it.
#ifndef HX_HPP
#define HX_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <csetjmp>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <limits>
#include <type_traits>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <c4/error.hpp>

namespace hx {

inline uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ull; while(*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
inline uint64_t hbytes(const void *d, size_t n) { uint64_t h = 1469598103934665603ull; const unsigned char *s = (const unsigned char*)d; while(n--) { h ^= *s++; h *= 1099511628211ull; } return h; }

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t u64() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    // uniform in [0,n)
    size_t below(size_t n) { return n ? size_t(u64() % n) : 0; }
    // uniform in [a,b]
    size_t in(size_t a, size_t b) { return a + below(b - a + 1); }
    bool chance(size_t num, size_t den) { return below(den) < num; }
    bool coin() { return (u64() >> 17) & 1; }
    // small sizes favoured: 0.. max
    size_t size(size_t max) { size_t k = below(4); size_t m = k == 0 ? (max < 2 ? max : 2) : k == 1 ? (max < 8 ? max : 8) : max; return below(m + 1); }
    // now and then a bound far larger than the usual one: word-wise and vector-wise code behaves differently there
    size_t big(size_t max) { if(u64() % 40) return max; static const size_t m[] = {24, 40, 72, 140, 300, 1100}; size_t b = m[below(6)]; return b > max ? b : max; }
    size_t vast(size_t max) { return u64() % 1500 ? big(max) : below(3) ? 9000 : 200000; } // beyond 12 and 16 bits, rarely
    size_t huge(size_t max) { uint64_t k = u64() % 60; return k ? k < 3 ? 9000 : big(max) : 200000; } // the same, where the call itself is rare
    template<class T, size_t N> T const& pick(T const (&a)[N]) { return a[below(N)]; }
    template<class T> T const& pick(std::vector<T> const& a) { return a[below(a.size())]; }
    std::string str(size_t maxlen, std::string const& alphabet) { size_t n = size(maxlen); std::string r(n, ' '); for(size_t i = 0; i < n; ++i) r[i] = alphabet[below(alphabet.size())]; return r; }
    std::string bytes(size_t n) { std::string r(n, ' '); for(size_t i = 0; i < n; ++i) r[i] = (char)u64(); return r; }
    // an integer whose interesting values (0, limits, powers of 2/8/10/16 and neighbours, random widths) are all likely
    uint64_t interesting()
    {
        switch(below(8))
        {
        case 0: return u64();
        case 1: return u64() >> below(64);
        case 2: { uint64_t v = uint64_t(1) << below(64); return v + below(5) - 2; }
        case 3: { uint64_t v = 1; size_t n = below(20); for(size_t i = 0; i < n; ++i) v *= 10; return v + below(5) - 2; }
        case 4: { uint64_t v = 1; size_t n = below(20); for(size_t i = 0; i < n; ++i) v *= 10; return (v * (1 + below(9))) + below(5) - 2; }
        case 5: return below(300);
        case 6: { uint64_t v = uint64_t(1) << below(64); return ~v + below(5); }
        default: { uint64_t v = (uint64_t(1) << (8u << below(4)) % 64); return v - 1 - below(3); }
        }
    }
};

struct Progress { char scenario[64]; uint64_t iter; uint64_t tick; char note[1024]; };

struct Scenario { const char *name; void (*fn)(Rng&, uint64_t); uint64_t quick, thorough; };

struct State
{
    std::vector<Scenario> scenarios;
    std::map<std::string, std::pair<uint64_t, std::string>> fails; // key -> (count, first detail)
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> sigs;
    std::vector<std::string> samples;
    std::map<std::string, int> samples_per;
    std::map<std::string, uint64_t> evals_per;
    uint64_t evals = 0;
    uint64_t seed = 1;
    Progress *pr = nullptr;
    Progress local;
    const char *rule = "";
    bool verbose = false;
    bool jumped = false;
    uint64_t c4_errors = 0;
    jmp_buf case_jb;
    bool case_armed = false;
    jmp_buf *expect_jb = nullptr;
    char last_error[8192];
    size_t last_error_len = 0;
    bool thorough = false;
};
inline State& st() { static State s; return s; }

inline std::string vfmt(const char *f, va_list ap) { char b[4096]; int n = vsnprintf(b, sizeof(b), f, ap); if(n < 0) n = 0; if((size_t)n >= sizeof(b)) n = sizeof(b) - 1; return std::string(b, (size_t)n); }
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

inline std::string esc(const char *p, size_t n)
{
    std::string r = "\""; char b[8];
    if(!p && n == 0) return "null";
    for(size_t i = 0; i < n && i < 300; ++i) { unsigned char c = (unsigned char)p[i]; if(c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c; else { snprintf(b, sizeof(b), "\\x%02x", c); r += b; } }
    if(n > 300) r += "...";
    return r + "\"";
}
inline std::string esc(std::string const& s) { return esc(s.data(), s.size()); }

inline void note(const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(st().pr->note, sizeof(st().pr->note), f, ap); va_end(ap); }
inline void note(std::string const& s) { size_t n = std::min(s.size(), sizeof(st().pr->note) - 1); memcpy(st().pr->note, s.data(), n); st().pr->note[n] = 0; }

// one observation by a monitor
inline void ev(uint64_t n = 1) { st().evals += n; }
inline void count(const char *name, uint64_t n = 1) { st().counters[name] += n; }
// a distinct non-trivial situation observed
inline void seen(uint64_t sig) { if(st().sigs.size() < 2000000) st().sigs.insert(mix(sig ^ hstr(st().pr->scenario))); }
inline void seen(uint64_t a, uint64_t b) { seen(mix(a) * 31 + b); }
inline void seen(uint64_t a, uint64_t b, uint64_t c) { seen(mix(mix(a) * 31 + b) * 31 + c); }
inline void seen(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { seen(mix(mix(mix(a) * 31 + b) * 31 + c) * 31 + d); }
inline void sample(std::string const& s) { std::string k = st().pr->scenario; if(st().samples_per[k] < 2) { st().samples_per[k]++; st().samples.push_back(k + ": " + s); } }

inline void fail(const char *key, const char *f, ...)
{
    va_list ap; va_start(ap, f); std::string d = vfmt(f, ap); va_end(ap);
    std::string k = std::string(st().pr->scenario) + "/" + key;
    auto &e = st().fails[k];
    if(e.first++ == 0)
    {
        e.second = d;
        for(char &c : d) if(c == '\n') c = ' ';
        printf("HXFAIL key=%s case=%s:%llu detail=%s note=%s\n", k.c_str(), st().pr->scenario, (unsigned long long)st().pr->iter, d.c_str(), st().pr->note);
        fflush(stdout);
    }
}
#define HX_CHECK(cond, key, ...) do { ::hx::ev(); if(!(cond)) { ::hx::fail(key, __VA_ARGS__); } } while(0)

// ---------------------------------------------------------------- buffers
// exactly sized heap memory: the sanitizer's red zones start at the first byte past the end
struct Exact
{
    char *p; size_t n;
    explicit Exact(size_t n_, int fillc = 0xA5) : p((char*)malloc(n_ ? n_ : 1)), n(n_)
    {
        if(n_ == 0) { // no addressable byte at all
            free(p); p = (char*)malloc(1) ; *p = (char)fillc; base = p; p = base + 1;
        } else { base = p; memset(p, fillc, n); }
    }
    explicit Exact(std::string const& s) : Exact(s.size()) { if(n) memcpy(p, s.data(), n); }
    ~Exact() { free(base); }
    Exact(Exact const&) = delete;
    Exact& operator=(Exact const&) = delete;
    std::string str() const { return std::string(p, n); }
    std::string str(size_t len) const { return std::string(p, len < n ? len : n); }
    char *base;
};

// a region larger than 4 GiB, all zero and hardly ever touched: sizes and positions beyond 32 bits
// cost nothing as long as an operation looks only at a few places. What put() wrote is zeroed again.
struct Far
{
    static const size_t size = (size_t(6) << 30) + (size_t(1) << 20);
    static char *region() { static char *m = [] { void *v = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return v == MAP_FAILED ? (char*)nullptr : (char*)v; }(); return m; }
    char *p = region(); std::vector<std::pair<size_t, size_t>> dirty;
    explicit operator bool() const { return p != nullptr; }
    void put(size_t pos, std::string const& s) { memcpy(p + pos, s.data(), s.size()); dirty.emplace_back(pos, s.size()); }
    void touched(size_t pos, size_t n) { dirty.emplace_back(pos, n); }
    ~Far() { for(auto &d : dirty) memset(p + d.first, 0, d.second); }
    // a length around 2^31, 2^32 or just large
    static size_t len(Rng &r) { static const size_t b[] = {size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + (size_t(1) << 31), size_t(5) << 30}; return b[r.below(4)] + r.below(40) - (r.coin() ? 0 : 20); }
};

// run code and tell whether it reported an error through the library's error callback
template<class F>
bool raises(F const& f)
{
    jmp_buf jb; jmp_buf *prev = st().expect_jb;
    st().expect_jb = &jb;
    st().last_error_len = 0; st().last_error[0] = 0;
    if(setjmp(jb)) { st().expect_jb = prev; return true; }
    f();
    st().expect_jb = prev;
    return false;
}

inline void on_c4_error(const char *msg, size_t n)
{
    State &s = st();
    s.c4_errors++;
    size_t k = std::min(n, sizeof(s.last_error) - 1);
    memcpy(s.last_error, msg, k); s.last_error[k] = 0; s.last_error_len = n;
    if(s.expect_jb) { jmp_buf *jb = s.expect_jb; longjmp(*jb, 1); }
    if(s.case_armed) { s.jumped = true; longjmp(s.case_jb, 1); }
    fprintf(stderr, "C4ERROR outside of a case: %.*s\n", (int)n, msg);
}

inline void on_prof(int)
{
    static uint64_t last_tick = ~0ull; static int same = 0;
    Progress *p = st().pr;
    if(p->tick == last_tick) { if(++same >= 4) { const char m[] = "HXHANG\n"; (void)!write(1, m, sizeof(m) - 1); _exit(4); } }
    else { same = 0; last_tick = p->tick; }
}

inline void run_case(Scenario const& sc, uint64_t i)
{
    State &s = st();
    s.pr->iter = i; s.pr->tick++; s.pr->note[0] = 0;
    Rng rng(mix(s.seed * 0x9E37ull + hstr(sc.name)) ^ mix(i));
    s.case_armed = true;
    if(setjmp(s.case_jb) == 0) { sc.fn(rng, i); }
    else { std::string m = s.last_error; fail("unexpected-error", "library raised an error on legal use: %s", m.c_str()); }
    s.case_armed = false;
    s.expect_jb = nullptr;
    if(s.pr->note[0] && i > 2) { auto &c = s.samples_per[sc.name]; if(c == 0) sample(s.pr->note); }
}

inline int main_(int argc, char **argv, const char *rule)
{
    State &s = st();
    s.rule = rule;
    double scale = 1.0; uint64_t shard = 0, nshards = 1; std::string only, start, sigfile; const char *prf = nullptr; bool list = false;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--thorough") s.thorough = true;
        else if(a == "--scale") scale = atof(val().c_str());
        else if(a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%lu/%lu", &shard, &nshards); }
        else if(a == "--only") only = val();
        else if(a == "--start") start = val();
        else if(a == "--progress") prf = argv[++i];
        else if(a == "--sigs") sigfile = val();
        else if(a == "--list") list = true;
        else if(a == "-v") s.verbose = true;
    }
    if(list) { for(auto &sc : s.scenarios) printf("%s %llu %llu\n", sc.name, (unsigned long long)sc.quick, (unsigned long long)sc.thorough); return 0; }
    s.pr = &s.local; memset(s.pr, 0, sizeof(*s.pr));
    if(prf)
    {
        int fd = open(prf, O_RDWR|O_CREAT, 0644);
        if(fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) { void *m = mmap(nullptr, sizeof(Progress), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0); if(m != MAP_FAILED) s.pr = (Progress*)m; }
    }
    c4::set_error_callback(on_c4_error);
    c4::set_error_flags(c4::ON_ERROR_CALLBACK|c4::ON_ERROR_ABORT);
    signal(SIGPROF, on_prof);
    struct itimerval it; it.it_interval.tv_sec = 10; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);

    std::string only_name = only; uint64_t only_iter = ~0ull;
    { size_t c = only.find(':'); if(c != std::string::npos) { only_name = only.substr(0, c); only_iter = strtoull(only.c_str() + c + 1, nullptr, 10); } }
    std::string start_name = start; uint64_t start_iter = 0;
    { size_t c = start.find(':'); if(c != std::string::npos) { start_name = start.substr(0, c); start_iter = strtoull(start.c_str() + c + 1, nullptr, 10); } }
    bool started = start.empty();
    for(auto &sc : s.scenarios)
    {
        if(!only.empty() && only_name != sc.name) continue;
        uint64_t first = 0;
        if(!started) { if(start_name != sc.name) continue; started = true; first = start_iter; }
        snprintf(s.pr->scenario, sizeof(s.pr->scenario), "%s", sc.name);
        if(only_iter != ~0ull) { run_case(sc, only_iter); s.evals_per[sc.name] = s.evals; continue; }
        uint64_t e0 = s.evals;
        uint64_t n = uint64_t(double(s.thorough ? sc.thorough : sc.quick) * scale); if(n < 1) n = 1; if(n > sc.thorough && !s.thorough) n = sc.thorough > sc.quick ? sc.thorough : sc.quick; // complete scenarios do not grow
        struct timeval t0, t1; gettimeofday(&t0, nullptr);
        for(uint64_t i = first; i < n; ++i) if(i % nshards == shard) run_case(sc, i);
        gettimeofday(&t1, nullptr);
        s.evals_per[sc.name] = s.evals - e0;
        if(s.verbose) fprintf(stderr, "%-32s cases=%llu evals=%llu %.2fs\n", sc.name, (unsigned long long)n, (unsigned long long)(s.evals - e0), double(t1.tv_sec - t0.tv_sec) + 1e-6 * double(t1.tv_usec - t0.tv_usec));
    }
    if(!sigfile.empty())
    {
        FILE *f = fopen(sigfile.c_str(), "wb");
        if(f) { for(uint64_t v : s.sigs) fwrite(&v, 8, 1, f); fclose(f); }
    }
    auto jesc = [](std::string const& v){ std::string r; char b[8]; for(unsigned char c : v) { if(c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if(c < 32 || c > 126) { snprintf(b, sizeof(b), "\\u%04x", c); r += b; } else r += (char)c; } return r; };
    printf("HXSUMMARY {\"evaluations\":%llu,\"distinct\":%llu,\"rule\":\"%s\",\"counters\":{", (unsigned long long)s.evals, (unsigned long long)s.sigs.size(), jesc(s.rule).c_str());
    bool c = false; for(auto &k : s.counters) { printf("%s\"%s\":%llu", c ? "," : "", jesc(k.first).c_str(), (unsigned long long)k.second); c = true; }
    printf("},\"per_scenario\":{"); c = false;
    for(auto &k : s.evals_per) { printf("%s\"%s\":%llu", c ? "," : "", jesc(k.first).c_str(), (unsigned long long)k.second); c = true; }
    printf("},\"samples\":["); c = false;
    for(auto &k : s.samples) { printf("%s\"%s\"", c ? "," : "", jesc(k).c_str()); c = true; }
    printf("],\"fails\":{"); c = false;
    for(auto &k : s.fails) { printf("%s\"%s\":%llu", c ? "," : "", jesc(k.first).c_str(), (unsigned long long)k.second.first); c = true; }
    printf("}}\n"); fflush(stdout);
    if(s.jumped) _exit(3); // skip the leak checker: unwinding was cut short
    return s.fails.empty() ? 0 : 3;
}

struct Reg { Reg(const char *n, void (*f)(Rng&, uint64_t), uint64_t q, uint64_t t) { st().scenarios.push_back(Scenario{n, f, q, t}); } };
} // namespace hx

#define SCENARIO(name, quickN, thoroughN) \
    static void sc_##name(::hx::Rng &r, uint64_t it); \
    static ::hx::Reg reg_##name(#name, sc_##name, quickN, thoroughN); \
    static void sc_##name(::hx::Rng &r, uint64_t it)
#define SC_UNUSED() (void)r; (void)it

#endif

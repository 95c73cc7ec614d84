// C05: reals round-trip, equal the C rendering, and parse correctly rounded
#include "ref.hpp"
#include <cmath>
#include <cerrno>
#include <cfenv>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4;
using hx::Exact;

template<class T> struct R;
template<> struct R<float>
{
    using U = uint32_t; static float strto(const char *s, char **e) { return strtof(s, e); }
    static size_t toa(substr b, float v, int p, RealFormat_e f) { return ftoa(b, v, p, f); }
    static size_t toa(substr b, float v) { return ftoa(b, v); }
    static bool ato(csubstr s, float *v) { return atof(s, v); }
    enum { maxprec = 9, mant = 23, hexdigits = 6, minexp = -126, maxexp = 127 };
};
template<> struct R<double>
{
    using U = uint64_t; static double strto(const char *s, char **e) { return strtod(s, e); }
    static size_t toa(substr b, double v, int p, RealFormat_e f) { return dtoa(b, v, p, f); }
    static size_t toa(substr b, double v) { return dtoa(b, v); }
    static bool ato(csubstr s, double *v) { return atod(s, v); }
    enum { maxprec = 17, mant = 52, hexdigits = 13, minexp = -1022, maxexp = 1023 };
};
template<class T> static bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || memcmp(&a, &b, sizeof(T)) == 0; }
template<class T> static T rnd(hx::Rng &r)
{
    using U = typename R<T>::U; U b; T v;
    switch(r.below(8))
    {
    case 0: b = (U)r.u64(); break;
    case 1: v = (T)(int64_t)r.interesting(); return v;
    case 2: v = (T)((double)(int64_t)(r.interesting() >> r.below(60)) / (double)(r.coin() ? 1000 : 8)); return v;
    case 3: b = (U)r.below(1000); break; // subnormal
    case 4: { U e = (U)r.below((size_t)1 << (sizeof(T) * 8 - 1 - R<T>::mant)); b = (U)(e << R<T>::mant) + (U)r.below(5) - 2; break; } // powers of two and neighbours
    case 5: { T p = 1; size_t n = r.below(sizeof(T) == 4 ? 38 : 300); for(size_t i = 0; i < n; ++i) p = r.coin() && i > 20 ? p * 10 : p * 10; v = r.coin() ? p : 1 / p; memcpy(&b, &v, sizeof(b)); b = (U)(b + r.below(3) - 1); break; }
    case 6: b = (U)r.u64() & (U)(((U)1 << R<T>::mant) - 1); b |= (U)(((U)1 << (sizeof(T) * 8 - 2 - R<T>::mant)) - 1 + r.below(20)) << R<T>::mant; break; // around 1..2^20
    default: b = (U)r.u64(); b &= ~(U)0 << r.below(R<T>::mant); break; // few mantissa bits
    }
    memcpy(&v, &b, sizeof(v));
    return v;
}
template<class T> static std::string wr(T v, int prec, RealFormat_e f)
{
    Exact b(1500); size_t n = R<T>::toa(substr(b.p, b.n), v, prec, f);
    HX_CHECK(n <= b.n, "ample", "does not fit"); return b.str(n);
}
template<class T> static void back(const char *key, std::string const& t, T v)
{
    Exact e(t); csubstr s(e.p, e.n); T w = T(42.5);
    hx::note("%s %s %.17g text=%s", key, ref::tname<T>(), (double)v, t.c_str());
    bool ok = R<T>::ato(s, &w);
    HX_CHECK(ok && same(v, w), key, "%s %.17g written as %s reads back as ok=%d %.17g", ref::tname<T>(), (double)v, t.c_str(), ok, (double)w);
    w = T(42.5); ok = from_chars(s, &w);
    HX_CHECK(ok && same(v, w), key, "%s from_chars(%s) ok=%d %.17g", ref::tname<T>(), t.c_str(), ok, (double)w);
    w = T(42.5); ok = atox(s, &w);
    HX_CHECK(ok && same(v, w), key, "%s atox(%s) ok=%d %.17g", ref::tname<T>(), t.c_str(), ok, (double)w);
}
template<class T> static void write_case(hx::Rng &r)
{
    T v = rnd<T>(r);
    char buf[2048];
    if(std::isnan(v)) { std::string t = wr(v, -1, FTOA_FLEX); T w = 0; Exact e(t); HX_CHECK(R<T>::ato(csubstr(e.p, e.n), &w) && std::isnan(w), "nan", "nan written as %s", t.c_str()); return; }
    // enough significant digits: identical
    back("roundtrip-flex", wr(v, R<T>::maxprec, FTOA_FLEX), v);
    back("roundtrip-scient", wr(v, R<T>::maxprec - 1, FTOA_SCIENT), v);
    if(!std::isinf(v)) back("roundtrip-hexa", wr(v, -1, FTOA_HEXA), v);
#if C4CORE_HAVE_STD_TOCHARS
    {   Exact b(400); size_t n = to_chars(substr(b.p, b.n), v); HX_CHECK(n <= 400, "ample", "default"); std::string t = b.str(n);
        back("roundtrip-default", t, v);
        Exact b2(400); n = xtoa(substr(b2.p, b2.n), v); HX_CHECK(b2.str(n) == t, "xtoa", "xtoa %s vs %s", b2.str(n).c_str(), t.c_str());
        Exact b3(400); n = R<T>::toa(substr(b3.p, b3.n), v); HX_CHECK(b3.str(n) == t, "ftoa-default", "%s vs %s", b3.str(n).c_str(), t.c_str());
        }
    back("roundtrip-fixed", wr(v, -1, FTOA_FLOAT), v);
    back("roundtrip-scient-default", wr(v, -1, FTOA_SCIENT), v);
#else
    {   Exact b(400); size_t n = to_chars(substr(b.p, b.n), v); snprintf(buf, sizeof(buf), "%g", (double)v); HX_CHECK(n <= 400 && b.str(n) == buf, "default", "%s vs C: %s", b.str(n).c_str(), buf);
        Exact b2(400); n = xtoa(substr(b2.p, b2.n), v); HX_CHECK(n <= 400 && b2.str(n) == buf, "xtoa", "xtoa %s vs C: %s", b2.str(n).c_str(), buf);
        Exact b3(400); n = R<T>::toa(substr(b3.p, b3.n), v); HX_CHECK(n <= 400 && b3.str(n) == buf, "ftoa-default", "%s vs C: %s", b3.str(n).c_str(), buf);
        std::string t = wr(v, -1, FTOA_FLOAT); snprintf(buf, sizeof(buf), "%f", (double)v); HX_CHECK(t == buf, "default-fixed", "%s vs C: %s", t.c_str(), buf);
        t = wr(v, -1, FTOA_SCIENT); snprintf(buf, sizeof(buf), "%e", (double)v); HX_CHECK(t == buf, "default-scient", "%s vs C: %s", t.c_str(), buf); }
#endif
    // requested precision: the C rendering
    int prec = (int)r.below(r.chance(1, 10) ? 60 : 20);
    struct { RealFormat_e f; const char *pf; const char *k; } fs[] = {{FTOA_FLOAT, "%.*f", "fixed"}, {FTOA_SCIENT, "%.*e", "scient"}, {FTOA_FLEX, "%.*g", "flex"}};
    for(auto &f : fs)
    {
        hx::note("%s %s %.17g prec=%d", f.k, ref::tname<T>(), (double)v, prec);
        std::string t = wr(v, prec, f.f);
        snprintf(buf, sizeof(buf), f.pf, prec, (double)v);
        HX_CHECK(t == buf, f.k, "%s %.17g precision %d: %s, C library: %s", ref::tname<T>(), (double)v, prec, t.c_str(), buf);
        Exact b(1500); size_t n = to_chars(substr(b.p, b.n), fmt::real(v, prec, f.f));
        HX_CHECK(b.str(n) == buf, "fmt-real", "fmt::real %s vs %s", b.str(n).c_str(), buf);
    }
    // hexadecimal: the C library reads the same value, and the same text for normal numbers
    {
        std::string t = wr(v, -1, FTOA_HEXA); char *e = nullptr; T w = R<T>::strto(t.c_str(), &e);
        HX_CHECK(e == t.c_str() + t.size() && same(v, w), "hexa", "%s %.17g written as %s, which C reads as %.17g", ref::tname<T>(), (double)v, t.c_str(), (double)w);
        if(std::isnormal(v)) { snprintf(buf, sizeof(buf), "%a", (double)v); HX_CHECK(t == buf, "hexa-text", "%s vs C: %s", t.c_str(), buf);
            int hp = (int)r.below(8); t = wr(v, hp, FTOA_HEXA); snprintf(buf, sizeof(buf), "%.*a", hp, (double)v); T x = R<T>::strto(t.c_str(), &e), y = R<T>::strto(buf, nullptr);
            HX_CHECK(*e == 0 && same(x, y), "hexa-prec", "%.17g %s vs C: %s", (double)v, t.c_str(), buf); }
    }
    // the format wrapper writes what the writer of its type writes, for the default precision too
    for(RealFormat_e f : {FTOA_FLOAT, FTOA_SCIENT, FTOA_FLEX, FTOA_HEXA}) for(int q : {-1, prec})
    {   std::string t = wr(v, q, f); Exact b(1500); size_t n = to_chars(substr(b.p, b.n), fmt::real(v, q, f)); HX_CHECK(n <= 1500 && b.str(n) == t, "fmt-real", "fmt::real(%s %.17g, %d, %c) %s vs %s", ref::tname<T>(), (double)v, q, (char)f, b.str(n).c_str(), t.c_str()); }
    {   std::string t = wr(v, prec, FTOA_FLOAT), t1 = wr(v, -1, FTOA_FLOAT); Exact b(1500); size_t n = to_chars(substr(b.p, b.n), fmt::real(v, prec)); HX_CHECK(n <= 1500 && b.str(n) == t, "fmt-real", "fmt::real default format: %s vs %s", b.str(n).c_str(), t.c_str());
        n = to_chars(substr(b.p, b.n), fmt::real_<T>(v)); HX_CHECK(n <= 1500 && b.str(n) == t1, "fmt-real", "fmt::real_ defaults: %s vs %s", b.str(n).c_str(), t1.c_str()); }
    int ex; std::frexp((double)v, &ex);
    hx::seen((uint64_t)(int64_t)ex, (uint64_t)prec, std::signbit(v), (uint64_t)std::fpclassify(v));
    hx::sample(hx::fmt("%s %.17g", ref::tname<T>(), (double)v));
}
SCENARIO(write_double, 5000, 300000) { (void)it; write_case<double>(r); }
SCENARIO(write_float, 5000, 300000) { (void)it; write_case<float>(r); }

// decimal text of all shapes; the C library is the (correctly rounding) oracle
template<class T> static std::string halfway(hx::Rng &r)
{
    T v; do { v = rnd<T>(r); } while(!std::isfinite(v));
    long double a = (long double)v, b = (long double)std::nextafter(v, std::numeric_limits<T>::infinity());
    long double m = std::isfinite((T)b) ? a + (b - a) / 2 : a;
    static char buf[6000];
    int p = r.coin() ? 800 : (int)r.in(15, 40);
    if(std::fabs(m) < 1e18L && std::fabs(m) > 1e-10L && r.coin()) snprintf(buf, sizeof(buf), "%.*Lf", p, m); else snprintf(buf, sizeof(buf), "%.*Le", p, m);
    std::string t = buf;
    if(r.chance(1, 2)) { // tip it over
        size_t e = t.find('e'); if(e == std::string::npos) e = t.size();
        if(r.coin()) t.insert(e, "1"); else { size_t i = e; while(i > 0 && (t[i - 1] == '0' || t[i - 1] == '.')) --i; if(i > 0 && t[i - 1] >= '1' && t[i - 1] <= '9') t[i - 1]--; } }
    return t;
}
static std::string dectext(hx::Rng &r)
{
    std::string t = r.chance(1, 3) ? "-" : "";
    auto dg = [&](size_t n){ std::string s; for(size_t i = 0; i < n; ++i) s += (char)('0' + r.below(10)); return s; };
    if(r.chance(1, 5)) t += std::string(r.below(30), '0');
    switch(r.below(4)) {
    case 0: t += dg(r.in(1, 30)); break;
    case 1: t += dg(r.in(1, 22)) + "." + dg(r.in(1, 30)); break;
    case 2: t += dg(1) + "." + dg(r.in(1, 25)); break;
    default: t += dg(r.in(1, 3)) + "." + std::string(r.below(20), '0') + dg(r.in(1, 20)); break; }
    size_t dot = t.find('.');
    if(dot != std::string::npos && r.chance(1, 12)) { if(r.coin()) t.resize(dot + 1); else { size_t b = t[0] == '-'; t.erase(b, dot - b); } } // 5. and .5
    if(r.coin()) { t += r.coin() ? "e" : "E"; size_t k = r.below(3); t += k == 0 ? "" : k == 1 ? "+" : "-"; t += std::to_string(r.chance(1, 4) ? r.below(400) : r.below(30)); }
    return t;
}
template<class T> static void parse_dec(std::string const& t)
{
    Exact e(t); csubstr s(e.p, e.n);
    hx::note("parse %s %s", ref::tname<T>(), hx::esc(t).c_str());
    char *end = nullptr; errno = 0; T x = R<T>::strto(t.c_str(), &end); int er = errno;
    if(end != t.c_str() + t.size()) { hx::fail("oracle", "generator made %s", t.c_str()); return; }
    T v = T(42.5); bool ok = R<T>::ato(s, &v);
    hx::ev();
    if(er == ERANGE && !std::isinf(x) && x != 0) er = 0; // a subnormal result: in range
    if(er == ERANGE) // out of range: may be refused, but if it is accepted the value is the limit one
    {
        hx::count("out-of-range");
        if(ok && !same(v, x)) hx::fail("out-of-range", "%s %s accepted as %.17g, C library: %.17g", ref::tname<T>(), t.c_str(), (double)v, (double)x);
    }
    else
    {
        if(!ok || !same(v, x)) hx::fail("rounding", "%s parsing %s: ok=%d %.17g, correctly rounded: %.17g", ref::tname<T>(), t.c_str(), ok, (double)v, (double)x);
        int ex; std::frexp((double)x, &ex); hx::seen((uint64_t)(int64_t)ex, t.size(), std::signbit(x));
    }
    hx::sample(hx::esc(t));
}
SCENARIO(parse_halfway_double, 4000, 200000) { (void)it; parse_dec<double>(halfway<double>(r)); }
SCENARIO(parse_halfway_float, 4000, 200000) { (void)it; parse_dec<float>(halfway<float>(r)); }
// decimal texts picked to reach every branch of a decimal-to-binary conversion: short exact ties, the exact
// decimal expansion of points half way between two neighbours (up to ~1100 digits) tipped up or down by a digit
// at any distance, the neighbourhoods of zero, of the smallest normal and of the largest value, long runs of
// zeros before or after the point compensated by the exponent, and carries through long runs of nines
static std::string respell(hx::Rng &r, std::string const& digits, long e10) // digits * 10^e10, spelled in some way
{
    std::string d = digits, t; long e = e10;
    if(r.chance(1, 3)) { size_t z = r.below(r.chance(1, 4) ? 900 : 30); d += std::string(z, '0'); e -= (long)z; }
    size_t lz = r.chance(1, 3) ? r.below(r.chance(1, 4) ? 900 : 30) : 0;
    switch(r.below(4)) {
    case 0: t = std::string(lz, '0') + d; break; // an integer
    case 1: { size_t p = r.below(d.size()) + 1; t = std::string(lz, '0') + d.substr(0, p); std::string f = d.substr(p); t += "." + (f.empty() ? "0" : f); e += (long)f.size(); break; }
    case 2: t = "0." + std::string(lz, '0') + d; e += (long)(lz + d.size()); break;
    default: { size_t p = 1; t = d.substr(0, p); std::string f = d.substr(p); if(!f.empty()) t += "." + f; e += (long)f.size(); break; } }
    if(e != 0 && r.chance(1, 6)) { // no exponent at all, when that is short enough
        if(t.find('.') == std::string::npos && e > 0 && e < 400) { t += std::string((size_t)e, '0'); e = 0; }
        else if(e < 0 && e > -1200) { std::string w = std::string((size_t)-e + d.size(), '0') + d; (void)w; if(t.find('.') == std::string::npos) { std::string full = t.size() > (size_t)-e ? t : std::string((size_t)-e + 1 - t.size(), '0') + t; t = full.substr(0, full.size() - (size_t)-e) + "." + full.substr(full.size() - (size_t)-e); e = 0; } } }
    if(e != 0 || r.chance(1, 5)) { t += r.coin() ? "e" : "E"; if(e >= 0 && r.coin()) t += "+"; if(e < 0) t += "-"; if(r.chance(1, 6)) t += std::string(r.below(6), '0'); t += std::to_string(e < 0 ? -e : e); }
    return (r.chance(1, 3) ? "-" : "") + t;
}
// exact decimal expansion of |m| (finite, not zero): digits * 10^e10, without trailing zeros
static void expand(long double m, std::string *digits, long *e10)
{
    static char buf[6000]; snprintf(buf, sizeof(buf), "%.1200Le", m < 0 ? -m : m);
    std::string t = buf; size_t e = t.find('e'); long x = atol(t.c_str() + e + 1);
    std::string d = t.substr(0, 1) + t.substr(2, e - 2); x -= (long)d.size() - 1;
    while(d.size() > 1 && d.back() == '0') { d.pop_back(); ++x; }
    *digits = d; *e10 = x;
}
static void tip(hx::Rng &r, std::string *d, long *e)
{
    size_t k = r.below(4), far = r.chance(1, 3) ? r.below(1200) : r.below(25);
    if(k == 0) return; // the exact point
    if(k == 1) { d->append(far, '0'); *d += (char)('1' + r.below(9)); *e -= (long)far + 1; } // a little above
    else if(k == 2) { if(d->back() > '0') { d->back()--; d->append(far, '9'); *d += (char)('0' + r.below(10)); *e -= (long)far + 1; if((*d)[0] == '0' && d->size() > 1) d->erase(0, 1); } } // a little below
    else { size_t keep = r.below(d->size()) + 1; *e += (long)(d->size() - keep); d->resize(keep); } // cut short
}
template<class T> static std::string hard(hx::Rng &r)
{
    using U = typename R<T>::U; std::string d; long e = 0;
    switch(r.below(7)) {
    case 0: case 1: { // the exact point between two neighbours, or a value itself
        U b; T v, w;
        switch(r.below(4)) {
        case 0: b = (U)r.below(r.coin() ? 4 : 5000); break; // zero and the smallest subnormals
        case 1: b = ((U)1 << R<T>::mant) + (U)r.below(9) - 5; break; // the smallest normal
        case 2: { T mx = std::numeric_limits<T>::max(); memcpy(&b, &mx, sizeof(b)); b -= (U)r.below(3); break; }
        default: v = rnd<T>(r); memcpy(&b, &v, sizeof(b)); b &= ~(U)0 >> 1; break; }
        memcpy(&v, &b, sizeof(v)); if(!std::isfinite(v)) v = std::numeric_limits<T>::max();
        w = std::nextafter(v, std::numeric_limits<T>::infinity());
        long double lw = std::isfinite(w) ? (long double)w : std::ldexp((long double)1, R<T>::maxexp + 1), m = r.chance(1, 6) ? (long double)v : (long double)v + (lw - (long double)v) / 2;
        if(m == 0) m = (long double)w;
        expand(m, &d, &e); tip(r, &d, &e); break; }
    case 2: case 3: { // short exact ties: an integer of mantissa+2 .. 64 bits, ending in a half, times or over a power of five
        unsigned bits = (unsigned)r.in(R<T>::mant + 2, 64); uint64_t m = (r.u64() | ((uint64_t)1 << 63)) >> (64 - bits); unsigned drop = bits - (R<T>::mant + 1);
        m &= ~(((uint64_t)1 << drop) - 1); m |= (uint64_t)1 << (drop - 1);
        long q = 0;
        unsigned t5 = 0; while(r.chance(2, 3) && t5 < 27) { ++t5; } // make it divisible by 5^t5 when that still leaves a tie
        uint64_t p5 = 1; for(unsigned i = 0; i < t5; ++i) p5 *= 5;
        if(r.coin()) { // m = a * 5^t5: then m = a * 10^t5 / 2^t5
            uint64_t a = m / p5; if(a > 0) { // look for a tie nearby
                for(int i = 0; i < 40; ++i) { uint64_t y = a * p5; unsigned nb = 0; for(uint64_t z = y; z; z >>= 1) ++nb; unsigned tz = 0; while(y && !((y >> tz) & 1)) ++tz; if(nb - tz == (unsigned)R<T>::mant + 2) break; ++a; }
                m = a; q = (long)t5; } }
        else q = -(long)r.below(20) + (long)r.below(12); 
        d = std::to_string(m); e = q; if(r.chance(1, 8)) tip(r, &d, &e); break; }
    case 4: { // few digits, any exponent, far beyond the range on both sides too
        d = std::to_string(r.u64() >> r.below(63)); e = (long)r.below(sizeof(T) == 4 ? 140 : 720) - (sizeof(T) == 4 ? 80 : 380); if(r.chance(1, 20)) e *= (long)r.in(1, 1000); break; }
    case 5: { // around the smallest and the largest, decimal
        static const char *edge[] = {"49406564584124654", "24703282292062327", "24703282292062328", "22250738585072011", "22250738585072014", "17976931348623157", "17976931348623158", "17976931348623159", "14012984643248171", "70064923216240853", "70064923216240854", "11754943508222875", "34028234663852886", "34028235677973366", "34028235677973365", "1", "2", "3"};
        static const long ex[] = {-324, -324, -324, -308, -308, 308, 308, 308, -45, -46, -46, -38, 38, 38, 38, 308, -323, 38};
        size_t i = r.below(18); d = edge[i]; e = ex[i] - (long)d.size() + 1; if(r.coin()) tip(r, &d, &e); if(r.chance(1, 10)) e += (long)r.below(3) - 1; break; }
    default: { // long runs of one digit: carries
        d = std::string(1, (char)('1' + r.below(9))) + std::string(r.below(r.coin() ? 25 : 1000), r.coin() ? '9' : r.coin() ? '0' : '5') + (char)('0' + r.below(10)) + (r.coin() ? "" : std::string(r.below(30), (char)('0' + r.below(10))));
        e = (long)r.below(sizeof(T) == 4 ? 90 : 640) - (sizeof(T) == 4 ? 50 : 330) - (r.coin() ? (long)d.size() : 0); break; } }
    return respell(r, d, e);
}
SCENARIO(parse_hard_double, 12000, 600000) { (void)it; parse_dec<double>(hard<double>(r)); }
SCENARIO(parse_hard_float, 12000, 600000) { (void)it; parse_dec<float>(hard<float>(r)); }
#ifndef C4CORE_NO_FAST_FLOAT
// the nearest value whatever the rounding mode of the calling thread
template<class T> static void parse_mode(hx::Rng &r, std::string const& t)
{
    static const int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    Exact e(t); csubstr s(e.p, e.n); char *end = nullptr; errno = 0; T x = R<T>::strto(t.c_str(), &end);
    if(errno == ERANGE && (std::isinf(x) || x == 0)) return;
    int m = r.pick(modes);
    hx::note("parse (rounding mode %d) %s %s", m, ref::tname<T>(), hx::esc(t).c_str());
    T v = T(42.5); std::fesetround(m); bool ok = R<T>::ato(s, &v); std::fesetround(FE_TONEAREST);
    HX_CHECK(ok && same(v, x), "rounding-mode", "%s parsing %s in rounding mode %d: ok=%d %.17g, nearest: %.17g", ref::tname<T>(), t.c_str(), m, ok, (double)v, (double)x);
}
// few digits times a small power of ten: the results which one multiplication may or may not give exactly
static std::string clinger(hx::Rng &r)
{
    uint64_t m = r.chance(1, 12) ? 0 : r.u64() >> r.below(64); long e = (long)r.below(50) - 25;
    return r.coin() ? respell(r, std::to_string(m), e) : (r.chance(1, 3) ? "-" : "") + std::to_string(m) + "e" + std::to_string(e);
}
SCENARIO(parse_small_powers, 8000, 400000) { (void)it; std::string t = clinger(r); parse_dec<double>(t); parse_dec<float>(t); }
SCENARIO(parse_rounding_mode, 6000, 300000) { (void)it; if(r.coin()) { std::string c = clinger(r); parse_mode<double>(r, c); parse_mode<float>(r, c); return; } std::string t = r.coin() ? dectext(r) : hard<double>(r); parse_mode<double>(r, t); t = r.coin() ? dectext(r) : hard<float>(r); parse_mode<float>(r, t); }
#endif
SCENARIO(parse_text, 25000, 1500000) { (void)it; std::string t = dectext(r); parse_dec<double>(t); parse_dec<float>(t); }
// hexadecimal text whose value is exactly representable
template<class T> static void parse_hex(hx::Rng &r)
{
    auto hd = [&](size_t n){ std::string s; for(size_t i = 0; i < n; ++i) s += (r.coin() ? "0123456789abcdef" : "0123456789ABCDEF")[r.below(16)]; return s; };
    size_t total = r.in(1, R<T>::hexdigits), ip = r.in(1, total);
    std::string t = std::string(r.chance(1, 3) ? "-" : "") + (r.coin() ? "0x" : "0X") + hd(ip);
    if(r.coin()) t += "." + hd(total - ip);
    if(r.coin()) { int ex = (int)r.below(2 * (r.coin() ? 8 : R<T>::maxexp) - 60 * (sizeof(T) == 8)) - (r.coin() ? 8 : R<T>::maxexp - 60); t += r.coin() ? "p" : "P"; if(ex >= 0 && r.coin()) t += "+"; t += std::to_string(ex); }
    Exact e(t); csubstr s(e.p, e.n);
    hx::note("parse hex %s %s", ref::tname<T>(), t.c_str());
    char *end = nullptr; errno = 0; T x = R<T>::strto(t.c_str(), &end);
    if(errno == ERANGE || *end) { hx::count("hex-out-of-range"); return; }
    if(x != 0 && !std::isnormal(x)) return;
    T v = (T)(int)r.below(3); bool ok = R<T>::ato(s, &v);
    HX_CHECK(ok && same(v, x), "hex", "%s parsing %s: ok=%d %.17g, C library: %.17g", ref::tname<T>(), t.c_str(), ok, (double)v, (double)x);
    hx::seen(t.size(), ip, hx::hbytes(t.data(), std::min<size_t>(t.size(), 5)));
    hx::sample(t);
}
SCENARIO(parse_hex, 20000, 800000) { (void)it; parse_hex<double>(r); parse_hex<float>(r); }
// the same values spelled with many zeros, which the exponent makes up for; and exponents far beyond the range
template<class T> static void parse_hex_far(hx::Rng &r)
{
    std::string m; m += "123456789abcdef"[r.below(15)]; for(size_t i = r.below((size_t)R<T>::hexdigits); i > 0; --i) m += "0123456789abcdefABCDEF"[r.below(22)];
    std::string t = r.chance(1, 3) ? "-0x" : "0x"; long ex = (long)r.below(200) - 100; size_t z = r.chance(1, 8) ? r.below(5000) : r.below(r.coin() ? 400 : 40);
    if(r.chance(1, 4)) t += std::string(r.below(300), '0');
    switch(r.below(3)) {
    case 0: t += m + std::string(z, '0'); ex -= 4 * (long)z; if(r.coin()) t += "." + std::string(r.below(60), '0'); break;
    case 1: t += (r.coin() ? "0." : ".") + std::string(z, '0') + m + std::string(r.below(60), '0'); ex += 4 * (long)(z + m.size()); break;
    default: { size_t k = r.below(m.size() + 1); t += m.substr(0, k) + std::string(k == m.size() ? z : 0, '0') + "." + m.substr(k); if(k == m.size()) ex -= 4 * (long)z; } }
    bool far = r.chance(1, 6); std::string es = std::to_string(ex); if(far) { static const char *fx[] = {"2147483647", "2147483648", "4294967296", "4294967297", "-2147483649", "-4294967300", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "18446744073709551620", "-18446744073709551620", "100000000000000000000000000", "-99999999999999999999999"}; es = r.pick(fx); }
    t += r.coin() ? "p" : "P"; bool sign = es[0] == '-'; if(!sign && r.coin()) { t += "+"; sign = true; } t += es;
    Exact e(t); csubstr s(e.p, e.n); hx::note("parse hex %s %s", ref::tname<T>(), t.c_str());
    char *end = nullptr; errno = 0; T x = R<T>::strto(t.c_str(), &end); if(*end) return;
    if(errno == ERANGE && !far) return;
    if(x != 0 && !std::isnormal(x) && !far) return;
    T v = (T)5; bool ok = R<T>::ato(s, &v);
    HX_CHECK(far ? !ok || same(v, x) : ok && same(v, x), far ? "hex-far" : "hex-zeros", "%s parsing %s: ok=%d %.17g, C library: %.17g", ref::tname<T>(), t.c_str(), ok, (double)v, (double)x);
    if(!sign) return; // the extraction of a token requires it
    v = (T)5; size_t n = from_chars_first(s, &v); HX_CHECK(far ? n == csubstr::npos || same(v, x) : n == s.len && same(v, x), "hex-zeros-first", "%s reading %s: %zd %.17g, C library: %.17g", ref::tname<T>(), t.c_str(), (ssize_t)n, (double)v, (double)x);
    hx::seen(t.size(), far, hx::hbytes(t.data(), std::min<size_t>(t.size(), 5)));
}
SCENARIO(parse_hex_far, 20000, 800000) { (void)it; parse_hex_far<double>(r); parse_hex_far<float>(r); }
// infinities, NaNs, and texts which do not start with a number
SCENARIO(special, 4000, 100000)
{
    (void)it;
    static const char *inf[] = {"inf", "infinity", "-inf", "-infinity", "INF", "Infinity"};
    static const char *nan[] = {"nan", "NaN", "NAN", "-nan"};
    std::string t; double d = 3; float f = 3;
    size_t k = r.below(3);
    if(k == 0) { t = r.pick(inf); Exact e(t); csubstr s(e.p, e.n); HX_CHECK(atod(s, &d) && std::isinf(d) && std::signbit(d) == (t[0] == '-'), "inf", "%s", t.c_str()); HX_CHECK(atof(s, &f) && std::isinf(f) && std::signbit(f) == (t[0] == '-'), "inf", "%s", t.c_str()); }
    else if(k == 1) { t = r.pick(nan); Exact e(t); csubstr s(e.p, e.n); HX_CHECK(atod(s, &d) && std::isnan(d), "nan", "%s", t.c_str()); HX_CHECK(atof(s, &f) && std::isnan(f), "nan", "%s", t.c_str()); }
    else
    {
        t = r.bytes(1 + r.below(8)); static const std::string start = "abcdefghjklmopqrstuvwxyzABCDEFGHJKLMOPQRSTUVWXYZ_:/*#@!~\x80\xff";
        t[0] = start[r.below(start.size())];
        if(r.chance(1, 3)) t = "-" + t;
        if(r.chance(1, 4)) t = r.coin() ? "-" : ".";
        hx::note("reject %s", hx::esc(t).c_str());
        Exact e(t); csubstr s(e.p, e.n);
        HX_CHECK(!atod(s, &d), "accepts-garbage", "double accepts %s", hx::esc(t).c_str());
        HX_CHECK(!atof(s, &f), "accepts-garbage", "float accepts %s", hx::esc(t).c_str());
    }
    hx::seen(k, hx::hbytes(t.data(), t.size()));
}
// any bytes: never read outside the view, always terminate
SCENARIO(any_bytes, 20000, 800000)
{
    (void)it;
    static const char A[] = "0123456789.eE+-xXpPaAfFinINTtyY \0\n"; static const std::string al(A, sizeof(A) - 1);
    std::string t = r.chance(1, 4) ? r.bytes(r.in(1, 20)) : r.str(24, al);
    if(t.empty() || strchr(" \r\t\n", t[0])) return;
    if(r.chance(1, 3)) t = dectext(r).substr(0, r.in(1, 12));
    if(r.chance(1, 4)) { t = std::string(r.coin() ? "-" : "") + (r.coin() ? "0x" : "0X") + r.str(6, "0123456789abcdefABCDEF."); if(r.coin()) t += r.coin() ? "p" : "P"; if(r.coin()) t += r.coin() ? "+" : "-"; t += r.str(3, "0123 p."); }
    hx::note("any %s", hx::esc(t).c_str());
    Exact e(t); csubstr s(e.p, e.n); double d = 1; float f = 1;
    hx::ev(2); bool a = atod(s, &d), b = atof(s, &f); (void)b;
    hx::seen(a, t.size(), (uint64_t)(unsigned char)t[0], (uint64_t)(unsigned char)t[t.size() - 1]);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one real value written in every format and read back, or one text parsed in an exactly sized heap view and compared with the C library's correctly rounded result; distinct = (binary exponent, precision/length, sign, class) tuples"); }

// C04: overflow detection is exact
#include "ref.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4;
using hx::Exact;

template<class T> static void one(std::string const& text)
{
    Exact e(text); csubstr s(e.p, e.n);
    ref::IntText t = ref::parse(text, true);
    hx::note("type=%s text=%s", ref::tname<T>(), hx::esc(text).c_str());
    bool plus = !text.empty() && text[0] == '+';
    bool expo = t.ok && (!ref::fits<T>(t) || (t.neg && !std::is_signed<T>::value));
    bool o = overflows<T>(s); // must not read outside of the view, for any text
    if(t.ok)
    {
        HX_CHECK(o == expo, "overflows", "overflows<%s>(%s)=%d expected=%d", ref::tname<T>(), hx::esc(text).c_str(), o, expo);
        hx::seen(hx::hstr(ref::tname<T>()), t.radix + 1000 * t.neg, expo, text.size());
        hx::count(expo ? "overflowing" : "fitting");
    }
    else { hx::ev(); hx::count("not-a-number"); }
    if(plus && std::is_signed<T>::value) return; // documented precondition of the parser underneath
    T v = 11; bool ok = from_chars(s, fmt::overflow_checked(v));
    bool expok = t.ok && !expo;
    hx::ev();
    if(ok != expok) hx::fail("overflow_checked", "from_chars(overflow_checked<%s>)(%s) accepted=%d expected=%d", ref::tname<T>(), hx::esc(text).c_str(), ok, expok);
    else if(ok && v != ref::value<T>(t)) hx::fail("overflow_checked-value", "from_chars(overflow_checked<%s>)(%s)=%lld expected=%lld", ref::tname<T>(), hx::esc(text).c_str(), (long long)v, (long long)ref::value<T>(t));
    { T v2 = 12; auto wr = fmt::overflow_checked(v2); bool ok2 = from_chars(s, &wr); hx::ev(); if(ok2 != expok || (ok2 && v2 != ref::value<T>(t))) hx::fail("overflow_checked-pointer", "from_chars(overflow_checked<%s>*)(%s) accepted=%d expected=%d, value %lld", ref::tname<T>(), hx::esc(text).c_str(), ok2, expok, (long long)v2); }
    hx::sample(hx::fmt("%s %s -> overflows=%d", ref::tname<T>(), hx::esc(text).c_str(), o));
}
static void all(std::string const& t)
{
    one<int8_t>(t); one<uint8_t>(t); one<int16_t>(t); one<uint16_t>(t); one<int32_t>(t); one<uint32_t>(t); one<int64_t>(t); one<uint64_t>(t);
}
static std::string dig128(unsigned __int128 v, unsigned radix)
{
    std::string t; do { t += "0123456789abcdef"[(unsigned)(v % radix)]; v /= radix; } while(v); std::reverse(t.begin(), t.end()); return t;
}
SCENARIO(fuzz, 20000, 1000000) { (void)it; all(ref::itext_fuzz(r)); }
// complete around every limit of every type: limit-300..limit+300, in every radix, both signs, with and without leading zeros, both cases
SCENARIO(limits, 8 * 601, 8 * 601)
{
    (void)r;
    unsigned k = (unsigned)(it / 601); int d = (int)(it % 601) - 300;
    unsigned bits = 8u << (k / 2); unsigned __int128 lim = (unsigned __int128)1 << (bits - (k & 1));
    if(d < 0 && lim < (unsigned __int128)(-d)) return;
    unsigned __int128 v = lim + (unsigned __int128)(__int128)d;
    for(unsigned radix : {2u, 8u, 10u, 16u}) for(int neg = 0; neg < 2; ++neg) for(size_t z : {0u, 1u, 7u}) for(int up = 0; up < 2; ++up)
    {
        std::string p = ref::prefix(radix), g = dig128(v, radix);
        if(up) { for(char &c : p) if(c != '0') c = (char)(c - 32); for(char &c : g) if(c >= 'a') c = (char)(c - 32); }
        all((neg ? "-" : "") + p + std::string(z, '0') + g);
    }
}
// complete for 8 bits: every value -700..700
SCENARIO(small, 1401, 1401)
{
    (void)r; int v = (int)it - 700; unsigned m = (unsigned)(v < 0 ? -v : v);
    for(unsigned radix : {2u, 8u, 10u, 16u}) { std::string t = (v < 0 ? "-" : "") + std::string(ref::prefix(radix)) + ref::digits(m, radix); one<int8_t>(t); one<uint8_t>(t); one<int16_t>(t); one<uint16_t>(t); }
}
// leading-digit changes: each digit position of the limit perturbed
SCENARIO(perturb, 6000, 300000)
{
    (void)it;
    unsigned bits = 8u << r.below(4); unsigned __int128 lim = ((unsigned __int128)1 << (bits - r.below(2))) - r.below(2);
    unsigned radix = (unsigned[]){2, 8, 10, 16}[r.below(4)];
    std::string g = dig128(lim, radix);
    size_t n = r.below(3); for(size_t i = 0; i < n; ++i) g[r.below(g.size())] = "0123456789abcdef"[r.below(radix)];
    if(r.chance(1, 5)) g += "0123456789abcdef"[r.below(radix)];
    if(r.chance(1, 5)) g.erase(r.below(g.size()), 1);
    all((r.coin() ? "-" : "") + std::string(ref::prefix(radix)) + std::string(r.below(3), '0') + g);
}
SCENARIO(truncated, 1, 1)
{
    SC_UNUSED();
    for(const char *t : {"", "-", "0", "-0", "0x", "0X", "-0x", "0b", "-0b", "0o", "-0o", "0B", "0O", "-0B", "-0O", "00", "-00", "x", "--", "-x"}) all(t);
    csubstr nul; HX_CHECK(!overflows<int>(nul) && !overflows<unsigned>(nul), "null", "null view overflows");
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one integer text in an exactly sized heap view put to the overflow query and the overflow-checked reader of 8 types, compared with 128-bit arithmetic; distinct = (type, radix, sign, verdict, length) classes"); }

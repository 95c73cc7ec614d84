// reference oracles, written independently of the library
#ifndef REF_HPP
#define REF_HPP
#include "hx.hpp"
namespace ref {

// digits of the magnitude, most significant first
inline std::string digits(uint64_t m, unsigned radix)
{
    std::string s;
    do { unsigned d = unsigned(m % radix); s += "0123456789abcdef"[d]; m /= radix; } while(m);
    std::reverse(s.begin(), s.end());
    return s;
}
template<class T> uint64_t magnitude(T v, bool *neg)
{
    *neg = v < T(0);
    return *neg ? uint64_t(0) - uint64_t(int64_t(v)) : uint64_t(v);
}
inline const char* prefix(unsigned radix) { return radix == 16 ? "0x" : radix == 8 ? "0o" : radix == 2 ? "0b" : ""; }

// sign, prefix, zero padding up to num_digits, digits
template<class T> std::string itext(T v, unsigned radix, size_t num_digits = 0, bool pfx = true)
{
    bool neg; uint64_t m = magnitude(v, &neg);
    std::string d = digits(m, radix);
    if(d.size() < num_digits) d.insert(0, num_digits - d.size(), '0');
    return std::string(neg ? "-" : "") + (pfx ? prefix(radix) : "") + d;
}

struct IntText
{
    bool ok = false;      // is it an integer by the grammar?
    bool neg = false;
    unsigned radix = 10;
    bool big = false;     // magnitude >= 2^70
    unsigned __int128 mag = 0; // saturated magnitude
    uint64_t wrapped = 0; // magnitude mod 2^64
};
inline int dval(char c, unsigned radix)
{
    int v = (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : 99;
    return v < (int)radix ? v : -1;
}
// [-] dec+ | [-] 0[xX]hex+ | [-] 0[oO]oct+ | [-] 0[bB]bin+
inline IntText parse(std::string const& s, bool allow_minus = true)
{
    IntText r;
    size_t i = 0;
    if(i < s.size() && s[i] == '-') { if(!allow_minus) return r; r.neg = true; ++i; }
    if(i + 1 < s.size() && s[i] == '0')
    {
        char c = s[i + 1];
        if(c == 'x' || c == 'X') { r.radix = 16; i += 2; }
        else if(c == 'o' || c == 'O') { r.radix = 8; i += 2; }
        else if(c == 'b' || c == 'B') { r.radix = 2; i += 2; }
    }
    if(i >= s.size()) return r;
    for(; i < s.size(); ++i)
    {
        int d = dval(s[i], r.radix);
        if(d < 0) return r;
        r.wrapped = r.wrapped * r.radix + (uint64_t)d;
        if(!r.big) { r.mag = r.mag * r.radix + (unsigned)d; if(r.mag >> 70) r.big = true; }
    }
    r.ok = true;
    return r;
}
template<class T> bool fits(IntText const& t)
{
    if(t.big) return false;
    if(t.neg) return t.mag <= (std::is_signed<T>::value ? (unsigned __int128)1 << (8 * sizeof(T) - 1) : 0);
    return t.mag <= (unsigned __int128)std::numeric_limits<T>::max();
}
template<class T> T value(IntText const& t) { uint64_t m = t.wrapped; if(t.neg) m = uint64_t(0) - m; return (T)m; }

template<class T> const char* tname();
#define REF_TN(T) template<> inline const char* tname<T>() { return #T; }
REF_TN(int8_t) REF_TN(uint8_t) REF_TN(int16_t) REF_TN(uint16_t) REF_TN(int32_t) REF_TN(uint32_t) REF_TN(int64_t) REF_TN(uint64_t) REF_TN(long long) REF_TN(unsigned long long) REF_TN(float) REF_TN(double)
#undef REF_TN

// a value of T with interesting patterns
template<class T> T ivalue(hx::Rng &r)
{
    switch(r.below(6))
    {
    case 0: return std::numeric_limits<T>::min();
    case 1: return std::numeric_limits<T>::max();
    case 2: { T v = (T)r.interesting(); return T(0 - v); }
    case 3: { uint64_t k = r.below(20); return (T)((uint64_t)std::numeric_limits<T>::min() + (r.coin() ? k : 0 - k)); }
    default: return (T)r.interesting();
    }
}

// text likely to be, or to be almost, an integer
inline std::string itext_fuzz(hx::Rng &r)
{
    static const unsigned radixes[] = {2, 8, 10, 16};
    unsigned radix = r.pick(radixes);
    std::string d;
    switch(r.below(4))
    {
    case 0: d = digits(r.interesting(), radix); break;
    case 1: { size_t n = r.in(0, radix == 2 ? 70 : 25); for(size_t i = 0; i < n; ++i) d += "0123456789abcdef"[r.below(radix)]; break; }
    case 2: { // right at a limit of some type, +-1
        unsigned bits = 8u << r.below(4); unsigned __int128 v = (unsigned __int128)1 << (bits - r.below(2)); v += r.below(4); v -= 2;
        std::string t; do { t += "0123456789abcdef"[(unsigned)(v % radix)]; v /= radix; } while(v); std::reverse(t.begin(), t.end()); d = t; break; }
    default: d = digits(r.below(1000), radix); break;
    }
    if(r.chance(1, 3)) d.insert(0, r.below(4), '0');
    if(r.chance(1, 12)) d.insert(0, r.below(80), '0');
    if(r.coin()) for(char &c : d) if(c >= 'a' && r.coin()) c = (char)(c - 32);
    std::string p = prefix(radix);
    if(r.coin() && !p.empty()) p[1] = (char)(p[1] - 32);
    if(r.chance(1, 20)) p = "";
    std::string s = (r.chance(1, 3) ? "-" : "") + p + d;
    if(r.chance(1, 4)) // damage
    {
        static const char junk_[] = "0123456789abcdefABCDEFgGxXoObB-+ .,:/@`\t\n\0\x80\xff_"; static const std::string junk(junk_, sizeof(junk_) - 1);
        switch(r.below(5))
        {
        case 0: if(!s.empty()) s[r.below(s.size())] = junk[r.below(junk.size())]; break;
        case 1: s.insert(r.below(s.size() + 1), 1, junk[r.below(junk.size())]); break;
        case 2: if(!s.empty()) s.erase(r.below(s.size()), 1); break;
        case 3: s = s.substr(0, r.below(s.size() + 1)); break;
        default: s = r.str(6, junk); break;
        }
    }
    return s;
}
} // namespace ref
#endif

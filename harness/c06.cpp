// C06: extracting a leading value reports exactly what was consumed
#include "ref.hpp"
#include <cmath>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/std/string.hpp>
using namespace c4;
using hx::Exact;

// ---- the oracle: a token is the maximal run without delimiters after the leading blanks; it must match the grammar as a whole
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static bool delim(char c) { return blank(c) || c == ']' || c == ')' || c == '}' || c == ',' || c == ';' || c == '\0'; }
static size_t skip_blank(std::string const& s) { size_t i = 0; while(i < s.size() && blank(s[i])) ++i; return i; }
static std::string tok(std::string const& s) { size_t b = skip_blank(s), e = b; while(e < s.size() && !delim(s[e])) ++e; return s.substr(b, e - b); }
static std::string word(std::string const& s) { size_t b = skip_blank(s), e = b; while(e < s.size() && !blank(s[e])) ++e; return s.substr(b, e - b); }
static bool is_uint(std::string t) { if(!t.empty() && t[0] == '+') t.erase(0, 1); if(!t.empty() && t[0] == '-') return false; return ref::parse(t, false).ok; }
static bool is_int(std::string t) { if(!t.empty() && (t[0] == '+' || t[0] == '-')) t.erase(0, 1); return ref::parse(t, false).ok; }
static bool is_real(std::string t, unsigned *radix_ = nullptr)
{
    if(!t.empty() && (t[0] == '+' || t[0] == '-')) t.erase(0, 1);
    unsigned radix = 10; if(radix_) *radix_ = 10;
    if(t == "inf" || t == "infinity" || t == "nan") return true;
    if(t.size() >= 3 && t[0] == '0')
    {
        char c = t[1];
        if(c == 'x' || c == 'X') radix = 16; else if(c == 'b' || c == 'B') radix = 2; else if(c == 'o' || c == 'O') radix = 8;
        if(radix != 10) t.erase(0, 2);
    }
    if(radix_) *radix_ = radix;
    size_t i = 0, nd = 0;
    while(i < t.size() && ref::dval(t[i], radix) >= 0) { ++i; ++nd; }
    if(i < t.size() && t[i] == '.') { ++i; while(i < t.size() && ref::dval(t[i], radix) >= 0) { ++i; ++nd; } }
    if(nd == 0) return false;
    if(i == t.size()) return true;
    char p = t[i++];
    if(radix == 10 ? !(p == 'e' || p == 'E') : !(p == 'p' || p == 'P')) return false;
    if(i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; else if(radix != 10) return false;
    size_t b = i; while(i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
    return i > b && i == t.size();
}
// ---- texts
static std::string real_fuzz(hx::Rng &r)
{
    static const char *fixed[] = {"inf", "infinity", "nan", "-inf", "+inf", "-nan", "infinit", "infi", "na", "i", "n", "in", ".", "-.", "e", "1e", "1e+", ".e1", "1.e1", ".1e1", "0x.p+1", "0x1p", "0x1p+", "0x1p1", "0x1p+1", "0x.8p-1", "1.5.2", "1e1e1", "--1", "+-1", "0.", "-0.0", "00.5", "0e0", "0b1.1p+1", "0o7.7p-1", "0b2", "0o8", "0xg", "nano", "info"};
    if(r.chance(1, 4)) return r.pick(fixed);
    static const char *sg[] = {"", "", "-", "+"};
    static const unsigned rad[] = {10, 10, 10, 16, 2, 8};
    unsigned radix = r.pick(rad);
    std::string t = r.pick(sg); std::string pf = ref::prefix(radix); if(r.coin() && !pf.empty()) pf[1] = (char)(pf[1] - 32); t += pf;
    auto dg = [&](size_t n){ std::string s; for(size_t i = 0; i < n; ++i) { char c = "0123456789abcdef"[r.below(radix)]; if(c >= 'a' && r.coin()) c = (char)(c - 32); s += c; } return s; };
    size_t most = r.chance(1, 24) ? 300 : 5;
    t += dg(r.below(most)); if(r.coin()) t += "." + dg(r.below(most));
    if(r.coin()) { t += radix == 10 ? (r.coin() ? "e" : "E") : (r.coin() ? "p" : "P"); t += r.pick(sg); t += std::to_string(r.below(r.chance(1, 4) ? 200 : 20)); }
    if(r.chance(1, 8) && !t.empty()) t.erase(r.below(t.size()), 1);
    if(r.chance(1, 6)) t.resize(r.below(t.size() + 1));
    if(r.chance(1, 8)) t.insert(r.below(t.size() + 1), 1, "0123456789abcdefxXpPeE.+-gz"[r.below(27)]);
    return t;
}
static std::string text(hx::Rng &r, std::string const& token)
{
    static const std::string bl = " \n\r\t";
    std::string s; if(r.coin()) s = r.str(r.chance(1, 64) ? r.huge(300) : 4, bl);
    s += token;
    if(r.chance(3, 4)) {
        static const char d_[] = " \n\r\t])},;\0:=/.|'\"_-+[(\x80"; static const std::string d(d_, sizeof(d_) - 1);
        if(r.chance(5, 6)) s += d[r.below(r.chance(3, 4) ? 10 : d.size())];
        if(r.coin()) s += r.bytes(r.below(5)); else if(r.coin()) s += token;
        if(r.chance(1, 24)) { static const std::string vis = "abz,;01"; s += r.str(r.huge(300), vis); } } // a long rest, without blanks
    return s;
}
static void span(const char *key, std::string const& s, csubstr whole, csubstr got, bool ok, std::string const& t)
{
    std::string g(got.str, got.len); size_t b = skip_blank(s);
    hx::ev();
    if(!ok) { if(got.len != 0) hx::fail(key, "%s(%s) = %s, expected none", key, hx::esc(s).c_str(), hx::esc(g).c_str()); return; }
    if(g != t || got.str != whole.str + b) hx::fail(key, "%s(%s) = %s at %ld, expected %s at %zu", key, hx::esc(s).c_str(), hx::esc(g).c_str(), (long)(got.str - whole.str), hx::esc(t).c_str(), b);
}
static void spans_of(std::string const& s)
{
    Exact e(s); csubstr w(e.p, e.n); std::string t = tok(s);
    hx::note("spans %s", hx::esc(s).c_str());
    bool u = is_uint(t), i = is_int(t), f = is_real(t);
    span("first_uint_span", s, w, w.first_uint_span(), u, t);
    span("first_int_span", s, w, w.first_int_span(), i, t);
    span("first_real_span", s, w, w.first_real_span(), f, t);
    std::string ne = word(s); span("first_non_empty_span", s, w, w.first_non_empty_span(), !ne.empty(), ne);
    substr ws(e.p, e.n);
    span("first_int_span", s, w, ws.first_int_span(), i, t); span("first_real_span", s, w, ws.first_real_span(), f, t); span("first_uint_span", s, w, ws.first_uint_span(), u, t);
    bool whole = t.size() == s.size() && !s.empty();
    HX_CHECK(w.is_unsigned_integer() == (whole && u), "is_unsigned_integer", "%s -> %d", hx::esc(s).c_str(), w.is_unsigned_integer());
    HX_CHECK(w.is_integer() == (whole && (u || i)), "is_integer", "%s -> %d", hx::esc(s).c_str(), w.is_integer());
    HX_CHECK(w.is_real() == (whole && f), "is_real", "%s -> %d", hx::esc(s).c_str(), w.is_real());
    HX_CHECK(w.is_number() == (whole && (u || i || f)), "is_number", "%s -> %d", hx::esc(s).c_str(), w.is_number());
    hx::seen(u * 4 + i * 2 + f, skip_blank(s), t.size(), s.size() > t.size() ? (uint64_t)(unsigned char)s.back() : 300);
    hx::count(u ? "uint-token" : i ? "int-token" : f ? "real-token" : "no-token");
    hx::sample(hx::esc(s));
}
SCENARIO(spans_int, 15000, 600000) { (void)it; spans_of(text(r, (r.chance(1, 6) ? "+" : "") + ref::itext_fuzz(r))); }
SCENARIO(spans_real, 25000, 1000000) { (void)it; spans_of(text(r, real_fuzz(r))); }
SCENARIO(spans_any, 10000, 400000) { (void)it; static const char a_[] = "01279.eExXpPbo+-aAfinfyt ,;])}\n\0"; static const std::string a(a_, sizeof(a_) - 1); spans_of(r.str(12, a)); }

// all short texts over the critical characters, after each kind of prefix
SCENARIO(spans_short, 8 * 121, 8 * 1331)
{
    SC_UNUSED(); static const char *pf[] = {"", "0x", "0o", "0b", "-", "+0X1", "0B1.", "0O7"}; static const char al[] = "01.ep+-7 f,"; std::string t = pf[it % 8]; uint64_t k = it / 8; while(k) { t += al[k % 11]; k /= 11; } spans_of(t);
    for(int a = 0; a < 11; ++a) { std::string u = t + al[a]; spans_of(u); for(int b = 0; b < 11; ++b) { std::string v = u + al[b]; spans_of(v); } }
}
template<class T> typename std::enable_if<std::is_signed<T>::value, size_t>::type first(csubstr s, T *v) { return atoi_first(s, v); }
template<class T> typename std::enable_if<!std::is_signed<T>::value, size_t>::type first(csubstr s, T *v) { return atou_first(s, v); }
template<class T> static void int_first(std::string const& s)
{
    std::string t = tok(s); bool sg = std::is_signed<T>::value;
    bool ok = sg ? is_int(t) : is_uint(t);
    if(!t.empty() && t[0] == '+') t.erase(0, 1);
    ref::IntText x = ref::parse(t, sg); T xv = ref::value<T>(x); size_t xn = ok ? skip_blank(s) + tok(s).size() : csubstr::npos;
    Exact e(s); csubstr w(e.p, e.n);
    hx::note("%s first of %s", ref::tname<T>(), hx::esc(s).c_str());
    T v = 55; size_t n = first(w, &v);
    HX_CHECK(n == xn && (!ok || v == xv), "int-first", "%s ato_first(%s): %zd %lld, expected %zd %lld", ref::tname<T>(), hx::esc(s).c_str(), (ssize_t)n, (long long)v, (ssize_t)xn, (long long)xv);
    v = 55; n = from_chars_first(w, &v);
    HX_CHECK(n == xn && (!ok || v == xv), "int-first", "%s from_chars_first(%s): %zd %lld, expected %zd %lld", ref::tname<T>(), hx::esc(s).c_str(), (ssize_t)n, (long long)v, (ssize_t)xn, (long long)xv);
    hx::seen(sizeof(T) * 2 + sg, ok, xn, s.size());
    hx::count(ok ? "int-extracted" : "int-refused");
}
SCENARIO(int_first, 12000, 500000)
{
    (void)it; std::string s = text(r, (r.chance(1, 8) ? "+" : "") + ref::itext_fuzz(r));
    int_first<int8_t>(s); int_first<uint8_t>(s); int_first<int16_t>(s); int_first<uint16_t>(s); int_first<int32_t>(s); int_first<uint32_t>(s);
    int_first<int64_t>(s); int_first<uint64_t>(s); int_first<long long>(s); int_first<unsigned long long>(s);
    hx::sample(hx::esc(s));
    // pointers are read as integers
    std::string t = tok(s); bool ok = is_int(t); if(!t.empty() && t[0] == '+') t.erase(0, 1);
    intptr_t xv = ref::value<intptr_t>(ref::parse(t)); size_t xn = ok ? skip_blank(s) + tok(s).size() : csubstr::npos;
    Exact e(s); int *p = (int*)e.p; size_t n = from_chars_first(csubstr(e.p, e.n), &p);
    HX_CHECK(n == xn && p == (ok ? (int*)xv : (int*)e.p), "pointer-first", "from_chars_first(%s, T**): %zd, expected %zd", hx::esc(s).c_str(), (ssize_t)n, (ssize_t)xn);
}
SCENARIO(real_first, 20000, 800000)
{
    (void)it; std::string s = text(r, real_fuzz(r)), t = tok(s); unsigned radix;
    bool ok = is_real(t, &radix);
    if(radix == 2 || radix == 8) return; // accepted as spans; there is no binary or octal real reader
    size_t xn = ok ? skip_blank(s) + t.size() : csubstr::npos;
    Exact e(s); csubstr w(e.p, e.n);
    hx::note("real first of %s", hx::esc(s).c_str());
    double d = 55, xd = strtod(t.c_str(), nullptr); float f = 55, xf = strtof(t.c_str(), nullptr);
    bool drange = std::isinf(xd) != (t.find("inf") != std::string::npos) || (xd != 0 && std::fabs(xd) < 1e-300);
    bool frange = std::isinf(xf) != (t.find("inf") != std::string::npos) || (xf != 0 && std::fabs(xf) < 1e-36f);
    bool nz = t.find_first_of(radix == 16 ? "123456789abcdefABCDEF" : "123456789") != std::string::npos; if(xd == 0 && nz) drange = true; if(xf == 0 && nz) frange = true;
    // hexadecimal text with more digits than the type holds is not rounded exactly
    auto eq = [&](double a, double b){ return (std::isnan(a) && std::isnan(b)) || a == b || (radix == 16 && t.size() > 9 && std::fabs(a - b) <= 1e-6 * std::fabs(b)); };
    size_t n = from_chars_first(w, &d); hx::ev();
    if(!(ok && drange) && (n != xn || (ok && !eq(d, xd)))) hx::fail("double-first", "from_chars_first(%s): %zd %.17g, expected %zd %.17g", hx::esc(s).c_str(), (ssize_t)n, d, (ssize_t)xn, xd);
    d = 55; n = atod_first(w, &d); hx::ev();
    if(!(ok && drange) && (n != xn || (ok && !eq(d, xd)))) hx::fail("double-first", "atod_first(%s): %zd %.17g, expected %zd %.17g", hx::esc(s).c_str(), (ssize_t)n, d, (ssize_t)xn, xd);
    n = from_chars_first(w, &f); hx::ev();
    if(!(ok && frange) && (n != xn || (ok && !eq(f, xf)))) hx::fail("float-first", "from_chars_first(%s): %zd %.9g, expected %zd %.9g", hx::esc(s).c_str(), (ssize_t)n, f, (ssize_t)xn, xf);
    f = 55; n = atof_first(w, &f); hx::ev();
    if(!(ok && frange) && (n != xn || (ok && !eq(f, xf)))) hx::fail("float-first", "atof_first(%s): %zd %.9g, expected %zd %.9g", hx::esc(s).c_str(), (ssize_t)n, f, (ssize_t)xn, xf);
    hx::seen(ok, xn, s.size(), (uint64_t)(d != 0) + 2 * std::isinf(d)); hx::count(ok ? "real-extracted" : "real-refused");
    hx::sample(hx::esc(s));
}
// booleans, characters and strings are delimited by blanks only
SCENARIO(bool_first, 8000, 300000)
{
    (void)it;
    static const char *ws[] = {"true", "false", "True", "False", "TRUE", "FALSE", "0", "1", "00", "01", "2", "-1", "tRue", "truee", "fals", "yes", "0x0", "0x10", "true,", "1,", "12", "10"};
    std::string w = r.pick(ws), s; static const std::string bl = " \n\r\t";
    if(r.coin()) s = r.str(4, bl);
    s += w; if(r.coin()) { s += bl[r.below(4)]; s += r.str(r.chance(1, 64) ? r.huge(300) : 6, std::string("true01 ,")); }
    Exact e(s); csubstr c(e.p, e.n);
    hx::note("bool first of %s", hx::esc(s).c_str());
    bool ok = true, xv = false;
    if(w == "true" || w == "True" || w == "TRUE") xv = true; else if(w == "false" || w == "False" || w == "FALSE") xv = false;
    else { ref::IntText t = ref::parse(w); ok = t.ok; xv = ref::value<int>(t) != 0; }
    size_t xn = ok ? skip_blank(s) + w.size() : csubstr::npos;
    bool v = !xv; size_t n = from_chars_first(c, &v);
    HX_CHECK(n == xn && (!ok || v == xv), "bool-first", "from_chars_first(%s, bool): %zd %d, expected %zd %d", hx::esc(s).c_str(), (ssize_t)n, v, (ssize_t)xn, xv);
    Exact e2(w); bool v2 = !xv; bool ok2 = from_chars(csubstr(e2.p, e2.n), &v2);
    HX_CHECK(ok2 == ok && (!ok || v2 == xv), "bool", "from_chars(%s, bool)", w.c_str());
    hx::seen(hx::hstr(w.c_str()), skip_blank(s), s.size());
    hx::sample(hx::esc(s));
}
SCENARIO(str_first, 10000, 400000)
{
    (void)it; static const char a_[] = "ab,;0 \n\r\t\0\x80"; static const std::string a(a_, sizeof(a_) - 1);
    std::string s = r.str(14, a); if(r.chance(1, 16)) { static const std::string vis = "ab,;0"; s.insert(r.below(s.size() + 1), r.str(r.huge(300), vis)); }
    std::string w = word(s); size_t xn = w.empty() ? csubstr::npos : skip_blank(s) + w.size();
    Exact e(s);
    hx::note("string first of %s", hx::esc(s).c_str());
    { csubstr v("zz"); size_t n = from_chars_first(substr(e.p, e.n), &v);
      HX_CHECK(n == xn && (w.empty() || (std::string(v.str, v.len) == w && v.str == e.p + skip_blank(s))), "csubstr-first", "%s: %zd %s", hx::esc(s).c_str(), (ssize_t)n, hx::esc(v.str, v.len).c_str()); }
    { size_t cap = r.chance(1, 3) ? w.size() + r.below(3) - (w.empty() ? 0 : r.below(2)) : r.below(16); Exact d(cap, 0x5a); substr v(d.p, cap); size_t n = from_chars_first(csubstr(e.p, e.n), &v);
      bool fits = w.size() <= cap;
      HX_CHECK(n == (fits ? xn : csubstr::npos), "substr-first", "into %zu bytes, from %s: %zd, expected %zd", cap, hx::esc(s).c_str(), (ssize_t)n, (ssize_t)(fits ? xn : csubstr::npos));
      if(fits && !w.empty()) HX_CHECK(std::string(v.str, v.len) == w && v.str == d.p, "substr-first-value", "into %zu bytes, from %s: %s", cap, hx::esc(s).c_str(), hx::esc(v.str, v.len).c_str());
      if(fits) for(size_t i = w.size(); i < cap; ++i) if(d.p[i] != 0x5a) { hx::fail("substr-first-spill", "wrote past the word"); break; } }
    { char c = 7; size_t n = from_chars_first(csubstr(e.p, e.n), &c);
      HX_CHECK(n == (s.empty() ? csubstr::npos : 1) && (s.empty() || c == s[0]), "char-first", "%s: %zd", hx::esc(s).c_str(), (ssize_t)n); }
    hx::seen(w.size(), skip_blank(s), s.size(), w.empty() ? 0 : (uint64_t)(unsigned char)w[0]);
    hx::sample(hx::esc(s));
}
// raw bytes: padding to the requested alignment, then the bytes
SCENARIO(raw_first, 6000, 300000)
{
    (void)it;
    size_t al = (size_t)1 << r.below(6), n = r.in(1, 24), off = r.below(40), tail = r.below(20);
    Exact e(off + al + n + tail + 64);
    char *b = e.p + off; size_t pad = (al - ((uintptr_t)b % al)) % al;
    std::string data = r.bytes(n); memcpy(b + pad, data.data(), n);
    size_t len = pad + n + (r.coin() ? 0 : tail);
    Exact d(n, 0x11); hx::note("raw al=%zu n=%zu pad=%zu", al, n, pad);
    size_t got = from_chars_first(csubstr(b, len), fmt::raw(blob(d.p, n), al));
    HX_CHECK(got == pad + n && d.str() == data, "raw-first", "alignment %zu size %zu padding %zu: consumed %zu, expected %zu", al, n, pad, got, pad + n);
    fmt::raw_wrapper w = fmt::raw(blob(d.p, n), al); memset(d.p, 0, n); got = from_chars_first(csubstr(b, len), &w);
    HX_CHECK(got == pad + n && d.str() == data, "raw-first", "alignment %zu size %zu padding %zu: consumed %zu, expected %zu", al, n, pad, got, pad + n);
    memset(d.p, 0, n); HX_CHECK(from_chars(csubstr(b, len), fmt::raw(blob(d.p, n), al)) && d.str() == data, "raw", "raw read");
    hx::seen(al, n, pad);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one text (blanks, token, delimiter, rest) in an exactly sized heap view, given to the span queries and the *_first readers and compared with a whole-token grammar; distinct = (kinds matched, leading blanks, token length, following character)"); }

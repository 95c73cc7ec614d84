// C01: writing to text never exceeds the buffer and reports the needed size
#include "ref.hpp"
#include <cmath>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/base64.hpp>
#include <c4/std/std.hpp>
#if __cplusplus >= 201703L
#include <c4/std/string_view.hpp>
#endif
using namespace c4;
using hx::Exact;

enum Kind { EXACT, PESSIMISTIC };

// the contract at one destination length
template<class V> static size_t at_len(const char *key, V const& v, std::string const& exp, Kind kind, size_t len, std::string const& what)
{
    Exact b(len);
    hx::note("%s %s len=%zu needed=%zu", key, what.c_str(), len, exp.size());
    size_t ret = to_chars(substr(b.p, b.n), v);
    hx::ev();
    if(ret <= len)
    {
        if(ret != exp.size() || b.str(ret) != exp)
            hx::fail(key, "%s in a buffer of %zu: got %s (ret=%zu), expected %s (%zu)", what.c_str(), len, hx::esc(b.str(ret)).c_str(), ret, hx::esc(exp).c_str(), exp.size());
    }
    else
    {
        if(kind == EXACT && ret != exp.size())
            hx::fail(key, "%s in a too small buffer of %zu: returned %zu, needed %zu", what.c_str(), len, ret, exp.size());
        if(kind == EXACT && len >= exp.size())
            hx::fail(key, "%s does not fit in a buffer of %zu, needed %zu", what.c_str(), len, exp.size());
    }
    Exact c(len);
    substr sub = to_chars_sub(substr(c.p, c.n), v);
    hx::ev();
    size_t el = ret <= len ? ret : len;
    if(sub.len != el || (el && sub.str != c.p) || (ret <= len && std::string(sub.str, sub.len) != exp))
        hx::fail(key, "%s: sub-view form in a buffer of %zu: len=%zu expected %zu", what.c_str(), len, sub.len, el);
    hx::seen(hx::hstr(key), exp.size(), len, ret <= len);
    return ret;
}
template<class V> static void contract(const char *key, V const& v, std::string const& exp, Kind kind, hx::Rng &r, std::string const& what)
{
    size_t n = exp.size();
    if(n <= 48) for(size_t len = 0; len <= n + 3; ++len) at_len(key, v, exp, kind, len, what);
    else { for(size_t k = 0; k < 12; ++k) at_len(key, v, exp, kind, r.below(n + 4), what); for(size_t d = 0; d < 4; ++d) { at_len(key, v, exp, kind, n - d, what); at_len(key, v, exp, kind, n + d, what); at_len(key, v, exp, kind, d, what); } }
    at_len(key, v, exp, kind, n + 64, what);
    { // null destination
        size_t ret = to_chars(substr(), v); hx::ev();
        if(kind == EXACT && ret != n) hx::fail(key, "%s to a null buffer: returned %zu, needed %zu", what.c_str(), ret, n);
        if(kind == PESSIMISTIC && n > 0 && ret < 1) hx::fail(key, "%s to a null buffer: returned %zu", what.c_str(), ret);
    }
    // growing to the returned size succeeds
    size_t len = r.below(n + 1);
    bool done = false;
    for(int i = 0; i < 3000 && !done; ++i)
    {
        Exact b(len); size_t ret = to_chars(substr(b.p, b.n), v); hx::ev();
        if(ret <= len) { done = true; if(b.str(ret) != exp) hx::fail(key, "%s: wrong text after growing to %zu", what.c_str(), len); }
        else len = ret;
        if(kind == EXACT && !done && i > 0) break;
    }
    if(!done) hx::fail(key, "%s: growing to the returned size does not succeed (len=%zu, needed=%zu)", what.c_str(), len, n);
    hx::sample(what + hx::fmt(" -> %s", hx::esc(exp).c_str()));
}
template<class V> static std::string ample(V const& v, size_t cap = 2048) { Exact b(cap); size_t n = to_chars(substr(b.p, b.n), v); HX_CHECK(n <= cap, "ample", "does not fit an ample buffer: %zu", n); return b.str(n); }
static std::string lft(std::string s, size_t w, char p) { if(s.size() < w) s.append(w - s.size(), p); return s; }
static std::string rgt(std::string s, size_t w, char p) { if(s.size() < w) s.insert(0, w - s.size(), p); return s; }

template<class V> static void aligned(const char *key, V const& v, std::string const& exp, Kind k, hx::Rng &r, std::string const& what)
{
    size_t w = r.chance(1, 8) ? r.below(r.chance(1, 16) ? 400 : 100) : r.below(exp.size() + 8); char p = r.coin() ? ' ' : r.chance(1, 4) ? (char)r.u64() : (char)r.in(33, 126);
    contract((std::string(key) + "-left").c_str(), fmt::left(v, w, p), lft(exp, w, p), k, r, what + hx::fmt(" left %zu", w));
    contract((std::string(key) + "-right").c_str(), fmt::right(v, w, p), rgt(exp, w, p), k, r, what + hx::fmt(" right %zu", w));
}

template<class T> static void ints(hx::Rng &r)
{
    T v = ref::ivalue<T>(r); size_t nd = r.below(30);
    std::string what = hx::fmt("%s %lld", ref::tname<T>(), (long long)v);
    contract("int", v, ref::itext(v, 10), EXACT, r, what);
    for(unsigned radix : {2u, 8u, 10u, 16u})
    {
        contract("integral", fmt::integral(v, (T)radix), ref::itext(v, radix), EXACT, r, what + hx::fmt(" radix %u", radix));
        contract("zpad", fmt::zpad(fmt::integral(v, (T)radix), nd), ref::itext(v, radix, nd), EXACT, r, what + hx::fmt(" radix %u digits %zu", radix, nd));
    }
    aligned("int", v, ref::itext(v, 10), EXACT, r, what);
    aligned("hex", fmt::hex(v), ref::itext(v, 16), EXACT, r, what + " hex");
    aligned("zpadbin", fmt::zpad(fmt::bin(v), nd), ref::itext(v, 2, nd), EXACT, r, what + " zpad bin");
    if(v >= T(0)) // the low level writers
    {
        uint64_t m = (uint64_t)v;
        for(size_t len = 0; len < 70; len += (len < 24 ? 1 : 5))
        {
            struct { const char *k; unsigned radix; size_t (*f)(substr, T); size_t (*g)(substr, T, size_t); } ws[] = {
                {"write_dec", 10, [](substr s, T x){ return write_dec(s, x); }, [](substr s, T x, size_t n){ return write_dec(s, x, n); }},
                {"write_hex", 16, [](substr s, T x){ return write_hex(s, x); }, [](substr s, T x, size_t n){ return write_hex(s, x, n); }},
                {"write_oct", 8, [](substr s, T x){ return write_oct(s, x); }, [](substr s, T x, size_t n){ return write_oct(s, x, n); }},
                {"write_bin", 2, [](substr s, T x){ return write_bin(s, x); }, [](substr s, T x, size_t n){ return write_bin(s, x, n); }}};
            for(auto &w : ws)
            {
                std::string e = ref::digits(m, w.radix), e2 = ref::itext(v, w.radix, nd, false);
                hx::note("%s %s len=%zu nd=%zu", w.k, what.c_str(), len, nd);
                Exact b(len); size_t n = w.f(substr(b.p, b.n), v);
                HX_CHECK(n == e.size() && (n > len || b.str(n) == e), w.k, "%s %s len=%zu: ret=%zu", w.k, what.c_str(), len, n);
                Exact c(len); n = w.g(substr(c.p, c.n), v, nd);
                HX_CHECK(n == e2.size() && (n > len || c.str(n) == e2), w.k, "%s %s len=%zu nd=%zu: ret=%zu %s", w.k, what.c_str(), len, nd, n, hx::esc(c.str(n)).c_str());
            }
        }
    }
}
#define INTS(T, q, t) SCENARIO(ints_##T, q, t) { (void)it; ints<T>(r); }
INTS(int8_t, 120, 6000) INTS(uint8_t, 120, 6000) INTS(int16_t, 120, 6000) INTS(uint16_t, 120, 6000)
INTS(int32_t, 120, 6000) INTS(uint32_t, 120, 6000) INTS(int64_t, 120, 6000) INTS(uint64_t, 120, 6000)
SCENARIO(ints_longlong, 60, 3000) { (void)it; ints<long long>(r); }
SCENARIO(ints_ulonglong, 60, 3000) { (void)it; ints<unsigned long long>(r); }

template<class T> static void reals(hx::Rng &r)
{
    T v;
    switch(r.below(8)) {
    case 0: v = (T)(int64_t)r.interesting(); break;
    case 1: { uint64_t b = r.u64(); memcpy(&v, &b, sizeof(v)); break; }
    case 2: v = (T)r.below(1000) / T(8); break;
    case 3: v = std::numeric_limits<T>::max(); break;
    case 4: v = std::numeric_limits<T>::denorm_min(); break;
    case 5: v = r.coin() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); break;
    case 6: v = -(T)r.below(100000) / T(7); break;
    default: v = r.coin() ? T(0) : -T(0); break;
    }
    std::string what = hx::fmt("%s %.17g", ref::tname<T>(), (double)v);
    contract("real", v, ample(v), PESSIMISTIC, r, what);
    int prec = (int)r.below(21) - 1;
    RealFormat_e f = (RealFormat_e[]){FTOA_FLOAT, FTOA_SCIENT, FTOA_FLEX, FTOA_HEXA}[r.below(4)];
    auto w = fmt::real(v, prec, f);
    what += hx::fmt(" prec=%d fmt=%d", prec, (int)f);
    contract("real-fmt", w, ample(w), PESSIMISTIC, r, what);
    aligned("real", w, ample(w), PESSIMISTIC, r, what);
}
SCENARIO(reals_double, 400, 20000) { (void)it; reals<double>(r); }
SCENARIO(reals_float, 400, 20000) { (void)it; reals<float>(r); }

SCENARIO(strings, 400, 20000)
{
    (void)it;
    std::string s = r.bytes(r.size(40)); Exact e(s);
    csubstr cs(e.p, e.n); substr ms(e.p, e.n);
    std::string what = hx::fmt("string %s", hx::esc(s).c_str());
    contract("csubstr", cs, s, EXACT, r, what);
    contract("substr", ms, s, EXACT, r, what);
    contract("std::string", s, s, EXACT, r, what);
    std::vector<char> vc(s.begin(), s.end());
    contract("std::vector<char>", vc, s, EXACT, r, what);
#if __cplusplus >= 201703L
    contract("std::string_view", std::string_view(s), s, EXACT, r, what);
#endif
    std::string z = s.substr(0, s.find('\0'));
    contract("const char*", z.c_str(), z, EXACT, r, what);
    aligned("csubstr", cs, s, EXACT, r, what);
    char one = (char)r.u64();
    contract("char", one, std::string(1, one), EXACT, r, "char");
    aligned("char", one, std::string(1, one), EXACT, r, "char");
    bool b = r.coin();
    contract("bool", b, b ? "1" : "0", EXACT, r, "bool");
    contract("boolalpha", fmt::boolalpha(b), b ? "true" : "false", EXACT, r, "boolalpha");
    int bi = (int)r.below(3);
    contract("boolalpha-int", fmt::boolalpha(bi), bi ? "true" : "false", EXACT, r, "boolalpha int");
    aligned("boolalpha", fmt::boolalpha(b), b ? "true" : "false", EXACT, r, "boolalpha");
    contract("array", "literal", "literal", EXACT, r, "literal");
    contract("null-csubstr", csubstr(), "", EXACT, r, "null csubstr");
    void *p = (void*)(intptr_t)ref::ivalue<int64_t>(r);
    contract("pointer", p, ref::itext<int64_t>((int64_t)(intptr_t)p, 16), EXACT, r, "pointer");
    contract("zpad-pointer", fmt::zpad(p, 20), ref::itext<int64_t>((int64_t)(intptr_t)p, 16, 20), EXACT, r, "zpad pointer");
}
static std::string b64(std::string const& d)
{
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
    for(size_t i = 0; i < d.size(); i += 3)
    {
        unsigned v = 0; size_t k = std::min<size_t>(3, d.size() - i);
        for(size_t j = 0; j < 3; ++j) v = v << 8 | (j < k ? (unsigned char)d[i + j] : 0);
        for(size_t j = 0; j < 4; ++j) o += j <= k ? A[v >> (18 - 6 * j) & 63] : '=';
    }
    return o;
}
SCENARIO(base64, 400, 20000)
{
    (void)it;
    std::string s = r.bytes(r.size(40)); Exact e(s);
    contract("base64", fmt::base64(csubstr(e.p, e.n)), b64(s), EXACT, r, hx::fmt("base64 of %zu bytes", s.size()));
    contract("cbase64", fmt::cbase64(csubstr(e.p, e.n)), b64(s), EXACT, r, hx::fmt("cbase64 of %zu bytes", s.size()));
    uint64_t v = r.u64(); std::string vs((char*)&v, 8);
    contract("base64-var", fmt::cbase64(v), b64(vs), EXACT, r, "base64 of a variable");
    aligned("base64", fmt::base64(csubstr(e.p, e.n)), b64(s), EXACT, r, "base64");
}
// raw bytes: the position depends on the alignment of the destination
SCENARIO(raw, 3000, 100000)
{
    (void)it;
    size_t al = size_t(1) << r.below(6), n = r.size(40);
    std::string s = r.bytes(n); Exact e(s);
    size_t off = r.below(2 * al), len = r.below(n + 2 * al + 3);
    Exact big(off + len, 0x11);
    substr dst(big.p + off, len);
    hx::note("raw n=%zu al=%zu off=%zu len=%zu", n, al, off, len);
    size_t ret = to_chars(dst, fmt::raw(cblob((const void*)e.p, n), al));
    size_t pad = (al - ((uintptr_t)dst.str & (al - 1))) & (al - 1);
    bool fits = pad + n <= len;
    HX_CHECK((ret <= len) == fits, "raw-fit", "raw n=%zu al=%zu pad=%zu len=%zu: ret=%zu", n, al, pad, len, ret);
    if(ret <= len && fits)
    {
        HX_CHECK(ret == pad + n, "raw-ret", "ret=%zu pad=%zu n=%zu", ret, pad, n);
        HX_CHECK(std::string(dst.str + pad, n) == s, "raw-content", "content");
    }
    HX_CHECK(ret >= n && (fits || ret >= pad + n), "raw-size", "returned size too small: %zu", ret);
    for(size_t i = 0; i < off; ++i) if(big.p[i] != 0x11) { hx::fail("raw-outside", "byte before the view changed"); break; }
    if(!fits)
    {
        Exact b2(ret + r.below(2)); size_t ret2 = to_chars(substr(b2.p, b2.n), fmt::craw(cblob((const void*)e.p, n), al));
        HX_CHECK(ret2 <= b2.n, "raw-grow", "growing to the returned size %zu does not succeed: %zu", b2.n, ret2);
    }
    hx::seen(al, n, pad, fits);
    double d = 3.5 * (double)r.below(100); double d2 = 0; alignas(8) char buf[64];
    size_t w = to_chars(substr(buf, sizeof(buf)), fmt::raw(const_cast<double const&>(d)));
    HX_CHECK(w == 8, "raw-var", "raw double %zu", w);
    HX_CHECK(from_chars(csubstr(buf, w), fmt::raw(d2)) && d2 == d, "raw-var-back", "raw double back");
}
// sizes which 32 bits cannot tell
SCENARIO(far, 200, 4000)
{
    (void)it; hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    size_t n = hx::Far::len(r), len = r.below(60); std::string x = r.str(20, "abc"); f.put(0, x); hx::Exact b(len, 0x7e); substr d(b.p, b.n); csubstr v(f.p, n); hx::note("far: %zu into %zu", n, len);
    auto is = [&](const char *k, size_t g, size_t e) { HX_CHECK(g == e, k, "%s of %zu into %zu: %zu, expected %zu", k, n, len, g, e); HX_CHECK(to_chars_sub(d, v).len == len, "far-sub", "a sub-view of a text that does not fit"); };
    is("csubstr", to_chars(d, v), n); is("substr", to_chars(d, substr(f.p, n)), n); is("left", to_chars(d, fmt::left(x, n, '.')), n); is("right", to_chars(d, fmt::right(x, n, '.')), n); is("left", to_chars(d, fmt::left(7, n, '.')), n); is("zpad", to_chars(d, fmt::zpad(5u, n)), n); is("left-of-far", to_chars(d, fmt::left(v, 5, '.')), n); is("right-of-far", to_chars(d, fmt::right(v, n + 3, '.')), n + 3); is("itoa", itoa(d, 5, 10, n), n); is("utoa", utoa(d, 5u, 16u, n), n + 2); is("hex-digits", write_hex(d, 5, n), n); is("dec-digits", write_dec(d, 5, n), n); is("bin-digits", write_bin(d, 5, n), n); is("oct-digits", write_oct(d, 5, n), n);
    is("itoa-negative", itoa(d, -5, 10, n), n + 1); is("itoa-negative-hex", itoa(d, -5, 16, n), n + 3);
#if C4_CPP >= 17
    is("string_view", to_chars(d, std::string_view(f.p, n)), n);
#endif
    // values at the far end of a far buffer, and a buffer which is far longer than needed
    { substr g = to_chars_sub(substr(f.p, n), 12345); f.touched(0, 8); HX_CHECK(g.len == 5 && memcmp(g.str, "12345", 5) == 0, "far-buffer", "12345 into a far buffer"); }
    { size_t g = to_chars(substr(f.p, n), fmt::left(-12, 9, '#')); f.touched(0, 12); HX_CHECK(g == 9 && memcmp(f.p, "-12######", 9) == 0, "far-buffer", "left aligned into a far buffer"); g = to_chars(substr(f.p, n), fmt::right(-12, 9, '#')); HX_CHECK(g == 9 && memcmp(f.p, "######-12", 9) == 0, "far-buffer", "right aligned into a far buffer"); }
    { size_t g = to_chars(substr(f.p, n), 1.5); HX_CHECK(g == 3 && memcmp(f.p, "1.5", 3) == 0, "far-buffer", "a real into a far buffer: %zu", g); g = itoa(substr(f.p, n), -255, 16, 6); HX_CHECK(g == 9 && memcmp(f.p, "-0x0000ff", 9) == 0, "far-buffer", "hex into a far buffer"); }
    hx::seen(n, len, x.size());
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one value written through one writer at every destination length from null/0 to beyond the needed size, each in its own exactly sized heap block; distinct = (writer, needed size, length, fits) tuples"); }

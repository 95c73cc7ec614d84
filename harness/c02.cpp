// C02: integer formatting is exact in every radix and padding
#include "ref.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4;
using hx::Exact;

template<class T> static substr view(Exact &b) { return substr(b.p, b.n); }
static substr sv(Exact &b) { return substr(b.p, b.n); }

static void expect(const char *key, const char *what, std::string const& exp, Exact &b, size_t ret)
{
    hx::ev();
    if(ret != exp.size() || b.str(ret) != exp)
        hx::fail(key, "%s: expected %s (%zu), got %s (ret=%zu)", what, hx::esc(exp).c_str(), exp.size(), hx::esc(b.str(ret)).c_str(), ret);
}

template<class T> struct radix_dispatch
{
    static size_t xtoa_(substr s, T v, T radix) { return c4::xtoa(s, v, radix); }
    static size_t xtoa_(substr s, T v, T radix, size_t n) { return c4::xtoa(s, v, radix, n); }
};
template<> struct radix_dispatch<long long>
{
    static size_t xtoa_(substr s, long long v, long long radix) { return c4::itoa(s, v, radix); }
    static size_t xtoa_(substr s, long long v, long long radix, size_t n) { return c4::itoa(s, v, radix, n); }
};
template<> struct radix_dispatch<unsigned long long>
{
    static size_t xtoa_(substr s, unsigned long long v, unsigned long long radix) { return c4::utoa(s, v, radix); }
    static size_t xtoa_(substr s, unsigned long long v, unsigned long long radix, size_t n) { return c4::utoa(s, v, radix, n); }
};

template<class T> typename std::enable_if<std::is_signed<T>::value>::type direct(T v, unsigned radix, size_t nd, Exact &b)
{
    if(radix == 10) { expect("itoa", "itoa dec", ref::itext(v, 10), b, itoa(sv(b), v)); }
    expect("itoa-radix", "itoa radix", ref::itext(v, radix), b, itoa(sv(b), v, (T)radix));
    expect("itoa-digits", "itoa radix digits", ref::itext(v, radix, nd), b, itoa(sv(b), v, (T)radix, nd));
}
template<class T> typename std::enable_if<!std::is_signed<T>::value>::type direct(T v, unsigned radix, size_t nd, Exact &b)
{
    if(radix == 10) { expect("utoa", "utoa dec", ref::itext(v, 10), b, utoa(sv(b), v)); }
    expect("utoa-radix", "utoa radix", ref::itext(v, radix), b, utoa(sv(b), v, (T)radix));
    expect("utoa-digits", "utoa radix digits", ref::itext(v, radix, nd), b, utoa(sv(b), v, (T)radix, nd));
}
template<class T> typename std::enable_if<std::is_signed<T>::value, bool>::type rd(csubstr s, T *v) { return atoi(s, v); }
template<class T> typename std::enable_if<!std::is_signed<T>::value, bool>::type rd(csubstr s, T *v) { return atou(s, v); }

template<class T> static void back(const char *key, std::string const& text, T v)
{
    Exact e(text);
    csubstr s(e.p, e.n);
    T w = (T)(v ^ 0x55);
    bool ok = from_chars(s, &w);
    HX_CHECK(ok && w == v, key, "%s: from_chars(%s) gave ok=%d %lld", ref::tname<T>(), hx::esc(text).c_str(), ok, (long long)w);
    w = (T)(v ^ 0x55);
    ok = atox(s, &w);
    HX_CHECK(ok && w == v, key, "%s: atox(%s) gave ok=%d %lld", ref::tname<T>(), hx::esc(text).c_str(), ok, (long long)w);
    w = (T)(v ^ 0x55);
    ok = rd(s, &w);
    HX_CHECK(ok && w == v, key, "%s: atoi/atou(%s) gave ok=%d %lld", ref::tname<T>(), hx::esc(text).c_str(), ok, (long long)w);
}

template<class T> static void one(T v, size_t nd)
{
    hx::note("type=%s v=%lld nd=%zu", ref::tname<T>(), (long long)v, nd);
    const unsigned radixes[] = {10, 16, 8, 2};
    bool neg; uint64_t m = ref::magnitude(v, &neg);
    Exact big(nd + 80);
    expect("to_chars", "to_chars", ref::itext(v, 10), big, to_chars(sv(big), v));
    expect("xtoa", "xtoa", ref::itext(v, 10), big, xtoa(sv(big), v));
    for(unsigned radix : radixes)
    {
        std::string t = ref::itext(v, radix), tp = ref::itext(v, radix, nd);
        expect("xtoa-radix", "xtoa radix", t, big, radix_dispatch<T>::xtoa_(sv(big), v, (T)radix));
        expect("xtoa-digits", "xtoa radix digits", tp, big, radix_dispatch<T>::xtoa_(sv(big), v, (T)radix, nd));
        direct(v, radix, nd, big);
        expect("fmt-integral", "fmt::integral", t, big, to_chars(sv(big), fmt::integral(v, (T)radix)));
        { // exactly fitting buffer
            Exact ex(tp.size());
            expect("exact-fit", "xtoa in exactly fitting buffer", tp, ex, radix_dispatch<T>::xtoa_(sv(ex), v, (T)radix, nd));
            Exact ex2(t.size());
            expect("exact-fit", "xtoa in exactly fitting buffer", t, ex2, radix_dispatch<T>::xtoa_(sv(ex2), v, (T)radix));
        }
        expect("fmt-zpad", "fmt::zpad(integral)", tp, big, to_chars(sv(big), fmt::zpad(fmt::integral(v, (T)radix), nd)));
        back<T>("roundtrip", t, v);
        back<T>("roundtrip-padded", tp, v);
        hx::seen(hx::hstr(ref::tname<T>()), radix, t.size(), (uint64_t)neg * 1000 + (nd > t.size() ? nd - t.size() : 0));
    }
    expect("fmt-zpad", "fmt::zpad", ref::itext(v, 10, nd), big, to_chars(sv(big), fmt::zpad(v, nd)));
    expect("fmt-hex", "fmt::hex", ref::itext(v, 16), big, to_chars(sv(big), fmt::hex(v)));
    expect("fmt-oct", "fmt::oct", ref::itext(v, 8), big, to_chars(sv(big), fmt::oct(v)));
    expect("fmt-bin", "fmt::bin", ref::itext(v, 2), big, to_chars(sv(big), fmt::bin(v)));
    if(!neg)
    {
        HX_CHECK(digits_dec(v) == ref::digits(m, 10).size(), "digits_dec", "%s digits_dec(%lld)=%u", ref::tname<T>(), (long long)v, (unsigned)digits_dec(v));
        HX_CHECK(digits_hex(v) == ref::digits(m, 16).size(), "digits_hex", "%s digits_hex(%lld)=%u", ref::tname<T>(), (long long)v, (unsigned)digits_hex(v));
        HX_CHECK(digits_oct(v) == ref::digits(m, 8).size(), "digits_oct", "%s digits_oct(%lld)=%u", ref::tname<T>(), (long long)v, (unsigned)digits_oct(v));
        HX_CHECK(digits_bin(v) == ref::digits(m, 2).size(), "digits_bin", "%s digits_bin(%lld)=%u", ref::tname<T>(), (long long)v, (unsigned)digits_bin(v));
        expect("write_dec", "write_dec", ref::digits(m, 10), big, write_dec(sv(big), v));
        expect("write_hex", "write_hex", ref::digits(m, 16), big, write_hex(sv(big), v));
        expect("write_oct", "write_oct", ref::digits(m, 8), big, write_oct(sv(big), v));
        expect("write_bin", "write_bin", ref::digits(m, 2), big, write_bin(sv(big), v));
        expect("write_dec-digits", "write_dec nd", ref::itext(v, 10, nd, false), big, write_dec(sv(big), v, nd));
        expect("write_hex-digits", "write_hex nd", ref::itext(v, 16, nd, false), big, write_hex(sv(big), v, nd));
        expect("write_oct-digits", "write_oct nd", ref::itext(v, 8, nd, false), big, write_oct(sv(big), v, nd));
        expect("write_bin-digits", "write_bin nd", ref::itext(v, 2, nd, false), big, write_bin(sv(big), v, nd));
        { unsigned d = digits_dec(v); Exact u(d); write_dec_unchecked(sv(u), v, d); expect("write_dec_unchecked", "write_dec_unchecked", ref::digits(m, 10), u, d); }
        { unsigned d = digits_hex(v); Exact u(d); write_hex_unchecked(sv(u), v, d); expect("write_hex_unchecked", "write_hex_unchecked", ref::digits(m, 16), u, d); }
        { unsigned d = digits_oct(v); Exact u(d); write_oct_unchecked(sv(u), v, d); expect("write_oct_unchecked", "write_oct_unchecked", ref::digits(m, 8), u, d); }
        { unsigned d = digits_bin(v); Exact u(d); write_bin_unchecked(sv(u), v, d); expect("write_bin_unchecked", "write_bin_unchecked", ref::digits(m, 2), u, d); }
    }
    hx::sample(hx::fmt("%s %lld nd=%zu -> %s %s", ref::tname<T>(), (long long)v, nd, ref::itext(v, 16, nd).c_str(), ref::itext(v, 10, nd).c_str()));
}

// complete: every 8-bit value
SCENARIO(all_i8, 256, 256) { SC_UNUSED(); int8_t v = (int8_t)it; for(size_t nd = 0; nd < 14; ++nd) one<int8_t>(v, nd); }
SCENARIO(all_u8, 256, 256) { SC_UNUSED(); uint8_t v = (uint8_t)it; for(size_t nd = 0; nd < 14; ++nd) one<uint8_t>(v, nd); }
// complete in the thorough tier: every 16-bit value (stepped by a prime in the quick one)
SCENARIO(all_i16, 4096, 65536) { SC_UNUSED(); int16_t v = (int16_t)(it * 16381u); one<int16_t>(v, it % 20); }
SCENARIO(all_u16, 4096, 65536) { SC_UNUSED(); uint16_t v = (uint16_t)(it * 16381u); one<uint16_t>(v, it % 20); }
// every power of each radix +-2, in every wide type
template<class T> static void powers(uint64_t it)
{
    static const unsigned rr[] = {2, 8, 10, 16};
    unsigned radix = rr[it & 3]; size_t k = (size_t)(it >> 2);
    uint64_t v = 1; for(size_t i = 0; i < k; ++i) v *= radix;
    for(int d = -2; d <= 2; ++d) { one<T>((T)(v + (uint64_t)d), (size_t)(it % 70)); one<T>((T)(0 - (v + (uint64_t)d)), (size_t)(it % 23)); }
}
SCENARIO(powers_wide, 260, 260) { SC_UNUSED(); powers<int16_t>(it); powers<uint16_t>(it); powers<int32_t>(it); powers<uint32_t>(it); powers<int64_t>(it); powers<uint64_t>(it); powers<long long>(it); powers<unsigned long long>(it); }
#define RANDOM(T, q, t) SCENARIO(random_##T, q, t) { (void)it; T v = ref::ivalue<T>(r); one<T>(v, r.chance(1, 8) ? r.below(200) : r.below(25)); }
RANDOM(int16_t, 2500, 60000)
RANDOM(uint16_t, 2500, 60000)
RANDOM(int32_t, 5000, 300000)
RANDOM(uint32_t, 5000, 300000)
RANDOM(int64_t, 5000, 300000)
RANDOM(uint64_t, 5000, 300000)
SCENARIO(random_longlong, 2500, 60000) { (void)it; one<long long>(ref::ivalue<long long>(r), r.below(25)); }
SCENARIO(random_ulonglong, 2500, 60000) { (void)it; one<unsigned long long>(ref::ivalue<unsigned long long>(r), r.below(25)); }
// pointers print as hex integers and read back
SCENARIO(pointers, 2000, 50000)
{
    (void)it;
    intptr_t iv = (intptr_t)ref::ivalue<int64_t>(r);
    void *p = (void*)iv; int const* q = (int const*)iv;
    hx::note("ptr=%p", p);
    Exact big(80);
    expect("ptr", "to_chars(void*)", ref::itext<int64_t>(iv, 16), big, to_chars(sv(big), p));
    expect("ptr", "xtoa(int const*)", ref::itext<int64_t>(iv, 16), big, xtoa(sv(big), q));
    expect("ptr-hex", "fmt::hex(void*)", ref::itext<int64_t>(iv, 16), big, to_chars(sv(big), fmt::hex(p)));
    expect("ptr-oct", "fmt::oct(void*)", ref::itext<int64_t>(iv, 8), big, to_chars(sv(big), fmt::oct(p)));
    expect("ptr-bin", "fmt::bin(void*)", ref::itext<int64_t>(iv, 2), big, to_chars(sv(big), fmt::bin(p)));
    expect("ptr-hex", "fmt::hex(int const*)", ref::itext<int64_t>(iv, 16), big, to_chars(sv(big), fmt::hex(q)));
    expect("ptr-oct", "fmt::oct(int const*)", ref::itext<int64_t>(iv, 8), big, to_chars(sv(big), fmt::oct(q)));
    expect("ptr-bin", "fmt::bin(int const*)", ref::itext<int64_t>(iv, 2), big, to_chars(sv(big), fmt::bin(q)));
    int rx[] = {2, 8, 10, 16}; int radix = rx[r.below(4)]; size_t nd = r.below(25);
    expect("ptr-integral", "fmt::integral(int const*, radix)", ref::itext<int64_t>(iv, (unsigned)radix), big, to_chars(sv(big), fmt::integral(q, radix)));
    expect("ptr-integral", "fmt::integral(int const*)", ref::itext<int64_t>(iv, 10), big, to_chars(sv(big), fmt::integral(q)));
    expect("ptr-zpad", "fmt::zpad(void*)", ref::itext<int64_t>(iv, 16, nd), big, to_chars(sv(big), fmt::zpad(p, nd)));
    expect("ptr-zpad", "fmt::zpad(int const*)", ref::itext<int64_t>(iv, 16, nd), big, to_chars(sv(big), fmt::zpad(q, nd)));
    expect("ptr-zpad", "fmt::zpad(fmt::oct(int const*))", ref::itext<int64_t>(iv, 8, nd), big, to_chars(sv(big), fmt::zpad(fmt::oct(q), nd)));
    expect("null-hex", "fmt::hex(nullptr)", ref::itext<int64_t>(0, 16), big, to_chars(sv(big), fmt::hex(nullptr)));
    expect("null-oct", "fmt::oct(nullptr)", ref::itext<int64_t>(0, 8), big, to_chars(sv(big), fmt::oct(nullptr)));
    expect("null-bin", "fmt::bin(nullptr)", ref::itext<int64_t>(0, 2), big, to_chars(sv(big), fmt::bin(nullptr)));
    expect("null-zpad", "fmt::zpad(nullptr)", ref::itext<int64_t>(0, 16, nd), big, to_chars(sv(big), fmt::zpad(nullptr, nd)));
    expect("null-integral", "fmt::integral(nullptr, radix)", ref::itext<int64_t>(0, (unsigned)radix), big, to_chars(sv(big), fmt::integral(nullptr, radix)));
    Exact e(ref::itext<int64_t>(iv, 16)); void *w = nullptr;
    bool ok = from_chars(csubstr(e.p, e.n), &w);
    HX_CHECK(ok && w == p, "ptr-back", "from_chars(%s) -> %d %p", e.str().c_str(), ok, w);
    hx::seen((uint64_t)iv);
}

int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one value of one integer type written by every integer writer in radix 2/8/10/16 with one padding and read back; distinct = (type, radix, text length, sign, padding zeros) classes"); }

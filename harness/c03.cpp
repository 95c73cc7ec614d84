// C03: integer parsing accepts exactly the grammar, with the right (wrapped) value, never reading outside
#include "ref.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/std/string.hpp>
using namespace c4;
using hx::Exact;

template<class T> typename std::enable_if<std::is_signed<T>::value, bool>::type rd(csubstr s, T *v) { return atoi(s, v); }
template<class T> typename std::enable_if<!std::is_signed<T>::value, bool>::type rd(csubstr s, T *v) { return atou(s, v); }

template<class T> static void parse1(std::string const& text)
{
    if(std::is_signed<T>::value && !text.empty() && text[0] == '+') return; // documented precondition of signed parsing
    Exact e(text); // not null-terminated, nothing readable after it
    csubstr s(e.p, e.n);
    ref::IntText t = ref::parse(text, std::is_signed<T>::value);
    T expv = ref::value<T>(t);
    hx::note("type=%s text=%s", ref::tname<T>(), hx::esc(text).c_str());
    auto chk = [&](const char *key, bool ok, T v) {
        hx::ev();
        if(ok != t.ok) hx::fail(key, "%s %s(%s): accepted=%d expected=%d", ref::tname<T>(), key, hx::esc(text).c_str(), ok, t.ok);
        else if(ok && v != expv) hx::fail(key, "%s %s(%s): value=%lld expected=%lld", ref::tname<T>(), key, hx::esc(text).c_str(), (long long)v, (long long)expv);
    };
    { T v = 77; bool ok = rd(s, &v); chk("ato", ok, v); }
    { T v = 77; bool ok = atox(s, &v); chk("atox", ok, v); }
    { T v = 77; bool ok = from_chars(s, &v); chk("from_chars", ok, v); }
    HX_CHECK(e.str() == text, "input-modified", "parsing changed its input");
    hx::seen(hx::hstr(ref::tname<T>()), t.ok * 100 + t.radix + t.neg * 1000, std::min<size_t>(text.size(), 80), t.ok ? ref::fits<T>(t) : (text.empty() ? 0 : (uint64_t)(unsigned char)text[text.size() / 2]));
    if(t.ok) hx::count(ref::fits<T>(t) ? "accepted-fitting" : "accepted-wrapping"); else hx::count("rejected");
    hx::sample(hx::fmt("%s %s -> ok=%d v=%lld", ref::tname<T>(), hx::esc(text).c_str(), t.ok, (long long)expv));
}
template<class T> static void read1(std::string const& text)
{
    if(text.empty()) return; // documented precondition
    Exact e(text); csubstr s(e.p, e.n);
    hx::note("read type=%s text=%s", ref::tname<T>(), hx::esc(text).c_str());
    struct { const char *key; unsigned radix; bool (*fn)(csubstr, T*); } fns[] = {
        {"read_dec", 10, [](csubstr x, T *v){ return read_dec(x, v); }}, {"read_hex", 16, [](csubstr x, T *v){ return read_hex(x, v); }},
        {"read_oct", 8, [](csubstr x, T *v){ return read_oct(x, v); }}, {"read_bin", 2, [](csubstr x, T *v){ return read_bin(x, v); }}};
    for(auto &f : fns)
    {
        bool eok = true; uint64_t w = 0;
        for(char c : text) { int d = ref::dval(c, f.radix); if(d < 0) { eok = false; break; } w = w * f.radix + (uint64_t)d; }
        T v = 33; bool ok = f.fn(s, &v);
        hx::ev();
        if(ok != eok) hx::fail(f.key, "%s(%s): accepted=%d expected=%d", f.key, hx::esc(text).c_str(), ok, eok);
        else if(ok && v != (T)w) hx::fail(f.key, "%s %s(%s): value=%lld expected=%lld", ref::tname<T>(), f.key, hx::esc(text).c_str(), (long long)v, (long long)(T)w);
    }
}
static void all(std::string const& t)
{
    parse1<int8_t>(t); parse1<uint8_t>(t); parse1<int16_t>(t); parse1<uint16_t>(t); parse1<int32_t>(t); parse1<uint32_t>(t);
    parse1<int64_t>(t); parse1<uint64_t>(t); parse1<long long>(t); parse1<unsigned long long>(t);
    read1<int8_t>(t); read1<uint8_t>(t); read1<int16_t>(t); read1<uint16_t>(t); read1<int32_t>(t); read1<uint32_t>(t); read1<int64_t>(t); read1<uint64_t>(t);
}
static void dig(std::string t) // strip sign and prefix: text for the digit readers
{
    if(!t.empty() && t[0] == '-') t.erase(0, 1);
    if(t.size() > 2 && t[0] == '0' && !(t[1] >= '0' && t[1] <= '9')) t.erase(0, 2);
    read1<int8_t>(t); read1<uint8_t>(t); read1<int16_t>(t); read1<uint16_t>(t); read1<int32_t>(t); read1<uint32_t>(t); read1<int64_t>(t); read1<uint64_t>(t);
}

SCENARIO(fuzz, 16000, 800000) { (void)it; std::string t = ref::itext_fuzz(r); all(t); dig(t); }
// complete: all strings up to length 3 over a critical alphabet, then all of length 4 in the thorough tier
SCENARIO(short_strings, 16 + 256 + 4096, 16 + 256 + 4096 + 65536)
{
    (void)r;
    static const char A[] = "0179afFgxXoObB- ";
    uint64_t n = it; size_t len = 1; uint64_t base = 16;
    while(n >= base) { n -= base; base *= 16; ++len; }
    std::string t; for(size_t i = 0; i < len; ++i) { t += A[n & 15]; n >>= 4; }
    all(t);
    if(it == 0) all("");
}
// every byte value in every position of a short number, each radix
SCENARIO(any_byte, 256, 256)
{
    (void)r;
    const char *bases[] = {"12", "-12", "0x1f", "0b10", "0o17", "-0x1f", "7"};
    for(const char *b : bases) { std::string s = b; for(size_t i = 0; i < s.size(); ++i) { std::string t = s; t[i] = (char)it; all(t); t = s; t.insert(i, 1, (char)it); all(t); } all(s + (char)it); }
}
// null and empty views, and parsing through the pointer overloads
SCENARIO(empty, 1, 1)
{
    SC_UNUSED();
    csubstr nul, nul2(nullptr, size_t(0));
    int8_t a = 3; uint64_t b = 4; int64_t c = 5; void *p = (void*)16; bool bo = true;
    HX_CHECK(!atoi(nul, &a), "null-atoi", "accepted"); HX_CHECK(!atou(nul, &b), "null-atou", "accepted");
    HX_CHECK(!from_chars(nul2, &c), "null-from_chars", "accepted"); HX_CHECK(!from_chars(nul, &p), "null-ptr", "accepted"); HX_CHECK(!from_chars(nul, &bo), "null-bool", "accepted");
    HX_CHECK(p == (void*)16, "null-ptr", "value changed");
}
// booleans: words, or integers
SCENARIO(booleans, 8000, 200000)
{
    (void)it;
    static const char *words[] = {"true","True","TRUE","false","False","FALSE","0","1","tRUE","truE","fals","falsee","yes","t","f","T","F","tru"};
    std::string t = r.coin() ? std::string(words[r.below(18)]) : ref::itext_fuzz(r);
    if(r.chance(1, 6) && !t.empty()) t[r.below(t.size())] = (char)r.u64();
    if(!t.empty() && t[0] == '+') return;
    hx::note("bool %s", hx::esc(t).c_str());
    int e = -1;
    if(t == "true" || t == "True" || t == "TRUE") e = 1; else if(t == "false" || t == "False" || t == "FALSE") e = 0;
    else { ref::IntText x = ref::parse(t); if(x.ok) e = ref::value<int32_t>(x) != 0; }
    Exact ex(t); bool v = r.coin(); bool ok = from_chars(csubstr(ex.p, ex.n), &v);
    HX_CHECK(ok == (e >= 0), "bool-accept", "from_chars(%s,bool) accepted=%d expected=%d", hx::esc(t).c_str(), ok, e >= 0);
    if(ok && e >= 0) HX_CHECK(v == (e == 1), "bool-value", "from_chars(%s,bool)=%d expected=%d", hx::esc(t).c_str(), v, e);
    hx::seen((uint64_t)(e + 1), t.size(), t.empty() ? 0 : (uint64_t)(unsigned char)t[0]);
}
// characters: exactly one
SCENARIO(chars, 512, 4096)
{
    (void)it;
    std::string t = r.bytes(r.below(4)); Exact ex(t); char v = 'Z'; bool ok = from_chars(csubstr(ex.p, ex.n), &v);
    HX_CHECK(ok == (t.size() == 1), "char", "len %zu accepted=%d", t.size(), ok);
    if(ok) HX_CHECK(v == t[0], "char", "value");
    hx::seen(t.size(), t.empty() ? 0 : (uint64_t)(unsigned char)t[0]);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one text in an exactly sized, unterminated heap view parsed by every integer parser and compared with an independent grammar and arithmetic; distinct = (type, accepted, radix, sign, length, fits/middle byte) classes"); }

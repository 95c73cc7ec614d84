// C20: enum symbol lookup and bitmask <-> text, on randomly generated symbol tables
#include "hx.hpp"
#include <c4/enum.hpp>
#include <c4/bitmask.hpp>
#include <sstream>
using namespace c4;

// the tables are regenerated for every case
enum E1u8 : uint8_t {}; enum E3i32 : int32_t {}; enum E7u32 : uint32_t {}; enum class K5u16 : uint16_t {}; enum class K9u64 : uint64_t {}; enum class K6i64 : int64_t {}; enum class K4i8 : int8_t {};
template<class E> struct N;
template<> struct N<E1u8> { enum { v = 1 }; }; template<> struct N<E3i32> { enum { v = 3 }; }; template<> struct N<E7u32> { enum { v = 7 }; }; template<> struct N<K5u16> { enum { v = 5 }; };
template<> struct N<K9u64> { enum { v = 9 }; }; template<> struct N<K6i64> { enum { v = 6 }; }; template<> struct N<K4i8> { enum { v = 4 }; };
template<class E> struct Tab
{
    static typename EnumSymbols<E>::Sym syms[N<E>::v];
    static char *names[N<E>::v];
    static std::vector<std::string> full;
    static size_t cls, pfx; // what eoffs_cls and eoffs_pfx return
};
template<class E> typename EnumSymbols<E>::Sym Tab<E>::syms[N<E>::v];
template<class E> char *Tab<E>::names[N<E>::v];
template<class E> std::vector<std::string> Tab<E>::full;
template<class E> size_t Tab<E>::cls; template<class E> size_t Tab<E>::pfx;
namespace c4 {
#define DEF(E) template<> EnumSymbols<E> const esyms<E>() { return EnumSymbols<E>(Tab<E>::syms); } template<> size_t eoffs_cls<E>() { return Tab<E>::cls; } template<> size_t eoffs_pfx<E>() { return Tab<E>::pfx; }
DEF(E1u8) DEF(E3i32) DEF(E7u32) DEF(K5u16) DEF(K9u64) DEF(K6i64) DEF(K4i8)
}
template<class E> using Und = typename std::underlying_type<E>::type;

static std::string body(hx::Rng &r)
{
    static const char first[] = "ABCxf_zZaF", rest[] = "ABab12_0xFzZ9";
    std::string s(1, first[r.below(sizeof(first) - 1)]); size_t n = r.below(r.coin() ? 3 : 9);
    for(size_t i = 0; i < n; ++i) s += rest[r.below(sizeof(rest) - 1)];
    return s;
}
template<class E>
static void make(hx::Rng &r)
{
    typedef Tab<E> T; typedef Und<E> I; const size_t n = N<E>::v;
    std::string cls, pfx; T::cls = T::pfx = 0;
    if(r.coin()) { cls = r.chance(1, 4) ? "e" : r.coin() ? "MyEnum::" : "E::"; T::cls = cls.size(); }
    if(r.coin()) { pfx = r.chance(1, 4) ? "_" : r.coin() ? "BM_" : "A_"; T::pfx = cls.size() + pfx.size(); }
    std::set<std::string> used; T::full.clear();
    for(size_t i = 0; i < n; ++i)
    {
        std::string b;
        do { b = body(r);
            if(!used.empty() && r.coin()) { auto it = used.begin(); std::advance(it, (long)r.below(used.size())); b = *it; if(r.coin()) b += (r.coin() ? "_A" : "1"); else if(b.size() > 1) b.pop_back(); } // prefixes of each other
        } while(used.count(b));
        used.insert(b); T::full.push_back(cls + pfx + b);
    }
    for(size_t i = n - 1; i > 0; --i) std::swap(T::full[i], T::full[r.below(i + 1)]);
    for(size_t i = 0; i < n; ++i)
    {
        free(T::names[i]); T::names[i] = (char*)malloc(T::full[i].size() + 1); memcpy(T::names[i], T::full[i].c_str(), T::full[i].size() + 1); // exactly sized
        T::syms[i].name = T::names[i];
    }
    // values: bits, composites, zero, plain enumerations
    const size_t nb = sizeof(I) * 8; size_t style = r.below(4);
    for(size_t i = 0; i < n; ++i)
    {
        uint64_t v;
        if(style == 0) v = uint64_t(1) << (i % nb);
        else if(style == 1) { size_t b = r.below(nb); v = r.chance(1, 8) ? 0 : uint64_t(1) << b; if(r.chance(1, 3) && i) { v |= (uint64_t)(I)T::syms[r.below(i)].value; } if(r.chance(1, 4) && i) v |= (uint64_t)(I)T::syms[r.below(i)].value; }
        else if(style == 2) v = i == 0 ? 0 : uint64_t(1) << ((i - 1) % nb);
        else v = i;
        T::syms[i].value = static_cast<E>(static_cast<I>(v));
    }
}
// oracle
template<class E> static std::string strip(std::string const& f, EnumOffsetType t)
{
    size_t o = t == EOFFS_NONE ? 0 : t == EOFFS_CLS ? Tab<E>::cls : (Tab<E>::pfx ? Tab<E>::pfx : Tab<E>::cls); return f.substr(o);
}
template<class E> static int lookup(std::string const& s)
{
    for(size_t i = 0; i < N<E>::v; ++i) if(s == Tab<E>::full[i] || s == strip<E>(Tab<E>::full[i], EOFFS_CLS) || s == strip<E>(Tab<E>::full[i], EOFFS_PFX)) return (int)i;
    return -1;
}
template<class E> static std::string describe() { std::string s; for(size_t i = 0; i < N<E>::v; ++i) s += hx::fmt("%s=%llx ", Tab<E>::full[i].c_str(), (unsigned long long)(Und<E>)Tab<E>::syms[i].value); return s; }
template<class E> static std::string candidate(hx::Rng &r)
{
    std::string f = Tab<E>::full[r.below(N<E>::v)]; std::string s = strip<E>(f, (EnumOffsetType)r.below(3));
    switch(r.below(8)) {
    case 0: case 1: case 2: return s;
    case 3: return s.substr(0, r.below(s.size() + 1));
    case 4: return s + body(r);
    case 5: return s.substr(r.below(s.size() + 1));
    case 6: if(!s.empty()) s[r.below(s.size())] = 'Q'; return s;
    default: return r.coin() ? std::string() : body(r); }
}
template<class E>
static void names(hx::Rng &r)
{
    make<E>(r); EnumSymbols<E> es = esyms<E>(); hx::note("%s", describe<E>().c_str());
    HX_CHECK(es.size() == N<E>::v && !es.empty() && es.end() - es.begin() == N<E>::v, "size", "%zu", es.size());
    for(size_t i = 0; i < es.size(); ++i) HX_CHECK(&es[i] == &Tab<E>::syms[i] && &es[i] == es.begin() + i, "index", "%zu", i);
    for(int k = 0; k < 12; ++k)
    {
        std::string s = candidate<E>(r); int want = lookup<E>(s); hx::Exact z(s + std::string(1, '\0')), x(s);
        hx::note("lookup %s in %s", hx::esc(s).c_str(), describe<E>().c_str());
        auto p = es.find(z.p); HX_CHECK((p ? int(p - es.begin()) : -1) == want, "find-cstr", "find(%s) is symbol %d, expected %d", hx::esc(s).c_str(), p ? int(p - es.begin()) : -1, want);
        p = es.find(x.p, x.n); HX_CHECK((p ? int(p - es.begin()) : -1) == want, "find-len", "find(%s,%zu) is symbol %d, expected %d", hx::esc(s).c_str(), x.n, p ? int(p - es.begin()) : -1, want);
        // the text goes on after the designated length
        hx::Exact more(s + (r.coin() ? "_A" : "1")); p = es.find(more.p, s.size()); HX_CHECK((p ? int(p - es.begin()) : -1) == want, "find-len-within", "find(%s,%zu) is symbol %d, expected %d", hx::esc(more.str()).c_str(), s.size(), p ? int(p - es.begin()) : -1, want);
        for(int j = 0; j < (int)N<E>::v; ++j) { std::string const& f = Tab<E>::full[(size_t)j]; bool w = s == f || s == strip<E>(f, EOFFS_CLS) || s == strip<E>(f, EOFFS_PFX);
            HX_CHECK(es[(size_t)j].cmp(z.p) == w && es[(size_t)j].cmp(x.p, x.n) == w, "cmp", "cmp(%s) with %s", hx::esc(s).c_str(), f.c_str()); }
        // a terminator within the designated length belongs to the text, which is then no name
        { hx::Exact nul(s + std::string(r.coin() ? 1 : r.coin() ? 255 : 256, '\0')); if(r.coin() && nul.n > s.size() + 1) memset(nul.p + s.size() + 1, 'A', nul.n - s.size() - 1); p = es.find(nul.p, nul.n); HX_CHECK(p == nullptr, "find-len-nul", "find(%s,%zu) is symbol %d, expected none", hx::esc(nul.str()).c_str(), nul.n, int(p - es.begin())); }
        E val{}; bool e = hx::raises([&]{ val = str2e<E>(z.p); }); HX_CHECK(e == (want < 0) && (e || val == Tab<E>::syms[want].value), "str2e", "str2e(%s)", hx::esc(s).c_str());
        const void *g = nullptr; e = hx::raises([&]{ g = es.get(z.p); }); HX_CHECK(e == (want < 0) && (e || g == &Tab<E>::syms[want]), "get", "get(%s)", hx::esc(s).c_str());
        e = hx::raises([&]{ g = es.get(x.p, x.n); }); HX_CHECK(e == (want < 0) && (e || g == &Tab<E>::syms[want]), "get-len", "get(%s)", hx::esc(s).c_str());
        hx::seen(hx::hstr(s.c_str()), (uint64_t)want, hx::hstr(describe<E>().c_str()));
    }
    for(int k = 0; k < 6; ++k)
    {
        Und<E> v = r.chance(2, 3) ? (Und<E>)Tab<E>::syms[r.below(N<E>::v)].value : (Und<E>)r.interesting(); int want = -1; for(int j = (int)N<E>::v - 1; j >= 0; --j) if((Und<E>)Tab<E>::syms[j].value == v) want = j;
        auto p = es.find((E)v); HX_CHECK((p ? int(p - es.begin()) : -1) == want, "find-value", "find(%llx) is symbol %d, expected %d", (unsigned long long)v, p ? int(p - es.begin()) : -1, want);
        const char *n = nullptr; bool e = hx::raises([&]{ n = e2str<E>((E)v); }); HX_CHECK(e == (want < 0) && (e || Tab<E>::full[(size_t)want] == n), "e2str", "e2str(%llx)", (unsigned long long)v);
        for(int o = 0; o < 3; ++o) { e = hx::raises([&]{ n = e2stroffs<E>((E)v, (EnumOffsetType)o); }); HX_CHECK(e == (want < 0) && (e || strip<E>(Tab<E>::full[(size_t)want], (EnumOffsetType)o) == n), "e2stroffs", "e2stroffs(%llx,%d)", (unsigned long long)v, o);
            if(p) HX_CHECK(strip<E>(p->name, (EnumOffsetType)o) == p->name_offs((EnumOffsetType)o), "name_offs", "%s", p->name); }
        n = nullptr; e = hx::raises([&]{ n = e2stroffs<E>((E)v); }); if(!e && want >= 0) HX_CHECK(strip<E>(Tab<E>::full[(size_t)want], EOFFS_PFX) == n, "e2stroffs", "default offset");
    }
    bool e = hx::raises([&]{ (void)es[N<E>::v + r.below(3)]; }); HX_CHECK(e, "index", "symbol past the end");
}
SCENARIO(names, 4000, 200000) { SC_UNUSED(); switch(r.below(7)) { case 0: names<E1u8>(r); break; case 1: names<E3i32>(r); break; case 2: names<E7u32>(r); break; case 3: names<K5u16>(r); break; case 4: names<K9u64>(r); break; case 5: names<K6i64>(r); break; default: names<K4i8>(r); } }

static std::vector<std::string> items(std::string const& s) { std::vector<std::string> v(1); for(char c : s) if(c == '|') v.emplace_back(); else v.back() += c; return v; }
// what a text made of symbols designates; false when it is not such a text
template<class E> static bool meaning(std::string const& text, EnumOffsetType o, Und<E> *out)
{
    typedef Und<E> I; I m = 0; auto v = items(text); std::set<std::string> once;
    for(auto &s : v)
    {
        if(v.size() == 1 && s == "0") break;
        if(!once.insert(s).second) return false;
        bool got = false; for(size_t i = 0; i < N<E>::v && !got; ++i) if(strip<E>(Tab<E>::full[i], o) == s) { m = (I)(m | (I)Tab<E>::syms[i].value); got = true; }
        if(!got) return false;
    }
    *out = m; return true;
}
// no symbol of the text is redundant: none is zero, and none repeats bits of another
template<class E> static void concise(std::string const& text, EnumOffsetType o, const char *what)
{
    Und<E> got = 0; for(auto &s : items(text)) { Und<E> b = 0; if(!meaning<E>(s, o, &b)) continue; HX_CHECK(b != 0 && (got & b) == 0, what, "%s of %s adds nothing", hx::esc(s).c_str(), hx::esc(text).c_str()); got = (Und<E>)(got | b); }
}
template<class E>
static void write(hx::Rng &r)
{
    typedef Und<E> I; make<E>(r); EnumOffsetType o = (EnumOffsetType)r.below(3);
    I all = 0, singles = 0; bool haszero = false; for(auto &s : Tab<E>::syms) { I b = (I)s.value; all = (I)(all | b); if(b == 0) haszero = true; typedef typename std::make_unsigned<I>::type U; if(b && ((U)b & ((U)b - 1)) == 0) singles = (I)(singles | b); }
    I mask;
    switch(r.below(6)) { case 0: mask = 0; break; case 1: mask = all; break; case 2: mask = (I)((I)r.u64() & singles); break; case 3: { mask = 0; for(size_t k = r.below(4); k; --k) mask = (I)(mask | (I)Tab<E>::syms[r.below(N<E>::v)].value); break; } case 4: mask = (I)((I)r.u64() & all); break; default: mask = (I)r.interesting(); }
    bool must = (mask & (I)~singles) == 0, cannot = (mask & (I)~all) != 0;
    hx::note("mask %llx offs %d in %s", (unsigned long long)mask, (int)o, describe<E>().c_str());
    size_t need = 0; bool e = hx::raises([&]{ need = bm2str<E>(mask, nullptr, 0, o); });
    if(must) HX_CHECK(!e, "bm2str-error", "mask %llx is made of symbols, but was refused: %s", (unsigned long long)mask, hx::st().last_error);
    if(cannot) HX_CHECK(e, "bm2str-unknown-bits", "mask %llx has bits without symbol, but was accepted", (unsigned long long)mask);
    std::string text;
    hx::seen(hx::hstr(describe<E>().c_str()), (uint64_t)mask, o);
    if(e) hx::count("masks_refused"); else
    {
        hx::count("masks_written");
        HX_CHECK(need >= 2 && need < 4096, "bm2str-size", "needs %zu", need); if(need > 4096 || need < 1) return;
        hx::Exact b(need); size_t got = bm2str<E>(mask, b.p, b.n, o);
        HX_CHECK(got == need && memchr(b.p, 0, need) == b.p + need - 1, "bm2str-terminated", "size %zu of %zu: %s", got, need, hx::esc(b.str()).c_str());
        text.assign(b.p, strnlen(b.p, need));
        I m = 0; bool ok = meaning<E>(text, o, &m); HX_CHECK(ok && m == mask, "bm2str-text", "mask %llx written as %s", (unsigned long long)mask, hx::esc(text).c_str());
        if(mask == 0) HX_CHECK(text == "0" ? !haszero : haszero, "bm2str-zero", "zero written as %s", text.c_str());
        else concise<E>(text, o, "bm2str-redundant");
        { hx::Exact big(need + 1 + r.below(9)); got = bm2str<E>(mask, big.p, big.n, o); HX_CHECK(got == need && text == big.p, "bm2str-larger", "in a larger buffer"); for(size_t i = need; i < big.n; ++i) HX_CHECK(big.p[i] == (char)0xA5, "bm2str-beyond", "wrote beyond the returned size"); }
        for(size_t n = 1; n < need; n += 1 + (need > 20 ? r.below(4) : 0)) { hx::Exact small(n); bool se = hx::raises([&]{ bm2str<E>(mask, small.p, small.n, o); }); HX_CHECK(se, "bm2str-too-small", "buffer of %zu for %zu accepted", n, need); }
        // back
        bool amb = false; for(auto &s : items(text)) { int l = lookup<E>(s); if(s != "0" && (l < 0 || (I)Tab<E>::syms[l].value != [&]{ I x = 0; meaning<E>(s, o, &x); return x; }())) amb = true; }
        if(amb) hx::count("ambiguous"); else {
            I back = 0; bool be = hx::raises([&]{ back = str2bm<E>(b.p); }); HX_CHECK(!be && back == mask, "round-trip", "mask %llx -> %s -> %s%llx", (unsigned long long)mask, hx::esc(text).c_str(), be ? hx::st().last_error : "", (unsigned long long)back);
            be = hx::raises([&]{ back = str2bm<E>(b.p, need); }); HX_CHECK(!be && back == mask, "round-trip-terminated", "mask %llx -> %s", (unsigned long long)mask, hx::esc(text).c_str());
            hx::Exact x(text); be = hx::raises([&]{ back = str2bm<E>(x.p, x.n); }); HX_CHECK(!be && back == mask, "round-trip-len", "mask %llx -> %s", (unsigned long long)mask, hx::esc(text).c_str());
        }
        { hx::Exact c(need); got = bm2str<E>((E)mask, c.p, c.n, o); HX_CHECK(got == need && text == c.p, "bm2str-scoped", "scoped overload"); }
    }
    std::stringstream ss; bool we = hx::raises([&]{ bm2stream<E>(ss, mask, o); });
    if(must) HX_CHECK(!we, "bm2stream-error", "mask %llx is made of symbols, but was refused", (unsigned long long)mask);
    if(cannot) HX_CHECK(we, "bm2stream-unknown-bits", "mask %llx has bits without symbol, but was written as %s", (unsigned long long)mask, hx::esc(ss.str()).c_str());
    if(!we) { I m = 0; bool ok = meaning<E>(ss.str(), o, &m); HX_CHECK(ok && m == mask, "bm2stream-text", "mask %llx written as %s", (unsigned long long)mask, hx::esc(ss.str()).c_str()); if(mask == 0) HX_CHECK(ss.str() == "0" ? !haszero : haszero, "bm2stream-zero", "zero written as %s", ss.str().c_str()); else concise<E>(ss.str(), o, "bm2stream-redundant"); }
}
SCENARIO(write, 16000, 400000) { SC_UNUSED(); switch(r.below(7)) { case 0: write<E1u8>(r); break; case 1: write<E3i32>(r); break; case 2: write<E7u32>(r); break; case 3: write<K5u16>(r); break; case 4: write<K9u64>(r); break; case 5: write<K6i64>(r); break; default: write<K4i8>(r); } }

template<class E>
static void read(hx::Rng &r)
{
    typedef Und<E> I; make<E>(r); std::string t; I want = 0; bool bad = false;
    size_t n = r.below(5); static const char *blanks[] = {"", "", "", " ", "  "};
    for(size_t i = 0; i < n; ++i)
    {
        if(i) t += '|';
        t += r.pick(blanks);
        if(r.chance(1, 4)) { I v = (I)(r.interesting() & (uint64_t)std::numeric_limits<I>::max()); std::string h = hx::fmt(r.coin() ? "%llx" : "%llX", (unsigned long long)v); t += r.coin() ? hx::fmt("%llu", (unsigned long long)v) : (r.coin() ? "0x" : "0X") + h; want = (I)(want | v); }
        else if(r.chance(1, 10)) { std::string c = candidate<E>(r); int l = c.empty() ? -1 : lookup<E>(c); if(c.find_first_not_of("0123456789") == std::string::npos && !c.empty()) { c = "Q" + c; l = -1; } if(l < 0) bad = true; else want = (I)(want | (I)Tab<E>::syms[l].value);
            if(l < 0 && (c.empty() || !(isalpha((unsigned char)c[0]) || c[0] == '_'))) c = "Q" + c; // an unknown name
            t += c; }
        else { std::string c = strip<E>(Tab<E>::full[r.below(N<E>::v)], (EnumOffsetType)r.below(3)); int l = lookup<E>(c); want = (I)(want | (I)Tab<E>::syms[l].value); t += c; }
        t += r.pick(blanks);
    }
    if(n == 0) t.clear();
    bool malformed = false;
    if(r.chance(1, 12)) { // a number which is none
        static const char *nums[] = {"12ab", "1b", "0a", "0xag", "0xz", "9_", "0xa_", "3A", "0xaxb", "7z", "12Z"}; const char *w = r.pick(nums); malformed = true; if(!t.empty()) t += "|"; t += w; }
    if(r.chance(1, 12)) { malformed = true; if(r.coin()) t = "|" + t; else { if(t.empty()) t = "|"; else t += "|"; } }
    if(r.chance(1, 15)) { static const char junk[] = "-+.,;/&\xff()[]"; char j = junk[r.below(sizeof(junk) - 1)]; if(r.coin()) do { j = (char)r.below(256); } while(!j || j == ' ' || j == ':' || j == '|' || j == '_' || ((unsigned char)j < 128 && isalnum((unsigned char)j))); t.insert(r.below(t.size() + 1), 1, j); malformed = true; }
    hx::note("read %s in %s", hx::esc(t).c_str(), describe<E>().c_str());
    hx::Exact x(t), z(t + std::string(1, '\0')); I got = 0, gotz = 0;
    bool e = hx::raises([&]{ got = str2bm<E>(x.p, x.n); }), ez = hx::raises([&]{ gotz = str2bm<E>(z.p); });
    HX_CHECK(e == ez && (e || got == gotz), "terminated-or-not", "%s differs with and without length", hx::esc(t).c_str());
    if(bad || malformed) { hx::count("malformed_texts"); HX_CHECK(e, "str2bm-accepts", "%s accepted as %llx", hx::esc(t).c_str(), (unsigned long long)got); }
    else { hx::count("texts_read"); HX_CHECK(!e && got == want, "str2bm", "%s is %llx, expected %llx %s", hx::esc(t).c_str(), (unsigned long long)got, (unsigned long long)want, e ? hx::st().last_error : ""); }
    hx::seen(hx::hstr(t.c_str()), hx::hstr(describe<E>().c_str()));
}
SCENARIO(read, 16000, 400000) { SC_UNUSED(); switch(r.below(7)) { case 0: read<E1u8>(r); break; case 1: read<E3i32>(r); break; case 2: read<E7u32>(r); break; case 3: read<K5u16>(r); break; case 4: read<K9u64>(r); break; case 5: read<K6i64>(r); break; default: read<K4i8>(r); } }

// an enumeration for which no offsets were declared: names are as they were given
enum class Plain : int { A = 1, B = 2, C = 4, AB = 3 };
namespace c4 { template<> EnumSymbols<Plain> const esyms<Plain>() { static const EnumSymbols<Plain>::Sym v[] = {{Plain::A, "Plain::A"}, {Plain::B, "Plain::B"}, {Plain::C, "xPlain::A"}, {Plain::AB, "A"}}; return EnumSymbols<Plain>(v); } }
SCENARIO(no_offsets, 200, 2000)
{
    SC_UNUSED(); auto es = esyms<Plain>(); static const char *n[] = {"Plain::A", "Plain::B", "xPlain::A", "A"};
    for(size_t i = 0; i < 4; ++i) { EnumOffsetType o = (EnumOffsetType)r.below(3); auto v = es[i].value; HX_CHECK(!strcmp(e2str(v), n[i]) && !strcmp(e2stroffs(v, o), n[i]) && !strcmp(es[i].name_offs(o), n[i]), "no-offsets", "symbol %zu", i);
        auto *p = es.find(n[i]); HX_CHECK(p == &es[i], "no-offsets", "find %s", n[i]); std::string tail = n[i] + r.below(strlen(n[i])); const void *want = nullptr; for(size_t j = 0; j < 4 && !want; ++j) if(tail == n[j]) want = &es[j]; HX_CHECK(es.find(tail.c_str()) == want && es.find(tail.c_str(), tail.size()) == want, "no-offsets", "find %s", tail.c_str()); }
    HX_CHECK(eoffs_cls<Plain>() == 0 && eoffs_pfx<Plain>() == 0, "no-offsets", "offsets");
    int m = (int)r.below(8); char buf[64]; size_t k = bm2str<Plain>(m, buf, sizeof(buf), (EnumOffsetType)r.below(3)); HX_CHECK(k == strlen(buf) + 1 && str2bm<Plain>(buf) == m, "no-offsets", "mask %d written as %s", m, buf);
    hx::seen((uint64_t)m);
}

// any text at all: an answer or an error, and no access outside of it
SCENARIO(garbage, 8000, 200000) { SC_UNUSED(); make<E7u32>(r); std::string t = r.str(20, std::string("ABab1x0F_|: \0|q", 15)); hx::note("garbage %s", hx::esc(t).c_str()); hx::Exact x(t); uint32_t v = 0; if(hx::raises([&]{ v = str2bm<E7u32>(x.p, x.n); })) hx::count("garbage_refused"); else hx::count("garbage_accepted"); hx::ev(); hx::seen(hx::hbytes(t.data(), t.size())); }

int main(int argc, char **argv) { return hx::main_(argc, argv, "distinct symbol tables with the name, mask or text looked up"); }

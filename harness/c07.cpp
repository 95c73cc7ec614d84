// C07: string-view queries match a plain string model and stay inside the view
#include "hx.hpp"
#include <c4/substr.hpp>
using namespace c4;
using hx::Exact;
typedef std::string S;
static const size_t NP = (size_t)-1;

static S txt(hx::Rng &r, size_t max)
{
    static const S al[] = {"ab", "abc", S("a\0b", 3), "'\"\\a", "([)]", S("\x80\xff\x7f", 3), " \t\nx", "aaab"};
    if(max >= 8) max = r.vast(max);
    if(r.chance(1, 8)) return r.bytes(r.size(max));
    S const& a = al[r.below(8)]; return r.str(max, a);
}
// a pattern likely to occur
static S pat(hx::Rng &r, S const& s)
{
    if(!s.empty() && r.chance(2, 3)) { size_t b = r.below(s.size()); S p = s.substr(b, r.below(s.size() - b + 1)); if(r.chance(1, 5) && !p.empty()) p[r.below(p.size())] ^= 1; return p; }
    return txt(r, 4);
}
// a set of characters: a few, many, or characters which differ in one bit from those of the text
static S chset(hx::Rng &r, S const& s, size_t max)
{
    S t;
    switch(r.below(8)) {
    case 0: return S();
    case 1: for(size_t k = r.in(5, 200); k; --k) t += (char)r.u64(); return t;
    case 2: { char lo = (char)r.u64(); for(size_t k = r.in(5, 100); k; --k) t += lo++; return t; }
    case 3: for(size_t k = r.in(1, 40); k && !s.empty(); --k) t += (char)(s[r.below(s.size())] ^ (1 << r.below(8))); return t;
    case 4: { for(int c = 0; c < 256; ++c) if(s.empty() || !r.chance(1, 3) || s.find((char)c) == NP) t += (char)c; if(!s.empty()) { char k = s[r.below(s.size())]; size_t i; while((i = t.find(k)) != NP) t.erase(i, 1); } return t; }
    default: return txt(r, max); }
}
static S v2s(csubstr v) { return v.len ? S(v.str, v.len) : S(); }
static size_t cut(size_t p, size_t n) { return p < n ? p : n; }
template<class V> static void inside(const char *key, V whole, csubstr got)
{
    HX_CHECK(got.len == 0 || (got.str >= whole.str && got.str + got.len <= whole.str + whole.len), key, "%s: returned view [%ld,+%zu[ of a view of length %zu", key, (long)(got.str - whole.str), got.len, whole.len);
}
#define POS(key, got, exp, ...) do { size_t g_ = (got), e_ = (exp); hx::ev(); if(g_ != e_) hx::fail(key, "%s of %s: %zd, expected %zd; %s", key, hx::esc(s).c_str(), (ssize_t)g_, (ssize_t)e_, hx::fmt(__VA_ARGS__).c_str()); } while(0)
// contents and position
#define VIEW(key, got, expstart, explen, ...) do { auto g_ = (got); size_t st_ = (expstart), n_ = (explen); hx::ev(); inside(key, v, csubstr(g_.str, g_.len)); \
    if(g_.len != n_ || (n_ && (g_.str != v.str + st_))) hx::fail(key, "%s of %s: [%ld,+%zu[, expected [%zu,+%zu[; %s", key, hx::esc(s).c_str(), (long)(g_.str - v.str), (size_t)g_.len, st_, n_, hx::fmt(__VA_ARGS__).c_str()); } while(0)
#define BOOL(key, got, exp, ...) do { bool g_ = (got), e_ = (exp); hx::ev(); if(g_ != e_) hx::fail(key, "%s of %s: %d, expected %d; %s", key, hx::esc(s).c_str(), g_, e_, hx::fmt(__VA_ARGS__).c_str()); } while(0)
#define ZVIEW(key, got, pos) do { auto z_ = (got); hx::ev(); if(z_.len != 0 || z_.str != v.str + (pos)) hx::fail(key, "%s of %s: the empty view is at %ld, expected at %zu", key, hx::esc(s).c_str(), (long)(z_.str - v.str), (size_t)(pos)); } while(0)

template<class V> static void slicing(hx::Rng &r, S const& s, V v)
{
    size_t n = s.size();
    size_t a = r.below(n + 1), b = a + r.below(n - a + 1), k = b - a;
    hx::note("slicing %s a=%zu b=%zu", hx::esc(s).c_str(), a, b);
    VIEW("sub", v.sub(a), a, n - a, "%zu", a);
    VIEW("sub", v.sub(a, k), a, k, "%zu %zu", a, k);
    VIEW("sub", v.sub(a, NP), a, n - a, "%zu npos", a);
    VIEW("range", v.range(a, b), a, k, "%zu %zu", a, b);
    VIEW("range", v.range(a), a, n - a, "%zu", a);
    VIEW("range", v.range(a, NP), a, n - a, "%zu npos", a);
    VIEW("first", v.first(a), 0, a, "%zu", a);
    VIEW("first", v.first(NP), 0, n, "npos");
    VIEW("last", v.last(a), n - a, a, "%zu", a);
    VIEW("last", v.last(NP), 0, n, "npos");
    VIEW("offs", v.offs(a, n - b), a, k, "%zu %zu", a, n - b);
    VIEW("left_of", v.left_of(a), 0, a, "%zu", a);
    VIEW("left_of", v.left_of(NP), 0, n, "npos");
    VIEW("left_of", v.left_of(a, false), 0, a, "%zu false", a);
    VIEW("right_of", v.right_of(NP), 0, 0, "npos");
    VIEW("right_of", v.right_of(a, true), a, n - a, "%zu true", a);
    if(a < n)
    {
        VIEW("left_of", v.left_of(a, true), 0, a + 1, "%zu true", a);
        VIEW("right_of", v.right_of(a), a + 1, n - a - 1, "%zu", a);
        VIEW("right_of", v.right_of(a, false), a + 1, n - a - 1, "%zu false", a);
        HX_CHECK(v[a] == s[a], "index", "[%zu]", a);
    }
    VIEW("left_of", v.left_of(NP, r.coin()), 0, n, "npos");
    VIEW("right_of", v.right_of(NP, r.coin()), 0, 0, "npos");
    if(n) {
        auto sb = v.sub(a, k); VIEW("left_of-view", v.left_of(sb), 0, a, "[%zu,%zu[", a, b); VIEW("right_of-view", v.right_of(sb), b, n - b, "[%zu,%zu[", a, b);
        ZVIEW("sub", v.sub(a, 0), a); ZVIEW("first", v.first(0), 0); ZVIEW("last", v.last(0), n); ZVIEW("range", v.range(b, b), b); ZVIEW("left_of", v.left_of((size_t)0), 0); if(b == n) ZVIEW("right_of-view", v.right_of(sb), n); if(a == 0) ZVIEW("left_of-view", v.left_of(sb), 0);
    }
    BOOL("empty", v.empty(), n == 0, ""); BOOL("not_empty", v.not_empty(), n != 0, ""); POS("size", v.size(), n, "");
    BOOL("has_str", v.has_str(), n != 0 && s[0] != 0, "");
    if(n) { HX_CHECK(v.front() == s[0] && v.back() == s[n - 1], "front-back", "%s", hx::esc(s).c_str()); }
    HX_CHECK(v.begin() == v.str && v.end() == v.str + n && v.data() == v.str, "begin-end", "%zu", n);
    // views of the same buffer
    size_t c = r.below(n + 1), d = c + r.below(n - c + 1);
    auto x = v.sub(a, k); auto y = v.sub(c, d - c);
    hx::note("relations %s [%zu,%zu[ [%zu,%zu[", hx::esc(s).c_str(), a, b, c, d);
    BOOL("is_super", x.is_super(y), b > a ? a <= c && d <= b : a == c && c == d, "[%zu,%zu[ [%zu,%zu[", a, b, c, d);
    BOOL("is_sub", x.is_sub(y), d > c ? c <= a && b <= d : a == c && a == b, "[%zu,%zu[ [%zu,%zu[", a, b, c, d);
    BOOL("overlaps", x.overlaps(y), std::max(a, c) < std::min(b, d), "[%zu,%zu[ [%zu,%zu[", a, b, c, d);
    hx::seen(n, a, b, c);
}
SCENARIO(slicing, 12000, 500000)
{
    (void)it; S s = txt(r, 12); Exact e(s);
    slicing(r, s, csubstr(e.p, e.n)); slicing(r, s, substr(e.p, e.n));
    hx::sample(hx::esc(s));
}
template<class V> static void trimming(hx::Rng &r, S const& s, V v, S const& cs_, char c)
{
    size_t n = s.size(); Exact pe(cs_); csubstr cs(pe.p, pe.n);
    hx::note("trimming %s chars=%s c=%02x", hx::esc(s).c_str(), hx::esc(cs_).c_str(), (unsigned char)c);
    auto trims = [&](S const& set) { size_t b = s.find_first_not_of(set), e = s.find_last_not_of(set); if(b == NP) { b = 0; e = NP; } return std::make_pair(b, e == NP ? 0 : e + 1); };
    {   auto t = trims(S(1, c)); bool none = t.second == 0;
        VIEW("triml", v.triml(c), t.first, none ? 0 : n - t.first, "char"); VIEW("trimr", v.trimr(c), 0, t.second, "char"); VIEW("trim", v.trim(c), t.first, none ? 0 : t.second - t.first, "char"); }
    {   auto t = trims(cs_); bool none = t.second == 0;
        VIEW("triml", v.triml(cs), t.first, none ? 0 : n - t.first, "%s", hx::esc(cs_).c_str()); VIEW("trimr", v.trimr(cs), 0, t.second, "%s", hx::esc(cs_).c_str()); VIEW("trim", v.trim(cs), t.first, none ? 0 : t.second - t.first, "%s", hx::esc(cs_).c_str()); }
    S p = r.chance(1, 3) ? s.substr(0, r.below(n + 1)) : r.coin() ? s.substr(r.below(n + 1)) : pat(r, s); Exact p2(p); csubstr pv(p2.p, p2.n); size_t m = p.size();
    bool bw = m <= n && s.compare(0, m, p) == 0, ew = m <= n && s.compare(n - m, m, p) == 0;
    hx::note("strip %s pattern=%s", hx::esc(s).c_str(), hx::esc(p).c_str());
    VIEW("stripl", v.stripl(pv), bw ? m : 0, bw ? n - m : n, "%s", hx::esc(p).c_str());
    VIEW("stripr", v.stripr(pv), 0, ew ? n - m : n, "%s", hx::esc(p).c_str());
    BOOL("begins_with", v.begins_with(pv), bw, "%s", hx::esc(p).c_str()); BOOL("ends_with", v.ends_with(pv), ew, "%s", hx::esc(p).c_str());
    BOOL("begins_with-char", v.begins_with(c), n && s[0] == c, "%02x", (unsigned char)c); BOOL("ends_with-char", v.ends_with(c), n && s[n - 1] == c, "%02x", (unsigned char)c);
    size_t k = r.below(n + 3);
    BOOL("begins_with-num", v.begins_with(c, k), k <= n && s.substr(0, k) == S(k, c), "%zu", k); BOOL("ends_with-num", v.ends_with(c, k), k <= n && s.substr(n - k) == S(k, c), "%zu", k);
    BOOL("begins_with_any", v.begins_with_any(cs), n && cs_.find(s[0]) != NP, "%s", hx::esc(cs_).c_str()); BOOL("ends_with_any", v.ends_with_any(cs), n && cs_.find(s[n - 1]) != NP, "%s", hx::esc(cs_).c_str());
    // quotes
    bool q = n >= 2 && s[n - 2] != '\\' && s[0] == s[n - 1] && (s[0] == '\'' || s[0] == '"');
    VIEW("unquoted", v.unquoted(), q ? 1 : 0, q ? n - 2 : n, "quotes");
    hx::seen(n, m, bw * 2 + ew, q);
}
SCENARIO(trimming, 15000, 600000)
{
    (void)it; S s = txt(r, 12), cs = chset(r, s, 4);
    if(r.chance(1, 3)) { S pad = txt(r, 4); if(!cs.empty()) for(char &c : pad) c = cs[r.below(cs.size())]; s = pad + s + pad; }
    if(r.chance(1, 6)) { char q = "\"'"[r.below(2)]; s = q + s + q; }
    char c = s.empty() || r.chance(1, 4) ? (char)r.u64() : s[r.coin() ? 0 : s.size() - 1];
    Exact e(s); trimming(r, s, csubstr(e.p, e.n), cs, c); trimming(r, s, substr(e.p, e.n), cs, c);
    hx::sample(hx::esc(s) + " " + hx::esc(cs));
}
template<class V> static void searching(hx::Rng &r, S const& s, V v, S const& p, S const& cs, char c)
{
    size_t n = s.size(); Exact pe(p), ce(cs); csubstr pv(pe.p, pe.n), cv(ce.p, ce.n);
    size_t st = r.coin() ? 0 : r.below(n + 1);
    hx::note("search %s pattern=%s chars=%s from %zu", hx::esc(s).c_str(), hx::esc(p).c_str(), hx::esc(cs).c_str(), st);
    POS("find", v.find(pv, st), s.find(p, st), "%s from %zu", hx::esc(p).c_str(), st); POS("find", v.find(pv), s.find(p), "%s", hx::esc(p).c_str());
    POS("find", v.find(pv, NP), NP, "from npos");
    POS("find-char", v.find(c, st), s.find(c, st), "%02x from %zu", (unsigned char)c, st); POS("find-char", v.find(c), s.find(c), "%02x", (unsigned char)c);
    POS("first_of", v.first_of(c, st), s.find(c, st), "%02x from %zu", (unsigned char)c, st); POS("first_of", v.first_of(cv, st), s.find_first_of(cs, st), "%s from %zu", hx::esc(cs).c_str(), st);
    POS("first_of", v.first_of(c), s.find(c), "%02x", (unsigned char)c); POS("first_of", v.first_of(cv), s.find_first_of(cs), "%s", hx::esc(cs).c_str());
    POS("first_of", v.first_of(cv, NP), NP, "npos"); POS("first_of", v.first_of(c, NP), NP, "npos");
    // the library's start position for searches from the right is exclusive
    auto before = [&](size_t p0) { return s.substr(0, cut(p0, n)); };
    POS("last_of", v.last_of(c, st), before(st).rfind(c), "%02x before %zu", (unsigned char)c, st); POS("last_of", v.last_of(cv, st), before(st).find_last_of(cs), "%s before %zu", hx::esc(cs).c_str(), st);
    POS("last_of", v.last_of(c), s.rfind(c), "%02x", (unsigned char)c); POS("last_of", v.last_of(cv), s.find_last_of(cs), "%s", hx::esc(cs).c_str());
    POS("first_not_of", v.first_not_of(c, st), s.find_first_not_of(c, st), "%02x from %zu", (unsigned char)c, st); POS("first_not_of", v.first_not_of(cv, st), s.find_first_not_of(cs, st), "%s from %zu", hx::esc(cs).c_str(), st);
    POS("first_not_of", v.first_not_of(c), s.find_first_not_of(c), "%02x", (unsigned char)c); POS("first_not_of", v.first_not_of(cv), s.find_first_not_of(cs), "%s", hx::esc(cs).c_str());
    POS("last_not_of", v.last_not_of(c, st), before(st).find_last_not_of(c), "%02x before %zu", (unsigned char)c, st); POS("last_not_of", v.last_not_of(cv, st), before(st).find_last_not_of(cs), "%s before %zu", hx::esc(cs).c_str(), st);
    POS("last_not_of", v.last_not_of(c), s.find_last_not_of(c), "%02x", (unsigned char)c); POS("last_not_of", v.last_not_of(cv), s.find_last_not_of(cs), "%s", hx::esc(cs).c_str());
    POS("last_not_of", v.last_not_of(c, NP), s.find_last_not_of(c), "npos"); POS("last_not_of", v.last_not_of(cv, NP), s.find_last_not_of(cs), "npos"); POS("last_of", v.last_of(c, NP), s.rfind(c), "npos"); POS("last_of", v.last_of(cv, NP), s.find_last_of(cs), "npos");
    {   size_t k = 0; for(size_t i = st; i < n; ++i) k += s[i] == c; POS("count-char", v.count(c, st), k, "%02x from %zu", (unsigned char)c, st); }
    {   size_t k = 0; if(p.empty()) k = n - st + 1; else for(size_t i = s.find(p, st); i != NP; i = s.find(p, i + p.size())) ++k;
        POS("count", v.count(pv, st), k, "%s from %zu", hx::esc(p).c_str(), st); }
    {   size_t i = s.find(p, st); VIEW("select", v.select(pv, st), i == NP ? 0 : i, i == NP ? 0 : p.size(), "%s from %zu", hx::esc(p).c_str(), st); }
    {   size_t i = s.find(c, st); VIEW("select-char", v.select(c, st), i == NP ? 0 : i, i == NP ? 0 : 1, "%02x from %zu", (unsigned char)c, st); }
    hx::seen(n, p.size(), s.find(p) + 2, s.find_last_of(cs) + 2);
    hx::count(s.find(p) != NP ? "pattern-found" : "pattern-absent");
}
SCENARIO(searching, 15000, 700000)
{
    (void)it; S s = txt(r, 14), p = pat(r, s), cs = chset(r, s, 4); char c = s.empty() || r.chance(1, 4) ? (char)r.u64() : s[r.below(s.size())];
    Exact e(s); searching(r, s, csubstr(e.p, e.n), p, cs, c); searching(r, s, substr(e.p, e.n), p, cs, c);
    hx::sample(hx::esc(s) + " " + hx::esc(p));
}
SCENARIO(first_of_any, 8000, 300000)
{
    (void)it; S s = txt(r, 12); Exact e(s); csubstr v(e.p, e.n);
    size_t k = r.in(2, 5); std::vector<S> ps; for(size_t i = 0; i < k; ++i) ps.push_back(pat(r, s));
    Exact a(ps[0]), b(ps[1]), c(k > 2 ? ps[2] : S()), d(k > 3 ? ps[3] : S()), f(k > 4 ? ps[4] : S());
    csubstr va(a.p, a.n), vb(b.p, b.n), vc(c.p, c.n), vd(d.p, d.n), vf(f.p, f.n);
    hx::note("first_of_any %s k=%zu %s %s", hx::esc(s).c_str(), k, hx::esc(ps[0]).c_str(), hx::esc(ps[1]).c_str());
    auto g = k == 2 ? v.first_of_any(va, vb) : k == 3 ? v.first_of_any(va, vb, vc) : k == 4 ? v.first_of_any(va, vb, vc, vd) : v.first_of_any(va, vb, vc, vd, vf);
    size_t pos = NP, which = NP;
    for(size_t i = 0; i < s.size() && pos == NP; ++i) for(size_t j = 0; j < k; ++j) if(i + ps[j].size() <= s.size() && s.compare(i, ps[j].size(), ps[j]) == 0) { pos = i; which = j; break; }
    POS("first_of_any-pos", g.pos, pos, "%s %s ..", hx::esc(ps[0]).c_str(), hx::esc(ps[1]).c_str()); POS("first_of_any-which", g.which, which, "%s %s ..", hx::esc(ps[0]).c_str(), hx::esc(ps[1]).c_str());
    BOOL("first_of_any-bool", (bool)g, pos != NP, "");
    hx::seen(s.size(), pos, which);
}
SCENARIO(pairs, 15000, 500000)
{
    (void)it; static const S al[] = {"()a", "(())ab", "()", "'a\\", "'\\", "''a"}; S s = r.str(r.vast(14), al[r.below(6)]); if(r.chance(1, 8)) s = txt(r, 10);
    Exact e(s); substr v(e.p, e.n);
    hx::note("pairs %s", hx::esc(s).c_str());
    size_t b = s.find('('), n = s.size();
    {   size_t x = b == NP ? NP : s.find(')', b + 1); // no nested pairs allowed
        if(x == NP || s.substr(b + 1, x - b).find('(') == NP) VIEW("pair_range", v.pair_range('(', ')'), x == NP ? 0 : b, x == NP ? 0 : x + 1 - b, "()"); }
    {   size_t x = NP, depth = 0; if(b != NP) for(size_t i = b; i < n; ++i) { if(s[i] == '(') ++depth; else if(s[i] == ')' && --depth == 0) { x = i; break; } }
        VIEW("pair_range_nested", v.pair_range_nested('(', ')'), x == NP ? 0 : b, x == NP ? 0 : x + 1 - b, "()"); csubstr cv = v; VIEW("pair_range_nested", cv.pair_range_nested('(', ')'), x == NP ? 0 : b, x == NP ? 0 : x + 1 - b, "()"); }
    {   size_t q = s.find('\''), x = NP; if(q != NP) for(size_t i = q + 1; i < n; ++i) if(s[i] == '\'' && s[i - 1] != '\\') { x = i; break; }
        VIEW("pair_range_esc", v.pair_range_esc('\''), x == NP ? 0 : q, x == NP ? 0 : x + 1 - q, "'"); }
    hx::seen(n, b, hx::hbytes(s.data(), n) & 0xfff);
    hx::sample(hx::esc(s));
}
// views without memory behind them
SCENARIO(null_views, 200, 2000)
{
    (void)it; csubstr v; S s, p = txt(r, 3); Exact pe(p); csubstr pv(pe.p, pe.n); char c = (char)r.u64();
    hx::note("null view, pattern %s", hx::esc(p).c_str());
    POS("find", v.find(c), NP, ""); POS("find", v.find(pv), p.empty() ? 0 : NP, "%s", hx::esc(p).c_str()); POS("last_of", v.last_of(c), NP, ""); POS("last_of", v.last_of(pv), NP, ""); POS("first_not_of", v.first_not_of(pv), NP, ""); POS("last_not_of", v.last_not_of(pv), NP, "");
    POS("count-char", v.count(c), 0, ""); BOOL("begins_with", v.begins_with(pv), p.empty(), ""); BOOL("ends_with", v.ends_with(pv), p.empty(), ""); BOOL("empty", v.empty(), true, "");
    POS("trim", v.trim(c).len, 0, ""); POS("trim", v.trim(pv).len, 0, ""); POS("stripl", v.stripl(pv).len, 0, ""); POS("stripr", v.stripr(pv).len, 0, ""); POS("unquoted", v.unquoted().len, 0, "");
    POS("sub", v.sub(0).len, 0, ""); POS("sub", v.sub(0, 0).len, 0, ""); POS("first", v.first(0).len, 0, ""); POS("last", v.last(0).len, 0, ""); POS("range", v.range(0, 0).len, 0, "");
    BOOL("overlaps", v.overlaps(pv), false, ""); BOOL("overlaps", pv.overlaps(v), false, "");
    POS("pair_range", v.pair_range('(', ')').len, 0, ""); POS("pair_range_nested", v.pair_range_nested('(', ')').len, 0, ""); POS("first_real_span", v.first_real_span().len, 0, ""); POS("first_int_span", v.first_int_span().len, 0, "");
    hx::seen(p.size());
}
// construction
SCENARIO(construct, 2000, 50000)
{
    (void)it; S s = txt(r, 10); for(char &c : s) if(!c) c = 'z'; S z = s + '\0'; Exact e(z);
    csubstr a((const char*)e.p); substr b((char*)e.p); csubstr c; c = (const char*)e.p; csubstr d; d.assign((const char*)e.p); csubstr f(e.p, e.p + s.size()); csubstr g; g.assign(e.p, e.p + s.size()); csubstr h; h.assign(e.p, s.size()); csubstr i = b; csubstr j = to_csubstr((const char*)e.p); substr k = to_substr((char*)e.p);
    csubstr all[] = {a, b, c, d, f, g, h, i, j, k};
    for(csubstr x : all) HX_CHECK(x.str == e.p && x.len == s.size(), "construct", "from %s: %zu", hx::esc(s).c_str(), x.len);
    csubstr lit("abc"); HX_CHECK(lit.len == 3, "construct-literal", "%zu", lit.len); char arr[6] = "12345"; substr as(arr); HX_CHECK(as.len == 5 && as.str == arr, "construct-array", "%zu", as.len);
    { substr w; w = arr; substr w2; w2.assign(arr); substr w3 = to_substr(arr); csubstr w4 = to_csubstr(arr); csubstr w5; w5 = arr; csubstr w6; w6.assign("12345"); csubstr w7 = to_csubstr("12345"); csubstr w8; w8 = "12345"; const char carr[] = "12345"; csubstr w9(carr); csubstr w10; w10 = carr; csubstr wx[] = {w, w2, w3, w4, w5, w6, w7, w8, w9, w10, to_csubstr(w), to_csubstr(w4), to_substr(w)}; for(csubstr y : wx) HX_CHECK(y.len == 5 && 0 == memcmp(y.str, "12345", 5), "construct-array", "%zu", y.len); HX_CHECK(w.str == arr && w2.str == arr && w3.str == arr && w4.str == arr && w10.str == carr, "construct-array", "elsewhere"); }
    csubstr n(nullptr); HX_CHECK(n.str == nullptr && n.len == 0 && n == nullptr, "construct-null", ""); a.clear(); HX_CHECK(a.str == nullptr && a.len == 0, "clear", ""); b = nullptr; HX_CHECK(b == nullptr && b.len == 0, "assign-null", "");
    csubstr cn((const char*)nullptr); HX_CHECK(cn.len == 0, "construct-null", "");
    hx::seen(s.size());
}
// views longer than 32 bits can tell: only a few places are looked at
SCENARIO(far, 300, 6000)
{
    (void)it; hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    S s = "<far>"; size_t n = hx::Far::len(r), t = 1 + r.below(200); S x = r.str(6, "abc") + "q"; size_t m = x.size(), at = n - m - r.below(t); if(r.chance(1, 4)) at = n - m;
    f.put(at, x); csubstr v(f.p, n); hx::note("far: %zu characters, %s at %zu", n, x.c_str(), at); Exact xe(x); csubstr xv(xe.p, xe.n); char c = x[0];
    size_t near = at - r.below(100), z = at + m;
    POS("size", v.size(), n, ""); BOOL("empty", v.empty(), false, "");
    VIEW("sub", v.sub(at), at, n - at, ""); VIEW("sub", v.sub(at, m), at, m, ""); VIEW("range", v.range(at, z), at, m, ""); VIEW("range", v.range(at), at, n - at, ""); VIEW("first", v.first(at), 0, at, ""); VIEW("last", v.last(n - at), at, n - at, ""); VIEW("last", v.last(at), n - at, at, "");
    VIEW("offs", v.offs(at, n - z), at, m, ""); VIEW("left_of", v.left_of(at), 0, at, ""); VIEW("right_of", v.right_of(at), at + 1, n - at - 1, ""); VIEW("left_of-view", v.left_of(v.sub(at, m)), 0, at, ""); VIEW("right_of-view", v.right_of(v.sub(at, m)), z, n - z, "");
    POS("find-char", v.find(c, near), at, ""); POS("find", v.find(xv, near), at, ""); POS("first_of", v.first_of(c, near), at, ""); POS("first_of-any", v.first_of(xv, near), at, ""); POS("first_not_of", v.first_not_of('\0', near), at, "");
    POS("last_of", v.last_of('q'), z - 1, ""); POS("last_of-any", v.last_of(xv), z - 1, ""); POS("last_not_of", v.last_not_of('\0'), z - 1, ""); POS("last_of-start", v.last_of('q', z), z - 1, "");
    POS("count-char", v.count('q', near), 1, ""); POS("count", v.count(xv, near), 1, "");
    HX_CHECK(v[at] == c && v[at - 1] == 0 && v.back() == f.p[n - 1] && v.front() == 0, "index", "far");
    BOOL("ends_with", v.ends_with(xv), z == n, ""); BOOL("ends_with", v.ends_with('q'), z == n, ""); BOOL("begins_with", v.begins_with(xv), false, ""); BOOL("begins_with", xv.begins_with(v), false, ""); BOOL("ends_with", xv.ends_with(v), false, "");
    VIEW("trimr", v.trimr('\0'), 0, z, ""); VIEW("stripr", v.stripr(xv), 0, z == n ? at : n, "");
    auto y = v.sub(at, m); BOOL("is_sub", y.is_sub(v), true, ""); BOOL("is_super", v.is_super(y), true, ""); BOOL("is_super", y.is_super(v), false, ""); BOOL("overlaps", v.overlaps(y), true, ""); BOOL("overlaps", v.first(at).overlaps(y), false, "");
    hx::seen(n, at, m);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one text in an exactly sized heap view, every query with generated patterns/positions, compared with std::string; distinct = (length, positions or pattern length, outcome) tuples"); }

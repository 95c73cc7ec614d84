// C09: splitting and path walking partition the text without loss
#include "hx.hpp"
#include <c4/substr.hpp>
using namespace c4;
using hx::Exact;
typedef std::string S;
static std::vector<S> pieces(S const& s, char sep)
{
    std::vector<S> v; if(s.empty()) return v; S cur;
    for(char c : s) if(c == sep) { v.push_back(cur); cur.clear(); } else cur += c;
    v.push_back(cur); return v;
}
static S show(std::vector<S> const& v) { S r; for(auto &x : v) r += hx::esc(x) + ","; return r; }
static S txt(hx::Rng &r, char sep)
{
    if(r.chance(1, 8)) { // long pieces, long runs of separators
        S t; size_t k = r.in(1, 6); for(size_t i = 0; i < k; ++i) t += r.coin() ? S(r.size(r.big(6)), sep) : S(r.size(r.vast(20)), sep == 'a' ? 'b' : 'a'); return t; }
    S al = S("ab") + sep + sep; if(r.chance(1, 4)) al += S("\0\xff.", 3); return r.str(r.chance(1, 10) ? 40 : r.vast(9), al);
}
static char sepof(hx::Rng &r) { static const char c[] = {'/', ',', '\0', ' ', '.', (char)0xff, 'a', ':'}; return r.pick(c); }
static S str(csubstr v) { return v.len ? S(v.str, v.len) : S(); }
template<class V> static void split_case(hx::Rng &r, S const& s, char sep)
{
    Exact e(s); V v(e.p, e.n); std::vector<S> x = pieces(s, sep), g; size_t limit = s.size() + 3;
    hx::note("split %s at %02x", hx::esc(s).c_str(), (unsigned char)sep);
    auto inside = [&](V p) { return p.len == 0 || (p.str >= v.str && p.str + p.len <= v.str + v.len); };
    bool in = true;
    for(V p : v.split(sep)) { in &= inside(p); g.push_back(str(p)); if(g.size() > limit) { hx::fail("split-endless", "%s", hx::esc(s).c_str()); return; } }
    HX_CHECK(g == x && in, "split", "%s at %02x: %s expected %s", hx::esc(s).c_str(), (unsigned char)sep, show(g).c_str(), show(x).c_str());
    // explicit iterators, pre- and post-increment, equality
    g.clear(); auto px = v.split(sep); auto i = px.begin(), n = px.end(); size_t guard = 0;
    while(i != n && guard++ < limit) { auto j = i++; HX_CHECK(!(j == n), "split-iter-eq", "iterator before the end equals the end"); g.push_back(str(*j)); HX_CHECK(j->len == g.back().size(), "split-arrow", ""); }
    HX_CHECK(g == x && i == n, "split-iter", "%s at %02x: %s expected %s", hx::esc(s).c_str(), (unsigned char)sep, show(g).c_str(), show(x).c_str());
    // cursor
    g.clear(); size_t pos = 0; V out; in = true; guard = 0;
    while(guard++ < limit && v.next_split(sep, &pos, &out)) { in &= inside(out); g.push_back(str(out)); }
    HX_CHECK(g == x && in, "next_split", "%s at %02x: %s expected %s", hx::esc(s).c_str(), (unsigned char)sep, show(g).c_str(), show(x).c_str());
    HX_CHECK(!v.next_split(sep, &pos, &out), "next_split-end", "the cursor restarts after the end");
    // join
    if(!s.empty()) { S j; for(size_t k = 0; k < g.size(); ++k) { if(k) j += sep; j += g[k]; } HX_CHECK(j == s, "join", "%s became %s", hx::esc(s).c_str(), hx::esc(j).c_str()); }
    // from a later start position
    if(!s.empty()) { size_t st = r.below(s.size()); std::vector<S> y = pieces(s.substr(st), sep); g.clear(); for(V p : v.split(sep, st)) { g.push_back(str(p)); if(g.size() > limit) break; }
        HX_CHECK(g == y, "split-start", "%s at %02x from %zu: %s expected %s", hx::esc(s).c_str(), (unsigned char)sep, st, show(g).c_str(), show(y).c_str()); }
    hx::seen(s.size(), x.size(), x.empty() ? 9 : x[0].empty() * 2 + x.back().empty());
}
SCENARIO(split, 15000, 600000) { (void)it; char sep = sepof(r); S s = txt(r, sep); split_case<csubstr>(r, s, sep); split_case<substr>(r, s, sep); hx::sample(hx::esc(s)); }
#define EQ(key, got, exp) do { auto g_ = (got); S e_ = (exp); hx::ev(); if(str(g_) != e_ || (g_.len && !(g_.str >= v.str && g_.str + g_.len <= v.str + v.len))) hx::fail(key, "%s of %s at %02x: %s, expected %s", key, hx::esc(s).c_str(), (unsigned char)sep, hx::esc(str(g_)).c_str(), hx::esc(e_).c_str()); } while(0)
template<class V> static void pop_case(S const& s, char sep)
{
    Exact e(s); V v(e.p, e.n); size_t n = s.size();
    hx::note("pop %s at %02x", hx::esc(s).c_str(), (unsigned char)sep);
    size_t f = s.find(sep), l = s.rfind(sep);
    bool none = f == S::npos;
    EQ("pop_left", v.pop_left(sep), none ? s : s.substr(0, f)); EQ("gpop_right", v.gpop_right(sep), none ? S() : s.substr(f + 1));
    EQ("pop_right", v.pop_right(sep), none ? s : s.substr(l + 1)); EQ("gpop_left", v.gpop_left(sep), none ? S() : s.substr(0, l));
    // skipping empty pieces: the popped part keeps the separators skipped on its outer side
    size_t fb = s.find_first_not_of(sep), le = s.find_last_not_of(sep); bool all = fb == S::npos; // only separators (or empty)
    size_t lend = all ? 0 : s.find(sep, fb); if(lend == S::npos) lend = n;
    size_t rbeg = all ? 0 : s.rfind(sep, le); rbeg = all ? 0 : rbeg == S::npos ? 0 : rbeg + 1;
    EQ("pop_left-skip", v.pop_left(sep, true), all ? S() : s.substr(0, lend)); EQ("pop_right-skip", v.pop_right(sep, true), all ? S() : s.substr(rbeg));
    {   S x = all ? S() : s.substr(lend); size_t b = x.find_first_not_of(sep); if(!all) EQ("gpop_right-skip", v.gpop_right(sep, true), b == S::npos ? S() : x.substr(b)); }
    {   S x = all ? S() : s.substr(0, rbeg); size_t b = x.find_last_not_of(sep); if(!all) EQ("gpop_left-skip", v.gpop_left(sep, true), b == S::npos ? S() : x.substr(0, b + 1)); }
    // walking by popping visits every piece once
    std::vector<S> x = pieces(s, sep), g;
    if(!s.empty() && x.size() * n < 2000000)
    {
        V rest = v; size_t guard = n + 3; while(guard--) { g.push_back(str(rest.pop_left(sep))); bool more = str(rest).find(sep) != S::npos; rest = rest.gpop_right(sep); if(!more) break; }
        HX_CHECK(g == x, "walk-left", "%s at %02x: %s expected %s", hx::esc(s).c_str(), (unsigned char)sep, show(g).c_str(), show(x).c_str());
        g.clear(); rest = v; guard = n + 3; while(guard--) { g.insert(g.begin(), str(rest.pop_right(sep))); bool more = str(rest).find(sep) != S::npos; rest = rest.gpop_left(sep); if(!more) break; }
        HX_CHECK(g == x, "walk-right", "%s at %02x: %s expected %s", hx::esc(s).c_str(), (unsigned char)sep, show(g).c_str(), show(x).c_str());
        // skipping empties: the non-empty pieces, once each
        std::vector<S> y; for(auto &k : x) if(!k.empty()) y.push_back(k);
        g.clear(); rest = v; guard = n + 3; while(guard-- && !rest.empty()) { V p = rest.pop_left(sep, true).trim(sep); if(p.empty()) break; g.push_back(str(p)); rest = rest.gpop_right(sep, true); }
        HX_CHECK(g == y, "walk-left-skip", "%s at %02x: %s expected %s", hx::esc(s).c_str(), (unsigned char)sep, show(g).c_str(), show(y).c_str());
        g.clear(); rest = v; guard = n + 3; while(guard-- && !rest.empty()) { V p = rest.pop_right(sep, true).trim(sep); if(p.empty()) break; g.insert(g.begin(), str(p)); rest = rest.gpop_left(sep, true); }
        HX_CHECK(g == y, "walk-right-skip", "%s at %02x: %s expected %s", hx::esc(s).c_str(), (unsigned char)sep, show(g).c_str(), show(y).c_str());
    }
    // paths
    S base = all ? S() : s.substr(rbeg, le + 1 - rbeg), dir = base.empty() ? s : s.substr(0, rbeg);
    EQ("basename", v.basename(sep), base); EQ("dirname", v.dirname(sep), dir);
    {   S j = str(v.dirname(sep)) + str(v.basename(sep)); HX_CHECK(s.compare(0, j.size(), j) == 0 && s.find_first_not_of(sep, j.size()) == S::npos, "dirname-basename", "%s: %s", hx::esc(s).c_str(), hx::esc(j).c_str()); }
    if(sep == '.')
    {
        EQ("extshort", v.extshort(), none ? s : s.substr(l + 1)); EQ("name_wo_extshort", v.name_wo_extshort(), none ? S() : s.substr(0, l));
        EQ("extlong", v.extlong(), none ? S() : s.substr(f + 1)); EQ("name_wo_extlong", v.name_wo_extlong(), none ? s : s.substr(0, f));
    }
    hx::seen(n, f + 1, l + 1, (uint64_t)all * 4 + x.size());
}
SCENARIO(popping, 20000, 800000) { (void)it; char sep = r.chance(1, 3) ? '.' : sepof(r); S s = txt(r, sep); pop_case<csubstr>(s, sep); pop_case<substr>(s, sep); hx::sample(hx::esc(s)); }
// every arrangement of separators up to a length
SCENARIO(arrangements, 4096, 131072)
{
    (void)r; uint64_t k = it; S s; size_t len = 1; while((2ull << len) - 2 <= k) ++len; k -= (1ull << len) - 2;
    for(size_t i = 0; i < len; ++i) s += (k >> i) & 1 ? '/' : (char)('a' + i % 20);
    split_case<csubstr>(r, s, '/'); pop_case<csubstr>(s, '/');
}
SCENARIO(empty, 20, 100)
{
    (void)it; (void)r; csubstr v; size_t n = 0; for(csubstr p : v.split('/')) { (void)p; if(++n > 3) break; } HX_CHECK(n == 0, "empty-split", "%zu pieces in no text", n);
    HX_CHECK(v.pop_left().len == 0 && v.pop_right().len == 0 && v.gpop_left().len == 0 && v.gpop_right().len == 0 && v.basename().len == 0 && v.dirname().len == 0 && v.extshort().len == 0 && v.extlong().len == 0, "empty-pop", "");
    csubstr w(""); n = 0; for(csubstr p : w.split('/')) { (void)p; if(++n > 3) break; } HX_CHECK(n == 0, "empty-split", "%zu pieces in an empty text", n);
    hx::seen(it);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one text and separator: every way of walking the pieces compared with a reference partition, and re-joined; distinct = (length, first/last separator, piece count)"); }

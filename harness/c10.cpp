// C10: in-place edits change exactly the designated characters
#include "hx.hpp"
#include <c4/substr.hpp>
using namespace c4;
using hx::Exact;
typedef std::string S;
static S txt(hx::Rng &r, size_t max) { if(max >= 10) max = r.vast(max); static const S al[] = {"ab", "abcABCz[`{@", S("a\0b", 3), "aaab", S("\x80\xff z", 4)}; return r.chance(1, 8) ? r.bytes(r.size(max)) : r.str(max, al[r.below(5)]); }
// the view sits inside a larger buffer whose other bytes must not change
struct Box
{
    Exact e; S left, right; substr v; size_t n;
    Box(hx::Rng &r, S const& s) : e(0), left(r.bytes(r.below(5))), right(r.bytes(r.below(5))), n(s.size()) { S all = left + s + right; free(e.base); new(&e) Exact(all); v = substr(e.p + left.size(), n); }
    void check(const char *key, S const& orig, S const& exp)
    {
        S all = e.str(); hx::ev();
        if(all.compare(0, left.size(), left) != 0 || all.compare(left.size() + n, right.size(), right) != 0) hx::fail("outside", "%s of %s touched bytes outside the view", key, hx::esc(orig).c_str());
        S got = all.substr(left.size(), n); if(got != exp) hx::fail(key, "%s of %s: %s, expected %s", key, hx::esc(orig).c_str(), hx::esc(got).c_str(), hx::esc(exp).c_str());
    }
};
SCENARIO(edits, 20000, 900000)
{
    (void)it; S s = txt(r, 16), x; size_t n = s.size(), a = r.below(n + 1), b = a + r.below(n - a + 1), k = b - a;
    hx::note("edit %s [%zu,%zu[", hx::esc(s).c_str(), a, b);
    { Box o(r, s); o.v.toupper(); x = s; for(char &c : x) if(c >= 'a' && c <= 'z') c = (char)(c - 32); o.check("toupper", s, x); }
    { Box o(r, s); o.v.tolower(); x = s; for(char &c : x) if(c >= 'A' && c <= 'Z') c = (char)(c + 32); o.check("tolower", s, x); }
    { Box o(r, s); char c = (char)r.u64(); o.v.fill(c); o.check("fill", s, S(n, c)); }
    { Box o(r, s); o.v.reverse(); o.check("reverse", s, S(s.rbegin(), s.rend())); }
    { Box o(r, s); o.v.reverse_sub(a, k); x = s; std::reverse(x.begin() + (long)a, x.begin() + (long)b); o.check("reverse_sub", s, x); }
    { Box o(r, s); o.v.reverse_range(a, b); o.check("reverse_range", s, x); }
    // copying
    { S t = txt(r, n > 20 ? n + 8 : 10); Exact te(t); csubstr tv(te.p, te.n);
      { Box o(r, s); o.v.copy_from(tv); size_t m = std::min(n, t.size()); o.check("copy_from", s, t.substr(0, m) + s.substr(m)); }
      { Box o(r, s); o.v.copy_from(tv, a); size_t m = std::min(n - a, t.size()); o.check("copy_from-at", s, s.substr(0, a) + t.substr(0, m) + s.substr(a + m)); }
      { Box o(r, s); o.v.copy_from(tv, a, k); size_t m = std::min(k, t.size()); o.check("copy_from-num", s, s.substr(0, a) + t.substr(0, m) + s.substr(a + m)); } }
    // erasing: the returned view is the shortened text at the same place
    auto erased = [&](const char *key, Box &o, substr g) {
        x = s.substr(0, a) + s.substr(b); S all = o.e.str(); hx::ev();
        if(g.str != o.v.str || S(g.str, g.len) != x) hx::fail(key, "%s of %s [%zu,%zu[: %s, expected %s", key, hx::esc(s).c_str(), a, b, hx::esc(g.str, g.len).c_str(), hx::esc(x).c_str());
        if(all.compare(0, o.left.size(), o.left) != 0 || all.compare(o.left.size() + n, o.right.size(), o.right) != 0) hx::fail("outside", "%s touched bytes outside the view", key); };
    { Box o(r, s); erased("erase", o, o.v.erase(a, k)); }
    { Box o(r, s); erased("erase_range", o, o.v.erase_range(a, b)); }
    if(n) { Box o(r, s); erased("erase-view", o, o.v.erase(csubstr(o.v.str + a, k))); }
    hx::seen(n, a, b); hx::sample(hx::esc(s));
}
SCENARIO(replace_chars, 20000, 700000)
{
    (void)it; S s = txt(r, 16), x; size_t n = s.size(), st = r.coin() ? 0 : r.chance(1, 10) ? (size_t)-1 : r.below(n + 1);
    char c = n && r.chance(3, 4) ? s[r.below(n)] : (char)r.u64(), d = r.chance(1, 6) ? c : (char)r.u64();
    hx::note("replace %s %02x by %02x from %zd", hx::esc(s).c_str(), (unsigned char)c, (unsigned char)d, (ssize_t)st);
    { Box o(r, s); size_t g = o.v.replace(c, d, st), k = 0; x = s; for(size_t i = st; i < n; ++i) if(x[i] == c) { x[i] = d; ++k; } o.check("replace-char", s, x); HX_CHECK(g == k, "replace-count", "%zu expected %zu", g, k); }
    { S cs = r.chance(1, 6) ? S() : txt(r, 4); if(n && r.coin()) cs += s[r.below(n)]; Exact ce(cs); hx::note("replace %s any of %s by %02x from %zd", hx::esc(s).c_str(), hx::esc(cs).c_str(), (unsigned char)d, (ssize_t)st);
      Box o(r, s); size_t g = o.v.replace(csubstr(ce.p, ce.n), d, st), k = 0; x = s; for(size_t i = st; i < n; ++i) if(cs.find(s[i]) != S::npos) { x[i] = d; ++k; } o.check("replace-any", s, x); HX_CHECK(g == k, "replace-count", "%zu expected %zu", g, k); }
    hx::seen(n, st, (unsigned char)c);
}
SCENARIO(replace_all, 25000, 1000000)
{
    (void)it; static const S al[] = {"ab", "a", "abc"}; S s = r.str(r.vast(14), al[r.below(3)]); if(r.chance(1, 6)) s = txt(r, 14);
    size_t n = s.size(), st = r.coin() ? 0 : r.chance(1, 10) ? (size_t)-1 : r.below(n + 1);
    S p = n && r.chance(3, 4) ? s.substr(r.below(n), r.in(1, r.big(3))) : r.str(3, al[0]), q = r.chance(1, 4) ? S() : txt(r, r.coin() ? 2 : r.big(8)); if(p.empty()) p = "a";
    S x = s.substr(0, std::min(st, n)); for(size_t i = std::min(st, n);;) { size_t e = s.find(p, i); if(e == S::npos) { x += s.substr(i); break; } x += s.substr(i, e - i) + q; i = e + p.size(); }
    Exact se(s), pe(p), qe(q);
    size_t lens[] = {0, x.size(), x.size() ? x.size() - 1 : 0, x.size() + r.below(5), r.below(x.size() + 1)};
    for(size_t dl : lens)
    {
        Exact d(dl, 0x7e); hx::note("replace_all %s pattern=%s repl=%s from %zd into %zu", hx::esc(s).c_str(), hx::esc(p).c_str(), hx::esc(q).c_str(), (ssize_t)st, dl);
        size_t g = csubstr(se.p, se.n).replace_all(substr(d.p, d.n), csubstr(pe.p, pe.n), csubstr(qe.p, qe.n), st);
        HX_CHECK(g == x.size(), "replace_all-size", "%s, %s->%s from %zd into %zu: needs %zu, expected %zu", hx::esc(s).c_str(), hx::esc(p).c_str(), hx::esc(q).c_str(), (ssize_t)st, dl, g, x.size());
        if(dl >= x.size()) { HX_CHECK(d.str(x.size()) == x, "replace_all", "%s, %s->%s from %zd: %s, expected %s", hx::esc(s).c_str(), hx::esc(p).c_str(), hx::esc(q).c_str(), (ssize_t)st, hx::esc(d.str(x.size())).c_str(), hx::esc(x).c_str());
            for(size_t i = x.size(); i < dl; ++i) if(d.p[i] != 0x7e) { hx::fail("replace_all-spill", "wrote past the result"); break; } }
        HX_CHECK(se.str() == s, "replace_all-source", "the source changed");
        if(g > (1u << 20)) break;
    }
    { substr nodst; size_t g = csubstr(se.p, se.n).replace_all(nodst, csubstr(pe.p, pe.n), csubstr(qe.p, qe.n), st); if(st == 0) { Exact d(x.size()); size_t g2 = csubstr(se.p, se.n).replace_all(substr(d.p, d.n), csubstr(pe.p, pe.n), csubstr(qe.p, qe.n)); HX_CHECK(g2 == x.size() && d.str() == x, "replace_all-default", "from the start: %s expected %s", hx::esc(d.str()).c_str(), hx::esc(x).c_str()); } HX_CHECK(g == x.size(), "replace_all-size", "into a null destination: %zu expected %zu", g, x.size()); }
    hx::seen(n, p.size(), q.size(), x.size()); hx::sample(hx::esc(s) + " " + hx::esc(p) + "->" + hx::esc(q));
}
// edits at positions which 32 bits cannot tell
SCENARIO(far, 300, 6000)
{
    (void)it; hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    size_t n = hx::Far::len(r), m = 1 + r.below(60), at = n - m - r.below(50); S x = r.str(60, "abAB"); x.resize(m, 'c'); f.put(at, x); f.touched(at - 100, 100); f.touched(at + m, 300); substr v(f.p, n); S t = r.str(20, "xyz") + "w"; Exact te(t); csubstr tv(te.p, te.n);
    size_t a = r.below(m), k = 1 + r.below(m - a); hx::note("far: %zu characters, %s at %zu, [%zu,+%zu)", n, x.c_str(), at, a, k);
    // what the neighbourhood must hold
    auto is = [&](const char *key, S e, size_t len) { S g(f.p + at - 50, 50 + e.size() + 20), w = S(50, 0) + e + S(20, 0); HX_CHECK(g == w && len == e.size(), key, "%s: %s, expected %s", key, hx::esc(g).c_str(), hx::esc(w).c_str()); memset(f.p + at - 50, 0, 50 + e.size() + 20); memcpy(f.p + at, x.data(), m); };
    S e; e = x; std::reverse(e.begin() + (long)a, e.begin() + (long)(a + k)); v.reverse_sub(at + a, k); is("reverse_sub", e, m); v.reverse_range(at + a, at + a + k); is("reverse_range", e, m);
    e = x; e.resize(std::max(m, a + t.size()), '\0'); size_t room = n - at - a, c = std::min(room, t.size()); e = x; if(e.size() < a + c) e.resize(a + c, '\0'); e.replace(a, c, t.substr(0, c)); v.copy_from(tv, at + a); is("copy_from-at", e, e.size());
    c = std::min(k, t.size()); e = x; e.replace(a, c, t.substr(0, c)); v.copy_from(tv, at + a, k); is("copy_from-num", e, m);
    { size_t g = v.replace('c', 'd', at), q = 0; e = x; for(char &h : e) if(h == 'c') { h = 'd'; ++q; } is("replace-char", e, m); HX_CHECK(g == q, "replace-count", "%zu expected %zu", g, q); }
    { substr g = v.erase(at + a, k); e = x.substr(0, a) + x.substr(a + k); HX_CHECK(g.str == v.str && g.len == n - k && S(f.p + at, e.size()) == e, "erase", "far: %zu left of %zu", g.len, n); memset(f.p + at - 50, 0, 200); memcpy(f.p + at, x.data(), m); }
    { substr g = v.erase_range(at + a, at + a + k); HX_CHECK(g.str == v.str && g.len == n - k && S(f.p + at, e.size()) == e, "erase_range", "far: %zu left of %zu", g.len, n); memset(f.p + at - 50, 0, 200); memcpy(f.p + at, x.data(), m); }
    v.sub(at + a, k).fill('F'); e = x; e.replace(a, k, S(k, 'F')); is("fill", e, m);
    hx::seen(n, at, a);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one text inside a larger exactly sized heap buffer, every edit compared with std::string and the surrounding bytes re-read; distinct = (length, positions / pattern and replacement lengths)"); }

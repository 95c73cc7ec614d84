// C25: standard containers interoperate without loss
#include "hx.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#include <c4/std/string_view.hpp>
using namespace c4;
using hx::Exact;
typedef std::string S;
static S txt(hx::Rng &r, size_t max) { if(max >= 8) max = r.vast(max); static const S al[] = {"ab", S("a\0b", 3), S("\0\x01\x7f\x80\xff", 5), "abcdefghij"}; return r.chance(1, 6) ? r.bytes(r.size(max)) : r.str(max, al[r.below(4)]); }
static int cmp(S const& a, S const& b) { // characters compare as char
    for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1; }
template<class C> static void ops(const char *k, C const& c, csubstr s, int expected /* cmp(c, s) */)
{
    int e = expected; struct { const char *n; bool got, want; } t[] = {
        {"c==s", c == s, e == 0}, {"c!=s", c != s, e != 0}, {"c<s", c < s, e < 0}, {"c<=s", c <= s, e <= 0}, {"c>s", c > s, e > 0}, {"c>=s", c >= s, e >= 0},
        {"s==c", s == c, e == 0}, {"s!=c", s != c, e != 0}, {"s<c", s < c, e > 0}, {"s<=c", s <= c, e >= 0}, {"s>c", s > c, e < 0}, {"s>=c", s >= c, e <= 0}};
    for(auto &x : t) HX_CHECK(x.got == x.want, "compare", "%s %s is %d, expected %d (view %s)", k, x.n, x.got, x.want, hx::esc(s.str, s.len).c_str());
}
static S var(hx::Rng &r, S const& a)
{
    S b = a; switch(r.below(6)) { case 0: break; case 1: b = a.substr(0, r.below(a.size() + 1)); break; case 2: b += txt(r, 3); break;
    case 3: if(!b.empty()) b[r.below(b.size())] = (char)r.u64(); break; case 4: if(!b.empty()) b[r.below(b.size())] ^= (char)(1 << r.below(8)); break; default: b = txt(r, 8); }
    return b;
}
SCENARIO(compare, 40000, 2000000)
{
    (void)it; S a = txt(r, 12), b = var(r, a); int e = cmp(a, b); Exact be(b); csubstr s(be.p, be.n); if(b.empty() && r.coin()) s = csubstr();
    hx::note("compare " + hx::esc(a) + " with " + hx::esc(b));
    ops("string", a, s, e); std::vector<char> v(a.begin(), a.end()); v.shrink_to_fit(); ops("vector", v, s, e);
    Exact ae(a); 
#if C4_CPP >= 17
    std::string_view sv(ae.p, ae.n); if(a.empty() && r.coin()) sv = std::string_view(); ops("string_view", sv, s, e);
#endif
    {   // with parts of itself
        size_t i = r.coin() ? 0 : r.below(a.size() + 1), n = r.chance(1, 4) ? a.size() - i : r.below(a.size() - i + 1); int eo = cmp(a, a.substr(i, n));
        hx::note("compare " + hx::esc(a) + hx::fmt(" with its [%zu,+%zu[", i, n));
        ops("string, own part", a, to_csubstr(a).sub(i, n), eo); ops("vector, own part", v, to_csubstr(v).sub(i, n), eo);
#if C4_CPP >= 17
        ops("string_view, own part", std::string_view(a), to_csubstr(a).sub(i, n), eo);
#endif
    }
    hx::seen(a.size(), b.size(), (uint64_t)(e + 1), hx::hbytes(a.data(), a.size()) % 8);
}
// a container with room to spare, or which held more before
template<class C> static void roomy(hx::Rng &r, C &c) { switch(r.below(3)) { case 0: c.reserve(c.size() + 1 + r.below(60)); break; case 1: { size_t n = c.size(); c.resize(n + 1 + r.below(40), '#'); c.resize(n); break; } default: break; } }
template<class C> static void conv(hx::Rng &r, S const& a, const char *k)
{
    C c(a.begin(), a.end()); const C &cc = c; roomy(r, c);
    { csubstr v = to_csubstr(cc); HX_CHECK(v.len == a.size() && (a.empty() || (const void*)v.str == (const void*)&cc[0]), "view", "%s to_csubstr: length %zu expected %zu", k, v.len, a.size()); }
    { substr v = to_substr(c); HX_CHECK(v.len == a.size() && (a.empty() || v.str == &c[0]), "view", "%s to_substr: length %zu expected %zu", k, v.len, a.size());
      if(v.len) { size_t i = r.below(v.len); char o = v[i]; v[i] = (char)(o ^ 0x55); HX_CHECK(c[i] == (char)(o ^ 0x55), "view-write", "%s writing through the view", k); v[i] = o; } }
    for(size_t len : {(size_t)0, a.size(), a.size() + 1, r.below(a.size() + 1), a.size() ? a.size() - 1 : 0})
    {
        Exact b(len, 0x7e); size_t n = to_chars(substr(b.p, b.n), cc);
        HX_CHECK(n == a.size(), "size", "%s to_chars into %zu: %zu expected %zu", k, len, n, a.size());
        if(len >= a.size()) { HX_CHECK(b.str(a.size()) == a, "text", "%s to_chars: %s expected %s", k, hx::esc(b.str()).c_str(), hx::esc(a).c_str()); HX_CHECK(len == a.size() || b.p[a.size()] == 0x7e, "spill", "%s to_chars wrote past its text", k); }
        else HX_CHECK(b.str() == a.substr(0, len), "text-cut", "%s to_chars into %zu: %s expected a prefix of %s", k, len, hx::esc(b.str()).c_str(), hx::esc(a).c_str());
    }
    { substr nul; HX_CHECK(to_chars(nul, cc) == a.size(), "size-null", "%s to_chars into a null buffer", k); }
    S pre = txt(r, 30); if(r.coin()) pre = S(a.size() + r.below(r.coin() ? 8 : a.size() + 40), r.coin() ? '~' : 'a'); else if(r.chance(1, 4)) pre = S(r.below(a.size() + 1), '~'); C d(pre.begin(), pre.end()); if(r.coin()) d.reserve(a.size() + 40); if(r.chance(1, 6)) d.clear();
    Exact ae(a); csubstr src(ae.p, ae.n); if(a.empty() && r.coin()) src = csubstr();
    bool ok = from_chars(src, &d); hx::ev();
    if(!ok || S(d.begin(), d.end()) != a) hx::fail("read", "%s from_chars(%s): ok=%d holds %s (held %s)", k, hx::esc(a).c_str(), ok, hx::esc(S(d.begin(), d.end())).c_str(), hx::esc(pre).c_str());
    HX_CHECK(ae.str() == a, "source", "%s from_chars changed its source", k);
}
SCENARIO(convert, 20000, 1000000)
{
    (void)it; S a = txt(r, r.chance(1, 5) ? 200 : 20); hx::note("convert " + hx::esc(a)); hx::sample(hx::esc(a));
    conv<std::string>(r, a, "string"); conv<std::vector<char>>(r, a, "vector");
    Exact ae(a);
#if C4_CPP >= 17
    std::string_view sv(ae.p, ae.n); if(a.empty() && r.coin()) sv = std::string_view();
    csubstr v = to_csubstr(sv); HX_CHECK(v.len == a.size() && v.str == sv.data(), "view", "string_view to_csubstr");
    for(size_t len : {(size_t)0, a.size(), a.size() + 1, r.below(a.size() + 1)})
    {
        Exact b(len, 0x7e); size_t n = to_chars(substr(b.p, b.n), sv); HX_CHECK(n == a.size(), "size", "string_view to_chars into %zu: %zu expected %zu", len, n, a.size());
        S w = b.str(), x = len >= a.size() ? a + S(len - a.size(), 0x7e) : a.substr(0, len); HX_CHECK(w == x, "text", "string_view to_chars: %s expected %s", hx::esc(w).c_str(), hx::esc(x).c_str());
    }
#endif
    hx::seen(a.size(), hx::hbytes(a.data(), a.size()) % 512);
}
// reading text into views: a read-only view is set to the text, a writable one receives a copy or is left alone
SCENARIO(views, 12000, 500000)
{
    (void)it; S a = txt(r, r.chance(1, 5) ? 60 : 4); size_t cap = r.chance(1, 3) ? a.size() : r.below(a.size() * 2 + 3);
    hx::note("view of %zu bytes from %s", cap, hx::esc(a).c_str());
    Exact ae(a), b(cap, 0x7e); csubstr src(ae.p, ae.n); if(a.empty() && r.coin()) src = csubstr();
    substr v(b.p, b.n); if(cap == 0 && r.coin()) v = substr();
    bool ok = from_chars(src, &v), fits = a.size() <= cap;
    HX_CHECK(ok == fits, "view-accept", "%zu bytes into a view of %zu: %d", a.size(), cap, ok);
    if(ok && fits)
    {
        HX_CHECK(v.len == a.size() && (a.empty() || v.str == b.p) && b.str(a.size()) == a, "view-text", "%s expected %s", hx::esc(b.str()).c_str(), hx::esc(a).c_str());
        HX_CHECK(b.str().substr(a.size()) == S(cap - a.size(), 0x7e), "view-spill", "wrote past the text");
    }
    else HX_CHECK(b.str() == S(cap, 0x7e) && v.len == cap, "view-refused", "a refused read changed the destination");
    csubstr c("zz"); ok = from_chars(src, &c); HX_CHECK(ok && c.len == a.size() && (a.empty() || c.str == ae.p), "view-csubstr", "csubstr from %s: %d, %zu", hx::esc(a).c_str(), ok, c.len);
    HX_CHECK(ae.str() == a, "source", "from_chars changed its source");
    for(size_t len : {a.size(), r.below(a.size() + 1), a.size() + 1})
    {
        Exact d(len, 0x7e); substr m(ae.p, ae.n); size_t n = to_chars(substr(d.p, d.n), m);
        S x = len >= a.size() ? a + S(len - a.size(), 0x7e) : a.substr(0, len); HX_CHECK(n == a.size() && d.str() == x, "view-write", "%zu %s expected %s", n, hx::esc(d.str()).c_str(), hx::esc(x).c_str());
    }
    hx::seen(a.size(), cap, fits);
}
// through the variadic writers, mixed with other arguments
SCENARIO(mixed, 8000, 300000)
{
    (void)it; S a = txt(r, 20), b = txt(r, 20); std::vector<char> v(b.begin(), b.end()); int n = (int)r.below(1000); S x = a + ":" + std::to_string(n) + ":" + b;
    hx::note("mixed " + hx::esc(x)); S o; catrs(&o, a, ':', n, ':', v); HX_CHECK(o == x, "cat", "%s expected %s", hx::esc(o).c_str(), hx::esc(x).c_str());
    std::vector<char> w; formatrs(&w, "{}:{}:{}", a, n, v); HX_CHECK(S(w.begin(), w.end()) == x, "format", "%s expected %s", hx::esc(S(w.begin(), w.end())).c_str(), hx::esc(x).c_str());
#if C4_CPP >= 17
    catseprs(&o, ':', std::string_view(a), n, v); HX_CHECK(o == x, "catsep", "%s expected %s", hx::esc(o).c_str(), hx::esc(x).c_str());
#endif
    hx::seen(a.size(), b.size(), (uint64_t)n % 7);
}
#if C4_CPP >= 17
// views which 32 bits cannot tell
SCENARIO(far, 300, 6000)
{
    (void)it; hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    size_t n = hx::Far::len(r), k = r.below(30); hx::note("far: %zu", n); std::string_view w(f.p, n); csubstr v = to_csubstr(w); HX_CHECK(v.str == f.p && v.len == n, "far-view", "%zu characters: view of %zu", n, v.len);
    S x(k, '\0'); HX_CHECK(v > x && x < v && v != x && !(v == x) && !(x == v) && x != v && !(v <= x) && v >= x && x <= v && !(x >= v), "far-compare", "%zu characters against %zu", n, k); csubstr sv(x.data(), x.size()); HX_CHECK(w > sv && sv < w && w != sv && !(w == sv) && w >= sv && !(w <= sv), "far-compare", "%zu characters against %zu", n, k);
    Exact b(k, 0x7e); size_t g = to_chars(substr(b.p, b.n), w); HX_CHECK(g == n, "far-size", "writing %zu characters into %zu reports %zu", n, k, g);
    { substr d(b.p, b.n); S o = b.str(); Exact e(k, 0x33); substr dd(e.p, e.n); bool ok = from_chars(v, &dd); HX_CHECK(!ok && e.str() == S(k, 0x33), "far-refuse", "reading %zu characters into a view of %zu", n, k); }
    hx::seen(n, k);
}
#endif
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one pair of byte strings compared through 12 operators per container kind, or one byte string viewed, written at 5 lengths and read into reused containers; distinct = (sizes, order, content hash bucket)"); }

// C08: comparison is a total order consistent with plain strings
#include "hx.hpp"
#include <c4/substr.hpp>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#if __cplusplus >= 201703L
#include <c4/std/string_view.hpp>
#endif
using namespace c4;
using hx::Exact;
typedef std::string S;
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
static int rcmp(S const& a, S const& b) // characters compare as char
{
    for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
static S txt(hx::Rng &r)
{
    static const S al[] = {"ab", "a", S("a\0", 2), S("\x80\x7f\xff\x01", 4), "abcdef"};
    return r.chance(1, 8) ? r.bytes(r.size(r.vast(10))) : r.str(r.vast(8), al[r.below(5)]);
}
static S near(hx::Rng &r, S const& a)
{
    S b = a;
    switch(r.below(6)) {
    case 0: return b; case 1: return b + txt(r); case 2: return b.substr(0, r.below(b.size() + 1));
    case 3: if(!b.empty()) b[r.below(b.size())] = (char)r.u64(); return b;
    case 4: if(!b.empty()) b[r.below(b.size())] ^= (char)(1 << r.below(8)); return b;
    default: return txt(r); }
}
// all six operators and the three-way result agree
#define OPS(key, x, y, e) do { int e_ = (e); auto const& x_ = (x); auto const& y_ = (y); \
    HX_CHECK((x_ == y_) == (e_ == 0) && (x_ != y_) == (e_ != 0) && (x_ < y_) == (e_ < 0) && (x_ > y_) == (e_ > 0) && (x_ <= y_) == (e_ <= 0) && (x_ >= y_) == (e_ >= 0), key, "%s: %s vs %s, expected order %d, operators ==%d !=%d <%d >%d <=%d >=%d", key, hx::esc(a).c_str(), hx::esc(b).c_str(), e_, x_ == y_, x_ != y_, x_ < y_, x_ > y_, x_ <= y_, x_ >= y_); } while(0)
static void pair(S const& a, S const& b)
{
    Exact ea(a), eb(b); csubstr ca(ea.p, ea.n), cb(eb.p, eb.n); substr ma(ea.p, ea.n), mb(eb.p, eb.n);
    hx::note("%s vs %s", hx::esc(a).c_str(), hx::esc(b).c_str());
    int e = rcmp(a, b);
    HX_CHECK(sgn(ca.compare(cb)) == e, "compare", "%s vs %s: %d expected %d", hx::esc(a).c_str(), hx::esc(b).c_str(), ca.compare(cb), e);
    HX_CHECK(sgn(ma.compare(cb)) == e, "compare-rw", "%s vs %s", hx::esc(a).c_str(), hx::esc(b).c_str());
    HX_CHECK(sgn(ca.compare(eb.p, eb.n)) == e, "compare-ptr", "%s vs %s", hx::esc(a).c_str(), hx::esc(b).c_str());
    HX_CHECK(sgn(cb.compare(ca)) == -e, "antisymmetry", "%s vs %s", hx::esc(a).c_str(), hx::esc(b).c_str());
    OPS("cc", ca, cb, e); OPS("cm", ca, mb, e); OPS("mc", ma, cb, e); OPS("mm", ma, mb, e);
    OPS("string", a, cb, e); OPS("string", ca, b, e);
    std::vector<char> va(a.begin(), a.end()), vb(b.begin(), b.end());
    OPS("vector", va, cb, e); OPS("vector", ca, vb, e);
#if __cplusplus >= 201703L
    std::string_view wa(ea.p, ea.n), wb(eb.p, eb.n); OPS("string_view", wa, cb, e); OPS("string_view", ca, wb, e);
#endif
    if(!b.empty()) { char c = b[0]; S one(1, c); int e1 = rcmp(a, one);
        HX_CHECK(sgn(ca.compare(c)) == e1, "compare-char", "%s vs char %02x: %d expected %d", hx::esc(a).c_str(), (unsigned char)c, ca.compare(c), e1);
        { S const b = one; OPS("char", ca, c, e1); OPS("char", ma, c, e1); OPS("char-left", c, ca, -e1); OPS("char-left", c, ma, -e1); } }
    hx::seen(a.size(), b.size(), (uint64_t)(e + 1), hx::hbytes(b.data(), b.size()) & 0xff);
}
SCENARIO(pairs, 40000, 2000000) { (void)it; S a = txt(r); pair(a, near(r, a)); hx::sample(hx::esc(a)); }
// views of one and the same buffer: same start, same end, overlapping, and the owner compared with parts of itself
SCENARIO(aliased, 20000, 1000000)
{
    (void)it; S t = txt(r); if(t.empty() || r.coin()) t += txt(r); size_t n = t.size(); std::vector<char> vec(t.begin(), t.end()); Exact ex(t);
    size_t i0 = r.below(n + 1), j0 = i0 + r.below(n - i0 + 1), i1 = r.coin() ? i0 : r.below(n + 1), j1 = r.chance(1, 3) && j0 >= i1 ? j0 : i1 + r.below(n - i1 + 1);
    if(r.chance(1, 4)) { i0 = 0; j0 = n; }
    S a = t.substr(i0, j0 - i0), b = t.substr(i1, j1 - i1); int e = rcmp(a, b);
    hx::note("aliased %s [%zu,%zu[ vs [%zu,%zu[", hx::esc(t).c_str(), i0, j0, i1, j1);
    csubstr ca(ex.p + i0, j0 - i0), cb(ex.p + i1, j1 - i1); substr ma(ex.p + i0, j0 - i0), mb(ex.p + i1, j1 - i1);
    HX_CHECK(sgn(ca.compare(cb)) == e && sgn(cb.compare(ca)) == -e && sgn(ma.compare(cb.str, cb.len)) == e, "aliased", "%s vs %s of one buffer: %d expected %d", hx::esc(a).c_str(), hx::esc(b).c_str(), ca.compare(cb), e);
    OPS("aliased-cc", ca, cb, e); OPS("aliased-cm", ca, mb, e); OPS("aliased-mc", ma, cb, e); OPS("aliased-mm", ma, mb, e);
    { S const& a = t; int e = rcmp(t, b); csubstr own(t.data() + i1, j1 - i1); OPS("aliased-string", t, own, e); { S const& b = t; S const a(own.str, own.len); OPS("aliased-string", own, t, -e); }
      csubstr ownv(vec.data() + i1, j1 - i1); OPS("aliased-vector", vec, ownv, e); }
    hx::seen(n, i0 == i1, j0 == j1, (uint64_t)(e + 1));
}
// string literals, including embedded NUL
SCENARIO(literals, 4000, 100000)
{
    (void)it; S a = txt(r); Exact ea(a); csubstr ca(ea.p, ea.n); substr ma(ea.p, ea.n);
#define LIT(l) { S b(l, sizeof(l) - 1); int e = rcmp(a, b); hx::note("%s vs literal %s", hx::esc(a).c_str(), hx::esc(b).c_str()); OPS("literal", ca, l, e); OPS("literal", ma, l, e); OPS("literal-left", l, ca, -e); OPS("literal-left", l, ma, -e); }
    if(r.coin()) { static const S fixed[] = {S(""), S("a"), S("ab"), S("abc"), S("a\0b", 3), S("\xff")}; a = fixed[r.below(6)]; }
    { Exact eb(a); csubstr ca(eb.p, eb.n); substr ma(eb.p, eb.n); LIT("") LIT("a") LIT("ab") LIT("abc") LIT("a\0b") LIT("\xff") }
    hx::seen(a.size(), hx::hbytes(a.data(), a.size()) & 0xff);
}
// order laws over triples, decided on the library's own answers
SCENARIO(triples, 20000, 1000000)
{
    (void)it; S s[3]; s[0] = txt(r); s[1] = near(r, s[0]); s[2] = near(r, s[r.below(2)]);
    Exact e0(s[0]), e1(s[1]), e2(s[2]); csubstr v[3] = {csubstr(e0.p, e0.n), csubstr(e1.p, e1.n), csubstr(e2.p, e2.n)};
    hx::note("%s %s %s", hx::esc(s[0]).c_str(), hx::esc(s[1]).c_str(), hx::esc(s[2]).c_str());
    for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) for(int k = 0; k < 3; ++k)
    {
        if(v[i] < v[j] && v[j] < v[k]) HX_CHECK(v[i] < v[k], "transitive", "%d %d %d", i, j, k);
        if(v[i] <= v[j] && v[j] <= v[k]) HX_CHECK(v[i] <= v[k], "transitive-le", "%d %d %d", i, j, k);
        if(v[i] == v[j]) HX_CHECK(v[i].compare(v[k]) == v[j].compare(v[k]), "congruence", "%d %d %d", i, j, k);
    }
    for(int i = 0; i < 3; ++i) HX_CHECK(v[i] == v[i] && !(v[i] < v[i]), "reflexive", "%d", i);
    hx::seen(s[0].size(), s[1].size(), s[2].size(), (uint64_t)(v[0].compare(v[1]) * 3 + v[1].compare(v[2]) + 4));
}
// views without memory
SCENARIO(nulls, 2000, 20000)
{
    (void)it; S a = r.coin() ? S() : txt(r), b; Exact ea(a); csubstr ca(ea.p, ea.n), nu; substr mnu;
    int e = a.empty() ? 0 : 1;
    hx::note("null vs %s", hx::esc(a).c_str());
    OPS("null", ca, nu, e); OPS("null-left", nu, ca, -e); OPS("null", ca, mnu, e); OPS("null-left", mnu, ca, -e); OPS("null-null", nu, mnu, 0);
    char c = (char)r.u64(); OPS("null-char", nu, c, -1);
    HX_CHECK(nu == nullptr && !(nu != nullptr) && ca != nullptr, "nullptr", "");
    // only the characters inside the views matter: same content at another place, followed by something else
    S t = a + "zz", u = a + "aa"; Exact et(t), eu(u); csubstr x(et.p, a.size()), y(eu.p, a.size()); HX_CHECK(x == y && x.compare(y) == 0, "outside", "%s", hx::esc(a).c_str());
    hx::seen(a.size(), (unsigned char)c);
}
// lengths which differ by more than 31 or 32 bits can tell
SCENARIO(far, 300, 6000)
{
    (void)it; hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    S a = "<far>", b = "<near>"; size_t n = hx::Far::len(r), k = r.coin() ? r.below(40) : n % (size_t(1) << 31); if(k > 5000) k = 1 + r.below(40); S x = r.str(k, "ab"); k = x.size(); f.put(0, x); hx::note("%zu characters vs %s", n, x.c_str());
    csubstr l(f.p, n), s(f.p, k); substr lm(f.p, n), sm(f.p, k); Exact xe(x); csubstr t(xe.p, xe.n);
    HX_CHECK(l.compare(s) > 0 && s.compare(l) < 0 && l.compare(t) > 0 && t.compare(l) < 0 && l.compare(f.p, k) > 0, "compare", "%zu characters against their first %zu: %d %d", n, k, l.compare(s), s.compare(l));
    OPS("cc", l, s, 1); OPS("cc", s, l, -1); OPS("mm", lm, sm, 1); OPS("mc", sm, l, -1); OPS("cm", l, sm, 1); OPS("string", x, l, -1); OPS("string", l, x, 1);
#if __cplusplus >= 201703L
    std::string_view w(f.p, n); OPS("string_view", w, s, 1); OPS("string_view", s, w, -1);
#endif
    char c = f.p[0]; OPS("char", l, c, 1); OPS("char-left", c, l, -1);
    if(k) { S g = x; g.back() = (char)(g.back() + (r.coin() ? 1 : -1)); Exact ge(g); csubstr gv(ge.p, ge.n); int e = g.back() > x.back() ? 1 : -1; OPS("far-content", gv, l, e); OPS("far-content", l, gv, -e); }
    hx::seen(n, k);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one pair (or triple) of views, all operators and mixed-type operators against a reference order; distinct = (lengths, order, content class)"); }

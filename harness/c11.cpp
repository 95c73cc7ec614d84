// C11: cat/catsep/format compose exactly the text of their arguments
#include "args.hpp"
using namespace c4;
using hx::Exact;
using args::Arg;
typedef std::string S;

// the operation under test, with a recorded argument list
struct Cat { S ref; std::vector<Arg> a;
    struct F { substr b; template<class... A> size_t operator()(A const&... x) const { return cat(b, x...); } };
    size_t run(substr b) { F f{b}; return ARGS_CALL(f, a); }
    struct FS { substr b; template<class... A> substr operator()(A const&... x) const { return cat_sub(b, x...); } };
    substr sub(substr b) { FS f{b}; return ARGS_CALL(f, a); }
    template<class C> struct FR { C *c; template<class... A> void operator()(A const&... x) const { catrs(c, x...); } };
    template<class C> void rs(C *c) { FR<C> f{c}; ARGS_CALL(f, a); }
    template<class C> struct FN { template<class... A> C operator()(A const&... x) const { return catrs<C>(x...); } };
    template<class C> C mk() { FN<C> f; return ARGS_CALL(f, a); }
    template<class C> struct FA { C *c; template<class... A> csubstr operator()(A const&... x) const { return catrs_append(c, x...); } };
    template<class C> csubstr app(C *c) { FA<C> f{c}; return ARGS_CALL(f, a); }
};
struct Catsep { S ref; std::vector<Arg> a; Arg sep;
    struct F { substr b; Arg const& s; template<class... A> size_t operator()(A const&... x) const { return catsep(b, s, x...); } };
    size_t run(substr b) { F f{b, sep}; return ARGS_CALL(f, a); }
    struct FS { substr b; Arg const& s; template<class... A> substr operator()(A const&... x) const { return catsep_sub(b, s, x...); } };
    substr sub(substr b) { FS f{b, sep}; return ARGS_CALL(f, a); }
    template<class C> struct FR { C *c; Arg const& s; template<class... A> void operator()(A const&... x) const { catseprs(c, s, x...); } };
    template<class C> void rs(C *c) { FR<C> f{c, sep}; ARGS_CALL(f, a); }
    template<class C> struct FN { Arg const& s; template<class... A> C operator()(A const&... x) const { return catseprs<C>(s, x...); } };
    template<class C> C mk() { FN<C> f{sep}; return ARGS_CALL(f, a); }
    template<class C> struct FA { C *c; Arg const& s; template<class... A> csubstr operator()(A const&... x) const { return catseprs_append(c, s, x...); } };
    template<class C> csubstr app(C *c) { FA<C> f{c, sep}; return ARGS_CALL(f, a); }
};
struct Fmt { S ref; std::vector<Arg> a; csubstr f_;
    struct F { substr b; csubstr s; template<class... A> size_t operator()(A const&... x) const { return format(b, s, x...); } };
    size_t run(substr b) { F f{b, f_}; return ARGS_CALL(f, a); }
    struct FS { substr b; csubstr s; template<class... A> substr operator()(A const&... x) const { return format_sub(b, s, x...); } };
    substr sub(substr b) { FS f{b, f_}; return ARGS_CALL(f, a); }
    template<class C> struct FR { C *c; csubstr s; template<class... A> void operator()(A const&... x) const { formatrs(c, s, x...); } };
    template<class C> void rs(C *c) { FR<C> f{c, f_}; ARGS_CALL(f, a); }
    template<class C> struct FN { csubstr s; template<class... A> C operator()(A const&... x) const { return formatrs<C>(s, x...); } };
    template<class C> C mk() { FN<C> f{f_}; return ARGS_CALL(f, a); }
    template<class C> struct FA { C *c; csubstr s; template<class... A> csubstr operator()(A const&... x) const { return formatrs_append(c, s, x...); } };
    template<class C> csubstr app(C *c) { FA<C> f{c, f_}; return ARGS_CALL(f, a); }
};
template<class C> static S tos(C const& c) { return S(c.begin(), c.end()); }
template<class C, class Op> static void containers(hx::Rng &r, Op &op, const char *what)
{
    S pre = r.str(r.coin() ? 5 : 100, "0123456789");
    { C c(pre.begin(), pre.end()); if(r.coin()) c.reserve(op.ref.size() + 20); op.rs(&c); HX_CHECK(tos(c) == op.ref, "resize", "%s container holds %s, expected %s", what, hx::esc(tos(c)).c_str(), hx::esc(op.ref).c_str()); }
    { C c = op.template mk<C>(); HX_CHECK(tos(c) == op.ref, "make", "%s container holds %s, expected %s", what, hx::esc(tos(c)).c_str(), hx::esc(op.ref).c_str()); }
    { C c(pre.begin(), pre.end()); if(r.chance(1, 4)) c.clear(); if(r.coin()) c.reserve(op.ref.size() + 120); S p0 = tos(c);
      csubstr g = op.app(&c); S x = p0 + op.ref; hx::ev();
      if(tos(c) != x) hx::fail("append", "%s appended to %s gives %s, expected %s", what, hx::esc(p0).c_str(), hx::esc(tos(c)).c_str(), hx::esc(x).c_str());
      else if(g.len != op.ref.size() || (g.len && g.str != &c[p0.size()])) hx::fail("append-view", "%s the returned view is not the appended region (length %zu expected %zu)", what, g.len, op.ref.size()); }
}
template<class Op> static void check(hx::Rng &r, Op &op, bool exact, const char *what)
{
    size_t n = op.ref.size();
    size_t lens[] = {0, n, n + 1 + r.below(5), n ? n - 1 : 0, r.below(n + 1), r.below(n + 1), r.below(std::min<size_t>(n, 5) + 1)};
    for(size_t len : lens)
    {
        Exact b(len, 0x7e); size_t g = op.run(substr(b.p, b.n));
        if(len >= n)
        {
            hx::ev(); // an estimate is allowed for reals only when they do not fit in what is left
            if(g != n || b.str(n) != op.ref) hx::fail("text", "%s into %zu: size %zu text %s, expected %zu %s", what, len, g, hx::esc(b.str(std::min(g, len))).c_str(), n, hx::esc(op.ref).c_str());
            HX_CHECK(op.sub(substr(b.p, b.n)).len == n && b.str(n) == op.ref, "sub", "%s _sub", what);
        }
        else if(exact) HX_CHECK(g == n, "size", "%s into a buffer of %zu: size %zu, expected %zu", what, len, g, n);
        else HX_CHECK(g > len, "size-real", "%s into a buffer of %zu reports %zu, which does not tell that it did not fit", what, len, g);
        if(len < n && r.chance(1, 8)) HX_CHECK(hx::raises([&]{ op.sub(substr(b.p, b.n)); }), "sub-too-small", "%s_sub into %zu (needs %zu) did not report an error", what, len, n);
    }
    { size_t g = op.run(substr{}); if(exact) HX_CHECK(g == n, "size-null", "%s into a null buffer: %zu, expected %zu", what, g, n); }
    containers<std::string>(r, op, what);
    containers<std::vector<char>>(r, op, what);
    hx::seen(op.a.size(), n, hx::hbytes(op.ref.data(), op.ref.size()) % 64);
}
static std::vector<Arg> list(hx::Rng &r, bool reals) { std::vector<Arg> v(r.below(args::maxargs + 1)); for(auto &a : v) a = args::arg(r, reals); return v; }
static bool exact(std::vector<Arg> const& v) { for(auto &a : v) if(!a.exact) return false; return true; }
SCENARIO(cat, 6000, 250000)
{
    (void)it; Cat op; op.a = list(r, r.chance(1, 3)); for(auto &a : op.a) op.ref += a.want;
    hx::note("cat " + args::show(op.a)); hx::sample(args::show(op.a));
    check(r, op, exact(op.a), "cat");
}
SCENARIO(catsep, 6000, 250000)
{
    (void)it; Catsep op; op.a = list(r, r.chance(1, 3)); op.sep = args::arg(r, false);
    for(size_t i = 0; i < op.a.size(); ++i) op.ref += (i ? op.sep.want : S()) + op.a[i].want;
    hx::note("catsep sep=" + hx::esc(op.sep.want) + " " + args::show(op.a)); hx::sample(args::show(op.a));
    check(r, op, exact(op.a), "catsep");
}
SCENARIO(format, 8000, 300000)
{
    (void)it; Fmt op; op.a = list(r, r.chance(1, 3)); S f;
    size_t ph = r.chance(2, 3) ? op.a.size() : r.below(10);
    for(size_t i = 0; i < ph; ++i) { f += r.str(5, r.coin() ? "ab{ } " : "{}x"); f += "{}"; }
    f += r.str(5, r.coin() ? "ab{ }" : "xy");
    if(r.chance(1, 40)) f.insert(r.below(f.size() + 1), r.str(r.huge(400), r.coin() ? "ab" : "{}")); // long literal text
    size_t p = 0, k = 0; bool ex = true;
    for(; k < op.a.size(); ++k) { size_t q = f.find("{}", p); if(q == S::npos) break; op.ref += f.substr(p, q - p) + op.a[k].want; ex = ex && op.a[k].exact; p = q + 2; }
    op.ref += f.substr(p); Exact fe(f); op.f_ = csubstr(fe.p, fe.n);
    hx::note("format " + hx::esc(f) + " " + args::show(op.a)); hx::sample(hx::esc(f) + " " + args::show(op.a));
    check(r, op, ex, "format"); hx::count(k < op.a.size() ? "extra arguments" : f.find("{}", p) != S::npos ? "missing arguments" : "matching");
}
// native argument types straight through the variadics (literals, arrays, enums of overloads)
SCENARIO(native, 3000, 100000)
{
    (void)it; int i = (int)(int64_t)r.interesting(); unsigned short us = (unsigned short)r.u64(); char c = (char)r.in(33, 126); bool b = r.coin(); long long ll = (long long)r.interesting(); S s = r.str(12, "abc"); const char *cs = s.c_str();
    char arr[16]; snprintf(arr, sizeof(arr), "%s", r.str(9, "xyz").c_str()); signed char sc = (signed char)r.u64();
    S x = hx::fmt("lit%d%hu%c%d%lld%s%s%s%d", i, us, c, (int)b, ll, cs, s.c_str(), arr, (int)sc), y = hx::fmt("lit, %d, %hu, %c, %d, %lld, %s, %s, %s, %d", i, us, c, (int)b, ll, cs, s.c_str(), arr, (int)sc), z = hx::fmt("<lit>%d,%hu{%c}%d %lld %s/%s/%s %d.", i, us, c, (int)b, ll, cs, s.c_str(), arr, (int)sc);
    hx::note("%s", x.c_str());
    for(size_t len : {(size_t)0, x.size(), x.size() + 3, r.below(x.size() + 1), r.below(z.size() + 1), z.size()})
    {
        Exact e(len, 0x7e); substr d(e.p, e.n);
        size_t g = cat(d, "lit", i, us, c, b, ll, cs, s, (const char*)arr, sc); HX_CHECK(g == x.size() && (g > len || e.str(g) == x), "native-cat", "%zu %s expected %s", g, hx::esc(e.str()).c_str(), x.c_str());
        g = catsep(d, ", ", "lit", i, us, c, b, ll, cs, s, (const char*)arr, sc); HX_CHECK(g == y.size() && (g > len || e.str(g) == y), "native-catsep", "%zu %s expected %s", g, hx::esc(e.str()).c_str(), y.c_str());
        g = format(d, "<{}>{},{}{{}}{} {} {}/{}/{} {}.", "lit", i, us, c, b, ll, cs, s, (const char*)arr, sc); HX_CHECK(g == z.size() && (g > len || e.str(g) == z), "native-format", "%zu %s expected %s", g, hx::esc(e.str()).c_str(), z.c_str());
    }
    {   // more arguments than the random lists have
        S a[12]; int n[12]; S m1, m2, m3; for(int j = 0; j < 12; ++j) { a[j] = r.str(r.chance(1, 4) ? 0 : 5, "abc"); n[j] = (int)(int64_t)r.interesting(); S d = std::to_string(n[j]); m1 += a[j] + d; m2 += (j ? S("; ") : S()) + a[j] + "; " + d; m3 += "<" + a[j] + ">=" + d; }
        Exact e(m3.size() + r.below(4) + 24); substr d(e.p, e.n); if(r.coin()) d = d.first(r.below(e.n + 1));
        #define MANY a[0], n[0], a[1], n[1], a[2], n[2], a[3], n[3], a[4], n[4], a[5], n[5], a[6], n[6], a[7], n[7], a[8], n[8], a[9], n[9], a[10], n[10], a[11], n[11]
        csubstr ff = "<{}>={}<{}>={}<{}>={}<{}>={}<{}>={}<{}>={}<{}>={}<{}>={}<{}>={}<{}>={}<{}>={}<{}>={}";
        size_t g = cat(d, MANY); HX_CHECK(g == m1.size() && (g > d.len || e.str(g) == m1), "many-cat", "%zu expected %zu: %s", g, m1.size(), m1.c_str());
        g = catsep(d, "; ", MANY); HX_CHECK(g == m2.size() && (g > d.len || e.str(g) == m2), "many-catsep", "%zu expected %zu: %s", g, m2.size(), m2.c_str());
        g = format(d, ff, MANY); HX_CHECK(g == m3.size() && (g > d.len || e.str(g) == m3), "many-format", "%zu expected %zu: %s", g, m3.size(), m3.c_str());
        S o; catrs(&o, MANY); HX_CHECK(o == m1, "many-catrs", "%s expected %s", o.c_str(), m1.c_str()); catseprs(&o, "; ", MANY); HX_CHECK(o == m2, "many-catseprs", "%s expected %s", o.c_str(), m2.c_str());
        formatrs(&o, ff, MANY); HX_CHECK(o == m3, "many-formatrs", "%s expected %s", o.c_str(), m3.c_str()); }
    S o = "previous"; csubstr ap = catrs_append(&o, i, ' ', c); HX_CHECK(o == hx::fmt("previous%d %c", i, c) && ap.str == o.data() + 8, "native-append", "%s", o.c_str());
    hx::seen(x.size(), y.size(), (unsigned char)c);
}
// composed sizes which 32 bits cannot tell
SCENARIO(far, 200, 4000)
{
    (void)it; hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    size_t n = hx::Far::len(r), len = r.below(40); S x = r.str(20, "abc"); Exact b(len, 0x7e); substr d(b.p, b.n); csubstr v(f.p, n); int k = (int)r.below(1000); size_t kd = std::to_string(k).size(); hx::note("far: %zu into %zu", n, len);
    auto is = [&](const char *w, size_t g, size_t e, S const& head) { HX_CHECK(g == e, "far-size", "%s with a text of %zu into %zu: %zu, expected %zu", w, n, len, g, e); if(head.size() <= len) HX_CHECK(b.str(head.size()) == head, "far-head", "%s: starts with %s instead of %s", w, hx::esc(b.str(head.size())).c_str(), hx::esc(head).c_str()); };
    is("cat", cat(d, x, v, k), x.size() + n + kd, x); is("cat", cat(d, v, v, x), 2 * n + x.size(), ""); is("catsep", catsep(d, "--", k, v, x), n + x.size() + kd + 4, std::to_string(k) + "--"); is("catsep", catsep(d, v, k, x, k), 2 * n + x.size() + 2 * kd, std::to_string(k)); is("format", format(d, "{}:{}|{}.", k, v, v), kd + 2 * n + 3, std::to_string(k) + ":"); is("format", format(d, "{}:{}|{}.", x, fmt::left(k, n, ' '), v), x.size() + 2 * n + 3, x + ":");
    { substr o(f.p, n); size_t g = cat(o, k, ' ', x, 0.5); S e = std::to_string(k) + " " + x + "0.5"; f.touched(0, 200); HX_CHECK(g == e.size() && S(f.p, g) == e && f.p[g] == 0, "far-buffer", "cat into a far buffer: %zu", g); g = format(o, "{}, {}; ", k, x); e = std::to_string(k) + ", " + x + "; "; HX_CHECK(g == e.size() && S(f.p, g) == e, "far-buffer", "format into a far buffer"); }
    hx::seen(n, len, kd);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one random argument list (0..8 of 29 kinds) written at 7 destination lengths, through the resizing and appending variants of string and vector; distinct = (argument count, result size, result hash mod 64)"); }

// C12: uncat/uncatsep/unformat undo cat/catsep/format
#include "args.hpp"
#include <cmath>
using namespace c4;
using hx::Exact;
typedef std::string S;
namespace vars {
struct Var { enum Kind { i8, u8, i16, u16, i32, u32, i64, u64, ch, bo, flt, dbl, str, ptr, nkinds } k = i32; int64_t i = 0; double d = 0; S s; S text;
    bool is_text() const { return k == bo || k == str; } };
size_t to_chars(substr b, Var const& v)
{
    using c4::to_chars;
    switch(v.k) { case Var::i8: return to_chars(b, (int8_t)v.i); case Var::u8: return to_chars(b, (uint8_t)v.i); case Var::i16: return to_chars(b, (int16_t)v.i); case Var::u16: return to_chars(b, (uint16_t)v.i);
    case Var::i32: return to_chars(b, (int32_t)v.i); case Var::u32: return to_chars(b, (uint32_t)v.i); case Var::i64: return to_chars(b, (int64_t)v.i); case Var::u64: return to_chars(b, (uint64_t)v.i);
    case Var::ch: return to_chars(b, (char)v.i); case Var::bo: return to_chars(b, v.i != 0); case Var::flt: return to_chars(b, (float)v.d); case Var::dbl: return to_chars(b, v.d); case Var::str: return to_chars(b, csubstr(v.s.data(), v.s.size()));
    case Var::ptr: return to_chars(b, (void*)(uintptr_t)v.i); default: return 0; }
}
template<class T> size_t rd(csubstr b, int64_t *i) { T t = (T)*i; size_t n = c4::from_chars_first(b, &t); *i = (int64_t)t; return n; }
size_t from_chars_first(csubstr b, Var *v)
{
    switch(v->k) { case Var::i8: return rd<int8_t>(b, &v->i); case Var::u8: return rd<uint8_t>(b, &v->i); case Var::i16: return rd<int16_t>(b, &v->i); case Var::u16: return rd<uint16_t>(b, &v->i);
    case Var::i32: return rd<int32_t>(b, &v->i); case Var::u32: return rd<uint32_t>(b, &v->i); case Var::i64: return rd<int64_t>(b, &v->i); case Var::u64: return rd<uint64_t>(b, &v->i);
    case Var::ch: return rd<char>(b, &v->i); case Var::bo: return rd<bool>(b, &v->i);
    case Var::flt: { float f = (float)v->d; size_t n = c4::from_chars_first(b, &f); v->d = (double)f; return n; }
    case Var::dbl: return c4::from_chars_first(b, &v->d);
    case Var::str: { Exact e(64); substr o(e.p, e.n); size_t n = c4::from_chars_first(b, &o); if(n != csubstr::npos) v->s.assign(o.str, o.len); return n; }
    case Var::ptr: { void *p = (void*)(uintptr_t)v->i; size_t n = c4::from_chars_first(b, &p); v->i = (int64_t)(uintptr_t)p; return n; }
    default: return 0; }
}
}
using vars::Var;
#define CALL(f, v) ([&]{ std::vector<Var> &v_ = (v); switch(v_.size()) { \
    case 1: return f(v_[0]); case 2: return f(v_[0], v_[1]); case 3: return f(v_[0], v_[1], v_[2]); case 4: return f(v_[0], v_[1], v_[2], v_[3]); \
    case 5: return f(v_[0], v_[1], v_[2], v_[3], v_[4]); default: return f(v_[0], v_[1], v_[2], v_[3], v_[4], v_[5]); } }())
static std::vector<Var> list(hx::Rng &r, bool nochar)
{
    std::vector<Var> v(r.in(1, 6));
    for(auto &x : v)
    {
        x.k = (Var::Kind)r.below(Var::nkinds); if(x.k == Var::ch && nochar) x.k = Var::i16;
        uint64_t u = r.interesting();
        switch(x.k) { case Var::i8: x.i = (int8_t)u; break; case Var::u8: x.i = (uint8_t)u; break; case Var::i16: x.i = (int16_t)u; break; case Var::u16: x.i = (uint16_t)u; break; case Var::i32: x.i = (int32_t)u; break; case Var::u32: x.i = (uint32_t)u; break;
        case Var::ch: x.i = (char)r.in(33, 126); break; case Var::bo: x.i = u & 1; break; case Var::ptr: x.i = (int64_t)(u & 0x7fffffffffffffffull); break; default: x.i = (int64_t)u; }
        x.d = r.coin() ? (double)(int64_t)u / 1000.0 : (double)(int)r.below(2000) - 1000; if(x.k == Var::flt) x.d = (double)(float)x.d;
        x.s = r.str(20, "abcXYZ_{}=:/-.5"); if(x.s.empty()) x.s = "word";
        Exact b(64); x.text = b.str(vars::to_chars(substr(b.p, b.n), x));
    }
    return v;
}
static std::vector<Var> blank(std::vector<Var> const& v) { std::vector<Var> o(v.size()); for(size_t i = 0; i < v.size(); ++i) { o[i].k = v[i].k; o[i].i = v[i].k == Var::bo ? !v[i].i : (v[i].i == 99 ? 98 : 99); o[i].d = 12345; o[i].s = "?"; } return o; }
static bool same(Var const& a, Var const& b) { return a.k == Var::flt || a.k == Var::dbl ? a.d == b.d : a.k == Var::str ? a.s == b.s : a.i == b.i; }
static void cmp(const char *key, std::vector<Var> const& v, std::vector<Var> const& o, size_t upto, S const& text)
{
    for(size_t i = 0; i < upto; ++i) HX_CHECK(same(v[i], o[i]), key, "value %zu (kind %d, text %s) of %s read back as %lld/%.17g/%s", i, (int)v[i].k, v[i].text.c_str(), hx::esc(text).c_str(), (long long)o[i].i, o[i].d, o[i].s.c_str());
}
static S show(std::vector<Var> const& v) { S s; for(auto &x : v) s += std::to_string((int)x.k) + ":" + x.text + " "; return s; }
struct Un { csubstr t; template<class... A> size_t operator()(A &...x) const { return uncat(t, x...); } };
struct UnS { csubstr t; char *sep; template<class... A> size_t operator()(A &...x) const { return uncatsep(t, *sep, x...); } };
struct UnF { csubstr t, f; template<class... A> size_t operator()(A &...x) const { return unformat(t, f, x...); } };
struct WrS { substr b; char s; template<class... A> size_t operator()(A &...x) const { return catsep(b, s, x...); } };
struct WrF { substr b; csubstr s; template<class... A> size_t operator()(A &...x) const { return format(b, s, x...); } };
static size_t un(S const& t, std::vector<Var> &o) { Exact e(t); Un f{csubstr(e.p, e.n)}; return CALL(f, o); }
static size_t uns(S const& t, char *sep, std::vector<Var> &o) { Exact e(t); UnS f{csubstr(e.p, e.n), sep}; return CALL(f, o); }
static size_t unf(S const& t, S const& fm, std::vector<Var> &o) { Exact e(t), fe(fm); UnF f{csubstr(e.p, e.n), csubstr(fe.p, fe.n)}; return CALL(f, o); }
// a token that no kind but a character or a string can read
static S junk(hx::Rng &r) { static const S j[] = {"@", "--1", "#x", "z9", "..", "0xzz"}; return r.pick(j); }
static bool unreadable(Var const& v) { return v.k != Var::ch && v.k != Var::str; }

SCENARIO(uncat, 12000, 500000)
{
    (void)it; std::vector<Var> v = list(r, true); // characters do not skip white space: written without any, below
    S t, lead = r.str(2, " \t\n"); std::vector<size_t> at; t = lead;
    for(size_t i = 0; i < v.size(); ++i) { if(i) t += r.coin() ? " " : r.str(2, " \t") + " "; at.push_back(t.size()); t += v[i].text; }
    size_t endv = t.size(); S tail = r.coin() ? S() : " " + r.str(6, "ab 12,"); t += tail;
    hx::note("uncat " + hx::esc(t) + " as " + show(v)); hx::sample(hx::esc(t));
    { auto o = blank(v); size_t n = un(t, o); HX_CHECK(n == endv, "size", "uncat(%s) read %zd, expected %zu", hx::esc(t).c_str(), (ssize_t)n, endv); cmp("value", v, o, v.size(), t); }
    size_t k = r.below(v.size());
    { S c = t.substr(0, at[k]); auto o = blank(v); size_t n = un(c, o); HX_CHECK(n == csubstr::npos, "early-end", "uncat(%s) of %zu values read %zd", hx::esc(c).c_str(), v.size(), (ssize_t)n); cmp("value-before-end", v, o, k, c); }
    if(unreadable(v[k])) { S c = t.substr(0, at[k]) + junk(r) + t.substr(at[k] + v[k].text.size()); auto o = blank(v); hx::note("uncat " + hx::esc(c)); size_t n = un(c, o); HX_CHECK(n == csubstr::npos, "unreadable", "uncat(%s) value %zu of kind %d: read %zd", hx::esc(c).c_str(), k, (int)v[k].k, (ssize_t)n); cmp("value-before-unreadable", v, o, k, c); }
    hx::seen(v.size(), v[k].k, t.size(), k);
}
// characters between numbers: "3a4b..." style, where each number is delimited by the separator character it is followed by
SCENARIO(uncat_chars, 6000, 250000)
{
    (void)it; std::vector<Var> v = list(r, true); if(v.size() > 3) v.resize(3); std::vector<Var> w; S t;
    for(auto &x : v) { if(x.is_text()) { x.k = Var::u64; x.i = (int64_t)r.interesting(); x.text = std::to_string((uint64_t)x.i); } Var c; c.k = Var::ch; c.i = " ,;)]}\n"[r.below(7)]; c.text = S(1, (char)c.i); w.push_back(x); w.push_back(c); t += x.text + c.text; }
    hx::note("uncat " + hx::esc(t)); auto o = blank(w); size_t n = un(t, o); HX_CHECK(n == t.size(), "size", "uncat(%s) read %zd, expected %zu", hx::esc(t).c_str(), (ssize_t)n, t.size()); cmp("value", w, o, w.size(), t);
    hx::seen(t.size(), w.size(), (uint64_t)w[0].k);
}
SCENARIO(uncatsep, 12000, 500000)
{
    (void)it; std::vector<Var> v = list(r, true); bool anytext = false; for(auto &x : v) anytext = anytext || x.is_text();
    char sep = anytext ? " \t\n"[r.below(3)] : " ,;\t\n"[r.below(5)]; S t; std::vector<size_t> at;
    for(size_t i = 0; i < v.size(); ++i) { if(i) t += sep; at.push_back(t.size()); t += v[i].text; }
    { Exact b(t.size() + 8); WrS f{substr(b.p, b.n), sep}; size_t n = CALL(f, v); HX_CHECK(n == t.size() && b.str(n) == t, "catsep", "catsep wrote %s expected %s", hx::esc(b.str(n)).c_str(), hx::esc(t).c_str()); }
    hx::note("uncatsep " + hx::esc(t) + " as " + show(v)); hx::sample(hx::esc(t));
    char got = '?'; auto o = blank(v); size_t n = uns(t, &got, o);
    HX_CHECK(n == t.size(), "size", "uncatsep(%s) read %zd", hx::esc(t).c_str(), (ssize_t)n); cmp("value", v, o, v.size(), t);
    if(v.size() > 1) HX_CHECK(got == sep, "sep", "separator read as %02x, is %02x", (unsigned char)got, (unsigned char)sep);
    size_t k = r.below(v.size());
    { S c = t.substr(0, at[k]); o = blank(v); n = uns(c, &got, o); HX_CHECK(n == csubstr::npos, "early-end", "uncatsep(%s) of %zu values read %zd", hx::esc(c).c_str(), v.size(), (ssize_t)n); cmp("value-before-end", v, o, k, c); }
    if(k) { S c = t.substr(0, at[k] - 1); o = blank(v); n = uns(c, &got, o); HX_CHECK(n == csubstr::npos, "early-end", "uncatsep(%s) of %zu values read %zd", hx::esc(c).c_str(), v.size(), (ssize_t)n); cmp("value-before-end", v, o, k, c); }
    if(unreadable(v[k])) { S c = t.substr(0, at[k]) + junk(r) + t.substr(at[k] + v[k].text.size()); o = blank(v); n = uns(c, &got, o); HX_CHECK(n == csubstr::npos, "unreadable", "uncatsep(%s) value %zu of kind %d: read %zd", hx::esc(c).c_str(), k, (int)v[k].k, (ssize_t)n); cmp("value-before-unreadable", v, o, k, c); }
    hx::seen(v.size(), v[k].k, t.size(), k);
}
// separators of several characters: any readable value can be one
template<class Sp> struct UnT { csubstr b; Sp *s; template<class... A> size_t operator()(A &...x) const { return uncatsep(b, *s, x...); } };
template<class Sp> static void widesep(hx::Rng &r, S const& st, Sp sv)
{
    std::vector<Var> v = list(r, true); S t = r.str(2, " \t"); std::vector<size_t> at, sat;
    for(size_t i = 0; i < v.size(); ++i) { if(i) { t += " " + r.str(2, " \t"); sat.push_back(t.size()); t += st + " " + r.str(2, " \n"); } at.push_back(t.size()); t += v[i].text; }
    size_t endv = t.size(); if(r.coin()) t += " " + r.str(5, "12 ,a");
    hx::note("uncatsep " + hx::esc(t) + " separator " + st + " as " + show(v));
    auto go = [&](S const& c, Sp *sp, std::vector<Var> &o) { Exact e(c); UnT<Sp> f{csubstr(e.p, e.n), sp}; return (size_t)CALL(f, o); };
    Sp got{}; auto o = blank(v); size_t n = go(t, &got, o);
    HX_CHECK(n == endv, "wide-size", "uncatsep(%s) read %zd, expected %zu", hx::esc(t).c_str(), (ssize_t)n, endv); cmp("wide-value", v, o, v.size(), t);
    if(v.size() > 1) HX_CHECK(got == sv, "wide-sep", "the separator %s was read wrongly", st.c_str());
    if(v.size() > 1) { size_t k = r.below(sat.size()); S c = t.substr(0, sat[k]) + "@" + t.substr(sat[k]); o = blank(v); n = go(c, &got, o); HX_CHECK(n == csubstr::npos, "wide-unreadable-sep", "uncatsep(%s) read %zd", hx::esc(c).c_str(), (ssize_t)n);
        c = t.substr(0, sat[k]); o = blank(v); n = go(c, &got, o); HX_CHECK(n == csubstr::npos, "wide-early-end", "uncatsep(%s) read %zd", hx::esc(c).c_str(), (ssize_t)n);
        c = t.substr(0, at[k + 1]); o = blank(v); n = go(c, &got, o); HX_CHECK(n == csubstr::npos, "wide-early-end", "uncatsep(%s) read %zd", hx::esc(c).c_str(), (ssize_t)n); }
    hx::seen(v.size(), st.size(), t.size(), (uint64_t)v[0].k);
}
SCENARIO(uncatsep_wide, 6000, 250000)
{
    (void)it; int i = (int)r.interesting(); double d = (double)(int)r.below(100000) / 64; bool b = r.coin();
    switch(r.below(4)) { case 0: widesep<int>(r, std::to_string(i), i); break; case 1: widesep<unsigned>(r, hx::fmt("0x%x", (unsigned)i), (unsigned)i); break;
    case 2: widesep<double>(r, hx::fmt("%.6f", d), d); break; default: widesep<bool>(r, b ? "true" : "false", b); break; }
}
SCENARIO(unformat, 12000, 500000)
{
    (void)it; std::vector<Var> v = list(r, false); S f = r.str(5, "ab<( "), t = f; std::vector<size_t> at;
    for(size_t i = 0; i < v.size(); ++i)
    {
        f += "{}"; at.push_back(t.size()); t += v[i].text;
        bool last = i + 1 == v.size(); if(last && r.coin()) break;
        S lit; if(v[i].is_text()) lit = " "; else if(v[i].k == Var::ch) lit = ""; else lit = S(1, " ,;)]}"[r.below(6)]);
        lit += r.str(6, "ab12 ,(<"); if(v[i].k == Var::ch && lit.empty()) lit = ".";
        f += lit; t += lit;
    }
    size_t ph = 0; for(size_t p = 0; (p = f.find("{}", p)) != S::npos; p += 2) ++ph;
    if(ph != v.size()) return; // a literal joined up with a brace into another placeholder
    hx::note("unformat " + hx::esc(t) + " with " + hx::esc(f) + " as " + show(v)); hx::sample(hx::esc(f) + " " + hx::esc(t));
    { Exact b(t.size() + 8), fe(f); WrF g{substr(b.p, b.n), csubstr(fe.p, fe.n)}; size_t n = CALL(g, v); HX_CHECK(n == t.size() && b.str(n) == t, "format", "format wrote %s expected %s", hx::esc(b.str(n)).c_str(), hx::esc(t).c_str()); }
    auto o = blank(v); size_t n = unf(t, f, o); HX_CHECK(n == t.size(), "size", "unformat(%s, %s) read %zd", hx::esc(t).c_str(), hx::esc(f).c_str(), (ssize_t)n); cmp("value", v, o, v.size(), t);
    { S c = t + " " + r.str(4, "x1 "); o = blank(v); n = unf(c, f, o); HX_CHECK(n == t.size(), "size-tail", "unformat(%s, %s) read %zd, expected %zu", hx::esc(c).c_str(), hx::esc(f).c_str(), (ssize_t)n, t.size()); cmp("value-tail", v, o, v.size(), c); }
    size_t k = r.below(v.size());
    { S c = t.substr(0, r.in(k ? at[k - 1] + v[k - 1].text.size() : 0, at[k])); o = blank(v); n = unf(c, f, o); HX_CHECK(n == csubstr::npos, "early-end", "unformat(%s, %s) of %zu values read %zd", hx::esc(c).c_str(), hx::esc(f).c_str(), v.size(), (ssize_t)n); cmp("value-before-end", v, o, k, c); }
    size_t endv = at.back() + v.back().text.size();
    if(endv < t.size()) { S c = t.substr(0, r.in(endv, t.size() - 1)); o = blank(v); n = unf(c, f, o); HX_CHECK(n == csubstr::npos, "early-end-tail", "unformat(%s, %s): the text ends before the format, but it read %zd", hx::esc(c).c_str(), hx::esc(f).c_str(), (ssize_t)n); }
    if(unreadable(v[k])) { S c = t.substr(0, at[k]) + junk(r) + t.substr(at[k] + v[k].text.size()); o = blank(v); n = unf(c, f, o); HX_CHECK(n == csubstr::npos, "unreadable", "unformat(%s, %s) value %zu of kind %d: read %zd", hx::esc(c).c_str(), hx::esc(f).c_str(), k, (int)v[k].k, (ssize_t)n); cmp("value-before-unreadable", v, o, k, c); }
    hx::seen(v.size(), v[k].k, t.size(), k);
}
// arbitrary text: nothing outside of it is read (sanitizers), and the size is within it
SCENARIO(arbitrary, 15000, 500000)
{
    (void)it; std::vector<Var> v = list(r, false); S t = r.chance(1, 4) ? r.bytes(r.size(40)) : r.str(30, r.coin() ? "0123-+ .,eExX" : "1 2,a{}-0x"), f = r.str(12, "{}{} a,"); char sep = 0;
    for(auto &x : v) if(x.k == Var::bo) for(char &c : t) if(c == '+') c = '-'; // reading integers has the documented precondition that there is no leading +
    hx::note("arbitrary " + hx::esc(t) + " " + hx::esc(f) + " " + show(v));
    { auto o = blank(v); size_t n = un(t, o); HX_CHECK(n == csubstr::npos || n <= t.size(), "within", "uncat read %zu of %zu", n, t.size()); }
    { auto o = blank(v); size_t n = uns(t, &sep, o); HX_CHECK(n == csubstr::npos || n <= t.size(), "within", "uncatsep read %zu of %zu", n, t.size()); }
    { auto o = blank(v); size_t n = unf(t, f, o); HX_CHECK(n == csubstr::npos || n <= t.size(), "within", "unformat(%s,%s) read %zu of %zu", hx::esc(t).c_str(), hx::esc(f).c_str(), n, t.size()); }
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = 1..6 values of 14 kinds written and read back, then read from the text cut at a token, with an unreadable token, with a tail; distinct = (value count, kind, text size, position)"); }

// C13: dumping to a sink delivers every argument exactly once, in order
#include "args.hpp"
#include <c4/dump.hpp>
using namespace c4;
using hx::Exact;
using args::Arg;
typedef std::string S;
enum { NMAX = 4 };
// the sinks: what was delivered, and in how many calls
static S g_out; static size_t g_calls;
static void g_sink(csubstr s) { ++g_calls; if(s.len) g_out.append(s.str, s.len); }
struct Sink { void operator()(csubstr s) const { g_sink(s); } };

// runtime argument lists to static types: strings are passed as csubstr (dumped directly), the others through the buffer
template<class R, class F> struct Go
{
    template<class... A> static R go(F const& f, std::vector<Arg> const& v, size_t i, std::integral_constant<int, 0>, A const&... a) { (void)v; (void)i; return f(a...); }
    template<int K, class... A> static R go(F const& f, std::vector<Arg> const& v, size_t i, std::integral_constant<int, K>, A const&... a)
    {
        if(i == v.size()) return f(a...);
        if(v[i].k == Arg::str) return go(f, v, i + 1, std::integral_constant<int, K - 1>(), a..., csubstr(v[i].e->p, v[i].e->n));
        return go(f, v, i + 1, std::integral_constant<int, K - 1>(), a..., v[i]);
    }
};
template<class R, class F> static R call(F const& f, std::vector<Arg> const& v) { return Go<R, F>::go(f, v, 0, std::integral_constant<int, NMAX>()); }
// at least one argument
template<class R, class F> static R call1(F const& f, std::vector<Arg> const& v)
{
    if(v[0].k == Arg::str) return Go<R, F>::go(f, v, 1, std::integral_constant<int, NMAX - 1>(), csubstr(v[0].e->p, v[0].e->n));
    return Go<R, F>::go(f, v, 1, std::integral_constant<int, NMAX - 1>(), v[0]);
}
struct CatT { substr b; template<class... A> size_t operator()(A const&... a) const { return cat_dump<&g_sink>(b, a...); } };
struct CatF { substr b; template<class... A> size_t operator()(A const&... a) const { return cat_dump(Sink(), b, a...); } };
struct CatRT { DumpResults r; bool first; substr b; template<class... A> DumpResults operator()(A const&... a) const { return first ? cat_dump_resume<&g_sink>(b, a...) : cat_dump_resume<&g_sink>(r, b, a...); } };
struct CatRF { DumpResults r; bool first; substr b; template<class... A> DumpResults operator()(A const&... a) const { return first ? cat_dump_resume(Sink(), b, a...) : cat_dump_resume(Sink(), r, b, a...); } };
template<class Sp> struct SepT { substr b; Sp const& s; template<class... A> size_t operator()(A const&... a) const { return catsep_dump<&g_sink>(b, s, a...); } };
template<class Sp> struct SepF { substr b; Sp const& s; template<class... A> size_t operator()(A const&... a) const { return catsep_dump(Sink(), b, s, a...); } };
template<class Sp> struct SepRT { DumpResults r; bool first; substr b; Sp const& s; template<class... A> DumpResults operator()(A const&... a) const { return first ? catsep_dump_resume<&g_sink>(b, s, a...) : catsep_dump_resume<&g_sink>(r, b, s, a...); } };
template<class Sp> struct SepRF { DumpResults r; bool first; substr b; Sp const& s; template<class... A> DumpResults operator()(A const&... a) const { return first ? catsep_dump_resume(Sink(), b, s, a...) : catsep_dump_resume(Sink(), r, b, s, a...); } };
struct FmtT { substr b; csubstr f; template<class... A> size_t operator()(A const&... a) const { return format_dump<&g_sink>(b, f, a...); } };
struct FmtF { substr b; csubstr f; template<class... A> size_t operator()(A const&... a) const { return format_dump(Sink(), b, f, a...); } };
struct FmtRT { DumpResults r; bool first; substr b; csubstr f; template<class... A> DumpResults operator()(A const&... a) const { return first ? format_dump_resume<&g_sink>(b, f, a...) : format_dump_resume<&g_sink>(r, b, f, a...); } };
struct FmtRF { DumpResults r; bool first; substr b; csubstr f; template<class... A> DumpResults operator()(A const&... a) const { return first ? format_dump_resume(Sink(), b, f, a...) : format_dump_resume(Sink(), r, b, f, a...); } };

// the sequence of pieces of text that has to reach the sink
struct Piece { S text; size_t need; bool exact; };
static Piece piece(Arg const& a) { return Piece{a.want, a.k == Arg::str ? 0 : a.want.size(), a.exact || a.k == Arg::str}; }
static Piece literal(S const& s) { return Piece{s, 0, true}; }
struct Job { std::vector<Piece> p; std::vector<Arg> a; Arg sep; csubstr fmt; int kind; bool tpl; bool exact; S full; size_t need;
    void fin() { exact = true; need = 0; for(auto &x : p) { full += x.text; exact = exact && x.exact; need = std::max(need, x.need); } }
    size_t dump(substr b) const
    {
        if(kind == 0) return tpl ? call<size_t>(CatT{b}, a) : call<size_t>(CatF{b}, a);
        if(kind == 1) { if(sep.k == Arg::str) { csubstr s(sep.e->p, sep.e->n); return tpl ? call<size_t>(SepT<csubstr>{b, s}, a) : call<size_t>(SepF<csubstr>{b, s}, a); } return tpl ? call<size_t>(SepT<Arg>{b, sep}, a) : call<size_t>(SepF<Arg>{b, sep}, a); }
        return tpl ? call<size_t>(FmtT{b, fmt}, a) : call<size_t>(FmtF{b, fmt}, a);
    }
    DumpResults resume(bool first, DumpResults r, substr b) const
    {
        if(kind == 0) return tpl ? call1<DumpResults>(CatRT{r, first, b}, a) : call1<DumpResults>(CatRF{r, first, b}, a);
        if(kind == 1) { if(sep.k == Arg::str) { csubstr s(sep.e->p, sep.e->n); return tpl ? call1<DumpResults>(SepRT<csubstr>{r, first, b, s}, a) : call1<DumpResults>(SepRF<csubstr>{r, first, b, s}, a); } return tpl ? call1<DumpResults>(SepRT<Arg>{r, first, b, sep}, a) : call1<DumpResults>(SepRF<Arg>{r, first, b, sep}, a); }
        return tpl ? call<DumpResults>(FmtRT{r, first, b, fmt}, a) : call<DumpResults>(FmtRF{r, first, b, fmt}, a);
    } };
static void one_shot(hx::Rng &r, Job const& j, const char *what)
{
    size_t lens[] = {1, j.need ? j.need : 1, j.need + 1 + r.below(4), j.need > 1 ? j.need - 1 : 1, r.in(1, j.need + 1), 0};
    for(size_t len : lens)
    {
        Exact b(len, 0x7e); g_out.clear(); g_calls = 0;
        size_t n = j.dump(substr(b.p, b.n));
        S x; bool all = true; for(auto &p : j.p) { if(len == 0 || p.need > len) { all = false; break; } x += p.text; } // everything before the first argument that does not fit
        HX_CHECK(g_out == x, "delivered", "%s through a buffer of %zu delivered %s, expected %s of %s", what, len, hx::esc(g_out).c_str(), hx::esc(x).c_str(), hx::esc(j.full).c_str());
        if(j.exact || all) HX_CHECK(n == j.need, "needed", "%s through a buffer of %zu reports needing %zu, expected %zu", what, len, n, j.need);
        else if(len) HX_CHECK(n > len, "needed", "%s through a buffer of %zu did not fit but reports needing %zu", what, len, n);
        hx::count(all ? "complete" : "interrupted");
    }
}
static void resumed(hx::Rng &r, Job const& j, const char *what)
{
    DumpResults d; g_out.clear(); g_calls = 0; bool first = true; size_t rounds = 0, prev = 0; std::string log;
    bool greedy = r.coin(); // resume at once with the size asked for, or creep
    for(; rounds < 40; ++rounds)
    {
        size_t len = rounds == 0 ? (r.chance(1, 5) ? 0 : r.in(1, j.need + 1)) : greedy || rounds > 20 ? std::max<size_t>(d.bufsize, 1) : r.below(std::max<size_t>(d.bufsize, 1) + 2);
        Exact b(len, 0x7e); S before = g_out; log += " " + std::to_string(len);
        hx::st().pr->note[0] = 0; hx::note("%s %s buffers:%s", what, args::show(j.a).c_str(), log.c_str());
        d = j.resume(first, d, substr(b.p, b.n)); first = false;
        size_t done = d.lastok == DumpResults::noarg ? 0 : d.lastok + 1;
        HX_CHECK(done <= j.p.size() && done >= prev, "state", "%s after buffers%s: %zu of %zu pieces (was %zu)", what, log.c_str(), done, j.p.size(), prev); prev = done;
        S x; for(size_t i = 0; i < done && i < j.p.size(); ++i) x += j.p[i].text;
        HX_CHECK(g_out == x, "delivered", "%s after buffers%s: delivered %s, but the state says %s (of %s)", what, log.c_str(), hx::esc(g_out).c_str(), hx::esc(x).c_str(), hx::esc(j.full).c_str());
        if(g_out != x) return;
        HX_CHECK(d.argfail() == done && (done == 0 || (d.success_until(done - 1) && !d.success_until(done))) && d.write_arg(done) && (done > 0 || !d.success_until(0)) && (done == 0 || !d.write_arg(done - 1)), "state-queries", "%s the state's queries disagree", what);
        if(done == j.p.size()) break;
        if(j.exact && len > 0) HX_CHECK(d.bufsize > len || j.kind == 0, "needed", "%s after buffers%s: interrupted, but asks for only %zu", what, log.c_str(), d.bufsize);
        if(j.exact) HX_CHECK(d.bufsize == j.need, "needed", "%s after buffers%s: asks for %zu, needs %zu", what, log.c_str(), d.bufsize, j.need);
    }
    HX_CHECK(prev == j.p.size() && g_out == j.full, "completes", "%s never completed: buffers%s", what, log.c_str());
    if(j.exact && greedy) HX_CHECK(rounds <= 2, "one-resume", "%s needed %zu resumptions: buffers%s", what, rounds, log.c_str());
    hx::count("resumptions", rounds);
    { S before = g_out; Exact b(j.need + 64); DumpResults e = j.resume(false, d, substr(b.p, b.n)); HX_CHECK(g_out == before, "after-completion", "%s resuming a complete dump delivered %s", what, hx::esc(g_out.substr(std::min(before.size(), g_out.size()))).c_str()); HX_CHECK(e.lastok == d.lastok, "after-completion", "%s resuming a complete dump moved the state %zu -> %zu", what, d.lastok, e.lastok); }
    hx::seen(j.p.size(), rounds, j.need, (uint64_t)j.kind * 2 + j.tpl);
}
static std::vector<Arg> list(hx::Rng &r, size_t lo) { std::vector<Arg> v(r.in(lo, NMAX)); bool reals = r.chance(1, 4); for(auto &a : v) { a = args::arg(r, reals); if(r.chance(1, 3) && a.k != Arg::str) { a = args::arg(r, false); while(a.k != Arg::str) a = args::arg(r, false); } } return v; }
static const char *names[] = {"cat_dump", "catsep_dump", "format_dump"};
static void mk(hx::Rng &r, Job &j, int kind, size_t lo, S &f)
{
    j.kind = kind; j.tpl = r.coin(); j.a = list(r, lo);
    if(kind == 0) for(auto &a : j.a) j.p.push_back(piece(a));
    else if(kind == 1) { j.sep = args::arg(r, false); for(size_t i = 0; i < j.a.size(); ++i) { if(i) j.p.push_back(piece(j.sep)); j.p.push_back(piece(j.a[i])); } }
    else
    {
        size_t ph = r.chance(2, 3) ? j.a.size() : r.below(6); for(size_t i = 0; i < ph; ++i) f += r.str(4, "ab{ }") + "{}"; f += r.str(4, "xy{ }");
        size_t p = 0; for(size_t k = 0; k < j.a.size(); ++k) { size_t q = f.find("{}", p); if(q == S::npos) break; j.p.push_back(literal(f.substr(p, q - p))); j.p.push_back(piece(j.a[k])); p = q + 2; }
        j.p.push_back(literal(f.substr(p)));
    }
    j.fin(); hx::note("%s tpl=%d fmt=%s sep=%s %s", names[kind], j.tpl, hx::esc(f).c_str(), hx::esc(j.sep.want).c_str(), args::show(j.a).c_str()); hx::sample(hx::esc(f) + " " + args::show(j.a));
}
#define JOBS(name, kind) SCENARIO(name##_dump, 5000, 200000) { (void)it; Job j; S f; mk(r, j, kind, 0, f); Exact fe(f); j.fmt = csubstr(fe.p, fe.n); one_shot(r, j, names[kind]); hx::seen(j.a.size(), j.need, j.full.size(), (uint64_t)j.tpl); } \
    SCENARIO(name##_resume, 8000, 300000) { (void)it; Job j; S f; mk(r, j, kind, kind == 2 ? 0 : 1, f); Exact fe(f); j.fmt = csubstr(fe.p, fe.n); resumed(r, j, names[kind]); }
JOBS(cat, 0)
JOBS(catsep, 1)
JOBS(format, 2)
// string literals and single dumps
SCENARIO(single, 3000, 100000)
{
    (void)it; int i = (int)(int64_t)r.interesting(); S x = std::to_string(i), s = r.str(20, "abc"); Exact se(s); csubstr v(se.p, se.n);
    for(size_t len : {(size_t)1, x.size(), x.size() + 2, x.size() - 1})
    {
        Exact b(len); substr w(b.p, b.n); bool fits = len >= x.size(); size_t n;
        g_out.clear(); n = dump<&g_sink>(w, i); HX_CHECK(n == x.size() && g_out == (fits ? x : S()), "int", "dump of %d through %zu: %zu %s", i, len, n, g_out.c_str());
        g_out.clear(); n = dump(Sink(), w, i); HX_CHECK(n == x.size() && g_out == (fits ? x : S()), "int", "dump of %d through %zu: %zu %s", i, len, n, g_out.c_str());
        if(len == 0) continue;
        g_out.clear(); n = dump<&g_sink>(w, v); HX_CHECK(n == 0 && g_out == s, "string", "dump of %s through %zu: %zu %s", s.c_str(), len, n, g_out.c_str());
        g_out.clear(); n = dump(Sink(), w, v); HX_CHECK(n == 0 && g_out == s, "string", "dump of %s through %zu: %zu %s", s.c_str(), len, n, g_out.c_str());
        g_out.clear(); n = dump<&g_sink>(w, "literal"); HX_CHECK(n == 0 && g_out == "literal", "literal", "%s", g_out.c_str());
        g_out.clear(); n = dump(Sink(), w, "literal"); HX_CHECK(n == 0 && g_out == "literal", "literal", "%s", g_out.c_str());
        {   // literals are delivered as they are, whatever they hold
            S lz("a\0b\0", 4), le;
            #define LIT(l, want) { S wt = want; g_out.clear(); n = dump<&g_sink>(w, l); HX_CHECK(n == 0 && g_out == wt, "literal", "%s expected %s", hx::esc(g_out).c_str(), hx::esc(wt).c_str()); \
                g_out.clear(); n = dump(Sink(), w, l); HX_CHECK(n == 0 && g_out == wt, "literal", "%s expected %s", hx::esc(g_out).c_str(), hx::esc(wt).c_str()); \
                g_out.clear(); n = cat_dump(Sink(), w, l, "|", l); HX_CHECK(n == 0 && g_out == wt + "|" + wt, "literal", "%s", hx::esc(g_out).c_str()); \
                g_out.clear(); n = cat_dump<&g_sink>(w, l, "|", l); HX_CHECK(n == 0 && g_out == wt + "|" + wt, "literal", "%s", hx::esc(g_out).c_str()); \
                g_out.clear(); n = catsep_dump(Sink(), w, l, "x", "", "y"); HX_CHECK(n == 0 && g_out == "x" + wt + wt + "y", "literal", "%s", hx::esc(g_out).c_str()); \
                g_out.clear(); n = format_dump(Sink(), w, "{}{}", l, l); HX_CHECK(n == 0 && g_out == wt + wt, "literal", "%s", hx::esc(g_out).c_str()); }
            LIT("a\0b\0", lz) LIT("", le) LIT(" {} \n\t", S(" {} \n\t")) LIT("\0", S(1, '\0')) LIT("\x80\xff", S("\x80\xff")) }
        g_out.clear(); n = format_dump(Sink(), w, "<{}-{}>", "lit", i); HX_CHECK(n == x.size() && g_out == (fits ? "<lit-" + x + ">" : S("<lit-")), "format-literal", "%s", g_out.c_str());
        g_out.clear(); n = catsep_dump<&g_sink>(w, "::", "lit", i, "end"); HX_CHECK(n == x.size() && g_out == (fits ? "lit::" + x + "::end" : S("lit::")), "catsep-literal", "%s", g_out.c_str());
    }
    hx::seen(x.size(), s.size());
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one random argument list delivered through working buffers of several sizes, in one shot or as a random history of interruptions and resumptions; the sink's log is compared piece by piece; distinct = (pieces, resumptions, needed size, variant)"); }

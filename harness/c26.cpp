// C26: in-place callables. Histories of construct, copy, move, assign, swap, clear, convert and call over a pool of
// function objects of several capacities, against a model of who holds what; every stored callable's lifetime is monitored.
#include "hx.hpp"
#include <c4/ext/sg14/inplace_function.h>
#include <memory>
using namespace stdext;

static std::map<const void*, int> g_live;
static uint64_t g_events = 0; static int g_throw_at = -1; // throw at the n-th copy from now on
struct Boom {};
static void born(const void *p, const char *how) { ++g_events; if(!g_live.insert(std::make_pair(p, 1)).second) hx::fail("construct-over-live", "%s over a callable which is alive", how); }
static void died(const void *p) { ++g_events; if(!g_live.erase(p)) hx::fail("destroy-not-live", "destruction where no callable lives"); }
static bool used(const void *p, const char *how) { ++g_events; bool k = g_live.count(p) != 0; if(!k) hx::fail("use-not-live", "%s where no callable lives", how); return k; }
static void copying() { if(g_throw_at >= 0 && g_throw_at-- == 0) throw Boom(); }

static int step(int kind, int state, int x) { return (int)(((unsigned)kind * 2654435761u) ^ ((unsigned)state * 40503u) ^ ((unsigned)x * 31u)); }
// a callable with state, of a given size; each call changes the state
template<size_t Extra, int Kind>
struct Call
{
    int *st; Call *self; unsigned char pad[Extra];
    explicit Call(int s) : st(new int(s)), self(this) { memset(pad, Kind, Extra); born(this, "construction"); }
    Call(Call const& o) : st(nullptr), self(this) { used(&o, "copy"); copying(); memcpy(pad, o.pad, Extra); st = new int(*o.st); born(this, "copy"); }
    Call(Call &&o) noexcept : st(nullptr), self(this) { used(&o, "move"); memcpy(pad, o.pad, Extra); st = o.st; o.st = new int(-1); born(this, "move"); }
    Call& operator=(Call const&) = delete;
    ~Call() { if(self != this) hx::fail("relocated-bytes", "a callable was moved as bytes"); died(this); delete st; st = (int*)1; self = nullptr; }
    int operator()(int x) { if(!used(this, "call")) return 0; for(size_t i = 0; i < Extra; ++i) if(pad[i] != (unsigned char)Kind) { hx::fail("storage", "stored callable was damaged at byte %zu", i); break; } int r = step(Kind, *st, x); ++*st; return r; }
};
// one without any state, one plain function, one capturing nothing
struct Stateless { Stateless() { born(this, "construction"); } Stateless(Stateless const& o) { used(&o, "copy"); copying(); born(this, "copy"); } ~Stateless() { died(this); } int operator()(int x) const { used(this, "call"); return step(100, 0, x); } };
static int plain(int x) { return step(101, 0, x); }
template<size_t N> struct alignas(16) Aligned { int v; int s; Aligned(int q) : v(q), s(q) { born(this, "construction"); } Aligned(Aligned const& o) : v(o.v), s(o.s) { used(&o, "copy"); copying(); born(this, "copy"); } ~Aligned() { died(this); } int operator()(int x) { used(this, "call"); if((uintptr_t)this % 16) hx::fail("alignment", "callable placed at %p", (void*)this); int r = step(102, s, x); ++s; return r; } };

struct Model { int kind = -1; int state = 0; bool moved = false; }; // kind -1: empty
static int expect(Model &m, int x) { int r = step(m.kind, m.kind >= 100 && m.kind != 102 ? 0 : m.state, x); ++m.state; return r; }

template<size_t Cap> using Fn = inplace_function<int(int), Cap>;
// function objects live alone in exactly sized heap memory: an overrun hits a red zone
template<size_t Cap> struct Slot { std::unique_ptr<Fn<Cap>> f; Model m; };
static bool same_callable(Model const& m) { return m.kind >= 0; }
template<size_t Cap> static void verify(Slot<Cap> &s, hx::Rng &r, const char *after, bool call)
{
    if(!s.f || s.m.moved) return;
    Fn<Cap> const& f = *s.f; bool has = same_callable(s.m);
    HX_CHECK((bool)f == has && (f == nullptr) == !has && (f != nullptr) == has, "emptiness", "after %s: capacity %zu, holds %d: bool %d ==null %d !=null %d", after, Cap, s.m.kind, (int)(bool)f, (int)(f == nullptr), (int)(f != nullptr));
    if(!call) return;
    int x = (int)r.below(1000), got = 0, bad = 0;
    try { got = f(x); } catch(std::bad_function_call const&) { bad = 1; }
    if(has) { int e = expect(s.m, x); HX_CHECK(!bad && got == e, "call", "after %s: capacity %zu kind %d state %d: got %d expected %d%s", after, Cap, s.m.kind, s.m.state - 1, got, e, bad ? " (bad_function_call)" : ""); }
    else HX_CHECK(bad, "empty-call", "after %s: a call of an empty function returned", after);
    hx::count(has ? "calls" : "empty_calls");
}
// make a fresh callable in the slot, by construction or by assignment
template<size_t Cap, class C> static void put(Slot<Cap> &s, C &&c, int kind, int state, bool assign)
{
    bool threw = false; Model old = s.m;
    try { if(assign && s.f) *s.f = std::forward<C>(c); else s.f.reset(new Fn<Cap>(std::forward<C>(c))); } catch(Boom const&) { threw = true; }
    if(!threw) { s.m = Model(); s.m.kind = kind; s.m.state = state; return; }
    hx::count("throwing_copies");
    if(assign && s.f) { if(!old.moved) { if(!*s.f) s.m = Model(); /* may have lost the old one; otherwise must still be it */ } }
}
static uint64_t g_few = 0; // in some histories only a few kinds of callable occur, so that equal ones meet
template<size_t Cap> static void fresh(Slot<Cap> &s, hx::Rng &r, bool assign)
{
    int q = (int)r.below(1000); bool lval = r.coin(); size_t which = g_few ? ((g_few >> 8) + r.below(g_few & 3)) % 7 : r.below(7);
    #define MAKE(T, kind, ...) { T c{__VA_ARGS__}; if(lval) put(s, c, kind, q, assign); else put(s, std::move(c), kind, q, assign); return; }
    enum { room = Cap - 2 * sizeof(void*) }; typedef Call<room, 1> Full; typedef Call<1, 2> Small; typedef Call<room - 7, 3> Most;
    static_assert(sizeof(Full) == Cap, "");
    switch(which)
    {
    case 0: MAKE(Full, 1, q)
    case 1: MAKE(Small, 2, q)
    case 2: MAKE(Most, 3, q)
    case 3: MAKE(Stateless, 100)
    case 4: put(s, plain, 101, 0, assign); return;
    case 5: MAKE(Aligned<0>, 102, q)
    default: put(s, [](int x){ return step(101, 0, x); }, 101, 0, assign); return;
    }
    #undef MAKE
}
template<size_t A, size_t B> static void widen(Slot<A> &a, Slot<B> &b, hx::Rng &r)
{
    if(!a.f || a.m.moved) return;
    bool mv = r.coin(), assign = r.coin() && b.f; hx::count(a.m.kind < 0 ? "empty_conversions" : mv ? "moving_conversions" : "copying_conversions"); Model old = b.m; bool threw = false;
    try {
        if(assign) { if(mv) *b.f = std::move(*a.f); else *b.f = *a.f; }
        else { if(mv) b.f.reset(new Fn<B>(std::move(*a.f))); else b.f.reset(new Fn<B>(*a.f)); }
    } catch(Boom const&) { threw = true; hx::count("throwing_copies"); }
    if(threw) { if(assign && !old.moved && !*b.f) b.m = Model(); return; }
    b.m = a.m; if(mv && a.m.kind >= 0) a.m.moved = true;
}
template<size_t Cap> static void pair_op(Slot<Cap> &a, Slot<Cap> &b, hx::Rng &r, const char **what)
{
    if(!a.f) return;
    bool self = &a == &b; Model old = a.m;
    switch(r.below(6))
    {
    case 0: if(b.m.moved || !b.f) return; *what = "copy assignment"; try { *a.f = *b.f; a.m = b.m; } catch(Boom const&) { hx::count("throwing_copies"); if(!old.moved && !*a.f) a.m = Model(); } break;
    case 1: if(b.m.moved || !b.f) return; *what = "move assignment"; try { *a.f = std::move(*b.f); } catch(Boom const&) { hx::count("throwing_copies"); if(!old.moved && !*a.f) a.m = Model(); break; } if(!self) { a.m = b.m; if(b.m.kind >= 0) b.m.moved = true; } break;
    case 2: if(self || b.m.moved || !b.f) return; *what = "copy construction"; a.f.reset(); a.m = Model(); try { a.f.reset(new Fn<Cap>(*b.f)); a.m = b.m; } catch(Boom const&) { hx::count("throwing_copies"); } break;
    case 3: if(self || b.m.moved || !b.f) return; *what = "move construction"; a.f.reset(); a.m = Model(); try { a.f.reset(new Fn<Cap>(std::move(*b.f))); } catch(Boom const&) { hx::count("throwing_copies"); break; } a.m = b.m; if(b.m.kind >= 0) b.m.moved = true; break;
    case 4: if(!b.f || a.m.moved || b.m.moved) return; { *what = "swap"; int keep = g_throw_at; g_throw_at = -1; a.f->swap(*b.f); g_throw_at = keep; std::swap(a.m, b.m); hx::count("swaps"); } break;
    default: if(!b.f || a.m.moved || b.m.moved) return; { *what = "std::swap"; int keep = g_throw_at; g_throw_at = -1; if(self) return; std::swap(*a.f, *b.f); g_throw_at = keep; std::swap(a.m, b.m); } break;
    }
}
template<size_t Cap> static void own_op(Slot<Cap> &a, hx::Rng &r, const char **what)
{
    switch(g_few ? r.below(20) : r.below(8))
    {
    case 0: *what = "default construction"; a.f.reset(new Fn<Cap>()); a.m = Model(); break;
    case 1: *what = "null construction"; a.f.reset(new Fn<Cap>(nullptr)); a.m = Model(); break;
    case 2: if(!a.f) return; *what = "clearing"; *a.f = nullptr; a.m = Model(); break;
    case 3: *what = "destruction"; a.f.reset(); a.m = Model(); break;
    case 4: case 5: *what = "construction"; a.f.reset(); a.m = Model(); fresh(a, r, false); break;
    default: *what = "assignment"; fresh(a, r, true); break;
    }
}
struct Pool
{
    Slot<24> a[3]; Slot<32> b[3]; Slot<64> c[3];
    template<class F> void each(F const& f) { for(auto &s : a) f(s); for(auto &s : b) f(s); for(auto &s : c) f(s); }
};
SCENARIO(histories, 12000, 300000)
{
    (void)it; g_live.clear(); g_throw_at = -1; size_t steps = 5 + r.below(60); uint64_t sig = 0; size_t held = 0; bool faults = r.chance(1, 2); g_few = r.coin() ? (r.below(7) << 8) + 1 + r.below(2) : 0;
    {
        Pool p; const char *what = "";
        for(size_t i = 0; i < steps; ++i)
        {
            size_t k = r.below(3), k2 = r.below(3), w = r.below(14); what = ""; if(faults && r.coin()) g_throw_at = r.coin() ? 0 : (int)r.below(3); else g_throw_at = -1;
            switch(w)
            {
            case 0: case 1: own_op(p.a[k], r, &what); break; case 2: case 3: own_op(p.b[k], r, &what); break; case 4: own_op(p.c[k], r, &what); break;
            case 5: pair_op(p.a[k], p.a[k2], r, &what); break; case 6: pair_op(p.b[k], p.b[k2], r, &what); break; case 7: pair_op(p.c[k], p.c[k2], r, &what); break;
            case 8: case 9: what = "conversion 32 to 64"; widen(p.b[k], p.c[k2], r); break;
            case 10: what = "conversion 24 to 32"; widen(p.a[k], p.b[k2], r); break;
            case 11: what = "conversion 24 to 64"; widen(p.a[k], p.c[k2], r); break;
            default: what = "calls"; break;
            }
            g_throw_at = -1; hx::note("%s%s, step %zu of %zu", what, faults ? " (with throwing copies)" : "", i, steps); bool call = w >= 12 || r.chance(1, 4);
            p.each([&](auto &s){ verify(s, r, what, call); });
            held = 0; size_t n = 0; p.each([&](auto &s){ if(s.f && !s.m.moved && s.m.kind >= 0 && s.m.kind != 101) ++held; if(s.f && s.m.moved) ++n; });
            HX_CHECK(g_live.size() >= held && g_live.size() <= held + n, "balance", "after %s: %zu callables alive, %zu functions hold one (%zu moved from)", what, g_live.size(), held, n);
            sig = sig * 31 + w;
        }
    }
    HX_CHECK(g_live.empty(), "leak", "%zu callables never destroyed", g_live.size());
    hx::count("lifetime_events", g_events); g_events = 0; hx::seen(sig);
}
// arguments and results travel unchanged, and by value ones are not copied needlessly
struct Arg { static int copies, moves; int v; explicit Arg(int x) : v(x) {} Arg(Arg const& o) : v(o.v) { ++copies; } Arg(Arg &&o) noexcept : v(o.v) { ++moves; o.v = -1; } };
int Arg::copies = 0; int Arg::moves = 0;
SCENARIO(forwarding, 2000, 20000)
{
    (void)it; int v = (int)r.u64(), w = (int)r.u64(); hx::note("arguments %d %d", v, w);
    { inplace_function<std::unique_ptr<int>(std::unique_ptr<int>, int)> f = [](std::unique_ptr<int> p, int d){ *p ^= d; return p; }; std::unique_ptr<int> p(new int(v)); int *raw = p.get(); auto q = f(std::move(p), w); HX_CHECK(q.get() == raw && *q == (v ^ w) && !p, "move-only", "a move-only argument did not arrive"); }
    { inplace_function<int&(int&, const int&)> f = [](int &a, const int &b) -> int& { a ^= b; return a; }; int a = v; int &ra = f(a, w); HX_CHECK(&ra == &a && a == (v ^ w), "reference", "a reference argument did not arrive"); }
    { Arg a(v); inplace_function<int(Arg)> f = [](Arg x){ return x.v; }; Arg::copies = Arg::moves = 0; int g = f(a); HX_CHECK(g == v && a.v == v && Arg::copies == 1, "by-value", "an lvalue passed by value: %d copies", Arg::copies); Arg::copies = 0; g = f(Arg(w)); HX_CHECK(g == w && Arg::copies == 0, "by-value", "an rvalue passed by value: %d copies", Arg::copies); }
    { inplace_function<int(Arg&&)> f = [](Arg &&x){ Arg y(std::move(x)); return y.v; }; Arg a(v); int g = f(std::move(a)); HX_CHECK(g == v && a.v == -1, "rvalue", "an rvalue reference did not arrive"); inplace_function<int(Arg const&)> h = [](Arg const& x){ return x.v; }; Arg b(w); Arg::copies = 0; HX_CHECK(h(b) == w && Arg::copies == 0, "const-reference", "copied"); }
    { int hits = 0; inplace_function<void(int, double, const char*)> f = [&hits](int a, double b, const char *c){ hits += a + (int)b + (int)strlen(c); }; f(3, 4.0, "five."); HX_CHECK(hits == 12, "void", "%d", hits); inplace_function<void()> g = [&hits]{ hits = 0; }; auto h = g; h(); HX_CHECK(hits == 0, "void", "no call"); }
    { inplace_function<long(int)> f = [](int x){ return x; }; HX_CHECK(f(v) == (long)v, "conversion", "result converted wrongly"); inplace_function<int(int)> t = [](int) -> int { throw Boom(); }; bool c = false; try { t(v); } catch(Boom const&) { c = true; } HX_CHECK(c, "exception", "the callable's exception did not arrive"); }
    { std::string s(r.below(40), 'x'); inplace_function<std::string(std::string const&), 64> f = [s](std::string const& o){ return s + o; }; auto g = f; auto h = std::move(f); HX_CHECK(g("y") == s + "y" && h("z") == s + "z", "owning", "captured string lost"); g = nullptr; HX_CHECK(h("w") == s + "w", "owning", "captured string shared"); hx::seen(s.size()); }
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = a random history over nine function objects of three capacities; distinct = sequences of operation kinds"); }

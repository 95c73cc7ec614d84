// C21: mass construction, copy, move, assignment, destruction, and gaps: every slot's lifetime is monitored
#include "hx.hpp"
#include <memory>
#include <c4/ctor_dtor.hpp>
using namespace c4;

// ---------------------------------------------------------------- the lifetime monitor
static std::map<const void*, int> g_live;   // address -> 1
static uint64_t g_events = 0, g_ctor = 0, g_dtor = 0;
static void born(const void *p, const char *how) { ++g_events; ++g_ctor; if(!g_live.insert(std::make_pair(p, 1)).second) hx::fail("construct-over-live", "%s over an object which is alive", how); }
static void died(const void *p) { ++g_events; ++g_dtor; if(!g_live.erase(p)) hx::fail("destroy-not-live", "destruction of a slot which holds no object"); }
static void used(const void *p, const char *how) { ++g_events; if(!g_live.count(p)) hx::fail("use-not-live", "%s a slot which holds no object", how); }
enum { MOVED = -7777, DEF = 41 };
struct Obj // owns memory, so that the sanitizer sees leaks and double frees as well
{
    int *p; Obj *self;
    Obj() : p(new int(DEF)), self(this) { born(this, "default construction"); }
    Obj(int v) : p(new int(v)), self(this) { born(this, "construction"); }
    Obj(int a, int b) : p(new int(a + b)), self(this) { born(this, "construction"); }
    Obj(Obj const& o) : p(nullptr), self(this) { used(&o, "copy from"); p = new int(*o.p); born(this, "copy construction"); }
    Obj(Obj &&o) noexcept : p(nullptr), self(this) { used(&o, "move from"); p = o.p; o.p = new int(MOVED); born(this, "move construction"); }
    Obj& operator=(Obj const& o) { used(this, "copy assignment to"); used(&o, "copy from"); if(this != &o) *p = *o.p; return *this; }
    Obj& operator=(Obj &&o) noexcept { used(this, "move assignment to"); used(&o, "move from"); if(this != &o) { *p = *o.p; *o.p = MOVED; } return *this; }
    ~Obj() { if(self != this) hx::fail("relocated-bytes", "a non-trivial object was moved as bytes"); died(this); delete p; p = (int*)1; self = nullptr; }
    int get() const { used(this, "reading"); return *p; }
};
struct Pod { char a; int b; char c[3]; };
struct Def { int v = DEF; int w = 3; };             // trivially copyable, not trivially default-constructible
struct Cpy { int v; Cpy() = default; Cpy(int x) : v(x) {} Cpy(Cpy const& o) : v(o.v) {} Cpy& operator=(Cpy const& o) { v = o.v; return *this; } }; // trivial default, non-trivial copy
struct MvA { int v; MvA() = default; MvA(int x) : v(x) {} MvA(MvA const&) = default; MvA& operator=(MvA const& o) { v = o.v; return *this; } MvA& operator=(MvA &&o) noexcept { v = o.v; o.v = MOVED; return *this; } }; // trivial construction, non-trivial assignment
template<class T> struct X { enum { tracked = 0, defval = 0 }; static T mk(int v) { return T(v); } static long get(T const& t) { return (long)t; } };
template<> struct X<uint8_t> { enum { tracked = 0, defval = 0 }; static uint8_t mk(int v) { return (uint8_t)(v & 0x7f); } static long get(uint8_t t) { return t; } };
template<> struct X<Obj> { enum { tracked = 1, defval = DEF }; static Obj mk(int v) { return Obj(v); } static long get(Obj const& o) { return o.get(); } };
template<> struct X<Pod> { enum { tracked = 0, defval = 0 }; static Pod mk(int v) { Pod p; memset((void*)&p, 0, sizeof(p)); p.a = (char)v; p.b = v; p.c[2] = (char)(v >> 3); return p; } static long get(Pod const& p) { return p.b + (p.a != (char)p.b) * 1000000L + (p.c[2] != (char)(p.b >> 3)) * 2000000L; } };
template<> struct X<Def> { enum { tracked = 0, defval = DEF }; static Def mk(int v) { Def d; d.v = v; return d; } static long get(Def const& d) { return d.v + (d.w != 3) * 1000000L; } };
template<> struct X<Cpy> { enum { tracked = 0, defval = 0 }; static Cpy mk(int v) { return Cpy(v); } static long get(Cpy const& d) { return d.v; } };
template<> struct X<MvA> { enum { tracked = 0, defval = 0 }; static MvA mk(int v) { return MvA(v); } static long get(MvA const& d) { return d.v; } };
template<> struct X<double> { enum { tracked = 0, defval = 0 }; static double mk(int v) { return v + 0.0; } static long get(double d) { return (long)d; } };

// ---------------------------------------------------------------- slots
enum { RAW = -1000000, ANY = -2000000 }; // what the model knows about a slot, besides values
template<class T>
struct Slots
{
    hx::Exact mem; T *p; size_t n; std::vector<long> m; std::vector<char> snap;
    explicit Slots(size_t n_) : mem((n_ + 1) * sizeof(T), 0xA5), p((T*)mem.p + 1), n(n_), m(n_, RAW) {} // one guard slot before; the red zone starts right after the last one
    void set(size_t i, int v) { new ((void*)(p + i)) T(X<T>::mk(v)); m[i] = X<T>::get(p[i]); }
    void fill(hx::Rng &r, size_t first, size_t num) { for(size_t i = 0; i < num; ++i) set(first + i, (int)(1 + r.below(100))); }
    void drop(size_t first, size_t num) { for(size_t i = first; i < first + num; ++i) { p[i].~T(); m[i] = RAW; } }
    void remember() { snap.assign((char*)p, (char*)p + n * sizeof(T)); }
    void verify(const char *key, const char *what)
    {
        for(size_t i = 0; i < sizeof(T); ++i) HX_CHECK(mem.p[i] == (char)0xA5, key, "%s: the slot before the first was written", what);
        for(size_t i = 0; i < n; ++i)
        {
            if(m[i] == RAW)
            {
                if(X<T>::tracked) HX_CHECK(!g_live.count(p + i), key, "%s: slot %zu of %zu should be raw, but holds an object", what, i, n);
                else HX_CHECK(snap.empty() || 0 == memcmp(&snap[i * sizeof(T)], p + i, sizeof(T)), key, "%s: raw slot %zu of %zu was written", what, i, n);
                continue;
            }
            if(X<T>::tracked) { HX_CHECK(g_live.count(p + i), key, "%s: slot %zu of %zu should hold an object", what, i, n); if(!g_live.count(p + i)) { m[i] = RAW; continue; } }
            if(m[i] == ANY) { hx::ev(); continue; }
            long v = X<T>::get(p[i]); HX_CHECK(v == m[i], key, "%s: slot %zu of %zu holds %ld, expected %ld", what, i, n, v, m[i]);
        }
    }
    ~Slots() { for(size_t i = 0; i < n; ++i) if(X<T>::tracked ? g_live.count(p + i) != 0 : m[i] != RAW) p[i].~T(); }
};
template<class T> static long movedval(long was, bool assigned) { if(X<T>::tracked) return MOVED; return std::is_same<T, MvA>::value && assigned ? MOVED : was; }

// now and then many elements: beyond 8-bit counts, and (plain types) beyond 16-bit counts
template<class T, class I> static size_t big_n(hx::Rng &r)
{
    if(sizeof(I) == 1) return 25 + r.below(100); // a count and an end must both fit
    if(sizeof(I) >= 4 && !X<T>::tracked && r.chance(1, 15)) return 65000 + r.below(70000);
    return 240 + r.below(400);
}
template<class T, class I>
static void ops(hx::Rng &r)
{
    size_t n = 1 + r.below(r.coin() ? 6 : 24); if(r.chance(1, 80)) n = big_n<T, I>(r); { Slots<T> d(n), s(n);
    size_t first = r.below(n), num = r.below(n - first + 1), so = r.below(n - num + 1); size_t op = r.below(18);
    hx::note("type size %zu op %zu slots %zu first %zu num %zu from %zu", sizeof(T), op, n, first, num, so); hx::count(hx::fmt("op%02zu", op).c_str());
    static const bool single[18] = {1,0,1,0,1,0,1,0,0,1,0,1,0,1,0,1,1,0}, live[18] = {0,0,0,0,0,0,1,1,1,0,0,1,1,1,1,1,0,0}; // operations on one object; on live objects
    if(single[op]) num = 1;
    if(so + num > n) so = n - num;
    s.fill(r, 0, n); d.fill(r, 0, n); if(!live[op]) d.drop(first, num);
    d.remember(); s.remember(); int cv = (int)(1 + r.below(100)); T val = X<T>::mk(cv); long vv = X<T>::get(val);
    switch(op)
    {
    case 0: construct(d.p + first); d.m[first] = X<T>::defval; break;
    case 1: construct_n(d.p + first, (I)num); for(size_t i = 0; i < num; ++i) d.m[first + i] = X<T>::defval; break;
    case 2: construct(d.p + first, val); d.m[first] = vv; break;
    case 3: construct_n(d.p + first, (I)num, val); for(size_t i = 0; i < num; ++i) d.m[first + i] = vv; break;
    case 4: copy_construct(d.p + first, (T const*)(s.p + so)); d.m[first] = s.m[so]; break;
    case 5: copy_construct_n(d.p + first, (T const*)(s.p + so), (I)num); for(size_t i = 0; i < num; ++i) d.m[first + i] = s.m[so + i]; break;
    case 6: copy_assign(d.p + first, (T const*)(s.p + so)); d.m[first] = s.m[so]; break;
    case 7: copy_assign_n(d.p + first, (T const*)(s.p + so), (I)num); for(size_t i = 0; i < num; ++i) d.m[first + i] = s.m[so + i]; break;
    case 8: copy_assign_n(d.p + first, val, (I)num); for(size_t i = 0; i < num; ++i) d.m[first + i] = vv; break;
    case 9: move_construct(d.p + first, s.p + so); d.m[first] = s.m[so]; s.m[so] = movedval<T>(s.m[so], false); break;
    case 10: move_construct_n(d.p + first, s.p + so, (I)num); for(size_t i = 0; i < num; ++i) { d.m[first + i] = s.m[so + i]; s.m[so + i] = movedval<T>(s.m[so + i], false); } break;
    case 11: move_assign(d.p + first, s.p + so); d.m[first] = s.m[so]; s.m[so] = movedval<T>(s.m[so], true); break;
    case 12: move_assign_n(d.p + first, s.p + so, (I)num); for(size_t i = 0; i < num; ++i) { d.m[first + i] = s.m[so + i]; s.m[so + i] = movedval<T>(s.m[so + i], true); } break;
    case 13: destroy(d.p + first); d.m[first] = RAW; break;
    case 14: destroy_n(d.p + first, (I)num); for(size_t i = 0; i < num; ++i) d.m[first + i] = RAW; break;
    case 15: copy_assign(d.p + first, val); d.m[first] = vv; break;
    case 16: copy_construct(d.p + first, val); d.m[first] = vv; break;
    case 17: copy_construct_n(d.p + first, val, (I)num); for(size_t i = 0; i < num; ++i) d.m[first + i] = vv; break;
    }
    HX_CHECK(X<T>::get(val) == vv, "value", "the value argument was changed");
    d.verify("designated-slots", "destination"); s.verify("source-slots", "source"); hx::seen(op, n, first * 64 + num, sizeof(T) * 16 + sizeof(I));
    }
    if(X<T>::tracked) { HX_CHECK(g_live.empty(), "lifetimes", "%zu objects still alive", g_live.size()); g_live.clear(); }
}
template<class T> static void ops_i(hx::Rng &r) { switch(r.below(4)) { case 0: ops<T, size_t>(r); break; case 1: ops<T, int>(r); break; case 2: ops<T, uint8_t>(r); break; case 3: ops<T, int16_t>(r); break; } }
SCENARIO(mass_operations, 60000, 1500000) { SC_UNUSED(); switch(r.below(9)) { case 0: ops_i<uint8_t>(r); break; case 1: ops_i<int>(r); break; case 2: ops_i<double>(r); break; case 3: ops_i<Pod>(r); break; case 4: ops_i<Def>(r); break; case 5: ops_i<Cpy>(r); break; case 6: ops_i<MvA>(r); break; default: ops_i<Obj>(r); } hx::st().counters["lifetime_events"] = g_events; hx::st().counters["objects_constructed"] = g_ctor; hx::st().counters["objects_destroyed"] = g_dtor; }

// arrays, and constructors with several arguments
SCENARIO(arrays, 3000, 50000)
{
    SC_UNUSED();
    { int a[5], b[5]; for(int &x : a) x = (int)r.below(1000); memset(b, 0xff, sizeof(b)); copy_construct(b, a); HX_CHECK(!memcmp(a, b, sizeof(a)), "array", "copy_construct of an array"); memset(b, 0xff, sizeof(b)); copy_assign(b, a); HX_CHECK(!memcmp(a, b, sizeof(a)), "array", "copy_assign of an array"); }
    { Obj a[3]; for(auto &x : a) x = Obj((int)r.below(1000)); Obj b[3]; copy_assign(b, a); for(int i = 0; i < 3; ++i) HX_CHECK(b[i].get() == a[i].get(), "array", "copy_assign of an array of objects"); for(auto &x : b) x.~Obj(); copy_construct(b, a); for(int i = 0; i < 3; ++i) HX_CHECK(b[i].get() == a[i].get(), "array", "copy_construct of an array of objects"); }
    { Slots<Obj> s(4); construct(s.p, 1, 2); s.m[0] = 3; construct_n(s.p + 1, 2, 5, 6); s.m[1] = s.m[2] = 11; s.verify("arguments", "construct with arguments"); }
    { // a temporary as argument: every element gets its value
        alignas(std::string) unsigned char mem[6 * sizeof(std::string)]; std::string *p = (std::string*)mem; size_t n = r.below(6); std::string x = r.str(50, "abc");
        construct_n(p, n, std::string(x)); for(size_t i = 0; i < n; ++i) HX_CHECK(p[i] == x, "temporary-argument", "element %zu of %zu is %s", i, n, p[i].c_str()); destroy_n(p, n); }
    HX_CHECK(g_live.empty(), "lifetimes", "%zu objects still alive", g_live.size()); g_live.clear(); hx::seen(r.below(4));
}

// ---------------------------------------------------------------- gaps
template<class T, class I>
static void gaps(hx::Rng &r)
{
    { size_t n = r.below(r.coin() ? 5 : 20), room = r.below(r.coin() ? 5 : 25), pre = r.below(3), post = r.below(3); size_t op = r.below(6); if(r.chance(1, 80)) { if(r.coin()) n = big_n<T, I>(r); if(r.coin()) room = big_n<T, I>(r); } size_t pos = n ? r.below(n) : 0;
    if(pos && r.chance(1, 4)) pos = r.coin() ? n - 1 : 0;
    if(op == 1 && r.coin()) pos = n; // append position, in place
    hx::note("type size %zu gap op %zu n %zu room %zu pos %zu", sizeof(T), op, n, room, pos); hx::count(hx::fmt("gap%zu_%s", op, room < n - pos ? "overlap" : "apart").c_str());
    if(op <= 1)
    {   // open a gap in place
        if(op == 0) pos = 0;
        Slots<T> d(pre + n + room + post); d.fill(r, 0, pre + n); d.fill(r, pre + n + room, post); d.remember(); std::vector<long> was(d.m);
        if(op == 0) make_room(d.p + pre, (I)n, (I)room); else make_room(d.p + pre, (I)(n + room + r.below(2) * post), (I)n, (I)pos, (I)room);
        size_t tail = n - pos; for(size_t i = 0; i < tail; ++i) d.m[pre + pos + room + i] = was[pre + pos + i];
        // the gap: what was there has been moved from; slots which never held anything stay raw
        for(size_t i = pos; i < pos + room; ++i) if(i < n) d.m[pre + i] = ANY;
        if(!X<T>::tracked) d.snap.clear();
        d.verify("make-room", "in place");
    }
    else if(op <= 3)
    {   // open a gap while copying to another buffer
        Slots<T> s(n + post), d(pre + n + room + post); s.fill(r, 0, n + post); d.fill(r, 0, pre); d.fill(r, pre + n + room, post); d.remember(); s.remember();
        if(op == 2) make_room(d.p + pre, (T const*)s.p, (I)n, (I)room, (I)pos);
        else if(n + room > pos) make_room(d.p + pre, (I)(n + room), (T const*)s.p, (I)n, (I)room, (I)pos); else return;
        for(size_t i = 0; i < n; ++i) d.m[pre + (i < pos ? i : i + room)] = s.m[i];
        d.verify("make-room-copy", "destination"); s.verify("make-room-copy", "source");
    }
    else if(op == 4)
    {   // close a gap in place
        room = r.below(n + 1); if(r.chance(1, 5)) room = r.chance(2, 3) ? n : 0;
        Slots<T> d(pre + n + post); d.fill(r, 0, pre + n + post); std::vector<long> was(d.m); d.remember();
        destroy_room(d.p + pre, (I)n, (I)room);
        for(size_t i = 0; i < n - room; ++i) d.m[pre + i] = was[pre + i + room];
        for(size_t i = n - room; i < n; ++i) d.m[pre + i] = X<T>::tracked ? (long)RAW : (long)ANY;
        d.snap.clear(); d.verify("destroy-room", "in place");
    }
    else
    {   // close a gap while copying to another buffer
        if(n == 0) return; room = r.below(n - pos + 1); if(r.chance(1, 6)) room = r.coin() ? n - pos : 0;
        Slots<T> s(n + post), d(pre + n - room + post); s.fill(r, 0, n + post); d.fill(r, 0, pre); d.fill(r, pre + n - room, post); d.remember(); s.remember();
        destroy_room(d.p + pre, (T const*)s.p, (I)n, (I)room, (I)pos);
        for(size_t i = 0; i < n - room; ++i) d.m[pre + i] = s.m[i < pos ? i : i + room];
        d.verify("destroy-room-copy", "destination"); s.verify("destroy-room-copy", "source");
    }
    hx::seen(op, n, room * 64 + pos, sizeof(T) * 16 + sizeof(I));
    }
    if(X<T>::tracked) { HX_CHECK(g_live.empty(), "lifetimes", "%zu objects still alive", g_live.size()); g_live.clear(); }
}
template<class T> static void gaps_i(hx::Rng &r) { switch(r.below(3)) { case 0: gaps<T, size_t>(r); break; case 1: gaps<T, int>(r); break; case 2: gaps<T, uint32_t>(r); break; } }
SCENARIO(gaps, 60000, 1500000) { SC_UNUSED(); switch(r.below(8)) { case 0: gaps_i<uint8_t>(r); break; case 1: gaps_i<int>(r); break; case 2: gaps_i<Pod>(r); break; case 3: gaps_i<Def>(r); break; case 4: gaps_i<Cpy>(r); break; case 5: gaps_i<double>(r); break; default: gaps_i<Obj>(r); } hx::st().counters["lifetime_events"] = g_events; hx::st().counters["objects_constructed"] = g_ctor; hx::st().counters["objects_destroyed"] = g_dtor; }

// types of which a single special member is not trivial: it is that member, and none other, which does the work, once for each element
static size_t g_special[4]; // copy construction, move construction, copy assignment, move assignment
struct OnlyCC { int v; OnlyCC(int x = 0) : v(x) {} OnlyCC(OnlyCC const& o) : v(o.v) { ++g_special[0]; } OnlyCC(OnlyCC &&) = default; OnlyCC& operator=(OnlyCC const&) = default; OnlyCC& operator=(OnlyCC &&) = default; };
struct OnlyMC { int v; OnlyMC(int x = 0) : v(x) {} OnlyMC(OnlyMC const&) = default; OnlyMC(OnlyMC &&o) noexcept : v(o.v) { ++g_special[1]; } OnlyMC& operator=(OnlyMC const&) = default; OnlyMC& operator=(OnlyMC &&) = default; };
struct OnlyCA { int v; OnlyCA(int x = 0) : v(x) {} OnlyCA(OnlyCA const&) = default; OnlyCA(OnlyCA &&) = default; OnlyCA& operator=(OnlyCA const& o) { v = o.v; ++g_special[2]; return *this; } OnlyCA& operator=(OnlyCA &&) = default; };
struct OnlyMA { int v; OnlyMA(int x = 0) : v(x) {} OnlyMA(OnlyMA const&) = default; OnlyMA(OnlyMA &&) = default; OnlyMA& operator=(OnlyMA const&) = default; OnlyMA& operator=(OnlyMA &&o) noexcept { v = o.v; ++g_special[3]; return *this; } };
struct Each { int v; Each(int x = 0) : v(x) {} Each(Each const& o) : v(o.v) { ++g_special[0]; } Each(Each &&o) noexcept : v(o.v) { ++g_special[1]; } Each& operator=(Each const& o) { v = o.v; ++g_special[2]; return *this; } Each& operator=(Each &&o) noexcept { v = o.v; ++g_special[3]; return *this; } };
template<class T, class I> static void special(hx::Rng &r, unsigned counted, const char *name)
{
    size_t n = r.below(12); std::vector<T> s, d; s.reserve(n + 1); d.reserve(n + 1); for(size_t i = 0; i <= n; ++i) { s.emplace_back((int)r.below(1000)); d.emplace_back(-1); }
    T val((int)r.below(1000)); size_t kind = r.below(4), form = r.below(3); size_t num = form == 0 ? 1 : n; if(form == 2 && kind % 2) form = 1; bool fromval = form == 2 || (form == 0 && kind % 2 == 0 && r.coin());
    hx::note("%s kind %zu form %zu n %zu%s", name, kind, form, n, fromval ? " from a value" : ""); T *dp = d.data(), *sp = s.data(); T const *cp = sp; memset(g_special, 0, sizeof(g_special));
    switch(kind)
    {
    case 0: if(form == 0) { if(fromval) copy_construct(dp, val); else copy_construct(dp, cp); } else if(form == 1) copy_construct_n(dp, cp, (I)num); else copy_construct_n(dp, val, (I)num); break;
    case 1: if(form == 0) move_construct(dp, sp); else move_construct_n(dp, sp, (I)num); break;
    case 2: if(form == 0) { if(fromval) copy_assign(dp, val); else copy_assign(dp, cp); } else if(form == 1) copy_assign_n(dp, cp, (I)num); else copy_assign_n(dp, val, (I)num); break;
    default: if(form == 0) move_assign(dp, sp); else move_assign_n(dp, sp, (I)num); break;
    }
    for(size_t k = 0; k < 4; ++k) { size_t want = k == kind && (counted >> k & 1) ? num : 0; HX_CHECK(g_special[k] == want, "special-member", "%s: operation %zu on %zu elements used special member %zu %zu times", name, kind, num, k, g_special[k]); }
    for(size_t i = 0; i <= n; ++i) { int want = i < num ? (fromval ? val.v : s[i].v) : -1; HX_CHECK(d[i].v == want, "special-value", "%s: slot %zu of %zu is %d instead of %d", name, i, num, d[i].v, want); }
    hx::seen(hx::hstr(name), kind, form, n);
}
template<class I> static void specials(hx::Rng &r) { switch(r.below(5)) { case 0: special<OnlyCC, I>(r, 1, "OnlyCC"); break; case 1: special<OnlyMC, I>(r, 2, "OnlyMC"); break; case 2: special<OnlyCA, I>(r, 4, "OnlyCA"); break; case 3: special<OnlyMA, I>(r, 8, "OnlyMA"); break; default: special<Each, I>(r, 15, "Each"); break; } }
SCENARIO(special_members, 20000, 400000) { SC_UNUSED(); switch(r.below(3)) { case 0: specials<size_t>(r); break; case 1: specials<int>(r); break; default: specials<uint16_t>(r); break; } }

// elements which can only be moved
SCENARIO(move_only, 4000, 100000)
{
    SC_UNUSED(); using P = std::unique_ptr<int>; size_t n = r.below(10), room = r.below(12);
    std::vector<char> m((n + room + 1) * sizeof(P) + alignof(P)); void *v = m.data(); size_t sp = m.size(); std::align(alignof(P), 1, v, sp); P *p = (P*)v; hx::note("move only, n %zu room %zu", n, room);
    for(size_t i = 0; i < n; ++i) { construct(p + i, new int((int)i)); }
    std::vector<P> d(n); move_assign_n(d.data(), p, n); for(size_t i = 0; i < n; ++i) HX_CHECK(d[i] && *d[i] == (int)i && !p[i], "move-only", "element %zu of %zu was not moved", i, n);
    destroy_n(p, n); move_construct_n(p, d.data(), n); for(size_t i = 0; i < n; ++i) HX_CHECK(p[i] && *p[i] == (int)i && !d[i], "move-only", "element %zu of %zu was not move-constructed", i, n);
    make_room(p, n, room); for(size_t i = 0; i < n; ++i) HX_CHECK(p[room + i] && *p[room + i] == (int)i, "move-only-room", "element %zu of %zu after making room for %zu", i, n, room);
    for(size_t i = 0; i < room; ++i) { if(i < n) { destroy(p + i); } construct(p + i, new int(1000 + (int)i)); } // what was in the room is still alive
    size_t k = r.below(n + room + 1); destroy_room(p, n + room, k); for(size_t i = k; i < n + room; ++i) { int want = i < room ? 1000 + (int)i : (int)(i - room); HX_CHECK(p[i - k] && *p[i - k] == want, "move-only-close", "element %zu after removing %zu", i, k); }
    destroy_n(p, n + room - k); hx::seen(n, room, k);
}

int main(int argc, char **argv) { return hx::main_(argc, argv, "distinct (operation, sizes, positions, element and index type)"); }

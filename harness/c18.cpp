// C18: allocators under real containers
#include "memmon.hpp"
#include <c4/allocator.hpp>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <unordered_map>
#include <string>
#include <memory>
using namespace c4;
using mm::TrackMR; using mm::Shadow;

// ---------------------------------------------------------------- an element watching its own lifetime
template<size_t Align, size_t Pad>
struct alignas(Align) Tok
{
    int v; unsigned char pad[Pad];
    static std::set<void const*>& live() { static std::set<void const*> s; return s; }
    void born() const { hx::ev(); if(((uintptr_t)this & (Align - 1)) != 0) hx::fail("element-misaligned", "element aligned %zu at %p", Align, (void const*)this); if(!live().insert(this).second) hx::fail("constructed-twice", "an element was constructed on top of a live one"); fillpad(); }
    void fillpad() const { memset(const_cast<unsigned char*>(pad), v & 0xff, Pad); }
    void ok() const { for(size_t i = 0; i < Pad; ++i) if(pad[i] != (unsigned char)(v & 0xff)) { hx::fail("element-corrupted", "the bytes of an element changed"); return; } }
    Tok(int x = 0) : v(x) { born(); }
    Tok(Tok const& t) : v(t.v) { alive(&t); t.ok(); born(); }
    Tok(Tok && t) noexcept : v(t.v) { alive(&t); t.ok(); born(); }
    Tok& operator=(Tok const& t) { alive(this); alive(&t); v = t.v; fillpad(); return *this; }
    ~Tok() { ok(); hx::ev(); if(!live().erase(this)) hx::fail("destroyed-twice", "a dead element was destroyed"); }
    static void alive(Tok const *t) { hx::ev(); if(!live().count(t)) hx::fail("use-of-dead", "a dead element was used"); }
    bool operator==(Tok const& t) const { return v == t.v; }
    bool operator<(Tok const& t) const { return v < t.v; }
};
typedef Tok<4, 4> TokS; typedef Tok<64, 20> TokA;
template<class T> struct mk { static T from(int i) { return T(i); } };
template<> struct mk<std::string> { static std::string from(int i) { return std::string((size_t)(i % 40), (char)('a' + i % 26)) + std::to_string(i); } };
template<class T> static size_t live_of() { return 0; }
template<> size_t live_of<TokS>() { return TokS::live().size(); }
template<> size_t live_of<TokA>() { return TokA::live().size(); }

template<class V, class W> static bool same(V const& a, W const& b) { if(a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for(; i != a.end(); ++i, ++j) if(!(*i == *j)) return false; return true; }

// ---------------------------------------------------------------- vector-like histories (reference: the same container with std::allocator)
template<class T, class V, class W>
static void seq_op(hx::Rng &r, V &v, W &w, bool has_capacity, bool transfers, uint64_t *sig)
{
    size_t k = r.below(15); size_t pos = r.below(w.size() + 1); T x = mk<T>::from((int)r.below(1000)); *sig = *sig * 31 + k;
    hx::note("op %zu size %zu pos %zu", k, w.size(), pos);
    auto vi = std::next(v.begin(), (std::ptrdiff_t)pos); auto wi = std::next(w.begin(), (std::ptrdiff_t)pos);
    switch(k)
    {
    case 0: case 1: case 2: case 3: v.push_back(x); w.push_back(x); break;
    case 4: v.emplace_back(x); w.emplace_back(x); break;
    case 5: v.insert(vi, x); w.insert(wi, x); break;
    case 6: { size_t n = r.below(12); v.insert(vi, n, x); w.insert(wi, n, x); break; }
    case 7: if(pos < w.size()) { v.erase(vi); w.erase(wi); } break;
    case 8: { size_t n = r.below(w.size() - pos + 1); v.erase(vi, std::next(vi, (std::ptrdiff_t)n)); w.erase(wi, std::next(wi, (std::ptrdiff_t)n)); break; }
    case 9: { size_t n = r.below(40); v.resize(n, x); w.resize(n, x); break; }
    case 10: if(r.chance(1, 3)) { v.clear(); w.clear(); } break;
    case 11: if(transfers) { size_t n = r.below(25); v.assign(n, x); w.assign(n, x); } break;
    case 12: if(!w.empty()) { v.pop_back(); w.pop_back(); } break;
    case 13: { std::vector<T> src; for(size_t i = r.below(20); i; --i) src.push_back(mk<T>::from((int)i)); v.insert(vi, src.begin(), src.end()); w.insert(wi, src.begin(), src.end()); break; }
    default: { if(has_capacity) { v.insert(v.end(), x); w.insert(w.end(), x); } else { v.push_front_(x); w.push_front_(x); } break; }
    }
    (void)transfers;
}
// adapters so that every sequence has the same surface
template<class V> struct Seq : V { using V::V; template<class T> void push_front_(T const& x) { this->insert(this->begin(), x); } };

// two containers of the same type on possibly different resources, plus their references
template<class T, class V, class W, class MakeV>
static void seq_history(hx::Rng &r, MakeV make, bool transfers, bool splice_ok)
{
    (void)splice_ok;
    typedef Seq<V> SV; typedef Seq<W> SW; uint64_t sig = 0;
    std::vector<std::unique_ptr<SV>> a; std::vector<std::unique_ptr<SW>> b;
    for(size_t i = 0; i < 2; ++i) { a.emplace_back(make.template operator()<SV>(i)); b.emplace_back(new SW()); }
    size_t nops = 5 + r.below(50);
    for(size_t op = 0; op < nops; ++op)
    {
        size_t i = r.below(2), j = 1 - i;
        size_t k = r.below(16);
        if(k < 11) seq_op<T>(r, *a[i], *b[i], false, transfers, &sig);
        else
        {
            sig = sig * 31 + 100 + k; hx::note("transfer %zu sizes %zu %zu", k, b[i]->size(), b[j]->size());
            switch(k)
            {
            case 11: *a[i] = *a[j]; *b[i] = *b[j]; hx::count("copy_assignments"); break;
            case 12: *a[i] = std::move(*a[j]); *b[i] = std::move(*b[j]); a[j]->clear(); b[j]->clear(); hx::count("move_assignments"); break;
            case 13: { SV c(*a[i]); SW d(*b[i]); HX_CHECK(same(c, d), "copy", "copy differs"); c.push_back(mk<T>::from(3)); d.push_back(mk<T>::from(3)); HX_CHECK(same(c, d), "copy-grown", "grown copy differs"); hx::count("copy_constructions"); break; }
            case 14: if(transfers) { std::unique_ptr<SV> c(new SV(std::move(*a[i]))); std::unique_ptr<SW> d(new SW(std::move(*b[i]))); a[i]->clear(); b[i]->clear(); HX_CHECK(same(*c, *d), "move", "moved container differs"); if(r.coin()) { a[i] = std::move(c); b[i] = std::move(d); } hx::count("move_constructions"); } break;
            case 15: if(transfers && a[i]->get_allocator() == a[j]->get_allocator()) { a[i]->swap(*a[j]); b[i]->swap(*b[j]); hx::count("swaps"); } break;
            }
        }
        HX_CHECK(same(*a[i], *b[i]) && same(*a[j], *b[j]), "contents", "containers differ from the reference after the operation (sizes %zu/%zu, %zu/%zu)", a[i]->size(), b[i]->size(), a[j]->size(), b[j]->size());
        hx::seen(sig);
    }
}
struct NoOther { TrackMR glob; ScopedMemoryResource s; MemoryResource *before; NoOther() : glob("global (must not be used)"), s(&glob), before(nullptr) {} void check() { HX_CHECK(glob.nalloc == 0, "wrong-resource", "%llu allocations went to the global resource", (unsigned long long)glob.nalloc); } };

template<template<class> class A>
struct MakeMR { MemoryResource *m[2]; template<class SV> SV* operator()(size_t i) const { return new SV(typename SV::allocator_type(m[i])); } };
struct MakeDef { template<class SV> SV* operator()(size_t) const { return new SV(); } };

template<class T> using al_mr = c4::allocator_mr<T>;
template<class T> using sm_mr = c4::small_allocator_mr<T>;
template<class T> using sm_gl = c4::small_allocator<T>;

template<class T>
static void all_mr(hx::Rng &r)
{
    size_t live0 = live_of<T>();
    NoOther g; TrackMR t0("resource 0"), t1("resource 1"); bool two = r.coin();
    MakeMR<al_mr> mk_{{&t0, two ? &t1 : &t0}};
    switch(r.below(3))
    {
    case 0: seq_history<T, std::vector<T, al_mr<T>>, std::vector<T>>(r, mk_, true, true); break;
    case 1: seq_history<T, std::list<T, al_mr<T>>, std::list<T>>(r, mk_, true, true); break;
    case 2: seq_history<T, std::deque<T, al_mr<T>>, std::deque<T>>(r, mk_, true, true); break;
    }
    g.check();
    HX_CHECK(t0.live.empty() && t1.live.empty(), "not-returned", "%zu+%zu blocks left", t0.live.size(), t1.live.size());
    HX_CHECK(t0.nalloc + t1.nalloc > 0 || true, "used", "resource unused"); hx::count("blocks_from_resource", t0.nalloc + t1.nalloc);
    HX_CHECK(live_of<T>() == live0, "lifetime-balance", "%zd elements constructed and not destroyed", (ssize_t)(live_of<T>() - live0));
}
template<class T>
static void all_global(hx::Rng &r)
{
    size_t live0 = live_of<T>();
    TrackMR t("global resource"); ScopedMemoryResource s(&t);
    switch(r.below(3))
    {
    case 0: seq_history<T, std::vector<T, c4::allocator<T>>, std::vector<T>>(r, MakeDef(), true, true); break;
    case 1: seq_history<T, std::list<T, c4::allocator<T>>, std::list<T>>(r, MakeDef(), true, true); break;
    case 2: seq_history<T, std::deque<T, c4::allocator<T>>, std::deque<T>>(r, MakeDef(), true, true); break;
    }
    HX_CHECK(t.live.empty(), "not-returned", "%zu blocks left", t.live.size()); hx::count("blocks_from_resource", t.nalloc);
    HX_CHECK(live_of<T>() == live0, "lifetime-balance", "%zd elements", (ssize_t)(live_of<T>() - live0));
}
template<class T>
static void all_small(hx::Rng &r)
{
    size_t live0 = live_of<T>();
    {
        NoOther g; TrackMR t0("resource 0"), t1("resource 1"); bool two = r.coin();
        MakeMR<sm_mr> mk_{{&t0, two ? &t1 : &t0}};
        seq_history<T, std::vector<T, sm_mr<T>>, std::vector<T>>(r, mk_, false, false);
        g.check(); HX_CHECK(t0.live.empty() && t1.live.empty(), "not-returned", "blocks left"); hx::count("blocks_from_resource", t0.nalloc + t1.nalloc);
    }
    {
        TrackMR t("global resource"); ScopedMemoryResource s(&t);
        seq_history<T, std::vector<T, sm_gl<T>>, std::vector<T>>(r, MakeDef(), false, false);
        HX_CHECK(t.live.empty(), "not-returned", "blocks left"); hx::count("blocks_from_resource", t.nalloc);
    }
    HX_CHECK(live_of<T>() == live0, "lifetime-balance", "%zd elements", (ssize_t)(live_of<T>() - live0));
}
#define TYPES(fn) switch(r.below(5)) { case 0: fn<int>(r); break; case 1: fn<std::string>(r); break; case 2: fn<TokA>(r); break; default: fn<TokS>(r); break; }
SCENARIO(sequences_mr, 1600, 40000) { SC_UNUSED(); TYPES(all_mr) }
SCENARIO(sequences_global, 800, 20000) { SC_UNUSED(); TYPES(all_global) }
SCENARIO(sequences_small, 1600, 40000) { SC_UNUSED(); TYPES(all_small) }

// ---------------------------------------------------------------- associative containers and strings
template<class M, class N> static void map_history(hx::Rng &r, M &m, N &n, bool small)
{
    uint64_t sig = 0; size_t nops = 10 + r.below(60);
    for(size_t op = 0; op < nops; ++op)
    {
        int k = (int)r.below(40); TokS v((int)r.below(100)); size_t o = r.below(9); sig = sig * 31 + o;
        switch(o)
        {
        case 0: case 1: case 2: m.emplace(k, v); n.emplace(k, v); break;
        case 3: m[k] = v; n[k] = v; break;
        case 4: m.erase(k); n.erase(k); break;
        case 5: { auto i = m.find(k); auto j = n.find(k); HX_CHECK((i == m.end()) == (j == n.end()), "find", "key %d", k); if(i != m.end() && j != n.end()) HX_CHECK(i->second == j->second, "find", "value of key %d", k); break; }
        case 6: if(r.chance(1, 4)) { m.clear(); n.clear(); } break;
        case 7: { M c(m); HX_CHECK(c.size() == m.size(), "copy", "sizes"); break; }
        case 8: if(!small && r.chance(1, 3)) { M c(std::move(m)); m.clear(); m = c; } break;
        }
        HX_CHECK(m.size() == n.size(), "size", "%zu instead of %zu", m.size(), n.size());
        hx::seen(sig);
    }
    for(auto &e : n) { auto i = m.find(e.first); HX_CHECK(i != m.end() && i->second == e.second, "contents", "key %d", e.first); }
}
SCENARIO(maps, 1500, 30000)
{
    SC_UNUSED();
    typedef std::pair<const int, TokS> VT; typedef std::map<int, TokS> REF; size_t live0 = TokS::live().size();
    {
        NoOther g; TrackMR t("resource"); REF ref;
        switch(r.below(3))
        {
        case 0: { typedef std::map<int, TokS, std::less<int>, al_mr<VT>> M; M m{std::less<int>(), al_mr<VT>(&t)}; map_history(r, m, ref, false); break; }
        case 1: { typedef std::unordered_map<int, TokS, std::hash<int>, std::equal_to<int>, al_mr<VT>> M; M m(3, std::hash<int>(), std::equal_to<int>(), al_mr<VT>(&t)); map_history(r, m, ref, false); break; }
        case 2: { typedef std::map<int, TokS, std::less<int>, sm_mr<VT>> M; M m{std::less<int>(), sm_mr<VT>(&t)}; map_history(r, m, ref, true); break; }
        }
        g.check();
        HX_CHECK(t.live.empty(), "not-returned", "%zu blocks left", t.live.size()); hx::count("blocks_from_resource", t.nalloc);
    }
    HX_CHECK(TokS::live().size() == live0, "lifetime-balance", "elements left");
}
template<class S> static void string_history(hx::Rng &r, S &s, std::string &w, bool transfers)
{
    uint64_t sig = 0;
    for(size_t op = 10 + r.below(40); op; --op)
    {
        std::string x = r.str(30, "abcdef"); size_t pos = r.below(w.size() + 1), k = r.below(9); sig = sig * 31 + k;
        switch(k)
        {
        case 0: case 1: s.append(x.data(), x.size()); w.append(x); break;
        case 2: s.insert(pos, x.data(), x.size()); w.insert(pos, x); break;
        case 3: s.erase(pos, 5); w.erase(pos, 5); break;
        case 4: s.assign(x.data(), x.size()); w.assign(x); break;
        case 5: { size_t n = r.below(100); s.resize(n, 'z'); w.resize(n, 'z'); break; }
        case 6: { S c(s); HX_CHECK(std::string(c.data(), c.size()) == w, "copy", "copied string differs"); c.append(50, 'k'); break; }
        case 7: if(transfers) { S c(std::move(s)); HX_CHECK(std::string(c.data(), c.size()) == w, "move", "moved string differs"); s = c; } break;
        case 8: s.reserve(r.below(200)); break;
        }
        HX_CHECK(std::string(s.data(), s.size()) == w, "contents", "string differs from the reference");
        hx::seen(sig);
    }
}
SCENARIO(strings, 1500, 30000)
{
    SC_UNUSED();
    NoOther g; TrackMR t("resource"); std::string w;
    switch(r.below(2))
    {
    case 0: { std::basic_string<char, std::char_traits<char>, al_mr<char>> s{al_mr<char>(&t)}; string_history(r, s, w, true); break; }
    case 1: { std::basic_string<char, std::char_traits<char>, sm_mr<char>> s{sm_mr<char>(&t)}; string_history(r, s, w, false); break; }
    }
    g.check(); HX_CHECK(t.live.empty(), "not-returned", "%zu blocks left", t.live.size()); hx::count("blocks_from_resource", t.nalloc);
}

// ---------------------------------------------------------------- nested containers get the outer resource
SCENARIO(nested, 1200, 20000)
{
    SC_UNUSED();
    typedef std::vector<TokS, al_mr<TokS>> IV; typedef std::vector<IV, al_mr<IV>> OV; size_t live0 = TokS::live().size();
    {
        NoOther g; TrackMR t("resource");
        { OV v{al_mr<IV>(&t)}; std::vector<std::vector<int>> w;
        for(size_t op = 3 + r.below(25); op; --op)
        {
            hx::note("nested op, size %zu", w.size());
            switch(r.below(5))
            {
            case 0: v.emplace_back(); w.emplace_back(); break;
            case 1: { size_t n = r.below(10); v.emplace_back(n); w.emplace_back(n); break; }
            case 2: if(!w.empty()) { size_t i = r.below(w.size()); int x = (int)r.below(100); v[i].push_back(TokS(x)); w[i].push_back(x); } break;
            case 3: if(!w.empty()) { size_t i = r.below(w.size()); IV c(v[i], al_mr<TokS>(&t)); v.push_back(c); auto cw = w[i]; w.push_back(cw); } break;
            case 4: if(!w.empty()) { size_t i = r.below(w.size()); v.erase(v.begin() + (std::ptrdiff_t)i); w.erase(w.begin() + (std::ptrdiff_t)i); } break;
            }
            for(auto &i : v) HX_CHECK(i.get_allocator().resource() == &t, "nested-resource", "an inner container does not use the outer resource");
            bool eq = v.size() == w.size(); for(size_t i = 0; eq && i < w.size(); ++i) { eq = v[i].size() == w[i].size(); for(size_t j = 0; eq && j < w[i].size(); ++j) eq = v[i][j].v == w[i][j]; }
            HX_CHECK(eq, "contents", "nested contents differ");
            hx::seen(w.size(), t.nalloc);
        } }
        g.check(); HX_CHECK(t.live.empty(), "not-returned", "%zu blocks left", t.live.size());
    }
    HX_CHECK(TokS::live().size() == live0, "lifetime-balance", "elements left");
}

// ---------------------------------------------------------------- direct use
template<class A, class T> static void direct(hx::Rng &r, A &a, size_t minal)
{
    Shadow s; uint64_t sig = 0;
    for(size_t op = 8 + r.below(50); op; --op)
    {
        size_t al = minal << r.below(3); size_t n = r.chance(1, 3) ? 1 + r.below(3) : 1 + r.below(24); size_t k = r.below(10); sig = sig * 31 + k * 40 + n;
        bool defal = r.coin(); if(defal) al = minal;
        if(s.v.empty() || k < 5) { hx::note("allocate %zu al %zu", n, al); T *p = defal ? a.allocate(n) : a.allocate(n, al); s.add(p, n * sizeof(T), al); hx::count("allocations"); }
        else if(k < 7) { size_t i = r.below(s.v.size()); auto h = s.v[i]; hx::note("reallocate %zu -> %zu al %zu", h.sz / sizeof(T), n, h.al); T *p = a.reallocate((T*)h.p, h.sz / sizeof(T), n, h.al); s.moved(i, p, n * sizeof(T)); hx::count("reallocations"); }
        else { size_t i = r.below(s.v.size()); auto h = s.v[i]; if(h.al == minal && r.coin()) a.deallocate((T*)h.p, h.sz / sizeof(T)); else a.deallocate((T*)h.p, h.sz / sizeof(T), h.al); s.drop(i); hx::count("deallocations"); }
        s.verify(); hx::seen(sig);
    }
    for(auto &h : s.v) a.deallocate((T*)h.p, h.sz / sizeof(T), h.al);
}
struct S24 { char c[24]; }; struct alignas(32) S96 { char c[96]; };
template<class T> static void direct_all(hx::Rng &r)
{
    NoOther g; TrackMR t("resource");
    { c4::allocator_mr<T> a(&t); direct<c4::allocator_mr<T>, T>(r, a, alignof(T)); HX_CHECK(t.live.empty(), "not-returned", "allocator"); }
    { typedef c4::small_allocator_mr<T> A; std::unique_ptr<A> a(new A(&t)); direct<A, T>(r, *a, alignof(T)); HX_CHECK(t.live.empty(), "not-returned", "small"); }
    { typedef c4::small_allocator_mr<T, 5, 16 * alignof(T)> A; void *m = nullptr; if(posix_memalign(&m, 16 * alignof(T) < 8 ? 8 : 16 * alignof(T), sizeof(A))) return; A *a = new(m) A(&t); direct<A, T>(r, *a, 16 * alignof(T)); a->~A(); free(m); HX_CHECK(t.live.empty(), "not-returned", "small, over-aligned"); }
    { typedef c4::small_allocator_mr<T, 1> A; std::unique_ptr<A> a(new A(&t)); direct<A, T>(r, *a, alignof(T)); HX_CHECK(t.live.empty(), "not-returned", "small of one"); }
    g.check();
}
SCENARIO(direct_use, 1500, 40000) { SC_UNUSED(); switch(r.below(4)) { case 0: direct_all<char>(r); break; case 1: direct_all<uint64_t>(r); break; case 2: direct_all<S24>(r); break; case 3: direct_all<int>(r); break; } }

// the small buffer is really used: no request reaches the resource while blocks fit and are given back in reverse order
SCENARIO(small_buffer_used, 800, 8000)
{
    SC_UNUSED();
    TrackMR t("resource"); typedef c4::small_allocator_mr<int, 16> A; std::unique_ptr<A> a(new A(&t)); std::vector<std::pair<int*, size_t>> st; size_t used = 0;
    for(size_t op = 0; op < 40; ++op)
    {
        size_t n = 1 + r.below(6);
        if(used + n <= 16 && r.chance(3, 5)) { int *p = a->allocate(n); for(size_t i = 0; i < n; ++i) p[i] = (int)i; st.emplace_back(p, n); used += n; HX_CHECK((char*)p >= (char*)a.get() && (char*)(p + n) <= (char*)a.get() + sizeof(A), "outside", "block outside of the allocator although it fits"); }
        else if(!st.empty()) { a->deallocate(st.back().first, st.back().second); used -= st.back().second; st.pop_back(); }
        HX_CHECK(t.nalloc == 0, "buffer-not-used", "%zu of 16 objects used, but the resource was asked", used);
        hx::seen(used, st.size());
    }
    while(!st.empty()) { a->deallocate(st.back().first, st.back().second); st.pop_back(); }
}

// allocator-aware types of both kinds: the resource comes last, or first after a tag
struct Trail { using allocator_type = c4::MemoryResource*; std::string s; int k; c4::MemoryResource *mr; Trail(c4::MemoryResource *m) : s(), k(0), mr(m) {} Trail(std::string x, c4::MemoryResource *m) : s(std::move(x)), k(1), mr(m) {} Trail(std::string x, int y, c4::MemoryResource *m) : s(std::move(x)), k(y), mr(m) {} Trail(std::string x, int y, std::string const& z, c4::MemoryResource *m) : s(x + z), k(y), mr(m) {} Trail(int y, std::string x, std::string z, std::string w, c4::MemoryResource *m) : s(x + z + w), k(y), mr(m) {} };
struct Lead { using allocator_type = c4::MemoryResource*; std::string s; int k; c4::MemoryResource *mr; Lead(std::allocator_arg_t, c4::MemoryResource *m) : s(), k(0), mr(m) {} Lead(std::allocator_arg_t, c4::MemoryResource *m, std::string x) : s(std::move(x)), k(1), mr(m) {} Lead(std::allocator_arg_t, c4::MemoryResource *m, std::string x, int y) : s(std::move(x)), k(y), mr(m) {} Lead(std::allocator_arg_t, c4::MemoryResource *m, std::string x, int y, std::string const& z) : s(x + z), k(y), mr(m) {} Lead(std::allocator_arg_t, c4::MemoryResource *m, int y, std::string x, std::string z, std::string w) : s(x + z + w), k(y), mr(m) {} };
struct Plain { std::string s; int k; c4::MemoryResource *mr = nullptr; Plain() : s(), k(0) {} Plain(std::string x) : s(std::move(x)), k(1) {} Plain(std::string x, int y) : s(std::move(x)), k(y) {} Plain(std::string x, int y, std::string const& z) : s(x + z), k(y) {} Plain(int y, std::string x, std::string z, std::string w) : s(x + z + w), k(y) {} };
template<class T> static void aware(hx::Rng &r, TrackMR &t, const char *what)
{
    c4::allocator_mr<T> a(&t); size_t n = r.below(9); T *p = a.allocate(n + 1); c4::MemoryResource *mr = std::is_same<T, Plain>::value ? nullptr : &t;
    std::string x = r.str(60, "abc"), y = x; int k = 2 + (int)r.below(9); int form = (int)r.below(7); std::string z = r.str(20, "xyz"), w = r.str(40, "uvw"), w0 = w;
    hx::note("construct_n %s n=%zu form=%d", what, n, form);
    switch(form) {
    case 0: a.construct_n(p, n, x); a.construct(p + n, x); k = 1; break;
    case 1: a.construct_n(p, n, std::string(y)); a.construct(p + n, std::string(y)); k = 1; break; // a temporary: every element gets its value
    case 2: a.construct_n(p, n, x, k); a.construct(p + n, x, k); break;
    case 3: a.construct_n(p, n, std::string(y), k); a.construct(p + n, std::move(x), k); break;
    case 5: a.construct_n(p, n, x, k, z); a.construct(p + n, x, k, z); y += z; break;
    case 6: a.construct_n(p, n, k, std::string(y), z, std::string(w)); a.construct(p + n, k, std::string(y), z, std::move(w)); y = x + z + w0; break;
    default: a.construct_n(p, n); a.construct(p + n); y.clear(); k = 0; break; }
    for(size_t i = 0; i <= n; ++i) HX_CHECK(p[i].s == y && p[i].k == k && p[i].mr == mr, "construct_n-arguments", "%s: element %zu of %zu is (%s, %d) instead of (%s, %d), resource %s", what, i, n, p[i].s.c_str(), p[i].k, y.c_str(), k, p[i].mr == mr ? "as given" : "another");
    if(form == 0 || form == 2) HX_CHECK(x == y, "construct_n-consumes", "%s: an argument given by reference was changed", what);
    a.destroy_n(p, n + 1); a.deallocate(p, n + 1);
    hx::seen(n, (uint64_t)form, (uint64_t)sizeof(what));
}
SCENARIO(construct_aware, 3000, 30000) { SC_UNUSED(); NoOther g; { TrackMR t("resource"); switch(r.below(3)) { case 0: aware<Trail>(r, t, "resource last"); break; case 1: aware<Lead>(r, t, "resource first"); break; default: aware<Plain>(r, t, "not aware"); break; } } g.check(); }
// construct / destroy through the allocator
SCENARIO(construct_n, 2000, 20000)
{
    SC_UNUSED();
    NoOther g; TrackMR t("resource"); size_t live0 = TokS::live().size();
    {
        c4::allocator_mr<TokS> a(&t); size_t n = r.below(12); TokS *p = a.allocate(n + 1);
        a.construct_n(p, n, 7); HX_CHECK(TokS::live().size() == live0 + n, "construct_n", "%zu of %zu objects", TokS::live().size() - live0, n);
        for(size_t i = 0; i < n; ++i) HX_CHECK(p[i].v == 7, "construct_n-value", "%d", p[i].v);
        a.construct(p + n, 9); HX_CHECK(p[n].v == 9 && TokS::live().size() == live0 + n + 1, "construct", "construct");
        size_t k = r.below(n + 1); a.destroy_n(p, k); HX_CHECK(TokS::live().size() == live0 + n + 1 - k, "destroy_n", "destroy_n");
        a.destroy_n(p + k, n - k); a.destroy(p + n); HX_CHECK(TokS::live().size() == live0, "destroy", "destroy");
        a.deallocate(p, n + 1);
        auto b = a.template rebound<S24>(); HX_CHECK(b.resource() == &t, "rebound", "rebound allocator uses another resource"); S24 *q = b.allocate(3); b.deallocate(q, 3);
        typedef std::vector<int, al_mr<int>> IV; c4::allocator_mr<IV> c(a); IV *v = c.allocate(n + 1); c.construct_n(v, n, size_t(4), 5); c.construct(v + n);
        for(size_t i = 0; i < n; ++i) HX_CHECK(v[i].size() == 4 && v[i][3] == 5 && v[i].get_allocator().resource() == &t, "construct-with-allocator", "nested construct_n");
        HX_CHECK(v[n].get_allocator().resource() == &t, "construct-with-allocator", "nested construct");
        c.destroy_n(v, n + 1); c.deallocate(v, n + 1);
        TrackMR u("other"); c4::allocator_mr<int> x(&t), y(&u), z(x); HX_CHECK(x == z && !(x != z) && !(x == y) && x != y && x == a, "equality", "allocator equality");
        c4::allocator_mr<int> d; HX_CHECK(d.resource() == &g.glob, "default-resource", "default constructed allocator does not use the global resource"); c4::allocator_mr<int> e(nullptr); HX_CHECK(e.resource() == &g.glob, "default-resource", "null resource");
        y = x; HX_CHECK(y.resource() == &t, "assign", "assignment");
        hx::seen(n, k);
    }
    g.check();
}

// recorded finding: storage in the small buffer cannot change hands
SCENARIO(small_storage_stolen, 20, 20)
{
    SC_UNUSED();
    TrackMR t("resource"); typedef std::vector<int, sm_mr<int>> V;
    V a{sm_mr<int>(&t)}; a.push_back(1); a.push_back(2);
    size_t n0 = t.nalloc; (void)n0;
    { V b(std::move(a)); hx::note("move construction of a vector with elements in the small buffer, %zu elements", b.size()); }
    hx::seen(1);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "distinct container and allocator operation histories"); }

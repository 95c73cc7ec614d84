// C16: memory resources
#include "memmon.hpp"
using namespace c4;
using mm::Shadow; using mm::TrackMR;

#if defined(__SANITIZE_ADDRESS__)
enum { zero_ok = 1 };
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
enum { zero_ok = 1 };
#else
enum { zero_ok = 0 };
#endif
#else
enum { zero_ok = 0 }; // valgrind objects to posix_memalign() of 0 bytes, which is legal
#endif
static size_t far_sz(hx::Rng &r) { return (r.coin() ? 4000 : 60000) + r.below(r.chance(1, 8) ? 1200000 : 12000); } // many pages
static size_t pick_al(hx::Rng &r, size_t maxlog = 7) { return size_t(1) << r.below(maxlog + 1); }
static size_t pick_sz(hx::Rng &r, size_t max) { switch(r.below(4)) { case 0: return 1 + r.below(4); case 1: return 1 + r.below(16); case 2: return (size_t(1) << r.below(7)) + r.below(3) - (r.coin() ? 0 : 0); default: return 1 + r.below(max); } }

template<class A, class D, class R>
static void heap_history(hx::Rng &r, A alloc, D dealloc, R realloc_, bool zero)
{
    Shadow s; size_t nops = 5 + r.below(60); uint64_t sig = 0;
    for(size_t op = 0; op < nops; ++op)
    {
        size_t k = r.below(10);
        if(s.v.empty() || k < 4) { size_t sz = pick_sz(r, 600), al = pick_al(r); if(r.chance(1, 250)) sz = far_sz(r); if(r.chance(1, 150)) al = pick_al(r, 14); if(zero && zero_ok && r.chance(1, 20)) sz = 0; hx::note("alloc %zu al %zu", sz, al); s.add(alloc(sz, al), sz, al); sig = sig * 31 + sz % 17; hx::count("allocations"); }
        else if(k < 7) { size_t i = r.below(s.v.size()); size_t sz = pick_sz(r, 600); if(r.chance(1, s.v[i].sz > 4000 ? 3 : 250)) sz = far_sz(r); if(zero && zero_ok && r.chance(1, 20)) sz = 0; hx::note("realloc %zu->%zu al %zu", s.v[i].sz, sz, s.v[i].al); void *p = realloc_(s.v[i].p, s.v[i].sz, sz, s.v[i].al); s.moved(i, p, sz); sig = sig * 31 + 1; hx::count("reallocations"); }
        else { size_t i = r.below(s.v.size()); size_t d = mm::differs(s.v[i].p, s.v[i].sz, s.v[i].seed); HX_CHECK(d == s.v[i].sz, "corrupted", "byte %zu", d); dealloc(s.v[i].p, s.v[i].sz, s.v[i].al); s.drop(i); sig = sig * 31 + 2; hx::count("deallocations"); }
        if(op % 8 == 7) s.verify();
    }
    s.verify();
    for(auto &h : s.v) dealloc(h.p, h.sz, h.al);
    hx::seen(sig);
}

SCENARIO(raw_heap, 4000, 100000)
{
    SC_UNUSED();
    heap_history(r, [](size_t n, size_t a){ return c4::aalloc(n, a); }, [](void *p, size_t, size_t){ c4::afree(p); }, [](void *p, size_t o, size_t n, size_t a){ return c4::arealloc(p, o, n, a); }, true);
}

SCENARIO(malloc_resource, 4000, 100000)
{
    SC_UNUSED();
    MemoryResourceMalloc own; MemoryResource *mr = r.coin() ? static_cast<MemoryResource*>(&own) : r.coin() ? static_cast<MemoryResource*>(get_memory_resource_malloc()) : get_memory_resource();
    heap_history(r, [&](size_t n, size_t a){ return mr->allocate(n, a); }, [&](void *p, size_t n, size_t a){ mr->deallocate(p, n, a); }, [&](void *p, size_t o, size_t n, size_t a){ return mr->reallocate(p, o, n, a); }, true);
}

// default alignment: suitable for any scalar type
SCENARIO(default_alignment, 300, 3000)
{
    SC_UNUSED();
    MemoryResourceLinear lin(8192); MemoryResourceLinearArr<4096> arr; MemoryResource *mrs[] = {get_memory_resource(), &lin, &arr};
    for(MemoryResource *mr : mrs)
    {
        std::vector<std::pair<void*, size_t>> v;
        for(size_t i = 0; i < 10; ++i)
        {
            size_t n = 1 + r.below(100); void *p = mr->allocate(n);
            HX_CHECK(((uintptr_t)p & (alignof(std::max_align_t) - 1)) == 0, "default-alignment", "%zu bytes not aligned to max_align_t", n);
            if(r.coin()) { size_t m = 1 + r.below(200); p = mr->reallocate(p, n, m); n = m; HX_CHECK(((uintptr_t)p & (alignof(std::max_align_t) - 1)) == 0, "default-alignment", "%zu bytes not aligned to max_align_t after reallocation", n); }
            v.emplace_back(p, n);
        }
        for(auto &b : v) mr->deallocate(b.first, b.second);
        hx::seen(v.size(), v[0].second);
    }
}

// ---------------------------------------------------------------- arenas
struct Poke : MemoryResourceLinear { using MemoryResourceLinear::MemoryResourceLinear; };

static void arena_history(hx::Rng &r, MemoryResourceLinear &mr, Shadow &s, size_t nops)
{
    uint64_t sig = mr.capacity();
    for(size_t op = 0; op < nops; ++op)
    {
        HX_CHECK(mr.size() <= mr.capacity() && mr.size() + mr.slack() == mr.capacity(), "bookkeeping", "size %zu slack %zu capacity %zu", mr.size(), mr.slack(), mr.capacity());
        size_t k = r.below(12);
        if(s.v.empty() || k < 5)
        {
            size_t sz = pick_sz(r, 60), al = pick_al(r, 6); if(r.chance(1, 30)) sz = mr.slack() + r.below(5); if(r.chance(1, 60)) sz = ~size_t(0) - r.below(200); if(sz == 0) sz = 1;
            size_t slack = mr.slack(), before = mr.size(); void *p = nullptr;
            uintptr_t at = (uintptr_t)mr.mem() + before; size_t pad = (al - (at & (al - 1))) & (al - 1);
            bool fits = mr.mem() && pad <= slack && sz <= slack - pad;
            hx::note("arena %zu/%zu alloc %zu al %zu", before, mr.capacity(), sz, al);
            bool err = hx::raises([&]{ p = mr.allocate(sz, al); });
            HX_CHECK(err == !fits, "exhaustion", "allocating %zu (align %zu) with %zu of %zu used: %s", sz, al, before, mr.capacity(), err ? "refused although it fits" : "accepted although it does not fit");
            if(err || !fits) { HX_CHECK(mr.size() == before, "failed-allocation-took-space", "size %zu -> %zu", before, mr.size()); hx::count("exhaustions"); if(!err) return; sig = sig * 31 + 9; continue; }
            s.add(p, sz, al); sig = sig * 31 + sz % 7 + al;
            HX_CHECK((size_t)((char*)p - (char*)mr.mem()) + sz <= mr.size(), "bookkeeping", "block ends beyond size()=%zu", mr.size());
            hx::count("allocations");
        }
        else if(k < 9)
        {
            size_t i = r.coin() ? s.v.size() - 1 : r.below(s.v.size());
            auto h = s.v[i]; size_t sz = pick_sz(r, 60); if(r.chance(1, 20)) sz = h.sz; if(r.chance(1, 20)) sz = h.sz + mr.slack() + r.below(3); if(r.chance(1, 60)) sz = ~size_t(0) - r.below(200);
            size_t before = mr.size(), slack = mr.slack(); void *p = nullptr;
            bool last = h.p + h.sz == (char*)mr.mem() + before;
            hx::note("arena %zu/%zu realloc %zu -> %zu al %zu last=%d", before, mr.capacity(), h.sz, sz, h.al, last);
            bool err = hx::raises([&]{ p = mr.reallocate(h.p, h.sz, sz, h.al); });
            bool must = sz <= h.sz || (last && sz - h.sz <= slack) || (slack >= h.al - 1 && sz <= slack - (h.al - 1));
            bool cannot = sz > h.sz && !(last && sz - h.sz <= slack) && sz > slack;
            HX_CHECK(!(err && must), "refused", "reallocation %zu -> %zu refused although it fits (slack %zu, last=%d)", h.sz, sz, slack, last);
            HX_CHECK(!(!err && cannot), "exhaustion", "reallocation %zu -> %zu accepted although it cannot fit (slack %zu, last=%d)", h.sz, sz, slack, last);
            if(err) { hx::count("exhaustions"); HX_CHECK(mr.size() == before, "failed-allocation-took-space", "size %zu -> %zu", before, mr.size()); continue; }
            if(cannot) return;
            s.moved(i, p, sz); hx::count(p == h.p ? "reallocations_in_place" : "reallocations_moved"); sig = sig * 31 + (p == h.p) + 3 * last;
        }
        else if(k < 11)
        {
            size_t i = r.below(s.v.size()); auto h = s.v[i]; size_t before = mr.size();
            mr.deallocate(h.p, h.sz, h.al); s.drop(i); hx::count("deallocations");
            HX_CHECK(mr.size() == before, "deallocate-not-a-no-op", "size %zu -> %zu", before, mr.size()); sig = sig * 31 + 5;
        }
        else if(r.chance(1, 4)) { mr.clear(); s.v.clear(); HX_CHECK(mr.size() == 0, "clear", "size %zu after clear", mr.size()); sig = sig * 31 + 6; hx::count("clears"); }
        s.verify();
    }
    hx::seen(sig);
}

SCENARIO(arena_owned, 5000, 120000)
{
    SC_UNUSED();
    TrackMR up("upstream");
    {
        size_t cap = r.chance(1, 10) ? 1 + r.below(16) : 1 + r.below(1000);
        MemoryResourceLinear mr(cap, &up); Shadow s; s.arena(mr.mem(), cap);
        HX_CHECK(mr.capacity() == cap && mr.size() == 0 && up.live.size() == 1, "initial", "capacity %zu of %zu", mr.capacity(), cap);
        arena_history(r, mr, s, 5 + r.below(50));
        for(size_t k = r.below(4); k; --k)
        {
            switch(r.below(4))
            {
            case 0: mr.release(); s.v.clear(); s.arena(nullptr, 0); HX_CHECK(mr.capacity() == 0 && mr.size() == 0 && mr.slack() == 0 && mr.mem() == nullptr && up.live.empty(), "release", "capacity %zu, %zu blocks still held", mr.capacity(), up.live.size()); hx::count("releases"); break;
            case 1: { size_t n = 1 + r.below(500); mr.acquire(n); s.v.clear(); s.arena(mr.mem(), n); HX_CHECK(mr.capacity() == n && mr.size() == 0 && up.live.size() == 1, "acquire", "capacity %zu of %zu, %zu blocks held", mr.capacity(), n, up.live.size()); hx::count("acquires");
                if(mr.capacity() == n) arena_history(r, mr, s, 5 + r.below(20)); break; }
            case 2: { hx::Exact b(1 + r.below(300)); mr.acquire(b.p, b.n); s.v.clear(); s.arena(b.p, b.n); HX_CHECK(mr.capacity() == b.n && mr.size() == 0 && mr.mem() == b.p && up.live.empty(), "acquire-borrowed", "%zu of %zu used, %zu blocks still held", mr.size(), mr.capacity(), up.live.size()); hx::count("acquires_borrowed"); arena_history(r, mr, s, 5 + r.below(20));
                while(r.chance(1, 2)) { size_t n2 = r.coin() ? b.n : 1 + r.below(b.n); mr.acquire(b.p, n2); s.v.clear(); s.arena(b.p, n2); HX_CHECK(mr.capacity() == n2 && mr.size() == 0 && mr.mem() == b.p && up.live.empty(), "acquire-again", "the same buffer again: %zu of %zu used", mr.size(), mr.capacity()); hx::count("acquires_again"); arena_history(r, mr, s, 5 + r.below(20)); }
                mr.release(); s.v.clear(); break; }
            case 3: if(mr.mem()) { arena_history(r, mr, s, r.below(20)); } break;
            }
        }
    }
    HX_CHECK(up.live.empty(), "leak", "%zu blocks not given back", up.live.size());
}

SCENARIO(arena_borrowed, 4000, 100000)
{
    SC_UNUSED();
    size_t off = r.below(17); hx::Exact b(1 + r.below(800) + off);
    MemoryResourceLinear mr(b.p + off, b.n - off); Shadow s; s.arena(b.p + off, b.n - off);
    HX_CHECK(mr.mem() == b.p + off && mr.capacity() == b.n - off && mr.size() == 0, "initial", "capacity %zu size %zu", mr.capacity(), mr.size());
    { MemoryResourceLinear none; HX_CHECK(none.mem() == nullptr && none.capacity() == 0 && none.size() == 0 && none.slack() == 0 && hx::raises([&]{ none.allocate(1, 1); }), "initial", "arena without memory"); }
    arena_history(r, mr, s, 5 + r.below(60));
    MemoryResourceLinearArr<256> *arr = new MemoryResourceLinearArr<256>; Shadow t; t.arena(arr->m_arr, 256);
    HX_CHECK(arr->capacity() == 256 && arr->mem() == arr->m_arr, "arr", "capacity %zu", arr->capacity());
    arena_history(r, *arr, t, 5 + r.below(40)); t.v.clear();
    delete arr;
}

// an arena in an arena in a monitored resource; a counting resource in between
SCENARIO(stacked, 2000, 40000)
{
    SC_UNUSED();
    TrackMR up("upstream");
    {
        MemoryResourceCounts mc(&up);
        MemoryResourceLinear outer(600 + r.below(600), &mc);
        { MemoryResourceLinear inner(100 + r.below(400), &outer); Shadow s; s.arena(inner.mem(), inner.capacity());
          HX_CHECK((const char*)inner.mem() >= (const char*)outer.mem() && (const char*)inner.mem() + inner.capacity() <= (const char*)outer.mem() + outer.capacity(), "nested", "inner arena is not inside the outer one");
          arena_history(r, inner, s, 5 + r.below(30)); }
        HX_CHECK(up.nalloc == 1 && mc.counts().curr.allocs == 1, "nested-count", "%llu upstream allocations", (unsigned long long)up.nalloc);
    }
    HX_CHECK(up.live.empty(), "leak", "%zu blocks", up.live.size());
}

// an arena does not touch anything when its upstream has no memory
SCENARIO(upstream_fails, 500, 5000)
{
    SC_UNUSED();
    TrackMR up("upstream"); up.fail_after = r.below(3);
    MemoryResourceLinear *mr = new MemoryResourceLinear(&up); size_t live = 0;
    for(size_t i = 0; i < 5; ++i)
    {
        size_t n = 1 + r.below(100); bool can = up.fail_after > 0;
        bool err = hx::raises([&]{ mr->acquire(n); });
        HX_CHECK(err == !can, "upstream-failure", "acquire with%s upstream memory: error=%d", can ? "" : "out", err);
        live = err ? 0 : 1;
        if(!err) { bool e2 = hx::raises([&]{ memset(mr->allocate(n, 1), 1, n); }); HX_CHECK(!e2, "usable", "arena of %zu refuses %zu", n, n); }
        else { bool e2 = hx::raises([&]{ mr->allocate(1, 1); }); HX_CHECK(e2, "used-without-memory", "allocated from an arena with no memory"); }
    }
    HX_CHECK(up.live.size() == live, "held", "%zu blocks held instead of %zu", up.live.size(), live);
    delete mr;
    HX_CHECK(up.live.empty(), "leak", "%zu blocks", up.live.size());
    // failures of a user-supplied resource are reported, never returned as null
    up.fail_after = 0; void *p = (void*)1;
    HX_CHECK(hx::raises([&]{ p = up.allocate(8); }), "null-not-reported", "allocate() returned null without error");
    up.fail_after = 1; void *q = up.allocate(8);
    HX_CHECK(hx::raises([&]{ p = up.reallocate(q, 8, 16); }), "null-not-reported", "reallocate() returned null without error");
    up.deallocate(q, 8); up.fail_after = ~0ull;
    hx::seen(live);
}

// ---------------------------------------------------------------- user-supplied raw functions
static TrackMR *g_hook = nullptr; static uint64_t g_calls[3];
static void* h_aalloc(size_t n, size_t a) { ++g_calls[0]; return g_hook->allocate(n, a); }
static void h_afree(void *p) { ++g_calls[1]; auto i = g_hook->live.find((char*)p); if(i == g_hook->live.end()) { if(p) hx::fail("foreign-free", "afree got an unknown block"); return; } g_hook->deallocate(p, i->second.sz, i->second.al); }
static void* h_arealloc(void *p, size_t o, size_t n, size_t a) { ++g_calls[2]; return g_hook->reallocate(p, o, n, a); }
SCENARIO(user_functions, 2000, 40000)
{
    SC_UNUSED();
    TrackMR up("user functions"); g_hook = &up; g_calls[0] = g_calls[1] = g_calls[2] = 0;
    auto a0 = get_aalloc(); auto f0 = get_afree(); auto r0 = get_arealloc();
    bool own_realloc = r.coin();
    set_aalloc(h_aalloc); set_afree(h_afree); if(own_realloc) set_arealloc(h_arealloc);
    HX_CHECK(get_aalloc() == h_aalloc && get_afree() == h_afree && (get_arealloc() == h_arealloc) == own_realloc, "installed", "the functions were not installed");
    uint64_t n[3] = {0, 0, 0};
    MemoryResourceMalloc mr;
    heap_history(r, [&](size_t sz, size_t al){ ++n[0]; return r.coin() ? mr.allocate(sz, al) : c4::aalloc(sz, al); }, [&](void *p, size_t sz, size_t al){ ++n[1]; if(r.coin()) mr.deallocate(p, sz, al); else c4::afree(p); }, [&](void *p, size_t o, size_t sz, size_t al){ ++n[2]; return r.coin() ? mr.reallocate(p, o, sz, al) : c4::arealloc(p, o, sz, al); }, false);
    set_aalloc(a0); set_afree(f0); set_arealloc(r0);
    if(own_realloc) HX_CHECK(g_calls[0] == n[0] && g_calls[1] == n[1] && g_calls[2] == n[2], "calls", "calls made/received: %llu/%llu %llu/%llu %llu/%llu", (unsigned long long)n[0], (unsigned long long)g_calls[0], (unsigned long long)n[1], (unsigned long long)g_calls[1], (unsigned long long)n[2], (unsigned long long)g_calls[2]);
    else HX_CHECK(g_calls[0] == g_calls[1], "calls", "the default reallocation unbalanced %llu allocations and %llu frees", (unsigned long long)g_calls[0], (unsigned long long)g_calls[1]);
    HX_CHECK(up.live.empty(), "leak", "%zu blocks", up.live.size());
}

// more than there can be: an error, never a block
SCENARIO(impossible, 200, 2000)
{
    SC_UNUSED();
    size_t al = pick_al(r), sz = (~size_t(0) >> (1 + r.below(3))) - r.below(1000); void *p = (void*)16; MemoryResource *mr = get_memory_resource();
    hx::note("allocate %zu al %zu", sz, al);
    HX_CHECK(hx::raises([&]{ p = c4::aalloc(sz, al); }), "impossible", "aalloc(%zu, %zu) returned %p", sz, al, p);
    HX_CHECK(hx::raises([&]{ p = mr->allocate(sz, al); }), "impossible", "allocate(%zu, %zu) returned %p", sz, al, p);
    size_t n = 1 + r.below(50); char *q = (char*)mr->allocate(n, al); mm::fill(mm::Held{q, n, al, 7});
    HX_CHECK(hx::raises([&]{ p = mr->reallocate(q, n, sz, al); }), "impossible", "reallocate(%zu, %zu) returned %p", sz, al, p);
    HX_CHECK(mm::differs(q, n, 7) == n, "impossible", "the block was not kept after a refused reallocation"); mr->deallocate(q, n, al);
    MemoryResourceLinear lin; HX_CHECK(hx::raises([&]{ lin.acquire(sz); }), "impossible", "acquire(%zu) of an arena", sz);
    hx::seen(sz % 7, al);
}

SCENARIO(bad_alignment, 200, 2000)
{
    SC_UNUSED();
    size_t al = r.below(300); bool good = al && !(al & (al - 1)); void *p = nullptr;
    bool err = hx::raises([&]{ p = c4::aalloc(16, al); });
    HX_CHECK(err == !good, "alignment-check", "alignment %zu: error=%d", al, err);
    if(!err) c4::afree(p);
    hx::seen(al);
}

// an arena larger than 32 bits can tell
SCENARIO(far_arena, 300, 6000)
{
    SC_UNUSED(); hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    size_t n = hx::Far::len(r), off = r.below(64); char *m = f.p + off; MemoryResourceLinear a(m, n); std::vector<std::pair<char*, size_t>> v; hx::note("far arena of %zu", n);
    HX_CHECK(a.capacity() == n && a.size() == 0 && a.slack() == n && (const char*)a.mem() == m, "far-arena", "capacity %zu", a.capacity());
    for(int i = 0; i < 12; ++i)
    {
        size_t al = size_t(1) << r.below(13), left = n - a.size(); size_t sz = r.coin() ? 1 + r.below(2000) : r.coin() ? 1 + r.u64() % (left + 10) : left - std::min(left - 1, (size_t)r.below(5000)); if(r.chance(1, 6)) sz = (size_t(1) << 32) + r.below(50); if(r.chance(1, 12)) sz = (size_t)0 - 1 - r.below(10000);
        size_t used = a.size(); uintptr_t at = ((uintptr_t)m + used + al - 1) & ~(uintptr_t)(al - 1); bool fits = at - (uintptr_t)m <= n && sz <= n - (at - (uintptr_t)m); char *p = nullptr; hx::note("far arena of %zu used %zu: %zu al %zu", n, used, sz, al);
        bool err = hx::raises([&]{ p = (char*)a.allocate(sz, al); });
        if(fits) HX_CHECK(!err, "far-refused", "%zu al %zu of %zu with %zu used refused", sz, al, n, used);
        if(!err) { HX_CHECK(p >= m && sz <= n && (size_t)(p - m) <= n - sz && (uintptr_t)p % al == 0, "far-block", "%zu al %zu of %zu with %zu used: block at %td", sz, al, n, used, p - m); for(auto &o : v) HX_CHECK(p >= o.first + o.second || p + sz <= o.first, "far-overlap", "blocks overlap"); v.push_back({p, sz}); } else hx::count("exhaustions");
        HX_CHECK(a.size() <= n && a.slack() == n - a.size(), "far-arena", "size %zu of %zu", a.size(), n);
        if(!err && r.chance(1, 3)) // grow or shrink the last block in place
        { size_t room = n - (size_t)(p - m), ns = r.coin() ? 1 + r.u64() % room : sz / 2 + 1; char *q = (char*)a.reallocate(p, sz, ns, al); HX_CHECK(q >= m && ns <= n && (size_t)(q - m) <= n - ns && (uintptr_t)q % al == 0, "far-realloc", "%zu->%zu of %zu: block at %td", sz, ns, n, q - m); v.back() = {q, ns}; }
    }
    hx::seen(n, v.size(), a.size() % 1000);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "distinct histories of operations (kinds, sizes, alignments, outcomes) on each kind of resource"); }

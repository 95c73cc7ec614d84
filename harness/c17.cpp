// C17: allocation accounting, scoped resources
#include "memmon.hpp"
#include <memory>
using namespace c4;
using mm::TrackMR;

struct Model { ssize_t ca = 0, cs = 0, ta = 0, ts = 0, ma = 0, ms = 0; void add(size_t n) { ++ca; cs += (ssize_t)n; ++ta; ts += (ssize_t)n; ma = std::max(ma, ca); ms = std::max(ms, cs); } void rem(size_t n) { --ca; cs -= (ssize_t)n; } };
static void cmp(AllocationCounts const& c, Model const& m, const char *key)
{
    HX_CHECK(c.curr.allocs == m.ca, key, "current allocations %zd instead of %zd", c.curr.allocs, m.ca);
    HX_CHECK(c.curr.size == m.cs, key, "current bytes %zd instead of %zd", c.curr.size, m.cs);
    HX_CHECK(c.total.allocs == m.ta, key, "total allocations %zd instead of %zd", c.total.allocs, m.ta);
    HX_CHECK(c.total.size == m.ts, key, "total bytes %zd instead of %zd", c.total.size, m.ts);
    HX_CHECK(c.max.allocs == m.ma, key, "peak allocations %zd instead of %zd", c.max.allocs, m.ma);
    HX_CHECK(c.max.size == m.ms, key, "peak bytes %zd instead of %zd", c.max.size, m.ms);
}

struct H { void *p; size_t n, a; };
static void history(hx::Rng &r, MemoryResource *mr, MemoryResourceCounts &mc, TrackMR *up, Model &m, std::vector<H> &v, size_t nops)
{
    uint64_t sig = 0;
    for(size_t op = 0; op < nops; ++op)
    {
        size_t k = r.below(10);
        if(v.empty() || k < 4)
        {
            H h{nullptr, r.chance(1, 15) ? 0 : 1 + r.below(r.chance(1, 100) ? 200000 : 300), size_t(1) << r.below(r.chance(1, 40) ? 15 : 6)};
            uint64_t u0 = up ? up->nalloc : 0;
            bool fault = up && r.chance(1, 25); uint64_t fa = up ? up->fail_after : 0; if(fault) up->fail_after = 0;
            hx::note("allocate %zu al %zu fault=%d", h.n, h.a, fault);
            bool err = hx::raises([&]{ h.p = mr->allocate(h.n, h.a); });
            if(up) up->fail_after = fa;
            HX_CHECK(err == fault, "error", "error=%d with fault=%d", err, fault);
            if(err) { hx::count("faults"); sig = sig * 31 + 7; }
            else
            {
                if(up) { HX_CHECK(up->nalloc == u0 + 1, "reaches", "the wrapped resource saw %llu allocations", (unsigned long long)(up->nalloc - u0)); auto i = up->live.find((char*)h.p); HX_CHECK(i != up->live.end() && i->second.sz == h.n && i->second.al == h.a, "reaches", "the block does not come unchanged from the wrapped resource"); }
                memset(h.p, 3, h.n); m.add(h.n); v.push_back(h); hx::count("allocations"); sig = sig * 31 + h.n;
            }
        }
        else if(k < 7)
        {
            size_t i = r.below(v.size()); size_t n = r.chance(1, 10) ? v[i].n : 1 + r.below(r.chance(1, 100) ? 200000 : 400); uint64_t u0 = up ? up->nrealloc : 0;
            hx::note("reallocate %zu->%zu", v[i].n, n);
            bool fault = up && r.chance(1, 25); uint64_t fa = up ? up->fail_after : 0; if(fault) up->fail_after = 0;
            void *p = nullptr; bool err = hx::raises([&]{ p = mr->reallocate(v[i].p, v[i].n, n, v[i].a); });
            if(up) up->fail_after = fa;
            HX_CHECK(err == fault, "error", "error=%d with fault=%d", err, fault);
            if(err) { hx::count("faults"); cmp(mc.counts(), m, "counts-after-failed-reallocate"); continue; }
            if(up) { HX_CHECK(up->nrealloc == u0 + 1, "reaches", "the wrapped resource saw %llu reallocations", (unsigned long long)(up->nrealloc - u0)); auto q = up->live.find((char*)p); HX_CHECK(q != up->live.end() && q->second.sz == n, "reaches", "reallocated block"); }
            m.rem(v[i].n); m.add(n); v[i].p = p; v[i].n = n; memset(p, 4, n); hx::count("reallocations"); sig = sig * 31 + n + 5;
        }
        else
        {
            size_t i = r.below(v.size()); uint64_t u0 = up ? up->nfree : 0;
            hx::note("deallocate %zu", v[i].n);
            mr->deallocate(v[i].p, v[i].n, v[i].a); m.rem(v[i].n); v[i] = v.back(); v.pop_back(); sig = sig * 31 + 1;
            if(up) HX_CHECK(up->nfree == u0 + 1, "reaches", "the wrapped resource saw %llu deallocations", (unsigned long long)(up->nfree - u0));
            hx::count("deallocations");
        }
        cmp(mc.counts(), m, "counts");
        // conservation, straight from the definition
        ssize_t live = 0; for(auto &h : v) live += (ssize_t)h.n;
        HX_CHECK(mc.counts().curr.allocs == (ssize_t)v.size() && mc.counts().curr.size == live, "conservation", "live blocks %zu/%zd bytes, counted %zd/%zd", v.size(), live, mc.counts().curr.allocs, mc.counts().curr.size);
        HX_CHECK(mc.counts().max.size >= mc.counts().curr.size && mc.counts().total.size >= mc.counts().max.size, "ordering", "current<=peak<=total violated");
        hx::seen(sig);
    }
}
static void drain(MemoryResource *mr, std::vector<H> &v) { for(auto &h : v) mr->deallocate(h.p, h.n, h.a); v.clear(); }

SCENARIO(counting, 6000, 150000)
{
    SC_UNUSED();
    TrackMR up("wrapped"); MemoryResourceCounts mc(&up); Model m; std::vector<H> v;
    HX_CHECK(mc.resource() == &up, "resource", "wraps something else");
    cmp(mc.counts(), m, "initial");
    history(r, &mc, mc, &up, m, v, 5 + r.below(80));
    drain(&mc, v);
    HX_CHECK(mc.counts().curr.allocs == 0 && mc.counts().curr.size == 0, "balance", "%zd blocks left", mc.counts().curr.allocs);
    // null blocks do not count
    AllocationCounts c = mc.counts(); mc.deallocate(nullptr, 10); HX_CHECK(mc.counts().curr.allocs == c.curr.allocs && mc.counts().curr.size == c.curr.size, "null", "deallocating null was counted");
    AllocationCounts z = c; z.add_counts(nullptr, 5); z.rem_counts(nullptr, 5); HX_CHECK(z.curr.allocs == c.curr.allocs && z.total.size == c.total.size, "null", "null was counted");
}

SCENARIO(counting_stacked, 2500, 50000)
{
    SC_UNUSED();
    TrackMR up("wrapped"); MemoryResourceCounts a(&up), b(&a); Model ma, mb; std::vector<H> va, vb;
    for(size_t k = 0; k < 6; ++k)
    {
        // operations on b count on both
        Model m0 = mb; (void)m0;
        if(r.coin())
        {
            std::vector<H> &v = vb; size_t n = 1 + r.below(100);
            if(v.empty() || r.coin()) { v.push_back(H{b.allocate(n), n, alignof(max_align_t)}); mb.add(n); ma.add(n); }
            else { size_t i = r.below(v.size()); b.deallocate(v[i].p, v[i].n); mb.rem(v[i].n); ma.rem(v[i].n); v[i] = v.back(); v.pop_back(); }
        }
        else
        {
            std::vector<H> &v = va; size_t n = 1 + r.below(100);
            if(v.empty() || r.coin()) { v.push_back(H{a.allocate(n), n, alignof(max_align_t)}); ma.add(n); }
            else { size_t i = r.below(v.size()); a.deallocate(v[i].p, v[i].n); ma.rem(v[i].n); v[i] = v.back(); v.pop_back(); }
        }
        cmp(a.counts(), ma, "stacked-outer"); cmp(b.counts(), mb, "stacked-inner");
        hx::seen((uint64_t)ma.ca, (uint64_t)mb.ca, (uint64_t)ma.ms);
    }
    for(auto &h : vb) b.deallocate(h.p, h.n);
    for(auto &h : va) a.deallocate(h.p, h.n);
}

static AllocationCounts rc(hx::Rng &r) { AllocationCounts c; auto f = [&]{ AllocationCounts::Item i; i.allocs = (ssize_t)r.below(1000) - 300; i.size = (ssize_t)(r.u64() >> 20) - 5000; return i; }; c.curr = f(); c.total = f(); c.max = f(); return c; }
static bool same(AllocationCounts::Item a, AllocationCounts::Item b) { return a.allocs == b.allocs && a.size == b.size; }
SCENARIO(arithmetic, 20000, 200000)
{
    SC_UNUSED();
    AllocationCounts a = rc(r), b = rc(r), s = a + b, d = a - b, u = a;
    auto plus = [](AllocationCounts::Item x, AllocationCounts::Item y, int sg){ x.allocs += sg * y.allocs; x.size += sg * y.size; return x; };
    HX_CHECK(same(s.curr, plus(a.curr, b.curr, 1)) && same(s.total, plus(a.total, b.total, 1)) && same(s.max, plus(a.max, b.max, 1)), "sum", "a+b");
    HX_CHECK(same(d.curr, plus(a.curr, b.curr, -1)) && same(d.total, plus(a.total, b.total, -1)) && same(d.max, plus(a.max, b.max, -1)), "difference", "a-b");
    u.update(b); HX_CHECK(same(u.curr, s.curr) && same(u.total, s.total) && same(u.max, s.max), "update", "update");
    AllocationCounts e = (a + b) - b; HX_CHECK(same(e.curr, a.curr) && same(e.total, a.total) && same(e.max, a.max), "inverse", "(a+b)-b != a");
    auto mx = a.curr.max(b.curr); HX_CHECK(mx.allocs == std::max(a.curr.allocs, b.curr.allocs) && mx.size == std::max(a.curr.size, b.curr.size), "max", "max");
    a.clear_counts(); AllocationCounts z; HX_CHECK(same(a.curr, z.curr) && same(a.total, z.total) && same(a.max, z.max) && z.curr.allocs == 0 && z.max.size == 0 && z.total.size == 0, "clear", "clear_counts");
    hx::seen((uint64_t)s.curr.size);
}

// nested scopes, in any mix, with work at each level: the global resource is restored at each exit
static void nest(hx::Rng &r, size_t depth, uint64_t path)
{
    MemoryResource *before = get_memory_resource();
    size_t n = 1 + r.below(50);
    hx::seen(path, depth);
    switch(r.below(depth ? 6 : 2))
    {
    case 0: { void *p = get_memory_resource()->allocate(n); get_memory_resource()->deallocate(p, n); break; }
    case 1: break;
    case 2: { TrackMR t("scoped"); { ScopedMemoryResource s(&t); HX_CHECK(get_memory_resource() == &t, "installed", "ScopedMemoryResource did not install"); nest(r, depth - 1, path * 7 + 1); HX_CHECK(get_memory_resource() == &t, "restored-inner", "an inner scope did not restore"); } hx::count("scopes"); break; }
    case 3: { { ScopedMemoryResourceCounts s; HX_CHECK(get_memory_resource() == &s.mr && s.mr.resource() == before, "installed", "ScopedMemoryResourceCounts"); ssize_t c = s.mr.counts().total.allocs; void *p = get_memory_resource()->allocate(n); HX_CHECK(s.mr.counts().total.allocs == c + 1 && s.mr.counts().curr.size == (ssize_t)n, "scope-counts", "allocation in a scope not counted"); nest(r, depth - 1, path * 7 + 2); HX_CHECK(get_memory_resource() == &s.mr, "restored-inner", "an inner scope did not restore"); s.mr.deallocate(p, n); } hx::count("scopes"); break; }
    case 4: { TrackMR t("counted"); { ScopedMemoryResourceCounts s(&t); HX_CHECK(get_memory_resource() == &s.mr && s.mr.resource() == &t, "installed", "ScopedMemoryResourceCounts(resource)"); void *p = get_memory_resource()->allocate(n); HX_CHECK(t.live.size() == 1, "scope-reaches", "allocation did not reach the given resource"); nest(r, depth - 1, path * 7 + 3); HX_CHECK(get_memory_resource() == &s.mr, "restored-inner", "an inner scope did not restore"); s.mr.deallocate(p, n); } hx::count("scopes"); break; }
    case 5: { hx::Exact mem(16384); MemoryResourceLinear lin(mem.p, mem.n); { ScopedMemoryResource s(&lin); MemoryResourceCounts mc; HX_CHECK(mc.resource() == &lin, "default-wraps-global", "a counting resource did not wrap the global one"); nest(r, depth - 1, path * 7 + 4); HX_CHECK(get_memory_resource() == &lin, "restored-inner", "an inner scope did not restore"); } hx::count("scopes"); break; }
    }
    HX_CHECK(get_memory_resource() == before, "restored", "scope exit left another global resource");
    if(depth && r.chance(1, 3)) nest(r, depth - 1, path * 7 + 5);
    HX_CHECK(get_memory_resource() == before, "restored", "scope exit left another global resource");
}
SCENARIO(scopes, 20000, 300000)
{
    SC_UNUSED();
    MemoryResource *before = get_memory_resource();
    TrackMR base("base"); set_memory_resource(&base);
    nest(r, 1 + r.below(6), 1);
    HX_CHECK(get_memory_resource() == &base, "restored", "outermost scope");
    set_memory_resource(before);
}
// exceptions leaving a scope
SCENARIO(scopes_exception, 300, 3000)
{
    SC_UNUSED();
    MemoryResource *before = get_memory_resource(); TrackMR t("scoped"), t2("inner"); size_t k = r.below(4);
    try { ScopedMemoryResource s(&t); if(k == 0) throw 1; { ScopedMemoryResourceCounts c(&t2); if(k == 1) throw 2; { ScopedMemoryResourceCounts d; if(k == 2) throw 3; } } if(k == 3) throw 4; }
    catch(int) { hx::count("unwound"); }
    HX_CHECK(get_memory_resource() == before, "restored-on-exception", "scope left by an exception (%zu)", k);
    hx::seen(k);
}
// sums which 32 bits cannot tell
SCENARIO(far, 300, 6000)
{
    SC_UNUSED(); hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    MemoryResourceLinear a(f.p, hx::Far::size); Model m; uint64_t sig = 0;
    { MemoryResourceCounts mc(&a); for(int i = 0; i < 10; ++i) { size_t sz = r.coin() ? hx::Far::len(r) - (r.coin() ? size_t(1) << 30 : 0) : 1 + r.below(1000); a.clear(); hx::note("far: allocate %zu", sz); void *p = mc.allocate(sz, 16); m.add(sz); cmp(mc.counts(), m, "far-counts"); sig = sig * 31 + sz; if(r.coin()) { size_t ns = 1 + r.u64() % hx::Far::size; p = mc.reallocate(p, sz, ns, 16); m.rem(sz); m.add(ns); cmp(mc.counts(), m, "far-counts"); sz = ns; } if(r.coin()) { mc.deallocate(p, sz, 16); m.rem(sz); cmp(mc.counts(), m, "far-counts"); } } }
    hx::seen(sig);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "distinct accounting histories and distinct nestings of scopes"); }

// memmon.hpp -- a memory resource which monitors the protocol of its users
#ifndef MEMMON_HPP
#define MEMMON_HPP
#include "hx.hpp"
#include <c4/memory_resource.hpp>
namespace mm {
struct Blk { size_t sz, al; };
struct TrackMR : public c4::MemoryResource
{
    std::map<char*, Blk> live;
    uint64_t nalloc = 0, nfree = 0, nrealloc = 0, bytes = 0;
    uint64_t fail_after = ~0ull; // fault injection: number of requests still granted
    const char *who;
    bool abandoned = false;
    explicit TrackMR(const char *w = "resource") : who(w) { name = w; }
    ~TrackMR() override
    {
        if(!live.empty() && !abandoned) hx::fail("not-returned", "%s: %zu blocks were never given back, first of %zu bytes", who, live.size(), live.begin()->second.sz);
        for(auto &b : live) free(b.first);
    }
    void* do_allocate(size_t sz, size_t al, void*) override
    {
        hx::ev();
        if(al == 0 || (al & (al - 1))) hx::fail("bad-alignment-request", "%s: alignment %zu", who, al);
        if(fail_after == 0) return nullptr;
        if(fail_after != ~0ull) --fail_after;
        if(sz > (size_t(1) << 31)) return nullptr;
        void *p = nullptr;
        if(posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, sz ? sz : 1)) return nullptr;
        memset(p, 0xCD, sz);
        live[(char*)p] = Blk{sz, al};
        ++nalloc; bytes += sz;
        return p;
    }
    void do_deallocate(void *p, size_t sz, size_t al) override
    {
        hx::ev(); ++nfree;
        if(p == nullptr) return;
        auto i = live.find((char*)p);
        if(i == live.end()) { hx::fail("foreign-deallocate", "%s: was given a block of %zu bytes which it did not hand out, or twice", who, sz); return; }
        if(i->second.sz != sz) hx::fail("deallocate-size", "%s: block of %zu bytes given back as %zu", who, i->second.sz, sz);
        if(i->second.al != al) hx::fail("deallocate-alignment", "%s: block aligned %zu given back as %zu", who, i->second.al, al);
        live.erase(i);
        free(p);
    }
    void* do_reallocate(void *p, size_t oldsz, size_t newsz, size_t al) override
    {
        hx::ev(); ++nrealloc;
        if(p == nullptr) return do_allocate(newsz, al, nullptr);
        auto i = live.find((char*)p);
        if(i == live.end()) { hx::fail("foreign-reallocate", "%s: block not its own", who); return nullptr; }
        if(i->second.sz != oldsz) hx::fail("reallocate-size", "%s: block of %zu bytes reallocated as %zu", who, i->second.sz, oldsz);
        void *q = do_allocate(newsz, al, nullptr);
        if(!q) return nullptr;
        memcpy(q, p, oldsz < newsz ? oldsz : newsz);
        live.erase((char*)p); free(p);
        return q;
    }
};
// a shadow of the blocks a client holds
struct Held { char *p; size_t sz, al; uint64_t seed; };
inline unsigned char pat(uint64_t seed, size_t i) { return (unsigned char)(hx::mix(seed + i / 8) >> (8 * (i % 8))); }
inline void fill(Held const& h) { for(size_t i = 0; i < h.sz; ++i) h.p[i] = (char)pat(h.seed, i); }
// first differing byte, or n
inline size_t differs(const char *p, size_t n, uint64_t seed) { for(size_t i = 0; i < n; ++i) if((unsigned char)p[i] != pat(seed, i)) return i; return n; }
struct Shadow
{
    std::vector<Held> v; uint64_t next = 1; const char *lo = nullptr, *hi = nullptr;
    void arena(const void *p, size_t n) { lo = (const char*)p; hi = lo + n; }
    void check_new(Held const& h, int skip = -1)
    {
        HX_CHECK(h.p != nullptr, "null-block", "got null for %zu bytes", h.sz);
        HX_CHECK(((uintptr_t)h.p & (h.al - 1)) == 0, "misaligned", "%zu bytes aligned %zu at offset %zu of the alignment", h.sz, h.al, (size_t)((uintptr_t)h.p & (h.al - 1)));
        if(lo) HX_CHECK(h.p >= lo && h.p + h.sz <= hi, "outside-arena", "%zu bytes at %td..%td of an arena of %td", h.sz, h.p - lo, h.p + h.sz - lo, hi - lo);
        for(size_t i = 0; i < v.size(); ++i)
        {
            if((int)i == skip) continue;
            HX_CHECK(h.p + h.sz <= v[i].p || v[i].p + v[i].sz <= h.p || h.sz == 0 || v[i].sz == 0, "overlap", "block of %zu bytes overlaps a live one of %zu bytes (at %+td)", h.sz, v[i].sz, v[i].p - h.p);
        }
    }
    void add(void *p, size_t sz, size_t al) { Held h{(char*)p, sz, al, next += 1000}; check_new(h); fill(h); v.push_back(h); }
    // contents must have been preserved by the reallocation of v[i]
    void moved(size_t i, void *p, size_t sz)
    {
        Held h{(char*)p, sz, v[i].al, v[i].seed};
        check_new(h, (int)i);
        size_t n = std::min(sz, v[i].sz), d = differs(h.p, n, h.seed);
        HX_CHECK(d == n, "contents-lost", "reallocation from %zu to %zu bytes lost byte %zu", v[i].sz, sz, d);
        v[i] = h; v[i].seed = next += 1000; fill(v[i]);
    }
    void verify() { for(auto &h : v) { size_t d = differs(h.p, h.sz, h.seed); HX_CHECK(d == h.sz, "corrupted", "byte %zu of a live block of %zu bytes changed", d, h.sz); } }
    void drop(size_t i) { v[i] = v.back(); v.pop_back(); }
};
}
#endif

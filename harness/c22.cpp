// C22: bit, size and raw-memory helpers against their definition
#include "hx.hpp"
#include <c4/memory_util.hpp>
#include <c4/szconv.hpp>
#include <c4/hash.hpp>
#include <c4/blob.hpp>
#include <utility>
#include <cmath>
using namespace c4;
typedef __int128 W;

// ------------------------------------------------------------------ bits
template<class I> static void bits(hx::Rng &r)
{
    const unsigned nb = sizeof(I) * 8;
    for(int k = 0; k < 64; ++k)
    {
        I v;
        switch(r.below(4)) { case 0: v = (I)r.interesting(); break; case 1: v = I(I(1) << r.below(nb)); break; case 2: v = (I)r.u64(); break; default: v = I((I(1) << r.below(nb)) | (I(1) << r.below(nb))); }
        if(sizeof(I) == 1) v = I(k * 4 + r.below(4)); // all 8-bit values are visited
        if(v == 0) continue;
        unsigned lo = 0; while(!((v >> lo) & 1)) ++lo;
        unsigned hi = nb - 1; while(!((v >> hi) & 1)) --hi;
        hx::note("bits u%u v=%llx", nb, (unsigned long long)v);
        HX_CHECK(lsb(v) == lo, "lsb", "lsb of %llx gave %u, not %u", (unsigned long long)v, lsb(v), lo);
        HX_CHECK(msb(v) == hi, "msb", "msb of %llx gave %u, not %u", (unsigned long long)v, msb(v), hi);
        hx::seen(nb, lo, hi);
    }
}
SCENARIO(bits, 3000, 60000) { SC_UNUSED(); bits<uint8_t>(r); bits<uint16_t>(r); bits<uint32_t>(r); bits<uint64_t>(r); bits<unsigned long long>(r); bits<unsigned long>(r); bits<size_t>(r); bits<unsigned char>(r); }
template<class I> static void masks(hx::Rng &r)
{
    typedef typename std::make_unsigned<I>::type U; const unsigned nb = sizeof(I) * 8;
    unsigned a = (unsigned)r.below(nb + 1), b = (unsigned)r.in(a, nb);
    if(std::is_signed<I>::value && sizeof(I) >= 4 && b == nb && a < b && r.coin()) { b = nb - 1; if(a > b) a = b; }
    U exp = 0; for(unsigned i = a; i < b; ++i) exp = U(exp | U(U(1) << i));
    hx::note("contiguous_mask %s%u [%u,%u)", std::is_signed<I>::value ? "i" : "u", nb, a, b);
    I got = contiguous_mask<I>((I)a, (I)b);
    HX_CHECK((U)got == exp, "contiguous-mask", "mask of bits [%u,%u) of %u is %llx, not %llx", a, b, nb, (unsigned long long)(U)got, (unsigned long long)exp);
    hx::seen(nb, a, b, std::is_signed<I>::value);
}
SCENARIO(masks, 60000, 600000) { SC_UNUSED(); masks<uint8_t>(r); masks<uint16_t>(r); masks<uint32_t>(r); masks<uint64_t>(r); masks<int8_t>(r); masks<int16_t>(r); masks<int32_t>(r); masks<int64_t>(r); }

// compile-time versions, over every single bit and bit pair of every unsigned type (and signed ones below the sign bit)
template<class I, unsigned B> struct AtBit
{
    static void go()
    {
        enum : unsigned { hi = B, lo = B / 3 };
        static const I one = I(I(1) << B); static const I two = I(I(I(1) << hi) | I(I(1) << lo));
        static const I ones = I((I(1) << hi) | I(I(I(1) << hi) - I(1)));
        HX_CHECK(((unsigned)lsb11<I, one>::value) == B && ((unsigned)msb11<I, one>::value) == B, "tmp-single-bit", "bit %u of %zu-byte: lsb11 %u msb11 %u", B, sizeof(I), ((unsigned)lsb11<I, one>::value), ((unsigned)msb11<I, one>::value));
        HX_CHECK(((unsigned)lsb11<I, two>::value) == lo && ((unsigned)msb11<I, two>::value) == hi, "tmp-two-bits", "bits %u,%u of %zu-byte: lsb11 %u msb11 %u", lo, hi, sizeof(I), ((unsigned)lsb11<I, two>::value), ((unsigned)msb11<I, two>::value));
        HX_CHECK(((unsigned)lsb11<I, ones>::value) == 0 && ((unsigned)msb11<I, ones>::value) == hi, "tmp-ones", "bits [0,%u] of %zu-byte: lsb11 %u msb11 %u", hi, sizeof(I), ((unsigned)lsb11<I, ones>::value), ((unsigned)msb11<I, ones>::value));
        uint64_t e = 0; for(unsigned i = lo; i < hi; ++i) e |= uint64_t(1) << i;
        uint64_t e1 = e | (uint64_t(1) << hi), e0 = e1; for(unsigned i = 0; i < lo; ++i) e0 |= uint64_t(1) << i;
        HX_CHECK(((uint64_t)contiguous_mask11<I, I(lo), I(hi)>::value) == e, "tmp-mask", "contiguous_mask11 [%u,%u) of %zu-byte gave %llx", lo, hi, sizeof(I), ((unsigned long long)contiguous_mask11<I, I(lo), I(hi)>::value));
        HX_CHECK(((uint64_t)contiguous_mask11<I, I(lo), I(hi + 1)>::value) == e1, "tmp-mask", "contiguous_mask11 [%u,%u) of %zu-byte gave %llx", lo, hi + 1, sizeof(I), ((unsigned long long)contiguous_mask11<I, I(lo), I(hi + 1)>::value));
        HX_CHECK(((uint64_t)contiguous_mask11<I, I(0), I(hi + 1)>::value) == e0, "tmp-mask", "contiguous_mask11 [0,%u) of %zu-byte gave %llx", hi + 1, sizeof(I), ((unsigned long long)contiguous_mask11<I, I(0), I(hi + 1)>::value));
        HX_CHECK(((uint64_t)contiguous_mask11<I, I(hi), I(hi)>::value) == 0, "tmp-mask", "empty contiguous_mask11 of %zu-byte gave %llx", sizeof(I), ((unsigned long long)contiguous_mask11<I, I(hi), I(hi)>::value));
        hx::seen(sizeof(I), B, 77);
        AtBit<I, B - 1>::go();
    }
};
template<class I> struct AtBit<I, 0>
{
    static void go()
    {
        HX_CHECK(((unsigned)lsb11<I, I(1)>::value) == 0 && ((unsigned)msb11<I, I(1)>::value) == 0, "tmp-single-bit", "bit 0");
        HX_CHECK(((uint64_t)contiguous_mask11<I, I(0), I(1)>::value) == 1, "tmp-mask", "mask [0,1)");
        HX_CHECK(((uint64_t)contiguous_mask11<I, I(0), I(0)>::value) == 0, "tmp-mask", "mask [0,0)");
    }
};
SCENARIO(compile_time, 1, 1) { SC_UNUSED(); AtBit<uint8_t, 7>::go(); AtBit<uint16_t, 15>::go(); AtBit<uint32_t, 31>::go(); AtBit<uint64_t, 63>::go(); AtBit<int8_t, 6>::go(); AtBit<int16_t, 14>::go(); AtBit<int32_t, 30>::go(); AtBit<int64_t, 62>::go(); }

// ------------------------------------------------------------------ powers
// whether b^e is representable in B, and its value
template<class B> static bool pow_ref(B b, uint64_t e, B *out)
{
    W v = 1; const W lo = (W)std::numeric_limits<B>::min(), hi = (W)std::numeric_limits<B>::max();
    if(b == 0 || b == 1 || (b == (B)-1 && std::is_signed<B>::value)) { *out = b == 0 ? (e ? B(0) : B(1)) : b == 1 ? B(1) : (e & 1) ? b : B(1); return true; }
    for(uint64_t i = 0; i < e; ++i) { v *= (W)b; if(v < lo || v > hi) return false; }
    *out = (B)v; return true;
}
template<class B, class E> static void power(hx::Rng &r)
{
    B b = r.chance(1, 3) ? (B)r.below(5) : r.coin() ? (B)r.below(40) : (B)r.interesting();
    if(std::is_signed<B>::value && r.chance(1, 3)) b = (B)(0 - (uint64_t)b);
    uint64_t e = r.coin() ? r.below(70) : r.below(6); if(sizeof(E) > 1 && r.chance(1, 10)) e = 128 + r.below(400);
    if(r.chance(1, 8)) e = (uint64_t)std::numeric_limits<E>::max() < 70000 ? (uint64_t)std::numeric_limits<E>::max() - r.below(2) : e;
    if(e > (uint64_t)std::numeric_limits<E>::max()) e = (uint64_t)std::numeric_limits<E>::max();
    B exp; 
    hx::note("ipow base=%lld(%zu) exp=%llu(%zu)", (long long)b, sizeof(B), (unsigned long long)e, sizeof(E));
    if(pow_ref(b, e, &exp)) { B g = ipow(b, (E)e); HX_CHECK(g == exp, "power", "%lld^%llu gave %lld, not %lld", (long long)b, (unsigned long long)e, (long long)g, (long long)exp); hx::seen((uint64_t)b, e, sizeof(B) * 16 + sizeof(E)); }
    if(std::is_signed<E>::value && b != 0)
    {
        // 1/b^n as an integer: 1 or -1 for |b|==1, otherwise 0 (n>0)
        E ne = (E)(0 - e); if(r.chance(1, 6) && sizeof(E) < 4) ne = std::numeric_limits<E>::min();
        bool one = b == 1, mone = std::is_signed<B>::value && b == (B)-1; bool odd = (uint64_t)ne & 1;
        exp = ne == 0 ? B(1) : one ? B(1) : mone ? (odd ? (B)-1 : B(1)) : B(0);
        hx::note("ipow base=%lld(%zu) exp=%lld(%zu)", (long long)b, sizeof(B), (long long)ne, sizeof(E));
        B g = ipow(b, ne);
        HX_CHECK(g == exp, "negative-power", "%lld^%lld gave %lld, not %lld", (long long)b, (long long)ne, (long long)g, (long long)exp);
    }
}
template<class B, class Base, Base base, class E> static void power_ct(hx::Rng &r)
{
    uint64_t e = r.below(66); if(e > (uint64_t)std::numeric_limits<E>::max()) e = (uint64_t)std::numeric_limits<E>::max(); B exp;
    hx::note("ipow<%lld(%zu),%zu> exp=%llu(%zu)", (long long)base, sizeof(Base), sizeof(B), (unsigned long long)e, sizeof(E));
    if(pow_ref((B)base, e, &exp)) { B g = ipow<B, Base, base>((E)e); HX_CHECK(g == exp, "power-ct", "%lld^%llu gave %lld, not %lld", (long long)base, (unsigned long long)e, (long long)g, (long long)exp); g = ipow<B, (B)base>((E)e); HX_CHECK(g == exp, "power-ct2", "%lld^%llu gave %lld, not %lld", (long long)base, (unsigned long long)e, (long long)g, (long long)exp); hx::seen((uint64_t)base, e, sizeof(B)); }
    if(std::is_signed<E>::value)
    {
        E ne = (E)(0 - e); if(r.chance(1, 6) && sizeof(E) < 4) ne = std::numeric_limits<E>::min();
        exp = (ne == 0 || base == (Base)1) ? B(1) : (std::is_signed<B>::value && (B)base == (B)-1) ? (((uint64_t)ne & 1) ? (B)-1 : B(1)) : B(0);
        B g = ipow<B, Base, base>(ne), h = ipow<B, (B)base>(ne);
        HX_CHECK(g == exp && h == exp, "negative-power-ct", "%lld^%lld gave %lld and %lld, not %lld", (long long)base, (long long)ne, (long long)g, (long long)h, (long long)exp);
    }
}
template<class F, class E> static void power_fl(hx::Rng &r)
{
    // powers of two and small odd bases are exact
    static const int bases[] = {1, 2, 3, 4, 5, 7, 8, 10, 16, -1, -2, -3, -10}; int b = r.pick(bases); int e = (int)r.below(20); W v = 1; int n = 0;
    for(int i = 0; i < e; ++i) { if(v > (W(1) << 22) || v < -(W(1) << 22)) break; v *= b; ++n; } if(v > (W(1) << 23) || v < -(W(1) << 23)) { v /= b; --n; }
    hx::note("ipow float base=%d exp=%d", b, n);
    HX_CHECK(ipow((F)b, (E)n) == (F)v, "power-real", "%d^%d gave %g", b, n, (double)ipow((F)b, (E)n));
    if(std::is_signed<E>::value)
    {
        HX_CHECK(ipow((F)2, (E)-n) == (F)std::ldexp((F)1, -n), "power-real", "2^-%d", n);
        HX_CHECK((ipow<F, int, 2>((E)-n)) == (F)std::ldexp((F)1, -n), "power-real", "2^-%d (compile time)", n);
        HX_CHECK((ipow<F, int, -4>((E)-n)) == (F)std::ldexp((F)((n & 1) ? -1 : 1), -2 * n), "power-real", "(-4)^-%d (compile time)", n);
        int m = sizeof(E) == 1 ? -128 : -120; HX_CHECK(ipow((F)2, (E)m) == (F)std::ldexp((F)1, m), "power-real", "2^%d gave %g", m, (double)ipow((F)2, (E)m));
    }
    else HX_CHECK((ipow<F, int, 2>((E)n)) == (F)std::ldexp((F)1, n), "power-real", "2^%d (compile time)", n);
    hx::seen((uint64_t)b, (uint64_t)n, sizeof(F));
}
#ifdef NDEBUG
// exponents beyond 31 and 32 bits: the loop over the exponent takes its time, so only a few
template<class E> static void power_far(hx::Rng &r, E e)
{
    int b = r.coin() ? -1 : r.coin() ? 1 : 0; bool odd = (uint64_t)e & 1;
    hx::note("ipow base=%d exp=%lld(%zu)", b, (long long)e, sizeof(E));
    if(e < 0 && b == 0) b = -1;
    int x = b < 0 ? (odd ? -1 : 1) : b, g = ipow(b, e);
    HX_CHECK(g == x, "power-far", "%d^%lld gave %d", b, (long long)e, g);
    hx::seen((uint64_t)b, (uint64_t)e, sizeof(E));
}
SCENARIO(power_far, 4, 8)
{
    uint64_t k = 0x80000000ull + r.below(100);
    switch(it % 4) { case 0: power_far<uint32_t>(r, (uint32_t)k); break; case 1: power_far<int64_t>(r, (int64_t)(k + (r.coin() ? 0x80000000ull : 0))); break; case 2: power_far<uint64_t>(r, k); break; default: power_far<int64_t>(r, -(int64_t)k); break; }
}
#endif
template<class B> static void powers(hx::Rng &r)
{
    power<B, int8_t>(r); power<B, uint8_t>(r); power<B, int16_t>(r); power<B, uint16_t>(r); power<B, int>(r); power<B, unsigned>(r); power<B, int64_t>(r); power<B, uint64_t>(r);
    power_ct<B, int, 2, int8_t>(r); power_ct<B, int, 3, unsigned>(r); power_ct<B, int8_t, 10, int16_t>(r); power_ct<B, unsigned, 7, uint64_t>(r); power_ct<B, uint8_t, 1, int>(r); power_ct<B, int64_t, 100, uint8_t>(r);
    if(std::is_signed<B>::value) { power_ct<typename std::make_signed<B>::type, int, -1, int8_t>(r); power_ct<typename std::make_signed<B>::type, int, -3, unsigned>(r); power_ct<typename std::make_signed<B>::type, int64_t, -2, int64_t>(r); }
}
SCENARIO(powers, 4000, 60000)
{
    SC_UNUSED();
    switch(it % 8) { case 0: powers<int8_t>(r); break; case 1: powers<uint8_t>(r); break; case 2: powers<int16_t>(r); break; case 3: powers<uint16_t>(r); break; case 4: powers<int32_t>(r); break; case 5: powers<uint32_t>(r); break; case 6: powers<int64_t>(r); break; default: powers<uint64_t>(r); }
    power_fl<float, int>(r); power_fl<double, int8_t>(r); power_fl<double, uint8_t>(r); power_fl<float, int16_t>(r); power_fl<double, unsigned>(r); power_fl<double, int64_t>(r);
}

// ------------------------------------------------------------------ memory
SCENARIO(repeat, 40000, 400000)
{
    SC_UNUSED();
    size_t ps = r.size(r.chance(1, 20) ? 300 : 40), n = r.size(r.chance(1, 20) ? 500 : 40);
    if(r.chance(1, 6)) { n = (size_t(1) << r.below(9)) + r.below(3) - 1; }
    if(r.chance(1, 300)) { ps = 1 + r.below(6000); n = r.below(200000 / ps + 2); }
    if(r.chance(1, 8000)) { ps = 1 + r.below(r.coin() ? 10 : 200000); n = (3000000 + r.below(9000000)) / ps; hx::count("repeats_of_megabytes"); }
    hx::note("mem_repeat pattern=%zu times=%zu", ps, n);
    std::string pat = r.bytes(ps); std::string exp; for(size_t i = 0; i < n; ++i) exp += pat;
    hx::Exact d(ps * n), p(pat);
    mem_repeat(d.p, p.p, ps, n);
    HX_CHECK(d.str() == exp, "repeat", "%zu times a pattern of %zu bytes", n, ps);
    HX_CHECK(p.str() == pat, "repeat-pattern", "the pattern was changed");
    // only the designated bytes are touched
    size_t lead = r.below(20), trail = r.below(20); hx::Exact e(lead + ps * n + trail, 0x5c);
    mem_repeat(e.p + lead, p.p, ps, n);
    HX_CHECK(e.str() == std::string(lead, 0x5c) + exp + std::string(trail, 0x5c), "repeat-outside", "%zu times a pattern of %zu bytes changed other bytes", n, ps);
    hx::seen(ps, n);
}
template<class T> static void zero_t(hx::Rng &r)
{
    size_t n = r.below(30), a = r.below(5), b = r.below(5);
    hx::note("mem_zero T=%zu n=%zu", sizeof(T), n);
    { hx::Exact e((a + n + b) * sizeof(T), 0x77); T *p = (T*)e.p; mem_zero(p + a, n); HX_CHECK(e.str() == std::string(a * sizeof(T), 0x77) + std::string(n * sizeof(T), 0) + std::string(b * sizeof(T), 0x77), "zero-n", "mem_zero(T*,%zu)", n); }
    { hx::Exact e((a + 1 + b) * sizeof(T), 0x77); T *p = (T*)e.p; mem_zero(p + a); HX_CHECK(e.str() == std::string(a * sizeof(T), 0x77) + std::string(sizeof(T), 0) + std::string(b * sizeof(T), 0x77), "zero-1", "mem_zero(T*)"); }
    { hx::Exact e(a + n + b, 0x77); mem_zero((void*)(e.p + a), n); HX_CHECK(e.str() == std::string(a, 0x77) + std::string(n, 0) + std::string(b, 0x77), "zero-bytes", "mem_zero(void*,%zu)", n); }
    hx::seen(sizeof(T), n, a, b);
}
struct S3 { char c[3]; }; struct S24 { uint64_t a[3]; };
SCENARIO(zero, 8000, 80000) { SC_UNUSED(); zero_t<char>(r); zero_t<int16_t>(r); zero_t<int>(r); zero_t<uint64_t>(r); zero_t<S3>(r); zero_t<S24>(r); }
SCENARIO(overlap, 60000, 600000)
{
    SC_UNUSED();
    static char arena[64]; size_t N = r.coin() ? 8 : 64;
    size_t a = r.below(N + 1), sa = r.below(N - a + 1), b = r.below(N + 1), sb = r.below(N - b + 1);
    if(r.chance(1, 6)) { b = a + sa; sb = r.below(N - b + 1); } if(r.chance(1, 10)) { b = a; sb = r.below(N - b + 1); }
    bool common = false; for(size_t i = a; i < a + sa; ++i) if(i >= b && i < b + sb) common = true;
    hx::note("mem_overlaps [%zu,%zu) [%zu,%zu)", a, a + sa, b, b + sb);
    HX_CHECK(mem_overlaps(arena + a, arena + b, sa, sb) == common, "overlap", "[%zu,%zu) and [%zu,%zu): %d", a, a + sa, b, b + sb, !common);
    HX_CHECK(mem_overlaps(arena + b, arena + a, sb, sa) == common, "overlap", "[%zu,%zu) and [%zu,%zu): %d", b, b + sb, a, a + sa, !common);
    hx::seen(a, sa, b, sb);
}
struct alignas(64) A64 { char c[64]; };
template<class T> static void align_t(hx::Rng &r, char *base)
{
    size_t o = r.below(520); size_t al = size_t(1) << r.below(9); char *p = base + o;
    hx::note("is_aligned offset %zu alignment %zu T %zu", o, al, alignof(T));
    HX_CHECK(is_aligned((T*)p, al) == ((uintptr_t)p % al == 0), "aligned", "pointer ...%03zx, alignment %zu", (size_t)((uintptr_t)p & 0xfff), al);
    HX_CHECK(is_aligned((T*)p) == ((uintptr_t)p % alignof(T) == 0), "aligned-natural", "pointer ...%03zx, alignment %zu", (size_t)((uintptr_t)p & 0xfff), alignof(T));
    HX_CHECK(is_aligned((T const*)p) == ((uintptr_t)p % alignof(T) == 0), "aligned-natural", "pointer ...%03zx, alignment %zu", (size_t)((uintptr_t)p & 0xfff), alignof(T));
    hx::seen((uintptr_t)p % al, al, alignof(T));
}
SCENARIO(aligned, 20000, 200000) { SC_UNUSED(); alignas(1024) static char base[2048]; align_t<char>(r, base); align_t<short>(r, base); align_t<int>(r, base); align_t<double>(r, base); align_t<long double>(r, base); align_t<A64>(r, base); }

// ------------------------------------------------------------------ size conversion
template<class O, class I> static void conv(hx::Rng &r)
{
    typedef std::numeric_limits<O> LO; typedef std::numeric_limits<I> LI;
    I v; switch(r.below(5)) { case 0: v = (I)r.interesting(); break; case 1: v = (I)(r.coin() ? LI::max() : LI::min()); break; case 2: v = (I)((uint64_t)LO::max() + r.below(5) - 2); break; case 3: v = (I)(0 - r.below(4)); break; default: v = (I)r.u64(); }
    const bool fits = (W)v >= 0 && (W)v <= (W)LO::max();
    // narrower: some size of the input type has no counterpart in the output type
    const bool narrower = (W)LO::max() < (W)LI::max();
    hx::note("szconv out=%zu%s in=%zu%s v=%lld", sizeof(O), LO::is_signed ? "s" : "u", sizeof(I), LI::is_signed ? "s" : "u", (long long)v);
    HX_CHECK((is_narrower_size<O, I>::value) == narrower, "narrower", "is_narrower_size gave %d", (int)is_narrower_size<O, I>::value);
    if(fits) { O o = szconv<O>(v); HX_CHECK((W)o == (W)v, "convert", "%lld became %lld", (long long)v, (long long)o); hx::count("conversions"); hx::seen((uint64_t)v, sizeof(O) * 2 + LO::is_signed, sizeof(I) * 2 + LI::is_signed); }
#if !defined(NDEBUG)
    else if(narrower)
    {
        bool rz = hx::raises([&]{ volatile O o = szconv<O>(v); (void)o; });
        HX_CHECK(rz, "overflow-missed", "%lld does not fit but was converted silently", (long long)v); hx::count("refusals");
    }
#endif
}
template<class O> static void convs(hx::Rng &r) { conv<O, int8_t>(r); conv<O, uint8_t>(r); conv<O, int16_t>(r); conv<O, uint16_t>(r); conv<O, int32_t>(r); conv<O, uint32_t>(r); conv<O, int64_t>(r); conv<O, uint64_t>(r); conv<O, unsigned long long>(r); conv<O, long long>(r); }
SCENARIO(size_conversion, 6000, 60000) { SC_UNUSED(); convs<int8_t>(r); convs<uint8_t>(r); convs<int16_t>(r); convs<uint16_t>(r); convs<int32_t>(r); convs<uint32_t>(r); convs<int64_t>(r); convs<uint64_t>(r); }

// ------------------------------------------------------------------ hash
static uint64_t fnv(const unsigned char *p, size_t n) { uint64_t h = 0xcbf29ce484222325ull; for(size_t i = 0; i < n; ++i) { h ^= p[i]; h = (uint64_t)((unsigned __int128)h * 0x100000001b3ull); } return h; }
static uint32_t fnv32(const unsigned char *p, size_t n) { uint32_t h = 0x811c9dc5u; for(size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 0x01000193u; } return h; }
SCENARIO(hashes, 40000, 400000)
{
    SC_UNUSED();
    std::string s = r.bytes(r.size(r.chance(1, 30) ? 3000 : 60)); hx::Exact e(s); hx::note("hash of %zu bytes", s.size());
    const unsigned char *u = (const unsigned char*)s.data();
    HX_CHECK(hash_bytes((void const*)e.p, e.n) == fnv(u, s.size()), "hash", "%s", hx::esc(s).c_str());
    // in pieces, from any split
    fnv1a_t<64> f; fnv1a_t<32> g; size_t pos = 0; while(pos < s.size()) { size_t k = r.below(s.size() - pos + 1); if(r.chance(1, 4)) k = s.size() - pos; f.update(e.p + pos, k); g.update(e.p + pos, k); pos += k; }
    HX_CHECK(f.digest() == fnv(u, s.size()), "hash-pieces", "%s", hx::esc(s).c_str());
    HX_CHECK(g.digest() == fnv32(u, s.size()), "hash-32", "%s", hx::esc(s).c_str());
    char a[9]; memset(a, 0, sizeof(a)); memcpy(a, s.data(), std::min(s.size(), sizeof(a)));
    HX_CHECK(hash_bytes(a) == fnv((unsigned char*)a, sizeof(a)), "hash-array", "array of 9 chars");
    hx::seen(hx::hbytes(s.data(), s.size()));
}

// ------------------------------------------------------------------ pairs
struct V { int x; int y; }; struct E1 {}; struct E2 {}; struct Big { double d[4]; };
// constructed over poisoned memory, so that uninitialised members are recognised
template<class F, class S> struct PairMem { alignas(64) unsigned char m[sizeof(tight_pair<F, S>)]; };
template<class T> static T mk(uint64_t v) { unsigned char b[sizeof(T)]; for(size_t i = 0; i < sizeof(T); ++i) b[i] = (unsigned char)(v >> (8 * (i % 8))); T t; memcpy((void*)&t, b, sizeof(T)); return t; }
template<class T> static bool same(T const& a, T const& b) { return std::is_empty<T>::value || memcmp((void const*)&a, (void const*)&b, sizeof(T)) == 0; }
template<class T> static bool zero_value(T const& a) { if(std::is_empty<T>::value) return true; unsigned char z[sizeof(T)]; memset(z, 0, sizeof z); return memcmp((void const*)&a, z, sizeof(T)) == 0; }
static void poison(void *p, size_t n) { volatile unsigned char *q = (volatile unsigned char*)p; for(size_t i = 0; i < n; ++i) q[i] = 0xEE; }
template<class F, class S> static void pair_t(hx::Rng &r, const char *what)
{
    typedef tight_pair<F, S> P; hx::note("tight_pair %s", what);
    PairMem<F, S> m; poison(m.m, sizeof(m.m)); volatile void *vp = m.m; P *p = ::new((void*)vp) P();
    HX_CHECK(zero_value(p->first()) && zero_value(p->second()), "pair-default", "%s: a default-constructed pair has indeterminate values", what);
    F f = mk<F>(r.u64()); S s = mk<S>(r.u64());
    P q(f, s); P const& cq = q;
    HX_CHECK(same(q.first(), f) && same(q.second(), s) && same(cq.first(), f) && same(cq.second(), s), "pair-values", "%s: wrong values", what);
    P c(q); HX_CHECK(same(c.first(), f) && same(c.second(), s), "pair-copy", "%s: wrong copies", what);
    F f2 = mk<F>(r.u64()); q.first() = f2; HX_CHECK(same(cq.first(), f2) && same(cq.second(), s) && same(c.first(), f), "pair-assign", "%s: assigning first", what);
    S s2 = mk<S>(r.u64()); q.second() = s2; HX_CHECK(same(cq.first(), f2) && same(cq.second(), s2) && same(c.second(), s), "pair-assign", "%s: assigning second", what);
    c = q; HX_CHECK(same(c.first(), f2) && same(c.second(), s2), "pair-assign", "%s: assigning the pair", what);
    size_t need = (std::is_empty<F>::value ? 0 : sizeof(F)) + (std::is_empty<S>::value ? 0 : sizeof(S));
    if(need == 0) need = 1;
    if(std::is_empty<F>::value || std::is_empty<S>::value) HX_CHECK(sizeof(P) == need, "pair-size", "%s: takes %zu bytes, not %zu", what, sizeof(P), need);
    hx::seen(sizeof(F), sizeof(S), std::is_empty<F>::value, std::is_empty<S>::value);
}
SCENARIO(pairs, 3000, 30000)
{
    SC_UNUSED();
    pair_t<V, V>(r, "same"); pair_t<E1, E1>(r, "same empty"); pair_t<E1, E2>(r, "both empty"); pair_t<E1, V>(r, "first empty"); pair_t<V, E1>(r, "second empty"); pair_t<V, Big>(r, "general"); pair_t<int, E2>(r, "int, empty"); pair_t<E2, uint64_t>(r, "empty, u64"); pair_t<int, char>(r, "int, char"); pair_t<Big, Big>(r, "same big");
}

// ranges which 32 bits cannot tell
SCENARIO(far, 300, 6000)
{
    SC_UNUSED(); hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    size_t n = hx::Far::len(r), k = 1 + r.below(50); char *p = f.p; hx::note("far: %zu %zu", n, k);
    HX_CHECK(mem_overlaps(p, p + n - k, n, k) && !mem_overlaps(p, p + n, n, k) && mem_overlaps(p + n - 1, p, k, n) && !mem_overlaps(p + n, p, k, n) && mem_overlaps(p, p, n, n) && !mem_overlaps(p, p + n, k, k), "far-overlap", "a range of %zu and one of %zu at its end", n, k);
    f.put(n - k, std::string(k, 'x')); f.put(n, "y"); mem_zero(p + n - k, k); HX_CHECK(p[n - k] == 0 && p[n - 1] == 0 && p[n] == 'y', "far-zero", "zero");
    HX_CHECK(is_aligned((int*)(p + (n & ~size_t(7)))) && !is_aligned((int*)(p + (n & ~size_t(7)) + 1)), "far-aligned", "aligned");
    hx::seen(n, k);
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "(type, argument values / sizes) of each helper call whose result was compared with the definition"); }

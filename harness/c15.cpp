// C15: code points become canonical UTF-8
#include "hx.hpp"
#include <c4/utf.hpp>
#include <c4/substr.hpp>
using namespace c4;
using hx::Exact;
typedef std::string S;
// the definition: number of payload bits -> number of bytes
static S utf8(uint32_t c)
{
    if(c > 0x10ffff) return S();
    int n = c < (1u << 7) ? 1 : c < (1u << 11) ? 2 : c < (1u << 16) ? 3 : 4; if(n == 1) return S(1, (char)c);
    S o((size_t)n, 0); for(int i = n - 1; i > 0; --i) { o[(size_t)i] = (char)(0x80 + c % 64); c /= 64; }
    static const int lead[] = {0, 0, 192, 224, 240}; o[0] = (char)(lead[n] + (int)c); return o;
}
static void one(uint32_t c, hx::Rng *r)
{
    S x = utf8(c);
    Exact b(4, 0x7e); size_t n = decode_code_point((uint8_t*)b.p, b.n, c); hx::ev();
    if(n != x.size() || b.str(n) != x) hx::fail("numeric", "U+%X: %zu bytes %s, expected %s", c, n, hx::esc(b.str(n)).c_str(), hx::esc(x).c_str());
    for(size_t i = x.size(); i < 4; ++i) if(b.p[i] != 0x7e) hx::fail("spill", "U+%X: wrote byte %zu", c, i);
    if(!r || c == 0) return;
    char t[16]; snprintf(t, sizeof(t), r->coin() ? "%X" : "%x", c); Exact te{S(t)}; size_t len = r->coin() ? 4 : r->in(4, 12);
    Exact o(len, 0x7e); substr s = decode_code_point(substr(o.p, o.n), csubstr(te.p, te.n));
    HX_CHECK(s.str == o.p && s.len == x.size() && S(s.str, s.len) == x, "text", "U+%s: %s expected %s", t, hx::esc(s.str, s.len).c_str(), hx::esc(x).c_str());
    for(size_t i = x.size(); i < len; ++i) if(o.p[i] != 0x7e) { hx::fail("spill", "U+%s: wrote byte %zu of %zu", t, i, len); break; }
    hx::seen(c >> 4); if(x.empty()) hx::count("beyond Unicode"); else hx::count(hx::fmt("%zu bytes", x.size()).c_str());
}
// complete: all of Unicode in blocks of 4096, and one block beyond
SCENARIO(complete, 0x110 + 1, 0x110 + 1) { for(uint32_t i = 0; i < 4096; ++i) one((uint32_t)it * 4096 + i, (i % 8 == it % 8 || i < 2 || i > 4093) ? &r : nullptr); hx::note("block %u", (unsigned)it); }
SCENARIO(any, 30000, 2000000) { (void)it; uint32_t c = (uint32_t)r.interesting(); if(r.coin()) { static const uint32_t edge[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0xffffffff}; c = r.pick(edge) + (uint32_t)r.below(5) - 2; } hx::note("U+%X", c); one(c, &r); hx::sample(hx::fmt("U+%X", c)); }
// numeric form into buffers of exactly the documented minimum and more
SCENARIO(buffers, 4000, 100000) { (void)it; uint32_t c = (uint32_t)r.below(0x110000); size_t len = r.in(4, 9); Exact b(len, 0x7e); S x = utf8(c); hx::note("U+%X in %zu", c, len); size_t n = decode_code_point((uint8_t*)b.p, len, c); HX_CHECK(n == x.size() && b.str() == x + S(len - x.size(), 0x7e), "numeric", "U+%X in %zu: %s", c, len, hx::esc(b.str()).c_str()); hx::seen(c >> 8, len); }
int main(int argc, char **argv) { return hx::main_(argc, argv, "every code point (complete) and values beyond, numeric and hexadecimal text form, in exactly sized buffers, against the definition of UTF-8; distinct = 16-code-point rows reached through the text form"); }

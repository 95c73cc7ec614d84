// C14: base64 matches RFC 4648
#include "hx.hpp"
#include <c4/base64.hpp>
#include <c4/format.hpp>
#include <c4/std/string.hpp>
using namespace c4;
using hx::Exact;
typedef std::string S;
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// straight from the RFC: bit by bit
static S enc(S const& d)
{
    S bits, o; for(unsigned char c : d) for(int i = 7; i >= 0; --i) bits += (char)('0' + ((c >> i) & 1));
    while(bits.size() % 6) bits += '0';
    for(size_t i = 0; i < bits.size(); i += 6) { int v = 0; for(size_t k = 0; k < 6; ++k) v = v * 2 + (bits[i + k] - '0'); o += AL[v]; }
    while(o.size() % 4) o += '=';
    return o;
}
static bool valid(S const& t)
{
    if(t.size() % 4) return false;
    size_t n = t.size(); for(int i = 0; i < 2 && n && t[n - 1] == '='; ++i) --n;
    for(size_t i = 0; i < n; ++i) if(t[i] == 0 || !strchr(AL, t[i])) return false;
    return true;
}
static S dec(S const& t) // of a valid text
{
    S bits, o; for(char c : t) { if(c == '=') break; int v = (int)(strchr(AL, c) - AL); for(int i = 5; i >= 0; --i) bits += (char)('0' + ((v >> i) & 1)); }
    for(size_t i = 0; i + 8 <= bits.size(); i += 8) { int v = 0; for(size_t k = 0; k < 8; ++k) v = v * 2 + (bits[i + k] - '0'); o += (char)v; }
    return o;
}
static void decode(hx::Rng &r, S const& t, S const& d)
{
    Exact te(t); csubstr s(te.p, te.n); if(t.empty() && r.coin()) s = csubstr();
    for(size_t len : {(size_t)0, d.size(), d.size() + r.in(1, 3), r.below(d.size() + 1), d.size() ? d.size() - 1 : 0})
    {
        Exact b(len, 0x7e); size_t n = base64_decode(s, blob(b.p, b.n));
        HX_CHECK(n == d.size(), "decode-size", "decoding %s into %zu: size %zu, expected %zu", hx::esc(t).c_str(), len, n, d.size());
        S x = len >= d.size() ? d + S(len - d.size(), 0x7e) : d.substr(0, len);
        HX_CHECK(b.str() == x, "decode", "decoding %s into %zu: %s, expected %s", hx::esc(t).c_str(), len, hx::esc(b.str()).c_str(), hx::esc(x).c_str());
        fmt::base64_wrapper w{blob(b.p, b.n)}; size_t m = from_chars(s, &w); HX_CHECK(m == d.size() && b.str() == x, "decode-fmt", "from_chars(base64) of %s", hx::esc(t).c_str());
    }
    { size_t n = base64_decode(s, blob()); HX_CHECK(n == d.size(), "decode-size", "decoding into nothing: %zu expected %zu", n, d.size()); }
}
static void roundtrip(hx::Rng &r, S const& d)
{
    S x = enc(d); Exact de(d); cblob src(de.p, de.n); if(d.empty() && r.coin()) src = cblob();
    hx::note("encode " + hx::esc(d));
    for(size_t len : {(size_t)0, x.size(), x.size() + r.in(1, 3), r.below(x.size() + 1), x.size() ? x.size() - 1 : 0})
    {
        Exact b(len, 0x7e); size_t n = base64_encode(substr(b.p, b.n), src);
        HX_CHECK(n == x.size(), "encode-size", "encoding %zu bytes into %zu: size %zu, expected %zu", d.size(), len, n, x.size());
        S y = len >= x.size() ? x + S(len - x.size(), 0x7e) : x.substr(0, len);
        HX_CHECK(b.str() == y, "encode", "encoding %s: %s, expected %s", hx::esc(d).c_str(), hx::esc(b.str()).c_str(), hx::esc(y).c_str());
        size_t m = to_chars(substr(b.p, b.n), fmt::base64(csubstr(de.p, de.n))); HX_CHECK(m == x.size() && b.str() == y, "encode-fmt", "to_chars(base64) of %s", hx::esc(d).c_str());
        m = to_chars(substr(b.p, b.n), fmt::cbase64(csubstr(de.p, de.n))); HX_CHECK(m == x.size() && b.str() == y, "encode-fmt", "to_chars(cbase64) of %s", hx::esc(d).c_str());
    }
    HX_CHECK(de.str() == d, "source", "encoding changed its source");
    Exact xe(x); HX_CHECK(base64_valid(csubstr(xe.p, xe.n)), "valid", "the encoding %s is reported invalid", x.c_str());
    decode(r, x, d);
    S cs = catrs<S>(fmt::base64(csubstr(de.p, de.n)), '.'); HX_CHECK(cs == x + ".", "cat", "cat of base64: %s", cs.c_str());
}
SCENARIO(roundtrip, 15000, 600000) { (void)it; S d = r.bytes(r.chance(1, 20) ? r.below(3000) : it % 1500 == 700 ? 190000 + r.below(80000) : r.below(40)); if(r.chance(1, 6)) for(char &c : d) c = r.coin() ? (char)0xff : 0; roundtrip(r, d); hx::seen(d.size(), hx::hbytes(d.data(), d.size()) % 128); hx::sample(hx::esc(d)); }
// complete: every one- and two-byte string, and every value of each byte of a three-byte group
SCENARIO(complete, 257, 257)
{
    if(it == 256) { for(int k = 0; k < 256; ++k) roundtrip(r, S(1, (char)k)); roundtrip(r, S()); return; }
    for(int k = 0; k < 256; ++k) { roundtrip(r, S(1, (char)it) + (char)k); if(k % 16 == 0 || r.chance(1, 8)) roundtrip(r, S(1, (char)it) + (char)k + (char)r.u64()); }
    hx::seen(it);
}
SCENARIO(values, 4000, 100000)
{
    (void)it; uint64_t u = r.u64(); int32_t i = (int32_t)r.interesting(); double d = (double)(int64_t)u / 3; struct P { int16_t a, b; char c[5]; } p; memset(&p, 0, sizeof(p)); p.a = (int16_t)u; p.b = (int16_t)(u >> 16); memcpy(p.c, "wxyz", 5); uint16_t arr[3] = {(uint16_t)u, 7, (uint16_t)(u >> 40)};
#define V(v) { S x = enc(S((const char*)&v, sizeof(v))); Exact b(x.size()); size_t n = to_chars(substr(b.p, b.n), fmt::cbase64(v)); HX_CHECK(n == x.size() && b.str() == x, "value", #v ": %s expected %s", b.str().c_str(), x.c_str()); auto w = v; memset(&w, 0x55, sizeof(w)); auto wr = fmt::base64(w); n = from_chars(csubstr(b.p, b.n), &wr); HX_CHECK(n == sizeof(v) && memcmp(&w, &v, sizeof(v)) == 0, "value-back", #v " does not read back"); }
    V(u) V(i) V(d) V(p)
    { S x = enc(S((const char*)arr, sizeof(arr))); Exact b(x.size()); size_t n = to_chars(substr(b.p, b.n), fmt::cbase64(arr)); HX_CHECK(n == x.size() && b.str() == x, "value", "array: %s expected %s", b.str().c_str(), x.c_str()); n = to_chars(substr(b.p, b.n), fmt::cbase64(arr, 2)); x = enc(S((const char*)arr, 4)); HX_CHECK(n == x.size() && b.str(n) == x, "value", "pointer and count: %s expected %s", b.str(n).c_str(), x.c_str()); }
    hx::seen(u % 1000);
}
// blobs view exactly the bytes they are made from
SCENARIO(blobs, 4000, 100000)
{
    (void)it; size_t n = r.below(r.chance(1, 16) ? 400 : 20); Exact e(n ? n * 4 : 4); uint32_t *p = (uint32_t*)e.p; uint32_t var = (uint32_t)r.u64(); int16_t arr[5] = {1, 2, 3, 4, 5};
    auto is = [&](const char *k, cblob b, const void *q, size_t len){ HX_CHECK((const void*)b.buf == q && b.len == len, "blob", "%s: %p %zu expected %p %zu", k, (const void*)b.buf, b.len, q, len); };
    blob b(p, n); is("pointer and count", b, p, n * 4); cblob c(p, n); is("const pointer and count", c, p, n * 4); is("void pointer", blob((void*)p, n), p, n); is("const void pointer", cblob((const void*)p, n), p, n);
    is("variable", blob(var), &var, 4); is("const variable", cblob(var), &var, 4); is("array", blob(arr), arr, sizeof(arr)); is("const array", cblob(arr), arr, sizeof(arr));
    cblob d(b); is("converted", d, p, n * 4); cblob f; cblob &ret = (f = b); is("assigned", f, p, n * 4); HX_CHECK(&ret == &f, "blob-assign", "assignment returns something else"); cblob f2; cblob &ret2 = (f2 = blob(p, n)); is("assigned", f2, p, n * 4); HX_CHECK(&ret2 == &f2, "blob-assign", "assignment returns something else");
    blob g; blob &gr = (g = var); is("assigned variable", g, &var, 4); HX_CHECK(&gr == &g, "blob-assign", "assignment returns something else"); g = arr; is("assigned array", g, arr, sizeof(arr)); g = b; is("copied", g, p, n * 4);
    {   // characters, flags and structures, whatever they hold
        char ca[6]; unsigned char ua[300]; bool fl = r.coin(), fa[3] = {r.coin(), false, r.coin()}; struct Q { char c; int i; } q[2], *qp = q; const char lit[] = "ab"; int *ip = arr[0] ? nullptr : (int*)p; memset(q, 0, sizeof(q)); for(char &x : ca) x = r.coin() ? 0 : (char)r.u64(); memset(ua, r.coin() ? 0 : 0xff, sizeof(ua));
        g = ca; is("assigned characters", g, ca, 6); is("characters", blob(ca), ca, 6); is("const characters", cblob(ca), ca, 6); g = ua; is("assigned bytes", g, ua, 300); is("bytes", cblob(ua), ua, 300); g = fl; is("assigned flag", g, &fl, sizeof(fl)); g = fa; is("assigned flags", g, fa, sizeof(fa));
        is("structures", blob(q), q, sizeof(q)); g = q; is("assigned structures", g, q, sizeof(q)); g = q[1]; is("assigned structure", g, &q[1], sizeof(Q)); is("structure", cblob(q[1]), &q[1], sizeof(Q)); is("structures and count", blob(q, 1), q, sizeof(Q)); is("counted characters", blob(ca, r.below(1)), ca, 0); is("counted characters", cblob(ca + 1, 5), ca + 1, 5);
        is("literal", cblob(lit), lit, 3); is("pointer variable", blob(ip), &ip, sizeof(ip)); is("pointer variable", blob(qp), &qp, sizeof(qp)); cblob cc; cc = lit; is("assigned literal", cc, lit, 3); cc = ca; is("assigned characters", cc, ca, 6); cc = var; is("assigned variable", cc, &var, 4); }
    hx::seen(n);
}
// any text: valid exactly when of the padded form; valid texts decode, canonical or not
static void validity(hx::Rng &r, S const& t)
{
    Exact e(t); csubstr s(e.p, e.n); bool v = valid(t), g = base64_valid(s); hx::note("valid " + hx::esc(t));
    HX_CHECK(v == g, "validity", "%s reported valid=%d, expected %d", hx::esc(t).c_str(), g, v);
    if(v && g) { decode(r, t, dec(t)); hx::count("valid"); } else hx::count("invalid");
    hx::seen(t.size(), v, std::count(t.begin(), t.end(), '='), t.find('='));
    hx::sample(hx::esc(t));
}
SCENARIO(validity, 60000, 2000000)
{
    (void)it; S t;
    switch(r.below(4))
    {
    case 0: t = r.bytes(r.below(14)); break;
    case 1: t = r.str(16, AL + S("==")); if(t.size() % 4 && r.coin()) t.resize(t.size() / 4 * 4); break;
    case 2: t = enc(r.bytes(r.below(20))); if(!t.empty()) { size_t k = r.below(3); while(k--) t[r.below(t.size())] = r.coin() ? '=' : (char)r.u64(); } break;
    default: t = enc(r.bytes(r.below(12))); if(r.coin()) t += enc(r.bytes(r.below(5))); if(r.chance(1, 4)) t += S(r.below(5), '='); break;
    }
    validity(r, t);
}
// complete: every character at every position of two quartets, and every placement of '=' in them
SCENARIO(validity_complete, 256 + 256, 256 + 256)
{
    if(it < 256) { for(size_t p = 0; p < 8; ++p) { S t = "QUJDREVG"; t[p] = (char)it; validity(r, t); t = "QUJDRA=="; t[p] = (char)it; validity(r, t); } }
    else { S t = "QUJDREVG"; for(size_t p = 0; p < 8; ++p) if((it - 256) >> p & 1) t[p] = '='; validity(r, t); }
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "one case = one byte string encoded and decoded at several exactly sized destinations against a bit-by-bit RFC 4648 oracle, or one text judged for validity; distinct = (size, content hash bucket / padding shape)"); }

// args.hpp -- a value of any of the library's writable kinds, chosen at run time, so that
// variadic functions can be exercised with arbitrary mixes. Writing one calls the library's own
// to_chars() overload of the underlying type.
#ifndef ARGS_HPP
#define ARGS_HPP
#include "hx.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/base64.hpp>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#include <c4/std/string_view.hpp>
#include <memory>
#include <cinttypes>
namespace args {
struct Arg
{
    enum Kind { i8, u8, i16, u16, i32, u32, i64, u64, ch, bo, str, cstr, vec, stdstr, sv, hex, oct, bin, zpad, left, right, b64, flt, dbl, dblprec, ptr, alpha, leftstr, rightint, nkinds };
    Kind k = i32; int64_t i = 0; double d = 0; std::string s; std::vector<char> v; size_t w = 0; char pad = ' ';
    std::string want; bool exact = true; // exact: the size reported into a short buffer is the full size
    std::shared_ptr<hx::Exact> e;
    bool raw_exact() const { return exact; }
};
inline size_t to_chars(c4::substr b, Arg const& a)
{
    using c4::to_chars;
    switch(a.k)
    {
    case Arg::i8: return to_chars(b, (int8_t)a.i);
    case Arg::u8: return to_chars(b, (uint8_t)a.i);
    case Arg::i16: return to_chars(b, (int16_t)a.i);
    case Arg::u16: return to_chars(b, (uint16_t)a.i);
    case Arg::i32: return to_chars(b, (int32_t)a.i);
    case Arg::u32: return to_chars(b, (uint32_t)a.i);
    case Arg::i64: return to_chars(b, (int64_t)a.i);
    case Arg::u64: return to_chars(b, (uint64_t)a.i);
    case Arg::ch: return to_chars(b, (char)a.i);
    case Arg::bo: return to_chars(b, a.i != 0);
    case Arg::str: return to_chars(b, c4::csubstr(a.e->p, a.e->n));
    case Arg::cstr: return to_chars(b, a.s.c_str());
    case Arg::vec: return to_chars(b, a.v);
    case Arg::stdstr: return to_chars(b, a.s);
#if C4_CPP >= 17
    case Arg::sv: return to_chars(b, std::string_view(a.e->p, a.e->n));
#else
    case Arg::sv: return to_chars(b, c4::substr(a.e->p, a.e->n));
#endif
    case Arg::hex: return to_chars(b, c4::fmt::hex(a.i));
    case Arg::oct: return to_chars(b, c4::fmt::oct((uint64_t)a.i));
    case Arg::bin: return to_chars(b, c4::fmt::bin((int32_t)a.i));
    case Arg::zpad: return to_chars(b, c4::fmt::zpad((int64_t)a.i, a.w));
    case Arg::left: return to_chars(b, c4::fmt::left(a.i, a.w, a.pad));
    case Arg::right: return to_chars(b, c4::fmt::right(c4::csubstr(a.e->p, a.e->n), a.w, a.pad));
    case Arg::b64: return to_chars(b, c4::fmt::base64(a.i));
    case Arg::flt: return to_chars(b, (float)a.d);
    case Arg::dbl: return to_chars(b, a.d);
    case Arg::dblprec: return to_chars(b, c4::fmt::real(a.d, (int)a.w, c4::FTOA_FLOAT));
    case Arg::ptr: return to_chars(b, (void*)(uintptr_t)a.i);
    case Arg::alpha: return to_chars(b, c4::fmt::boolalpha(a.i));
    case Arg::leftstr: return to_chars(b, c4::fmt::left(c4::csubstr(a.e->p, a.e->n), a.w, a.pad));
    case Arg::rightint: return to_chars(b, c4::fmt::right(a.i, a.w, a.pad));
    default: return 0;
    }
}
inline std::string full(Arg const& a)
{
    for(size_t n = 64;; n *= 2) { hx::Exact b(n); size_t m = to_chars(c4::substr(b.p, b.n), a); if(m <= n) return b.str(m); }
}
inline Arg arg(hx::Rng &r, bool reals = true, bool nonempty = false)
{
    Arg a; a.i = (int64_t)r.interesting();
    a.k = (Arg::Kind)r.below(Arg::nkinds); if(r.chance(1, 6)) a.k = Arg::str;
    if(!reals && (a.k == Arg::flt || a.k == Arg::dbl || a.k == Arg::dblprec)) a.k = Arg::i64;
    static const std::string al[] = {"ab{} ", "xyz{}{", std::string("\0\x80 a", 4)};
    a.s = r.str(r.chance(1, 12) ? 60 : r.big(9), al[r.below(3)]);
    if(nonempty && a.s.empty()) a.s = "q";
    a.w = r.below(r.big(14)); a.pad = r.chance(1, 8) ? (char)r.u64() : (char)r.in('!', '/');
    if(a.k == Arg::cstr) { size_t z = a.s.find('\0'); if(z != std::string::npos) a.s = "c-string"; }
    a.v.assign(a.s.begin(), a.s.end()); a.e = std::make_shared<hx::Exact>(a.s);
    a.d = r.coin() ? (double)(int64_t)r.interesting() / 64.0 : (double)(int)r.below(1000) * 0.01;
    if(a.k == Arg::dblprec) { a.w = r.below(6); a.d = (double)(int)r.below(100000) / 128; }
    a.exact = !(a.k == Arg::flt || a.k == Arg::dbl || a.k == Arg::dblprec);
    switch(a.k)
    {
    case Arg::i8: a.want = std::to_string((int)(int8_t)a.i); break;
    case Arg::u8: a.want = std::to_string((int)(uint8_t)a.i); break;
    case Arg::i16: a.want = std::to_string((int16_t)a.i); break;
    case Arg::u16: a.want = std::to_string((uint16_t)a.i); break;
    case Arg::i32: a.want = std::to_string((int32_t)a.i); break;
    case Arg::u32: a.want = std::to_string((uint32_t)a.i); break;
    case Arg::i64: a.want = std::to_string(a.i); break;
    case Arg::u64: a.want = std::to_string((uint64_t)a.i); break;
    case Arg::ch: a.want = std::string(1, (char)a.i); break;
    case Arg::bo: a.i &= 1; a.want = a.i ? "1" : "0"; break;
    case Arg::str: case Arg::cstr: case Arg::vec: case Arg::stdstr: case Arg::sv: a.want = a.s; break;
    case Arg::right: a.want = a.s.size() < a.w ? std::string(a.w - a.s.size(), a.pad) + a.s : a.s; break;
    case Arg::left: a.want = std::to_string(a.i); if(a.want.size() < a.w) a.want += std::string(a.w - a.want.size(), a.pad); break;
    case Arg::leftstr: a.want = a.s.size() < a.w ? a.s + std::string(a.w - a.s.size(), a.pad) : a.s; break;
    case Arg::rightint: a.want = std::to_string(a.i); if(a.want.size() < a.w) a.want.insert(0, a.w - a.want.size(), a.pad); break;
    case Arg::alpha: if(r.coin()) a.i = 0; a.want = a.i ? "true" : "false"; break;
    case Arg::oct: a.want = hx::fmt("0o%" PRIo64, (uint64_t)a.i); break;
    case Arg::dblprec: a.want = hx::fmt("%.*f", (int)a.w, a.d); break;
    default: a.want = full(a); break;
    }
    return a;
}
inline std::string show(std::vector<Arg> const& v) { std::string s; for(auto &a : v) { s += s.empty() ? "" : " "; s += std::to_string((int)a.k) + ":" + hx::esc(a.want); } return s; }
// call f(v[0], ..., v[n-1])
#define ARGS_CALL(f, v) ([&]{ std::vector<args::Arg> &v_ = (v); switch(v_.size()) { \
    case 0: return f(); case 1: return f(v_[0]); case 2: return f(v_[0], v_[1]); case 3: return f(v_[0], v_[1], v_[2]); case 4: return f(v_[0], v_[1], v_[2], v_[3]); \
    case 5: return f(v_[0], v_[1], v_[2], v_[3], v_[4]); case 6: return f(v_[0], v_[1], v_[2], v_[3], v_[4], v_[5]); \
    case 7: return f(v_[0], v_[1], v_[2], v_[3], v_[4], v_[5], v_[6]); default: return f(v_[0], v_[1], v_[2], v_[3], v_[4], v_[5], v_[6], v_[7]); } }())
enum { maxargs = 8 };
}
#endif

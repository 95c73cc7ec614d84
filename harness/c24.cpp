// C24: independent threads. Every thread runs a seeded program of library operations on its own data (sharing only
// read-only views and symbol tables); the race detector watches, and each result must equal that of the same program run alone.
// The hx runtime is not thread safe: threads only fill their own log, judged after joining.
#include "hx.hpp"
#include <c4/substr.hpp>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/base64.hpp>
#include <c4/utf.hpp>
#include <c4/enum.hpp>
#include <c4/bitmask.hpp>
#include <c4/hash.hpp>
#include <c4/span.hpp>
#include <c4/type_name.hpp>
#include <c4/memory_util.hpp>
#include <c4/memory_resource.hpp>
#include <c4/allocator.hpp>
#include <c4/ctor_dtor.hpp>
#include <c4/dump.hpp>
#include <c4/szconv.hpp>
#include <c4/char_traits.hpp>
#include <c4/std/string_view.hpp>
#include <c4/std/vector.hpp>
#include <c4/std/tuple.hpp>
#if __cplusplus >= 201703L
#include <c4/ext/sg14/inplace_function.h>
#endif
#include <sstream>
#include <map>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#include <thread>
#include <atomic>
#include <mutex>
#include <sched.h>
using namespace c4;
typedef std::string S;

enum Color { RED = 1, GREEN = 2, BLUE = 4, WHITE = 7, NOCOLOR = 0 };
enum class Dir : uint8_t { N, E, S, W };
namespace c4 {
template<> const EnumSymbols<Color> esyms<Color>() { static const EnumSymbols<Color>::Sym s[] = {{RED, "RED"}, {GREEN, "GREEN"}, {BLUE, "BLUE"}, {WHITE, "WHITE"}, {NOCOLOR, "NOCOLOR"}}; return EnumSymbols<Color>(s); }
template<> const EnumSymbols<Dir> esyms<Dir>() { static const EnumSymbols<Dir>::Sym s[] = {{Dir::N, "Dir::N"}, {Dir::E, "Dir::E"}, {Dir::S, "Dir::S"}, {Dir::W, "Dir::W"}}; return EnumSymbols<Dir>(s); }
template<> size_t eoffs_cls<Dir>() { return 5; }
}
static const char shared_text[] = "key: 'some value', list, 0x1f2e, -123.5e3, 42 +7 true  ; \"quoted \\\" text\" a/b/c.txt .5 0b101 0o17 end";
enum : size_t { NOPS = 16 };
struct Stub {};
struct Err {};
static void cb_throw(const char*, size_t) { throw Err(); }

struct Log { std::vector<uint64_t> d; std::vector<uint64_t> ticket; std::vector<std::pair<char*, size_t>> blocks; std::string note; uint64_t ops[32] = {0}; };
static std::atomic<uint64_t> g_ticket(0); // relaxed: orders nothing, so it hides no race
static uint64_t hs(S const& s) { return hx::hbytes(s.data(), s.size()); }
static uint64_t hs(csubstr s) { return hx::hbytes(s.str, s.len) + s.len; }

struct MyMR : public MemoryResourceMalloc { }; // a resource of one thread
static void op_ints(hx::Rng &r, uint64_t *h)
{
    char b[128]; uint64_t v = r.interesting(); size_t n;
    n = to_chars(substr(b, sizeof b), v); *h += hs(csubstr(b, n)); uint64_t q = 0; *h += from_chars(csubstr(b, n), &q) + q;
    n = to_chars(substr(b, sizeof b), (int64_t)v); *h += hs(csubstr(b, n)); int64_t qi = 0; *h += atoi(csubstr(b, n), &qi) + (uint64_t)qi;
    n = utoa(substr(b, sizeof b), (uint32_t)v, (uint32_t)16, (size_t)12); *h += hs(csubstr(b, n)); uint32_t q3 = 0; *h += atou(csubstr(b, n), &q3) + q3;
    n = itoa(substr(b, sizeof b), (int16_t)v, (int16_t)2); *h += hs(csubstr(b, n)); int16_t q4 = 0; *h += atoi(csubstr(b, n), &q4) + (uint64_t)q4;
    *h += overflows<uint8_t>(csubstr(b, n)) + digits_dec(v) + digits_hex(v);
}
static void op_reals(hx::Rng &r, uint64_t *h)
{
    char b[400]; uint64_t v = r.u64(); double d; memcpy(&d, &v, 8); if(!(d == d) || d - d != 0) d = 1.5; if(r.coin()) d = (double)(int64_t)r.interesting() / 7; size_t n;
    static const RealFormat_e fm[] = {FTOA_FLOAT, FTOA_SCIENT, FTOA_FLEX, FTOA_HEXA}; RealFormat_e f = r.pick(fm); int prec = (int)r.below(12);
    n = dtoa(substr(b, sizeof b), d, prec, f); if(n > sizeof b) { *h += n; return; } *h += hs(csubstr(b, n)); double q = 0; *h += (uint64_t)atod(csubstr(b, n), &q); uint64_t u; memcpy(&u, &q, 8); *h += u;
    n = to_chars(substr(b, sizeof b), (float)(int)v); *h += hs(csubstr(b, n)); float qf = 0; *h += (uint64_t)atof(csubstr(b, n), &qf); uint32_t uf; memcpy(&uf, &qf, 4); *h += uf;
    csubstr c(shared_text); float x = 0; *h += from_chars_first(c.sub(c.find("-123")), &x) + (uint64_t)(int64_t)x;
}
static void op_format(hx::Rng &r, uint64_t *h)
{
    char b[256]; substr s(b, sizeof b); uint32_t v = (uint32_t)r.interesting(); csubstr w = csubstr(shared_text).sub(r.below(20), r.below(30)); size_t n;
    n = cat(s, v, ' ', w, ' ', (int8_t)v, true); *h += hs(s.first(n));
    n = catsep(s, ", ", v, w, fmt::hex(v), fmt::zpad(v, 12)); *h += hs(s.first(n));
    n = format(s, "{} is {} or {}", w, v, fmt::right(v, 15)); *h += hs(s.first(n));
    uint32_t a = 0; int8_t c = 0; n = catsep(s, ' ', v, (int8_t)v); char sep = ' '; *h += uncatsep(csubstr(b, n), sep, a, c) + a + (uint64_t)c; n = format(s, "<{}:{}>", v, (int8_t)v); *h += unformat(csubstr(b, n), "<{}:{}>", a, c) + a + (uint64_t)c;
    std::string str; catrs(&str, v, w, "x"); *h += hs(str); formatrs(&str, "[{}|{}]", w, v); *h += hs(str); std::vector<char> vec; catseprs(&vec, '-', v, w); *h += hs(to_csubstr(vec));
    n = cat(s, fmt::real((double)v / 3, 4), ' ', fmt::left(w, 10)); *h += hs(s.first(n));
}
static void op_base64(hx::Rng &r, uint64_t *h)
{
    std::string in = r.bytes(r.below(60)); char e[128]; size_t n = base64_encode(substr(e, sizeof e), cblob(in.data(), in.size())); *h += hs(csubstr(e, n)) + base64_valid(csubstr(e, n));
    char o[128]; size_t m = base64_decode(csubstr(e, n), blob(o, sizeof o)); *h += hs(csubstr(o, m)); int x = (int)r.u64(); n = cat(substr(e, sizeof e), fmt::cbase64(x)); *h += hs(csubstr(e, n));
}
static void op_views(hx::Rng &r, uint64_t *h)
{
    csubstr c(shared_text); size_t p = r.below(c.len); csubstr d = c.sub(p);
    *h += d.find("a") + d.first_of(" ,;") + d.last_of("abc") + d.count('e') + hs(d.trim(" ,;")) + hs(d.triml("key: ")) + hs(d.first_int_span()) + hs(d.first_real_span()) + hs(d.first_uint_span()) + hs(d.basename()) + hs(d.extshort()) + hs(d.unquoted());
    for(csubstr x : c.split(' ')) *h = *h * 31 + hs(x);
    *h += (uint64_t)c.compare(d) + (c == d) + c.is_super(d) + d.is_number() + d.begins_with("ab") + hs(c.pair_range_nested('\'', '\''));
    size_t pos = 0; csubstr part; while(c.next_split(',', &pos, &part)) *h = *h * 17 + hs(part);
    std::string own(c.str, c.len); substr s = to_substr(own); s.toupper(); *h += hs(s); s.reverse(); *h += hs(s); *h += s.replace('A', 'z'); s = s.erase(p / 2, p / 3); *h += hs(s); std::string out(300, '\0'); size_t n = c.replace_all(to_substr(out), " ", "__"); *h += n + hs(csubstr(out.data(), n));
}
static void op_enums(hx::Rng &r, uint64_t *h)
{
    auto y = esyms<Color>(); for(auto const& s : y) *h += hx::hstr(s.name) + (uint64_t)s.value;
    *h += (uint64_t)str2e<Color>(r.coin() ? "RED" : "BLUE") + hx::hstr(e2str(GREEN)) + (uint64_t)str2e<Dir>(r.coin() ? "W" : "Dir::S") + hx::hstr(e2str(Dir::E));
    char b[64]; size_t n = bm2str<Color>((int)r.below(8), b, sizeof b); *h += n + hx::hstr(b); *h += (uint64_t)str2bm<Color>(b) + (uint64_t)str2bm<Color>("RED|0x4"); *h += eoffs_cls<Dir>() + eoffs_pfx<Dir>();
}
static void op_misc(hx::Rng &r, uint64_t *h)
{
    uint32_t v = (uint32_t)r.u64() | 1u; *h += msb(v) + lsb(v) + ipow(3, (int)r.below(NOPS)) + contiguous_mask<uint32_t>(3, 9); char b[64]; mem_repeat(b, "abc", 3, 20); *h += hash_bytes(b, 60);
    uint8_t u[4]; size_t n = decode_code_point(u, 4, (uint32_t)r.below(0x110000)); *h += hash_bytes(u, n); auto t = type_name<std::vector<int>>(); *h += hash_bytes(t.data(), t.size()); auto t2 = type_name<Color>(); *h += hash_bytes(t2.data(), t2.size());
    *h += (uint64_t)is_debugger_attached() * 3 + get_error_flags() + (get_error_callback() == cb_throw);
    std::string raw(64, 'x'); int w = (int)v, g = 0; size_t k = cat(to_substr(raw), fmt::craw(w)); *h += k; auto rr = fmt::raw(g); csubstr cs(raw.data(), k); *h += from_chars(cs, &rr) + (uint64_t)g;
    std::string a[4]; for(int i = 0; i < 4; ++i) a[i] = std::string((size_t)(10 + i * 10), (char)('a' + i)); { alignas(std::string) char m[4 * sizeof(std::string)]; std::string *p = (std::string*)m; copy_construct_n(p, a, 4); for(int i = 0; i < 4; ++i) *h += hs(p[i]); destroy_n(p, 4); }
}
struct Sink { std::string *o; void operator()(csubstr s) const { o->append(s.str, s.len); } };
static thread_local std::string *t_out = nullptr; static void t_sink(csubstr s) { t_out->append(s.str, s.len); }
static void op_dump(hx::Rng &r, uint64_t *h)
{
    uint32_t v = (uint32_t)r.interesting(); csubstr w = csubstr(shared_text).sub(r.below(20), r.below(30)); char b[128]; substr s(b, 1 + r.below(100)); std::string o; Sink k{&o}; t_out = &o;
    *h += cat_dump(k, s, v, w, ' ', (int8_t)v); *h += hs(o); *h += catsep_dump(k, s, ", ", v, w, -3); *h += hs(o); *h += format_dump(k, s, "{}-{}..", w, v); *h += hs(o); o.clear();
    *h += cat_dump<&t_sink>(s, v, w, 'x'); *h += catsep_dump<&t_sink>(s, '-', v, w); *h += format_dump<&t_sink>(s, "<{}>{}", v, w); *h += hs(o); o.clear();
    DumpResults d = cat_dump_resume(k, s, w, v, 1.5, w); *h += d.bufsize; d = cat_dump_resume(k, d, substr(b, sizeof b), w, v, 1.5, w); *h += d.lastok; *h += hs(o);
    d = catsep_dump_resume<&t_sink>(s, '+', w, v, true); d = catsep_dump_resume<&t_sink>(d, substr(b, sizeof b), '+', w, v, true); *h += d.lastok; d = format_dump_resume(k, s, "{}{}!", v, w); d = format_dump_resume(k, d, substr(b, sizeof b), "{}{}!", v, w); *h += d.bufsize + hs(o);
    d = catsep_dump_resume(k, s, '+', w, v, true); d = catsep_dump_resume(k, d, substr(b, sizeof b), '+', w, v, true); d = format_dump_resume<&t_sink>(s, "{}{}!", v, w); d = format_dump_resume<&t_sink>(d, substr(b, sizeof b), "{}{}!", v, w); d = cat_dump_resume<&t_sink>(s, w, v); d = cat_dump_resume<&t_sink>(d, substr(b, sizeof b), w, v); *h += d.lastok + hs(o);
}
template<class T> static void conv1(hx::Rng &r, uint64_t *h)
{
    char b[160]; substr s(b, sizeof b); T v = (T)r.interesting(); size_t n; static const int rx[] = {2, 8, 10, 16};
    for(int x : rx) { n = xtoa(s, v, (T)x); *h += hs(s.first(n)); T q = 0; *h += atox(s.first(n), &q) + (uint64_t)q; n = xtoa(s, v, (T)x, (size_t)r.below(70)); *h += hs(s.first(n)); *h += overflows<T>(s.first(n)); }
    n = xtoa(s, v); *h += hs(s.first(n)); T q = 0; b[n] = ' '; *h += from_chars_first(csubstr(b, n + 1), &q) + (uint64_t)q; n = to_chars(s, v); *h += hs(s.first(n)); n = write_dec(s, (T)(v & (T)0x7f)); *h += hs(s.first(n)); n = write_hex(s, (T)(v & (T)0x7f)); *h += hs(s.first(n)); T g = 0; *h += read_hex(csubstr(b, n), &g) + (uint64_t)g; n = write_oct(s, (T)(v & (T)0x7f)); *h += hs(s.first(n)) + read_oct(csubstr(b, n), &g) + (uint64_t)g; n = write_bin(s, (T)(v & (T)0x7f)); *h += hs(s.first(n)) + read_bin(csubstr(b, n), &g) + (uint64_t)g;
    n = write_dec(s, (T)(v & (T)0x7f), 30); *h += hs(s.first(n)); n = write_hex(s, (T)(v & (T)0x7f), 30); *h += hs(s.first(n)); n = write_oct(s, (T)(v & (T)0x7f), 30); *h += hs(s.first(n)); n = write_bin(s, (T)(v & (T)0x7f), 30); *h += hs(s.first(n));
    auto rest = to_chars_sub(s, v); *h += hs(rest);
    n = cat(s, fmt::hex(v), ' ', fmt::oct(v), ' ', fmt::bin(v)); *h += hs(s.first(n)); n = cat(s, fmt::integral(v, (T)16)); *h += hs(s.first(n)); n = cat(s, fmt::zpad(fmt::hex(v), 12)); *h += hs(s.first(n));
}
static void op_convert(hx::Rng &r, uint64_t *h)
{
    switch(r.below(8)) { case 0: conv1<int8_t>(r, h); break; case 1: conv1<uint8_t>(r, h); break; case 2: conv1<int16_t>(r, h); break; case 3: conv1<uint16_t>(r, h); break; case 4: conv1<int32_t>(r, h); break; case 5: conv1<uint32_t>(r, h); break; case 6: conv1<int64_t>(r, h); break; default: conv1<uint64_t>(r, h); }
    char b[400]; substr s(b, sizeof b); void *p = (void*)(uintptr_t)r.interesting(), *p2 = nullptr; size_t n = to_chars(s, p); *h += hs(s.first(n)) + from_chars(csubstr(b, n), &p2) + (uintptr_t)p2; bool t = r.coin(), t2 = false; n = to_chars(s, t); *h += from_chars(csubstr(b, n), &t2) + t2; n = to_chars(s, (char)('a' + r.below(26))); char c2 = 0; *h += from_chars(csubstr(b, n), &c2) + (uint64_t)c2;
    double d = (double)(int64_t)r.u64() / 1e6, dq = 0; float fq = 0; n = ftoa(s, (float)d, 5, FTOA_FLOAT); *h += hs(s.first(n)); b[n] = ';'; *h += atof_first(csubstr(b, n + 1), &fq) + (uint64_t)(int64_t)fq; n = dtoa(s, d); *h += hs(s.first(n)); b[n] = ';'; *h += atod_first(csubstr(b, n + 1), &dq) + (uint64_t)(int64_t)dq; n = xtoa(s, d, 17, FTOA_SCIENT); *h += hs(s.first(n)); n = dtoa(s, d, 13, FTOA_HEXA); *h += hs(s.first(n)) + atod(csubstr(b, n), &dq) + (uint64_t)(int64_t)dq;
    n = cat(s, fmt::real((float)d, 3), fmt::real(d, 9, FTOA_SCIENT), fmt::left(d, 40), fmt::right(fmt::real(d, 2), 30, '*'), fmt::left("abc", 5, '.'), fmt::boolalpha(t)); *h += hs(s.first(n));
    csubstr cs; n = to_chars(s, "text"); *h += from_chars(csubstr(b, n), &cs) + hs(cs); std::string st; *h += from_chars(csubstr(b, n), &st) + hs(st); substr sub = cat_sub(s, 1, "two", 3.0); *h += hs(sub); sub = catsep_sub(s, ':', 1, "two", 3.0); *h += hs(sub); sub = format_sub(s, "{}={}", 1, "two"); *h += hs(sub); int i1 = 0, i2 = 0; char x1 = 0; *h += uncat("12;34", i1) + (uint64_t)i1; csubstr w1; *h += unformat("(12/x/34)", "({}/{}/{})", i1, x1, i2) + (uint64_t)(i1 + i2);
    std::string a; catrs_append(&a, 1, '-', d); catseprs_append(&a, ",", 2, "x"); formatrs_append(&a, "[{}]", t); *h += hs(a); std::string a2 = catrs<std::string>(1, 2, "x"); *h += hs(a2); a2 = catseprs<std::string>('/', 1, 2); *h += hs(a2); a2 = formatrs<std::string>("{}{}", 1, 2); *h += hs(a2);
    *h += szconv<int>((size_t)r.below(100)) + (uint64_t)szconv<uint16_t>(7);
}
static void op_text(hx::Rng &r, uint64_t *h)
{
    csubstr c(shared_text); csubstr d = c.sub(r.below(c.len)); static const char *pats[] = {"e", " ", ", ", "a/b", "key", ""}; csubstr p = to_csubstr((const char*)r.pick(pats));
    *h += d.first_not_of(" a") + d.last_not_of(" d") + d.find(p.empty() ? csubstr("x") : p) + d.count(p.empty() ? csubstr("e") : p) + d.ends_with(p) + d.begins_with('k') + d.begins_with_any("abk") + d.ends_with_any("dk") + hs(d.select(p)) + d.first_of_any("end", "list", "42").pos + d.first_of_any(csubstr(","), csubstr(";")).which;
    *h += hs(d.left_of(d.len / 2)) + hs(d.right_of(d.len / 2)) + hs(d.left_of(csubstr(d.str, d.len / 2))) + hs(d.first(d.len / 3)) + hs(d.last(d.len / 3)) + hs(d.offs(d.len / 4, d.len / 4)) + hs(d.range(d.len / 4, d.len / 2)) + hs(d.stripl("key")) + hs(d.stripr("end")) + hs(d.trimr("dne ")) + hs(d.pop_left(' ')) + hs(d.pop_right(' ')) + hs(d.gpop_left(',')) + hs(d.gpop_right(',')) + hs(c.sub(c.find("a/b")).dirname()) + hs(d.extlong()) + hs(d.name_wo_extshort()) + hs(d.name_wo_extlong()) + hs(d.first_non_empty_span()) + d.is_integer() + d.is_real() + d.is_unsigned_integer() + hs(c.pair_range_esc('"', '\\')) + hs(c.pair_range(':', ','));
    *h += (uint64_t)(d < p) + (d > p) + (d <= p) + (d >= p) + (d != p) + hs(d.unquoted()) + d.has_str() + d.overlaps(c); size_t pos = 0; csubstr tok; csubstr dd = c; while(dd.next_split(' ', &pos, &tok)) *h = *h * 7 + hs(tok);
    std::string own(c.str, c.len); substr s = to_substr(own); s.tolower(); s.fill('q'); *h += hs(s); s.copy_from(d); *h += hs(s); s.reverse_sub(1, 5); s.reverse_range(2, 9); *h += hs(s); *h += s.replace(",;", '_') + hs(s); s.sub(3).triml(" ").copy_from("zz"); *h += hs(s);
    std::ostringstream os; os << d; *h += hs(os.str()); std::string js = std::string(d.str, d.len); *h += (js == d) + (d == js); *h += (uint64_t)is_debugger_attached();
    span<int> sp; int ar[8] = {3, 1, 2, 5, 4, 9, 8, 7}; sp = span<int>(ar, 8); for(int x : sp.subspan(2, 4)) *h += (uint64_t)x; *h += (uint64_t)sp.first(3).back() + (uint64_t)sp.last(2).front() + (uint64_t)sp.range(1, 4).size(); uint32_t cp = 1 + (uint32_t)r.below(0xd7ff); char ub[8]; substr us(ub, sizeof ub); us = decode_code_point(us, to_substr(own).first(to_chars(to_substr(own), fmt::hex(cp))).sub(2)); *h += hs(us);
}
static void op_callables(hx::Rng &r, uint64_t *h)
{
#if __cplusplus >= 201703L
    int k = (int)r.below(100); stdext::inplace_function<int(int)> f = [k](int x) mutable { k += x; return k; }, g, e; g = f; *h += (uint64_t)(f(1) * 3 + g(2)); f.swap(g); *h += (uint64_t)f(0); stdext::inplace_function<int(int), 64> w(f); *h += (uint64_t)w(5); try { e(1); } catch(std::bad_function_call const&) { *h += 7; } w = e; *h += (bool)w;
#endif
    std::string v[8]; alignas(std::string) char m[8 * sizeof(std::string)]; std::string *p = (std::string*)m; construct_n(p, 4, std::string(20, 'x')); make_room(p, (size_t)4, (size_t)2); construct(p, std::string("first")); construct(p + 1, std::string("second")); for(int i = 0; i < 6; ++i) *h += hs(p[i]); destroy_room(p, (size_t)6, (size_t)1); for(int i = 0; i < 5; ++i) *h += hs(p[i]); destroy_n(p, (size_t)5);
    std::string a2[4], b2[4]; for(auto &x : a2) x = std::string(r.below(40), 'q'); copy_assign_n(b2, a2, (size_t)4); for(auto &x : b2) *h += hs(x); move_assign_n(v, a2, (size_t)4); for(auto &x : v) *h += hs(x); { construct_n(p, 4u); move_assign_n(p, b2, 4u); alignas(std::string) char m3[4 * sizeof(std::string)]; std::string *p3 = (std::string*)m3; move_construct_n(p3, p, 4u); for(int i = 0; i < 4; ++i) *h += hs(p3[i]); destroy_n(p, 4u); destroy_n(p3, 4u); }
    std::ostringstream os; bm2stream<Color>(os, (int)r.below(8)); *h += hs(os.str()); char bm[64]; *h += bm2str<Dir>((uint8_t)r.below(4), bm, sizeof bm); uint32_t b32 = 0; mem_zero(&b32, 1); *h += b32 + is_aligned(&b32); char z[40]; mem_zero((void*)z, 40); *h += hash_bytes(z, 40); tight_pair<int, Stub> tp; tp.first() = 3; *h += (uint64_t)tp.first() + sizeof(tp);
    MemoryResourceLinearArr<512> la; MemoryResourceCounts mc(&la); void *q = mc.allocate(40, 8); mc.deallocate(q, 40, 8); *h += (uint64_t)mc.counts().total.allocs; std::vector<int, small_allocator_mr<int, 4>> sv; for(int i = 0; i < 20; ++i) sv.push_back(i); for(int x : sv) *h += (uint64_t)x;
    }
static void op_errors(hx::Rng &r, uint64_t *h)
{
    int got = 0; 
    try { C4_CHECK_MSG(r.below(1) == 1, "thread error %zu", r.below(100)); } catch(Err const&) { ++got; }
    try { (void)str2e<Color>("NOTACOLOR"); } catch(Err const&) { ++got; }
    *h += (uint64_t)got;
}
static void op_alloc(hx::Rng &r, uint64_t *h, Log &l)
{
    static const size_t als[] = {8, 16, 32, 64, 128};
    for(int k = 0; k < 4; ++k)
    {
        size_t al = r.pick(als), sz = 1 + r.below(300), how = r.below(3); char fill = (char)r.u64();
        char *p = (char*)(how == 0 ? aalloc(sz, al) : how == 1 ? get_memory_resource()->allocate(sz, al) : get_memory_resource_malloc()->allocate(sz, al));
        *h += ((uintptr_t)p % al == 0); memset(p, fill, sz);
        if(r.coin()) { size_t ns = 1 + r.below(600); char *q = (char*)(how == 0 ? arealloc(p, sz, ns, al) : how == 1 ? get_memory_resource()->reallocate(p, sz, ns, al) : get_memory_resource_malloc()->reallocate(p, sz, ns, al)); for(size_t i = 0; i < std::min(sz, ns); ++i) *h += (q[i] == fill); p = q; sz = ns; memset(p, fill, sz); }
        sched_yield();
        for(size_t i = 0; i < sz; ++i) if(p[i] != fill) *h ^= 0xbadbadbad;
        if(how == 0) afree(p); else if(how == 1) get_memory_resource()->deallocate(p, sz, al); else get_memory_resource_malloc()->deallocate(p, sz, al);
    }
    (void)l;
    std::vector<int, allocator<int>> v; for(int i = 0; i < 40; ++i) v.push_back(i * 3); for(int x : v) *h += (uint64_t)x;
    std::vector<int, small_allocator<int, 16>> sv; for(int i = 0; i < 30; ++i) sv.push_back(i); for(int x : sv) *h = *h * 3 + (uint64_t)x;
}
// resources of this thread only: linear memory, and the thread's own current resource
static void op_resources(hx::Rng &r, uint64_t *h)
{
    MemoryResource *before = get_memory_resource(); *h += before == get_memory_resource_malloc();
    {
        MemoryResourceLinear lin(4096); ScopedMemoryResource sc(&lin); sched_yield();
        *h += get_memory_resource() == &lin; char *a = (char*)get_memory_resource()->allocate(1 + r.below(100), 16), *b = (char*)get_memory_resource()->allocate(1 + r.below(100), 16); *h += b > a; sched_yield(); *h += get_memory_resource() == &lin;
        std::vector<int, allocator_mr<int>> v((allocator_mr<int>(&lin))); v.reserve(50); for(int i = 0; i < 50; ++i) v.push_back(i); for(int x : v) *h += (uint64_t)x;
    }
    *h += get_memory_resource() == before;
    { ScopedMemoryResourceCounts sc; void *p = get_memory_resource()->allocate(64, 16); sched_yield(); get_memory_resource()->deallocate(p, 64, 16); *h += (uint64_t)sc.mr.counts().total.allocs * 7 + (uint64_t)sc.mr.counts().curr.size; }
    *h += get_memory_resource() == before;
}
// numbers and texts of every kind, well formed or not
static const char *odd_texts[] = {"0x1.8p+3", "-0X1.Fp-3;", "0x.8p+1", "0x1p5", "0xg", "0x", "0b1.01p+2", "0b.1", "0b12", "0B101 ", "0o7.5p-1", "0o8", "0O17,", "0o", "1e400", "-1e-400", "1.5e+3x", ".5", "5.", ".", "-", "+", "", " ", "inf", "-infinity", "+inf,", "nan", "nano", "NaN", "infinit",
    "12345678901234567890123456789", "-9223372036854775808", "18446744073709551616", "0xffffffffffffffff1", "-0x80", "0b100000000", "-129", "256", "00000000000000000000001", "true", "False", "TRUE ", "0", "1", "yes", "'q'", "\"q\"", "\"q\\\"", "'", "((a)(b))c", "(a", "a)b(c)", "{{}}", "/a//b/", "a/b", "///", "a.tar.gz", ".", "...", "...x", "k:v", "k: ", "  pad  ", "0x1F2e3D", "-0o17", "3.4028236e38", "0x1.fffffffffffff8p+1023", "1_000"};
template<class T> static void odd_int(csubstr c, uint64_t *h)
{
    T v = 0; bool ok = c.len && (c[0] != '+') && atox(c, &v); *h = *h * 5 + ok + (ok ? (uint64_t)v : 0); *h = *h * 5 + overflows<T>(c); v = 0; ok = c.len && c[0] != '+' && from_chars(c, fmt::overflow_checked(v)); *h = *h * 5 + ok + (ok ? (uint64_t)v : 0); v = 0; size_t n = from_chars_first(c, &v); *h = *h * 5 + n + (n != csubstr::npos ? (uint64_t)v : 0);
    if(c.empty()) return;
    v = 0; ok = read_hex(c, &v); *h = *h * 3 + ok + (ok ? (uint64_t)v : 0); v = 0; ok = read_oct(c, &v); *h = *h * 3 + ok + (ok ? (uint64_t)v : 0); v = 0; ok = read_bin(c, &v); *h = *h * 3 + ok + (ok ? (uint64_t)v : 0); v = 0; ok = read_dec(c, &v); *h = *h * 3 + ok + (ok ? (uint64_t)v : 0);
}
static void op_odd(hx::Rng &r, uint64_t *h)
{
    for(int k = 0; k < 12; ++k)
    {
        csubstr c = to_csubstr(r.pick(odd_texts)); bool ok, trimmed = c.len && c.triml(" \t\r\n").len == c.len;
        *h += hs(c.first_int_span()) * 3 + hs(c.first_uint_span()) * 5 + hs(c.first_real_span()) * 7 + hs(c.first_non_empty_span()) * 11 + (uint64_t)(c.is_number() + 2 * c.is_real() + 4 * c.is_integer() + 8 * c.is_unsigned_integer()) * 13;
        { double d = 0; ok = trimmed && atod(c, &d); uint64_t u = 0; memcpy(&u, &d, 8); *h = *h * 3 + ok + (ok && d == d ? u : 0); float f = 0; ok = trimmed && atof(c, &f); uint32_t w = 0; memcpy(&w, &f, 4); *h = *h * 3 + ok + (ok && f == f ? w : 0); d = 0; size_t n = from_chars_first(c, &d); *h = *h * 3 + n; f = 0; n = from_chars_first(c, &f); *h = *h * 3 + n; }
        switch(r.below(8)) { case 0: odd_int<int8_t>(c, h); break; case 1: odd_int<uint8_t>(c, h); break; case 2: odd_int<int16_t>(c, h); break; case 3: odd_int<uint16_t>(c, h); break; case 4: odd_int<int32_t>(c, h); break; case 5: odd_int<uint32_t>(c, h); break; case 6: odd_int<int64_t>(c, h); break; default: odd_int<uint64_t>(c, h); }
        { bool b = false; ok = c.len && c[0] != '+' && from_chars(c, &b); *h = *h * 3 + ok + (ok && b); b = false; size_t n = c.begins_with('+') ? 0 : from_chars_first(c, &b); *h = *h * 3 + n; char ch = 0; ok = from_chars(c, &ch); *h = *h * 3 + ok + (ok ? (uint64_t)ch : 0); csubstr cc; ok = from_chars(c, &cc); *h = *h * 3 + ok + hs(cc); }
        *h += hs(c.unquoted()) + hs(c.pair_range_nested('(', ')')) + hs(c.pair_range_esc('"')) + hs(c.pop_left('/', true)) + hs(c.pop_left('/')) + hs(c.pop_right('/', true)) + hs(c.pop_right('/')) + hs(c.gpop_left('/')) + hs(c.gpop_left('/', true)) + hs(c.gpop_right('/')) + hs(c.gpop_right('/', true)) + hs(c.basename()) + hs(c.dirname()) + hs(c.extshort()) + hs(c.extlong()) + hs(c.name_wo_extshort()) + hs(c.name_wo_extlong());
        *h += hs(c.triml(' ')) + hs(c.trimr(' ')) + hs(c.trim('/')) + c.first_not_of('a') + c.last_not_of('x') + c.first_of('/') + c.last_of('/') + c.count("a") + c.find('/') + c.begins_with('0') + c.ends_with('x') + (c == "true") + ("0" == c) + (c != 'x') + (c < 'm');
        size_t pos = 0; csubstr part; while(c.next_split('/', &pos, &part)) *h = *h * 17 + hs(part); for(csubstr x : c.split('.', size_t(0))) *h = *h * 31 + hs(x);
        char b[64]; substr o(b, r.below(20)); size_t n = c.replace_all(o, "/", "::"); *h += n; n = base64_valid(c) ? base64_decode(c, blob(b, sizeof b)) : 0; *h += n; n = to_chars(o, c); *h += n; n = unformat(c, "{}/{}", n, pos); *h += n;
        uint32_t bits = 0; n = cat(substr(b, r.below(64)), fmt::right(c, r.below(30), '.'), fmt::left(c, r.below(10)), fmt::zpad((int)r.below(900), 5), fmt::hex(bits)); *h += n;
    }
}
template<class C> static void cmp_all(C const& a, csubstr c, uint64_t *h) { *h = *h * 3 + (uint64_t)((a == c) + 2 * (a != c) + 4 * (a < c) + 8 * (a <= c) + 16 * (a > c) + 32 * (a >= c) + 64 * (c == a) + 128 * (c != a) + 256 * (c < a) + 512 * (c <= a) + 1024 * (c > a) + 2048 * (c >= a)); }
static void op_containers(hx::Rng &r, uint64_t *h)
{
    csubstr c = csubstr(shared_text).sub(r.below(40), r.below(40)); std::string s(c.str, c.len); if(r.coin()) s += 'x'; std::vector<char> v(s.begin(), s.end()); cmp_all(s, c, h); cmp_all(v, c, h);
#if C4_CPP >= 17
    std::string_view sv(s); cmp_all(sv, c, h); *h += hs(to_csubstr(sv)); char vb[64]; *h += to_chars(substr(vb, r.below(64)), sv);
#endif
    char b[64]; *h += to_chars(substr(b, r.below(64)), s) + to_chars(substr(b, r.below(64)), v); std::vector<char> w; *h += from_chars(c, &w) + hs(to_csubstr(w)); *h += hs(to_substr(s)) + hs(to_substr(v));
    { small_allocator_mr<int, 8> a; int *p = a.allocate(3); for(int i = 0; i < 3; ++i) p[i] = i + (int)r.below(9); sched_yield(); p = a.reallocate(p, 3, 5); *h += (uint64_t)(p[0] + p[1] * 3 + p[2] * 7); p = a.reallocate(p, 5, 30); *h += (uint64_t)(p[0] + p[1] * 3 + p[2] * 7); int *q = a.allocate(2); q[0] = 1; a.deallocate(q, 2); p = a.reallocate(p, 30, 2); *h += (uint64_t)p[1]; a.deallocate(p, 2); }
    { allocator<uint64_t> a; uint64_t *p = a.allocate(4); for(int i = 0; i < 4; ++i) p[i] = r.u64(); uint64_t s0 = p[0] ^ p[3]; p = a.reallocate(p, 4, 9); *h += p[0] ^ p[3] ^ s0; a.deallocate(p, 9); }
    { alignas(16) char m[256]; MemoryResourceLinear lin(m, sizeof m); void *p = lin.allocate(20, 4), *q = lin.reallocate(p, 20, 30, 4); *h += p == q; void *t = lin.allocate(8, 8); *h += lin.size(); q = lin.reallocate(q, 30, 60, 4); *h += lin.slack(); t = lin.reallocate(t, 8, 4, 8); lin.deallocate(t, 4, 8); int oom = 0; try { lin.allocate(300, 8); } catch(Err const&) { oom = 1; } *h += (uint64_t)oom * 5; lin.clear(); *h += lin.capacity(); }
    { AllocationCounts x, y; x.add_counts(b, 5); y.add_counts(b, 7); y.rem_counts(b, 7); AllocationCounts z = x + y; z.update(x); z = z - y; *h += (uint64_t)z.total.size * 3 + (uint64_t)z.max.allocs; }
    { int arr[6]; for(int &x : arr) x = (int)r.below(3); spanrs<int> a(arr, 3, 6); spanrsl<int> l(arr, 6); a.resize(5); l.ltrim(2); l.rtrim(1); *h += (uint64_t)((a == l) + 2 * (a < l) + 4 * (a > l) + 8 * (a != l)) + (uint64_t)l.original().size() + (uint64_t)a.subspan(1, 3).capacity() + (uint64_t)a.is_subspan(a.first(2)) + (uint64_t)a.compll(a.last(2)).size() + (uint64_t)a.complr(a.first(2)).size(); }
}
static void run_op(size_t op, hx::Rng &r, uint64_t *h, Log &l)
{
    switch(op) { case 0: op_ints(r, h); break; case 1: op_reals(r, h); break; case 2: op_format(r, h); break; case 3: op_base64(r, h); break; case 4: op_views(r, h); break; case 5: op_enums(r, h); break; case 6: op_misc(r, h); break; case 7: op_errors(r, h); break; case 8: op_alloc(r, h, l); break; case 9: op_resources(r, h); break; case 10: op_dump(r, h); break; case 11: op_convert(r, h); break; case 12: op_text(r, h); break; case 13: op_callables(r, h); break; case 14: op_odd(r, h); break; default: op_containers(r, h); }
}
static void program(uint64_t seed, size_t nops, Log &l, bool timed)
{
    hx::Rng r(seed), delay(seed ^ 0x5555);
    for(size_t i = 0; i < nops; ++i)
    {
        if(timed) { switch(delay.below(6)) { case 0: sched_yield(); break; case 1: for(volatile int k = (int)delay.below(300); k > 0; k = k - 1) {} break; default: break; } l.ticket.push_back(g_ticket.fetch_add(1, std::memory_order_relaxed)); }
        uint64_t h = 0; size_t op = r.below(NOPS);
        try { run_op(op, r, &h, l); }
        catch(Err const&) { h = 0xE0; }
        l.d.push_back(h); l.ops[op]++;
    }
}
static const char *op_name(size_t o) { static const char *n[] = {"integers", "reals", "format", "base64", "views", "enums", "misc", "errors", "allocation", "resources", "dump", "convert", "text", "callables", "odd_texts", "containers"}; return n[o]; }

template<class F> static void in_threads(size_t n, F const& f)
{
    std::atomic<int> go(0); std::vector<std::thread> th;
    for(size_t t = 0; t < n; ++t) th.emplace_back([&, t]{ while(!go.load(std::memory_order_acquire)) sched_yield(); f(t); });
    go.store(1, std::memory_order_release);
    for(auto &t : th) t.join();
}
SCENARIO(programs, 1500, 40000)
{
    SC_UNUSED();
    size_t nt = 2 + r.below(6), nops = 10 + r.below(40); std::vector<uint64_t> seeds(nt); bool same = r.chance(1, 3); for(auto &s : seeds) s = same ? 12345 + it : r.u64();
    hx::note("%zu threads, %zu operations each%s", nt, nops, same ? ", the same program" : "");
    ScopedErrorSettings guard((error_flags)ON_ERROR_CALLBACK, cb_throw);
    std::vector<Log> par(nt), seq(nt); g_ticket.store(0, std::memory_order_relaxed);
    in_threads(nt, [&](size_t t){ program(seeds[t], nops, par[t], true); });
    // afterwards, alone
    for(size_t t = 0; t < nt; ++t) program(seeds[t], nops, seq[t], false);
    std::vector<std::pair<uint64_t, size_t>> order; uint64_t sw = 0;
    for(size_t t = 0; t < nt; ++t)
    {
        for(size_t i = 0; i < nops; ++i) { HX_CHECK(par[t].d[i] == seq[t].d[i] && par[t].d[i] != 0xE0, "result", "thread %zu operation %zu: %llx concurrently, %llx alone", t, i, (unsigned long long)par[t].d[i], (unsigned long long)seq[t].d[i]); order.push_back({par[t].ticket[i], t}); }
        for(size_t o = 0; o < NOPS; ++o) hx::count(op_name(o), par[t].ops[o]);
    }
    std::sort(order.begin(), order.end()); uint64_t sig = 0; for(size_t i = 0; i < order.size(); ++i) { sig = sig * 31 + order[i].second; if(i && order[i].second != order[i - 1].second) ++sw; }
    hx::count("operations", order.size()); hx::count("thread_switches_between_operations", sw); hx::seen(sig, nt);
}
// one kind of operation at a time, from the first instant of the process on: initialisation on first use
SCENARIO(focused, 1400, 28000)
{
    SC_UNUSED();
    size_t nt = 4 + r.below(5), op = it % NOPS; uint64_t seed = r.u64(); hx::note("%zu threads all running %s", nt, op_name(op));
    ScopedErrorSettings guard((error_flags)ON_ERROR_CALLBACK, cb_throw);
    std::vector<Log> par(nt); Log one;
    auto body = [&](Log &l, uint64_t s){ for(int k = 0; k < 8; ++k) { hx::Rng q(s + (uint64_t)k); uint64_t h = 0; try { run_op(op, q, &h, l); } catch(Err const&) { h = 0xE0; } l.d.push_back(h); l.ticket.push_back(g_ticket.fetch_add(1, std::memory_order_relaxed)); } };
    in_threads(nt, [&](size_t t){ body(par[t], seed); });
    body(one, seed); std::vector<std::pair<uint64_t, size_t>> order;
    for(size_t t = 0; t < nt; ++t) { HX_CHECK(par[t].d == one.d, "focused", "%s gave other results concurrently", op_name(op)); for(uint64_t k : par[t].ticket) order.push_back({k, t}); }
    for(uint64_t d : one.d) HX_CHECK(d != 0xE0, "focused-error", "%s raised an error", op_name(op));
    std::sort(order.begin(), order.end()); uint64_t sig = 0; for(auto &o : order) sig = sig * 31 + o.second; hx::seen(sig, op);
    hx::count("focused_operations", nt * 8);
}
// blocks live at the same time in all threads are disjoint and keep their contents; some are freed by another thread
SCENARIO(live_blocks, 400, 10000)
{
    SC_UNUSED();
    size_t nt = 2 + r.below(7), nb = 4 + r.below(60); std::vector<uint64_t> seeds(nt); for(auto &s : seeds) s = r.u64(); hx::note("%zu threads, %zu live blocks each", nt, nb);
    struct Blk { char *p; size_t n, al; char fill; int how; }; std::vector<std::vector<Blk>> all(nt); ScopedErrorSettings guard((error_flags)ON_ERROR_CALLBACK, cb_throw);
    auto get = [](Blk &b){ b.p = (char*)(b.how == 0 ? aalloc(b.n, b.al) : b.how == 1 ? get_memory_resource()->allocate(b.n, b.al) : (void*)allocator_mr<char>(get_memory_resource_malloc()).allocate(b.n, b.al)); };
    auto put = [](Blk &b){ if(b.how == 0) afree(b.p); else if(b.how == 1) get_memory_resource()->deallocate(b.p, b.n, b.al); else allocator_mr<char>(get_memory_resource_malloc()).deallocate(b.p, b.n, b.al); };
    in_threads(nt, [&](size_t t){ hx::Rng q(seeds[t]); for(size_t i = 0; i < nb; ++i) { Blk b; b.n = 1 + q.below(200); b.al = size_t(8) << q.below(5); b.fill = (char)q.u64(); b.how = (int)q.below(3); get(b); memset(b.p, b.fill, b.n); all[t].push_back(b); if(q.chance(1, 4) && !all[t].empty()) { size_t k = q.below(all[t].size()); put(all[t][k]); all[t].erase(all[t].begin() + (long)k); } if(q.chance(1, 5)) sched_yield(); } });
    std::vector<std::pair<char*, size_t>> iv; for(auto &v : all) for(auto &b : v) { iv.push_back({b.p, b.n}); bool ok = true; for(size_t i = 0; i < b.n; ++i) ok = ok && b.p[i] == b.fill; HX_CHECK(ok, "contents", "a block was overwritten while other threads allocated"); HX_CHECK((uintptr_t)b.p % b.al == 0, "alignment", "block aligned %zu at %p", b.al, (void*)b.p); }
    std::sort(iv.begin(), iv.end()); for(size_t i = 1; i < iv.size(); ++i) HX_CHECK(iv[i - 1].first + iv[i - 1].second <= iv[i].first, "overlap", "two live blocks overlap");
    hx::count("live_blocks", iv.size());
    // rotate ownership: each thread frees the blocks of its neighbour
    in_threads(nt, [&](size_t t){ for(auto &b : all[(t + 1) % nt]) { put(b); } });
    hx::seen(nt, iv.size());
}
// the current memory resource belongs to the thread: changing it in one is not seen in another
SCENARIO(own_resource, 400, 10000)
{
    SC_UNUSED();
    size_t nt = 2 + r.below(6); hx::note("%zu threads with a resource each", nt); MemoryResource *mine = get_memory_resource(); std::vector<int> bad(nt, 0); std::atomic<size_t> ready(0);
    in_threads(nt, [&](size_t t){
        if(get_memory_resource() != get_memory_resource_malloc()) bad[t] = 1;
        MyMR m; ScopedMemoryResource s(&m); if(get_memory_resource() != &m) bad[t] = 2;
        ready.fetch_add(1, std::memory_order_relaxed); while(ready.load(std::memory_order_relaxed) < nt) { if(get_memory_resource() != &m) bad[t] = 3; sched_yield(); }
        if(get_memory_resource() != &m) bad[t] = 4; });
    for(size_t t = 0; t < nt; ++t) HX_CHECK(bad[t] == 0, "own-resource", "thread %zu saw the resource of another thread (%d)", t, bad[t]);
    HX_CHECK(get_memory_resource() == mine, "own-resource", "the resource of the main thread changed");
    hx::seen(nt, it);
}

// warnings and logged errors of several threads at once: every message arrives whole, once
SCENARIO(messages, 120, 3000)
{
    SC_UNUSED();
    size_t nt = 2 + r.below(6), nm = 5 + r.below(20), len = 1 + r.below(r.coin() ? 60 : 800); hx::note("%zu threads, %zu messages of %zu each", nt, nm, len);
    static char vb[4096]; FILE *mem = tmpfile(), *was = stderr; if(!mem) abort(); setvbuf(mem, vb, _IOFBF, sizeof vb); // not a memory stream: it reallocates under a lock the race detector does not see
    std::vector<size_t> caught(nt, 0);
    {
        ScopedErrorSettings guard((error_flags)(ON_ERROR_LOG | ON_ERROR_CALLBACK), cb_throw); stderr = mem;
        in_threads(nt, [&](size_t t){
            std::string m(len, (char)('a' + t));
            for(size_t i = 0; i < nm; ++i)
            {
                if((i + t) % 3) C4_WARNING("<%zu:%zu:%s>", t, i, m.c_str());
                else try { C4_ERROR("<%zu:%zu:%s>", t, i, m.c_str()); } catch(Err const&) { ++caught[t]; }
                if(i % 4 == 0) sched_yield();
            } });
        stderr = was;
    }
    rewind(mem); std::string all; for(int c; (c = getc(mem)) != EOF; ) all += (char)c; fclose(mem);
    std::map<std::string, int> seen; for(size_t b = all.find('<'); b != std::string::npos; b = all.find('<', b + 1)) { size_t e = all.find('>', b); if(e != std::string::npos) ++seen[all.substr(b, e - b + 1)]; }
    size_t logged = 0;
    for(size_t t = 0; t < nt; ++t) { size_t errs = 0; for(size_t i = 0; i < nm; ++i) { errs += (i + t) % 3 == 0; std::string want = hx::fmt("<%zu:%zu:", t, i) + std::string(len, (char)('a' + t)) + ">"; HX_CHECK(seen[want] == 1, "message", "thread %zu message %zu of length %zu was logged whole %d times", t, i, len, seen[want]); ++logged; } HX_CHECK(caught[t] == errs, "message-errors", "thread %zu: %zu errors reported instead of %zu", t, caught[t], errs); }
    hx::count("messages", logged); hx::seen(nt, nm, len);
}

int main(int argc, char **argv) { return hx::main_(argc, argv, "observed interleavings: order in which the threads' operations were scheduled, per number of threads / kind of operation"); }

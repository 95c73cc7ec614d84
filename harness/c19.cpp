// C19: spans
#include "hx.hpp"
#include <c4/span.hpp>
#include <memory>
using namespace c4;

struct Rec { int a; short b; char c[6]; bool operator==(Rec const& o) const { return a == o.a; } bool operator<(Rec const& o) const { return a < o.a; } bool operator!=(Rec const& o) const { return a != o.a; } };
template<class T> static T val(uint64_t x) { return (T)x; }
template<> Rec val<Rec>(uint64_t x) { Rec r; memset(&r, 0, sizeof(r)); r.a = (int)x; r.b = (short)x; return r; }

// what a span must look like: an interval of the storage
struct Model { size_t off, size, cap, orig_off, orig_cap; };
template<class S> struct kind { enum { v = 0 }; };
template<class T, class I> struct kind<spanrs<T, I>> { enum { v = 1 }; };
template<class T, class I> struct kind<spanrsl<T, I>> { enum { v = 2 }; };

template<class T> struct Store { std::unique_ptr<hx::Exact> e; T *p; size_t n; std::vector<T> ref;
    Store(hx::Rng &r, size_t n_) : e(new hx::Exact(n_ * sizeof(T))), p((T*)e->p), n(n_) { for(size_t i = 0; i < n; ++i) { T t = val<T>(r.below(5)); memcpy((void*)(p + i), &t, sizeof(T)); ref.push_back(t); } } };

template<class T, class I> static void original_of(span<T, I> &, Model const&, T*) {}
template<class T, class I> static void original_of(spanrs<T, I> &, Model const&, T*) {}
template<class T, class I> static void original_of(spanrsl<T, I> &s, Model const& m, T *base)
{
    auto o = s.original(); HX_CHECK(o.data() == base + m.orig_off && (size_t)o.size() == m.orig_cap && (size_t)o.capacity() == m.orig_cap && o.offset() == 0, "original", "original() is [%td,+%zu) instead of [%zu,+%zu)", o.data() - base, (size_t)o.size(), m.orig_off, m.orig_cap);
    auto q = s.template original<spanrs>(); HX_CHECK(q.data() == base + m.orig_off && (size_t)q.size() == m.orig_cap && (size_t)q.capacity() == m.orig_cap, "original-as-spanrs", "size %zu cap %zu", (size_t)q.size(), (size_t)q.capacity());
    auto p = s.template original<span>(); HX_CHECK(p.data() == base + m.orig_off && (size_t)p.size() == m.orig_cap, "original-as-span", "size %zu", (size_t)p.size());
    HX_CHECK((size_t)s.offset() == m.off - m.orig_off, "offset", "%zu instead of %zu", (size_t)s.offset(), m.off - m.orig_off);
    spanrs<T, I> rs = s; HX_CHECK(rs.data() == s.data() && rs.size() == s.size() && rs.capacity() == s.capacity(), "convert", "spanrsl to spanrs"); span<T, I> sp = s; HX_CHECK(sp.data() == s.data() && sp.size() == s.size(), "convert", "spanrsl to span");
    spanrsl<const T, I> cs = s; HX_CHECK(cs.data() == s.data() && cs.size() == s.size() && cs.capacity() == s.capacity() && cs.offset() == s.offset(), "convert", "to const");
}
template<class S, class T>
static void agree(S &s, Model const& m, Store<T> &st)
{
    HX_CHECK((size_t)s.size() == m.size, "size", "%zu instead of %zu", (size_t)s.size(), m.size);
    HX_CHECK(s.empty() == (m.size == 0), "empty", "empty");
    HX_CHECK(s.data() == st.p + m.off, "position", "starts at %td instead of %zu", s.data() - st.p, m.off);
    HX_CHECK((size_t)s.capacity() == m.cap, "capacity", "%zu instead of %zu", (size_t)s.capacity(), m.cap);
    if((size_t)s.size() != m.size || s.data() != st.p + m.off) return;
    S const& cs = s; size_t i = 0;
    for(auto &x : s) { if(i >= m.size) break; HX_CHECK(&x == st.p + m.off + i && x == st.ref[m.off + i], "iterate", "element %zu", i); ++i; }
    HX_CHECK(i == m.size, "iterate", "visited %zu of %zu", i, m.size);
    i = 0; for(auto it = s.rbegin(); it != s.rend() && i < m.size; ++it, ++i) HX_CHECK(&*it == st.p + m.off + m.size - 1 - i, "reverse", "element %zu", i);
    HX_CHECK(i == m.size, "reverse", "visited %zu of %zu", i, m.size);
    i = 0; for(auto it = cs.crbegin(); it != cs.crend() && i < m.size; ++it, ++i) HX_CHECK(&*it == st.p + m.off + m.size - 1 - i, "reverse-const", "element %zu", i);
    HX_CHECK(i == m.size, "reverse-const", "visited %zu of %zu", i, m.size);
    i = 0; for(auto it = cs.rbegin(); it != cs.rend() && i < m.size; ++it, ++i) HX_CHECK(&*it == st.p + m.off + m.size - 1 - i, "reverse-const", "element %zu", i);
    HX_CHECK(i == m.size, "reverse-const", "visited %zu of %zu", i, m.size);
    HX_CHECK(cs.end() - cs.begin() == (std::ptrdiff_t)m.size && cs.cend() == cs.end() && cs.cbegin() == cs.begin(), "iterators", "begin/end");
    if(m.size) { HX_CHECK(&s.front() == st.p + m.off && &s.back() == st.p + m.off + m.size - 1 && &cs.front() == &s.front() && &cs.back() == &s.back(), "front-back", "front/back"); }
    HX_CHECK((size_t)s.byte_size() == (size_t)(typename S::size_type)(m.size * sizeof(T)), "byte_size", "%zu", (size_t)s.byte_size());
    original_of(s, m, st.p);
}
template<class S> static Model select(Model m, size_t first, size_t num) { Model r = m; r.off += first; r.size = num; r.cap = kind<S>::v == 0 ? num : m.cap - first; return r; }

template<class S, class T>
static void history(hx::Rng &r)
{
    typedef typename S::size_type I;
    size_t n = 1 + (r.coin() ? r.below(12) : r.below(60)); if(sizeof(I) > 1 && r.chance(1, 25)) n = 1 + r.below(400); else if(r.chance(1, 25)) n = 255 - r.below(3); Store<T> st(r, n);
    Model m{0, n, n, 0, n}; S s(st.p, (I)n);
    if(kind<S>::v != 0 && r.coin()) { size_t sz = r.below(n + 1); m.size = sz; s = S(st.p, (I)n); s.resize((I)sz); }
    agree(s, m, st); uint64_t sig = kind<S>::v;
    for(size_t op = 3 + r.below(25); op; --op)
    {
        size_t k = r.below(14); size_t a = r.below(m.size + 1), b = a + r.below(m.size - a + 1); sig = sig * 31 + k;
        hx::note("kind %d op %zu size %zu cap %zu a %zu b %zu", (int)kind<S>::v, k, m.size, m.cap, a, b);
        switch(k)
        {
        case 0: { auto t = s.subspan((I)a, (I)(b - a)); Model x = select<S>(m, a, b - a); agree(t, x, st); if(r.coin()) { s = t; m = x; } break; }
        case 1: { auto t = s.subspan((I)a); Model x = select<S>(m, a, m.size - a); agree(t, x, st); if(r.coin()) { s = t; m = x; } break; }
        case 2: { auto t = s.range((I)a, (I)b); Model x = select<S>(m, a, b - a); agree(t, x, st); if(r.coin()) { s = t; m = x; } break; }
        case 3: { auto t = s.range((I)a); Model x = select<S>(m, a, m.size - a); agree(t, x, st); if(r.coin()) { s = t; m = x; } break; }
        case 4: { auto t = s.first((I)a); Model x = select<S>(m, 0, a); agree(t, x, st); if(r.coin()) { s = t; m = x; } break; }
        case 5: { auto t = s.last((I)a); Model x = select<S>(m, m.size - a, a); agree(t, x, st); if(r.coin()) { s = t; m = x; } break; }
        case 6: if(m.size) { size_t t = r.below(m.size); s.ltrim((I)t); m.off += t; m.size -= t; m.cap -= t; } break;
        case 7: if(m.size) { size_t t = r.below(m.size); s.rtrim((I)t); m.size -= t; if(kind<S>::v == 0) m.cap = m.size; } break;
        case 8: { size_t t = r.below(m.cap + 1); s.resize((I)t); m.size = t; if(kind<S>::v == 0) m.cap = t; break; }
        case 9: if(m.size) { size_t i = r.below(m.size); T v = val<T>(r.below(5)); s[(I)i] = v; st.ref[m.off + i] = v; HX_CHECK(&s[(I)i] == st.p + m.off + i, "index", "%zu", i); S const& cs = s; HX_CHECK(&cs[(I)i] == st.p + m.off + i, "index-const", "%zu", i); } break;
        case 10: { // relations between a span and one of its subspans
            S t = s.subspan((I)a, (I)(b - a)); HX_CHECK(s.is_subspan(t), "is_subspan", "[%zu,%zu) of %zu", a, b, m.size);
            if(b > a && (a > 0 || b < m.size)) HX_CHECK(!t.is_subspan(s), "is_subspan", "the whole is a subspan of its part");
            S l = s.compll(t), q = s.complr(t); agree(l, select<S>(m, 0, a), st); agree(q, select<S>(m, b, m.size - b), st);
            HX_CHECK(s.same_span(s) && s.same_span(t) == (a == 0 && b == m.size), "same_span", "same_span");
            { span<T, uint64_t> w(st.p + m.off + a, b - a), q2(st.p + m.off, m.size); HX_CHECK(s.same_span(w) == (a == 0 && b == m.size) && s.same_span(q2) && q2.same_span(s) && w.same_span(s) == (a == 0 && b == m.size), "same_span-index", "between index types: [%zu,%zu) of %zu", a, b, m.size); if(m.cap > 1 && m.size + a <= m.cap) { span<T, uint64_t> sh(st.p + m.off + a, m.size); HX_CHECK(s.same_span(sh) == (a == 0) && s.is_subspan(s), "same_span-index", "same size, %zu further", a); } }
            break; }
        case 11: { S d; HX_CHECK(d.size() == 0 && d.empty() && d.data() == nullptr && d.capacity() == 0, "default", "default constructed span is not empty"); if(r.chance(1, 8)) { s.clear(); m.size = 0; if(kind<S>::v == 0) m.cap = 0; } break; }
        case 12: if(r.chance(1, 3)) { size_t o = r.below(n), c = n - o; s.assign(st.p + o, (I)c); m = Model{o, c, c, o, c}; } break;
        case 13: { // disjoint pieces
            if(a < b && b < m.size) { S x = s.subspan((I)0, (I)a), y = s.subspan((I)b); if(a > 0) { HX_CHECK(!x.is_subspan(y) && !y.is_subspan(x), "is_subspan", "disjoint pieces"); agree(static_cast<S&>(x), select<S>(m, 0, a), st); S z = x.compll(y); HX_CHECK(z.empty(), "compll", "complement of a disjoint piece"); S w = y.complr(x); HX_CHECK(w.empty(), "complr", "complement of a disjoint piece"); } } break; }
        }
        agree(s, m, st); hx::seen(sig, m.size, m.cap);
    }
    // the storage holds what was written, nothing else
    for(size_t i = 0; i < n; ++i) HX_CHECK(st.p[i] == st.ref[i], "storage", "element %zu changed", i);
}
template<class T, class I> static void kinds(hx::Rng &r) { switch(r.below(3)) { case 0: history<span<T, I>, T>(r); break; case 1: history<spanrs<T, I>, T>(r); break; case 2: history<spanrsl<T, I>, T>(r); break; } }
SCENARIO(histories, 12000, 300000)
{
    SC_UNUSED();
    switch(r.below(6)) { case 0: kinds<char, size_t>(r); break; case 1: kinds<int, size_t>(r); break; case 2: kinds<Rec, size_t>(r); break; case 3: kinds<int, uint32_t>(r); break; case 4: kinds<char, uint8_t>(r); break; case 5: kinds<uint64_t, int>(r); break; }
}

template<class A, class B, class T> static void order(std::vector<T> const& x, std::vector<T> const& y)
{
    hx::Exact ex(x.size() * sizeof(T)), ey(y.size() * sizeof(T)); if(x.size()) memcpy(ex.p, x.data(), ex.n); if(y.size()) memcpy(ey.p, y.data(), ey.n);
    A a((T*)ex.p, (typename A::size_type)x.size()); B b((T*)ey.p, (typename B::size_type)y.size());
    HX_CHECK((a == b) == (x == y), "equal", "sizes %zu %zu", x.size(), y.size());
    HX_CHECK((a != b) == !(x == y), "not-equal", "sizes %zu %zu", x.size(), y.size());
    HX_CHECK((a < b) == (x < y), "less", "sizes %zu %zu", x.size(), y.size());
    HX_CHECK((a > b) == (y < x), "greater", "sizes %zu %zu", x.size(), y.size());
    HX_CHECK((a <= b) == !(y < x), "less-equal", "sizes %zu %zu", x.size(), y.size());
    HX_CHECK((a >= b) == !(x < y), "greater-equal", "sizes %zu %zu", x.size(), y.size());
    HX_CHECK(a == a && !(a < a), "reflexive", "reflexive");
    hx::seen(x.size(), y.size(), (uint64_t)((x < y) + 2 * (y < x)));
}
template<class T> static void orders(hx::Rng &r)
{
    std::vector<T> x, y; size_t n = std::min<size_t>(r.below(r.vast(10)), 65534); for(size_t i = 0; i < n; ++i) x.push_back(val<T>(r.below(3) + (r.chance(1, 5) ? 0x80 : 0))); y = x;
    switch(r.below(5)) { case 0: break; case 1: y.resize(r.below(n + 1)); break; case 2: if(n) y[r.below(n)] = val<T>(r.below(4)); break; case 3: y.push_back(val<T>(0)); break; default: y.clear(); for(size_t i = r.below(10); i; --i) y.push_back(val<T>(r.below(3))); }
    if(r.chance(1, 12)) { size_t k = x.size(); x = y; T v = val<T>(r.below(3)); y.resize(r.in(0, 255), v); x = y; x.resize(r.in(1, 8) * 64 + r.below(3) + k % 256, v); } // one longer than the other index type can tell
    if(r.coin()) std::swap(x, y);
    if(y.size() < 256 && r.chance(1, 3)) { order<span<T>, span<T, uint8_t>, T>(x, y); order<spanrs<T, uint8_t>, spanrsl<T>, T>(y, x); return; }
    switch(r.below(4)) { case 0: order<span<T>, span<T>, T>(x, y); break; case 1: order<span<T>, spanrs<T>, T>(x, y); break; case 2: order<spanrsl<T>, span<T, uint32_t>, T>(x, y); break; case 3: order<spanrs<T, uint16_t>, spanrsl<T>, T>(x, y); break; }
}
SCENARIO(ordering, 40000, 800000) { SC_UNUSED(); switch(r.below(3)) { case 0: orders<char>(r); break; case 1: orders<int>(r); break; case 2: orders<Rec>(r); break; } }

SCENARIO(constructors, 3000, 30000)
{
    SC_UNUSED();
    size_t n = r.below(20), c = n + r.below(20), o = r.below(7); hx::Exact e((o + c) * sizeof(int)); int *p = (int*)e.p + o;
    spanrs<int> rs(p, n, c); HX_CHECK(rs.data() == p && rs.size() == n && rs.capacity() == c, "spanrs", "constructor with capacity");
    rs.resize(c); HX_CHECK(rs.size() == c && rs.capacity() == c, "spanrs", "grow to capacity"); for(auto &x : rs) x = 3;
    rs.assign(p, n, c); HX_CHECK(rs.data() == p && rs.size() == n && rs.capacity() == c, "spanrs", "assign with capacity"); rs.assign(p, n); HX_CHECK(rs.size() == n && rs.capacity() == n, "spanrs", "assign resets the capacity");
    spanrsl<int> rl(p, n, c); HX_CHECK(rl.size() == n && rl.capacity() == c && rl.offset() == 0, "spanrsl", "constructor with capacity");
    rl = spanrsl<int>(p, n, c, o); HX_CHECK(rl.data() == p && rl.size() == n && rl.capacity() == c && rl.offset() == o, "spanrsl", "constructor with offset");
    auto g = rl.original(); HX_CHECK(g.data() == (int*)e.p && g.size() == o + c && g.capacity() == o + c, "spanrsl", "original of an offset span"); for(auto &x : g) x = 4;
    rl.assign(p, n, c, o); HX_CHECK(rl.data() == p && rl.size() == n && rl.capacity() == c && rl.offset() == o, "spanrsl", "assign with offset"); rl.assign(p, n, c); HX_CHECK(rl.capacity() == c && rl.offset() == 0, "spanrsl", "assign with capacity"); rl.assign(p, n); HX_CHECK(rl.capacity() == n && rl.offset() == 0, "spanrsl", "assign");
    int arr[7] = {0, 1, 2, 3, 4, 5, 6}; span<int> sa(arr); spanrs<int> sr(arr); spanrsl<int> sl(arr);
    HX_CHECK(sa.size() == 7 && sa.data() == arr && sr.size() == 7 && sr.capacity() == 7 && sr.data() == arr && sl.size() == 7 && sl.capacity() == 7 && sl.data() == arr, "array", "from array");
    sa = span<int>(p, n); sa.assign(arr); sr.assign(p, n); sr.assign(arr); sl.assign(p, n); sl.assign(arr); HX_CHECK(sa.size() == 7 && sr.capacity() == 7 && sl.capacity() == 7 && sl.offset() == 0 && sa.same_span(span<int>(sr)) && sa.same_span(span<int>(sl)) && sa.same_span(sr), "array", "assign array");
    cspan<int> ca = sa; cspanrs<int> cr = sr; HX_CHECK(ca.data() == arr && ca.size() == 7 && cr.data() == arr && cr.capacity() == 7, "const", "to const");
    HX_CHECK(sa.value_size() == sizeof(int) && sa.elm_size() == sizeof(int) && sa.type_size() == sizeof(int) && sa.byte_size() == 7 * sizeof(int), "sizes", "sizes");
    { spanrs<int> d1; spanrsl<int> d2; HX_CHECK(d1.data() == nullptr && d1.size() == 0 && d1.capacity() == 0 && d2.data() == nullptr && d2.size() == 0 && d2.capacity() == 0 && d2.offset() == 0, "default", "default constructed"); auto g2 = d2.original(); HX_CHECK(g2.size() == 0 && g2.capacity() == 0, "default", "original of a default constructed span"); }
    {   // from a list of values which outlives the span
        std::initializer_list<const int> il = {3, 1, 4, 1, 5}, jl = {2, 7};
        cspan<int> a1(c4::aggregate_t{}, il); cspanrs<int> a2(c4::aggregate_t{}, il); cspanrsl<int> a3(c4::aggregate_t{}, il);
        HX_CHECK(a1.data() == il.begin() && a1.size() == 5 && a2.data() == il.begin() && a2.size() == 5 && a2.capacity() == 5 && a3.data() == il.begin() && a3.size() == 5 && a3.capacity() == 5 && a3.offset() == 0, "list", "from a list of values");
        a3 = cspanrsl<int>(p, n, c, o); a1.assign(c4::aggregate_t{}, jl); a2.assign(c4::aggregate_t{}, jl); a3.assign(c4::aggregate_t{}, jl);
        HX_CHECK(a1.data() == jl.begin() && a1.size() == 2 && a2.data() == jl.begin() && a2.size() == 2 && a2.capacity() == 2 && a3.data() == jl.begin() && a3.size() == 2 && a3.capacity() == 2 && a3.offset() == 0, "list", "assigned from a list of values");
        int w = 0; for(int x : a1) w = w * 10 + x; HX_CHECK(w == 27, "list", "values");
    }
    hx::seen(n, c, o);
}

// extents which 32 bits cannot tell
template<class T, class S> static void far_t(hx::Rng &r, hx::Far &f)
{
    size_t n = hx::Far::len(r) / sizeof(T), a = n - 1 - r.below(100), k = r.below(n - a + 1); T *p = (T*)f.p; S s(p, n); hx::note("far: %zu elements, [%zu,+%zu)", n, a, k);
    HX_CHECK(s.size() == n && s.capacity() == n && s.end() - s.begin() == (std::ptrdiff_t)n && &s.back() == p + n - 1 && s.byte_size() == n * sizeof(T), "far", "%zu elements: size %zu", n, (size_t)s.size());
    auto is = [&](const char *w, S const& g, size_t o, size_t m) { HX_CHECK(g.data() == p + o && g.size() == m, "far-slice", "%s: [%td,+%zu) instead of [%zu,+%zu) of %zu", w, g.data() - p, (size_t)g.size(), o, m, n); };
    is("subspan", s.subspan(a, k), a, k); is("subspan", s.subspan(a), a, n - a); is("range", s.range(a, a + k), a, k); is("range", s.range(a), a, n - a); is("first", s.first(a), 0, a); is("last", s.last(a), n - a, a);
    { S t = s.subspan(a, k); HX_CHECK(s.is_subspan(t) && !t.is_subspan(s) && !s.same_span(t), "far-relation", "relations"); is("compll", s.compll(t), 0, a); is("complr", s.complr(t), a + k, n - a - k); }
    { S t = s; t.ltrim(a); is("ltrim", t, a, n - a); t = s; t.rtrim(a); is("rtrim", t, 0, n - a); t = s; t.resize(a); is("resize", t, 0, a); HX_CHECK(t.capacity() == (kind<S>::v == 0 ? a : n), "far-capacity", "capacity %zu", (size_t)t.capacity()); t = s; t.ltrim(a); HX_CHECK(t.capacity() == n - a, "far-capacity", "capacity %zu", (size_t)t.capacity()); }
    { p[a] = val<T>(9); f.touched(a * sizeof(T), sizeof(T)); HX_CHECK(s[a] == val<T>(9) && *(s.begin() + (std::ptrdiff_t)a) == val<T>(9) && *(s.rbegin() + (std::ptrdiff_t)(n - 1 - a)) == val<T>(9), "far-index", "element %zu", a); }
    size_t q = n % 4096; span<T> sh(p, q < 50 ? q : 3); HX_CHECK(!(s == sh) && s != sh && sh < s && !(s < sh) && s > sh && sh <= s && s >= sh, "far-order", "%zu elements against their first %zu", n, (size_t)sh.size());
    hx::seen(n, a, k);
}
SCENARIO(far, 300, 6000)
{
    SC_UNUSED(); hx::Far f; if(!f) { hx::count("no_far_memory"); return; }
    switch(r.below(6)) { case 0: far_t<char, span<char>>(r, f); break; case 1: far_t<char, spanrs<char>>(r, f); break; case 2: far_t<char, spanrsl<char>>(r, f); break; case 3: far_t<char, span<char, uint64_t>>(r, f); break; case 4: far_t<uint16_t, span<uint16_t>>(r, f); break; default: far_t<int, spanrsl<int>>(r, f); }
}
int main(int argc, char **argv) { return hx::main_(argc, argv, "distinct histories of span operations with resulting extents, and distinct order situations"); }

// C23: error reporting: exactly one intact report, scoped settings, and misuse caught before any out-of-bounds access
#include "hx.hpp"
#include <c4/substr.hpp>
#include <c4/span.hpp>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/base64.hpp>
#include <c4/utf.hpp>
#include <c4/enum.hpp>
#include <c4/memory_util.hpp>
#include <c4/ctor_dtor.hpp>
#include <stdexcept>
#include <sys/wait.h>
using namespace c4;

// ------------------------------------------------------------------ messages
struct Report { int calls; std::string msg; size_t len; bool terminated; };
static Report g_rep; static jmp_buf g_jb; static int g_exit; // 0: longjmp, 1: exception
struct Leave {};
static void record(const char *m, size_t n) { g_rep.calls++; g_rep.len = n; g_rep.terminated = m[n] == 0; g_rep.msg.assign(m, n); }
static void cb0(const char *m, size_t n) { record(m, n); if(g_exit) throw Leave(); longjmp(g_jb, 1); }
template<class F> static bool report(F const& f) // whether control left through the callback
{
    g_rep = Report();
    if(setjmp(g_jb)) return true;
    try { f(); } catch(Leave const&) { return true; }
    return false;
}
static std::string text(hx::Rng &r, size_t n) { std::string s(n, ' '); for(auto &c : s) c = (char)(33 + r.below(94)); return s; }
static size_t length(hx::Rng &r)
{
    switch(r.below(6)) { case 0: return r.below(40); case 1: return 1016 + r.below(16); case 2: return 500 + r.below(40); case 3: return r.below(1024); case 4: return 1023 + r.below(4000); default: return r.below(300); }
}
// the whole message, or a long prefix when it does not fit
static void judge(std::string const& full, const char *what)
{
    HX_CHECK(g_rep.calls == 1, "calls", "%s: the callback was called %d times", what, g_rep.calls);
    HX_CHECK(g_rep.terminated && strlen(g_rep.msg.c_str()) == g_rep.len, "terminated", "%s: reported length %zu, text has %zu", what, g_rep.len, strlen(g_rep.msg.c_str()));
    if(full.size() <= 1023) { HX_CHECK(g_rep.msg == full, "message", "%s: got %s expected %s", what, hx::esc(g_rep.msg).c_str(), hx::esc(full).c_str()); hx::count("whole_messages"); }
    else { HX_CHECK(g_rep.len >= 1000 && g_rep.len < full.size() && full.compare(0, g_rep.len, g_rep.msg) == 0, "truncated", "%s: a message of %zu was reported with %zu: %s", what, full.size(), g_rep.len, hx::esc(g_rep.msg).c_str()); hx::count("truncated_messages"); }
}
SCENARIO(messages, 20000, 200000)
{
    SC_UNUSED();
    ScopedErrorSettings guard((error_flags)ON_ERROR_CALLBACK, cb0);
    g_exit = (int)r.below(2); size_t n = length(r); std::string s = text(r, n); int i = (int)r.u64(); size_t z = r.u64(); char b[8192];
    size_t kind = r.below(7); hx::note("message kind %zu text %zu exit %d", kind, n, g_exit);
    bool left = false; std::string full; const char *cs = s.c_str(); bool cond = false; int evals = 0; volatile int seven = 7, two = 2;
    switch(kind)
    {
    case 0: left = report([&]{ C4_ERROR("%s", cs); }); full = s; break;
    case 1: left = report([&]{ C4_ERROR("i=%d z=%zu s='%s'!", i, z, cs); }); snprintf(b, sizeof(b), "i=%d z=%zu s='%s'!", i, z, cs); full = b; break;
    case 2: left = report([&]{ C4_CHECK(cond && (++evals)); }); full = "check failed: cond && (++evals)"; break;
    case 3: left = report([&]{ C4_CHECK_MSG((++evals, cond), "%s%d", cs, i); }); snprintf(b, sizeof(b), "check failed: (++evals, cond)\n%s%d", cs, i); full = b; break;
    case 4: left = report([&]{ C4_CHECK_MSG(seven %two == 0, "%s %d %s", cs, i, "end"); }); snprintf(b, sizeof(b), "check failed: %s\n%s %d end", "seven %two == 0", cs, i); full = b; break;
    case 5: left = report([&]{ C4_NOT_IMPLEMENTED_MSG("%s", cs); }); full = "NOT IMPLEMENTED: " + s; break;
    default: left = report([&]{ C4_NEVER_REACH_MSG("%s", cs); }); full = "never reach this point: " + s; break;
    }
    HX_CHECK(left, "unreported", "the error did not reach the callback");
    judge(full, "error");
    if(kind == 3) HX_CHECK(evals == 1, "evaluated", "the condition was evaluated %d times", evals);
    hx::seen(kind, std::min(full.size(), (size_t)1040), (uint64_t)g_exit);
    // a check which holds reports nothing, and evaluates its condition once
    evals = 0; left = report([&]{ C4_CHECK((++evals) == 1); C4_CHECK_MSG((++evals) == 2, "%s", cs); C4_NOT_IMPLEMENTED_IF(false); });
    HX_CHECK(!left && g_rep.calls == 0 && evals == 2, "holds", "a check which holds: left %d calls %d evaluations %d", left, g_rep.calls, evals);
    evals = 0; left = report([&]{ C4_ASSERT((++evals) == 1); C4_XASSERT((++evals) == 2); });
#ifdef NDEBUG
    HX_CHECK(!left && evals == 0, "assert-off", "a disabled assertion: evaluations %d", evals);
#else
    HX_CHECK(!left && g_rep.calls == 0 && evals == 2, "assert-on", "an assertion which holds: left %d evaluations %d", left, evals);
    left = report([&]{ C4_ASSERT_MSG(evals == 99, "%s", cs); }); HX_CHECK(left, "assert-on", "a failed assertion was not reported"); judge("check failed: evals == 99\n" + s, "assertion");
    left = report([&]{ C4_XASSERT(evals == 99); }); HX_CHECK(left, "assert-on", "a failed assertion was not reported"); judge("check failed: evals == 99", "assertion");
#endif
#if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
    {
        ScopedErrorSettings g2((error_flags)ON_ERROR_THROW); bool threw = false; std::string what;
        try { C4_ERROR("%s", cs); } catch(std::runtime_error const& e) { threw = true; what = e.what(); }
        HX_CHECK(threw && (n <= 1023 ? what == s : s.compare(0, what.size(), what) == 0 && what.size() >= 1000), "thrown", "thrown %d message of %zu: %s", threw, n, hx::esc(what).c_str());
    }
#endif
}

// ------------------------------------------------------------------ scoped settings
static void cbA(const char *m, size_t n) { record(m, n); g_rep.msg = "A"; if(g_exit) throw Leave(); longjmp(g_jb, 1); }
static void cbB(const char *m, size_t n) { record(m, n); g_rep.msg = "B"; if(g_exit) throw Leave(); longjmp(g_jb, 1); }
static void cbC(const char *m, size_t n) { record(m, n); g_rep.msg = "C"; if(g_exit) throw Leave(); longjmp(g_jb, 1); }
static const error_callback_type cbs[] = {cbA, cbB, cbC};
static const char *cb_name(error_callback_type c) { return c == cbA ? "A" : c == cbB ? "B" : c == cbC ? "C" : "?"; }
struct Unwind { int levels; };
static void expect_settings(error_flags f, error_callback_type c, const char *when)
{
    HX_CHECK(get_error_flags() == f, "flags", "%s: flags %x, not %x", when, (unsigned)get_error_flags(), (unsigned)f);
    HX_CHECK(get_error_callback() == c, "callback", "%s: callback %s, not %s", when, cb_name(get_error_callback()), cb_name(c));
}
static error_flags some_flags(hx::Rng &r) { return (error_flags)(ON_ERROR_CALLBACK | (r.coin() ? ON_ERROR_ABORT : 0) | (r.coin() ? ON_ERROR_DEBUGBREAK : 0)); }
static void nest(hx::Rng &r, int depth, error_flags f, error_callback_type c)
{
    size_t steps = r.below(4) + (depth == 0);
    for(size_t k = 0; k < steps; ++k)
    {
        switch(r.below(5))
        {
        case 0: { f = some_flags(r); set_error_flags(f); expect_settings(f, c, "after set_error_flags"); break; }
        case 1: { c = r.pick(cbs); set_error_callback(c); expect_settings(f, c, "after set_error_callback"); break; }
        case 2:
        {
            // not across a longjmp: only the innermost handler is interrupted
            g_exit = 1; bool left = report([&]{ C4_ERROR("x"); });
            HX_CHECK(left && g_rep.calls == 1 && g_rep.msg == cb_name(c), "innermost", "left %d, %d calls, %s instead of %s", left, g_rep.calls, g_rep.msg.c_str(), cb_name(c));
            expect_settings(f, c, "after an error"); hx::count("errors_in_scopes"); break;
        }
        default:
            if(depth > 6) break;
            size_t how = r.below(3); error_flags nf = some_flags(r); error_callback_type nc = r.pick(cbs); size_t exitk = r.below(4);
            hx::count("scopes"); hx::seen(how, exitk, (uint64_t)depth, k);
            try
            {
                if(how == 0) { ScopedErrorSettings g(nf); expect_settings(nf, c, "in scope(flags)"); nest(r, depth + 1, nf, c); if(exitk == 0) throw Unwind{1}; if(exitk == 1) { C4_ERROR("leave"); } }
                else if(how == 1) { ScopedErrorSettings g(nc); expect_settings(f, nc, "in scope(callback)"); g_exit = 1; nest(r, depth + 1, f, nc); if(exitk == 0) throw Unwind{1}; if(exitk == 1) { g_exit = 1; C4_ERROR("leave"); } }
                else { ScopedErrorSettings g(nf, nc); expect_settings(nf, nc, "in scope(flags,callback)"); nest(r, depth + 1, nf, nc); if(exitk == 0) throw Unwind{1}; if(exitk == 1) { g_exit = 1; C4_ERROR("leave"); } }
            }
            catch(Unwind const&) { hx::count("scopes_left_by_exception"); }
            catch(Leave const&) { hx::count("scopes_left_by_error"); }
            expect_settings(f, c, exitk == 0 ? "after a scope left by exception" : exitk == 1 ? "after a scope left by an error" : "after a scope");
        }
    }
}
SCENARIO(scopes, 6000, 100000)
{
    SC_UNUSED();
    error_flags f0 = get_error_flags(); error_callback_type c0 = get_error_callback(); g_exit = 1;
    hx::note("nested scopes");
    { ScopedErrorSettings g((error_flags)ON_ERROR_CALLBACK, cbA); g_exit = 1; nest(r, 0, ON_ERROR_CALLBACK, cbA); }
    HX_CHECK(get_error_flags() == f0 && get_error_callback() == c0, "restored", "the outermost settings were not restored");
    set_error_flags(f0); set_error_callback(c0);
}

// ------------------------------------------------------------------ what a process which does not handle the error sees
static int g_child_calls; static std::string g_child_msg;
static void cb_child(const char *m, size_t n) { ++g_child_calls; g_child_msg.assign(m, n); } // returns: the process must end anyway
static void on_abrt(int) { _exit(40 + (g_child_calls < 9 ? g_child_calls : 9)); }
static std::string slurp(int fd) { std::string s; lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t n; while((n = read(fd, b, sizeof(b))) > 0) s.append(b, (size_t)n); return s; }
static size_t occurrences(std::string const& h, std::string const& n) { size_t c = 0, p = 0; while((p = h.find(n, p)) != std::string::npos) { ++c; p += n.size(); } return c; }
static int scratch_fd() { char name[] = "/tmp/hx23.XXXXXX"; int fd = mkstemp(name); if(fd >= 0) unlink(name); return fd; }
// a place in the source: that of the call, or any other (generated code names other files, and has many lines)
static std::string g_place; static char g_file[512];
#if defined(C4_ERROR_SHOWS_FILELINE)
static std::string place_of(srcloc s) { return hx::fmt("%s:%d: ", s.file, s.line); }
#else
static std::string place_of(srcloc) { return ""; }
#endif
static srcloc place(hx::Rng &r, srcloc here)
{
    #if defined(C4_ERROR_SHOWS_FILELINE)
    if(r.coin())
    {
        static const int lines[] = {1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 99999, 100000, 1000000, 16777216, 2147483647};
        std::string f; size_t n = 1 + r.below(r.chance(1, 4) ? 400 : 30); for(size_t i = 0; i < n; ++i) f += "abcXYZ019_-./ %s\xc3\xa9"[r.below(18)];
        memcpy(g_file, f.c_str(), f.size() + 1); here.file = g_file; here.line = r.coin() ? r.pick(lines) : 1 + (int)r.below(200000);
    }
    #endif
    g_place = place_of(here); return here;
}
SCENARIO(unhandled, 400, 4000)
{
    SC_UNUSED();
    std::string s = "<" + text(r, r.chance(1, 4) ? 1010 + r.below(40) : r.below(200)); error_flags f = 0; bool have_cb = r.coin();
    if(r.coin()) f |= ON_ERROR_LOG; if(r.coin()) f |= ON_ERROR_CALLBACK; if(r.coin()) f |= ON_ERROR_ABORT; if(r.coin()) f |= ON_ERROR_DEBUGBREAK;
    hx::note("unhandled flags=%x callback=%d text=%zu", (unsigned)f, have_cb, s.size());
    int fd = scratch_fd(); if(fd < 0) return;
    srcloc here = C4_SRCLOC(); auto by_macro = [&]{ C4_ERROR("%s", s.c_str()); }; bool macro = r.coin(); srcloc where = here; // (on one line)
    if(macro) g_place = place_of(here); else where = place(r, here);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork(); if(pid < 0) { close(fd); return; }
    if(pid == 0)
    {
        dup2(fd, 2); signal(SIGABRT, on_abrt); g_child_calls = 0; set_error_callback(have_cb ? cb_child : nullptr); set_error_flags(f);
        if(macro) by_macro(); else handle_error(where, "%s", s.c_str());
        _exit(33); // an error which is not handled must not continue
    }
    int stt = 0; while(waitpid(pid, &stt, 0) < 0) {}
    int code = WIFEXITED(stt) ? WEXITSTATUS(stt) : -1; int calls = (f & ON_ERROR_CALLBACK) && have_cb ? 1 : 0;
    HX_CHECK(code == 40 + calls, "ended", "flags %x: the process ended with %d, not by abort after %d callbacks", (unsigned)f, code, calls);
    std::string log = slurp(fd); close(fd);
    std::string shown = s.substr(0, 1000);
    HX_CHECK(occurrences(log, shown) == ((f & ON_ERROR_LOG) ? 1u : 0u), "logged", "flags %x: the message was logged %zu times", (unsigned)f, occurrences(log, shown));
    if(f & ON_ERROR_LOG) HX_CHECK(occurrences(log, "\n" + g_place + "ERROR: " + shown) == 1 && (s.size() > 1023 || log.find(s + "\n") != std::string::npos), "log-text", "log is %s", hx::esc(log).c_str());
    hx::seen(f, have_cb, s.size() > 1023); hx::count("processes");
}
SCENARIO(warnings, 400, 4000)
{
    SC_UNUSED();
    ScopedErrorSettings guard((error_flags)(r.coin() ? ON_ERROR_CALLBACK : ON_ERROR_DEFAULTS), cb0);
    std::string s = "<" + text(r, r.chance(1, 4) ? 1010 + r.below(40) : r.below(300)); int fd = scratch_fd(); if(fd < 0) return;
    hx::note("warning of %zu", s.size()); g_exit = 1; const char *cs = s.c_str();
    fflush(stderr); int old = dup(2); dup2(fd, 2);
    srcloc here = C4_SRCLOC(); auto by_macro = [&]{ C4_WARNING("%s", cs); }; bool macro = r.coin(); srcloc where = here; // (on one line)
    if(macro) g_place = place_of(here); else where = place(r, here);
    bool left = report([&]{ if(macro) by_macro(); else handle_warning(where, "%s", cs); });
    fflush(stderr); dup2(old, 2); close(old); std::string log = slurp(fd); close(fd);
    HX_CHECK(!left && g_rep.calls == 0, "warning-calls", "a warning called the error callback");
    HX_CHECK(occurrences(log, s.substr(0, 1000)) == 1 && occurrences(log, "\n" + g_place + "WARNING: " + s.substr(0, 1000)) == 1 && (s.size() > 1023 || log.find(s + "\n") != std::string::npos), "warning-log", "log is %s", hx::esc(log).c_str());
    hx::seen(s.size());
}

// ------------------------------------------------------------------ misuse
#ifndef NDEBUG
static const size_t NP = csubstr::npos;
static void use(csubstr s) { volatile char k = 0; volatile size_t n = s.len; (void)n; for(size_t i = 0; i < s.len && i < 64; ++i) k = s.str[i]; (void)k; }
template<class F> static void must_raise(const char *op, F const& f)
{
    bool rz = hx::raises(f); hx::count("misuses");
    HX_CHECK(rz, op, "misuse was not reported");
}
// an offset or count, often around the length, npos and the wrap-around points
static size_t arg(hx::Rng &r, size_t len)
{
    switch(r.below(8)) { case 0: return NP; case 1: return NP - r.below(4); case 2: return NP / 2 + r.below(3) - 1; case 3: return len; case 4: return len + 1 + r.below(3); case 5: return NP - len - 1 + r.below(5); default: return r.below(len + 2); }
}
#define MIS(op, bad, ...) case __COUNTER__: { if(!(bad)) return; hx::note("%s len=%zu a=%zx b=%zx", op, L, a, b); must_raise(op, [&]{ __VA_ARGS__; }); hx::seen((uint64_t)which, L, a, b); break; }
enum { base_counter = __COUNTER__ };
SCENARIO(misuse_views, 60000, 600000)
{
    SC_UNUSED();
    std::string init = r.str(12, "abc012"); hx::Exact mem(init); const size_t L = init.size(); substr s(mem.p, L); csubstr c(mem.p, L);
    size_t a = arg(r, L), b = arg(r, L); bool inc = r.coin(); char sepc = 'a';
    const size_t nops = 40; size_t which = r.below(nops); char tmpbuf[8]; substr dst(tmpbuf, sizeof(tmpbuf)); csubstr foreign("abc012abc012");
    volatile char k = 0; const bool cst = r.coin(); (void)k;
    switch((int)which + base_counter + 1)
    {
    MIS("index", a >= L, if(cst) k = c[a]; else s[a] = 'x')
    MIS("front", L == 0, if(cst) k = c.front(); else s.front() = 'x')
    MIS("back", L == 0, if(cst) k = c.back(); else s.back() = 'x')
    MIS("sub1", a > L, use(s.sub(a)))
    MIS("sub2", (b == NP ? a > L : (a > L || b > L - a)), use(c.sub(a, b)))
    MIS("range", a > L || (b != NP && (b > L || a > b)), use(c.range(a, b)))
    MIS("first", a != NP && a > L, use(c.first(a)))
    MIS("last", a != NP && a > L, use(c.last(a)))
    MIS("offs", a > L || b > L - a, use(c.offs(a, b)))
    MIS("left_of", a != NP && a > L, use(c.left_of(a)))
    MIS("left_of_inc", a != NP && (a > L || a + inc > L), use(c.left_of(a, inc)))
    MIS("right_of", a != NP && a >= L, use(c.right_of(a)))
    MIS("right_of_inc", a != NP && (a > L || a + !inc > L), use(c.right_of(a, inc)))
    MIS("left_of_foreign", true, use(c.left_of(foreign)))
    MIS("right_of_foreign", true, use(c.right_of(foreign)))
    MIS("erase", a > L || b > L - a, use(s.erase(a, b)))
    MIS("erase_range", a > b || b > L, use(s.erase_range(a, b)))
    MIS("erase_foreign", true, use(s.erase(foreign)))
    MIS("reverse_sub", a > L || b > L - a, s.reverse_sub(a, b))
    MIS("reverse_range", a > L || b > L, s.reverse_range(a, b))
    MIS("copy_from", a > L, s.copy_from(foreign, a))
    MIS("copy_from_num", a > L || (b != NP && std::min(b, foreign.len) > L - a), s.copy_from(foreign, a, b))
    MIS("find", a != NP && a > L, volatile size_t n = c.find(foreign.first(2), a); (void)n)
    MIS("find_char", a != NP && a > L, volatile size_t n = c.find('a', a); (void)n)
    MIS("first_of", a != NP && a > L, volatile size_t n = c.first_of("ab", a); (void)n)
    MIS("first_not_of", a != NP && a > L, volatile size_t n = c.first_not_of("ab", a); (void)n)
    MIS("last_of", a != NP && a > L, volatile size_t n = c.last_of("ab", a); (void)n)
    MIS("last_of_char", a != NP && a > L, volatile size_t n = c.last_of('a', a); (void)n)
    MIS("last_not_of", a != NP && a > L, volatile size_t n = c.last_not_of("ab", a); (void)n)
    MIS("first_not_of_char", a != NP && a > L, volatile size_t n = c.first_not_of('a', a); (void)n)
    MIS("last_not_of_char", a != NP && a > L, volatile size_t n = c.last_not_of('a', a); (void)n)
    MIS("count", a != NP && a > L, volatile size_t n = c.count('a', a); (void)n)
    MIS("count_str", a != NP && a > L, volatile size_t n = c.count(foreign.first(2), a); (void)n)
    MIS("replace", a != NP && a > L, volatile size_t n = s.replace('a', 'b', a); (void)n)
    MIS("replace_chars", a != NP && a > L, volatile size_t n = s.replace("ab", 'c', a); (void)n)
    MIS("replace_all_pos", a != NP && a > L, volatile size_t n = c.replace_all(dst, foreign.first(1), foreign, a); (void)n)
    MIS("replace_all_overlap", L > 0, volatile size_t n = c.replace_all(s, foreign.first(1), foreign.first(1)); (void)n)
    MIS("split", L > 0 && a > L, auto p = c.split(sepc, a); for(auto x : p) { use(x); break; })
    MIS("null", a > 0, use(csubstr((const char*)nullptr, a)))
    MIS("backwards", L > 0, use(csubstr((const char*)s.end(), (const char*)s.begin())))
    default: hx::fail("harness", "operation %zu", which);
    }
    HX_CHECK(mem.str() == init, "misuse-wrote", "a reported misuse changed the buffer");
}
template<class I> static I sarg(hx::Rng &r, I n) { typedef std::numeric_limits<I> Lm; switch(r.below(6)) { case 0: return Lm::max(); case 1: return (I)(Lm::max() - (I)r.below(4)); case 2: return Lm::min(); case 3: return (I)((I)0 - (I)(1 + r.below(3))); case 4: return (I)(n + (I)r.below(3)); default: return (I)r.below((size_t)n + 2); } }
enum { base_counter2 = __COUNTER__ };
#define SMIS(op, bad, ...) case __COUNTER__: { if(!(bad)) return; hx::note("%s size=%lld a=%lld b=%lld", op, (long long)n, (long long)a, (long long)b); must_raise(op, [&]{ __VA_ARGS__; }); hx::seen(which + 100 * sizeof(I), (uint64_t)n, (uint64_t)a, (uint64_t)b); break; }
template<class Span, class I> static void touch(Span s) { volatile int k = 0; for(I i = 0; i < s.size() && i < 20; ++i) k = *(s.data() + i); (void)k; }
template<class Span, class I> static void span_misuse(hx::Rng &r, Span s, I n, I cap)
{
    I a = sarg<I>(r, r.coin() ? n : cap), b = sarg<I>(r, n); volatile int k = 0; (void)k; Span const& c = s; const bool cst = r.coin();
    typedef __int128 W; const W A = (W)a, B = (W)b, N = (W)n;
    size_t which = r.below(12);
    switch((int)which + base_counter2 + 1)
    {
    SMIS("span-index", A < 0 || A >= N, if(cst) k = c[a]; else s[a] = 1)
    SMIS("span-front", N == 0, if(cst) k = c.front(); else s.front() = 1)
    SMIS("span-back", N == 0, if(cst) k = c.back(); else s.back() = 1)
    SMIS("span-subspan2", A < 0 || B < 0 || A + B > N, touch<Span, I>(s.subspan(a, b)))
    SMIS("span-subspan1", A < 0 || A > N, touch<Span, I>(s.subspan(a)))
    SMIS("span-range2", A < 0 || B < A || B > N, touch<Span, I>(s.range(a, b)))
    SMIS("span-range1", A < 0 || A > N, touch<Span, I>(s.range(a)))
    SMIS("span-first", A < 0 || A > N, touch<Span, I>(s.first(a)))
    SMIS("span-last", A < 0 || A > N, touch<Span, I>(s.last(a)))
    SMIS("span-resize", A < 0 || A > (W)cap, s.resize(a); touch<Span, I>(s))
    SMIS("span-rtrim", A < 0 || A > N, s.rtrim(a); touch<Span, I>(s))
    SMIS("span-ltrim", A < 0 || A > N, s.ltrim(a); touch<Span, I>(s))
    }
}
template<class I> static void spans(hx::Rng &r)
{
    size_t cap = r.below(10), n = r.below(cap + 1); hx::Exact mem(cap * sizeof(int)); int *p = (int*)mem.p; std::string init = mem.str();
    if(cap == 0) return;
    switch(r.below(3)) { case 0: span_misuse<span<int, I>, I>(r, span<int, I>(p, (I)n), (I)n, (I)n); break; case 1: span_misuse<spanrs<int, I>, I>(r, spanrs<int, I>(p, (I)n, (I)cap), (I)n, (I)cap); break; default: span_misuse<spanrsl<int, I>, I>(r, spanrsl<int, I>(p, (I)n, (I)cap), (I)n, (I)cap); }
    HX_CHECK(mem.str() == init, "misuse-wrote", "a reported misuse changed the elements");
}
SCENARIO(misuse_spans, 60000, 600000)
{
    SC_UNUSED();
    switch(r.below(5)) { case 0: spans<size_t>(r); break; case 1: spans<int>(r); break; case 2: spans<int64_t>(r); break; case 3: spans<uint32_t>(r); break; default: spans<short>(r); }
}
enum EnX { EX_A, EX_B };
namespace c4 { template<> const EnumSymbols<EnX> esyms<EnX>() { static const EnumSymbols<EnX>::Sym syms[] = {{EX_A, "EX_A"}, {EX_B, "EX_B"}}; return EnumSymbols<EnX>(syms); } }
template<class T> static void unchecked(hx::Rng &r)
{
    T v = (T)r.interesting(); if(v < 0) v = (T)0; unsigned d; hx::Exact *buf; size_t which = r.below(4);
    d = which == 0 ? digits_dec(v) : which == 1 ? digits_hex(v) : which == 2 ? digits_oct(v) : digits_bin(v);
    size_t have = r.below(d); buf = new hx::Exact(have); substr s(buf->p, have);
    hx::note("write unchecked %zu digits %u buffer %zu", which, d, have);
    must_raise("write-unchecked", [&]{ switch(which) { case 0: write_dec_unchecked(s, v, d); break; case 1: write_hex_unchecked(s, v, d); break; case 2: write_oct_unchecked(s, v, d); break; default: write_bin_unchecked(s, v, d); } });
    hx::seen(which, d, have); delete buf;
}
SCENARIO(misuse_conversions, 20000, 200000)
{
    SC_UNUSED();
    switch(r.below(9))
    {
    case 0: switch(r.below(4)) { case 0: unchecked<uint64_t>(r); break; case 1: unchecked<uint8_t>(r); break; case 2: unchecked<int32_t>(r); break; default: unchecked<int64_t>(r); } break;
    case 1: { int radix = (int)r.below(40); if(radix == 2 || radix == 8 || radix == 10 || radix == 16) return; hx::Exact m(80); substr s(m.p, m.n); hx::note("radix %d", radix); int v = (int)r.u64(); bool u = r.coin(); size_t pad = r.below(10); bool p = r.coin();
              must_raise("radix", [&]{ if(u) { if(p) utoa(s, (unsigned)v, (unsigned)radix, pad); else utoa(s, (unsigned)v, (unsigned)radix); } else { if(p) itoa(s, v, radix, pad); else itoa(s, v, radix); } }); hx::seen((uint64_t)radix, u, p); break; }
    case 2: { std::string init = text(r, 8 + r.below(8)); hx::Exact m(init); size_t a = r.below(4), n = 4 + r.below(4); substr dst(m.p + a, n); csubstr src(m.p + r.below(4), 4 + r.below(4)); hx::note("to_chars overlapping"); must_raise("to_chars-overlap", [&]{ to_chars(dst, src); }); HX_CHECK(m.str() == init, "misuse-wrote", "changed the buffer"); hx::seen(a, n, (uint64_t)(src.str - m.p), src.len); break; }
    case 3: { hx::Exact m(r.below(4)); uint32_t code = (uint32_t)r.below(0x110000); hx::note("code point in %zu", m.n); must_raise("utf-small", [&]{ decode_code_point((uint8_t*)m.p, m.n, code); }); must_raise("utf-small", [&]{ decode_code_point(substr(m.p, m.n), csubstr("10ffff")); }); hx::seen(m.n, code > 0x7f, code > 0x7ff, code > 0xffff); break; }
    case 4: { size_t al = 1 + r.below(70); if((al & (al - 1)) == 0) al = 0; int v = 3; hx::note("raw alignment %zu", al); must_raise("raw-alignment", [&]{ auto w = fmt::raw(cblob(&v, sizeof(v)), al); volatile size_t k = w.alignment; (void)k; }); hx::seen(al); break; }
    case 5: { size_t i = 2 + r.below(r.coin() ? 3 : ~size_t(0) - 3); hx::note("enum symbol %zu", i); must_raise("enum-index", [&]{ auto e = esyms<EnX>(); volatile int k = (int)e[i].value; (void)k; }); hx::seen(i); break; }
    case 6: { std::string init = text(r, 30); hx::Exact m(init); size_t ps = 1 + r.below(6), n = 1 + r.below(4), po = r.below(ps * n); hx::note("mem_repeat overlapping"); must_raise("repeat-overlap", [&]{ mem_repeat(m.p, m.p + po, ps, n); }); HX_CHECK(m.str() == init, "misuse-wrote", "changed the buffer"); hx::seen(ps, n, po); break; }
    case 7: { std::string e = r.str(12, "ABcd01+/"); if(e.size() % 4 == 0) e += "A"; hx::Exact m(e); hx::Exact out(64); hx::note("base64 of %zu chars", e.size()); must_raise("base64-length", [&]{ base64_decode(csubstr(m.p, m.n), blob(out.p, out.n)); }); hx::seen(e.size()); break; }
    default: { int buf[10] = {0}; size_t bs = r.below(10), cur = r.below(bs + 1), room = bs - cur + 1 + r.below(4), pos = r.below(cur + 1); hx::note("make_room %zu/%zu room %zu pos %zu", cur, bs, room, pos); must_raise("make_room", [&]{ make_room(buf, bs, cur, pos, room); }); size_t n = 1 + r.below(9), rm = n + 1 + r.below(5); must_raise("destroy_room", [&]{ destroy_room(buf, n, rm); }); hx::seen(bs, cur, room, pos); break; }
    }
}
#endif

int main(int argc, char **argv) { return hx::main_(argc, argv, "(kind of report, message length, exit path) and (misused operation, sizes, arguments)"); }

//! time_quick: 100
//! time_thorough: 850
//! bound: messages: strings of up to 3 symbolic bytes, and of 29 to 300 with one symbolic, numbers, undefined, arrays, maps; back traces of up to 2 (thorough 3) lines of every arrangement of parentheses, plus sign, symbolic characters, mangled and unmangled names, names longer than the buffer; a back trace that fails
//! assume: the demangler is replaced by one for names of the form _Z<length><name>v
#include "common.h"
static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static bool starts(const char* s, const char* p, long n) { bool ok = true; for (long i = 0; i < n; i++) { if (!s[i]) { CHECK(false, "the description is shorter than the message"); return false; } ok &= s[i] == p[i]; } return ok; }
static bool is_text(const char* s, const char* p) {
    size_t a = strlen(s), b = strlen(p); if (a != b) return false;
    bool ok = true; for (size_t i = 0; i < a; i++) ok &= s[i] == p[i];
    return ok;
}

HARNESS(messages) {
    static const char* const L[] = {"prog(_Z1fv+0x1) [0x2]"};
    __stub_backtrace_set(num("lines", 0, 1), L, num("fail", 0, 1));
    { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        var v; char x[64]; int n = 0, kind = num("kind", 0, 5);
        switch (kind) {
        case 0: { x[n++] = '"'; int m = num("len", 0, 3); char s[4]; for (int i = 0; i < m; i++) { s[i] = (char)__sym_range("char", 32, 126); __sym_assume(s[i] != '"' && s[i] != '\\' && s[i] != '/'); x[n++] = s[i]; } x[n++] = '"'; v = var(m, s); break; }
        case 1: { int i = (int)__sym_range("number", 10, 99); x[n++] = (char)('0' + i / 10); x[n++] = (char)('0' + i % 10); v = i; break; }
        case 2: memcpy(x, "null", 4); n = 4; break;
        case 3: v["k"] = 1; break;
        case 4: v.push("a"); v.push(2); break;
        case 5: { v = (const char*)"a string that is longer than the 64 characters a small buffer may have"; break; }
        }
        if (kind > 2) { varstream vs; vs << v; var y = vs.str(); error e(v); CHECK(starts(e.what(), y.str(), y.size()), "the message as it would be printed"); error f(e); CHECK(is_text(f.what(), e.what()), "a copy describes itself alike"); }
        else {
            error e(v); CHECK(starts(e.what(), x, n), "the message as it would be printed");
            if (kind == 2) CHECK(!v.defined(), "message left alone");
            error f(e); CHECK(is_text(f.what(), e.what()), "a copy describes itself alike");
            { error g("other"); CHECK(!is_text(g.what(), e.what()), "another error"); g = e; f = g; }
            CHECK(starts(f.what(), x, n), "a copy of a copy that is gone");
        }
        // thrown and caught
        bool got = false;
        try { throw error(v); } catch (std::exception& e) { got = true; if (kind <= 2) CHECK(starts(e.what(), x, n), "caught as a standard exception"); }
        CHECK(got, "caught");
        // by value, outliving the message
        error* p = 0;
        { var w = v.defined() && v.heap() ? v.copy() : v; try { throw error(w); } catch (error e) { p = new error(e); } }
        if (kind <= 2) CHECK(starts(p->what(), x, n), "valid as long as the error lives");
        delete p;
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("messages end");
}
// one line of a back trace and the name it should be given as (0: ends the list)
static char line[3][160], want[3][160]; static const char* lines[3];
static bool a_line(int i) {
    char* l = line[i]; char* w = want[i]; int n = 0, k = 0; bool last = false;
    auto put = [&](const char* s) { while (*s) l[n++] = *s++; };
    auto exp = [&](const char* s) { while (*s) w[k++] = *s++; };
    char c = (char)__sym_range("char", 33, 126); __sym_assume(c != '(' && c != ')' && c != '+' && c != '_');
    switch (num("form", 0, THOROUGH || i == 0 ? 10 : 7)) {
    case 0: put("prog(fn"); l[n++] = c; put("+0x1) [0x2]"); exp("fn"); w[k++] = c; break;
    case 1: put("prog(_Z2f"); l[n++] = c; put("v+0x1) [0x2]"); exp("f"); w[k++] = c; exp("()"); __sym_assume((c >= 'a' && c <= 'z')); break;
    case 2: put("prog() [0x2]"); exp("(undefined)"); last = true; break;
    case 3: put("prog [0x"); l[n++] = c; put("]"); exp(""); memcpy(w, l, n); k = n; break;
    case 4: put("prog(fn"); l[n++] = c; put(") [0x2]"); exp("fn"); w[k++] = c; break;
    case 5: put("prog(fn"); l[n++] = c; memcpy(w, l, n); k = n; break;                      // cut short
    case 6: exp(""); break;                                                           // nothing at all
    case 7: put("prog(_Z80"); for (int j = 0; j < 80; j++) { l[n++] = j ? 'x' : 'n'; w[k++] = j ? 'x' : 'n'; } put("v+0x1)"); exp("()"); break;
    case 8: put("a)b(fn"); l[n++] = c; put("+0x1)"); exp("fn"); w[k++] = c; break;
    case 9: put("prog(+0x1) [0x2]"); exp(""); break;
    case 10: put("prog(fn"); l[n++] = c; put(") + 1"); exp("fn"); w[k++] = c; break;
    }
    l[n] = 0; w[k] = 0; lines[i] = l;
    return last;
}
HARNESS(backtraces) {
    { __stub_backtrace_set(0, 0, 0); error warm("x"); }
    int k = num("lines", 0, THOROUGH ? 3 : 2), shown = k, undef = 0;
    for (int i = 0; i < k; i++) if (a_line(i) && !undef) { shown = i; undef = 1; }
    __stub_backtrace_set(k, lines, 0);
    long mk = __sym_leak_mark();
    {
        char x[700]; int n = 0; auto put = [&](const char* s) { while (*s) x[n++] = *s++; };
        put("\"msg\"\nCall stack (size "); x[n++] = (char)('0' + k); put("):");
        for (int i = 0; i < shown; i++) { put("\n  "); put(want[i]); }
        if (undef) put("(undefined)");
        x[n] = 0;
        error e("msg"); CHECK(is_text(e.what(), x), "the message and the functions called");
        __stub_backtrace_set(0, 0, 0);
        error f(e); CHECK(is_text(f.what(), x), "the same after copying");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("backtraces end");
}
HARNESS(longtrace) {
    // more calls than are looked at
    static const char* L[70]; for (int i = 0; i < 70; i++) L[i] = "p(fn+0)"; int k = num("calls", 62, 70);
    { __stub_backtrace_set(0, 0, 0); error warm("x"); }
    __stub_backtrace_set(k, L, 0);
    long mk = __sym_leak_mark();
    {
        error e("msg"); const char* w = e.what(); CHECK(starts(w, "\"msg\"", 5), "message");
        int c = 0; for (const char* p = w; *p; p++) if (p[0] == '\n' && p[1] == ' ') c++;
        CHECK(c == (k < 64 ? k : 64), "as many calls as fit");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("longtrace end");
}
// long messages: every character arrives
HARNESS(long_messages) {
    static const int N[] = {29, 30, 31, 61, 62, 63, 64, 65, 126, 127, 128, 200, 300};
    static const char* const L[] = {"prog(_Z1fv+0x1) [0x2]"};
    __stub_backtrace_set(num("lines", 0, 1), L, 0);
    { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        int n = N[num("len", 0, 12)], at = n - 1 - num("place", 0, 2) * (n / 3); char x[320]; int k = 0; char s[320];
        for (int i = 0; i < n; i++) s[i] = (char)('a' + i % 23);
        s[at] = (char)__sym_range("char", 32, 126); __sym_assume(s[at] != '"' && s[at] != '\\' && s[at] != '/');
        x[k++] = '"'; for (int i = 0; i < n; i++) x[k++] = s[i]; x[k++] = '"'; x[k] = 0;
        var v(n, s); error e(v); CHECK(starts(e.what(), x, k), "the message as it would be printed");
        error f(e); CHECK(is_text(f.what(), e.what()), "a copy describes itself alike");
        bool got = false; try { throw error(v); } catch (std::exception& g) { got = true; CHECK(starts(g.what(), x, k), "caught as a standard exception"); }
        CHECK(got, "caught"); str_check(v, s, n, "message left alone");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("long messages end");
}

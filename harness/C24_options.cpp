//! time_quick: 120
//! time_thorough: 850
//! bound: command lines of up to 3 (thorough 4) words or groups over two flags and three options with an argument (default a string, an integer, an empty string), flags together in one word, the argument attached or separate, operands before, between and after, '--', arguments and operands of up to 2 symbolic bytes (of 1 in the third word of the quick check); command lines of 9, 13 and 17 groups, one of them symbolic; the manual loop over command lines of up to 2 (thorough 3) words; a second command line parsed after the first; usage with few options
//! assume: valid command lines (glibc's getopt is replaced by a model of its documented behaviour, including the reordering of operands)
#include "common.h"
#include <lube/config.h>

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static char store[48][8]; static char* argv_[49]; static int argc_;
static char* word() { return argv_[argc_] = store[argc_], argc_++, argv_[argc_] = 0, argv_[argc_ - 1]; }
static int wordno, many_ = -1;
static void text(char* p, int lo) {
    if (many_ >= 0 && wordno != many_) { p[0] = (char)('a' + wordno); p[1] = 'x'; p[2] = 0; return; }
    if (many_ >= 0) { p[0] = (char)__sym_range("byte", 'a', 'z'); p[1] = (char)__sym_range("byte", '.', '9'); p[2] = 0; return; }
    int n = wordno < 2 ? num("len", lo, 2) : 1;
    for (int i = 0; i < n; i++) { p[i] = (char)__sym_range("byte", -128, 127); __sym_assume(p[i] != 0); }
    p[n] = 0;
}
// expected: options f g (flags), o p e (argument)
static const char OPT[] = "fgope";
static const char* given[5]; static bool flag[5]; static const char* operands[32]; static int ops;
static int order[64], events;
static void command(int words, int step = 1, int first = 0) {
    argc_ = 0; ops = 0; events = 0; for (int i = 0; i < 5; i++) given[i] = 0, flag[i] = false;
    strcpy(word(), "program");
    bool over = false;
    for (int i = 0; i < words; i++) {
        wordno = THOROUGH && many_ < 0 ? 0 : i;
        int k = over ? 0 : many_ >= 0 ? (i == words - 3 ? 6 : (i * step + first) % 6) : num("word", 0, 6);
        switch (k) {
        case 0: { char* w = word(); text(w, 0); if (!over && w[0] == '-') __sym_assume(w[1] == 0); operands[ops++] = w; break; }
        case 1: { char* w = word(); int f = many_ >= 0 ? i / 6 % 2 : num("flag", 0, 1); w[0] = '-'; w[1] = OPT[f]; w[2] = 0; flag[f] = true; order[events++] = f; break; }
        case 2: { char* w = word(); strcpy(w, "-gf"); flag[0] = flag[1] = true; order[events++] = 1; order[events++] = 0; break; }
        case 3: { char* w = word(); int o = many_ >= 0 ? 2 + i % 3 : num("option", 2, 4); w[0] = '-'; w[1] = OPT[o]; w[2] = 0; w = word(); text(w, 0); given[o] = w; order[events++] = o; break; }
        case 4: { char* w = word(); int o = many_ >= 0 ? 2 + i / 6 % 2 : num("option", 2, 3); w[0] = '-'; w[1] = OPT[o]; text(w + 2, 1); given[o] = w + 2; order[events++] = o; break; }
        case 5: { char* w = word(); strcpy(w, "-fo"); w = word(); text(w, 0); given[2] = w; flag[0] = true; order[events++] = 0; order[events++] = 2; break; }
        case 6: strcpy(word(), "--"); over = true; break;
        }
    }
}
static void declare(Option& o) {
    o('f', "a flag");
    o('o', "an option", "dflt");
    o("text between the options");
    o('p', "a number", 5);
    o('g', "another flag");
    o('e', "empty by default", "");
}
static void check(Option& o) {
    char* av[49]; memcpy(av, argv_, sizeof av);
    var m = o.parse(argc_, av);
    CHECK(m.size() == 5, "one entry per declared option");
    for (int i = 0; i < 5; i++) for (int k = 0; k < 2; k++) {
        var v = k ? o[OPT[i]] : m[var(OPT[i])];
        if (i < 2) { if (flag[i]) CHECK(v.defined() && !v.heap() && v.atype<int>() && v.get<int>() == 1, "flag given"); else CHECK(!v.defined(), "flag not given"); }
        else if (given[i]) str_check(v, given[i], (int)strlen(given[i]), "argument of an option");
        else if (i == 2) str_check(v, "dflt", 4, "default");
        else if (i == 3) CHECK(v.defined() && !v.heap() && v.atype<int>() && v.get<int>() == 5, "default");
        else str_check(v, "", 0, "default");
    }
    var a = o.args();
    CHECK(ops ? a.defined() && a.size() == ops : !a.defined() || a.size() == 0, "number of arguments");
    if (ops && a.size() == ops) for (int i = 0; i < ops; i++) str_check(a[i], operands[i], (int)strlen(operands[i]), "argument");
}
HARNESS(parse) {
    long mk = __sym_leak_mark();
    { command(num("words", 0, THOROUGH ? 4 : 3)); Option o("Program"); declare(o); check(o); }
    __sym_leak_check(mk, "storage");
    __sym_cover("parse end");
}
HARNESS(many) {
    int words = 9 + num("words", 0, 2) * 4, step = num("step", 0, 1) ? 5 : 1, first = num("first", 0, 5); many_ = num("symbolic", 0, words - 1);
    command(words, step, first); Option o("Program"); declare(o); check(o);
    __sym_cover("many end");
}
HARNESS(twice) { // one command line after another
    for (int i = 0; i < 2; i++) { command(num("words", 0, 1)); Option o("Program"); declare(o); check(o); }
    __sym_cover("twice end");
}
HARNESS(loop) {
    command(num("words", 0, THOROUGH ? 3 : 2));
    Option o(argc_, argv_, "fgo:p:e:");
    int n = 0, last[5]; for (int i = 0; i < 5; i++) { last[i] = -1; for (int k = 0; k < events; k++) if (order[k] == i) last[i] = k; }
    while (o) {
        CHECK(n < events, "no more options than given"); if (n >= events) break;
        int k = order[n];
        CHECK(o.get() == OPT[k], "option");
        if (k < 2) CHECK(throws([&] { o.arg(); }), "a flag has no argument");
        else if (last[k] == n) str_check(o.arg(), given[k], (int)strlen(given[k]), "argument of an option");
        n++;
    }
    CHECK(n == events, "every option given");
    CHECK((int)o.index() == argc_ - ops, "index of the first argument");
    var a = o.args();
    CHECK(ops ? a.defined() && a.size() == ops : !a.defined() || a.size() == 0, "number of arguments");
    if (ops && a.size() == ops) for (int i = 0; i < ops; i++) str_check(a[i], operands[i], (int)strlen(operands[i]), "argument");
    __sym_cover("loop end");
}
// what is printed on request: the name, the program, and every option with its default
struct Cap : public std::streambuf {
    char s[400]; int n; Cap() : n(0) {}
    int overflow(int c) { if (c != EOF && n < 399) s[n++] = (char)c; return c; }
    std::streamsize xsputn(const char* p, std::streamsize k) { for (std::streamsize i = 0; i < k; i++) overflow((unsigned char)p[i]); return k; }
};
HARNESS(usage) {
    { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        char c = (char)__sym_range("letter", 'a', 'z'), d = (char)__sym_range("char", '#', 'Z'); int v = (int)__sym_range("default", 0, 99);
        char desc[] = "? described", def[] = "?d", a0[] = "program", nm[] = "Na?e"; desc[0] = d; def[0] = d; nm[2] = d;
        char* av[2] = {a0, 0};
        int first = num("first", 0, 1), again = num("again", 1, 2);
        var vdesc(desc), vdef(def);
        Option o((var(nm)));
        if (first) o("text at first");
        o(c, vdesc); o('A', "with a number", v); o("text between"); o('B', "with a string", vdef); o('C', "with an empty string", ""); o('D', vdesc);
        o.parse(1, av);
        for (int k = 0; k < again; k++) {
            Cap cap; std::streambuf* keep = std::cout.rdbuf(&cap); o.usage(); std::cout.rdbuf(keep);
            char num_[4]; int q = 0; if (v > 9) num_[q++] = (char)('0' + v / 10); num_[q++] = (char)('0' + v % 10); num_[q] = 0;
            // lines
            const char* l[12]; int len[12], lines = 0;
            for (int i = 0; i < cap.n && lines < 12; ) { int e = i; while (e < cap.n && cap.s[e] != '\n') e++; CHECK(e < cap.n, "complete lines"); l[lines] = cap.s + i; len[lines++] = e - i; i = e + 1; }
            CHECK(lines == 8 + first, "one line per option or text");
            if (lines != 8 + first) break;
            CHECK(len[0] == 4 && !memcmp(l[0], nm, 4), "the name"); CHECK(len[1] > 14 && !memcmp(l[1], "Usage: program", 14), "the program");
            auto starts = [&](int i, char x, const char* t) { int n = (int)strlen(t); return len[i] >= 4 + n && (l[i][0] == ' ') & (l[i][1] == '-') & (l[i][2] == x) & (l[i][3] == ' ') && !memcmp(l[i] + 4, t, n); };
            auto has = [&](int i, const char* t) { int n = (int)strlen(t); for (int j = 0; j + n <= len[i]; j++) if (!memcmp(l[i] + j, t, n)) return true; return false; };
            int i = 2;
            if (first) { CHECK(len[i] == 13 && !memcmp(l[i], "text at first", 13), "text"); i++; }
            CHECK(starts(i, c, desc) && len[i] == 15, "an option without default"); i++;
            CHECK(starts(i, 'A', "with a number") && has(i, num_), "an option and its default"); i++;
            CHECK(len[i] == 12 && !memcmp(l[i], "text between", 12), "text"); i++;
            CHECK(starts(i, 'B', "with a string") && has(i, def), "an option and its default"); i++;
            CHECK(starts(i, 'C', "with an empty string"), "an option and its default"); i++;
            CHECK(starts(i, 'D', desc) && len[i] == 15, "an option without default");
        }
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("usage end");
}
HARNESS(usage_few) { // no option, or one, or two
    { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        char c = (char)__sym_range("letter", 'a', 'z'); int k = num("options", 0, 2); char a0[] = "prog"; char* av[2] = {a0, 0};
        Option o(var("Name")); if (k > 0) o(c, "one"); if (k > 1) o('Q', "two");
        o.parse(1, av);
        Cap cap; std::streambuf* keep = std::cout.rdbuf(&cap); o.usage(); std::cout.rdbuf(keep);
        int lines = 0, e = 0; for (int i = 0; i < cap.n; i++) { lines += cap.s[i] == '\n'; if (lines < 2) e = i; }
        CHECK(lines == 2 + k && cap.n > 12 && !memcmp(cap.s, "Name\nUsage: prog", 16), "one line per option");
        int b = -1, f = -1; for (int i = 16; i + 2 < e; i++) { if (b < 0 && cap.s[i] == ' ' && cap.s[i + 1] == '-' && cap.s[i + 2] == '[') b = i + 3; if (b >= 0 && f < 0 && cap.s[i + 2] == ']') f = i + 2; }
        CHECK((b >= 0 && f > b) == (k > 0), "the letters of the options, if there are any");
        if (b >= 0 && f > b && k) { bool one = false, two = false; for (int i = b; i < f; i++) { one |= cap.s[i] == c; two |= cap.s[i] == 'Q'; } CHECK(one, "the letter of an option"); CHECK(two == (k > 1), "the letter of an option"); }
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("usage few end");
}
// a word that is not a declared option, or an option whose argument is missing: the usage is printed and the program ends
static struct Cap* ended; static const char* endName;
static void atEnd(int) {
    CHECK(ended->n >= 4 && !memcmp(ended->s, "Name", 4), "the usage is printed");
    int has = 0; for (int j = 0; j + 9 <= ended->n; j++) if (!memcmp(ended->s + j, "an option", 9)) has++;
    CHECK(has == 1, "the usage describes the options");
    __sym_cover("invalid end");
}
HARNESS(invalid) {
    command(num("words", 0, THOROUGH ? 2 : 1));
    for (int i = 0; i < argc_; i++) __sym_assume(strcmp(argv_[i], "--"));
    int kind = num("invalid", 0, 3); int after = 0;
    char* w = word();
    char c = (char)__sym_range("letter", 33, 126);
    for (int i = 0; i < 5; i++) __sym_assume(c != OPT[i]);
    if (kind < 2) {
        __sym_assume(c != '-');
        if (kind) { strcpy(w, "-f"); w[2] = c; w[3] = 0; } else { w[0] = '-'; w[1] = c; w[2] = 0; }
        after = num("after", 0, 2);
        if (after == 1) strcpy(word(), "-g"); else if (after == 2) strcpy(word(), "x");
    }
    else if (kind == 2) { w[0] = '-'; w[1] = OPT[num("option", 2, 4)]; w[2] = 0; }
    else strcpy(w, "-go");
    char* av[49]; memcpy(av, argv_, sizeof av);
    static Cap cap; ended = &cap;
    static Option o("Name"); declare(o);
    std::cout.rdbuf(&cap); __stub_exit_hook(atEnd);
    o.parse(argc_, av);
    CHECK(false, "a wrong command line is taken as a right one");
}

//! time_quick: 120
//! time_thorough: 850
//! bound: files of up to 6 (thorough 7) bytes of any value but NUL; files of up to 3 (thorough 4) lines, each a header, an entry with either separator, a comment, a blank line or a malformed line, with symbolic bytes; 27 to 36 entries in 3 or 7 sections, long keys and values, one section and value symbolic; histories of 3 (thorough 4) loads, settings and changes of section on two configurations with symbolic values, looking up every entry as every type
//! assume: no ':' before the first '=' of a line with both; a key of a section either holds a value or is absent; numbers looked up are numerals
#include "common.h"
#include <lube/config.h>
namespace libube { extern "C" void factory_inifile(Module** oModule, var iArg); }

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
struct Txt { int n; char s[72]; };
static bool eq(const Txt& a, const Txt& b) { if (a.n != b.n) return false; for (int i = 0; i < a.n; i++) if (a.s[i] != b.s[i]) return false; return true; }
static Txt cut(const char* s, int b, int e) { while (b < e && space(s[b])) b++; while (e > b && space(s[e - 1])) e--; Txt t; t.n = e - b; memcpy(t.s, s + b, t.n); t.s[t.n] = 0; return t; }
static Txt lit(const char* s) { Txt t; t.n = (int)strlen(s); strcpy(t.s, s); return t; }
struct Entry { Txt sec, key, val; };
static Entry ent[48]; static int ents;
static void put(const Txt& s, const Txt& k, const Txt& v) {
    for (int i = 0; i < ents; i++) if (eq(ent[i].sec, s) && eq(ent[i].key, k)) { ent[i].val = v; return; }
    ent[ents].sec = s; ent[ents].key = k; ent[ents++].val = v;
}
// what a file means; false if it has to be refused
static bool reference(const char* s, int n) {
    ents = 0; Txt sec = lit("");
    for (int i = 0; i < n; ) {
        int e = i; while (e < n && s[e] != '\n') e++;
        Txt l = cut(s, i, e); i = e + 1;
        if (!l.n || l.s[0] == ';' || l.s[0] == '#') continue;
        if (l.s[0] == '[') {
            int c = 1; while (c < l.n && l.s[c] != ']') c++;
            if (c == l.n) return false;
            sec.n = c - 1; memcpy(sec.s, l.s + 1, c - 1); sec.s[c - 1] = 0;
            continue;
        }
        int q = 0; while (q < l.n && l.s[q] != '=') q++;
        int c = 0; while (c < l.n && l.s[c] != ':') c++;
        __sym_assume(q == l.n || c > q);
        if (q == l.n) q = c;
        if (q == l.n) return false;
        put(sec, cut(l.s, 0, q), cut(l.s, q + 1, l.n));
    }
    return true;
}
struct Ini { Module* m; file* f; Ini() { m = 0; factory_inifile(&m, var()); f = dynamic_cast<file*>(m); } ~Ini() { delete m; } };
static void reading(const char* s, int n) {
    long mk = __sym_leak_mark();
    {
        __vfs_put("file", s, n);
        bool ok = reference(s, n);
        Ini ini; var v;
        bool t = throws([&] { v = ini.f->read(__vfs_path("file")); });
        CHECK(t == !ok, ok ? "a well formed file is read" : "a malformed line is refused");
        if (ok && !t) {
            int secs = 0;
            for (int i = 0; i < ents; i++) { bool first = true; for (int j = 0; j < i; j++) if (eq(ent[i].sec, ent[j].sec)) first = false; secs += first; }
            CHECK(secs ? v.defined() && (int)v.atype() == TYPE_PAIR && v.size() == secs : !v.defined() || v.size() == 0, "one entry per section");
            for (int i = 0; i < ents; i++) {
                int keys = 0; for (int j = 0; j < ents; j++) keys += eq(ent[i].sec, ent[j].sec);
                var sk(ent[i].sec.n, ent[i].sec.s), kk(ent[i].key.n, ent[i].key.s);
                ind a = v.index(sk); CHECK((bool)a, "section");
                if (!a) continue;
                var sv = v[sk];
                CHECK((int)sv.atype() == TYPE_PAIR && sv.size() == keys, "one entry per key");
                ind b = sv.index(kk); CHECK((bool)b, "key");
                if (b) { str_check(sv.key(b), ent[i].key.s, ent[i].key.n, "key"); str_check(sv[kk], ent[i].val.s, ent[i].val.n, "value"); }
            }
        }
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("reading end");
}
HARNESS(bytes) {
    char s[10]; int n = num("len", 0, THOROUGH ? 6 : 5);
    for (int i = 0; i < n; i++) { s[i] = (char)__sym_range("byte", -128, 127); __sym_assume(s[i] != 0); }
    reading(s, n);
}
static char letter(const char* n) { return (char)__sym_range(n, 'a', 'c'); }
HARNESS(structured) {
    char s[80]; int n = 0, lines = num("lines", 1, THOROUGH ? 4 : 3);
    for (int i = 0; i < lines; i++) {
        switch (num("line", 0, 7)) {
        case 0: s[n++] = '['; s[n++] = letter("section"); s[n++] = ']'; break;
        case 1: s[n++] = letter("key"); s[n++] = ' '; s[n++] = '='; s[n++] = '\t'; s[n++] = (char)__sym_range("value", 33, 126); break;
        case 2: s[n++] = letter("key"); s[n++] = ':'; s[n++] = ' '; s[n++] = letter("value"); s[n++] = ' '; s[n++] = letter("value"); s[n++] = ' '; break;
        case 3: s[n++] = ' '; s[n++] = letter("key"); s[n++] = '='; s[n++] = letter("value"); s[n++] = '='; s[n++] = letter("value"); break;
        case 4: s[n++] = num("mark", 0, 1) ? '#' : ';'; s[n++] = '='; s[n++] = (char)__sym_range("comment", 32, 126); break;
        case 5: if (num("blank", 0, 1)) s[n++] = ' '; break;
        case 6: s[n++] = letter("key"); s[n++] = '='; break;
        case 7: s[n++] = '['; s[n++] = letter("section"); s[n++] = ' '; s[n++] = letter("section"); s[n++] = ']'; s[n++] = (char)__sym_range("rest", 33, 126); break;
        }
        if (i + 1 < lines || num("terminated", 0, 1)) s[n++] = '\n';
    }
    reading(s, n);
}
HARNESS(many) {
    char s[1200]; int n = 0, secs = 3 + num("sections", 0, 1) * 4, keys = secs == 3 ? 9 : 5, at = num("at", 0, 2) * (secs - 1) / 2, again = num("again", 0, 1), form = num("separator", 0, 1);
    auto t = [&](const char* x) { while (*x) s[n++] = *x++; };
    for (int i = 0; i < secs; i++) {
        s[n++] = '['; t("section "); if (i == at) { s[n++] = (char)__sym_range("section", 'a', 'j'); } else s[n++] = (char)('a' + i); t("]\n");
        for (int k = 0; k < keys; k++) {
            t("a longer key "); s[n++] = (char)('a' + (k * 5 + i) % keys); t(form ? " : " : "=");
            if (k % 4 == 3) { for (int j = 0; j < 40; j++) s[n++] = (char)('a' + (j + k) % 26); if (i == at) { s[n - 1] = (char)__sym_range("value", 33, 126); } }
            else { t("v"); s[n++] = (char)('0' + k); }
            t("\n"); if (k == 2) t("; a comment\n\n");
        }
        if (again && i == secs - 1) { t("[section a]\na longer key a = another\n"); }
    }
    reading(s, n);
}
HARNESS(unopenable) {
    long mk = __sym_leak_mark();
    {
        Ini ini;
        CHECK(throws([&] { ini.f->read(__vfs_path("none")); }), "a file that cannot be opened is refused");
        var v; v.push(1);
        CHECK(throws([&] { ini.f->write(__vfs_path("no/file"), v); }), "a file that cannot be written is refused");
        ini.f->write(__vfs_path("file"), v);
        char r[4]; CHECK(__vfs_get("file", r, 4) == 2 && r[0] == '1' && r[1] == '\n', "elements are written one per line");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("unopenable end");
}
// ---- configurations.  Sections a and b, entries x and y; the values are numerals
static int ref[2][2]; // -1 when absent
static const char* const SEC[] = {"a", "b"}; static const char* const ENT[] = {"x", "y"};
static void lookups(Config& c, int sec) {
    for (int e = 0; e < 2; e++) {
        int x = sec < 0 ? -1 : ref[sec][e];
        var v = c.config(ENT[e]);
        CHECK(x < 0 ? !v.defined() : v.defined(), "defined exactly when set");
        if (x >= 0) CHECK(v.cast<int>() == x, "value of the entry");
        CHECK(c.config<int>(ENT[e], -7) == (x < 0 ? -7 : x), "as int");
        CHECK(c.config<long>(ENT[e], -7L) == (x < 0 ? -7 : x), "as long");
        CHECK(c.config<float>(ENT[e], -7.5f) == (x < 0 ? -7.5f : (float)x), "as float");
        CHECK(c.config<double>(ENT[e], -7.5) == (x < 0 ? -7.5 : (double)x), "as double");
        const char* s = c.config<const char*>(ENT[e], "none");
        if (x < 0) CHECK(!strcmp(s, "none"), "as a string: the default");
        else CHECK(s[0] == '0' + x && s[1] == 0, "as a string");
    }
    CHECK(!c.config("z").defined() && c.config<int>("z", 3) == 3, "an entry never set");
}
HARNESS(config) {
    __stub_dl_add("libini.so", "factory", (void*)&factory_inifile);
    for (int i = 0; i < 4; i++) ref[i / 2][i % 2] = -1;
    int sec[2] = {0, num("section", 0, 2) - 1};
    Config c0("a"); Config c1(sec[1] < 0 ? undefined() : var(SEC[sec[1]])); Config* c[2] = {&c0, &c1};
    int steps = num("steps", 1, THOROUGH ? 3 : 2);
    for (int i = 0; i < steps; i++) {
        int w = num("which", 0, 1);
        switch (num("op", 0, 3)) {
        case 0: { // set an entry
            int e = num("entry", 0, 1); char s[2] = {(char)__sym_range("digit", '0', '9'), 0};
            c[w]->configSet(ENT[e], s); s[0] += 0;
            if (sec[w] >= 0) ref[sec[w]][e] = s[0] - '0';
            break;
        }
        case 1: { // load a file
            char f[64]; int n = 0, k = num("entries", 0, i == 0 || THOROUGH ? 2 : 1);
            for (int j = 0; j < k; j++) {
                int q = num("section", 0, 1), e = num("entry", 0, 1); char d = (char)__sym_range("digit", '0', '9');
                f[n++] = '['; f[n++] = SEC[q][0]; f[n++] = ']'; f[n++] = '\n'; f[n++] = ENT[e][0]; f[n++] = '='; f[n++] = d; f[n++] = '\n';
                ref[q][e] = d - '0';
            }
            __vfs_put("file", f, n);
            c[w]->configFile(__vfs_path("file"));
            break;
        }
        case 2: { int q = num("section", 0, 2) - 1; sec[w] = q; c[w]->configSection(q < 0 ? undefined() : var(SEC[q])); break; }
        case 3: { // a file that cannot be read changes nothing
            if (num("missing", 0, 1)) CHECK(throws([&] { c[w]->configFile(__vfs_path("none")); }), "a missing file is refused");
            else { const char* b = "[a]\nx=5\n[b\n"; __vfs_put("bad", b, (long)strlen(b)); CHECK(throws([&] { c[w]->configFile(__vfs_path("bad")); }), "a malformed file is refused"); }
            break;
        }
        }
        if (i + 1 == steps || THOROUGH) { lookups(c0, sec[0]); lookups(c1, sec[1]); } else lookups(*c[w], sec[w]);
        CHECK(__stub_dl_live() == 0, "module closed");
    }
    __sym_cover("config end");
}
// values that are not one digit
HARNESS(values) {
    Config c("s");
    char s[4]; int n = num("len", 0, 3); for (int i = 0; i < n; i++) { s[i] = (char)__sym_range("byte", -128, 127); __sym_assume(s[i] != 0); } s[n] = 0;
    CHECK(!strcmp(c.config<const char*>("k", "d"), "d"), "default");
    c.configSet("k", var(n, s));
    str_check(c.config("k"), s, n, "string set");
    CHECK(!strcmp(c.config<const char*>("k", "d"), s), "string looked up");
    int x = (int)__sym_bits("int", 32);
    c.configSet("k", x);
    CHECK(c.config<int>("k", 0) == x && c.config<long>("k", 0) == x && c.config<double>("k", 0) == x, "integer set");
    c.configSet("l", 0.5);
    CHECK(c.config<double>("l", 0) == 0.5 && c.config<float>("l", 0) == 0.5f && c.config<int>("k", 0) == x, "another entry set");
    __sym_cover("values end");
}

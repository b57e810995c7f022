//! time_quick: 120
//! time_thorough: 850
//! bound: files of up to 3 individuals and 2 families, or 9 to 12 and 3 to 5 with one individual symbolic, with names, titles and sexes of up to two words of symbolic letters, in any order, with and without sub-records, unknown tags and a submitter, dangling references, 0-3 children; truncation after every line and every byte of a line; one line of up to 2 (thorough 3) bytes of any value but NUL among valid ones; two files one after another
//! assume: individuals precede families; levels of well-formed files increase by one; words separated by one blank
#include "common.h"
namespace libube { extern "C" void factory_gedfile(Module** oModule, var iArg); }

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
struct Ged { Module* m; file* f; Ged() { m = 0; factory_gedfile(&m, var()); f = dynamic_cast<file*>(m); } ~Ged() { delete m; } };
static char doc[2400]; static int dn; static int line[256], lines;
static void o(const char* s) { while (*s) { doc[dn++] = *s; if (*s == '\n') line[++lines] = dn; s++; } }
static void begin() { dn = 0; lines = 0; line[0] = 0; }
struct Ind { int has[3]; char v[3][8]; };
struct Fam { int husb, wife, n, chil[6]; }; // -1 absent, -2 dangling
static Ind ind_[14]; static Fam fam[8]; static int ni, nf;
static const char* const TAG[] = {"NAME", "TITL", "SEX"};
static void words(char* s, bool two) {
    int n = 0; s[n++] = (char)__sym_range("letter", 'A', 'Z');
    if (two) { s[n++] = ' '; s[n++] = (char)__sym_range("letter", '!', '~'); }
    s[n] = 0;
}
static void subrec(int level, int k) { // records below which nothing is kept
    if (level == 1) switch (k) {
        case 1: o("1 BIRT\n2 DATE 1 JAN 1900\n2 PLAC Here\n"); break;
        case 2: o("1 NOTE text\n2 CONT more\n2 CONC still\n"); break;
        case 3: o("1 XYZ unknown\n2 NAME Wrong\n3 SEX X\n"); break;
        case 4: o("1 DEAT\n2 XYZ a\n3 NAME Wrong\n2 DATE x\n"); break;
        case 5: o("1 FAMS @F1@\n"); break;
        case 6: o("1 BURI\n"); break;
        case 7: o("1 OCCU work\n2 DATE 1900\n2 PLAC Here\n"); break;
        case 8: o("1 BIRT Y\n2 NAME Wrong\n2 NOTE n\n3 CONC c\n3 CONT d\n2 SEX X\n"); break;
        case 9: o("1 REFN 12\n1 HUSB @I9@\n1 CHR\n"); break;
        case 10: o("1 FAMC @F1@\n2 NOTE text\n3 CONC more\n3 CONC more\n2 DATE x\n"); break;
        case 11: o("1 NOTE text\n2 CONC more\n2 CONC more\n2 CONT end\n1 BURI\n2 PLAC p\n3 XYZ\n4 NAME Wrong\n"); break;
    }
}
static void xref(char c, int i) { char t[8] = {'@', c, 0}; int n = 2; i++; if (i > 9) t[n++] = (char)('0' + i / 10); t[n++] = (char)('0' + i % 10); t[n++] = '@'; t[n] = 0; o(t); }
static void individual(int i, int order, int extra, int at, bool two) {
    Ind& d = ind_[i];
    o("0 "); xref('I', i); o(" INDI\n");
    for (int k = 0; k < 3; k++) {
        int t = (k + order) % 3;
        if (at == k) subrec(1, extra);
        if (!d.has[t]) continue;
        words(d.v[t], two && t == order);
        o("1 "); o(TAG[t]); o(" "); o(d.v[t]); o("\n");
    }
    if (at == 3) subrec(1, extra);
}
static void member(const char* tag, int i) { o("1 "); o(tag); o(" "); xref('I', i >= 0 ? i : 40); o("\n"); }
static void family(int i, int order, int extra) {
    Fam& f = fam[i];
    o("0 "); xref('F', i); o(" FAM\n");
    for (int k = 0; k < 3; k++) {
        int t = (k + order) % 3;
        if (k == 1) { if (extra == 1) o("1 MARR\n2 DATE 1 JAN 1920\n"); if (extra == 2) o("1 XYZ\n2 HUSB @I1@\n"); if (extra == 3) o("1 DIV Y\n"); if (extra == 4) o("1 NOTE text\n2 CONC more\n2 CONT end\n1 REFN 1\n1 MARR\n1 NAME Wrong\n"); }
        if (t == 0 && f.husb != -1) member("HUSB", f.husb);
        if (t == 1 && f.wife != -1) member("WIFE", f.wife);
        if (t == 2) for (int c = 0; c < f.n; c++) member("CHIL", f.chil[c]);
    }
}
static void is_pos(const var& v, int i, const char* m) { CHECK(i >= 0 ? v.defined() && !v.heap() && v.cast<int>() == i : !v.defined(), m); }
static void check(var v) {
    if (ni + nf == 0) { CHECK(!v.defined() || v.size() == 0, "nothing"); return; }
    var I = v.at("Individual"), F = v.at("Family");
    CHECK(ni ? I.defined() && I.size() == ni : !I.defined() || I.size() == 0, "one entry per individual");
    CHECK(nf ? F.defined() && F.size() == nf : !F.defined() || F.size() == 0, "one entry per family");
    if (ni && I.size() == ni) for (int i = 0; i < ni; i++) {
        var e = I[i];
        for (int t = 0; t < 3; t++) { var x = e.at(TAG[t]); if (ind_[i].has[t]) str_check(x, ind_[i].v[t], (int)strlen(ind_[i].v[t]), TAG[t]); else CHECK(!x.defined(), "field not given"); }
    }
    if (nf && F.size() == nf) for (int i = 0; i < nf; i++) {
        var e = F[i]; Fam& f = fam[i];
        is_pos(e.at("HUSB"), f.husb, "husband"); is_pos(e.at("WIFE"), f.wife, "wife");
        var c = e.at("CHIL"); int n = 0; for (int k = 0; k < f.n; k++) if (f.chil[k] >= 0) n++;
        CHECK(n ? c.defined() && c.size() == n : !c.defined() || c.size() == 0, "number of children");
        if (n && c.size() == n) for (int k = 0, j = 0; k < f.n; k++) if (f.chil[k] >= 0) is_pos(c.at(j++), f.chil[k], "child");
    }
}
static void warm(Ged& g) {
    begin(); o("0 HEAD\n1 SOUR x\n0 @I1@ INDI\n1 SEX F\n0 @F1@ FAM\n1 WIFE @I1@\n0 TRLR\n"); __vfs_put("w", doc, dn); g.f->read(__vfs_path("w"));
}
static void run(Ged& g, long) {
    { __vfs_put("file", doc, dn); var v = g.f->read(__vfs_path("file")); check(v); }
    __sym_cover("run end");
}
HARNESS(individuals) {
    Ged g; warm(g); begin(); nf = 0; ni = num("individuals", 0, 2);
    o("0 HEAD\n"); if (num("header", 0, 1)) o("1 SOUR prog\n2 VERS 5\n1 CHAR UTF-8\n");
    int order = num("order", 0, 2), two = num("words", 0, 1);
    for (int i = 0; i < ni; i++) {
        int m = i ? 7 - num("missing", 0, 3) : num("fields", 0, 7); for (int t = 0; t < 3; t++) ind_[i].has[t] = m >> t & 1;
        individual(i, i ? 0 : order, 0, 0, two);
    }
    o("0 TRLR\n");
    run(g, 0);
}
HARNESS(subrecords) {
    Ged g; warm(g); begin(); nf = 0; ni = num("individuals", 1, 2);
    o("0 HEAD\n1 SOUR x\n"); int s = num("submitter", 0, 4);
    if (s == 1) o("0 @S1@ SUBM\n1 NAME Someone\n"); if (s == 2) o("0 @S1@ SUBM\n"); if (s == 3) o("0 @N1@ NOTE about\n1 CONT x\n0 _TAG y\n1 NAME z\n");
    if (s == 4) o("0 NOTE about\n1 CONT x\n2 NAME Wrong\n");
    int k = num("extra", 1, 11), at = num("at", 0, 3);
    for (int i = 0; i < ni; i++) { for (int t = 0; t < 3; t++) ind_[i].has[t] = 1; individual(i, 0, i ? 12 - k : k, at, false); }
    o("0 TRLR\n");
    run(g, 0);
}
static void families() {
    for (int i = 0; i < nf; i++) {
        Fam& f = fam[i];
        if (i == 0) { f.husb = num("husband", -2, ni - 1); f.wife = num("wife", -1, ni - 1); f.n = num("children", 0, ni > 2 ? 3 : 2); for (int c = 0; c < f.n; c++) f.chil[c] = c == 2 ? 1 : num("child", c ? 0 : -2, ni - 1), f.chil[c] = f.chil[c] == -1 ? 0 : f.chil[c]; }
        else { f.husb = num("husband", -1, ni - 1); f.wife = -1; f.n = num("children", 0, 1); if (f.n) f.chil[0] = ni - 1; }
        int order = i ? 0 : num("order", 0, 2), extra = i ? 0 : num("extra", 0, 4);
        family(i, order, extra);
    }
}
HARNESS(families) {
    Ged g; warm(g); begin(); ni = num("individuals", 1, THOROUGH ? 3 : 2); nf = num("families", 1, THOROUGH ? 2 : 1);
    o("0 HEAD\n1 SOUR x\n");
    for (int i = 0; i < ni; i++) { for (int t = 0; t < 3; t++) ind_[i].has[t] = t == 0; individual(i, 0, 0, 0, false); }
    families();
    o("0 TRLR\n");
    run(g, 0);
}
HARNESS(families3) {
    Ged g; warm(g); begin(); ni = 3; nf = 2;
    o("0 HEAD\n1 SOUR x\n");
    for (int i = 0; i < ni; i++) { for (int t = 0; t < 3; t++) ind_[i].has[t] = t == 0; individual(i, 0, 0, 0, false); }
    for (int i = 0; i < nf; i++) { fam[i].husb = num("husband", 0, 2); fam[i].wife = 2 - fam[i].husb; fam[i].n = i ? 1 : 3; for (int c = 0; c < 3; c++) fam[i].chil[c] = (c + i) % 3; family(i, 0, 0); }
    o("0 TRLR\n");
    run(g, 0);
}
HARNESS(larger) {
    Ged g; warm(g); begin(); ni = 9 + num("individuals", 0, 1) * 3; nf = 3 + num("families", 0, 1) * 2; int at = num("at", 0, 2) * (ni - 1) / 2, mix = num("mix", 0, 3), many = num("children", 0, 2);
    o("0 HEAD\n1 SOUR x\n");
    for (int i = 0; i < ni; i++) {
        for (int t = 0; t < 3; t++) ind_[i].has[t] = i == at || (i + t) % 3 != 0;
        if (i == at) { individual(i, mix % 3, 0, 0, true); continue; }
        Ind& d = ind_[i]; o("0 "); xref('I', i); o(" INDI\n");
        for (int t = 0; t < 3; t++) { if (!d.has[t]) continue; char* s = d.v[t]; strcpy(s, t == 2 ? "M" : "Ab X"); s[0] = (char)('A' + i); o("1 "); o(TAG[t]); o(" "); o(s); o("\n"); if (t == 1) subrec(1, 1 + i % 11); }
    }
    for (int i = 0; i < nf; i++) {
        Fam& f = fam[i]; f.husb = (i * 5 + mix) % ni; f.wife = i == 1 ? -1 : i == 2 ? -2 : (i * 3 + 7) % ni; f.n = many == 0 ? i : many == 1 ? 6 : (i + 2) % 4;
        for (int c = 0; c < f.n; c++) f.chil[c] = c == 4 ? -2 : (c * 5 + i + mix) % ni;
        family(i, (i + mix) % 3, i % 5);
    }
    o("0 TRLR\n");
    run(g, 0);
}
// files one after another in the same handler: nothing is left of the previous one
HARNESS(twice) {
    Ged g; warm(g); int bad = num("bad", 0, 2);
    if (bad) { begin(); o("0 HEAD\n1 SOUR x\n0 @I1@ INDI\n1 NAME A\n0 @I2@ INDI\n0 @F1@ FAM\n1 HUSB @I2@\n"); if (bad == 2) o("x"); __vfs_put("file", doc, dn); CHECK(throws([&] { g.f->read(__vfs_path("file")); }), "a file without its trailer is refused"); }
    begin(); ni = num("individuals", 0, 1); nf = num("families", 0, 1);
    o("0 HEAD\n1 SOUR x\n"); for (int i = 0; i < ni; i++) { for (int t = 0; t < 3; t++) ind_[i].has[t] = 1; individual(i, 0, 0, 0, true); }
    for (int i = 0; i < nf; i++) { fam[i].husb = ni - 1 >= 0 ? 0 : -2; fam[i].wife = -2; fam[i].n = 0; family(i, 0, 0); }
    o("0 TRLR\n");
    run(g, 0);
}
// damaged: cut anywhere before the trailer
HARNESS(truncated) {
    Ged g; warm(g);
    begin(); o("0 HEAD\n1 SOUR x\n2 VERS y\n0 @S1@ SUBM\n1 NAME s\n0 @I1@ INDI\n1 NAME A B\n1 BIRT\n2 DATE d\n2 NOTE n\n3 CONT c\n1 XYZ q\n2 PQR z\n0 @I2@ INDI\n1 SEX F\n0 @F1@ FAM\n1 HUSB @I1@\n1 MARR\n2 PLAC p\n1 CHIL @I2@\n");
    int cut, l = num("line", 0, lines);
    if (l == lines) cut = dn; else cut = line[l] + num("byte", 0, line[l + 1] - line[l] - 1);
    long mk = __sym_leak_mark();
    __vfs_put("file", doc, cut);
    { CHECK(throws([&] { var v = g.f->read(__vfs_path("file")); }), "a file that ends before its trailer is refused"); }
    __sym_cover("truncated end");
}
// any line among valid ones: reading ends, one way or the other
HARNESS(garbage) {
    Ged g; warm(g);
    begin(); int at = num("at", 0, 4);
    static const char* const P[] = {"", "0 HEAD\n1 SOUR x\n", "0 HEAD\n1 SOUR x\n0 @I1@ INDI\n", "0 HEAD\n1 SOUR x\n0 @I1@ INDI\n1 BIRT\n2 DATE d\n", "0 HEAD\n1 SOUR x\n0 @I1@ INDI\n1 SEX M\n0 @F1@ FAM\n1 HUSB @I1@\n"};
    o(P[at]);
    int n = num("len", 0, THOROUGH ? 3 : 2);
    for (int i = 0; i < n; i++) { char c = (char)__sym_range("byte", -128, 127); __sym_assume(c != 0); doc[dn++] = c; }
    o("\n0 TRLR\n");
    __vfs_put("file", doc, dn);
    throws([&] { g.f->read(__vfs_path("file")); });
    __sym_cover("garbage end");
}
HARNESS(leaks) {
    Ged h; warm(h);
    long mk = __sym_leak_mark();
    {
        Ged g; begin(); ni = nf = 1; o("0 HEAD\n1 SOUR x\n"); ind_[0].has[0] = ind_[0].has[1] = ind_[0].has[2] = 1; individual(0, 0, 3, 1, true); fam[0].husb = 0; fam[0].wife = -2; fam[0].n = 1; fam[0].chil[0] = 0; family(0, 0, 1);
        if (num("trailer", 0, 1)) { o("0 TRLR\n"); __vfs_put("file", doc, dn); check(g.f->read(__vfs_path("file"))); }
        else { __vfs_put("file", doc, dn); CHECK(throws([&] { g.f->read(__vfs_path("file")); }), "refused"); }
        CHECK(throws([&] { g.f->read(__vfs_path("none")); }), "a file that cannot be opened is refused");
        var v; v.push(1); g.f->write(__vfs_path("file"), v);
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("leaks end");
}

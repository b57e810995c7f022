//! time_quick: 120
//! time_thorough: 850
//! bound: documents and trees of up to 5 (thorough 6) elements and pieces of text with up to 2 attributes in all (with attributes up to 3 and 5), depth 3, one or two symbolic bytes in each name, attribute value and text (every printable character, escaped where needed); 7 to 33 children, attributes or levels and texts of 28 to 132 bytes, 150 children, a text of 8400 bytes, one character symbolic; every spelling of empty elements and quotes; truncation of a document after every byte; the malformations listed in the harness
//! max_instr: 40000000
//! assume: Expat is replaced by a small conforming non-validating parser that reports text in the pieces Expat does; text without line breaks; attribute names of one element differ; ASCII
#include "common.h"
#include <lube/data.h>
namespace libube { extern "C" void factory_xmlfile(Module** oModule, var iArg); }

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
struct Xml { Module* m; file* f; Xml() { m = 0; factory_xmlfile(&m, var()); f = dynamic_cast<file*>(m); } ~Xml() { delete m; } };
// a tree: elements and texts
struct Node { bool text; char s[4]; int attrs; char an[2][3], av[2][3]; int n; Node* ch[4]; };
static Node pool[8]; static int used, budget, attrs; static bool simple;
static void chars(char* s, const char* name, int lo, int hi) {
    int n = num("len", lo, hi);
    for (int i = 0; i < n; i++) s[i] = simple ? (char)__sym_range(name, 'a', 'z') : (char)__sym_range(name, 32, 126);
    s[n] = 0;
}
static Node* gen(int depth) {
    Node* p = &pool[used++]; budget--; p->text = false;
    p->s[0] = (char)__sym_range("name", 'a', 'z'); p->s[1] = 0;
    p->attrs = num("attributes", 0, attrs); attrs -= p->attrs;
    for (int i = 0; i < p->attrs; i++) {
        p->an[i][0] = (char)__sym_range("attribute", 'a', 'z'); p->an[i][1] = 0;
        if (i) __sym_assume(p->an[0][0] != p->an[1][0]);
        chars(p->av[i], "value", i ? 1 : 0, 1);
    }
    p->n = num("children", 0, budget < 3 ? budget : 3);
    for (int i = 0; i < p->n; i++) {
        if (budget <= 0) { p->n = i; break; }
        bool prev = i && p->ch[i - 1]->text;
        if (depth == 0 || (!prev && num("text", 0, 1))) {
            if (prev) { p->n = i; break; }
            Node* t = &pool[used++]; budget--; t->text = true; chars(t->s, "text", 1, 1); p->ch[i] = t;
        } else p->ch[i] = gen(depth - 1);
    }
    return p;
}
static char doc[9600]; static int dn;
static void o(const char* s) { while (*s) doc[dn++] = *s++; }
static void esc(const char* s, char quote) {
    for (; *s; s++) {
        if (*s == '&') o("&amp;"); else if (*s == '<') o("&lt;"); else if (*s == '>') o("&gt;");
        else if (*s == quote && quote == '"') o("&quot;"); else if (*s == quote) o("&apos;"); else doc[dn++] = *s;
    }
}
static int spelling; // of empty elements and attributes
static void ser(const Node* p) {
    if (p->text) { esc(p->s, 0); return; }
    o("<"); o(p->s);
    for (int i = 0; i < p->attrs; i++) { o(spelling ? "  " : " "); o(p->an[i]); o(spelling ? "='" : "=\""); esc(p->av[i], spelling ? '\'' : '"'); o(spelling ? "'" : "\""); }
    if (!p->n && spelling < 2) { o(spelling ? " />" : "/>"); return; }
    o(">"); for (int i = 0; i < p->n; i++) ser(p->ch[i]);
    o("</"); o(p->s); o(spelling == 2 ? " >" : ">");
}
// v is the tree p, up to how adjacent text is divided
static void same(var v, const Node* p) {
    CHECK(v.defined() && v.heap() && v.size() == 4, "element"); if (!v.heap() || v.size() != 4) return;
    str_check(v[NAME], p->s, (int)strlen(p->s), "name");
    var a = v[ATTR];
    CHECK(p->attrs ? a.defined() && (int)a.atype() == TYPE_PAIR && a.size() == p->attrs : !a.defined() || a.size() == 0, "number of attributes");
    for (int i = 0; i < p->attrs; i++) {
        ind k = a.index(p->an[i]); CHECK((bool)k, "attribute");
        if (k) str_check(a[var(p->an[i])], p->av[i], (int)strlen(p->av[i]), "value of an attribute");
    }
    var d = v[DATA];
    if (!p->n) { CHECK(!d.defined() || d.size() == 0, "no content"); return; }
    CHECK(d.defined() && d.heap(), "content"); if (!d.defined()) return;
    int at = 0;
    for (int i = 0; i < p->n; i++) {
        if (!p->ch[i]->text) { CHECK(at < d.size(), "child element"); if (at < d.size()) same(d[at++], p->ch[i]); continue; }
        const char* t = p->ch[i]->s;
        while (*t) {
            CHECK(at < d.size() && d.at(at).heap() && d.at(at).atype<char>(), "text"); if (at >= d.size() || !d.at(at).atype<char>()) return;
            for (int k = 0; k < d[at].size(); k++) { CHECK(*t && d[at][k].get<char>() == *t, "text"); if (!*t) return; t++; }
            at++;
        }
    }
    CHECK(at == d.size(), "nothing else in the content");
}
static var make(const Node* p) {
    if (p->text) return var(p->s);
    var v; v[DATA] = undefined();  v[NAME] = p->s; v[ATTR] = undefined(); v[TYPE] = "text";
    for (int i = 0; i < p->attrs; i++) v[ATTR][var(p->an[i])] = p->av[i];
    for (int i = 0; i < p->n; i++) v[DATA].push(make(p->ch[i]));
    return v;
}
static void warm(Xml& x) { __vfs_put("w", "<a/>", 4); x.f->read(__vfs_path("w")); }
static void start(int b, int a, bool s = false) { used = 0; budget = b; attrs = a; simple = s; dn = 0; spelling = 0; }
static void reading(Node* p) {
    Xml x; warm(x);
    long mk = __sym_leak_mark();
    {
        int pre = num("prolog", 0, 3);
        if (pre & 1) o("<?xml version=\"1.0\"?>"); if (pre) o("\n"); if (pre == 2) o(" \n");
        ser(p); if (num("terminated", 0, 1)) o("\n");
        __vfs_put("file", doc, dn);
        var v = x.f->read(__vfs_path("file"));
        same(v, p);
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("reading end");
}
HARNESS(read) { start(THOROUGH ? 5 : 3, 1); Node* p = gen(2); spelling = num("spelling", 0, 2); reading(p); }
HARNESS(read_attributes) { start(1, 2); Node* p = gen(0); spelling = num("spelling", 0, 1); reading(p); }
HARNESS(read_larger) { start(THOROUGH ? 6 : 5, 0, true); Node* p = gen(2); reading(p); }
// content on lines of its own: line breaks are dropped, indentation is text
HARNESS(read_lines) {
    start(2, 0, true);
    Xml x; char a = (char)__sym_range("text", 'a', 'z'), b = (char)__sym_range("text", 'a', 'z');
    o("<r>\n"); doc[dn++] = a; o("\n<e/>\n\n"); doc[dn++] = b; doc[dn++] = a; o("\n</r>\n\n");
    __vfs_put("file", doc, dn);
    var v = x.f->read(__vfs_path("file"));
    var d = v[DATA];
    CHECK(d.size() == 3, "two lines of text and an element");
    char t[3] = {b, a, 0};
    if (d.size() == 3) { str_check(d[0], &a, 1, "first line"); str_check(d[1][NAME], "e", 1, "element"); str_check(d[2], t, 2, "last line"); }
    __sym_cover("read_lines end");
}
static void writing(Node* p) {
    Xml x; warm(x);
    long mk = __sym_leak_mark();
    {
        if (num("exists", 0, 1)) __vfs_put("file", "<previous>and longer than what is written now, so that its end would show</previous>", 80);
        var v = make(p);
        x.f->write(__vfs_path("file"), v);
        same(v, p);
        var w = x.f->read(__vfs_path("file"));
        same(w, p);
        x.f->write(__vfs_path("copy"), w);
        var u = x.f->read(__vfs_path("copy"));
        same(u, p);
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("writing end");
}
HARNESS(write) { start(THOROUGH ? 4 : 3, 1); writing(gen(1)); }
HARNESS(write_attributes) { start(1, 2); writing(gen(0)); }
HARNESS(write_larger) { start(THOROUGH ? 6 : 5, 0, true); writing(gen(2)); }
// the five special characters never appear as themselves in text or values
HARNESS(escapes) {
    Xml x; start(2, 1);
    char c = "&<>'\""[num("character", 0, 4)]; char s[2] = {c, 0};
    Node& e = pool[0]; Node& t = pool[1]; e.text = false; strcpy(e.s, "e"); e.attrs = 1; strcpy(e.an[0], "a"); strcpy(e.av[0], "x"); e.n = 1; e.ch[0] = &t; t.text = true; strcpy(t.s, "y");
    x.f->write(__vfs_path("file"), make(&e));
    char a[200], b[200]; int an = (int)__vfs_get("file", a, 200);
    if (num("where", 0, 1)) strcpy(t.s, s); else strcpy(e.av[0], s);
    x.f->write(__vfs_path("file"), make(&e));
    int bn = (int)__vfs_get("file", b, 200);
    int ca = 0, cb = 0, amp = 0; for (int i = 0; i < an; i++) ca += a[i] == c; for (int i = 0; i < bn; i++) { cb += b[i] == c; amp += b[i] == '&'; }
    CHECK(amp == 1, "escaped"); CHECK(cb == ca + (c == '&'), "not written as itself");
    same(x.f->read(__vfs_path("file")), &e);
    __sym_cover("escapes end");
}
HARNESS(truncated) {
    Xml x; warm(x);
    long mk = __sym_leak_mark();
    {
        start(1, 0); int k = num("document", 0, 2);
        o(k == 0 ? "<ab c=\"d\">t&lt;u<e f='g'/></ab>" : k == 1 ? "<?xml version=\"1.0\"?>\n<a><b>\n</b>t</a>" : "<a />");
        int full = dn, cut = num("cut", 0, full); // the document is complete exactly when nothing is missing
        __vfs_put("file", doc, cut);
        var v; bool t = throws([&] { v = x.f->read(__vfs_path("file")); });
        CHECK(t == (cut < full), t ? "a complete document is read" : "a truncated document is refused");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("truncated end");
}
HARNESS(malformed) {
    Xml x; warm(x);
    static const char* const D[] = {"", "text", "<a></b>", "<a><b></a></b>", "<a/><b/>", "<a b=c/>", "<a b/>", "<a b=\"<\"/>", "<a>&x;</a>", "<a>&</a>", "</a>", "<a/>text", "<>", "<a></a></a>",
        "<a>\n</b>\n", "<a>\n<b>\n</b>\n", "<a b=\"c>\n</a>\n"};
    long mk = __sym_leak_mark();
    {
        const char* d = D[num("document", 0, sizeof D / sizeof *D - 1)];
        __vfs_put("file", d, (long)strlen(d));
        CHECK(throws([&] { x.f->read(__vfs_path("file")); }), "a malformed document is refused");
        // and another one is read afterwards
        var v = x.f->read(__vfs_path("w"));
        CHECK(v.size() == 4 && v[NAME] == "a", "a document read after a malformed one");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("malformed end");
}
// what a tree cannot represent is refused, wherever it stands
HARNESS(unrepresented) {
    Xml x; warm(x);
    static const char* const D[] = {"<!--c-->", "<?p q?>", "<!-- -->", "<!DOCTYPE a>"};
    long mk = __sym_leak_mark();
    {
        start(1, 0); int k = num("document", 0, 3), where = num("where", 0, k == 3 ? 1 : 3);
        o("<?xml version=\"1.0\"?>\n");
        if (where == 0) o(D[k]); if (where == 1) { o(" \n "); o(D[k]); }
        o("\n<a>t"); if (where == 2) o(D[k]); o("u<b/></a>\n"); if (where == 3) { o(D[k]); o("\n"); }
        __vfs_put("file", doc, dn);
        CHECK(throws([&] { x.f->read(__vfs_path("file")); }), "content that would be lost is refused");
        var v = x.f->read(__vfs_path("w"));
        CHECK(v.size() == 4 && v[NAME] == "a", "a document read after a refused one");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("unrepresented end");
}
HARNESS(refused) {
    Xml x; warm(x);
    long mk = __sym_leak_mark();
    {
        CHECK(throws([&] { x.f->read(__vfs_path("none")); }), "a file that cannot be opened is refused");
        var v; v[DATA] = undefined();  v[NAME] = "a"; v[ATTR] = undefined(); v[TYPE] = "text";
        CHECK(throws([&] { x.f->write(__vfs_path("no/file"), v); }), "a file that cannot be written is refused");
        var w; w.push("not an element");
        CHECK(throws([&] { x.f->write(__vfs_path("file"), w); }), "what is not an element is not written");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("refused end");
}
// two documents read by the same handler, and changing one leaves the other
HARNESS(independent) {
    Xml x; char a[2] = {(char)__sym_range("name", 'a', 'z'), 0}, b[2] = {(char)__sym_range("name", 'a', 'z'), 0};
    start(1, 0); o("<"); o(a); o("/>"); __vfs_put("one", doc, dn); dn = 0; o("<"); o(b); o("/>"); __vfs_put("two", doc, dn);
    var v = x.f->read(__vfs_path("one")), w = x.f->read(__vfs_path("two"));
    v[NAME].push('!'); v[TYPE] = "other"; v[DATA].push("more");
    str_check(w[NAME], b, 1, "name of the other"); str_check(w[TYPE], "text", 4, "type of the other"); CHECK(!w[DATA].defined(), "content of the other");
    var u = x.f->read(__vfs_path("one"));
    str_check(u[NAME], a, 1, "read again"); str_check(u[TYPE], "text", 4, "read again"); CHECK(!u[DATA].defined(), "read again");
    __sym_cover("independent end");
}

// many children or attributes, deep trees, long texts: one symbolic character in each
static void larger_(bool huge) {
    static const int N[] = {7, 9, 17, 33, 150, 2100};
    Xml x; warm(x);
    long mk = __sym_leak_mark();
    {
        int form = num("form", 0, huge ? 1 : 3); if (huge && form) form = 3; int n = N[huge ? (form ? 5 : 4) : num("count", 0, 3)], at = n - 1 - num("place", 0, 2) * (n / 3), wr = num("written", 0, 1);
        char c = (char)__sym_range("char", 'a', 'z'); dn = 0;
        char nm[4]; auto name = [&](int i) { nm[0] = 'e'; nm[1] = (char)('a' + i / 26); nm[2] = (char)('a' + i % 26); nm[3] = 0; return (const char*)nm; };
        var v;
        auto check = [&](var v) {
            CHECK(v.size() == 4, "element"); if (v.size() != 4) return;
            switch (form) {
            case 0: // children with a text each
                CHECK(v[DATA].size() == n, "number of children"); if (v[DATA].size() != n) return;
                for (int i = 0; i < n; i++) { var e = v[DATA].at(i); str_check(e[NAME], name(i), 3, "name"); CHECK(e[DATA].size() == 1, "text"); char t[2] = {i == at ? c : 'x', 0}; str_check(e[DATA].at(0), t, 1, "text"); }
                break;
            case 1: // attributes
                CHECK(v[ATTR].size() == n, "number of attributes");
                for (int i = 0; i < n; i++) { ind k = v[ATTR].index(name(i)); CHECK((bool)k, "attribute"); char t[2] = {i == at ? c : 'x', 0}; if (k) str_check(v[ATTR][var(name(i))], t, 1, "value of an attribute"); }
                CHECK(!v[DATA].defined() || v[DATA].size() == 0, "no content");
                break;
            case 2: { // depth
                var e = v;
                for (int i = 0; i < n; i++) {
                    CHECK(e.size() == 4, "element"); name(i); if (i == at) nm[2] = c; str_check(e[NAME], nm, 3, "name");
                    if (i == n - 1) { CHECK(!e[DATA].defined() || e[DATA].size() == 0, "no content"); break; }
                    CHECK(e[DATA].size() == 1, "one child"); var d = e[DATA].at(0); e = undefined(); e = d;
                }
                break; }
            case 3: { // text
                int k = 0; for (int i = 0; i < v[DATA].size(); i++) { var t = v[DATA].at(i); CHECK(t.heap() && t.atype<char>(), "text"); for (int j = 0; j < t.size(); j++, k++) CHECK(k < 4 * n && t.at(j).get<char>() == (k == 4 * at ? c : (char)('a' + k % 17)), "text"); }
                CHECK(k == 4 * n, "length of the text");
                break; }
            }
        };
        switch (form) {
        case 0: o("<r>"); for (int i = 0; i < n; i++) { o("<"); o(name(i)); o(">"); doc[dn++] = i == at ? c : 'x'; o("</"); o(name(i)); o(">"); } o("</r>"); break;
        case 1: o("<r"); for (int i = 0; i < n; i++) { o(" "); o(name(i)); o("='"); doc[dn++] = i == at ? c : 'x'; o("'"); } o("/>"); break;
        case 2: for (int i = 0; i < n; i++) { o("<"); name(i); if (i == at) nm[2] = c; o(nm); o(">"); } for (int i = n; i--; ) { o("</"); name(i); if (i == at) nm[2] = c; o(nm); o(">"); } break;
        case 3: o("<r>"); for (int i = 0; i < 4 * n; i++) doc[dn++] = i == 4 * at ? c : (char)('a' + i % 17); o("</r>"); break;
        }
        __vfs_put("file", doc, dn);
        v = x.f->read(__vfs_path("file")); check(v);
        if (wr) { x.f->write(__vfs_path("copy"), v); check(v); check(x.f->read(__vfs_path("copy"))); }
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("larger end");
}
HARNESS(larger) { larger_(false); }
HARNESS(huge) { larger_(true); }

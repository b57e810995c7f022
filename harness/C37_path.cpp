//! time_quick: 100
//! time_thorough: 850
//! bound: directory trees of up to 3 entries (thorough 4) below the listed one, nested up to 3 deep, one of 16 entries 5 deep with one symbolic character, names of up to 3 symbolic printable characters (dots anywhere); files, directories, broken links, links to directories and back to the directory itself; a link to a directory of up to 2 files in the tree; listed by name, with a slash at the end, through .., and as the current directory; paths that do not exist, go through a file, or are plain files
//! assume: std::filesystem is replaced by a model of a directory tree, in any order of entries (the replay uses the real one); no directory is unreadable; links back to the directory are not used with tree(), which follows them
#include "common.h"
#include <lube/path.h>
namespace libube { extern "C" void factory_path(Module** oModule, var iArg); }
static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
enum { NONE, FILE_, DIR_, BROKEN, LOOP };
struct Node { char name[8]; int nl; int kind; int up; char rel[48]; int rl; };
struct Tree {
    Node e[24]; int n;
    Tree() : n(0) {}
    // Add an entry below entry `up` (-1: the listed directory itself)
    int add(int up, int kind, const char* name, int nl) {
        Node& x = e[n]; x.kind = kind; x.up = up; x.nl = nl; memcpy(x.name, name, nl); x.name[nl] = 0;
        x.rl = 0;
        if (up >= 0) { memcpy(x.rel, e[up].rel, e[up].rl); x.rl = e[up].rl; x.rel[x.rl++] = '/'; }
        memcpy(x.rel + x.rl, name, nl); x.rl += nl; x.rel[x.rl] = 0;
        for (int i = 0; i < n; i++) if (e[i].up == up && e[i].nl == nl) __sym_assume(memcmp(e[i].name, name, nl) != 0);
        return n++;
    }
    void make(int i) const {
        char p[96] = "d/"; memcpy(p + 2, e[i].rel, e[i].rl + 1);
        switch (e[i].kind) {
        case FILE_: __vfs_put(p, "x", 1); break;
        case DIR_: __vfs_mkdir(p); break;
        case BROKEN: __vfs_link(p, "none/none"); break;
        case LOOP: __vfs_link(p, "."); break;
        }
    }
    void make() const { __vfs_mkdir("d"); for (int i = 0; i < n; i++) make(i); }
};
static int sym_name(char* o, int max) {
    int n = num("name_len", 1, max); bool dots = true;
    for (int i = 0; i < n; i++) { o[i] = (char)__sym_range("name", 33, 126); __sym_assume(o[i] != '/'); }
    if (n == 1) dots = o[0] == '.'; else if (n == 2) dots = (o[0] == '.') & (o[1] == '.'); else dots = false;
    __sym_assume(!dots);
    return n;
}
static path& open_path(Module*& m, var arg) { factory_path(&m, arg); return dynamic_cast<path&>(*m); }
struct Text { char s[700]; int n; Text() : n(0) {} void add(const char* t, int k) { memcpy(s + n, t, k); n += k; s[n] = 0; } void add(const char* t) { add(t, (int)strlen(t)); } };
static Text key_of(const char* base, const Node& x) {
    Text k; k.add(base); if (base[strlen(base) - 1] != '/') k.add("/");
    k.add(x.rel, x.rl); return k;
}
static void check_bits(const var& v, const Text& key, const Node& x) {
    CHECK(v.defined() && v.atype() == TYPE_VAR && v.size() == 3, "an entry has three parts");
    int p = key.n - x.nl; while (p > 0 && key.s[p - 1] == '/') p--;
    int dot = x.nl;
    for (int i = x.nl - 1; i > 0; i--) if (x.name[i] == '.') { dot = i; break; }
    str_check(v.at(0), key.s, p, "first the path of the directory");
    str_check(v.at(1), x.name, dot, "then the stem of the name");
    str_check(v.at(2), x.name + dot, x.nl - dot, "then the extension");
}
static void check_list(const var& v, const Tree& t, const char* base, bool all, bool bits) {
    int want = 0;
    for (int i = 0; i < t.n; i++) want += all || t.e[i].up < 0;
    if (!want) { CHECK(!v.defined() || v.size() == 0, "nothing is listed of an empty directory"); return; }
    CHECK(v.defined() && v.size() == want, "as many entries as there are");
    for (int i = 0; i < t.n; i++) {
        if (!all && t.e[i].up >= 0) continue;
        Text k = key_of(base, t.e[i]); int at = -1;
        for (int j = 0; j < want; j++) if (str_eq(v.key(j), k.s, k.n)) { CHECK(at < 0, "an entry is listed once"); at = j; }
        CHECK(at >= 0, "every entry is listed by its path");
        if (bits) check_bits(v.at(at), k, t.e[i]); else CHECK(!v.at(at).defined(), "with nothing else");
    }
}
static void check_tree(const var& v, const Tree& t, int up) {
    int want = 0;
    for (int i = 0; i < t.n; i++) want += t.e[i].up == up;
    if (!want) { CHECK(!v.defined() || v.size() == 0, "nothing below an empty directory"); return; }
    CHECK(v.defined() && v.size() == want, "as many entries as the directory has");
    for (int i = 0; i < t.n; i++) {
        if (t.e[i].up != up) continue;
        int at = -1;
        for (int j = 0; j < want; j++) if (str_eq(v.key(j), t.e[i].name, t.e[i].nl)) { CHECK(at < 0, "a name appears once"); at = j; }
        CHECK(at >= 0, "every entry appears by its name");
        if (t.e[i].kind == DIR_) check_tree(v.at(at), t, i); else CHECK(!v.at(at).defined(), "what is no directory has nothing below it");
    }
}
enum { M_DIR, M_DIRBITS, M_RDIR, M_RDIRBITS, M_TREE };
static void list(Tree& t, int how, int arg) {
    { error warm("x"); }
    char base[600]; strcpy(base, __vfs_path(arg == 3 ? "d/../d" : "d"));
    if (arg == 1) strcat(base, "/");
    if (arg == 2) { strcpy(base, __vfs_cwd()); if (__sym_is_native()) t.n = t.n; }
    long mk = __sym_leak_mark();
    {
        Module* m; path& p = open_path(m, arg == 2 ? var() : var(base));
        switch (how) {
        case M_DIR: check_list(p.dir(), t, base, false, false); break;
        case M_DIRBITS: check_list(p.dir(true), t, base, false, true); break;
        case M_RDIR: check_list(p.rdir(), t, base, true, false); break;
        case M_RDIRBITS: check_list(p.rdir(true), t, base, true, true); break;
        case M_TREE: check_tree(p.tree(), t, -1); break;
        }
        delete m;
    }
    __sym_leak_check(mk, "nothing is left behind");
    __vfs_reset();
}
// One entry whose name is symbolic throughout
HARNESS(names) {
    Tree t; char n[4]; int k = sym_name(n, 3);
    t.add(-1, num("kind", FILE_, DIR_), n, k); t.make();
    list(t, num("how", M_DIR, M_TREE), num("arg", 0, 1));
    __sym_cover("names end");
}
// Two entries with symbolic names next to each other
HARNESS(siblings) {
    Tree t; char n[4]; int k = sym_name(n, 2); t.add(-1, FILE_, n, k); k = sym_name(n, 2); t.add(-1, FILE_, n, k); t.make();
    int how = num("how", 0, 2);
    list(t, how == 0 ? M_DIR : how == 1 ? M_RDIRBITS : M_TREE, 0);
    __sym_cover("siblings end");
}
static void shapes(int max, int deep) {
    Tree t; int n = num("entries", 0, max); bool loop = false;
    for (int i = 0; i < n; i++) {
        int up = num("below", -1, i - 1);
        int depth = 1; for (int u = up; u >= 0; u = t.e[u].up) depth++;
        __sym_assume(depth <= deep);
        if (up >= 0) __sym_assume(t.e[up].kind == DIR_);
        int kind = num("kind", FILE_, LOOP); loop |= kind == LOOP;
        // names that repeat from one directory to another, and a symbolic part
        char nm[8] = {"baca"[i], 0, 0, 0}; int l = 1;
        if (i == n - 1) { nm[1] = (char)__sym_range("name", 33, 126); __sym_assume(nm[1] != '/'); l = 2; if (num("same_name", 0, 1)) { nm[0] = 'b'; l = 1; } }
        t.add(up, kind, nm, l);
    }
    t.make();
    int how = num("how", M_DIR, M_TREE);
    __sym_assume(!(loop && how == M_TREE));
    list(t, how, num("arg", 0, 1));
}
HARNESS(shapes) { shapes(3, 3); __sym_cover("shapes end"); }
HARNESS(larger) {
    Tree t; int at = num("at", 0, 2); char c = (char)__sym_range("name", 33, 126); __sym_assume(c != '/');
    static const int UP[] = {-1, -1, -1, -1, -1, -1, -1, 1, 1, 7, 9, 3, 10, 1, -1, 3}, K[] = {FILE_, DIR_, FILE_, DIR_, BROKEN, FILE_, DIR_, DIR_, FILE_, DIR_, DIR_, FILE_, FILE_, BROKEN, FILE_, FILE_};
    int order = num("order", 0, 1);
    for (int i = 0; i < 16; i++) {
        char nm[8] = {"pmbyakcx"[i % 8], (char)('0' + (i * 7 + order * 3) % 10), '.', (char)('p' + i), 0}; int l = i % 3 == 0 ? 4 : i % 3 == 1 ? 2 : 4;
        if (i == (at == 0 ? 0 : at == 1 ? 12 : 15)) { nm[l - 1] = c; __sym_assume(c != '.'); }
        t.add(UP[i], K[i], nm, l);
    }
    t.make();
    list(t, num("how", M_DIR, M_TREE), num("arg", 0, 1));
    __sym_cover("larger end");
}
HARNESS(nested) {
    // d/a, d/a/b (a directory with entries), d/a/b/x, d/y in an order that is chosen
    Tree t; char c = (char)__sym_range("name", 33, 126); __sym_assume(c != '/' && c != '.');
    char x[2] = {c, 0};
    int a = t.add(-1, DIR_, "a.d", 3), b = t.add(a, DIR_, x, 1);
    t.add(b, num("kind", FILE_, LOOP), x, 1); int last = t.add(num("below", -1, 1), FILE_, "y.t", 3); (void)last;
    int order = num("order", 0, 2);
    __vfs_mkdir("d");
    if (order == 0) for (int i = 0; i < 4; i++) t.make(i);
    else if (order == 1) for (int i = 3; i >= 0; i--) { if (i == 3 && t.e[3].up >= 0) { for (int k = 0; k <= t.e[3].up; k++) t.make(k); } if (__sym_is_native() && i == 2) { t.make(0); t.make(1); } t.make(i); }
    else { t.make(0); t.make(1); t.make(3); t.make(2); }
    int how = num("how", M_DIR, M_TREE);
    __sym_assume(!(t.e[2].kind == LOOP && how == M_TREE));
    list(t, how, 0);
    __sym_cover("nested end");
}
// The same directory named in other ways
HARNESS(named) {
    Tree t; char n[4]; int k = sym_name(n, 1); t.add(-1, num("kind", FILE_, DIR_), n, k); t.make();
    list(t, num("how", M_DIR, M_TREE), num("arg", 1, 3) == 1 ? 1 : 3);
    __sym_cover("named end");
}
// Nothing given: the current directory
HARNESS(current) {
    Tree t; char n[4]; int k = sym_name(n, 2); t.add(-1, FILE_, n, k); int how = num("how", M_DIR, M_TREE);
    __vfs_put(t.e[0].rel, "x", 1);
    list(t, how, 2);
    __sym_cover("current end");
}
HARNESS(refused) {
    { error warm("x"); }
    __vfs_mkdir("d"); __vfs_put("f.txt", "x", 1); __vfs_link("gone", "none"); __vfs_link("l", "f.txt");
    char nm[16]; int which = num("which", 0, 5); bool file = false;
    char c = (char)__sym_range("name", 'a', 'z');
    switch (which) {
    case 0: nm[0] = c; nm[1] = '?'; nm[2] = 0; break;
    case 1: strcpy(nm, "d/?"); nm[2] = c; break;
    case 2: strcpy(nm, "f.txt/?"); nm[6] = c; break;
    case 3: strcpy(nm, "f.txt"); file = true; break;
    case 4: strcpy(nm, "gone"); break;
    case 5: strcpy(nm, "l"); file = true; break;
    }
    char base[600]; strcpy(base, __vfs_path(nm));
    long mk = __sym_leak_mark();
    {
        Module* m; path& p = open_path(m, var(base));
        bool bits = num("bits", 0, 1);
        CHECK(throws([&] { p.dir(bits); }), "only a directory can be listed");
        CHECK(throws([&] { p.tree(); }), "only a directory has a tree");
        if (!file) CHECK(throws([&] { p.rdir(bits); }), "what does not exist is refused");
        else {
            var v = p.rdir(bits); CHECK(v.defined() && v.size() == 1, "a file lists as itself");
            str_check(v.key(0), base, (int)strlen(base), "by its path");
            if (!bits) CHECK(!v.at(0).defined(), "with nothing else");
            else {
                CHECK(v.at(0).size() == 3, "three parts"); const var& b = v.at(0);
                str_check(b.at(1), nm, which == 3 ? 1 : 1, "the stem"); str_check(b.at(2), which == 3 ? ".txt" : "", which == 3 ? 4 : 0, "the extension");
                str_check(b.at(0), base, (int)(strlen(base) - strlen(nm) > 0 ? strlen(base) - strlen(nm) - 1 : 0), "the directory");
            }
        }
        delete m;
    }
    __sym_leak_check(mk, "nothing is left behind");
    __vfs_reset();
    __sym_cover("refused end");
}
// Listing again sees what has changed since, and what was listed before stays as it was
HARNESS(again) {
    Tree t; char n[4]; int k = sym_name(n, 1); t.add(-1, FILE_, n, k); t.make();
    char base[600]; strcpy(base, __vfs_path("d"));
    Module* m; path& p = open_path(m, var(base));
    bool all = num("all", 0, 1);
    var v = all ? p.rdir(true) : p.dir(true);
    Tree u = t; k = sym_name(n, 1); u.add(-1, FILE_, n, k); u.make(1);
    var w = all ? p.rdir(true) : p.dir(true);
    check_list(v, t, base, all, true); check_list(w, u, base, all, true);
    v.at(0).at(0) = 1;
    check_list(w, u, base, all, true);
    delete m; __vfs_reset();
    __sym_cover("again end");
}
HARNESS_T(shapes4) { shapes(4, 3); __sym_cover("shapes4 end"); }
HARNESS_T(siblings3) {
    Tree t; char n[4];
    for (int i = 0; i < 3; i++) { int k = sym_name(n, i == 2 ? 3 : 1); t.add(-1, FILE_, n, k); }
    t.make(); list(t, num("how", M_DIR, M_TREE), 0);
    __sym_cover("siblings3 end");
}
// A link to a directory lists as one entry; the tree has the entries of the directory below it
HARNESS(linked) {
    { error warm("x"); }
    char c = (char)__sym_range("name", 'a', 'z'), f[16] = "e/f?"; f[3] = c; int extra = num("more", 0, 1);
    __vfs_mkdir("e"); __vfs_put(f, "x", 1); if (extra) __vfs_put("e/g.t", "x", 1); __vfs_mkdir("d"); __vfs_put("d/a", "x", 1); __vfs_link("d/l", "../e");
    char base[600]; strcpy(base, __vfs_path("d"));
    long mk = __sym_leak_mark();
    {
        Module* m; path& p = open_path(m, var(base)); int how = num("how", 0, 2);
        if (how == 0) {
            var v = p.tree(); CHECK(v.size() == 2, "two entries");
            CHECK(v.index("a") && v.index("l"), "by name"); CHECK(!v["a"].defined(), "a file has nothing below it");
            var l = v["l"]; CHECK(l.defined() && l.size() == 1 + extra, "the entries of the directory"); CHECK((bool)l.index(f + 2), "by name"); if (extra) CHECK((bool)l.index("g.t"), "by name");
        }
        else {
            var v = how == 1 ? p.dir() : p.rdir(); char k[600]; CHECK(v.size() == 2, "the link is not followed");
            strcpy(k, base); strcat(k, "/a"); CHECK((bool)v.index(k), "a file"); strcpy(k, base); strcat(k, "/l"); CHECK((bool)v.index(k), "a link");
        }
        delete m;
    }
    __sym_leak_check(mk, "nothing is left behind");
    __vfs_reset();
    __sym_cover("linked end");
}

//! time_quick: 150
//! time_thorough: 850
//! bound: every function object of the library, string, stream and file function; two arguments of up to 4 numbers (scalar, array, matrix) within 10 bits, strings of up to 3 symbolic bytes, files of one or two records; the history f(a), f(b), f(a), results overwritten, f(a)
//! assume: whole numbers (functions of the C library are a fixed but unknown function); the stand-ins of the other checks
#include "mathops.h"
#include <lube/dft.h>
#include <lube/data.h>
#include <lube/path.h>
#include <lube/curl.h>
#include <lube/graph.h>
#include <sstream>
namespace libube { extern "C" {
void factory_txtfile(Module**, var); void factory_inifile(Module**, var); void factory_xmlfile(Module**, var);
void factory_gedfile(Module**, var); void factory_sndfile(Module**, var); void factory_path(Module**, var);
} }

// everything a variable holds, in a flat list
struct Flat {
    enum { CAP = 400 }; Elem e[CAP]; int n;
    Flat() : n(0) {}
    void word(long x) { put_(elem_int(TYPE_LONG, x)); }
    void put_(const Elem& x) { CHECK(n < CAP, "harness: too much to record"); e[n++] = x; }
    void add(var v) {
        if (!v.defined()) { word(-1); return; }
        int t = (int)v.atype(), n = v.size(); bool heap = v.heap() != 0;
        word(t); word(heap); word(n); word(v.view() ? v.dim() : 0);
        for (int i = 0; v.view() && i < v.dim(); i++) word(v.shape(i));
        for (int i = 0; i < n; i++)
            if (t == TYPE_VAR || t == TYPE_PAIR) { if (t == TYPE_PAIR) add(v.key(i)); var x; x = v.at(i); add(x); }
            else put_(raw(v, t, i));
    }
    bool operator==(const Flat& o) const {
        if (n != o.n) return false;
        bool ok = true;
        for (int i = 0; i < n; i++) ok &= e[i].t == o.e[i].t && bit_eq(e[i], o.e[i]);
        return ok;
    }
};
static Flat flat(const var& v) { Flat f; f.add(v); return f; }
// overwrite all of a result
static void scribble(var v, int depth = 0) {
    if (!v.defined() || !v.heap()) return;
    int t = (int)v.atype(), n = v.size();
    for (int i = 0; i < n; i++)
        switch (t) {
        case TYPE_CHAR: v.ptr<char>()[i] = '#'; break;
        case TYPE_INT: v.ptr<int>()[i] = 77; break;
        case TYPE_LONG: v.ptr<long>()[i] = 77; break;
        case TYPE_FLOAT: v.ptr<float>()[i] = 77; break;
        case TYPE_DOUBLE: v.ptr<double>()[i] = 77; break;
        case TYPE_CFLOAT: v.ptr<cfloat>()[i] = cfloat(77, 77); break;
        case TYPE_CDOUBLE: v.ptr<cdouble>()[i] = cdouble(77, 77); break;
        default: { var x; x = v.at(i); scribble(x, depth + 1); v[i] = var("#"); }
        }
    if (!v.view()) { if (t == TYPE_PAIR) v["#"] = "#"; else { v.resize(n + 1); if (n) v.resize(n - 1); } }
}
struct Result { bool threw; var v; };
template <class F> static Result call(F f, var& a) {
    Result r; r.threw = false;
    try { r.v = f(a); } catch (const std::exception&) { r.threw = true; }
    return r;
}
// what f gives depends on its argument only, and stays as it was
template <class F> static void history(F f, var a, var b) {
    Flat fa = flat(a), fb = flat(b);
    Result r1 = call(f, a); Flat k1 = flat(r1.v);
    CHECK(flat(a) == fa, "a function leaves its argument");
    Result r2 = call(f, b); Flat k2 = flat(r2.v);
    CHECK(flat(r1.v) == k1, "a result stays as it was when the function is used again");
    CHECK(flat(b) == fb, "a function leaves its argument");
    Result r3 = call(f, a);
    CHECK(r3.threw == r1.threw && flat(r3.v) == k1, "the same argument gives the same result");
    scribble(r3.v);
    CHECK(flat(r1.v) == k1 && flat(r2.v) == k2, "changing a result changes no other");
    CHECK(flat(a) == fa && flat(b) == fb, "changing a result does not change the argument");
    Result r4 = call(f, a);
    CHECK(r4.threw == r1.threw && flat(r4.v) == k1, "the same argument gives the same result whatever was done before");
    Result r5 = call(f, b);
    CHECK(r5.threw == r2.threw && flat(r5.v) == k2, "the same argument gives the same result whatever was done before");
    CHECK(flat(r1.v) == k1 && flat(r4.v) == k1, "a result stays as it was");
    scribble(a);
    CHECK(flat(r1.v) == k1 && flat(r4.v) == k1, "changing the argument does not change a result");
    __sym_cover("history end");
}
// an argument: scalar, array, matrix
static var arg_(int t, int k, int lo, int hi) {
    Arr a;
    switch (k) {
    case 0: { long x = __sym_range("elem", lo, hi), y = cplx_(t) ? __sym_range("imag", lo, hi) : 0; return elem_var(elem_int(t, x, y)); }
    case 1: int_arr(a, t, shape(3), 0, false, lo, hi); return a.v;
    case 2: int_arr(a, t, shape(2, 2), 1, true, lo, hi); return a.v;
    default: int_arr(a, t, shape(2), 0, false, lo, hi); return a.v;
    }
}
template <class O> struct Ref1 { const O& o; Ref1(const O& x) : o(x) {} var operator()(var& a) const { return o(a); } };
template <class O> static Ref1<O> fn(const O& o) { return Ref1<O>(o); }
#define ONE(O, TLO, THI) { int t = num("type", TLO, THI), k = num("first", 0, 2), q = THOROUGH ? num("second", 0, 2) : (int)(k == 0 ? 1 : k); \
    var a = arg_(t, k, 1, 9), b = arg_(t, q, 1, 9); history(fn(O), a, b); }
HARNESS(sin) ONE(libube::sin, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(cos) ONE(libube::cos, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(tan) ONE(libube::tan, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(atan) ONE(libube::atan, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(floor) ONE(libube::floor, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(sqrt) ONE(libube::sqrt, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(log) ONE(libube::log, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(exp) ONE(libube::exp, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(real) ONE(libube::real, TYPE_CFLOAT, TYPE_CDOUBLE)
HARNESS(imag) ONE(libube::imag, TYPE_CFLOAT, TYPE_CDOUBLE)
HARNESS(abs) ONE(libube::abs, TYPE_INT, TYPE_DOUBLE)
HARNESS(norm) ONE(libube::norm, TYPE_CFLOAT, TYPE_CDOUBLE)
HARNESS(sum) ONE(libube::sum, TYPE_INT, TYPE_CDOUBLE)
HARNESS(asum) ONE(libube::asum, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(iamax) ONE(libube::iamax, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(transpose) ONE(libube::transpose, TYPE_FLOAT, TYPE_CDOUBLE)
HARNESS(cast_int) ONE(castInt, TYPE_CHAR, TYPE_CDOUBLE)
HARNESS(cast_double) ONE(castDouble, TYPE_CHAR, TYPE_CDOUBLE)
HARNESS(cast_cdouble) ONE(castCDouble, TYPE_CHAR, TYPE_CFLOAT)
HARNESS(sort) { int t = num("type", TYPE_CHAR, TYPE_DOUBLE); var a = arg_(t, 1, 1, 9), b = arg_(t, 3, 1, 9); history(fn(libube::sort), a, b); }
HARNESS(sort_member) { int t = num("type", TYPE_INT, TYPE_FLOAT); var a = arg_(t, 1, 1, 9), b = arg_(t, 3, 1, 9); history([](var& x) { return x.sort(); }, a, b); }
HARNESS(poly) { int t = num("type", TYPE_FLOAT, TYPE_DOUBLE); var a = arg_(t, 1, 1, 9), b = arg_(t, 3, 1, 9); history(fn(libube::poly), a, b); }

// two operands: {a, b}
#define TWO(O, TLO, THI) { \
    int t = num("type", TLO, THI), k = num("first", 0, 2), q = k ? num("second", 0, 1) * k : 0; \
    var a, b; a[0] = arg_(t, k, 1, 9); a[1] = arg_(t, q, 1, 9); b[0] = arg_(t, THOROUGH ? k : 0, 1, 9); b[1] = arg_(t, 0, 1, 9); \
    history([](var& x) { var l, r; l = x.at(0); r = x.at(1); return (O)(l, r); }, a, b); }
HARNESS(add) TWO(libube::add, TYPE_INT, TYPE_CDOUBLE)
HARNESS(sub) TWO(libube::sub, TYPE_INT, TYPE_CDOUBLE)
HARNESS(mul) TWO(libube::mul, TYPE_INT, TYPE_CDOUBLE)
HARNESS(div) TWO(libube::div, TYPE_INT, TYPE_DOUBLE)
HARNESS(pow) TWO(libube::pow, TYPE_FLOAT, TYPE_DOUBLE)
HARNESS(set) TWO(libube::set, TYPE_INT, TYPE_CDOUBLE)
HARNESS(dot) TWO(libube::dot, TYPE_FLOAT, TYPE_CDOUBLE)
HARNESS(concatenate) {
    int t = num("type", TYPE_FLOAT, TYPE_CDOUBLE), k = num("kind", 1, 2); var a, b;
    a[0] = arg_(t, k, 1, 9); a[1] = arg_(t, k, 1, 9); b[0] = arg_(t, 2, 1, 9); b[1] = arg_(t, 2, 1, 9);
    history(fn(concatenate), a, b);
}
HARNESS(copies) {
    int t = num("type", TYPE_CHAR, TYPE_CDOUBLE), k = num("kind", 0, 2);
    var a = arg_(t, k, 1, 9), b = arg_(t, 1, 1, 9);
    history([](var& x) { return x.copy(); }, a, b);
    history([](var& x) { return x.shape(); }, a, b);
}
HARNESS(allocated_views) {
    // a new view is new storage whatever gives its type
    int t = num("type", TYPE_CHAR, TYPE_CDOUBLE);
    var a = elem_var(elem_int(t, __sym_range("a", 1, 9))), b = elem_var(elem_int(t, __sym_range("b", 1, 9)));
    history([](var& x) { return var({2, 2}, x); }, a, b);
    Flat fa = flat(a);
    var v = libube::view({2, 3}, a), w = libube::view({2}, a), s; s.push(2); s.push(2); var u = libube::view(s, a);
    CHECK((int)v.atype() == t && v.size() == 6 && (int)w.atype() == t && w.size() == 2 && (int)u.atype() == t && u.size() == 4, "type and size");
    CHECK(flat(a) == fa, "the value giving the type is left alone");
    CHECK(!v.is(w) && !v.is(u) && !w.is(u) && !v.is(a), "new storage");
    __sym_cover("allocated end");
}
HARNESS(ranges) {
    var a, b; a[0] = (int)__sym_range("lo", 0, 2); a[1] = (int)__sym_range("hi", 1, 3); b[0] = 1; b[1] = (int)__sym_range("hi", 1, 3);
    int k = num("which", 0, 1);
    history([=](var& x) { var l, h; l = x.at(0); h = x.at(1); return k ? range(l, h) : irange(l, h); }, a, b);
}

// strings
static var text(int lo, int hi) {
    char s[8]; int n = num("len", lo, hi);
    for (int i = 0; i < n; i++) s[i] = (char)__sym_range("byte", 32, 126);
    return var(n, s);
}
#define STR(EXPR) { var a = text(0, 2), b = text(THOROUGH ? 0 : 1, THOROUGH ? 2 : 1); history([](var& x) { return (EXPR); }, a, b); }
HARNESS(toupper) STR(libube::toupper(x))
HARNESS(tolower) STR(libube::tolower(x))
HARNESS(strip) STR(libube::strip(x))
HARNESS(split) STR(x.split())
HARNESS(split_at) STR(x.split(","))
HARNESS(search) STR(x.search("b(a*)"))
HARNESS(match) STR(x.match("b(a*)"))
HARNESS(replace) STR(x.copy().replace("b", "cc"))
HARNESS(join) {
    var a, b; a[0] = text(0, 1); a[1] = text(0, 1); b[0] = text(1, 1); b[1] = var("x");
    history([](var& x) { return x.join(","); }, a, b);
}
HARNESS(string_lists) {
    // functions of strings reach into arrays; the result is an array of its own
    var a, b; a[0] = text(1, 1); a[1] = text(0, 1); b[0] = text(1, 1); b[1] = var(" x ");
    int k = num("which", 0, 2);
    history([=](var& x) { return k == 0 ? libube::toupper(x) : k == 1 ? libube::tolower(x) : libube::strip(x); }, a, b);
}

// reading and writing JSON
static var write_(const var& x) { varstream s; s << x; return var(s); }
static var read_(const var& t) { varstream s(t.copy()); var v; s >> v; return v; }
static var tree_(int k) {
    switch (k) {
    case 0: return var((int)__sym_range("int", 0, 99));
    case 1: return text(0, 1);
    case 2: { var v; v.push(1); v.push((int)__sym_range("int", 0, 9)); return v; }
    default: { var m; char c[2] = {(char)__sym_range("key", 'a', 'z'), 0}; m[c] = (int)__sym_range("int", 0, 9); m["A"] = var("x"); return m; }
    }
}
HARNESS(json_write) { int k = num("first", 0, 3), q = num("second", 0, 3); var a = tree_(k), b = tree_(q); history([](var& x) { return write_(x); }, a, b); }
HARNESS(json_read) {
    int k = num("first", 0, 3), q = num("second", 0, 3); var a = write_(tree_(k)), b = write_(tree_(q));
    int bad = num("bad", 0, 1); if (bad) b.pop(); // one that is cut short comes between
    history([](var& x) { return read_(x); }, a, b);
}
HARNESS(messages) {
    char c[2] = {(char)__sym_range("a", 32, 126), 0}, d[2] = {(char)__sym_range("b", 32, 126), 0};
    error e(c); const char* w = e.what(); int n = (int)strlen(w); CHECK(n < 200, "harness: message too long"); char keep[200]; memcpy(keep, w, n + 1);
    { error f(d); const char* x = f.what(); CHECK(x != w, "another message"); CHECK(!memcmp(w, keep, n + 1), "the message stays when there is another"); error g(e); CHECK(!memcmp(g.what(), keep, n + 1), "a copy has the message"); error h(c); CHECK(!memcmp(h.what(), keep, n + 1), "the same message again"); }
    CHECK(!memcmp(e.what(), keep, n + 1) && !memcmp(w, keep, n + 1), "the message stays");
    __sym_cover("messages end");
}
HARNESS(streams) {
    // several streams at a time
    char c = (char)__sym_range("a", 'a', 'z'), d = (char)__sym_range("b", 'a', 'z');
    varstream s, t; s << c; t << d << d; s << d;
    char x[3] = {c, d, 0}, y[3] = {d, d, 0};
    CHECK(!strcmp(s.str(), x) && !strcmp(t.str(), y), "each stream has its own text");
    { varstream u; u << "other"; }
    char g = 0; s >> g; CHECK(g == c, "reading one"); t >> g; CHECK(g == d, "does not move the other"); s >> g; CHECK(g == d, "reading on");
    __sym_cover("streams end");
}

// files, through one handler and through two
struct H { Module* m; file* f; H(void (*fac)(Module**, var)) { m = 0; fac(&m, var()); f = dynamic_cast<file*>(m); } ~H() { delete m; } };
static void put_text(const char* name, const char* s) { __vfs_put(name, s, (long)strlen(s)); }
static void files(void (*fac)(Module**, var)) {
    var a("one"), b("two");
    H h(fac), g(fac);
    int w = num("handlers", 1, 2); int calls = 0;
    history([&](var& x) { file* f = w == 2 && calls++ % 2 ? g.f : h.f; return f->read(__vfs_path(x.str())); }, a, b);
}
static char letter(const char* n) { return (char)__sym_range(n, 'a', 'z'); }
HARNESS(txt) {
    char s[] = "x y\nz\n", t[] = "q\n"; s[0] = letter("a"); t[0] = letter("b");
    put_text("one", s); put_text("two", t); files(factory_txtfile);
}
HARNESS(ini) {
    char s[] = "[S]\nk=1\nj=x\n", t[] = "k=2\n[S]\nl=3\n"; s[1] = letter("a"); t[5] = letter("b"); s[6] = letter("c"); t[2] = letter("d");
    int bad = num("bad", 0, 1); if (bad) memcpy(t, "oops\n", 6);
    put_text("one", s); put_text("two", t); files(factory_inifile);
}
HARNESS(xml) {
    char s[] = "<a b=\"x\"><c>t</c></a>", t[] = "<d>u<e/></d>"; s[6] = letter("a"); s[12] = letter("b"); t[3] = letter("c");
    int bad = num("bad", 0, 1); if (bad) t[5] = 'z', t[6] = '<';
    put_text("one", s); put_text("two", t); files(factory_xmlfile);
}
HARNESS(gedcom) {
    char s[] = "0 HEAD\n0 @I1@ INDI\n1 NAME A\n1 SEX M\n0 @I2@ INDI\n1 NAME B\n0 @F1@ FAM\n1 HUSB @I1@\n1 CHIL @I2@\n0 TRLR\n", t[] = "0 HEAD\n0 @I1@ INDI\n1 NAME C\n0 TRLR\n";
    s[26] = (char)__sym_range("a", 'A', 'Z'); t[26] = (char)__sym_range("b", 'A', 'Z');
    int bad = num("bad", 0, 1); if (bad) t[20] = '\n';
    put_text("one", s); put_text("two", t); files(factory_gedfile);
}
HARNESS(snd) {
    float d[6], e[2]; for (int i = 0; i < 6; i++) d[i] = (float)__sym_range("sample", -99, 99); e[0] = (float)__sym_range("sample", -99, 99); e[1] = 2;
    int ch = num("channels", 1, 2);
    __vfs_path("one"); __stub_snd_put("one", 16000, ch, 6 / ch, d); __stub_snd_put("two", 8000, 1, 2, e); files(factory_sndfile);
}
HARNESS(transform) {
    int t = num("type", TYPE_FLOAT, TYPE_CDOUBLE), inv = cplx_(t) ? num("inverse", 0, 1) : 0, k = num("matrix", 0, 1);
    Arr a, b; int_arr(a, t, k ? shape(2, 2) : shape(2), 1, true, -9, 9); int_arr(b, t, shape(2), 1, true, -9, 9);
    DFTBase f(2, inv, elem_var(elem_int(t, 0)));
    history([&](var& x) { return f(x); }, a.v, b.v);
    // nor does another one matter
    DFTBase g(2, inv, elem_var(elem_int(t, 0)));
    var r = f(a.v); Flat k1 = flat(r); var q = g(b.v);
    CHECK(flat(r) == k1 && !r.is(q), "a result stays as it was when another transform is used");
    __sym_cover("transform end");
}

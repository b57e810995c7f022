//! time_quick: 200
//! time_thorough: 850
//! bound: all byte strings of 1 byte (thorough 3) but vertical tab and form feed, of 2 and 3 bytes (thorough 4) over []{}":,\\ 01a-. ; texts of up to 3 values (thorough 4) built by the grammar with symbolic digits, letters and white space; every unicode escape and surrogate pair; every truncation of a set of texts; nesting up to 30; arrays of 9, 20 and 70 numbers with a fraction, null, string or array at one of 5 places
//! assume: numbers of at most 5 digits before the exponent
#include "common.h"

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static const int EOF_ = std::char_traits<char>::eof();
static bool ws(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
static bool dig(char c) { return (unsigned char)(c - '0') < 10; }
static bool delim(char c) { return (c == ',') | (c == ':') | (c == '[') | (c == ']') | (c == '{') | (c == '}') | (c == '"') | ws(c); }
// read text s[0, n); true if it gave a value
static bool read_(const char* s, int n, var& v, varstream& st) {
    try { st >> v; } catch (const std::exception&) { return false; }
    return true;
}
// ---- every byte string: terminates, no memory error, nothing left behind; what has to be refused is
enum { VALUE, REFUSE, OTHER };
struct Num { bool is, real; bool neg; long m; int scale; };
// s[0, n) as a JSON number without exponent
static Num number(const char* s, int n) {
    Num r = {false, false, false, 0, 0}; int i = 0;
    if (i < n && s[i] == '-') { r.neg = true; i++; }
    if (i >= n || !dig(s[i])) return r;
    if (s[i] == '0') i++;
    else while (i < n && dig(s[i])) r.m = r.m * 10 + (s[i++] - '0');
    if (i < n && s[i] == '.') {
        r.real = true; i++;
        if (i >= n || !dig(s[i])) return r;
        while (i < n && dig(s[i])) { r.m = r.m * 10 + (s[i++] - '0'); r.scale++; }
    }
    r.is = i == n;
    return r;
}
static const double P10[] = {1, 10, 100, 1000, 10000, 100000};
static void is_number(const var& v, const Num& r, const char* msg) {
    CHECK(v.defined() && !v.heap(), msg);
    if (!v.defined() || v.heap()) return;
    if (r.real) {
        CHECK(v.atype<double>(), msg);
        double d = (double)r.m; if (r.scale) d = d / P10[r.scale]; if (r.neg) d = -d;
        if (v.atype<double>()) CHECK(v.get<double>() == d, msg);
    } else {
        CHECK(v.atype<long>(), msg);
        if (v.atype<long>()) CHECK(v.get<long>() == (r.neg ? -r.m : r.m), msg);
    }
}
static const char ALPHA[] = "[]{}\":,\\ 01a-.";
static void any(int n, bool full) {
    char s[8]; long mk = __sym_leak_mark();
    for (int i = 0; i < n; i++)
        if (full) { s[i] = (char)__sym_bits("byte", 8); __sym_assume((s[i] != '\v') & (s[i] != '\f')); }
        else s[i] = ALPHA[num("byte", 0, 13)];
    s[n] = 0;
    {
        var text(n, s), v;
        varstream st(text);
        bool ok = read_(s, n, v, st);
        str_check(text, s, n, "reading leaves the text alone");
        int b = 0; while (b < n && ws(s[b])) b++;
        if (b == n) { CHECK(!ok, "nothing is not a value"); }
        else if (s[b] == '"') {
            // a string without escapes
            int e = b + 1; while (e < n && s[e] != '"' && s[e] != '\\') e++;
            if (e == n) CHECK(!ok, "an unterminated string is refused");
            else if (s[e] == '"') {
                CHECK(ok, "a string is accepted");
                if (ok) { str_check(v, s + b + 1, e - b - 1, "the string it denotes"); CHECK(st.peek() == (e + 1 < n ? (int)(unsigned char)s[e + 1] : EOF_), "reading ends after the value"); }
            }
        } else if (s[b] == '[' || s[b] == '{') {
            char close = s[b] == '[' ? ']' : '}';
            bool has = false; for (int i = b + 1; i < n; i++) has |= s[i] == close;
            if (!has) CHECK(!ok, "an unterminated container is refused");
            int e = b + 1; while (e < n && ws(s[e])) e++;
            if (e < n && s[e] == close) {
                CHECK(ok, "an empty container is accepted");
                if (ok) CHECK(v.defined() && v.heap() && v.size() == 0 && ((int)v.atype() == TYPE_PAIR) == (close == '}') && !v.atype<char>(), "an empty container is what it denotes");
            }
        } else {
            int e = b; while (e < n && !delim(s[e])) e++;
            Num r = number(s + b, e - b);
            if (r.is) {
                CHECK(ok, "a number is accepted");
                if (ok) { is_number(v, r, "the number it denotes"); }
            } else {
                bool odd = e == b; // a character that no number has
                for (int i = b; i < e; i++) odd |= !(dig(s[i]) | (s[i] == '-') | (s[i] == '+') | (s[i] == '.') | (s[i] == 'e') | (s[i] == 'E') | (s[i] == 0));
                if (odd) CHECK(!ok, "an unknown literal is refused");
            }
        }
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("any end");
}
HARNESS(any01) { any(num("len", 0, 1), true); }
HARNESS(any23) { any(num("len", 2, 3), false); }
HARNESS_T(any2_full) { any(2, true); }
HARNESS_T(any3_full) { any(3, true); }
HARNESS_T(any4) { any(4, false); }
// ---- texts of the grammar
struct Text { char s[128]; int n; };
static Text tx;
static void put(char c) { tx.s[tx.n++] = c; }
static void puts_(const char* s) { while (*s) put(*s++); }
static bool spaced; static int nws;
static void space() {
    if (!spaced) return;
    char c = (char)__sym_range("space", 9, 32);
    __sym_assume(ws(c));
    put(c);
    if (nws++ == 0) { put('\n'); put(' '); }
}
enum { NIL, TRUE_, FALSE_, INT, REAL, STR, ARR, OBJ };
struct Node { int kind, n; Num x; char c; Node* ch[2]; char key[2]; };
static Node pool[10]; static int used, budget; static bool lean; // digits and letters vary less in the larger texts
static Node* gen(int depth) {
    Node* p = &pool[used++]; budget--;
    p->kind = num("kind", NIL, depth ? OBJ : STR); p->n = 0;
    switch (p->kind) {
    case NIL: puts_("null"); break;
    case TRUE_: puts_("true"); break;
    case FALSE_: puts_("false"); break;
    case INT: case REAL: {
        int form = num("form", 0, lean ? 0 : 2), d = tx.n;
        if (form == 1) put('-');
        put((char)__sym_range("digit", '1', '9'));
        if (form == 2) put((char)__sym_range("digit", '0', '9'));
        if (p->kind == REAL) { put('.'); put((char)__sym_range("digit", '0', '9')); }
        p->x = number(tx.s + d, tx.n - d);
        break;
    }
    case STR: p->n = lean ? 1 : num("len", 0, 1); put('"'); if (p->n) { p->c = (char)__sym_range("letter", 32, 126); __sym_assume(p->c != '"' && p->c != '\\'); put(p->c); } put('"'); break;
    case ARR: case OBJ:
        put(p->kind == ARR ? '[' : '{');
        p->n = num("count", 0, budget < 2 ? budget : 2);
        space();
        for (int i = 0; i < p->n; i++) {
            if (budget <= 0) { p->n = i; break; }
            if (i) { put(','); space(); }
            if (p->kind == OBJ) { p->key[i] = (char)__sym_range("key", i ? 'n' : 'a', i ? 'z' : 'm'); put('"'); put(p->key[i]); put('"'); space(); put(':'); space(); }
            p->ch[i] = gen(depth - 1);
            space();
        }
        put(p->kind == ARR ? ']' : '}');
        break;
    }
    return p;
}
static bool isnum(const Node* p) { return p->kind == INT || p->kind == TRUE_ || p->kind == FALSE_ || p->kind == REAL; }
static void same(const var& v, const Node* p, bool inarray) {
    switch (p->kind) {
    case NIL: CHECK(!v.defined(), "null"); break;
    case TRUE_: CHECK(v.defined() && !v.heap() && v.cast<double>() == 1, "true"); break;
    case FALSE_: CHECK(v.defined() && !v.heap() && v.cast<double>() == 0, "false"); break;
    case INT: case REAL:
        if (inarray) { // mixed arrays of numbers have the widest type
            CHECK(v.defined() && !v.heap(), "number in an array");
            double d = (double)p->x.m; if (p->x.scale) d = d / P10[p->x.scale]; if (p->x.neg) d = -d;
            if (v.defined() && !v.heap()) CHECK(v.cast<double>() == d, "number in an array");
        } else is_number(v, p->x, "number");
        break;
    case STR: str_check(v, &p->c, p->n, "string"); break;
    case ARR:
        CHECK(v.defined() && v.heap() && (int)v.atype() != TYPE_PAIR && !v.atype<char>() && v.size() == p->n, "array");
        for (int i = 0; i < p->n; i++) same(v.at(i), p->ch[i], true);
        break;
    case OBJ:
        CHECK(v.defined() && v.heap() && (int)v.atype() == TYPE_PAIR && v.size() == p->n, "object");
        for (int i = 0; i < p->n; i++) { CHECK(str_eq(v.key(i), &p->key[i], 1), "key"); same(v.at(i), p->ch[i], false); }
        break;
    }
}
static void grammar(int b, int depth, bool sp) {
    long mk = __sym_leak_mark();
    used = 0; budget = b; spaced = sp; lean = b > 2; nws = 0; tx.n = 0;
    space();
    Node* p = gen(depth);
    int end = tx.n;
    put(','); put('Q'); tx.s[tx.n] = 0;
    {
        var text(tx.n, tx.s), v;
        varstream st(text);
        st >> v;
        same(v, p, false);
        CHECK(st.get() == ',' && st.get() == 'Q' && st.get() == EOF_, "reading ends directly after the value");
        // every truncation of a container or a string is refused
        if (p->kind >= STR && !sp) {
            int cut = num("cut", 1, end - 1);
            if (cut > 0) {
                var part(cut, tx.s), w; varstream ps(part);
                CHECK(!read_(tx.s, cut, w, ps), "a text that is cut short is refused");
            }
        }
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("grammar end");
}
HARNESS(grammar1) { grammar(1, 1, false); }
HARNESS(grammar2) { grammar(2, 1, false); }
HARNESS(grammar2_spaced) { grammar(2, 1, true); }
HARNESS(grammar3) { grammar(3, 2, false); }
HARNESS_T(grammar3_spaced) { grammar(3, 2, true); }
HARNESS_T(grammar4) { grammar(4, 3, false); }
// ---- escapes
static int utf8(unsigned c, char* o) {
    if (c < 0x80) { o[0] = (char)c; return 1; }
    if (c < 0x800) { o[0] = (char)(0xC0 | c >> 6); o[1] = (char)(0x80 | (c & 63)); return 2; }
    if (c < 0x10000) { o[0] = (char)(0xE0 | c >> 12); o[1] = (char)(0x80 | (c >> 6 & 63)); o[2] = (char)(0x80 | (c & 63)); return 3; }
    o[0] = (char)(0xF0 | c >> 18); o[1] = (char)(0x80 | (c >> 12 & 63)); o[2] = (char)(0x80 | (c >> 6 & 63)); o[3] = (char)(0x80 | (c & 63)); return 4;
}
static unsigned hex4(bool upper) {
    unsigned c = 0;
    for (int i = 0; i < 4; i++) {
        unsigned d = (unsigned)__sym_range("hex", 0, 15);
        put((char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10));
        c = c << 4 | d;
    }
    return c;
}
HARNESS(escapes) {
    char c = (char)__sym_bits("escape", 8); char s[] = {'"', 'a', '\\', c, 'b', '"'};
    __sym_assume(c != 'u');
    var text(6, s), v; varstream st(text);
    bool ok = read_(s, 6, v, st);
    static const char FROM[] = "\"\\/bfnrt", TO[] = "\"\\/\b\f\n\r\t";
    int k = -1; for (int i = 0; i < 8; i++) if (c == FROM[i]) k = i;
    CHECK(ok == (k >= 0), "the escapes of JSON are accepted, others refused");
    if (ok && k >= 0) { char w[] = {'a', TO[k], 'b'}; str_check(v, w, 3, "the character it denotes"); }
    __sym_cover("escapes end");
}
HARNESS(unicode) {
    tx.n = 0; bool up = num("upper", 0, 1);
    puts_("\"\\u"); unsigned c = hex4(up); put('x'); put('"');
    var text(tx.n, tx.s), v; varstream st(text);
    bool ok = read_(tx.s, tx.n, v, st);
    bool sur = c >= 0xD800 && c < 0xE000;
    CHECK(ok == !sur, "a code point is accepted, half of a surrogate pair refused");
    if (ok && !sur) { char w[8]; int n = utf8(c, w); w[n++] = 'x'; str_check(v, w, n, "the code point as UTF-8"); }
    __sym_cover("unicode end");
}
HARNESS(surrogates) {
    tx.n = 0;
    puts_("\"\\u"); unsigned a = hex4(false); puts_("\\u"); unsigned b = hex4(false); put('"');
    __sym_assume(a >= 0xD800 && a < 0xDC00);
    var text(tx.n, tx.s), v; varstream st(text);
    bool ok = read_(tx.s, tx.n, v, st), pair = b >= 0xDC00 && b < 0xE000;
    CHECK(ok == pair, "a surrogate pair is accepted");
    if (ok && pair) { char w[8]; int n = utf8(0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00), w); str_check(v, w, n, "the code point as UTF-8"); }
    __sym_cover("surrogates end");
}
HARNESS(badhex) {
    int at = num("at", 0, 3); char s[16] = "\"\\u0041z\"", c = (char)__sym_bits("byte", 8);
    s[3 + at] = c;
    bool hex = dig(c) || ((unsigned char)((c | 32) - 'a') < 6);
    __sym_assume(!hex);
    var text(9, s), v; varstream st(text);
    CHECK(!read_(s, 9, v, st), "four hexadecimal digits");
    __sym_cover("badhex end");
}
// ---- numbers
HARNESS(exponents) {
    static const char* const S[] = {"1e3", "-2.5E-2", "1E+2", "0.001", "0e0", "-0", "12e0", "100000", "1.5e10"};
    static const double D[] = {1e3, -2.5e-2, 1e2, 0.001, 0, 0, 12, 100000, 1.5e10};
    int i = num("which", 0, 8);
    var text = S[i], v; varstream st(text); st >> v;
    CHECK(v.defined() && !v.heap() && v.cast<double>() == D[i], "the number it denotes");
    __sym_cover("exponents end");
}
HARNESS(decimals) {
    tx.n = 0; if (num("neg", 0, 1)) put('-');
    int a = num("whole", 1, 3), b = num("frac", 0, 2);
    for (int i = 0; i < a; i++) put((char)__sym_range("digit", i ? '0' : a == 1 ? '0' : '1', '9'));
    if (b) { put('.'); for (int i = 0; i < b; i++) put((char)__sym_range("digit", '0', '9')); }
    int end = tx.n;
    put(" ]},"[b ? 2 : num("after", 0, 3)]);
    var text(tx.n, tx.s), v; varstream st(text); st >> v;
    is_number(v, number(tx.s, end), "the number it denotes");
    CHECK(st.get() == tx.s[end], "reading ends directly after the number");
    __sym_cover("decimals end");
}
HARNESS(literals) {
    static const char* const L[] = {"true", "false", "null"};
    int k = num("which", 0, 2), n = (int)strlen(L[k]); char s[8]; memcpy(s, L[k], n);
    int at = num("at", 0, n - 1);
    s[at] = (char)__sym_range("byte", 33, 126);
    __sym_assume(!delim(s[at]));
    int cut = num("cut", 0, 2);
    if (cut == 1) n--; if (cut == 2) s[n++] = 'x';
    bool good = cut == 0 && s[at] == L[k][at];
    var text(n, s), v; varstream st(text);
    CHECK(read_(s, n, v, st) == good, "true, false and null, nothing like them");
    __sym_cover("literals end");
}
// ---- deep nesting, closed or not
HARNESS(deep) {
    int d = num("depth", 1, 30), closed = num("closed", 0, 1), obj = num("object", 0, 1); tx.n = 0;
    static char big[256]; int n = 0;
    for (int i = 0; i < d; i++) { if (obj) { memcpy(big + n, "{\"a\":", 5); n += 5; } else big[n++] = '['; }
    big[n++] = '1';
    if (closed) for (int i = 0; i < d; i++) big[n++] = obj ? '}' : ']';
    long mk = __sym_leak_mark();
    {
        var text(n, big), v; varstream st(text);
        bool ok = read_(big, n, v, st);
        CHECK(ok == (bool)closed, "closed as deep as it was opened");
        if (ok) for (int i = 0; i < d; i++) { CHECK(v.size() == 1, "one element on each level"); var w = v.at(0); v = w; }
        if (ok) CHECK(v.cast<long>() == 1, "the innermost value");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("deep end");
}
// the last of equal keys wins
HARNESS(samekey) {
    tx.n = 0; char a = (char)__sym_range("key", 'a', 'z'), b = (char)__sym_range("key", 'a', 'z');
    puts_("{\""); put(a); puts_("\":1,\""); put(b); puts_("\":2}");
    var text(tx.n, tx.s), v; varstream st(text); st >> v;
    CHECK(v.size() == (a == b ? 1 : 2), "each key once");
    CHECK(v[var(1, &b)].cast<long>() == 2, "the last value");
    if (a != b) CHECK(v[var(1, &a)].cast<long>() == 1, "the first value");
    __sym_cover("samekey end");
}
// numbers of which only one has a fraction, or of which one is no number at all
HARNESS(mixture) {
    static char big[600]; int n = 0, count = num("count", 0, 2) == 0 ? 9 : num("more", 0, 1) ? 70 : 20, at = num("at", 0, 4), odd = num("odd", 0, 4); at = at == 4 ? count - 1 : at == 3 ? count - 2 : at * count / 4;
    char d = (char)__sym_range("digit", '0', '9'); static const char* const T[] = {"2.5", "null", "\"s\"", "[7]", "1e2"};
    big[n++] = '[';
    for (int i = 0; i < count; i++) {
        if (i) big[n++] = ',';
        if (i == at) { for (const char* p = T[odd]; *p; p++) big[n++] = *p; } else { big[n++] = (char)('1' + i % 9); big[n++] = d; }
    }
    big[n++] = ']';
    var text(n, big), v; varstream st(text); st >> v;
    CHECK(v.defined() && v.heap() && v.size() == count, "as many elements");
    for (int i = 0; i < count; i++) {
        const var e = v.at(i);
        if (i != at) { CHECK(e.defined() && !e.heap() && (odd == 0 || odd == 4 ? e.cast<double>() == (1 + i % 9) * 10 + (d - '0') : e.cast<long>() == (1 + i % 9) * 10 + (d - '0')), "the numbers"); continue; }
        switch (odd) {
        case 0: CHECK(!e.heap() && e.cast<double>() == 2.5, "the fraction"); break;
        case 1: CHECK(!e.defined(), "null"); break;
        case 2: str_check(e, "s", 1, "the string"); break;
        case 3: CHECK(e.heap() && e.size() == 1 && e.at(0).cast<long>() == 7, "the array"); break;
        case 4: CHECK(!e.heap() && e.cast<double>() == 100, "the exponent"); break;
        }
    }
    __sym_cover("mixture end");
}

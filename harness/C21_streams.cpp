//! time_quick: 100
//! time_thorough: 850
//! bound: histories of 4 (thorough 5) reads, put-backs, peeks, re-positionings and writes on strings of up to 3 bytes of any value; strings of up to 3 bytes written in pieces; files of up to 6 (thorough 8) bytes of any value read as lines; lines of 61-66 and 125-130 (thorough also 253-257) bytes and of 511 and 1023 bytes with symbolic bytes around the steps of the buffer, terminated or not
//! assume: positions are moved to absolute offsets (the buffer does not implement relative ones); failed reads are followed by clear()
#include "common.h"
#include <iostream>
#include <sstream>

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static char byte(const char* n = "byte") { return (char)__sym_range(n, -128, 127); }
static int bytes(char* s, int lo, int hi) { int n = num("len", lo, hi); for (int i = 0; i < n; i++) s[i] = byte(); s[n] = 0; return n; }
static const int MAX = 64;
static void is_str(const var& v, const char* s, int n, const char* m) {
    CHECK(v.defined() && v.heap() && v.atype<char>() && v.dim() == 1, m);
    CHECK(v.size() == n, m);
    if (v.size() == n) for (int i = 0; i < n; i++) CHECK(v[i].get<char>() == s[i], m);
}

// every kind of write appends
HARNESS(write) {
    long mk = __sym_leak_mark();
    {
        char s[MAX]; int n = 0, undef = num("undefined", 0, 1);
        var v, other;
        if (!undef) { n = bytes(s, 0, 2); v = var(n, s); other = v.copy(); }
        int n0 = n; char s0[4]; memcpy(s0, s, 3);
        varstream st(v);
        int ops = num("writes", 1, THOROUGH ? 3 : 2);
        for (int i = 0; i < ops; i++) switch (num("kind", 0, 4)) {
            case 0: { char c = byte(); st.put(c); s[n++] = c; break; }
            case 1: { char t[4]; int k = bytes(t, 0, 2); st.write(t, k); memcpy(s + n, t, k); n += k; break; }
            case 2: { char t[4]; int k = bytes(t, 1, 2); for (int j = 0; j < k; j++) __sym_assume(t[j] != 0); st << t; memcpy(s + n, t, k); n += k; break; }
            case 3: { char c = byte(); st << c; s[n++] = c; break; }
            case 4: { int k = (int)__sym_range("int", 10, 99); st << k; s[n++] = (char)('0' + k / 10); s[n++] = (char)('0' + k % 10); break; }
        }
        CHECK(st.good(), "stream state after writing");
        is_str(var(st), s, n, "string of the stream");
        if (!undef) { is_str(v, s, n, "string given to the stream"); is_str(other, s0, n0, "a copy of it"); }
        char r[MAX]; st.read(r, n);
        CHECK(st.gcount() == n && st.good(), "reads back what was written");
        for (int i = 0; i < n; i++) CHECK(r[i] == s[i], "bytes read back");
        CHECK(st.get() == std::char_traits<char>::eof() && st.eof(), "then end of file");
        is_str(var(st), s, n, "reading leaves the string");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("write end");
}

// histories of reads and writes; the model is a string and a position
static void history(int steps) {
    char s[MAX]; int n = bytes(s, 0, 3), pos = 0; bool canput = false;
    var v(n, s);
    varstream st(v);
    const int EOF_ = std::char_traits<char>::eof();
    for (int i = 0; i < steps; i++) {
        switch (num("op", 0, 8)) {
        case 0: { // get
            int c = st.get();
            if (pos < n) { CHECK(c == (int)(unsigned char)s[pos], "get: byte"); CHECK(st.good(), "get: state"); pos++; canput = true; }
            else { CHECK(c == EOF_ && st.eof() && st.fail() && !st.bad(), "get: end of file"); st.clear(); canput = pos > 0; }
            break;
        }
        case 1: { // peek
            int c = st.peek();
            if (pos < n) { CHECK(c == (int)(unsigned char)s[pos] && st.good(), "peek: byte"); }
            else { CHECK(c == EOF_ && st.eof(), "peek: end of file"); st.clear(); }
            break;
        }
        case 2: // put the last byte back
            if (pos == 0) continue;
            st.putback(s[pos - 1]); pos--;
            CHECK(st.good(), "putback");
            break;
        case 3:
            st.unget();
            if (pos == 0) { CHECK(st.bad(), "unget at the start is refused"); st.clear(); }
            else { CHECK(st.good(), "unget"); pos--; }
            break;
        case 4: { // absolute position
            int p = num("position", -1, n + 1);
            st.seekg(std::streampos(p));
            if (p < 0 || p > n) { CHECK(st.fail(), "position outside the string is refused"); st.clear(); }
            else { CHECK(st.good(), "position"); pos = p; }
            break;
        }
        case 5: { char c = byte(); st.put(c); CHECK(st.good(), "put"); s[n++] = c; break; }
        case 6: { // read a block
            char r[4]; int k = num("block", 1, 2);
            st.read(r, k); int got = n - pos < k ? n - pos : k;
            CHECK(st.gcount() == got, "read: count");
            for (int j = 0; j < got; j++) CHECK(r[j] == s[pos + j], "read: bytes");
            pos += got;
            if (got < k) { CHECK(st.eof() && st.fail(), "read: end of file"); st.clear(); } else CHECK(st.good(), "read: state");
            break;
        }
        case 7: { // formatted read of one byte, keeping white space
            char c = 1; st >> std::noskipws >> c;
            if (pos < n) CHECK(c == s[pos++] && st.good(), "extract"); else { CHECK(st.eof() && st.fail(), "extract: end of file"); st.clear(); }
            break;
        }
        case 8: { // putting back something else is refused
            if (pos == 0) continue;
            char c = byte("other"); __sym_assume(c != s[pos - 1]);
            st.putback(c);
            CHECK(st.bad(), "a byte that was not read cannot be put back");
            st.clear();
            break;
        }
        }
        is_str(v, s, n, "string");
    }
    char r[MAX]; int left = n - pos;
    st.read(r, left);
    CHECK(st.gcount() == left, "the rest: count");
    for (int j = 0; j < left; j++) CHECK(r[j] == s[pos + j], "the rest");
    CHECK(st.get() == EOF_, "end of file");
    __sym_cover("history end");
}
HARNESS(history4) { history(4); }
HARNESS_T(history5) { history(5); }

// lines from any stream
static void lines(bool vs) {
    char s[12]; int n = num("len", 0, THOROUGH ? 8 : 6);
    
    for (int i = 0; i < n; i++) s[i] = byte();
    std::stringstream ss(std::string(s, n)); varstream sv(var(n, s));
    std::istream& is = vs ? (std::istream&)sv : (std::istream&)ss;
    var v; int reuse = num("reuse", 0, 3);
    if (reuse == 1) v = "previous line"; else if (reuse == 2) v = 5; else if (reuse == 3) { v.push(1); v.push(2); }
    int i = 0;
    while (i < n) {
        int e = i; while (e < n && s[e] != '\n') e++;
        var& r = v.getline(is);
        CHECK(&r == &v, "returns itself");
        is_str(v, s + i, e - i, "line");
        i = e + 1;
    }
    v.getline(is);
    CHECK(!v.defined(), "undefined after the last line");
    v.getline(is);
    CHECK(!v.defined(), "undefined again");
    __sym_cover("lines end");
}
HARNESS(lines_varstream) { lines(true); }
HARNESS(lines_stringstream) { lines(false); }

// long lines: the bytes around the steps of the buffer are symbolic
HARNESS(longlines) {
    static const int B[] = {63, 127, 255, 511, 1023};
    int step = num("step", 0, 4), n = B[step] + num("over", -2, 3), term = num("terminated", 0, 2);
    char s[1100];
    for (int i = 0; i < n; i++) {
        s[i] = (char)('a' + i % 26);
        int b = step; if (i >= B[b] - 2 && i <= B[b] + 1) { s[i] = byte(); __sym_assume(s[i] != '\n'); }
    }
    int m = n;
    if (term) s[m++] = '\n';
    if (term == 2) { s[m++] = 'x'; s[m++] = 'y'; }
    std::stringstream is(std::string(s, m));
    var v; if (num("reuse", 0, 1)) v = "previous";
    v.getline(is);
    is_str(v, s, n, "long line");
    CHECK(strlen(v.str()) <= (size_t)n, "terminated string");
    v.getline(is);
    if (term == 2) { is_str(v, "xy", 2, "line after the long one"); v.getline(is); }
    CHECK(!v.defined(), "undefined after the last line");
    __sym_cover("longlines end");
}
// a bad stream gives undefined
HARNESS(badstream) {
    std::stringstream is("ab\ncd");
    int k = num("state", 0, 2);
    is.setstate(k == 0 ? std::ios::eofbit : k == 1 ? std::ios::failbit : std::ios::badbit);
    var v; if (num("reuse", 0, 1)) v = "previous";
    v.getline(is);
    CHECK(!v.defined(), "undefined from a bad stream");
    __sym_cover("badstream end");
}

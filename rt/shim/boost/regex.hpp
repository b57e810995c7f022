// Stand-in for boost::regex in the symbolic build: a small backtracking matcher with the Perl syntax: literals, '.',
// classes, groups, alternation, greedy and lazy repeats, anchors, word boundaries, the usual escapes, icase.
// Anything else (look-around, back references, POSIX syntax) is reported as unmodelled.
// The native replay build uses the real Boost.
#pragma once
#include <string>
#include <cstring>
#include <vector>
#include <stdexcept>
#include <iterator>
extern "C" void __sym_unmodelled(const char*);
namespace boost {
namespace regex_constants {
typedef unsigned match_flag_type;
enum : unsigned { match_default = 0, format_default = 0, format_perl = 0, match_perl = 0, format_first_only = 1, format_no_copy = 2, format_literal = 4,
    match_not_bol = 8, match_not_eol = 16, match_single_line = 32, match_not_dot_newline = 64, match_continuous = 128, match_not_null = 256,
    match_any = 512, match_not_bow = 1024, match_not_eow = 2048, match_prev_avail = 4096, format_all = 8192, format_sed = 16384, match_partial = 32768 };
typedef unsigned syntax_option_type;
enum : unsigned { normal = 0, ECMAScript = 0, perl = 0, JavaScript = 0, optimize = 0, icase = 1, nosubs = 2, literal = 4, no_except = 8, collate = 0, basic = 32, extended = 64, grep = 128, egrep = 256, awk = 512 };
}
using namespace regex_constants;
struct regex_error : std::runtime_error { explicit regex_error(const char* w) : std::runtime_error(w) {} int code() const { return 0; } long position() const { return 0; } };
typedef regex_error bad_expression;
class regex {
public:
    typedef unsigned flag_type;
    enum : unsigned { normal = 0, ECMAScript = 0, perl = 0, optimize = 0, icase = 1, nosubs = 2, literal = 4, no_except = 8, extended = 64, basic = 32 };
    enum Op : char { CHR, ANY, SET, BOL, EOL, WB, NWB, SAVE, SPLIT, JMP, MARK, PROG, END };
    struct I { Op op; int a, b; };
    struct R { unsigned char lo, hi; };
    struct S { std::vector<R> r; bool neg; };
    regex() {}
    explicit regex(const char* p, unsigned f = 0) { assign(p, f); }
    explicit regex(const std::string& p, unsigned f = 0) { assign(p, f); }
    regex(const char* b, const char* e, unsigned f = 0) { assign(std::string(b, e), f); }
    regex& operator=(const char* p) { return assign(p); }
    regex& operator=(const std::string& p) { return assign(p); }
    regex& assign(const char* p, unsigned f = 0) { return assign(std::string(p), f); }
    regex& assign(const std::string& p, unsigned f = 0) {
        if (f & ~15u) __sym_unmodelled("regular expression syntax option");
        src = p; flg = f; prog.clear(); sets.clear(); ngroups = marks = 0; at = 0;
        if (f & literal) { for (char c : src) emit(CHR, fold(c)); }
        else { alt(); if (at < src.size()) throw regex_error("Unmatched )"); }
        emit(END);
        return *this;
    }
    std::string str() const { return src; }
    std::string expression() const { return src; }
    size_t size() const { return src.size(); }
    bool empty() const { return prog.empty(); }
    unsigned flags() const { return flg; }
    unsigned mark_count() const { return ngroups; }
    int status() const { return 0; }
    void swap(regex& o) { std::swap(*this, o); }
    std::vector<I> prog; std::vector<S> sets; int ngroups = 0, marks = 0; unsigned flg = 0;
    int fold(char c) const { return (flg & icase) && c >= 'A' && c <= 'Z' ? c + 32 : c; }
private:
    std::string src; size_t at = 0;
    int emit(Op o, int a = 0, int b = 0) { prog.push_back(I{o, a, b}); return (int)prog.size() - 1; }
    bool more() const { return at < src.size(); }
    void insert(int i, int n) { // make room for n instructions at i, all targets >= i move
        prog.insert(prog.begin() + i, n, I{JMP, 0, 0});
        for (size_t k = i + n; k < prog.size(); k++) if (prog[k].op == SPLIT || prog[k].op == JMP) { if (prog[k].a >= i) prog[k].a += n; if (prog[k].op == SPLIT && prog[k].b >= i) prog[k].b += n; }
    }
    void alt() {
        int s = (int)prog.size(); seq();
        if (more() && src[at] == '|') {
            at++; insert(s, 1); prog[s] = I{SPLIT, s + 1, 0};
            int j = emit(JMP); prog[s].b = (int)prog.size();
            alt(); prog[j].a = (int)prog.size();
        }
    }
    void seq() { while (more() && src[at] != '|' && src[at] != ')') piece(); }
    void piece() {
        int s = (int)prog.size(), g0 = ngroups; bool anchor = atom(); (void)g0;
        while (more()) {
            int lo, hi; char c = src[at];
            if (c == '*') { lo = 0; hi = -1; } else if (c == '+') { lo = 1; hi = -1; } else if (c == '?') { lo = 0; hi = 1; }
            else if (c == '{') {
                size_t k = at + 1; lo = 0; bool d = false;
                while (k < src.size() && src[k] >= '0' && src[k] <= '9') { lo = lo * 10 + src[k++] - '0'; d = true; }
                if (!d) throw regex_error("Invalid content of \\{\\}");
                hi = lo;
                if (k < src.size() && src[k] == ',') { k++; hi = -1; while (k < src.size() && src[k] >= '0' && src[k] <= '9') hi = (hi < 0 ? 0 : hi) * 10 + src[k++] - '0'; }
                if (k >= src.size() || src[k] != '}' || (hi >= 0 && hi < lo)) throw regex_error("Invalid content of \\{\\}");
                at = k;
            } else break;
            if (anchor) throw regex_error("Invalid preceding regular expression");
            at++;
            bool lazy = false;
            if (more() && src[at] == '?') { lazy = true; at++; } else if (more() && src[at] == '+') __sym_unmodelled("possessive repeat");
            std::vector<I> body(prog.begin() + s, prog.end()); prog.resize(s);
            for (int i = 0; i < lo; i++) copy(body, s);
            if (hi < 0) {
                int m = marks++, l = emit(SPLIT); emit(MARK, m); copy(body, s); emit(PROG, m); emit(JMP, l);
                fix(l, l + 1, (int)prog.size(), lazy);
            } else {
                std::vector<int> sp;
                for (int i = lo; i < hi; i++) { sp.push_back(emit(SPLIT)); copy(body, s); }
                for (int l : sp) fix(l, l + 1, (int)prog.size(), lazy);
            }
        }
    }
    void fix(int l, int in, int out, bool lazy) { prog[l].a = lazy ? out : in; prog[l].b = lazy ? in : out; }
    void copy(const std::vector<I>& body, int from) {
        int d = (int)prog.size() - from;
        for (I i : body) { if (i.op == SPLIT) { i.a += d; i.b += d; } else if (i.op == JMP) i.a += d; prog.push_back(i); }
    }
    static void add(S& s, unsigned char lo, unsigned char hi) { s.r.push_back(R{lo, hi}); }
    static bool klass(char c, S& s) {
        switch (c) {
        case 'd': add(s, '0', '9'); return true;
        case 'w': add(s, 'a', 'z'); add(s, 'A', 'Z'); add(s, '0', '9'); add(s, '_', '_'); return true;
        case 's': add(s, ' ', ' '); add(s, '\t', '\r'); return true;
        case 'l': add(s, 'a', 'z'); return true;
        case 'u': add(s, 'A', 'Z'); return true;
        }
        return false;
    }
    static char esc(char c) {
        switch (c) { case 'n': return '\n'; case 't': return '\t'; case 'r': return '\r'; case 'f': return '\f'; case 'v': return '\v'; case 'a': return '\a'; case 'e': return 27; }
        if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) __sym_unmodelled("regular expression escape");
        return c;
    }
    void set(const S& s) { sets.push_back(s); emit(SET, (int)sets.size() - 1); }
    bool atom() { // true for an assertion, which cannot be repeated
        char c = src[at++];
        switch (c) {
        case '.': emit(ANY); return false;
        case '^': emit(BOL); return true;
        case '$': emit(EOL); return true;
        case '*': case '+': case '?': case '{': throw regex_error("The repeat operator cannot start a regular expression");
        case '(': {
            bool cap = !(flg & nosubs);
            if (more() && src[at] == '?') { if (at + 1 < src.size() && src[at + 1] == ':') { cap = false; at += 2; } else __sym_unmodelled("look-around"); }
            int g = cap ? ++ngroups : 0;
            if (cap) emit(SAVE, 2 * g);
            alt();
            if (!more()) throw regex_error("Unmatched marking parenthesis (");
            at++;
            if (cap) emit(SAVE, 2 * g + 1);
            return false;
        }
        case '[': {
            S s; s.neg = false;
            if (more() && src[at] == '^') { s.neg = true; at++; }
            bool first = true;
            for (;; first = false) {
                if (!more()) throw regex_error("Unmatched [ or [^");
                char d = src[at++];
                if (d == ']' && !first) break;
                if (d == '[' && more() && (src[at] == ':' || src[at] == '.' || src[at] == '=')) {
                    size_t k = src.find(":]", at); if (k == std::string::npos) throw regex_error("bad class");
                    std::string n = src.substr(at + 1, k - at - 1); at = k + 2;
                    if (n == "digit") klass('d', s); else if (n == "space") klass('s', s); else if (n == "word") klass('w', s);
                    else if (n == "alpha") { add(s, 'a', 'z'); add(s, 'A', 'Z'); } else if (n == "alnum") { add(s, 'a', 'z'); add(s, 'A', 'Z'); add(s, '0', '9'); }
                    else if (n == "upper") klass('u', s); else if (n == "lower") klass('l', s); else if (n == "punct") { add(s, '!', '/'); add(s, ':', '@'); add(s, '[', '`'); add(s, '{', '~'); }
                    else if (n == "xdigit") { add(s, '0', '9'); add(s, 'a', 'f'); add(s, 'A', 'F'); } else __sym_unmodelled("class name");
                    continue;
                }
                if (d == '\\') { if (!more()) throw regex_error("trailing backslash"); d = src[at++]; if (klass(d, s)) continue; d = esc(d); }
                if (at + 1 < src.size() && src[at] == '-' && src[at + 1] != ']') {
                    char e = src[at + 1]; at += 2; if (e == '\\') { e = esc(src[at++]); }
                    if ((unsigned char)e < (unsigned char)d) throw regex_error("Invalid range end");
                    add(s, d, e);
                } else add(s, d, d);
            }
            if (flg & icase) { S q = s; for (R r : q.r) for (int k = r.lo; k <= r.hi; k++) { if (k >= 'a' && k <= 'z') add(s, k - 32, k - 32); if (k >= 'A' && k <= 'Z') add(s, k + 32, k + 32); } }
            set(s); return false;
        }
        case '\\': {
            if (!more()) throw regex_error("Found a closing repetition operator with no corresponding operator");
            c = src[at++];
            S s; s.neg = false;
            if (klass(c, s)) { set(s); return false; }
            if ((c == 'D' || c == 'W' || c == 'S' || c == 'L' || c == 'U') && klass(c + 32, s)) { s.neg = true; set(s); return false; }
            switch (c) { case 'b': emit(WB); return true; case 'B': emit(NWB); return true; case 'A': case '`': case 'z': case '\'': case 'Z': __sym_unmodelled("buffer anchor"); }
            emit(CHR, fold(esc(c))); return false;
        }
        }
        emit(CHR, fold(c)); return false;
    }
};
template <class It> struct sub_match : std::pair<It, It> {
    bool matched = false;
    sub_match() : std::pair<It, It>() {}
    std::string str() const { return matched ? std::string(this->first, this->second) : std::string(); }
    operator std::string() const { return str(); }
    long length() const { return matched ? this->second - this->first : 0; }
    bool operator==(const char* s) const { return str() == s; }
};
template <class It> struct match_results {
    std::vector<sub_match<It> > s; It b, e; sub_match<It> none, pre, suf;
    typedef sub_match<It> value_type;
    size_t size() const { return s.size(); }
    bool empty() const { return s.empty(); }
    bool ready() const { return true; }
    const sub_match<It>& operator[](int i) const { return i >= 0 && i < (int)s.size() ? s[i] : none; }
    std::string str(int i = 0) const { return (*this)[i].str(); }
    long position(int i = 0) const { return (*this)[i].first - b; }
    long length(int i = 0) const { return (*this)[i].length(); }
    const sub_match<It>& prefix() const { return pre; }
    const sub_match<It>& suffix() const { return suf; }
    typename std::vector<sub_match<It> >::const_iterator begin() const { return s.begin(); }
    typename std::vector<sub_match<It> >::const_iterator end() const { return s.end(); }
};
typedef match_results<const char*> cmatch;
typedef match_results<std::string::const_iterator> smatch;
typedef sub_match<const char*> csub_match;
typedef sub_match<std::string::const_iterator> ssub_match;
namespace shim {
inline bool word(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_'); }
struct VM {
    const regex& re; const char *b, *e; bool full; unsigned fl; const char* cap[64]; const char* mark[32];
    const char* run(int pc, const char* t) {
        for (;;) {
            const regex::I& i = re.prog[pc];
            switch (i.op) {
            case regex::CHR: {
                if (t >= e) return 0;
                char c = *t;
                bool ok = c == (char)i.a;
                if (re.flg & regex::icase) if (i.a >= 'a' && i.a <= 'z') ok = ok | (c == (char)(i.a - 32));
                if (!ok) return 0;
                t++; pc++; break;
            }
            case regex::ANY: if (t >= e || ((fl & match_not_dot_newline) && *t == '\n')) return 0; t++; pc++; break;
            case regex::SET: {
                if (t >= e) return 0;
                unsigned char c = *t; bool in = false;
                for (const regex::R& r : re.sets[i.a].r) in = in | ((c >= r.lo) & (c <= r.hi));
                if (in == re.sets[i.a].neg) return 0;
                t++; pc++; break;
            }
            case regex::BOL: if (t == b ? (fl & match_not_bol) : ((fl & match_single_line) || t[-1] != '\n')) return 0; pc++; break;
            case regex::EOL: if (t == e ? (fl & match_not_eol) : ((fl & match_single_line) || *t != '\n')) return 0; pc++; break;
            case regex::WB: case regex::NWB: {
                bool l = t > b && word(t[-1]), r = t < e && word(*t);
                if ((l != r) != (i.op == regex::WB)) return 0;
                pc++; break;
            }
            case regex::SAVE: {
                const char* o = cap[i.a]; cap[i.a] = t;
                const char* r = run(pc + 1, t);
                if (!r) cap[i.a] = o;
                return r;
            }
            case regex::SPLIT: {
                const char* sv[64]; memcpy(sv, cap, sizeof sv);
                const char* r = run(i.a, t); if (r) return r;
                memcpy(cap, sv, sizeof sv);
                pc = i.b; break;
            }
            case regex::JMP: pc = i.a; break;
            case regex::MARK: {
                const char* o = mark[i.a]; mark[i.a] = t;
                const char* r = run(pc + 1, t);
                mark[i.a] = o; return r;
            }
            case regex::PROG: if (mark[i.a] == t) { pc += 2; break; } pc++; break;
            case regex::END: if (full && t != e) return 0; if ((fl & match_not_null) && t == cap[0]) return 0; return t;
            }
        }
    }
};
inline bool at(const regex& re, const char* b, const char* t, const char* e, bool full, unsigned fl, const char* cap[64]) {
    if (re.prog.empty()) return false;
    if (re.ngroups > 20 || re.marks > 30) __sym_unmodelled("large regular expression");
    VM v{re, b, e, full, fl, {}, {}};
    for (auto& c : v.cap) c = 0;
    v.cap[0] = t;
    const char* r = v.run(0, t);
    if (!r) return false;
    v.cap[0] = t; v.cap[1] = r;
    memcpy(cap, v.cap, sizeof v.cap);
    return true;
}
template <class It> inline void fill(match_results<It>& m, It f, It l, const regex& re, const char* b, const char** cap) {
    m = match_results<It>(); m.b = f; m.e = l; m.none.first = m.none.second = l;
    for (int i = 0; i <= re.ngroups; i++) {
        sub_match<It> s; s.first = s.second = l;
        if (cap[2 * i] && cap[2 * i + 1]) { s.first = f + (cap[2 * i] - b); s.second = f + (cap[2 * i + 1] - b); s.matched = true; }
        m.s.push_back(s);
    }
    m.pre.first = f; m.pre.second = m.s[0].first; m.pre.matched = m.pre.first != m.pre.second;
    m.suf.first = m.s[0].second; m.suf.second = l; m.suf.matched = m.suf.first != m.suf.second;
}
}
template <class It> inline bool regex_match(It f, It l, match_results<It>& m, const regex& re, unsigned fl = 0) {
    const char* b = f == l ? "" : &*f; const char* cap[64]; const char* e = b + (l - f);
    m = match_results<It>();
    if (!shim::at(re, b, b, e, true, fl, cap)) return false;
    shim::fill(m, f, l, re, b, cap); return true;
}
template <class It> inline bool regex_search(It f, It l, match_results<It>& m, const regex& re, unsigned fl = 0) {
    const char* b = f == l ? "" : &*f; const char* cap[64]; const char* e = b + (l - f);
    m = match_results<It>();
    for (const char* p = b; p <= e; p++) {
        if (shim::at(re, b, p, e, false, fl, cap)) { shim::fill(m, f, l, re, b, cap); return true; }
        if (fl & match_continuous) break;
    }
    return false;
}
inline bool regex_match(const char* t, cmatch& m, const regex& re, unsigned fl = 0) { return regex_match(t, t + strlen(t), m, re, fl); }
inline bool regex_search(const char* t, cmatch& m, const regex& re, unsigned fl = 0) { return regex_search(t, t + strlen(t), m, re, fl); }
inline bool regex_match(const std::string& t, smatch& m, const regex& re, unsigned fl = 0) { return regex_match(t.begin(), t.end(), m, re, fl); }
inline bool regex_search(const std::string& t, smatch& m, const regex& re, unsigned fl = 0) { return regex_search(t.begin(), t.end(), m, re, fl); }
template <class It> inline bool regex_match(It f, It l, const regex& re, unsigned fl = 0) { match_results<It> m; return regex_match(f, l, m, re, fl); }
template <class It> inline bool regex_search(It f, It l, const regex& re, unsigned fl = 0) { match_results<It> m; return regex_search(f, l, m, re, fl); }
inline bool regex_match(const char* t, const regex& re, unsigned fl = 0) { cmatch m; return regex_match(t, m, re, fl); }
inline bool regex_search(const char* t, const regex& re, unsigned fl = 0) { cmatch m; return regex_search(t, m, re, fl); }
inline bool regex_match(const std::string& t, const regex& re, unsigned fl = 0) { smatch m; return regex_match(t, m, re, fl); }
inline bool regex_search(const std::string& t, const regex& re, unsigned fl = 0) { smatch m; return regex_search(t, m, re, fl); }
namespace shim {
// the replacement for one match: $&, $n, ${n}, $$, \n and the character escapes
inline void format(std::string& r, const char* f, const char* fe, const char* b, const char* e, const char** cap, int ng, unsigned fl) {
    auto group = [&](int g) { if (g <= ng && cap[2 * g] && cap[2 * g + 1]) r.append(cap[2 * g], cap[2 * g + 1]); };
    if (fl & (format_all | format_sed)) __sym_unmodelled("replacement format");
    while (f < fe) {
        char c = *f++;
        if (fl & format_literal) { r += c; continue; }
        if (c == '$' && f < fe) {
            char d = *f;
            if (d == '$') { r += '$'; f++; continue; }
            if (d == '&') { group(0); f++; continue; }
            if (d == '`') { r.append(b, cap[0]); f++; continue; }
            if (d == '\'') { r.append(cap[1], e); f++; continue; }
            if (d >= '0' && d <= '9') { int g = 0; while (f < fe && *f >= '0' && *f <= '9') g = g * 10 + *f++ - '0'; group(g); continue; }
            if (d == '{' || d == '+' || d == '^') __sym_unmodelled("replacement format");
            r += c; continue;
        }
        if (c == '\\' && f < fe) {
            char d = *f++;
            if (d >= '1' && d <= '9') { group(d - '0'); continue; }
            switch (d) { case 'n': d = '\n'; break; case 't': d = '\t'; break; case 'r': d = '\r'; break; case 'f': d = '\f'; break; case 'v': d = '\v'; break; case 'a': d = '\a'; break; case 'e': d = 27; break;
            case 'x': case 'c': case 'l': case 'L': case 'u': case 'U': case 'E': case '0': __sym_unmodelled("replacement format"); }
            r += d; continue;
        }
        r += c;
    }
}
}
inline std::string regex_replace(const std::string& s, const regex& re, const std::string& fmt, unsigned fl = 0) {
    std::string r; const char *b = s.data(), *e = b + s.size(), *p = b, *last = b; const char* cap[64];
    bool copy = !(fl & format_no_copy); bool prevEmptyAt = false;
    while (p <= e) {
        unsigned f2 = fl | (prevEmptyAt ? (unsigned)match_not_null : 0u);
        if (shim::at(re, b, p, e, false, f2, cap)) {
            if (copy) r.append(last, cap[0]);
            shim::format(r, fmt.data(), fmt.data() + fmt.size(), b, e, cap, re.ngroups, fl);
            last = p = cap[1]; prevEmptyAt = cap[0] == cap[1];
            if (fl & format_first_only) break;
        } else { p++; prevEmptyAt = false; }
    }
    if (copy) r.append(last, e);
    return r;
}
inline std::string regex_replace(const char* s, const regex& re, const std::string& fmt, unsigned fl = 0) { return regex_replace(std::string(s), re, fmt, fl); }
template <class It> struct rx_iterator {
    typedef match_results<It> value_type; typedef std::forward_iterator_tag iterator_category; typedef long difference_type; typedef const value_type* pointer; typedef const value_type& reference;
    It b, l; const regex* re = 0; unsigned fl = 0; value_type m; bool end_ = true;
    rx_iterator() {}
    rx_iterator(It f, It e, const regex& r, unsigned g = 0) : b(f), l(e), re(&r), fl(g), end_(false) { end_ = !regex_search(f, e, m, r, g); }
    const value_type& operator*() const { return m; }
    const value_type* operator->() const { return &m; }
    rx_iterator& operator++() {
        It p = m[0].second; bool em = m[0].first == m[0].second; value_type k;
        const char* base = b == l ? "" : &*b; const char* cap[64];
        for (long q = p - b; q <= l - b; q++) { if (shim::at(*re, base, base + q, base + (l - b), false, fl | (em ? (unsigned)match_not_null : 0u), cap)) { shim::fill(m, b, l, *re, base, cap); return *this; } em = false; }
        end_ = true; return *this;
    }
    rx_iterator operator++(int) { rx_iterator o = *this; ++*this; return o; }
    bool operator==(const rx_iterator& o) const { return end_ == o.end_ && (end_ || m[0].first == o.m[0].first); }
    bool operator!=(const rx_iterator& o) const { return !(*this == o); }
};
typedef rx_iterator<const char*> cregex_iterator;
typedef rx_iterator<std::string::const_iterator> sregex_iterator;
}

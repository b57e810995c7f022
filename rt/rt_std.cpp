// The parts of libstdc++ that live in the shared library: template instantiations of the real headers
// plus small models of ios_base, locale, ctype, file access (virtual files) and the tree/list helpers.
// Symbolic build only.
#include "sym.h"
#include <string>
#include <locale>
#include <iostream>
#include <sstream>
#include <fstream>
#include <complex>
#include <list>
#include <map>
#include <unordered_map>
#include <chrono>
#include <ext/stdio_filebuf.h>

extern "C" {
void* __sym_malloc(size_t n, int kind); void __sym_free(void* p, int kind); void __sym_unmodelled(const char*);
double __sym_strtod(const char*);
void* __vfs_open(const char* name, bool create, bool trunc); void __vfs_append(void* h, const char* d, long n);
long __vfs_read(void* h, long pos, char* b, long n); long __vfs_fsize(void* h);
char __libc_single_threaded = 1;
char* setlocale(int, const char*) { return (char*)"C"; }
locale_t __uselocale(locale_t) { return 0; }
locale_t uselocale(locale_t) { return 0; }
int pthread_mutex_lock(pthread_mutex_t*) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) { return 0; }
}

#define INIT(prio, fn) static struct I_##fn { I_##fn() { fn(); } } v_##fn __attribute__((init_priority(prio)))
namespace std {
template class basic_string<char>;
template basic_string<char> operator+(const char*, const basic_string<char>&);

// ------------------------------------------------------------- tree and list
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment((_Rb_tree_node_base*)x); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
    if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement((_Rb_tree_node_base*)x); }
// a binary search tree without rebalancing (every node black, the header red): same order, same iteration
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if (h._M_parent == a) h._M_parent = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (h._M_left == z) { auto n = _Rb_tree_increment(z); h._M_left = n; }
    if (h._M_right == z) { auto n = _Rb_tree_decrement(z); h._M_right = n; }
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else {
        auto y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) throw() {
    bool ex = x._M_next == &x, ey = y._M_next == &y; auto fix = [](_List_node_base& n) { n._M_next->_M_prev = n._M_prev->_M_next = &n; };
    auto t = x; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = t._M_next; y._M_prev = t._M_prev;
    if (ey) x._M_next = x._M_prev = &x; else fix(x);
    if (ex) y._M_next = y._M_prev = &y; else fix(y);
}
void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_reverse() throw() { auto t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() {
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
}
namespace chrono { inline namespace _V2 {
    steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000)); }
    system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000)); }
} }

// ------------------------------------------------------------- locale
locale::facet::~facet() {}
static int theC;
__c_locale locale::facet::_S_get_c_locale() { return (__c_locale)&theC; }
const char* locale::facet::_S_get_c_name() throw() { return "C"; }
__c_locale locale::facet::_S_clone_c_locale(__c_locale& c) throw() { return c; }
void locale::facet::_S_create_c_locale(__c_locale& c, const char*, __c_locale) { c = (__c_locale)&theC; }
void locale::facet::_S_destroy_c_locale(__c_locale&) {}
locale::id ctype<char>::id;
template class numpunct<char>;
template class num_get<char>;
template class num_put<char>;
template<> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
    if (!_M_data) _M_data = new __numpunct_cache<char>;
    _M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false;
    _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
    for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
    for (size_t j = 0; j < __num_base::_S_iend; ++j) _M_data->_M_atoms_in[j] = __num_base::_S_atoms_in[j];
    _M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template<> numpunct<char>::~numpunct() { delete _M_data; }
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base& io, char* f, char mod) throw() {
    ios_base::fmtflags fl = io.flags();
    *f++ = '%';
    if (fl & ios_base::showpos) *f++ = '+';
    if (fl & ios_base::showpoint) *f++ = '#';
    ios_base::fmtflags ff = fl & ios_base::floatfield;
    if (ff != (ios_base::fixed | ios_base::scientific)) { *f++ = '.'; *f++ = '*'; }
    if (mod) *f++ = mod;
    if (ff == ios_base::fixed) *f++ = 'f';
    else if (ff == ios_base::scientific) *f++ = fl & ios_base::uppercase ? 'E' : 'e';
    else if (ff == (ios_base::fixed | ios_base::scientific)) *f++ = 'a';
    else *f++ = fl & ios_base::uppercase ? 'G' : 'g';
    *f = 0;
}
bool __verify_grouping(const char*, size_t, const string&) throw() { return true; }

// ctype: classic table
static ctype_base::mask ctab[256];
static bool ctabInit() {
    for (int c = 0; c < 128; c++) {
        unsigned short m = 0;
        if (isupper(c)) m |= ctype_base::upper;
        if (islower(c)) m |= ctype_base::lower;
        if (isalpha(c)) m |= ctype_base::alpha;
        if (isdigit(c)) m |= ctype_base::digit;
        if (isxdigit(c)) m |= ctype_base::xdigit;
        if (isspace(c)) m |= ctype_base::space;
        if (c == ' ' || c == '\t') m |= ctype_base::blank;
        if (c >= 32 && c < 127) m |= ctype_base::print;
        if (c < 32 || c == 127) m |= ctype_base::cntrl;
        if (ispunct(c)) m |= ctype_base::punct;
        ctab[c] = m;
    }
    return true;
}
INIT(101, ctabInit);
const ctype_base::mask* ctype<char>::classic_table() throw() { return ctab; }
ctype<char>::ctype(const mask* t, bool del, size_t refs) : facet(refs), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(t ? t : ctab), _M_widen_ok(1), _M_narrow_ok(1) {
    for (int i = 0; i < 256; i++) { _M_widen[i] = (char)i; _M_narrow[i] = (char)i; }
}
ctype<char>::ctype(__c_locale, const mask* t, bool, size_t refs) : ctype(t, false, refs) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (char)toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; a++) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return (char)tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}

locale::id codecvt<char, char, mbstate_t>::id;
codecvt<char, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<char, char, mbstate_t>(refs), _M_c_locale_codecvt(0) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type&, const char* f, const char* e, size_t m) const { size_t d = e - f; return (int)(m < d ? m : d); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }

static size_t nextId;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++nextId; return _M_index - 1; }
alignas(16) static char implMem[sizeof(locale::_Impl)];
static const locale::facet* facets[32];
static const locale::facet* caches[32];
static char locMem[sizeof(locale)];
locale::_Impl* locale::_S_classic;
locale::_Impl* locale::_S_global;
static void put(const locale::facet* f, size_t i) { facets[i] = f; }
static bool locInit() {
    auto* im = (locale::_Impl*)implMem;
    im->_M_refcount = 1; im->_M_facets = facets; im->_M_facets_size = 32; im->_M_caches = caches; im->_M_names = 0;
    locale::_S_classic = locale::_S_global = im;
    put(new ctype<char>(0, false, 1), ctype<char>::id._M_id());
    auto* np = new numpunct<char>((size_t)1);
    put(np, numpunct<char>::id._M_id());
    put(new num_get<char>(1), num_get<char>::id._M_id());
    put(new num_put<char>(1), num_put<char>::id._M_id());
    put(new codecvt<char, char, mbstate_t>(1), codecvt<char, char, mbstate_t>::id._M_id());
    caches[numpunct<char>::id._M_id()] = np->_M_data;
    return true;
}
void locale::_Impl::_M_install_cache(const facet* c, size_t i) { _M_caches[i] = c; }
locale::locale() throw() : _M_impl((_Impl*)implMem) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
string locale::name() const { return "C"; }
const locale& locale::classic() { *(void**)locMem = implMem; return *(locale*)locMem; }
INIT(102, locInit);

// decimal text to double: exact for at most 15 significant digits and |exponent| <= 22, else concretised
static bool parseDec(const char* s, double& out) {
    bool neg = false; const char* p = s;
    if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
    long m = 0; int nd = 0, sc = 0; bool dot = false, any = false;
    for (;; p++) {
        char c = *p;
        if (c == '.' && !dot) { dot = true; continue; }
        if (c < '0' || c > '9') break;
        any = true;
        if (nd >= 15) return false;
        m = m * 10 + (c - '0'); if (m) nd++;
        if (dot) sc++;
    }
    if (*p || !any) return false;
    static const double P[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15};
    if (sc > 15) return false;
    double d = (double)m;
    if (sc) d = d / P[sc];
    out = neg ? -d : d;
    return true;
}
static void cvt(const char* s, double& v, ios_base::iostate& err, bool isF) {
    double d;
    if (!parseDec(s, d)) {
        size_t n = 0; while (s[n]) n++;
        if (!n) { v = 0; err = ios_base::failbit; return; }
        char* t = (char*)__sym_malloc(n + 1, 0);
        for (size_t i = 0; i <= n; i++) t[i] = (char)__sym_concretize(s[i]);
        // accept exactly the shape strtod consumes completely
        size_t i = 0, k = 0; if (t[i] == '+' || t[i] == '-') i++;
        while (isdigit(t[i])) i++, k++;
        if (t[i] == '.') { i++; while (isdigit(t[i])) i++, k++; }
        bool ok = k > 0;
        if (ok && (t[i] == 'e' || t[i] == 'E')) { i++; if (t[i] == '+' || t[i] == '-') i++; ok = isdigit(t[i]); while (isdigit(t[i])) i++; }
        if (!ok || t[i]) { v = 0; err = ios_base::failbit; __sym_free(t, 0); return; }
        d = __sym_strtod(t);
        __sym_free(t, 0);
        double lim = isF ? 3.4028234663852886e38 : 1.7976931348623157e308;
        if (d > lim) { v = lim; err = ios_base::failbit; return; }
        if (d < -lim) { v = -lim; err = ios_base::failbit; return; }
    }
    v = d;
}
template<> void __convert_to_v(const char* s, float& v, ios_base::iostate& e, const __c_locale&) throw() { double d; cvt(s, d, e, true); v = (float)d; }
template<> void __convert_to_v(const char* s, double& v, ios_base::iostate& e, const __c_locale&) throw() { cvt(s, v, e, false); }
template<> void __convert_to_v(const char*, long double&, ios_base::iostate&, const __c_locale&) throw() { __sym_unmodelled("long double"); }

// ------------------------------------------------------------- ios_base
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
ios_base::_Words& ios_base::_M_grow_words(int, bool) { __sym_unmodelled("iword"); return _M_word_zero; }
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
extern "C" void libInit() __asm__("_ZSt21ios_base_library_initv");
extern "C" void libInit() {}
bool uncaught_exception() throw() { return false; }
void ios_base::_M_move(ios_base&) throw() { __sym_unmodelled("stream move"); }
void ios_base::_M_swap(ios_base&) throw() { __sym_unmodelled("stream swap"); }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}

template class basic_streambuf<char>;
template<> streamsize __copy_streambufs_eof(basic_streambuf<char>* in, basic_streambuf<char>* out, bool& eof) {
    streamsize n = 0; eof = true;
    int c = in->sgetc();
    while (c != -1) { if (out->sputc((char)c) == -1) { eof = false; break; } n++; c = in->snextc(); }
    return n;
}
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template istream& istream::_M_extract(unsigned short&);
template istream& istream::_M_extract(unsigned int&);
template istream& istream::_M_extract(long&);
template istream& istream::_M_extract(unsigned long&);
template istream& istream::_M_extract(bool&);
template istream& istream::_M_extract(long long&);
template istream& istream::_M_extract(unsigned long long&);
template istream& istream::_M_extract(float&);
template istream& istream::_M_extract(long double&);
template istream& istream::_M_extract(void*&);
template ostream& ostream::_M_insert(long double);
template istream& istream::_M_extract(double&);
template ostream& ostream::_M_insert(long);
template ostream& ostream::_M_insert(unsigned long);
template ostream& ostream::_M_insert(bool);
template ostream& ostream::_M_insert(long long);
template ostream& ostream::_M_insert(unsigned long long);
template ostream& ostream::_M_insert(double);
template ostream& ostream::_M_insert(const void*);
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
template istream& ws(istream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, unsigned char);
template ostream& operator<<(ostream&, signed char);
template ostream& operator<<(ostream&, const unsigned char*);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template istream& operator>>(istream&, char&);
template istream& operator>>(istream&, unsigned char&);
template istream& operator>>(istream&, signed char&);
template<> istream& getline(istream& in, string& str, char d) {
    size_t n = 0; ios_base::iostate e = ios_base::goodbit; istream::sentry s(in, true);
    if (s) {
        str.erase();
        int c = in.rdbuf()->sgetc();
        while (c != -1 && (char)c != d) { str += (char)c; ++n; c = in.rdbuf()->snextc(); }
        if (c == -1) e |= ios_base::eofbit; else { ++n; in.rdbuf()->sbumpc(); }
    }
    if (!n) e |= ios_base::failbit;
    if (e) in.setstate(e);
    return in;
}
template istream& getline(istream&, string&);
template ostream& operator<<(ostream&, const complex<float>&);
template ostream& operator<<(ostream&, const complex<double>&);
template istream& operator>>(istream&, complex<float>&);
template istream& operator>>(istream&, complex<double>&);
template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n) {
    if (n == 1) return ignore();
    _M_gcount = 0; while (n-- > 0) { if (rdbuf()->sbumpc() == -1) { setstate(ios_base::eofbit); break; } _M_gcount++; } return *this;
}
template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n, int_type d) {
    _M_gcount = 0; while (n-- > 0) { int c = rdbuf()->sbumpc(); if (c == -1) { setstate(ios_base::eofbit); break; } _M_gcount++; if (c == d) break; } return *this;
}
template<> basic_istream<char>& basic_istream<char>::getline(char* b, streamsize n, char d) {
    _M_gcount = 0; ios_base::iostate e = ios_base::goodbit; sentry s(*this, true);
    if (s) {
        int c = rdbuf()->sgetc();
        while (_M_gcount + 1 < n && c != -1 && (char)c != d) { *b++ = (char)c; ++_M_gcount; c = rdbuf()->snextc(); }
        if (c == -1) e |= ios_base::eofbit;
        else if ((char)c == d) { ++_M_gcount; rdbuf()->sbumpc(); }
        else e |= ios_base::failbit;
    }
    if (n > 0) *b = 0;
    if (!_M_gcount) e |= ios_base::failbit;
    if (e) setstate(e);
    return *this;
}

// ------------------------------------------------------------- files on the virtual file system
struct VH { void* f; long pos; bool app; };
#define H(x) ((VH*)(x)->_M_cfile)
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(0), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char>* __basic_file<char>::open(const char* n, ios_base::openmode m, int) {
    if (_M_cfile) return 0;
    bool out = m & ios_base::out || m & ios_base::app, trunc = (m & ios_base::trunc) || ((m & ios_base::out) && !(m & ios_base::in) && !(m & ios_base::app));
    void* f = __vfs_open(n, out && !((m & ios_base::in) && !(m & (ios_base::trunc | ios_base::app))), trunc);
    if (!f) return 0;
    VH* h = (VH*)__sym_malloc(sizeof(VH), 0);
    h->f = f; h->pos = 0; h->app = m & ios_base::app;
    _M_cfile = (__c_file*)h; _M_cfile_created = true;
    return this;
}
__basic_file<char>* __basic_file<char>::close() { if (!_M_cfile) return 0; __sym_free(_M_cfile, 0); _M_cfile = 0; return this; }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != 0; }
int __basic_file<char>::fd() throw() { return 3; }
__c_file* __basic_file<char>::file() throw() { return _M_cfile; }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n) {
    if (H(this)->pos != __vfs_fsize(H(this)->f) && !H(this)->app) __sym_unmodelled("write in the middle of a file");
    __vfs_append(H(this)->f, s, n); H(this)->pos += n; return n;
}
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize m) { if (n) xsputn(a, n); if (m) xsputn(b, m); return n + m; }
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) { long r = __vfs_read(H(this)->f, H(this)->pos, s, n); H(this)->pos += r; return r; }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() {
    if (w == ios_base::cur) o += H(this)->pos; else if (w == ios_base::end) o += __vfs_fsize(H(this)->f);
    if (o < 0) return -1;
    return H(this)->pos = o;
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { return 0; }

// ------------------------------------------------------------- cout, cerr: discard, cin: empty
struct NullBuf : basic_streambuf<char> {
    int overflow(int c) override { return c == -1 ? 0 : c; }
    streamsize xsputn(const char*, streamsize n) override { return n; }
};
static NullBuf nb __attribute__((init_priority(103)));
// the library declares these without running their constructors
alignas(16) char coutMem[sizeof(ostream)] __asm__("_ZSt4cout");
alignas(16) char cerrMem[sizeof(ostream)] __asm__("_ZSt4cerr");
alignas(16) char clogMem[sizeof(ostream)] __asm__("_ZSt4clog");
alignas(16) char cinMem[sizeof(istream)] __asm__("_ZSt3cin");
static bool coutInit() {
    ::new (coutMem) ostream(&nb); ::new (cerrMem) ostream(&nb); ::new (clogMem) ostream(&nb); ::new (cinMem) istream(&nb);
    return true;
}
INIT(104, coutInit);
}
// runtime type information roots
namespace __cxxabiv1 {
    class __class_type_info; 
}

namespace std {
template<> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& str) {
    size_t n = 0; ios_base::iostate e = ios_base::goodbit; istream::sentry s(in, false);
    if (s) {
        str.erase(); streamsize w = in.width(); size_t max = w > 0 ? (size_t)w : str.max_size();
        int c = in.rdbuf()->sgetc();
        while (n < max && c != -1 && !isspace((unsigned char)c)) { str += (char)c; ++n; c = in.rdbuf()->snextc(); }
        if (n < max && c == -1) e |= ios_base::eofbit;
        in.width(0);
    }
    if (!n) e |= ios_base::failbit;
    if (e) in.setstate(e);
    return in;
}
size_t _Hash_bytes(const void* p, size_t n, size_t h) { for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char*)p)[i]; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = n < 2 ? 2 : n | 1; _M_next_resize = k; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t n, size_t add) const {
    if (n + add > _M_next_resize) { size_t w = n + add > b * 2 ? n + add : b * 2; return {true, _M_next_bkt(w < 13 ? 13 : w)}; }
    return {false, 0};
}
}
}

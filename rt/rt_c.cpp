// Models of the C library functions the code under test calls (symbolic build only).
#include "sym.h"
#include <new>
typedef unsigned char uc;
extern "C" {
void* __sym_malloc(size_t n, int kind);
void __sym_free(void* p, int kind);
void* memcpy(void*, const void*, size_t);
void* memset(void*, int, size_t);
void* malloc(size_t);
void free(void*);
int __sym_fmt_double(char* buf, size_t n, const char* fmt, double v, int prec);
void __sym_unmodelled(const char*);

void* memchr(const void* s, int c, size_t n) {
    const uc* p = (const uc*)s;
    for (size_t i = 0; i < n; i++) if (p[i] == (uc)c) return (void*)(p + i);
    return 0;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
    for (;; a++, b++) {
        uc x = (uc)*a, y = (uc)*b;
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
}
int strncmp(const char* a, const char* b, size_t n) {
    for (; n; a++, b++, n--) {
        uc x = (uc)*a, y = (uc)*b;
        if (x != y) return (int)x - (int)y;
        if (!x) return 0;
    }
    return 0;
}
char* strchr(const char* s, int c) {
    for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
char* strrchr(const char* s, int c) {
    const char* r = 0;
    for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
char* strstr(const char* h, const char* n) {
    if (!*n) return (char*)h;
    for (; *h; h++) {
        size_t i = 0;
        while (n[i] && h[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char*)h;
    }
    return 0;
}
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }

int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5); }
int isdigit(int c) { return (unsigned)(c - '0') < 10; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int isalnum(int c) { return (((unsigned)c | 32) - 'a' < 26) | ((unsigned)(c - '0') < 10); }
int isupper(int c) { return (unsigned)(c - 'A') < 26; }
int islower(int c) { return (unsigned)(c - 'a') < 26; }
int isprint(int c) { return (unsigned)(c - 32) < 95; }
int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
int isxdigit(int c) { return isdigit(c) | (((unsigned)c | 32) - 'a' < 6); }
int tolower(int c) { return (unsigned)(c - 'A') < 26 ? c + 32 : c; }
int toupper(int c) { return (unsigned)(c - 'a') < 26 ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }

// digits of |v| into out, returns length (no terminator)
static int utoa(unsigned long v, char* out) {
    char t[24]; int n = 0;
    do { t[n++] = '0' + (char)(v % 10); v /= 10; } while (v);
    for (int i = 0; i < n; i++) out[i] = t[n - 1 - i];
    return n;
}
int vsnprintf(char* buf, size_t size, const char* fmt, __builtin_va_list ap) {
    size_t o = 0;
    char tmp[512];
#define PUT(c) do { if (o + 1 < size) buf[o] = (c); o++; } while (0)
    for (; *fmt; fmt++) {
        if (*fmt != '%') { PUT(*fmt); continue; }
        char spec[32]; int sn = 0; spec[sn++] = *fmt++;
        int prec = -1, lng = 0, width = 0; bool star = false, flags = false, left = false, zero = false, alt = false; char sign = 0;
        for (; *fmt && strchr("-+ 0#", *fmt); spec[sn++] = *fmt++) { left |= *fmt == '-'; zero |= *fmt == '0'; alt |= *fmt == '#'; if (*fmt == '+' || (*fmt == ' ' && !sign)) sign = *fmt; flags = true; }
        if (*fmt == '*') { width = __builtin_va_arg(ap, int); if (width < 0) __sym_unmodelled("printf width"); flags = true; star = true; fmt++; }
        while (isdigit(*fmt)) { width = width * 10 + *fmt - '0'; spec[sn++] = *fmt++; flags = true; }
        bool wstar = star;
        if (*fmt == '.') {
            spec[sn++] = *fmt++; prec = 0; if (!isdigit(*fmt) && *fmt != '*') flags = true;
            if (*fmt == '*') { prec = __builtin_va_arg(ap, int); star = true; spec[sn++] = *fmt++; }
            else while (isdigit(*fmt)) { prec = prec * 10 + *fmt - '0'; spec[sn++] = *fmt++; flags = true; }
        }
        while (*fmt && strchr("lzthjqL", *fmt)) { if (*fmt == 'h') __sym_unmodelled("printf length"); if (*fmt == 'L') __sym_unmodelled("printf length"); lng++; fmt++; }
        char k = *fmt; spec[sn++] = k; spec[sn] = 0;
        // text between pre (sign or 0x) and padding
        auto field = [&](const char* pre, int np, const char* s, int n, bool zeros) {
            int pad = width - np - n; if (pad < 0) pad = 0;
            if (!left && !zeros) for (int i = 0; i < pad; i++) PUT(' ');
            for (int i = 0; i < np; i++) PUT(pre[i]);
            if (!left && zeros) for (int i = 0; i < pad; i++) PUT('0');
            for (int i = 0; i < n; i++) PUT(s[i]);
            if (left) for (int i = 0; i < pad; i++) PUT(' ');
        };
        if (k == '%') PUT('%');
        else if (k == 'c') { char c = (char)__builtin_va_arg(ap, int); field("", 0, &c, 1, false); }
        else if (k == 's') { const char* s = __builtin_va_arg(ap, const char*); if (!s) s = "(null)"; int n = 0; while ((prec < 0 || n < prec) && s[n]) n++; field("", 0, s, n, false); }
        else if (k == 'd' || k == 'i' || k == 'u' || k == 'x' || k == 'X' || k == 'o') {
            bool sg = k == 'd' || k == 'i';
            long v = lng ? __builtin_va_arg(ap, long) : sg ? (long)__builtin_va_arg(ap, int) : (long)__builtin_va_arg(ap, unsigned);
            unsigned long u = (unsigned long)v; char pre[3]; int np = 0;
            if (sg && v < 0) { pre[np++] = '-'; u = 0 - u; } else if (sg && sign) pre[np++] = sign;
            int n = 0;
            if (sg || k == 'u') n = utoa(u, tmp + 64);
            else { char r[24]; unsigned sh = k == 'o' ? 3 : 4; do { r[n++] = (k == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[u & ((1u << sh) - 1)]; u >>= sh; } while (u); for (int i = 0; i < n; i++) tmp[64 + i] = r[n - 1 - i]; if (alt) __sym_unmodelled("printf #"); }
            char* d = tmp + 64; if (prec > 60) __sym_unmodelled("printf precision");
            while (n < prec) { *--d = '0'; n++; }
            field(pre, np, d, n, zero && prec < 0);
        } else if (k == 'g' || k == 'f' || k == 'e' || k == 'G' || k == 'E') {
            double v = __builtin_va_arg(ap, double);
            int n = -1;
            if (wstar) __sym_unmodelled("printf width of a number");
            if (k == 'g' && (prec == -1 || prec >= 6) && (!flags || (flags && !width && !left && !zero && !alt && !sign)) && v > -1e6 && v < 1e6) {
                long iv = (long)v;
                if ((double)iv == v && (iv != 0 || !__builtin_signbit(v))) { // integral: plain digits
                    n = 0;
                    unsigned long u = iv < 0 ? 0 - (unsigned long)iv : (unsigned long)iv;
                    if (iv < 0) tmp[n++] = '-';
                    n += utoa(u, tmp + n);
                }
            }
            if (n < 0) n = __sym_fmt_double(tmp, sizeof tmp, spec, v, prec);
            for (int i = 0; i < n; i++) PUT(tmp[i]);
        } else if (k == 'p') { unsigned long u = (unsigned long)__builtin_va_arg(ap, void*); (void)u; __sym_unmodelled("printf of a pointer"); }
        else __sym_unmodelled("printf format");
    }
    if (size) buf[o < size ? o : size - 1] = 0;
    return (int)o;
}
int snprintf(char* b, size_t n, const char* f, ...) {
    __builtin_va_list ap; __builtin_va_start(ap, f);
    int r = vsnprintf(b, n, f, ap);
    __builtin_va_end(ap);
    return r;
}
int sprintf(char* b, const char* f, ...) {
    __builtin_va_list ap; __builtin_va_start(ap, f);
    int r = vsnprintf(b, 1 << 20, f, ap);
    __builtin_va_end(ap);
    return r;
}
long __sym_fmtlen;
// exceptions
void* __sym_exc_end(void (**d)(void*));
void __sym_exc_free(void*);
void __cxa_end_catch(void) {
    void (*d)(void*) = 0;
    void* o = __sym_exc_end(&d);
    if (o) { if (d) d(o); __sym_exc_free(o); }
}
int __gxx_personality_v0(...) { return 0; }
void* __dso_handle;

// exit: ends the path; a harness that expects it says what to check then
void __sym_end(void);
static void (*exit_hook)(int);
void __stub_exit_hook(void (*f)(int)) { exit_hook = f; }
void exit(int rc) {
    if (exit_hook) exit_hook(rc); else __sym_fail("the program ends unexpectedly");
    __sym_end();
    __builtin_unreachable();
}

// getopt: short options; operands are moved behind the options, as glibc does
char* optarg; int optind = 1, opterr = 1, optopt;
static int optpos = 0, optend; // end of the words the option at hand may take its argument from
static bool operand(const char* a) { return a[0] != '-' || !a[1]; }
static const char* optfind(const char* opts, char c) { while (*opts && (*opts != c || c == ':')) opts++; return opts; }
int getopt(int argc, char* const argv_[], const char* opts) {
    char** argv = (char**)argv_;
    optarg = 0;
    if (optind == 0) { optind = 1; optpos = 0; }
    if (optpos == 0) {
        optend = argc;
        int j = optind;
        while (j < argc && operand(argv[j])) j++;
        if (j >= argc) return -1;
        if (j > optind) {
            // the words of this option: itself, and the next if its last letter takes an argument
            int w = 1;
            if (!(argv[j][1] == '-' && !argv[j][2]))
                for (const char* q = argv[j] + 1; *q; q++) {
                    const char* p = optfind(opts, *q);
                    if (*p && p[1] == ':') { if (!q[1] && j + 1 < argc) w = 2; else if (!q[1]) optend = optind + 1; break; }
                }
            for (int k = 0; k < w; k++) {
                char* t = argv[j + k];
                for (int i = j + k; i > optind + k; i--) argv[i] = argv[i - 1];
                argv[optind + k] = t;
            }
        }
        if (argv[optind][1] == '-' && !argv[optind][2]) { optind++; return -1; }
        optpos = 1;
    }
    char c = argv[optind][optpos++];
    optopt = c;
    const char* p = optfind(opts, c);
    bool last = !argv[optind][optpos];
    if (!*p) { if (last) { optind++; optpos = 0; } return '?'; }
    if (p[1] == ':') {
        if (!last) { optarg = argv[optind] + optpos; optind++; optpos = 0; }
        else {
            optind++; optpos = 0;
            if (optind >= optend) return '?';
            optarg = argv[optind++];
        }
        return c;
    }
    if (last) { optind++; optpos = 0; }
    return c;
}

// ---- virtual files
struct VFile { char name[64]; char* d; long n, cap; int dir; char to[32]; };
static VFile vfs[40]; static int nvfs;
static VFile* vfind(const char* n, bool mk) {
    for (int i = 0; i < nvfs; i++) if (!strcmp(vfs[i].name, n)) return &vfs[i];
    if (!mk || nvfs >= 40) return 0;
    VFile* f = &vfs[nvfs++];
    strncpy(f->name, n, 63); f->name[63] = 0;
    f->d = 0; f->n = f->cap = 0; f->dir = 0; f->to[0] = 0;
    return f;
}
const char* __vfs_path(const char* n) { return n; }
void __vfs_append(void* h, const char* d, long n) {
    VFile* f = (VFile*)h;
    if (f->n + n > f->cap) {
        long c = (f->n + n) * 2 + 64;
        char* q = (char*)__sym_malloc(c, 0);
        if (f->n) memcpy(q, f->d, f->n);
        if (f->d) __sym_free(f->d, 0);
        f->d = q; f->cap = c;
    }
    if (n) memcpy(f->d + f->n, d, n);
    f->n += n;
}
void __vfs_put(const char* name, const char* d, long n) {
    VFile* f = vfind(name, true);
    f->n = 0;
    __vfs_append(f, d, n);
}
int memcmp(const void*, const void*, size_t);
void* __vfs_open(const char* name, bool create, bool trunc) {
    if (strchr(name, '/')) return 0; // the files read and written are all at the root
    VFile* f = vfind(name, create);
    if (f && f->dir) return 0;
    if (f && trunc) f->n = 0;
    return f;
}
long __vfs_read(void* h, long pos, char* b, long n) {
    VFile* f = (VFile*)h;
    if (pos >= f->n) return 0;
    if (n > f->n - pos) n = f->n - pos;
    if (n) memcpy(b, f->d + pos, n);
    return n;
}
// The tree: a name is its path from the root, without a '/' at either end.
static const char CWD[] = "/cwd";
const char* __vfs_cwd(void) { return CWD; }
void __vfs_mkdir(const char* name) { VFile* f = vfind(name, true); f->dir = 1; }
void __vfs_link(const char* name, const char* to) { VFile* f = vfind(name, true); f->dir = 2; strncpy(f->to, to, 31); }
// The name in normal form ("." and repeated and trailing '/' dropped), or null when there can be no such thing.
static bool vname(const char* p, char* o, bool* slash) {
    int n = 0; *slash = false;
    if (!*p) return false;
    if (*p == '/') { for (int i = 0; i < 4; i++) if (p[i] != CWD[i]) return false; p += 4; if (*p && *p != '/') return false; }
    while (*p) {
        while (*p == '/') p++;
        const char* b = p; while (*p && *p != '/') p++;
        long k = p - b; *slash = *p == '/';
        if (k == 0) break;
        if (k == 1 && b[0] == '.') { *slash = true; continue; }
        if (k == 2 && b[0] == '.' && b[1] == '.') { if (!n) return false; while (n > 0 && o[n - 1] != '/') n--; if (n) n--; *slash = true; continue; }
        if (n + k + 2 > 64) return false;
        if (n) o[n++] = '/';
        memcpy(o + n, b, k); n += (int)k;
    }
    o[n] = 0;
    return true;
}
static VFile* vwalk(const char* p, int follow, int* kind, char* real) {
    *kind = 0;
    char o[64]; bool slash;
    if (!vname(p, o, &slash)) return 0;
    char c[64]; int n = 0; int hops = 0; VFile* f = 0; *kind = 2;
    const char* q = o; char rest[128];
    if (slash) follow = 1;
    c[0] = 0;
    while (*q) {
        if (*kind != 2) { *kind = 0; return 0; }
        int b = n; if (n) c[n++] = '/';
        while (*q && *q != '/') c[n++] = *q++;
        c[n] = 0; if (*q) q++;
        f = vfind(c, false);
        if (!f) { *kind = 0; return 0; }
        *kind = f->dir == 1 ? 2 : f->dir == 2 ? 3 : 1;
        if (*kind == 3 && (*q || follow)) {
            if (++hops > 40) { *kind = 4; return 0; }
            int m = (int)strlen(f->to), r = (int)strlen(q); char t[128];
            memcpy(t, c, b); int w = b; if (b) t[w++] = '/';
            memcpy(t + w, f->to, m); w += m; if (r) { t[w++] = '/'; memcpy(t + w, q, r); w += r; } t[w] = 0;
            memcpy(rest, t, w + 1);
            if (w > 60 || !vname(rest, o, &slash)) { *kind = w > 60 ? 4 : 0; return 0; }
            q = o; n = 0; c[0] = 0; f = 0; *kind = 2;
        }
    }
    if (slash && *kind == 1) { *kind = 0; return 0; }
    if (real) memcpy(real, c, n + 1);
    return f;
}
int __vfs_kind(const char* p, int follow) { int k; vwalk(p, follow, &k, 0); return k; }
static const char* leaf(const char* n) { const char* r = n; for (; *n; n++) if (*n == '/') r = n + 1; return r; }
int __vfs_next(const char* d, int from) {
    int k; char r[64]; vwalk(d, 1, &k, r);
    if (k != 2) return -1;
    long n = (long)strlen(r);
    for (int i = from; i < nvfs; i++) {
        const char* l = leaf(vfs[i].name); long m = l - vfs[i].name;
        if (m ? m == n + 1 && n && !memcmp(vfs[i].name, r, n) : n == 0) return i;
    }
    return -1;
}
const char* __vfs_leaf(int i) { return leaf(vfs[i].name); }
long __vfs_fsize(void* h) { return ((VFile*)h)->n; }
long __vfs_size(const char* name) { VFile* f = vfind(name, false); return f ? f->n : -1; }
long __vfs_get(const char* name, char* buf, long max) {
    VFile* f = vfind(name, false);
    if (!f) return -1;
    return __vfs_read(f, 0, buf, max);
}
void __vfs_reset(void) { for (int i = 0; i < nvfs; i++) if (vfs[i].d) __sym_free(vfs[i].d, 0); nvfs = 0; }

// ---- journal of stubbed libraries
static char* slog; static long slogN, slogCap;
void __stub_write(const char* s, long n) {
    if (slogN + n + 1 > slogCap) {
        long c = (slogN + n + 1) * 2 + 64;
        char* q = (char*)__sym_malloc(c, 0);
        if (slogN) memcpy(q, slog, slogN);
        if (slog) __sym_free(slog, 0);
        slog = q; slogCap = c;
    }
    if (n) memcpy(slog + slogN, s, n);
    slogN += n;
    slog[slogN] = 0;
}
long __stub_log_size(void) { return slogN; }
const char* __stub_log(void) { return slog ? slog : ""; }
void __stub_log_reset(void) { if (slog) __sym_free(slog, 0); slog = 0; slogN = slogCap = 0; }
}

// ---- allocation operators
namespace std { class bad_alloc; void __throw_bad_alloc(); }
void* operator new(size_t n) { void* p = __sym_malloc(n, 1); if (!p) std::__throw_bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = __sym_malloc(n, 2); if (!p) std::__throw_bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __sym_malloc(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __sym_malloc(n, 2); }
void operator delete(void* p) noexcept { __sym_free(p, 1); }
void operator delete[](void* p) noexcept { __sym_free(p, 2); }
void operator delete(void* p, size_t) noexcept { __sym_free(p, 1); }
void operator delete[](void* p, size_t) noexcept { __sym_free(p, 2); }

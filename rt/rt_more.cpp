// More of the C and C++ runtime than the code under test uses today, so that a change to it that uses another
// common function can still be decided (symbolic build only).
#include <stddef.h>
#include <limits.h>
typedef unsigned char uc;
extern "C" {
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); size_t strlen(const char*); int strcmp(const char*, const char*);
int isspace(int); int isdigit(int); int* __errno_location();
#define errno (*__errno_location())
#define ERANGE 34
void* __sym_malloc(size_t n, int kind); void __sym_free(void* p, int kind); double __sym_strtod(const char*); long __sym_concretize(long);
void __sym_unmodelled(const char*); void __stub_write(const char* s, long n);

int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int isgraph(int c) { return (unsigned)(c - 33) < 94; }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t strspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { const char* p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
size_t strcspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { const char* p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
static int low(int c) { return (unsigned)(c - 'A') < 26 ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = low((uc)*a), y = low((uc)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { int x = low((uc)*a), y = low((uc)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
char* strncat(char* d, const char* s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) d++, s++; return d; }
char* strndup(const char* s, size_t n) { n = strnlen(s, n); char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void* memrchr(const void* s, int c, size_t n) { const uc* p = (const uc*)s; while (n--) if (p[n] == (uc)c) return (void*)(p + n); return 0; }
void* rawmemchr(const void* s, int c) { const uc* p = (const uc*)s; while (*p != (uc)c) p++; return (void*)p; }
void* memmem(const void* h, size_t n, const void* x, size_t m) { const char* p = (const char*)h; for (size_t i = 0; i + m <= n; i++) { size_t k = 0; while (k < m && p[i + k] == ((const char*)x)[k]) k++; if (k == m) return (void*)(p + i); } return 0; }
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
static char* tok; char* strtok(char* s, const char* d) { return strtok_r(s, d, &tok); }
char* strsep(char** s, const char* d) { char* b = *s; if (!b) return 0; char* e = b + strcspn(b, d); if (*e) { *e = 0; *s = e + 1; } else *s = 0; return b; }
void qsort(void* b, size_t n, size_t w, int (*c)(const void*, const void*)) {
    char* p = (char*)b;
    for (size_t i = 1; i < n; i++) for (size_t j = i; j && c(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
void* bsearch(const void* k, const void* b, size_t n, size_t w, int (*c)(const void*, const void*)) {
    size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; const char* p = (const char*)b + m * w; int r = c(k, p); if (!r) return (void*)p; if (r < 0) h = m; else l = m + 1; } return 0;
}

static int val(int c) { return (unsigned)(c - '0') < 10 ? c - '0' : (unsigned)((c | 32) - 'a') < 26 ? (c | 32) - 'a' + 10 : 99; }
// the magnitude in *m, with saturation; the end in *e
static bool digits(const char* s, char** e, int base, bool* neg, unsigned long* m) {
    const char* p = s; while (isspace((uc)*p)) p++;
    *neg = false; if (*p == '-' || *p == '+') *neg = *p++ == '-';
    if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && val(p[2]) < 16) { p += 2; base = 16; }
    if (!base) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; bool any = false, over = false;
    for (; val((uc)*p) < base; p++) { unsigned long d = val((uc)*p); if (v > (ULONG_MAX - d) / base) over = true; else v = v * base + d; any = true; }
    if (e) *e = (char*)(any ? p : s);
    *m = v; return over;
}
long strtol(const char* s, char** e, int base) {
    bool n; unsigned long m; bool o = digits(s, e, base, &n, &m);
    if (n) { if (o || m > 1ul + LONG_MAX) { errno = ERANGE; return LONG_MIN; } return (long)(0 - m); }
    if (o || m > LONG_MAX) { errno = ERANGE; return LONG_MAX; } return (long)m;
}
unsigned long strtoul(const char* s, char** e, int base) { bool n; unsigned long m; if (digits(s, e, base, &n, &m)) { errno = ERANGE; return ULONG_MAX; } return n ? 0 - m : m; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
double strtod(const char* s, char** e) {
    const char* b = s; while (isspace((uc)*b)) b++;
    size_t n = 0; if (b[n] == '-' || b[n] == '+') n++;
    size_t k = 0; while (isdigit((uc)b[n])) n++, k++;
    if (b[n] == '.') { n++; while (isdigit((uc)b[n])) n++, k++; }
    if (!k) { if (((uc)b[n] | 32) == 'i' || ((uc)b[n] | 32) == 'n') __sym_unmodelled("strtod of a name"); if (e) *e = (char*)s; return 0; }
    if ((b[n] | 32) == 'x') __sym_unmodelled("strtod in hexadecimal");
    if ((b[n] | 32) == 'e') { size_t x = n + 1; if (b[x] == '-' || b[x] == '+') x++; if (isdigit((uc)b[x])) { while (isdigit((uc)b[x])) x++; n = x; } }
    char* t = (char*)__sym_malloc(n + 1, 0);
    for (size_t i = 0; i < n; i++) t[i] = (char)__sym_concretize(b[i]);
    t[n] = 0; double d = __sym_strtod(t); __sym_free(t, 0);
    if (d > 1.7976931348623157e308 || d < -1.7976931348623157e308) errno = ERANGE;
    if (e) *e = (char*)(b + n);
    return d;
}
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double copysign(double a, double b) { return __builtin_copysign(a, b); } float copysignf(float a, float b) { return __builtin_copysignf(a, b); }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a < b ? b : a; } float fmaxf(float a, float b) { return a != a ? b : b != b ? a : a < b ? b : a; }
double fmin(double a, double b) { return a != a ? b : b != b ? a : b < a ? b : a; } float fminf(float a, float b) { return a != a ? b : b != b ? a : b < a ? b : a; }
double fabs(double a) { return __builtin_fabs(a); } float fabsf(float a) { return __builtin_fabsf(a); }
// what is printed is not observed
int printf(const char*, ...) { return 0; } int puts(const char*) { return 0; } int putchar(int c) { return c; } void perror(const char*) {}
int rand() { __sym_unmodelled("rand"); return 0; }
double round(double); float roundf(float); double rint(double); float rintf(float);
long lround(double x) { return (long)round(x); } long lroundf(float x) { return (long)roundf(x); } long long llround(double x) { return (long)round(x); }
long lrint(double x) { return (long)rint(x); } long lrintf(float x) { return (long)rintf(x); } long long llrint(double x) { return (long)rint(x); }
double atof(const char* s) { return strtod(s, 0); }
}


// Stand-ins for the external libraries (MKL DFTI, expat, libcurl, libsndfile, popen, dlopen).
// The same stubs serve the symbolic build and the native replay build.  Each follows the documented
// contract of the library and records what it was asked in the stub journal.
#include "sym.h"
#include <mkl_dfti.h>
#include <expat.h>
#include <curl/curl.h>
#include <sndfile.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef DftiCreateDescriptor
extern "C" void __stub_write(const char* s, long n);
static void js(const char* s) { __stub_write(s, (long)strlen(s)); }
static void jn(long v) {
    char t[24]; int n = 0; unsigned long u = v < 0 ? 0 - (unsigned long)v : (unsigned long)v;
    if (v < 0) js("-");
    do { t[n++] = (char)('0' + u % 10); u /= 10; } while (u);
    while (n) __stub_write(&t[--n], 1);
}
static char* dup(const char* s, long n) { char* r = (char*)malloc(n + 1); if (n) memcpy(r, s, n); r[n] = 0; return r; }

// ------------------------------------------------------------------ DFTI
namespace {
struct Desc { int dbl, cplx, n, committed, notInPlace; };
template <class T> void dft4(int n, bool inv, bool cplx, void* in, void* out) {
    // out[k] = sum_j in[j] w^(jk), w = exp(-+2 pi i / n), n in {1, 2, 4}: only sign changes and swaps
    T xr[4], xi[4], yr[4], yi[4];
    const T* a = (const T*)in; T* b = (T*)out;
    if (cplx) for (int j = 0; j < n; j++) { xr[j] = a[2 * j]; xi[j] = a[2 * j + 1]; }
    else if (!inv) for (int j = 0; j < n; j++) { xr[j] = a[j]; xi[j] = 0; }
    else for (int j = 0; j < n; j++) {
        int k = j <= n / 2 ? j : n - j;
        xr[j] = a[2 * k]; xi[j] = j <= n / 2 ? a[2 * k + 1] : -a[2 * k + 1];
    }
    for (int k = 0; k < n; k++) {
        T r = 0, i = 0;
        for (int j = 0; j < n; j++) {
            int q = (j * k * (4 / n)) % 4; if (inv) q = (4 - q) % 4;
            switch (q) {
            case 0: r += xr[j]; i += xi[j]; break;
            case 1: r += xi[j]; i -= xr[j]; break;   // times -i
            case 2: r -= xr[j]; i -= xi[j]; break;
            default: r -= xi[j]; i += xr[j]; break;
            }
        }
        yr[k] = r; yi[k] = i;
    }
    if (cplx) for (int k = 0; k < n; k++) { b[2 * k] = yr[k]; b[2 * k + 1] = yi[k]; }
    else if (inv) for (int k = 0; k < n; k++) b[k] = yr[k];
    else for (int k = 0; k < n / 2 + 1; k++) { b[2 * k] = yr[k]; b[2 * k + 1] = yi[k]; }
}
MKL_LONG mk(DFTI_DESCRIPTOR_HANDLE* h, int dbl, int dom, int n) {
    js("[dfti create "); js(dbl ? "double " : "single "); js(dom == DFTI_COMPLEX ? "complex " : "real "); jn(n); js("]");
    if (n <= 0) return DFTI_INCONSISTENT_CONFIGURATION;
    Desc* d = (Desc*)malloc(sizeof(Desc));
    d->dbl = dbl; d->cplx = dom == DFTI_COMPLEX; d->n = n; d->committed = 0; d->notInPlace = 0;
    *h = (DFTI_DESCRIPTOR_HANDLE)d;
    return 0;
}
MKL_LONG run(Desc* d, bool inv, void* in, void* out) {
    js(inv ? "[dfti backward]" : "[dfti forward]");
    if (!d || !d->committed) return DFTI_BAD_DESCRIPTOR;
    if (!d->notInPlace || !out || in == out) return DFTI_INCONSISTENT_CONFIGURATION;
    if (d->n != 1 && d->n != 2 && d->n != 4) return DFTI_UNIMPLEMENTED;
    if (d->dbl) dft4<double>(d->n, inv, d->cplx, in, out); else dft4<float>(d->n, inv, d->cplx, in, out);
    return 0;
}
}
extern "C" {
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE* h, enum DFTI_CONFIG_VALUE p, enum DFTI_CONFIG_VALUE dom, MKL_LONG dim, ...) {
    va_list ap; va_start(ap, dim); int n = va_arg(ap, int); va_end(ap);
    return mk(h, p == DFTI_DOUBLE, dom, n);
}
MKL_LONG DftiCreateDescriptor_s_1d(DFTI_DESCRIPTOR_HANDLE* h, enum DFTI_CONFIG_VALUE dom, ...) {
    va_list ap; va_start(ap, dom); int n = va_arg(ap, int); va_end(ap);
    return mk(h, 0, dom, n);
}
MKL_LONG DftiCreateDescriptor_d_1d(DFTI_DESCRIPTOR_HANDLE* h, enum DFTI_CONFIG_VALUE dom, ...) {
    va_list ap; va_start(ap, dom); int n = va_arg(ap, int); va_end(ap);
    return mk(h, 1, dom, n);
}
MKL_LONG DftiCreateDescriptor_s_md(DFTI_DESCRIPTOR_HANDLE*, enum DFTI_CONFIG_VALUE, MKL_LONG, ...) { return DFTI_UNIMPLEMENTED; }
MKL_LONG DftiCreateDescriptor_d_md(DFTI_DESCRIPTOR_HANDLE*, enum DFTI_CONFIG_VALUE, MKL_LONG, ...) { return DFTI_UNIMPLEMENTED; }
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE h, enum DFTI_CONFIG_PARAM p, ...) {
    va_list ap; va_start(ap, p); int v = va_arg(ap, int); va_end(ap);
    if (p == DFTI_PLACEMENT) ((Desc*)h)->notInPlace = v == DFTI_NOT_INPLACE;
    return 0;
}
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE h) { if (!h) return DFTI_BAD_DESCRIPTOR; ((Desc*)h)->committed = 1; return 0; }
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void* in, ...) { va_list ap; va_start(ap, in); void* o = va_arg(ap, void*); va_end(ap); return run((Desc*)h, false, in, o); }
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void* in, ...) { va_list ap; va_start(ap, in); void* o = va_arg(ap, void*); va_end(ap); return run((Desc*)h, true, in, o); }
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE* h) { if (!*h) return DFTI_BAD_DESCRIPTOR; free(*h); *h = 0; return 0; }
char* DftiErrorMessage(MKL_LONG) { return (char*)"DFTI error"; }
MKL_LONG DftiErrorClass(MKL_LONG a, MKL_LONG b) { return a == b; }

// ------------------------------------------------------------------ Kiss FFT
// A plan is only good for its own direction and kind; there are no real ones of odd size.
struct Kiss { int n, inverse, real; };
static void* kiss(int n, int inverse, int real, void* mem) {
    js(real ? "[kiss real " : "[kiss complex "); jn(n); js("]");
    if (mem || (real && n & 1)) return 0;
    Kiss* k = (Kiss*)malloc(sizeof(Kiss)); k->n = n; k->inverse = inverse; k->real = real;
    return k;
}
static void kiss_run(Kiss* k, int inverse, int real, const void* in, void* out) {
    if (k->inverse != inverse || k->real != real) return;
    if (k->n == 1 || k->n == 2 || k->n == 4) dft4<float>(k->n, inverse, !real, (void*)in, out);
}
void* kiss_fft_alloc(int n, int inverse, void* mem, size_t*) { return kiss(n, inverse, 0, mem); }
void* kiss_fftr_alloc(int n, int inverse, void* mem, size_t*) { return kiss(n, inverse, 1, mem); }
void kiss_fft(Kiss* k, const void* in, void* out) { kiss_run(k, k->inverse, 0, in, out); }
void kiss_fftr(Kiss* k, const float* in, void* out) { kiss_run(k, 0, 1, in, out); }
void kiss_fftri(Kiss* k, const void* in, float* out) { kiss_run(k, 1, 1, in, out); }
void kiss_fft_cleanup() {}

// ------------------------------------------------------------------ expat: a small non validating parser
struct XML_ParserStruct {
    void* ud; XML_StartElementHandler st; XML_EndElementHandler en; XML_CharacterDataHandler ch; XML_DefaultHandler df; XML_XmlDeclHandler xd;
    XML_CommentHandler cm; XML_ProcessingInstructionHandler pi; XML_StartDoctypeDeclHandler ds; XML_EndDoctypeDeclHandler de;
    char* buf; char* rest; long n; long depth; int done, fail, na; char* open[64];
};
XML_Parser XML_ParserCreate(const XML_Char*) { XML_Parser p = (XML_Parser)malloc(sizeof(XML_ParserStruct)); memset(p, 0, sizeof *p); return p; }
void XML_ParserFree(XML_Parser p) { if (!p) return; for (long i = 0; i < p->depth; i++) free(p->open[i]); free(p->buf); free(p->rest); free(p); }
void XML_SetUserData(XML_Parser p, void* u) { p->ud = u; }
void XML_SetDefaultHandler(XML_Parser p, XML_DefaultHandler h) { p->df = h; }
void XML_SetDefaultHandlerExpand(XML_Parser p, XML_DefaultHandler h) { p->df = h; } // no entities are declared here
void XML_SetCommentHandler(XML_Parser p, XML_CommentHandler h) { p->cm = h; }
void XML_SetProcessingInstructionHandler(XML_Parser p, XML_ProcessingInstructionHandler h) { p->pi = h; }
void XML_SetDoctypeDeclHandler(XML_Parser p, XML_StartDoctypeDeclHandler s, XML_EndDoctypeDeclHandler e) { p->ds = s; p->de = e; }
void XML_SetStartDoctypeDeclHandler(XML_Parser p, XML_StartDoctypeDeclHandler s) { p->ds = s; }
void XML_SetEndDoctypeDeclHandler(XML_Parser p, XML_EndDoctypeDeclHandler e) { p->de = e; }
XML_Size XML_GetCurrentColumnNumber(XML_Parser) { return 0; }
XML_Index XML_GetCurrentByteIndex(XML_Parser) { return 0; }
enum XML_Status XML_StopParser(XML_Parser p, XML_Bool) { p->fail = 1; return XML_STATUS_OK; }
int XML_GetSpecifiedAttributeCount(XML_Parser p) { return p->na; }
void XML_SetXmlDeclHandler(XML_Parser p, XML_XmlDeclHandler h) { p->xd = h; }
void XML_SetStartElementHandler(XML_Parser p, XML_StartElementHandler h) { p->st = h; }
void XML_SetEndElementHandler(XML_Parser p, XML_EndElementHandler h) { p->en = h; }
void XML_SetElementHandler(XML_Parser p, XML_StartElementHandler s, XML_EndElementHandler e) { p->st = s; p->en = e; }
void XML_SetCharacterDataHandler(XML_Parser p, XML_CharacterDataHandler h) { p->ch = h; }
enum XML_Error XML_GetErrorCode(XML_Parser) { return XML_ERROR_SYNTAX; }
const XML_LChar* XML_ErrorString(enum XML_Error) { return "syntax error"; }
int XML_GetCurrentByteCount(XML_Parser) { return 1; }
XML_Size XML_GetCurrentLineNumber(XML_Parser) { return 1; }
static int nmch(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9') || c == '-' || c == '.'; }
static int sp(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
// one entity at s[0] == '&': length consumed, 0 if malformed
static int entity(const char* s, long n, char* out) {
    static const struct { const char* t; char c; } E[] = {{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&apos;", '\''}, {"&quot;", '"'}};
    for (int k = 0; k < 5; k++) {
        long l = (long)strlen(E[k].t);
        if (l <= n && !strncmp(s, E[k].t, l)) { *out = E[k].c; return (int)l; }
    }
    return 0;
}
// what has no handler goes to the default one: a stretch of the buffer of which nothing else may be read
static void pass(XML_Parser p, const char* s, long n) {
    if (!p->df) return;
    free(p->rest); p->rest = (char*)malloc(n); memcpy(p->rest, s, n);
    p->df(p->ud, p->rest, (int)n);
}
// parse as much of the buffer as forms complete tokens; character data is reported in the pieces expat
// reports: maximal runs between entities, line ends and chunk ends
static int pump(XML_Parser p, int final) {
    long i = 0;
    while (i < p->n) {
        char* b = p->buf;
        if (b[i] == '<') {
            long e = i; char q = 0;
            while (e < p->n && (q || b[e] != '>')) { if (q) { if (b[e] == q) q = 0; } else if (b[e] == '"' || b[e] == '\'') q = b[e]; e++; }
            if (e >= p->n) { if (final) return 0; break; }
            bool decl = b[i + 1] == '?' && e - i > 5 && !strncmp(b + i, "<?xml ", 6);
            if (decl) { if (p->xd) p->xd(p->ud, "1.0", 0, -1); else pass(p, b + i, e + 1 - i); i = e + 1; continue; }
            if (b[i + 1] == '?' && p->pi) {
                long t = i + 2, f = e - 1; while (t < f && nmch(b[t])) t++;
                char* tg = dup(b + i + 2, t - i - 2); while (t < f && sp(b[t])) t++;
                char* d = dup(b + t, f - t); p->pi(p->ud, tg, d); free(tg); free(d); i = e + 1; continue;
            }
            if (b[i + 1] == '!' && b[i + 2] == '-' && p->cm) { char* d = dup(b + i + 4, e - i - 6); p->cm(p->ud, d); free(d); i = e + 1; continue; }
            if (b[i + 1] == '!' && b[i + 2] == 'D' && (p->ds || p->de)) {
                char* d = dup(b + i + 10, e - i - 10); if (p->ds) p->ds(p->ud, d, 0, 0, 0); if (p->de) p->de(p->ud); free(d); i = e + 1; continue;
            }
            if (b[i + 1] == '?' || b[i + 1] == '!') { pass(p, b + i, e + 1 - i); i = e + 1; continue; }
            bool close = b[i + 1] == '/', empty = false;
            long s = i + 1 + close, t = s;
            while (t < e && nmch(b[t])) t++;
            if (t == s) return 0;
            char* name = dup(b + s, t - s);
            if (close) { while (t < e && sp(b[t])) t++; bool ok = t == e && p->depth > 0 && !strcmp(p->open[p->depth - 1], name); free(name); if (!ok) return 0; name = p->open[--p->depth]; if (!p->depth) p->done = 1; p->en(p->ud, name); free(name); i = e + 1; continue; }
            char* av[81]; int na = 0; bool bad = p->done;
            while (!bad) {
                while (t < e && sp(b[t])) t++;
                if (t == e) break;
                if (b[t] == '/' && t + 1 == e) { empty = true; break; }
                long a = t; while (t < e && nmch(b[t])) t++;
                if (a == t || na >= 78 || t + 1 >= e || b[t] != '=' || (b[t + 1] != '"' && b[t + 1] != '\'')) { bad = true; break; }
                av[na++] = dup(b + a, t - a);
                char qq = b[++t]; t++;
                char* v = (char*)malloc(e - t + 1); long vn = 0;
                while (t < e && b[t] != qq) {
                    if (b[t] == '<') { bad = true; break; }
                    if (b[t] == '&') { char c; int l = entity(b + t, e - t, &c); if (!l) { bad = true; break; } v[vn++] = c; t += l; }
                    else { char c = b[t++]; v[vn++] = sp(c) ? ' ' : c; }
                }
                v[vn] = 0; t++;
                av[na++] = v;
            }
            av[na] = 0; p->na = na;
            if (p->depth >= 64) bad = true;
            if (!bad) { p->open[p->depth++] = dup(name, (long)strlen(name)); p->st(p->ud, name, (const XML_Char**)av); if (empty) { free(p->open[--p->depth]); if (!p->depth) p->done = 1; p->en(p->ud, name); } }
            for (int k = 0; k < na; k++) free(av[k]);
            free(name);
            if (bad) return 0;
            i = e + 1;
        } else if (p->depth == 0) { long e = i; while (e < p->n && sp(b[e])) e++; if (e == i) return 0; pass(p, b + i, e - i); i = e; }
        else if (b[i] == '&') {
            char c; int l = entity(b + i, p->n - i, &c);
            if (!l) { if (!final && p->n - i < 6) break; return 0; }
            p->ch(p->ud, &c, 1); i += l;
        } else if (b[i] == '\n') { p->ch(p->ud, b + i, 1); i++; }
        else {
            long e = i; while (e < p->n && b[e] != '<' && b[e] != '&' && b[e] != '\n') e++;
            p->ch(p->ud, b + i, (int)(e - i)); i = e;
        }
    }
    if (i) { memmove(p->buf, p->buf + i, p->n - i); p->n -= i; }
    if (final && p->n) return 0;
    return 1;
}
enum XML_Status XML_Parse(XML_Parser p, const char* s, int len, int final) {
    if (len) {
        char* b = (char*)malloc(p->n + len + 1);
        if (p->n) memcpy(b, p->buf, p->n);
        memcpy(b + p->n, s, len);
        b[p->n + len] = 0;
        free(p->buf); p->buf = b; p->n += len;
    }
    if (p->fail || !pump(p, final) || p->fail || (final && (p->depth || !p->done))) { p->fail = 1; return XML_STATUS_ERROR; }
    return XML_STATUS_OK;
}

// ------------------------------------------------------------------ curl
static const char* cData; static const long* cLens; static int cN, cRes, cLive;
void __stub_curl_set(const char* d, const long* lens, int n, int res) { cData = d; cLens = lens; cN = n; cRes = res; }
int __stub_curl_live(void) { return cLive; }
struct Easy_ { char* url; curl_write_callback cb; void* ud; };
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
static int cNoInit;
void __stub_curl_noinit(int f) { cNoInit = f; }
CURL* curl_easy_init(void) { if (cNoInit) return 0; Easy_* e = (Easy_*)malloc(sizeof(Easy_)); memset(e, 0, sizeof *e); cLive++; return (CURL*)e; }
#undef curl_easy_setopt
CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) {
    va_list ap; va_start(ap, o); Easy_* e = (Easy_*)h;
    if (o == CURLOPT_URL) { const char* u = va_arg(ap, const char*); free(e->url); e->url = dup(u, (long)strlen(u)); }
    else if (o == CURLOPT_WRITEFUNCTION) e->cb = va_arg(ap, curl_write_callback);
    else if (o == CURLOPT_WRITEDATA) e->ud = va_arg(ap, void*);
    va_end(ap); return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* h) {
    Easy_* e = (Easy_*)h;
    if (!e->url || !e->cb) return CURLE_URL_MALFORMAT;
    js("[curl "); js(e->url); js("]");
    const char* p = cData;
    for (int i = 0; i < cN; i++) {
        // the library hands over a transient, unterminated buffer
        char* t = (char*)malloc(cLens[i] ? cLens[i] : 1);
        if (cLens[i]) memcpy(t, p, cLens[i]);
        size_t r = e->cb(t, 1, cLens[i], e->ud);
        free(t);
        if (r != (size_t)cLens[i]) return CURLE_WRITE_ERROR;
        p += cLens[i];
    }
    return (CURLcode)cRes;
}
void curl_easy_cleanup(CURL* h) { Easy_* e = (Easy_*)h; if (!e) return; free(e->url); free(e); cLive--; }
const char* curl_easy_strerror(CURLcode) { return "curl error"; }

// ------------------------------------------------------------------ sndfile: header of four ints, then floats
struct sf_private_tag { char name[64]; int mode, ch; int rate, format; long pos, frames; float* d; long n, cap; };
static int sLive, sNoOpen; static long sMax = -1;
int __stub_snd_live(void) { return sLive; }
void __stub_snd_fault(int noOpen, long maxFrames) { sNoOpen = noOpen; sMax = maxFrames; }
void __stub_snd_put(const char* name, int rate, int ch, long frames, const float* d) {
    long sz = 16 + frames * ch * 4; char* b = (char*)malloc(sz);
    int h[4] = {rate, ch, (int)frames, SF_FORMAT_WAV | SF_FORMAT_PCM_16}; memcpy(b, h, 16);
    if (frames * ch) memcpy(b + 16, d, frames * ch * 4);
    __vfs_put(name, b, sz); free(b);
}
SNDFILE* sf_open(const char* path, int mode, SF_INFO* info) {
    if (sNoOpen) return 0;
    sf_private_tag* s = (sf_private_tag*)malloc(sizeof(sf_private_tag)); memset(s, 0, sizeof *s);
    const char* base = path; if (__sym_is_native()) { const char* q = strrchr(path, '/'); if (q) base = q + 1; }
    strncpy(s->name, base, 63); s->mode = mode;
    if (mode == SFM_READ) {
        long n = __vfs_size(s->name);
        if (n < 16) { free(s); return 0; }
        char* b = (char*)malloc(n); __vfs_get(s->name, b, n);
        int h[4]; memcpy(h, b, 16);
        s->rate = h[0]; s->ch = h[1]; s->frames = h[2]; s->format = h[3];
        s->d = (float*)malloc(n - 16 + 4); memcpy(s->d, b + 16, n - 16); free(b);
        info->samplerate = s->rate; info->channels = s->ch; info->frames = s->frames; info->format = s->format; info->sections = 1; info->seekable = 1;
    } else {
        if (info->channels < 1 || info->samplerate < 1) { free(s); return 0; }
        s->rate = info->samplerate; s->ch = info->channels; s->format = info->format;
    }
    sLive++;
    return s;
}
static void sgrow(SNDFILE* s, const float* p, long items) {
    if (s->n + items > s->cap) { long c = (s->n + items) * 2 + 16; float* q = (float*)malloc(c * 4); if (s->n) memcpy(q, s->d, s->n * 4); free(s->d); s->d = q; s->cap = c; }
    if (items > 0) memcpy(s->d + s->n, p, items * 4);
    s->n += items;
}
sf_count_t sf_readf_float(SNDFILE* s, float* p, sf_count_t frames) {
    long k = s->frames - s->pos; if (frames < k) k = frames;
    if (sMax >= 0 && k > sMax) k = sMax;
    if (k > 0) memcpy(p, s->d + s->pos * s->ch, k * s->ch * 4);
    // libsndfile zero fills what the file does not provide
    for (long i = (k > 0 ? k : 0) * s->ch; i < frames * s->ch; i++) p[i] = 0;
    s->pos += k; return k;
}
sf_count_t sf_read_float(SNDFILE* s, float* p, sf_count_t items) { if (items % s->ch) return 0; return sf_readf_float(s, p, items / s->ch) * s->ch; }
sf_count_t sf_writef_float(SNDFILE* s, const float* p, sf_count_t frames) { if (sMax >= 0 && frames > sMax) frames = sMax; sgrow(s, p, frames * s->ch); return frames; }
sf_count_t sf_write_float(SNDFILE* s, const float* p, sf_count_t items) { if (items % s->ch) return 0; return sf_writef_float(s, p, items / s->ch) * s->ch; }
int sf_close(SNDFILE* s) {
    if (!s) return 1;
    if (s->mode != SFM_READ) __stub_snd_put(s->name, s->rate, s->ch, s->n / s->ch, s->d);
    free(s->d); free(s); sLive--; return 0;
}
const char* sf_strerror(SNDFILE*) { return "sndfile error"; }
int sf_error(SNDFILE*) { return 0; }

// ------------------------------------------------------------------ dlopen
struct Lib { const char* name; const char* sym; void* fn; };
static Lib libs[8]; static int nlibs; static const char* dlErr; static int dlLive;
void __stub_dl_add(const char* name, const char* sym, void* fn) { if (nlibs < 8) { libs[nlibs].name = name; libs[nlibs].sym = sym; libs[nlibs++].fn = fn; } }
int __stub_dl_live(void) { return dlLive; }
void __stub_dl_reset(void) { nlibs = 0; }
#ifdef NATIVE
#define DL(n) __wrap_##n
#else
#define DL(n) n
#endif
void* DL(dlopen)(const char* n, int) {
    js("[dlopen "); js(n); js("]");
    for (int i = 0; i < nlibs; i++) if (!strcmp(libs[i].name, n)) { Lib** h = (Lib**)malloc(sizeof(Lib*)); *h = &libs[i]; dlLive++; return h; }
    dlErr = "cannot open shared object file"; return 0;
}
void* DL(dlsym)(void* h, const char* s) {
    if (!h) { dlErr = "null handle"; return 0; }
    Lib* l = *(Lib**)h;
    if (!strcmp(l->sym, s)) return l->fn;
    dlErr = "undefined symbol"; return 0;
}
int DL(dlclose)(void* h) { js("[dlclose]"); if (!h) { js("[dlclose null]"); return 1; } free(h); dlLive--; return 0; }
char* DL(dlerror)(void) { const char* e = dlErr; dlErr = 0; return (char*)e; }

// ------------------------------------------------------------------ popen
static int pLive, pFail, pLeft;
void __stub_popen_fail(int f) { pFail = f; pLeft = f - 2; } // 1: does not start; 2 + k: only k writes succeed
int __stub_popen_live(void) { return pLive; }
#ifdef NATIVE
static char* pBuf; static size_t pN;
static ssize_t pWrite(void*, const char* d, size_t n) { if (pFail > 1 && !pLeft--) { pLeft = 0; return 0; } __stub_write(d, (long)n); return (ssize_t)n; }
FILE* __wrap_popen(const char* c, const char* m) {
    js("[popen "); js(c); js(" "); js(m); js("]"); if (pFail == 1) return 0; pLive++;
    if (!pFail) return open_memstream(&pBuf, &pN);
    cookie_io_functions_t io = {0, pWrite, 0, 0}; FILE* f = fopencookie(0, m, io); setvbuf(f, 0, _IONBF, 0); return f;
}
int __wrap_pclose(FILE* f) { fclose(f); if (pBuf) __stub_write(pBuf, (long)pN); free(pBuf); pBuf = 0; js("[pclose]"); pLive--; return 0; }
#else
FILE* popen(const char* c, const char* m) { js("[popen "); js(c); js(" "); js(m); js("]"); if (pFail == 1) return 0; pLive++; return (FILE*)malloc(8); }
int pclose(FILE* f) { free(f); js("[pclose]"); pLive--; return 0; }
int fputs(const char* s, FILE*) { if (pFail > 1 && *s && !pLeft--) { pLeft = 0; return -1; } js(s); return 1; }
int fputc(int c, FILE*) { char b = (char)c; __stub_write(&b, 1); return c; }
int putc(int c, FILE* f) { return fputc(c, f); }
size_t fwrite(const void* p, size_t a, size_t b, FILE*) { __stub_write((const char*)p, (long)(a * b)); return b; }
int fflush(FILE*) { return 0; }
int vsnprintf(char*, size_t, const char*, va_list);
int fprintf(FILE*, const char* f, ...) { char b[512]; va_list ap; va_start(ap, f); int r = vsnprintf(b, sizeof b, f, ap); va_end(ap); js(b); return r; }
int errno_;
int* __errno_location(void) { return &errno_; }
#endif
}

// ------------------------------------------------------------------ backtrace
extern "C" {
static const char* const* btSym; static int btN, btFail;
void __stub_backtrace_set(int n, const char* const* sym, int fail) { btN = n; btSym = sym; btFail = fail; }
int DL(backtrace)(void** b, int n) { int k = btN < n ? btN : n; for (int i = 0; i < k; i++) b[i] = 0; return k; }
char** DL(backtrace_symbols)(void* const*, int n) {
    if (btFail) return 0;
    long sz = n * (long)sizeof(char*) + 1;
    for (int i = 0; i < n; i++) sz += (long)strlen(btSym[i]) + 1;
    char** r = (char**)malloc(sz); char* t = (char*)(r + n);
    for (int i = 0; i < n; i++) { strcpy(t, btSym[i]); r[i] = t; t += strlen(t) + 1; }
    return r;
}
#ifndef NATIVE
// only names of the form _Z<len><name>v are demangled; anything else is not a mangled name
char* __cxa_demangle(const char* m, char* out, size_t* len, int* st) {
    int n = 0; const char* p = m + 2;
    if (m[0] != '_' || m[1] != 'Z' || *p < '1' || *p > '9') { *st = -2; return 0; }
    while (*p >= '0' && *p <= '9') n = n * 10 + (*p++ - '0');
    for (int i = 0; i < n; i++) if (!p[i]) { *st = -2; return 0; }
    if (p[n] != 'v' || p[n + 1]) { *st = -2; return 0; }
    if (!out || *len < (size_t)n + 3) { free(out); out = (char*)malloc(n + 3); *len = n + 3; }
    memcpy(out, p, n); out[n] = '('; out[n + 1] = ')'; out[n + 2] = 0;
    *st = 0; return out;
}
#endif
}

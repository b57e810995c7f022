// Native replay: runs one harness entry on recorded inputs against the real code (real libstdc++, real MKL,
// real Boost), under AddressSanitizer.
//   replay <entry> <inputs>      inputs: lines "name value"
// exit 0: ran to the end; 10: a check failed (REPLAY-FAIL line); 77: inputs do not fit this run; 78: known finding
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <link.h>
#include <mkl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>
extern "C" void* __real_dlsym(void*, const char*);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
extern "C" void __asan_describe_address(void*);
extern "C" void __asan_set_death_callback(void (*)(void));
static const size_t CAP = 1 << 20;
struct Ent { const volatile void* p; long seq; size_t n; };
static Ent* tab; static long seq; static bool busy;
static size_t hsh(const volatile void* p) { return ((size_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 40; }
static void onM(const volatile void* p, size_t n) {
    if (!p || !tab || busy) return;
    for (size_t h = hsh(p) & (CAP - 1), k = 0; k < CAP; h = (h + 1) & (CAP - 1), k++) if (!tab[h].p || tab[h].p == p || tab[h].p == (void*)1) { tab[h].p = p; tab[h].seq = ++seq; tab[h].n = n; return; }
}
static void onF(const volatile void* p) {
    if (!p || !tab || busy) return;
    for (size_t h = hsh(p) & (CAP - 1), k = 0; k < CAP && tab[h].p; h = (h + 1) & (CAP - 1), k++) if (tab[h].p == p) { tab[h].p = (void*)1; return; }
}
static std::vector<std::pair<std::string, long>>* in; static size_t inPos;
static void finish(int rc, const char* what, const char* msg) {
    fflush(stdout);
    printf("%s %s\n", what, msg); fflush(stdout);
    _exit(rc);
}
static long take(const char* name) {
    std::string nm = name; for (char& c : nm) if (c == ' ') c = '_';
    if (inPos >= in->size() || (*in)[inPos].first != nm) finish(77, "REPLAY-DIVERGED", name);
    return (*in)[inPos++].second;
}
static std::string dir;
__attribute__((no_sanitize("address"))) static void scan(std::vector<std::pair<const char*, size_t>>& todo, std::map<const char*, size_t>& live, std::set<const char*>& seen) {
    while (!todo.empty()) {
        auto o = todo.back(); todo.pop_back();
        const char* a = (const char*)(((size_t)o.first + 7) & ~7ul);
        for (; a + 8 <= o.first + o.second; a += 8) {
            const char* v = *(const char* const*)a;
            auto it = live.upper_bound(v);
            if (it == live.begin()) continue;
            --it;
            if (v >= it->first + tab[it->second].n && v != it->first) continue;
            if (seen.insert(it->first).second) todo.push_back({it->first, tab[it->second].n});
        }
    }
}
__attribute__((constructor(101))) static void track(void) {
    tab = (Ent*)mmap(0, CAP * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    __sanitizer_install_malloc_and_free_hooks(onM, onF);
}
extern "C" {
long __sym_range(const char* n, long lo, long hi) { long v = take(n); if (v < lo || v > hi) finish(77, "REPLAY-DIVERGED range", n); return v; }
unsigned long __sym_bits(const char* n, int b) { unsigned long v = (unsigned long)take(n); return b >= 64 ? v : v & ((1ul << b) - 1); }
long __sym_choice(const char* n, long lo, long hi) { return __sym_range(n, lo, hi); }
void __sym_assume(bool c) { if (!c) finish(77, "REPLAY-DIVERGED", "assumption"); }
void __sym_assert(bool c, const char* m) { if (!c) finish(10, "REPLAY-FAIL assert", m); }
void __sym_cover(const char*) {}
long __sym_leak_mark(void) { return seq; }
// what is neither reachable from globals nor from blocks older than the mark has leaked
void __sym_leak_check(long mark, const char* w) {
    busy = true;
    std::vector<std::pair<const char*, size_t>> todo;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* x) {
        if (i->dlpi_name && (strstr(i->dlpi_name, "libasan") || strstr(i->dlpi_name, "linux-vdso"))) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W))
                ((decltype(todo)*)x)->push_back({(const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_memsz});
        return 0;
    }, &todo);
    std::map<const char*, size_t> live; std::set<const char*> seen;
    for (size_t i = 0; i < CAP; i++) if (tab[i].p && tab[i].p != (void*)1) {
        const char* q = (const char*)tab[i].p;
        if (tab[i].seq > mark) live[q] = i; else todo.push_back({q, tab[i].n});
    }
    scan(todo, live, seen);
    for (auto& e : live) if (!seen.count(e.first)) {
        if (getenv("VREPLAY_DESCRIBE")) __asan_describe_address((void*)e.first);
        char b[200]; snprintf(b, sizeof b, "%s: %zu bytes still allocated", w, tab[e.second].n); finish(10, "REPLAY-FAIL leak", b);
    }
    busy = false;
}
int __sym_is_native(void) { return 1; }
void __sym_known(const char* id, bool c) { if (c) finish(78, "REPLAY-KNOWN", id); }
void __sym_fail(const char* m) { finish(10, "REPLAY-FAIL assert", m); }
long __sym_concretize(long v) { return v; }
int __sym_is_symbolic(long) { return 0; }
void __sym_trace(const char*, long) {}
static int lapack_info;
void __stub_eigen_reset(void) { lapack_info = 0; }
static void (*exit_hook)(int);
void __stub_exit_hook(void (*f)(int)) { exit_hook = f; }
void __wrap_exit(int rc) {
    if (exit_hook) exit_hook(rc); else finish(10, "REPLAY-FAIL assert", "the program ends unexpectedly");
    if (inPos != in->size()) finish(77, "REPLAY-DIVERGED", "unused inputs");
    fflush(stdout);
    _exit(0);
}
void __stub_lapack_fail(int info) { lapack_info = info; }
#define WRAP_EEV(p, T) \
    int __real_##p##geev_(char*, char*, int*, T*, int*, T*, T*, T*, int*, T*, int*, T*, int*, int*); \
    int __wrap_##p##geev_(char* jl, char* jr, int* n, T* a, int* lda, T* wr, T* wi, T* vl, int* ldvl, T* vr, int* ldvr, T* w, int* lw, int* info) { \
        __real_##p##geev_(jl, jr, n, a, lda, wr, wi, vl, ldvl, vr, ldvr, w, lw, info); if (lapack_info) *info = lapack_info; return 0; }
WRAP_EEV(s, float) WRAP_EEV(d, double)
int __real_sgees_(char*, char*, void*, int*, float*, int*, int*, float*, float*, float*, int*, float*, int*, int*, int*);
int __wrap_sgees_(char* jv, char* sort, void* f, int* n, float* a, int* lda, int* sdim, float* wr, float* wi, float* vs, int* ldvs, float* w, int* lw, int* bw, int* info) {
    __real_sgees_(jv, sort, f, n, a, lda, sdim, wr, wi, vs, ldvs, w, lw, bw, info); if (lapack_info) *info = lapack_info; return 0; }
void __stub_eigen_add(int, const long*, const long*, const long*) {}
const char* __vfs_path(const char* n) {
    static char t[16][512]; static int k; // no allocation: leaks are being counted
    char* p = t[k++ % 16];
    snprintf(p, sizeof t[0], "%s/%s", dir.c_str(), n);
    return p;
}
void __vfs_put(const char* n, const char* d, long k) { FILE* f = fopen(__vfs_path(n), "wb"); if (k) fwrite(d, 1, k, f); fclose(f); }
long __vfs_size(const char* n) { struct stat s; return stat(__vfs_path(n), &s) ? -1 : (long)s.st_size; }
long __vfs_get(const char* n, char* b, long m) { FILE* f = fopen(__vfs_path(n), "rb"); if (!f) return -1; long k = (long)fread(b, 1, m, f); fclose(f); return k; }
static void wipe(const std::string& at, int depth) { // only what is below the scratch directory; links are removed, not followed
    if (dir.find("/vfs") == std::string::npos || at.compare(0, dir.size(), dir) || depth > 8) return;
    DIR* d = opendir(at.c_str());
    if (!d) return;
    while (auto* e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string f = at + "/" + e->d_name; struct stat s;
        if (!lstat(f.c_str(), &s) && S_ISDIR(s.st_mode)) { wipe(f, depth + 1); rmdir(f.c_str()); } else unlink(f.c_str());
    }
    closedir(d);
}
void __vfs_reset(void) {
    wipe(dir, 0);
}
void __vfs_mkdir(const char* n) { mkdir(__vfs_path(n), 0700); }
void __vfs_link(const char* n, const char* to) { if (symlink(to, __vfs_path(n))) finish(77, "REPLAY-DIVERGED", n); }
const char* __vfs_cwd(void) { static char b[512]; if (chdir(dir.c_str()) || !getcwd(b, sizeof b)) finish(77, "REPLAY-DIVERGED", "cwd"); return b; }
static std::string* slog;
void __stub_write(const char* s, long n) { slog->append(s, n); }
long __stub_log_size(void) { return (long)slog->size(); }
const char* __stub_log(void) { return slog->c_str(); }
void __stub_log_reset(void) { slog->clear(); slog->shrink_to_fit(); }
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    in = new std::vector<std::pair<std::string, long>>;
    slog = new std::string;
    std::ifstream f(argv[2]);
    std::string n; long v;
    while (f >> n >> v) in->push_back({n, v});
    dir = getenv("VREPLAY_DIR") ? getenv("VREPLAY_DIR") : "/nonexistent";
    void (*fn)() = (void (*)())__real_dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { printf("no such entry %s\n", argv[1]); return 2; }
    { // MKL loads further libraries when it is first used
        float a[4] = {1, 2, 3, 4}, b[4] = {0}, one = 1, zero = 0; int two = 2, inc = 1;
        sgemm("N", "N", &two, &two, &two, &one, a, &two, a, &two, &zero, b, &two);
        sasum(&two, a, &inc); MKL_Somatcopy('R', 'T', 2, 2, 1, a, 2, b, 2);
        vsSin(2, a, b);
    }
    int rc = 0;
    try { fn(); }
    catch (std::exception& e) { std::string w = std::string(typeid(e).name()) + " " + e.what(); printf("REPLAY-FAIL exception %s\n", w.c_str()); rc = 10; }
    catch (...) { printf("REPLAY-FAIL exception unknown\n"); rc = 10; }
    if (!rc && inPos != in->size()) { printf("REPLAY-DIVERGED unused inputs\n"); rc = 77; }
    fflush(stdout);
    _exit(rc);
}

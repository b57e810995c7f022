// Interface between harnesses and the checker.  The same harness source is
// interpreted symbolically (engine) and compiled natively (replay).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
long __sym_range(const char* name, long lo, long hi);      // symbolic integer in [lo, hi]
unsigned long __sym_bits(const char* name, int bits);      // symbolic bit pattern
long __sym_choice(const char* name, long lo, long hi);     // one path per value
void __sym_assume(bool c);
void __sym_assert(bool c, const char* msg);
void __sym_cover(const char* msg);                         // reachability witness
long __sym_leak_mark(void);
void __sym_leak_check(long mark, const char* what);
int __sym_is_native(void);
void __sym_known(const char* id, bool c);                  // recorded finding: path dropped when c holds
void __sym_fail(const char* msg);
long __sym_concretize(long v);
int __sym_is_symbolic(long v);
void __sym_trace(const char* msg, long v);
// a small in-memory file system (native: files in a scratch directory)
const char* __vfs_path(const char* name);                  // where file `name` lives
void __vfs_put(const char* name, const char* data, long n);
long __vfs_size(const char* name);                         // -1 if absent
long __vfs_get(const char* name, char* buf, long max);
void __vfs_reset(void);
void __vfs_mkdir(const char* name);
void __vfs_link(const char* name, const char* to);         // symbolic link; `to` is relative to the directory of name
const char* __vfs_cwd(void);                                // makes the root of the files the current directory, and names it
// stubs' journal: text recorded by stand-ins for external libraries
long __stub_log_size(void);
const char* __stub_log(void);
void __stub_log_reset(void);
void __stub_write(const char* s, long n);                   // add to the journal
void __stub_curl_set(const char* data, const long* lens, int n, int result);   // what a transfer delivers
int __stub_curl_live(void);                                 // open handles
void __stub_snd_put(const char* name, int rate, int channels, long frames, const float* interleaved);
int __stub_snd_live(void);
void __stub_snd_fault(int noOpen, long maxFrames);          // opening fails; no transfer of more than so many frames (-1: no limit)
void __stub_dl_add(const char* lib, const char* sym, void* fn);
int __stub_dl_live(void);
void __stub_dl_reset(void);
void __stub_popen_fail(int f);
int __stub_popen_live(void);
void __stub_backtrace_set(int n, const char* const* symbols, int fail);
// eigenvalues: the exact ones, delivered for every matrix whose characteristic polynomial x^n + c[1] x^(n-1) + .. + c[n]
// has the given whole coefficients (native: the real LAPACK, these are ignored)
void __stub_eigen_reset(void);
void __stub_eigen_add(int n, const long* c, const long* re, const long* im);
void __stub_curl_noinit(int f);                               // no handle to be had from now on
void __stub_exit_hook(void (*f)(int));                       // called when the code under test ends the program (a failure without it)
void __stub_lapack_fail(int info);                          // status of the eigenvalue routines from now on (0: as it is)
#ifdef __cplusplus
}
#endif
#define HARNESS(name) extern "C" void h_##name()
#if THOROUGH
#define HARNESS_T(name) extern "C" void h_##name()
#else
#define HARNESS_T(name) static __attribute__((unused)) void t_##name()
#endif

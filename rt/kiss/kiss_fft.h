// The interface of Kiss FFT as the library uses it (the real one is not installed)
#ifndef KISS_FFT_H
#define KISS_FFT_H
#include <stddef.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { float r, i; } kiss_fft_cpx;
typedef struct kiss_fft_state* kiss_fft_cfg;
kiss_fft_cfg kiss_fft_alloc(int nfft, int inverse, void* mem, size_t* len);
void kiss_fft(kiss_fft_cfg cfg, const kiss_fft_cpx* fin, kiss_fft_cpx* fout);
void kiss_fft_cleanup(void);
#define kiss_fft_free free
#ifdef __cplusplus
}
#endif
#endif

#ifndef KISS_FTR_H
#define KISS_FTR_H
#include "kiss_fft.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct kiss_fftr_state* kiss_fftr_cfg;
kiss_fftr_cfg kiss_fftr_alloc(int nfft, int inverse, void* mem, size_t* len);
void kiss_fftr(kiss_fftr_cfg cfg, const float* time, kiss_fft_cpx* freq);
void kiss_fftri(kiss_fftr_cfg cfg, const kiss_fft_cpx* freq, float* time);
#ifdef __cplusplus
}
#endif
#endif

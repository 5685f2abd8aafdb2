/* the part of the FFTW2 interface that the library uses, backed by the 1d transform model */
#ifndef VP_FFTW2_H
#define VP_FFTW2_H
#ifdef __cplusplus
extern "C" {
#endif
#ifdef FFT_SINGLE
typedef float fftw_real;
#else
typedef double fftw_real;
#endif
typedef struct { fftw_real re, im; } fftw_complex;
typedef fftw_complex FFTW_COMPLEX;
typedef struct vp_fftplan *fftw_plan;
typedef enum { FFTW_FORWARD = -1, FFTW_BACKWARD = 1 } fftw_direction;
#define FFTW_ESTIMATE 0
#define FFTW_IN_PLACE 8
fftw_plan fftw_create_plan(int, fftw_direction, int);
void fftw_destroy_plan(fftw_plan);
void fftw(fftw_plan, int, fftw_complex *, int, int, fftw_complex *, int, int);
#ifdef __cplusplus
}
#endif
#endif

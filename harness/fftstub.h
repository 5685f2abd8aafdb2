// Model of the 1d FFT libraries: a transform of one line checks that the line is a complete, ordered line of the
// global grid along an axis not transformed yet, and marks its data as transformed along that axis.
#ifndef FFTSTUB_H
#define FFTSTUB_H
#include "common.h"
#include "fftdata.h"
enum { FS_GRID = 0, FS_RECORD = 1, FS_NONE = 2, FS_ANY = 3 };
#define FS_B 3000
#define FS_MAXPOS 256
struct FftModel { int mode[VP_MAXP]; int n[3]; int lines[VP_MAXP]; int plans[VP_MAXP]; int dir[VP_MAXP];
  int cnt[VP_MAXP][2][6][FS_MAXPOS]; FFT_SCALAR *base[VP_MAXP]; int run[VP_MAXP];
  int npl[VP_MAXP], pn[VP_MAXP][64], ph[VP_MAXP][64], pdir[VP_MAXP][64]; }; // plans made
extern FftModel vp_fft;
// code of grid point id with axes in mask transformed in direction dir (1 forward, 2 backward, 0 untransformed)
static inline int fs_code(int id, int mask, int dir) { return (id * 8 + mask) * 3 + (mask ? dir : 0); }
static inline void fs_put(FFT_SCALAR *p, int code) { p[0] = (FFT_SCALAR)vp_tok(code); p[1] = (FFT_SCALAR)vp_tok(code + FS_B); }
static inline int fs_get(const FFT_SCALAR *p) { return vp_pair_code(p[0], p[1], FS_B); }
#endif

#include <stdio.h>
static void got(const char *n, int ilo, int ihi, int *s, int *r) { printf("%s %d %d\n", n, ilo, ihi); *s = 7; *r = 8; }
void remap2d_setup_fortran(void *p, int a, int b, int c, int d, int e, int f, int g, int h, int q, int pe, int m, int *s, int *r) { got("fortran", a, b, s, r); }
void remap2d_setup(void *p, int a, int b, int c, int d, int e, int f, int g, int h, int q, int pe, int m, int *s, int *r) { got("plain", a + 1, b + 1, s, r); }

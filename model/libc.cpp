// C library functions the code under test may call, for the symbolic executor only.
#include <stddef.h>
extern "C" {
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
size_t strlen(const char *a) { size_t n = 0; while (a[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { size_t n = 0; while (d[n]) n++; size_t i = 0; do d[n + i] = s[i]; while (s[i++]); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = (const unsigned char *)x, *b = (const unsigned char *)y; for (; n; n--, a++, b++) if (*a != *b) return (int)*a - (int)*b; return 0; }
long labs(long x) { return x < 0 ? -x : x; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = (char *)base;
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) for (size_t k = 0; k < sz; k += 4) { if (sz % 4) return; int t = *(int *)(b + j * sz + k); *(int *)(b + j * sz + k) = *(int *)(b + (j - 1) * sz + k); *(int *)(b + (j - 1) * sz + k) = t; }
}
}
namespace std { void __throw_length_error(const char *) { __builtin_trap(); } void __throw_bad_alloc() { __builtin_trap(); } void __throw_bad_array_new_length() { __builtin_trap(); } void __throw_out_of_range_fmt(const char *, ...) { __builtin_trap(); } void __throw_logic_error(const char *) { __builtin_trap(); } }

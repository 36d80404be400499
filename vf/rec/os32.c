/* Freestanding 32-bit Linux: just enough C library for the library under test. Jobs from file descriptor 0, log to 1. */
#include <stddef.h>
#include "os.h"
typedef unsigned char u8;
static int sc(int n, int a, int b, int c, int d, int e) { int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory"); return r; }
int os_errno = 0, os_fill = 0xC7, os_inplace = 1, os_align = 0, os_order = 0; static int en;
int *__errno_location(void) { return &en; }
__attribute__((noreturn)) void _exit32(int c) { for (;;) sc(1, c, 0, 0, 0, 0); }
void os_write(const char *p, size_t n) { while (n) { int k = sc(4, 1, (int)p, (int)n, 0, 0); if (k <= 0) _exit32(9); p += k; n -= k; } }
__attribute__((noreturn)) void abort(void) { _exit32(134); }
__attribute__((noreturn)) void __assert_fail(const char *a, const char *f, unsigned l, const char *g) { _exit32(134); }
void *memcpy(void *d, const void *s, size_t n) { u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t n) { u8 *a = d; const u8 *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *memset(void *d, int c, size_t n) { u8 *a = d; while (n--) *a++ = (u8)c; return d; }
int memcmp(const void *x, const void *y, size_t n) { const u8 *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
void *memchr(const void *x, int c, size_t n) { const u8 *a = x; for (; n--; a++) if (*a == (u8)c) return (void *)a; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (u8)*a - (u8)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n--; a++, b++) { if (*a != *b) return (u8)*a - (u8)*b; if (!*a) break; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* malloc: size classes of powers of two, header of 16 bytes */
static u8 *brk_, *end_; static void *freel[32];
static int cls(size_t n) { int c = 4; while (((size_t)1 << c) < n) c++; return c; }
void *malloc(size_t n) {
    if (n > 0x10000000) { en = 12; return 0; } int c = cls(n + 16); void **p = freel[c];
    if (p) { freel[c] = p[0]; } else {
        size_t z = (size_t)1 << c; if (z > (size_t)(end_ - brk_)) { size_t m = z > (1 << 24) ? z : 1 << 24; int r = sc(192, 0, (int)m, 3, 0x22, -1); if (r < 0 && r > -4096) { en = 12; return 0; } brk_ = (u8 *)r; end_ = brk_ + m; }
        p = (void **)brk_; brk_ += z;
    }
    *(size_t *)p = n; ((int *)p)[1] = c; memset((u8 *)p + 16, 0xA5, n); return (u8 *)p + 16;
}
void free(void *v) { if (!v) return; void **p = (void **)((u8 *)v - 16); int c = ((int *)p)[1]; p[0] = freel[c]; freel[c] = p; }
void *calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { en = 12; return 0; } void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *v, size_t n) { if (!v) return malloc(n); size_t o = *(size_t *)((u8 *)v - 16); void *p = malloc(n); if (!p) return 0; memcpy(p, v, o < n ? o : n); free(v); return p; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
static const unsigned *jobs; static unsigned *state;
const unsigned *os_jobs(void) { int z = sc(19, 0, 0, 2, 0, 0); int r = 0; /* old_mmap of fd 0 */ unsigned a[6] = {0, (unsigned)z, 1, 2, 0, 0}; r = sc(90, (int)a, 0, 0, 0, 0); if (z <= 0 || (r < 0 && r > -4096)) _exit32(8); jobs = (const unsigned *)r; return jobs; }
void os_start(void) {} void os_end(void) {} void os_job(unsigned i) { (void)state; en = 0; } void os_before(void) {} void os_after(void) {}
#include <cppp/reiconv.h>
int os_cpp(int from, int to, int flag, const char *in, size_t n, unsigned char **out, size_t *len) {      /* no C++ here: the same by the C functions */
    reiconv_t cd = reiconv_open_from_index(from, to, (enum ConvertFlag)flag); char *o = 0; size_t l = 0; int r = reiconv_convert(cd, in, n, &o, &l), e = en; reiconv_handle_close(cd); if (r) { free(o); return e; } *out = (u8 *)o; *len = l; return 0;
}
int rec_main(void);
__attribute__((force_align_arg_pointer)) void _start(void) { _exit32(rec_main()); }

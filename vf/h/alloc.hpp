// Watches the heap during library calls: live blocks, wrong frees, and (not under ASan) injected allocation failures.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
namespace heap {
inline bool in = false;                       // inside a library call
inline uint64_t count = 0, fail_at = 0; inline bool fail_rest = false; inline uint64_t failed = 0, badfree = 0, total = 0;
constexpr size_t CAP = 1 << 16; inline void *tab[CAP]; inline size_t live = 0;
inline size_t slot(void *p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 48; }
inline void add(void *p) { size_t i = slot(p); while (tab[i]) i = (i + 1) & (CAP - 1); tab[i] = p; live++; total++; }
inline bool has(void *p) { for (size_t i = slot(p); tab[i]; i = (i + 1) & (CAP - 1)) if (tab[i] == p) return true; return false; }
inline bool del(void *p) {
    size_t i = slot(p); for (; tab[i]; i = (i + 1) & (CAP - 1)) if (tab[i] == p) break; if (!tab[i]) return false; live--;
    size_t h = i; for (size_t j = (i + 1) & (CAP - 1); tab[j]; j = (j + 1) & (CAP - 1)) { size_t k = slot(tab[j]); if (((j - k) & (CAP - 1)) >= ((j - h) & (CAP - 1))) { tab[h] = tab[j]; h = j; } } tab[h] = nullptr; return true;
}
inline bool refuse() { count++; if (fail_at && (count == fail_at || (fail_rest && count > fail_at))) { failed++; return true; } return false; }
struct Lib { bool o; Lib() : o(in) { in = true; } ~Lib() { in = o; } };
} // namespace heap
#if defined(RX_ASAN)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
namespace heap { inline void hook() { __sanitizer_install_malloc_and_free_hooks([](const volatile void *p, size_t) { if (in && p) { count++; add((void *)p); } }, [](const volatile void *p) { if (p) del((void *)p); }); } }
#else
namespace heap { inline void hook() {} }
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
void *malloc(size_t n) { if (!heap::in) return __libc_malloc(n); if (heap::refuse()) { errno = ENOMEM; return nullptr; } void *p = __libc_malloc(n); if (p) heap::add(p); return p; }
void *calloc(size_t a, size_t b) { if (!heap::in) return __libc_calloc(a, b); if (heap::refuse()) { errno = ENOMEM; return nullptr; } void *p = __libc_calloc(a, b); if (p) heap::add(p); return p; }
void free(void *p) { if (!p) return; bool k = heap::del(p); if (heap::in && !k) { heap::badfree++; return; } __libc_free(p); }
void *realloc(void *q, size_t n) {
    if (heap::in && heap::refuse()) { errno = ENOMEM; return nullptr; }
    bool k = q && heap::has(q); if (heap::in && q && !k) { heap::badfree++; return nullptr; }
    void *p = __libc_realloc(q, n); if (!p && n) return nullptr; if (k) heap::del(q); if (p && (k || heap::in)) heap::add(p); return p;
}
}
#endif

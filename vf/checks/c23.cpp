// C23: every call ends, with work and memory in proportion to its arguments.  Work is counted, not timed: control flow edges
// executed inside the library (compiler coverage callbacks) plus bytes handled by string functions it calls.
#define RX_MAIN
#include "stream.hpp"
#include <cppp/reiconv.hpp>
#include <malloc.h>
#include <pthread.h>
#include <system_error>
using namespace rx;
static u64 work; static bool in_lib;
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *) { work++; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
// bytes handled by string functions: the linker sends the library's calls here (--wrap)
extern "C" {
size_t __real_strlen(const char *); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t); int __real_strcmp(const char *, const char *); char *__real_strchr(const char *, int); void *__real_memchr(const void *, int, size_t); int __real_strncmp(const char *, const char *, size_t);
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (in_lib) work += n / 8; return n; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (in_lib) work += n / 8; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (in_lib) work += n / 8; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (in_lib) work += n / 8; return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (in_lib) work += n / 8; return __real_memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int c, size_t n) { if (in_lib) work += n / 8; return __real_memchr(a, c, n); }
char *__wrap_strchr(const char *s, int c) { if (in_lib) work += __real_strlen(s) / 8; return __real_strchr(s, c); }
int __wrap_strcmp(const char *a, const char *b) { if (in_lib) work += (__real_strlen(a) + __real_strlen(b)) / 16; return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { if (in_lib) work += n / 8; return __real_strncmp(a, b, n); }
// heap held by library calls, in bytes asked for
static size_t held, peak, blocks;
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
static void more(void *p) { if (p) { held += malloc_usable_size(p); blocks++; if (held > peak) peak = held; } }
static void less(void *p) { if (p) { size_t n = malloc_usable_size(p); held -= n < held ? n : held; } }
void *malloc(size_t n) { void *p = __libc_malloc(n); if (in_lib) more(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (in_lib) more(p); return p; }
void free(void *p) { if (in_lib) less(p); __libc_free(p); }
void *realloc(void *q, size_t n) { size_t o = q ? malloc_usable_size(q) : 0; void *p = __libc_realloc(q, n); if (in_lib && p) { held -= o < held ? o : held; more(p); } return p; }
}
struct Cost { u64 w; size_t peak, used, made; size_t ret; int en; };
template <class F> static Cost measure(F f) { Cost c{}; held = peak = blocks = 0; work = 0; in_lib = true; f(c); in_lib = false; c.w = work; c.peak = peak; ctl->beat++; return c; }
static string rep_(const string &u, size_t n) { string s; s.reserve(n + u.size()); while (s.size() < n) s += u; return s; }
static const char *opn[] = {"iconv", "result_size", "static", "alloc", "cpp", "iconv-pieces"};
static u8 *outb; static size_t outcap = 16 << 20;
static Cost run(int op, int a, int b, bool d, const string &in) {
    Cd cd(a, b, d); size_t z = 0; if (op == 2) { z = reiconv_result_size(cd.h, in.data(), in.size()); if (z == (size_t)-1) z = 100000; }
    return measure([&](Cost &c) {
        if (op == 0) { char *ip = (char *)in.data(), *o = (char *)outb; size_t il = in.size(), ol = outcap; c.ret = reiconv_iconv(cd.h, &ip, &il, &o, &ol); c.en = errno; c.used = ip - in.data(); c.made = (u8 *)o - outb; }
        else if (op == 1) { c.ret = reiconv_result_size(cd.h, in.data(), in.size()); }
        else if (op == 2) { c.ret = (size_t)(ssize_t)reiconv_convert_static_size(cd.h, in.data(), in.size(), (char *)outb, std::min(z, outcap)); }
        else if (op == 3) { char *o = nullptr; size_t l = 0; c.ret = (size_t)(ssize_t)reiconv_convert(cd.h, in.data(), in.size(), &o, &l); c.made = c.ret ? 0 : l; free(o); }
        else if (op == 4) { try { string s = reiconv::convert((reiconv::Encodings)encs[a].idx, (reiconv::Encodings)encs[b].idx, in, d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS); c.made = s.size(); } catch (const std::system_error &) { c.ret = -1; } }
        else { size_t p = 0, e = 0, N = in.size(); u32 k = 0; while (p < N && k++ < N * 4 + 100) { if (e < N && (p == e || k % 2)) e = std::min(N, std::max(e, p) + 40); char *ip = (char *)in.data() + p, *o = (char *)outb; size_t il = e - p, ol = 48; size_t r = reiconv_iconv(cd.h, &ip, &il, &o, &ol); int en = errno; p = ip - (char *)in.data(); if (r == (size_t)-1 && en == EILSEQ) { p += unitof(a); e = std::max(e, p); } if (r == (size_t)-1 && en == EINVAL) { if (e >= N) break; e = std::min(N, e + 40); } } c.used = p; }
    });
}
static void grow(u64 i, Rng &g) {
    int n = encs.size(), a, b; if (g.chance(50)) { u64 q = i * 7919 % (u64)(n * n); a = q / n; b = q % n; } else a = pickenc(g), b = pickenc(g); bool d = g.chance(60); string u = geninput(a, b, 1 + g.below(12), g, g.chance(50) ? 0 : -1); if (g.chance(15)) { u = token(a, g); if (g.chance(50)) u += token(a, g); } if (u.empty()) u = "a"; if (u.size() > 200) u.resize(200); while (u.size() % unitof(a)) u += u[0]; int op = g.below(6); if (!d && op != 0 && g.chance(50)) op = 5;
    size_t N = thorough ? 65536 : 24576; Cost c[3]; for (int k = 0; k < 3; k++) c[k] = run(op, a, b, d, rep_(u, N << k)); cnt["growth_measured"]++; cnt[string("grew_") + opn[op]]++; cnt["edges_counted"] += c[0].w + c[1].w + c[2].w; if (c[2].w > 40000) cnt["growth_of_long_runs"]++; seen(hs({23, (u64)a, (u64)b, d, (u64)op, hashbytes(u.data(), u.size())}));
    string what = pname(a, b, d) + fmt(" %s of %zu, %zu, %zu bytes of repeated ", opn[op], N, N * 2, N * 4) + hex(u);
    for (int k = 0; k < 2; k++) {
        if ((c[k].ret == (size_t)-1) != (c[k + 1].ret == (size_t)-1)) continue;      // one failed early, the other not: not comparable
        if (c[k + 1].w > c[k].w * 2.4 + 20000) { fail(fmt("work:%s", opn[op]), what + fmt(": work %llu, %llu, %llu", (unsigned long long)c[0].w, (unsigned long long)c[1].w, (unsigned long long)c[2].w)); break; }
        size_t base = op == 3 || op == 4 ? c[k + 1].made : 0; if (c[k + 1].peak > 65536 + base * 4) { fail(fmt("heap:%s", opn[op]), what + fmt(": %zu bytes of heap for a result of %zu", c[k + 1].peak, c[k + 1].made)); break; }
    }
    if (i % 1009 == 0) sample(what + fmt(": work %llu %llu %llu heap %zu", (unsigned long long)c[0].w, (unsigned long long)c[1].w, (unsigned long long)c[2].w, c[2].peak));
}
// a call that stops early does not pay for the input or room it leaves
static void early(u64 i, Rng &g) {
    int a = pickenc(g), b = pickenc(g); bool d = g.chance(30); string u = geninput(a, b, 1 + g.below(12), g); if (u.empty()) u = "a"; if (u.size() > 200) u.resize(200); size_t cap = g.below(60); Cost c[2]; size_t N[2] = {4096, 262144};
    for (int k = 0; k < 2; k++) { string in = rep_(u, N[k]); Cd cd(a, b, d); c[k] = measure([&](Cost &c) { char *ip = in.data(), *o = (char *)outb; size_t il = in.size(), ol = cap; c.ret = reiconv_iconv(cd.h, &ip, &il, &o, &ol); c.en = errno; c.used = ip - in.data(); }); }
    if (c[0].ret != (size_t)-1 || c[0].used > 3000 || c[1].used != c[0].used) return; cnt["early_stops"]++; seen(hs({24, (u64)a, (u64)b, d, cap, hashbytes(u.data(), u.size())}));
    if (c[1].w > c[0].w * 2 + 5000) fail("early", pname(a, b, d) + fmt(" room %zu, ", cap) + hex(u) + fmt(" repeated: %zu bytes consumed, work %llu with 4096 bytes of input, %llu with 262144", c[0].used, (unsigned long long)c[0].w, (unsigned long long)c[1].w));
    // and not for the room
    string in = rep_(u, 64); Cost e[2]; size_t R[2] = {256, 8 << 20}; for (int k = 0; k < 2; k++) { Cd cd(a, b, d); e[k] = measure([&](Cost &c) { char *ip = in.data(), *o = (char *)outb; size_t il = in.size(), ol = R[k]; c.ret = reiconv_iconv(cd.h, &ip, &il, &o, &ol); c.used = ip - in.data(); }); }
    if (e[0].used == e[1].used && e[1].w > e[0].w * 2 + 5000) fail("room", pname(a, b, d) + " " + hex(u) + fmt(" repeated to 64 bytes: work %llu with 256 bytes of room, %llu with 8 MiB", (unsigned long long)e[0].w, (unsigned long long)e[1].w));
}
static void names(u64 i, Rng &g) {
    const EncInfo &x = encs[g.below(encs.size())]; string nm = x.names[g.below(x.names.size())]; u32 k = g.below(6); auto mk = [&](size_t n) { string s = nm; if (k == 0) s += string(n, '-'); else if (k == 1) s = string(n, '_') + s; else if (k == 2) s += string(n, 'A'); else if (k == 3) s = rep_(nm, n); else if (k == 4) s += string(n, '/'); else s += "//IGNORE" + rep_("//TRANSLIT", n); return s; };
    static const char *on[] = {"lookup_from_name", "open", "open_from_name", "name_canonicalize", "Encoding"}; int op = g.below(5); Cost c[3]; size_t N = 20000; vector<char> buf(400000);
    for (int j = 0; j < 3; j++) { string s = mk(N << j); c[j] = measure([&](Cost &c) { reiconv_t h = (reiconv_t)-1; if (op == 0) reiconv_lookup_from_name(s.c_str()); else if (op == 1) h = reiconv_open(s.c_str(), s.c_str()); else if (op == 2) h = reiconv_open_from_name(s.c_str(), s.c_str(), REICONV_NO_FLAGS); else if (op == 3) reiconv_name_canonicalize(s.c_str(), buf.data()); else try { reiconv::Encoding e(s); } catch (const std::invalid_argument &) {} if (h != (reiconv_t)-1) reiconv_handle_close(h); }); }
    cnt["names_measured"]++; seen(hs({25, (u64)op, k, hashbytes(nm.data(), nm.size())})); string what = fmt("%s of \"%s\" padded in way %u to 20000, 40000, 80000 characters: work %llu, %llu, %llu heap %zu", on[op], nm.c_str(), k, (unsigned long long)c[0].w, (unsigned long long)c[1].w, (unsigned long long)c[2].w, c[2].peak);
    for (int j = 0; j < 2; j++) if (c[j + 1].w > c[j].w * 2.4 + 5000) { fail(fmt("work:%s", on[op]), what); break; } if (c[2].peak > 65536 + 80000 * 8) fail(fmt("heap:%s", on[op]), what);
}
// descriptors are small, whatever the pair; stack use does not depend on the arguments
static size_t stack_used(const std::function<void()> &f) {
    static u8 *st = nullptr; size_t Z = 512 << 10; if (!st) { st = (u8 *)mmap(0, Z + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(st, 65536, PROT_NONE); st += 65536; }
    memset(st, 0xA5, Z); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, Z); pthread_t t; if (pthread_create(&t, &at, [](void *p) -> void * { (*(const std::function<void()> *)p)(); return nullptr; }, (void *)&f)) { fprintf(stderr, "thread\n"); exit(3); } pthread_join(t, nullptr); pthread_attr_destroy(&at); size_t k = 0; while (k < Z && st[k] == 0xA5) k++; return Z - k;
}
static void small(u64 i, Rng &g) {
    int n = encs.size(), a = i % n, b = (i / n + i * 31) % n; bool d = g.chance(50); Cost c = measure([&](Cost &c) { reiconv_t h = reiconv_open_from_index(encs[a].idx, encs[b].idx, d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); (void)h; reiconv_handle_close(h); }); cnt["descriptors"]++; if (c.peak > 8192) fail("descriptor", pname(a, b, d) + fmt(": a descriptor takes %zu bytes", c.peak));
    size_t base = stack_used([] {}), s[2]; string u = geninput(a, b, 12, g); if (u.empty()) u = "a"; if (u.size() > 200) u.resize(200); int op = g.below(6); string nm = encs[a].names[0];
    for (int k = 0; k < 2; k++) { string in = rep_(u, k ? 400000 : 50); string ln = nm + string(k ? 250000 : 3, "-A/"[g.below(3)]) + "//IGNORE"; s[k] = stack_used([&] { run(op, a, b, d, in); reiconv_t h = reiconv_open(ln.c_str(), ln.c_str()); if (h != (reiconv_t)-1) reiconv_handle_close(h); reiconv_lookup_from_name(ln.c_str()); }); } cnt["stacks_measured"]++; seen(hs({26, (u64)a, (u64)b, (u64)op}));
    if (s[1] > s[0] + 32768 || s[1] > base + 200000) fail(fmt("stack:%s", opn[op]), pname(a, b, d) + fmt(": %zu bytes of stack for short arguments, %zu for long ones", s[0] - base, s[1] - base));
}
int main(int c, char **v) { guards(); stop_after = 2; outb = (u8 *)mmap(0, outcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return rx_main(c, v, {{"names", names, 1500, 40000}, {"early", early, 30000, 1000000}, {"grow", grow, 5000, 100000}, {"small", small, 2000, 40000}}); }

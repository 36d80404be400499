/* Executes a list of recorded calls against the library and writes down everything each call did.  The same program is built
   for every configuration (compiler, optimisation, char signedness, word size) and started in every surrounding (locale,
   environment, errno, memory contents, system call filter); the logs are compared afterwards.  Plain C, no libc beyond
   malloc/memcpy and what os.h provides, so that it also runs as a freestanding 32-bit program. */
#include <cppp/reiconv.h>
#include <errno.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include "os.h"
typedef unsigned int u32; typedef unsigned char u8;
/* job file: u32 magic, u32 njobs, then jobs; all words little endian, inputs padded to 4.
   job: u32 words (whole job, in words), u32 kind, ...
   kind 1 session: from, to, flags, unit, inplace_ok, nsteps, {op, len, cap} * nsteps, inlen, input
     op 1 convert: make len more bytes available, room cap     op 2 flush, room cap      op 3 reset (outbuf NULL)
     op 4 result_size of the next len bytes  op 5 convert_static_size of them into cap  op 6 convert (alloc), old buffer cap
   kind 2 name: len, bytes (no NUL inside, NUL after): lookup, canonicalize
   kind 3 codepage: first, count
   kind 4 open: route, flags, tolen, to, fromlen, from, inlen, input   (route 0 reiconv_open, 1 from_name, 2 from_codepage with two ints) */
static u32 *logb; static size_t logn, logcap;
static u32 tot; static void w(u32 x) { tot++; if (logn == logcap) { os_write((const char *)logb, logn * 4); logn = 0; } logb[logn++] = x; }
static void wbytes(const u8 *p, size_t n) { size_t i; u32 x = 0; w((u32)n); for (i = 0; i < n; i++) { x |= (u32)p[i] << (i % 4 * 8); if (i % 4 == 3) { w(x); x = 0; } } if (i % 4) w(x); }
static u8 *ibuf0, *obuf0; static size_t bufsz = 1 << 16;
static void err(int r) { w(r ? (u32)errno : 0); }
#define PRE() (errno = os_errno)
#define fill(n) memset(obuf, os_fill, (n) + 8)
static void session(const u32 *j) {
    u8 *ibuf = ibuf0 + (j[6] ? os_align : 0), *obuf = obuf0 + (j[6] ? os_align * 3 % 8 : 0); u32 unit = j[5], inplace = j[6] && os_inplace, ns = j[7]; const u32 *st = j + 8; u32 inlen = st[ns * 3]; const u8 *in = (const u8 *)(st + ns * 3 + 1); u32 pos = 0, avail = 0, i;
    PRE(); reiconv_t cd = reiconv_open_from_index((int)j[2], (int)j[3], (enum ConvertFlag)j[4]); if (cd == (reiconv_t)-1) { w(0xdead); return; }
    for (i = 0; i < ns; i++) {
        u32 op = st[3 * i], len = st[3 * i + 1], cap = st[3 * i + 2]; size_t n; os_before();
        if (op == 1) {
            avail += len; if (avail > inlen) avail = inlen; n = avail - pos; u8 *ip0 = inplace ? (u8 *)in + pos : ibuf; if (!inplace) memcpy(ibuf, in + pos, n); fill(cap);
            char *ip = (char *)ip0, *op_ = (char *)obuf; size_t il = n, ol = cap; PRE(); size_t r = reiconv_iconv(cd, &ip, &il, &op_, &ol); w((u32)r); err(r == (size_t)-1); int en = errno;
            w((u32)((u8 *)ip - ip0)); w((u32)il); w((u32)ol); wbytes(obuf, (u8 *)op_ - obuf); if (memcmp(ip0, in + pos, n)) w(0xbad1); { size_t k; for (k = (u8 *)op_ - obuf; k < (size_t)cap + 8; k++) if (obuf[k] != os_fill && k >= cap) w(0xbad2); }
            pos += (u32)((u8 *)ip - ip0); if (r == (size_t)-1 && en == EILSEQ) { pos += unit; if (pos > inlen) pos = inlen; if (avail < pos) avail = pos; }
        } else if (op == 2) {
            fill(cap); char *op_ = (char *)obuf; size_t ol = cap; PRE(); size_t r = reiconv_iconv(cd, NULL, NULL, &op_, &ol); w((u32)r); err(r == (size_t)-1); w((u32)ol); wbytes(obuf, (u8 *)op_ - obuf);
        } else if (op == 3) { PRE(); w((u32)reiconv_iconv(cd, NULL, NULL, NULL, NULL)); }
        else {
            n = len > inlen - pos ? inlen - pos : len; const char *p = inplace ? (const char *)in + pos : (const char *)ibuf; if (!inplace) memcpy(ibuf, in + pos, n); pos += (u32)n; if (avail < pos) avail = pos;
            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
            if (op == 4) { PRE(); size_t r = reiconv_result_size(cd, p, n); w((u32)r); err(r == (size_t)-1); }
            else if (op == 5) { size_t z = reiconv_result_size(cd, p, n); fill(cap); PRE(); int r = reiconv_convert_static_size(cd, p, n, (char *)obuf, cap); w((u32)r); err(r); if (!r) { w((u32)z); if (z <= cap) wbytes(obuf, z); } }
            else { char *o = cap ? (char *)malloc(cap) : NULL; size_t l = 12345; if (o) memset(o, os_fill, cap); PRE(); int r = reiconv_convert(cd, p, n, &o, &l); w((u32)r); err(r); if (!r) { w((u32)l); wbytes((u8 *)o, l); } free(o); }
        }
        os_after();
    }
    w((u32)reiconv_handle_close(cd));
}
static void name(const u32 *j) { u8 *obuf = obuf0 + os_align; const char *s = (const char *)(j + 3); os_before(); PRE(); w((u32)reiconv_lookup_from_name(s)); if (j[2] < bufsz) { fill(j[2]); size_t n = reiconv_name_canonicalize(s, (char *)obuf); w((u32)n); wbytes(obuf, n + 1); } os_after(); }
static void pages(const u32 *j) { u32 i; os_before(); for (i = 0; i < j[3]; i++) w((u32)reiconv_lookup_from_codepage((int)(j[2] + i))); os_after(); }
static void opens(const u32 *j) {
    u32 tl = j[4]; const char *to = (const char *)(j + 5); const u32 *f = j + 5 + tl / 4 + 1; u32 fl = *f; const char *from = (const char *)(f + 1); u8 *ibuf = ibuf0; const u32 *q = f + 1 + fl / 4 + 1; u32 n = *q; const char *in = (const char *)(q + 1); reiconv_t cd;
    os_before(); PRE(); if (j[2] == 0) cd = reiconv_open(to, from); else if (j[2] == 1) cd = reiconv_open_from_name(from, to, (enum ConvertFlag)j[3]); else { int a, b; memcpy(&a, from, 4); memcpy(&b, to, 4); cd = reiconv_open_from_codepage(a, b, (enum ConvertFlag)j[3]); }
    if (cd == (reiconv_t)-1) { w(1); w((u32)errno); os_after(); return; } w(0); memcpy(ibuf, in, n);
    char *o = NULL; size_t l = 0; int r = reiconv_convert(cd, (char *)ibuf, n, &o, &l); w((u32)r); err(r); if (!r) wbytes((u8 *)o, l); free(o); w((u32)reiconv_handle_close(cd)); os_after();
}
/* kind 5 C++ conversion: from, to, flags, inlen, input */
static void cpps(const u32 *j) { u8 *ibuf = ibuf0; u32 n = j[5]; u8 *o = 0; size_t l = 0; memcpy(ibuf, j + 6, n); os_before(); PRE(); int e = os_cpp((int)j[2], (int)j[3], (int)j[4], (const char *)ibuf, n, &o, &l); w((u32)e); if (!e) wbytes(o, l); free(o); os_after(); }
int rec_main(void) {
    const u32 *f = os_jobs(); u32 n = f[1], i; logcap = 1 << 18; logb = (u32 *)malloc(logcap * 4); ibuf0 = (u8 *)malloc(bufsz + 64); obuf0 = (u8 *)malloc(bufsz + 64); const u32 *j = f + 2, **at = (const u32 **)malloc(n * sizeof *at); u32 *start = (u32 *)malloc(n * 4); for (i = 0; i < n; i++) { at[i] = j; j += j[0]; }
    os_start();
    { u32 k; for (k = 0; k < n; k++) { i = os_order ? n - 1 - k : k; j = at[i]; start[i] = tot; os_job(i); w(0x10b00000u + i); switch (j[1]) { case 1: session(j); break; case 2: name(j); break; case 3: pages(j); break; case 5: cpps(j); break; default: opens(j); } } }
    os_end(); if (os_order) { for (i = 0; i < n; i++) w(start[i]); } w(0xe0fe0f); os_write((const char *)logb, logn * 4); return 0;
}

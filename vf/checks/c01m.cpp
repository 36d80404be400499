// C01 under MemorySanitizer: replays a corpus written by c01 (no C++ library containers here, so every byte this program
// touches is instrumented).  Output buffers start poisoned; every produced byte, position and result must be initialised.
#include <cppp/reiconv.h>
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sanitizer/msan_interface.h>
static uint64_t st; static uint32_t rnd(uint32_t n) { st = st * 6364136223846793005ull + 1442695040888963407ull; return n ? (uint32_t)((st >> 33) % n) : 0; }
static unsigned long long calls, bytes, recs, names, flushes, bytevalues; static unsigned char seen[1 << 16];
static char *ctl;
static void chk(const void *p, size_t n) { __msan_check_mem_is_initialized(p, n); }
int main(int c, char **v) {
    const char *out = "/dev/null", *replay = 0, *ctlf = 0; int shard = 0;
    for (int i = 1; i + 1 < c; i++) { if (!strcmp(v[i], "--out")) out = v[i + 1]; if (!strcmp(v[i], "--shard")) shard = atoi(v[i + 1]); if (!strcmp(v[i], "--ctl")) ctlf = v[i + 1]; if (!strcmp(v[i], "--replay")) replay = v[i + 1]; }
    if (ctlf) { int fd = open(ctlf, O_RDWR | O_CREAT, 0644); if (ftruncate(fd, 4096)) return 3; ctl = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); } else ctl = (char *)calloc(1, 4096);
    long only = -1; if (replay) { sscanf(replay, "msan%d:%ld", &shard, &only); }
    char path[4096]; const char *dir = getenv("RX_CORPUS_DIR"); if (!dir) return 3; snprintf(path, sizeof path, "%s/corpus.%d", dir, shard);
    FILE *f = fopen(path, "rb"); if (!f) { fprintf(stderr, "no corpus %s\n", path); return 3; }
    uint32_t h[6]; unsigned long long distinct = 0; char sampletxt[400] = "";
    for (long k = 0; fread(h, 4, 6, f) == 6; k++) {
        char *in = (char *)malloc(h[4] + 1); if (fread(in, 1, h[4], f) != h[4]) return 3; in[h[4]] = 0;
        if (only >= 0 && k != only) { free(in); continue; }
        snprintf(ctl + 8, 80, "msan%d:%ld", shard, k); ++*(volatile uint64_t *)ctl; recs++;
        st = h[5]; uint32_t hv = 0; for (uint32_t i = 0; i < h[4]; i++) hv = hv * 31 + (unsigned char)in[i]; hv = (hv ^ h[1] * 7919 ^ h[2] * 104729) * 2654435761u >> 16; if (!seen[hv]) { seen[hv] = 1; distinct++; }
        if (h[0] == 2) {
            names++; int x = reiconv_lookup_from_name(in); chk(&x, sizeof x);
            char *o = (char *)malloc(h[4] + 1); size_t n = reiconv_name_canonicalize(in, o); chk(&n, sizeof n); chk(o, n + 1); free(o);
            reiconv_t cd = reiconv_open(in, "UTF-8"); chk(&cd, sizeof cd); if (cd != (reiconv_t)-1) reiconv_handle_close(cd);
            x = reiconv_lookup_from_codepage((int)h[5]); chk(&x, sizeof x); x = reiconv_lookup_from_codepage((int)(h[5] % 70000)); chk(&x, sizeof x);
            free(in); continue;
        }
        reiconv_t cd = reiconv_open_from_index(h[1], h[2], h[3] ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
        if (cd == (reiconv_t)-1) { free(in); continue; }
        char *p = in; size_t left = h[4]; size_t end = rnd(3) ? left : rnd(left + 1); uint32_t stuck = 0; size_t done = 0;
        for (int s = 0; s < 300; s++) {
            size_t cap = stuck ? 8 * stuck : rnd(3) == 0 ? rnd(10) : rnd(60); char *ob = (char *)malloc(cap ? cap : 1), *op = ob; size_t ol = cap, il = end - done; size_t il0 = il;
            char *exact = (char *)malloc(il ? il : 1); memcpy(exact, in + done, il); char *ip = exact;
            size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int en = errno; calls++;
            chk(&r, sizeof r); chk(&il, sizeof il); chk(&ol, sizeof ol); chk(&ip, sizeof ip); chk(&op, sizeof op); chk(ob, op - ob); bytes += op - ob; for (char *q = ob; q < op; q++) bytevalues += (unsigned char)*q;
            size_t used = ip - exact; free(exact); int prog = used || op != ob; free(ob); done += used;
            if (r == (size_t)-1 && en == E2BIG) { stuck = prog ? 1 : stuck + 1; if (stuck > 12) break; continue; }
            stuck = 0;
            if (r == (size_t)-1 && en == EILSEQ) { if (done < end) done++; continue; }
            if (end == left && (done >= left || r == (size_t)-1)) break;
            end = end + 1 + rnd(8); if (end > left) end = left; (void)il0;
        }
        for (int s = 0; s < 4; s++) { size_t cap = s * 5; char *ob = (char *)malloc(cap ? cap : 1), *op = ob; size_t ol = cap; size_t r = reiconv_iconv(cd, 0, 0, &op, &ol); flushes++; chk(&r, sizeof r); chk(ob, op - ob); chk(&ol, sizeof ol); free(ob); if (r != (size_t)-1) break; if (errno != E2BIG) { reiconv_iconv(cd, 0, 0, 0, 0); break; } }
        size_t n = reiconv_result_size(cd, in, left); chk(&n, sizeof n);
        if (n != (size_t)-1) { char *ob = (char *)malloc(n ? n : 1); int r = reiconv_convert_static_size(cd, in, left, ob, n); chk(&r, sizeof r); if (!r) chk(ob, n); free(ob); char *q = 0; size_t m; r = reiconv_convert(cd, in, left, &q, &m); chk(&r, sizeof r); if (!r) { chk(&m, sizeof m); chk(q, m); free(q); } }
        if (!*sampletxt) snprintf(sampletxt, sizeof sampletxt, "record %ld: encoding index %u -> %u flags %u, %u input bytes, random pieces and rooms", k, h[1], h[2], h[3], h[4]);
        reiconv_handle_close(cd); free(in);
    }
    fclose(f);
    FILE *o = fopen(out, "w"); if (o) { fprintf(o, "{\"evals\":%llu,\"distinct\":%llu,\"fails\":0,\"counters\":{\"msan_calls\":%llu,\"msan_bytes_checked\":%llu,\"msan_names\":%llu,\"msan_flushes\":%llu},\"samples\":[\"%s\"]}\n", recs, distinct, calls, bytes, names, flushes, sampletxt); fclose(o); }
    return 0;
}

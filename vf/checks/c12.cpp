// C12: the size query, the fixed-buffer, allocating and C++ conversions and streaming agree.  The library is compared with itself.
#define RX_MAIN
#include "stream.hpp"
#include <cppp/reiconv.hpp>
#include <system_error>
using namespace rx;
struct Ref { bool ok = false; int en = 0; string out; };
static Ref ref(int a, int b, bool d, const string &in) {
    Cd c(a, b, d); Ref r; Trace t = drive(c.h, unitof(a), in, wholeplan(in.size()), *gi, *go); r.out = t.out; r.en = !t.bad.empty() ? -1 : t.end == EINVAL ? EILSEQ : t.end ? t.end : t.fl; r.ok = !r.en; if (r.en == -1) fail("streaming:" + pname(a, b, d), t.bad); return r;
}
static void check(int a, int b, bool d, const string &in, Rng &g, bool cheap = false) {
    Ref w = ref(a, b, d, in); string id = pname(a, b, d), is = id + " input(" + std::to_string(in.size()) + ") " + hex(in.data(), in.size(), 120) + fmt(" streaming %s errno %d [%zu] %s: ", w.ok ? "ok" : "fails", w.en, w.out.size(), hex(w.out.data(), w.out.size(), 60).c_str());
    cnt[w.ok ? "inputs_ok" : "inputs_failing"]++; seen(hs({12, (u64)a, (u64)b, d, hashbytes(in.data(), in.size())})); Cd c(a, b, d); const char *ip = (const char *)gi->load(in.data(), in.size()); bool marks = specs[a].f >= model::F_U2 && specs[a].f <= model::F_U32 && specs[a].o == model::O_MARK;
    // each step may use the same descriptor again (for the byte-order-mark encodings a new one: the order found is remembered)
    auto fresh = [&]() -> reiconv_t { if (marks || g.chance(20)) { reiconv_handle_close(c.h); c.h = reiconv_open_from_index(encs[a].idx, encs[b].idx, d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); } return c.h; };
    errno = 0; size_t sz = reiconv_result_size(fresh(), ip, in.size()); int en = errno;
    if (w.ok ? sz != w.out.size() : sz != (size_t)-1 || en != w.en) fail("size:" + id, is + fmt("result_size %lld errno %d", (long long)sz, en));
    auto st = [&](size_t cap) {
        u8 *o = go->set(cap, 0xA5); errno = 0; int r = reiconv_convert_static_size(fresh(), ip, in.size(), (char *)o, cap); int en = errno; cnt["static_calls"]++;
        if (!go->under()) fail("static-under:" + id, is + "wrote before the buffer");
        if (w.ok && cap >= w.out.size()) {
            if (r != 0 || memcmp(o, w.out.data(), w.out.size())) fail("static:" + id, is + fmt("fixed buffer of %zu: %d errno %d [%s]", cap, r, en, hex(o, std::min(cap, w.out.size()), 60).c_str()));
            for (size_t k = w.out.size(); k < cap; k++) if (o[k] != 0xA5) { fail("static-rest:" + id, is + fmt("fixed buffer of %zu: byte %zu beyond the result changed", cap, k)); break; }
            if (cap > w.out.size()) cnt["rest_checked"] += cap - w.out.size();
        } else if (w.ok) { cnt["too_small"]++; if (r != -1 || en != E2BIG) fail("static-small:" + id, is + fmt("fixed buffer of %zu: %d errno %d", cap, r, en)); }
        else if (r != -1 || (en != w.en && !(en == E2BIG && cap < w.out.size() + 64))) fail("static-bad:" + id, is + fmt("fixed buffer of %zu: %d errno %d", cap, r, en));
    };
    size_t n = w.out.size(); st(n + 256); st(n); if (n) st(n - 1); st(g.below(n + 1)); st(n + 1 + g.below(30)); if (!cheap) { for (size_t k = n > 12 ? n - 12 : 0; k < n + 4; k++) st(k); st(0); }
    // allocating form: with no buffer, with a smaller and with a larger old one
    for (int k = 0; k < (cheap ? 2 : 3); k++) {
        char *o = nullptr; if (k == 1) { o = (char *)malloc(1 + g.below(40)); o[0] = 'x'; } if (k == 2) { o = (char *)malloc(n + 100); memset(o, 0x5a, n + 100); }
        size_t len = 12345; errno = 0; int r = reiconv_convert(fresh(), ip, in.size(), &o, &len); int en = errno; cnt["alloc_calls"]++;
        if (w.ok ? r != 0 || !o || len != n || memcmp(o, w.out.data(), n) : r != -1 || en != w.en) fail("alloc:" + id, is + fmt("allocating form %d: %d errno %d length %zu [%s]", k, r, en, len, r == 0 && o ? hex(o, std::min(len, n), 60).c_str() : ""));
        free(o);
    }
    // without a place for the buffer the allocating form can only fail; without a place for the length it fails (as documented) or gives the same bytes
    if (cheap || g.chance(10)) {
        size_t len = 12345; errno = 0; int r = reiconv_convert(fresh(), ip, in.size(), nullptr, &len); cnt["null_arguments"]++; if (r != -1 || errno == 0) fail("alloc-null:" + id, is + fmt("allocating form without a buffer pointer: %d errno %d", r, errno));
        char *o = nullptr; errno = 0; r = reiconv_convert(fresh(), ip, in.size(), &o, nullptr); if (r != -1 && (!w.ok || r != 0 || !o || memcmp(o, w.out.data(), n))) fail("alloc-nolength:" + id, is + fmt("allocating form without a length pointer: %d errno %d", r, errno)); free(o);
        if (in.empty()) { char x[8]; if (reiconv_result_size(fresh(), nullptr, 0) != sz) fail("null-input-size:" + id, is + "size of no input"); if (reiconv_convert_static_size(fresh(), nullptr, 0, x, 8) != (w.ok ? 0 : -1)) fail("null-input:" + id, is + "no input"); cnt["no_input"]++; }
    }
    int thr = 0; string cs; bool other = false; try { cs = reiconv::convert((reiconv::Encodings)encs[a].idx, (reiconv::Encodings)encs[b].idx, std::string_view(ip, in.size()), d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS); } catch (const std::system_error &e) { thr = e.code().value(); } catch (...) { other = true; }
    cnt["cpp_calls"]++; if (other || (w.ok ? thr || cs != w.out : thr != w.en)) fail("cpp:" + id, is + fmt("C++: exception %d%s [%zu] %s", thr, other ? " of another type" : "", cs.size(), hex(cs.data(), cs.size(), 60).c_str()));
}
static void pairs(u64 i, Rng &g) { int n = encs.size(); u64 q = i % (u64)(n * n); int a = q / n, b = q % n; string in = geninput(a, b, 16, g, g.chance(60) ? 0 : -1); if (g.chance(3)) in.clear(); check(a, b, g.chance(30), in, g, true); if (i % 20011 == 0) sample(pname(a, b, 0) + " " + hex(in)); }
static void rnd(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); check(a, b, g.chance(30), geninput(a, b, 40, g, g.chance(60) ? 0 : -1), g); }
// the result ends near a multiple of the size of an internal buffer
static void edges(u64 i, Rng &g) {
    int a = pickenc(g), b = pickenc(g); bool d = g.chance(40); size_t want = (g.chance(70) ? 4096 : g.chance(50) ? 1024 : 512) * (1 + g.below(3)); vector<u32> t; EState st; u32 iter = 0; size_t len = 0; u8 bf[80]; u32 n; u32 style = g.below(4); int off = (int)g.below(17) - 8;
    while (len < want + off - (off < 0 ? 0 : 0) && t.size() < 20000 && iter++ < 60000) { u32 c = style == 0 ? 'a' + g.below(26) : style == 1 ? charof(b, g) : g.chance(50) ? special(g) : charof(g.chance(50) ? a : b, g); EState s = st; if (!specs[b].enc(s, c, bf, n)) { if (d && style == 3) t.push_back(c); continue; } EState s0; u8 b0[80]; u32 n0; if (!specs[a].enc(s0, c, b0, n0)) continue; st = s; len += n; t.push_back(c); }
    // dropped or substituted characters at the very end
    u32 tail = g.below(4); while (tail--) t.push_back(g.chance(50) ? 0xe0041 : anychar(g)); string in = encode(a, t); check(a, b, d, in, g, true); cnt["edge_inputs"]++;
}
static void longs(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); bool d = g.chance(50); string in = longinput(a, b, 4000 + g.below(60000), g, d && g.chance(50) ? 1 : 0); check(a, b, d, in, g, true); cnt["long_bytes"] += in.size(); ctl->beat++; }
// sizes beyond 2^32: the same 64 MiB of memory mapped again and again
static char *many(size_t total, const string &pat, bool rw) {
    const size_t B = 64u << 20; int fd = memfd_create("rx", 0); if (fd < 0 || ftruncate(fd, B)) { fprintf(stderr, "memfd\n"); exit(3); } char *m = (char *)mmap(0, B, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for (size_t k = 0; k < B; k += pat.size()) memcpy(m + k, pat.data(), pat.size()); munmap(m, B);
    size_t n = (total + B - 1) / B * B; char *r = (char *)mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (size_t k = 0; k < n; k += B) if (mmap(r + k, B, rw ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(3); } close(fd); return r;
}
static void huge(u64 i, Rng &g) {
    const u64 G = 1ull << 30; u64 big = 4 * G + 4 * (12345 + g.below(1000)); ctl->beat++;
    if (i == 0) { Cd c(idx("iso8859_1"), idx("ucs4be"), false); char *in = many(big / 4, "abcdefgh", false); size_t z = reiconv_result_size(c.h, in, big / 4); if (z != big) fail("huge-size", fmt("%llu characters need %zu bytes?", (unsigned long long)big / 4, z)); munmap(in, big / 4); }
    if (i == 1) { Cd c(idx("ucs4be"), idx("ascii"), false); string p; for (int k = 0; k < 16; k++) { p += string(3, 0); p += (char)('A' + k); } char *in = many(big, p, false); size_t z = reiconv_result_size(c.h, in, big); if (z != big / 4) fail("huge-input", fmt("%llu bytes of UCS-4 give %zu", (unsigned long long)big, z)); char *out = many(big / 4, string(8, '.'), true); int r = reiconv_convert_static_size(c.h, in, big, out, big / 4); if (r != 0 || out[big / 4 - 1] != 'A' + (big / 4 - 1) % 16) fail("huge-static-in", fmt("fixed buffer of exactly %llu: %d errno %d", (unsigned long long)big / 4, r, errno)); munmap(out, big / 4); munmap(in, big); }
    if (i == 2) { Cd c(idx("ascii"), idx("utf32le"), false); char *in = many(big / 4, "abcdefghijklmnop", false), *out = many(big, string(8, '.'), true); int r = reiconv_convert_static_size(c.h, in, big / 4, out, big); if (r != 0 || out[big - 4] != 'a' + (char)((big / 4 - 1) % 16)) fail("huge-static-out", fmt("fixed buffer of exactly %llu: %d errno %d", (unsigned long long)big, r, errno)); ctl->beat++; r = reiconv_convert_static_size(c.h, in, big / 4, out, big - 1); if (r != -1 || errno != E2BIG) fail("huge-static-small", fmt("%d errno %d", r, errno)); munmap(in, big / 4); munmap(out, big); }
    if (i == 3) { Cd c(idx("utf16le"), idx("utf8"), false); char *in = many(2 * G + 4096, string("a\0\xe9\0\x00\x4e" "b\0", 8), false), *out = many(3 * G, string(8, '.'), true); char *ip = in, *op = out; size_t il = 2 * G + 4096, ol = 2 * G; size_t r = reiconv_iconv(c.h, &ip, &il, &op, &ol); u64 q = (2 * G + 4096) / 8; if (r != 0 || il || (u64)(op - out) != q * 7 || ip - in != 2 * G + 4096 || ol != 2 * G - q * 7) fail("huge-stream", fmt("ret %lld left %zu made %lld", (long long)r, il, (long long)(op - out))); munmap(in, 2 * G + 4096); munmap(out, 3 * G); }
    cnt["huge_runs"]++; seen(hs({120, i}));
}
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"huge", huge, 4, 4}, {"pairs", pairs, n * n * 4, n * n * 100}, {"rnd", rnd, 150000, 5000000}, {"edges", edges, 6000, 200000}, {"longs", longs, 300, 10000}}); }

// C06: the Unicode encodings.
#define RX_MAIN
#include "lockmain.hpp"
using namespace rx;
static vector<int> unis() { static vector<int> v; if (v.empty()) for (size_t i = 0; i < encs.size(); i++) if (is_unicode(i)) v.push_back(i); return v; }
static void u4(string &s, u32 c) { u8 b[4]; Spec::wr(b, c, 4, false); s.append((char *)b, 4); }
// bare decode of one short input, judged against Spec::dec (no allocation, for exhaustive sweeps)
struct Fast {
    int e; reiconv_t cd; u64 n = 0, ok = 0, bad = 0, few = 0; bool dead = false;
    Fast(int e_) : e(e_) { cd = reiconv_open_from_index(encs[e].idx, ENCODING_UCS4BE, REICONV_NO_FLAGS); }
    ~Fast() { reiconv_handle_close(cd); cnt["swept_inputs"] += n; cnt["swept_valid"] += ok; cnt["swept_refused"] += bad; cnt["swept_incomplete"] += few; }
    void one(const u8 *s, size_t len) {
        if (dead) return; n++; u8 out[64]; char *ip = (char *)s, *op = (char *)out; size_t il = len, ol = 64; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int en = r == (size_t)-1 ? errno : 0; size_t used = (u8 *)ip - s, made = (u8 *)op - out;
        u8 x[64]; size_t xm = 0, p = 0; int xe = 0; DState d; u32 bo = 0;
        while (p < len) { u32 wc; size_t k; auto v = specs[e].dec(d, bo, s + p, len - p, wc, k); if (v == model::CHAR) { Spec::wr(x + xm, wc, 4, false); xm += 4; p += k; continue; } if (v == model::FEW && k) { p += k; continue; } p += k; xe = v == model::BADSEQ ? EILSEQ : EINVAL; break; }
        if (xe == 0) ok++; else if (xe == EILSEQ) bad++; else few++;
        if (en != xe || used != p || made != xm || memcmp(x, out, xm) || (r != 0 && r != (size_t)-1)) { fail(fmt("decode:%s", encs[e].id), fmt("%s: expected errno %d used %zu [%s] got errno %d used %zu [%s]", hex(s, len).c_str(), xe, p, hex(x, xm).c_str(), en, used, hex(out, made).c_str())); dead = true; }
        if (d.g || d.pend || bo) { reiconv_iconv(cd, 0, 0, 0, 0); if (bo) { reiconv_handle_close(cd); cd = reiconv_open_from_index(encs[e].idx, ENCODING_UCS4BE, REICONV_NO_FLAGS); } }
    }
};
// UTF-8: all 1-, 2-, 3-byte inputs; all 4-byte inputs (thorough) or all two-byte heads with boundary tails (quick)
static void utf8(u64 i, Rng &g) {
    Fast F(idx("utf8")); u8 s[5]; s[0] = i; F.one(s, 1); static const u8 T[] = {0, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbe, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff};
    for (u32 b = 0; b < 256; b++) { s[1] = b; F.one(s, 2); ctl->beat++; for (u32 c = 0; c < 256; c++) { s[2] = c; F.one(s, 3); if (thorough) for (u32 d = 0; d < 256; d++) { s[3] = d; F.one(s, 4); } else if (i >= 0xe0) for (u8 d : T) { s[3] = d; F.one(s, 4); } } }
    for (u32 k = 0; k < 4000; k++) { u32 n = 1 + g.below(5); s[0] = i; for (u32 q = 1; q < n; q++) s[q] = g.chance(70) ? 0x80 | g.below(64) : g.next(); F.one(s, n); } seen(hs({21, i}));
}
// UTF-16 and UCS-2: every unit, every pair whose first is a surrogate (all second units in thorough)
static void wide(u64 i, Rng &g) {
    static const char *id[] = {"utf16", "utf16be", "utf16le", "ucs2", "ucs2be", "ucs2le", "ucs2internal", "ucs2swapped"}; int e = idx(id[i % 8]); u32 hi = (i / 8) % 256; Fast F(e); u8 s[8];
    for (u32 lo = 0; lo < 256; lo++) { s[0] = hi; s[1] = lo; F.one(s, 1); F.one(s, 2); s[2] = g.next(); F.one(s, 3); bool sur = (hi >= 0xd8 && hi < 0xe0) || (lo >= 0xd8 && lo < 0xe0); u32 step = sur ? (thorough ? 1 : 37) : 4099; for (u32 w = g.below(step); w < 65536; w += step) { s[2] = w >> 8; s[3] = w; F.one(s, 4); } if (sur) { for (u32 w : {0xdc00, 0xdbff, 0xdfff, 0xe000, 0xd7ff, 0xd800, 0x00dc, 0xffdb, 0xffdf, 0x00e0, 0x00d8}) { s[2] = w >> 8; s[3] = w; F.one(s, 4); F.one(s, 3); } } ctl->beat++; } seen(hs({22, i}));
}
// UTF-32 and UCS-4: boundaries, all of 0..11FFFF, random; all 2^32 values in thorough
static void quad(u64 i, Rng &g) {
    static const char *id[] = {"utf32", "utf32be", "utf32le", "ucs4", "ucs4be", "ucs4le", "ucs4internal", "ucs4swapped"}; int e = idx(id[i % 8]); u32 blk = i / 8; Fast F(e); u8 s[8];   // blk: 0..255
    bool le = specs[e].o == model::O_LE; auto one = [&](u32 v) { Spec::wr(s, v, 4, le); F.one(s, 4); }; 
    if (thorough) { for (u64 v = (u64)blk << 24; v < (u64)(blk + 1) << 24; v++) { one(v); if (!(v & 0xffff)) ctl->beat++; } }
    else { for (u32 v = blk * 0x1200; v < (blk + 1) * 0x1200; v++) one(v); for (u32 k = 0; k < 3000; k++) one(g.chance(50) ? (u32)g.next() : (blk << 24) + g.below(0x120000)); for (u32 k = 0; k < 33; k++) for (int d = -2; d < 3; d++) one((k == 32 ? 0u : 1u << k) + d); }
    for (u32 n = 1; n < 8; n++) { for (u32 k = 0; k < 100; k++) { for (u32 q = 0; q < n; q++) s[q] = g.chance(60) ? 0 : g.next(); F.one(s, n); } } seen(hs({23, i}));
}
// escapes: \uXXXX for all values in three spellings, \U, surrogate pairs, wrong digits
static void escs(u64 i, Rng &g) {
    int e = idx(i & 1 ? "c99" : "java"); u32 hi = (i / 2) % 256; Fast F(e); char t[64]; auto go1 = [&](const char *s) { size_t n = strlen(s); for (size_t k = n > 2 ? n - 2 : 1; k <= n; k++) F.one((const u8 *)s, k); };
    for (u32 lo = 0; lo < 256; lo++) {
        u32 v = hi << 8 | lo; snprintf(t, 64, "\\u%04x", v); go1(t); snprintf(t, 64, "\\u%04X", v); go1(t); if (g.chance(20)) { for (char *p = t + 2; *p; p++) if (g.chance(50)) *p = tolower(*p); go1(t); }
        snprintf(t, 64, "\\U%08x", g.chance(30) ? v : g.chance(50) ? g.below(0x120000) : (u32)g.next()); go1(t); snprintf(t, 64, "\\u%04x\\u%04x", v, g.chance(60) ? 0xd800 + g.below(0x900) : g.below(65536)); for (size_t k = 5; k <= strlen(t); k++) F.one((u8 *)t, k);
        u32 n = strlen(t); t[g.below(n)] = g.chance(50) ? "gGzZ/:@`\\uU-+ "[g.below(14)] : (char)g.next(); F.one((u8 *)t, n);
    }
    ctl->beat++; seen(hs({24, i}));
}
// every code point through every Unicode encoder and back
static void enc(u64 i, Rng &g) {
    auto v = unis(); int e = v[i % v.size()]; u32 blk = i / v.size();   // blk 0..16
    Lock L(idx("ucs4be"), e, false, *gi, *go, "enc"); L.quiet = true; u32 step = thorough || blk == 0 ? 1 : 5;
    for (u32 c = blk * 0x10000 + (step > 1 ? g.below(5) : 0); c < (blk + 1) * 0x10000 && !L.bad; c += step) { string t; u4(t, c); if (g.chance(10)) u4(t, anychar(g)); L.whole(t); cnt["encoded_chars"]++; if (!(c & 0xfff)) ctl->beat++; }
    if (blk == 0) for (u32 k = 0; k < 20000 && !L.bad; k++) { string t; u4(t, g.chance(40) ? 0x110000 + g.below(0x2000) : g.chance(50) ? 0xd700 + g.below(0xa00) : (u32)g.next()); u4(t, anychar(g)); L.whole(t); }
    seen(hs({25, i}));
}
// UTF-7: all sequences of classes, both directions; and all short strings over its alphabet
static void utf7(u64 i, Rng &g) {
    int e = idx("utf7"); static const u32 cls[] = {'A', '/', '+', '-', '~', '\\', 0xe9, 0x4e00, 0x1f600, 0x10ffff, '\n', '!', 0xffff, 0xd7ff, '9', 0, ' ', '='}; u64 x = i; string t; u32 len = 1 + g.below(7); for (u32 k = 0; k < len; k++) { u32 q = k < 4 ? x % 18 : g.below(18); if (k < 4) x /= 18; u4(t, g.chance(80) ? cls[q] : anychar(g)); }
    { Lock L(idx("ucs4be"), e, g.chance(20), *gi, *go, "utf7"); if (g.chance(50)) L.caps(t, g); else L.session(t, g); smp(i, 60013, L, t); }
    static const char *al[] = {"+", "-", "A", "/", "AO", "k-", "2D", "3eAA", "3g", "\\", "~", "+-", "\n", "AAA", "IKw", "4", "2D3eAA", "B"}; string s; x = i; for (u32 k = 0; k < 2 + g.below(6); k++) { u32 q = k < 4 ? x % 18 : g.below(18); if (k < 4) x /= 18; s += g.chance(90) ? string(al[q]) : string(1, (char)g.next()); }
    { Lock L(e, idx("ucs4be"), g.chance(20), *gi, *go, "utf7"); if (g.chance(40)) L.whole(s); else L.session(s, g); } cnt["utf7_strings"]++; seen(hashbytes(s.data(), s.size(), 26));
}
static void rnd(u64 i, Rng &g) { auto v = unis(); bool z = g.chance(60); int a = z ? v[g.below(v.size())] : pickenc(g), b = z && g.chance(50) ? pickenc(g) : v[g.below(v.size())]; string in = geninput(a, b, 40, g); Lock L(a, b, g.chance(25), *gi, *go, "unicode"); L.session(in, g); smp(i, 60013, L, in); }
static void longs(u64 i, Rng &g) { auto v = unis(); int a = v[g.below(v.size())], b = v[g.below(v.size())]; string in = longinput(a, b, 30000 + g.below(90000), g, g.chance(70) ? 0 : 1); Lock L(a, b, g.chance(30), *gi, *go, "unicode"); L.longrun(in, g); }
int main(int c, char **v) { guards(); u64 n = 20; return rx_main(c, v, {{"utf8", utf8, 256, 256}, {"wide", wide, 8 * 256, 8 * 256}, {"quad", quad, 8 * 256, 8 * 256}, {"escs", escs, 512, 512 * 20}, {"enc", enc, n * 17, n * 17}, {"utf7", utf7, 200000, 6000000}, {"rnd", rnd, 400000, 10000000}, {"longs", longs, 300, 6000}}); }

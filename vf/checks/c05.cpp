// C05: every code point encodes to the bytes its character set's table says, in exactly that many bytes.
#define RX_MAIN
#include "lockmain.hpp"
using namespace rx;
static void u4(string &s, u32 c) { u8 b[4]; Spec::wr(b, c, 4, false); s.append((char *)b, 4); }
static void sweep(u64 i, Rng &g) {
    int e = i / 17 % encs.size(); u32 plane = i % 17; if (is_unicode(e)) return; int nl = specs[e].is("iso2022_jp2") ? 4 : 1; static const char *tags[4] = {"", "ja", "ko", "zh"};
    for (int l = 0; l < nl; l++) {
        Lock L(idx("ucs4be"), e, false, *gi, *go, "encode"); L.quiet = true; string head; if (l) { u4(head, 0xe0001); for (const char *p = tags[l]; *p; p++) u4(head, 0xe0000 | *p); }
        for (u32 c = plane << 16; c < (plane + 1) << 16 && !L.bad; c++) {
            string t = head; u4(t, c); u8 exp[64]; u32 len; EState st; bool has = specs[e].enc(st, c, exp, len); cnt[has ? "in_table" : "not_in_table"]++;
            Res r = L.whole(t, 64); if (L.bad) break;
            if (has && !l && len) { for (size_t cap = 0; cap < len && !L.bad; cap++) { Res q = L.call((u8 *)t.data(), t.size(), cap); if (q.ret != (size_t)-1 || q.en != E2BIG) { L.report("room", fmt("U+%04X accepted with %zu of %u bytes of room", c, cap, len)); } } if (!L.bad) { L.zero(); L.call((u8 *)t.data(), t.size(), len); if (!L.bad) L.zero(); } cnt["exact_rooms"]++; }
            if (!(c & 0x3ff)) ctl->beat++;
        }
    }
    seen(hs({41, i})); if (i % 601 == 0) sample(fmt("%s: all code points of plane %u, exact and smaller rooms", encs[e].id, plane));
}
static void beyond(u64 i, Rng &g) { int e = i % encs.size(); if (is_unicode(e)) return; Lock L(idx("ucs4be"), e, false, *gi, *go, "encode"); L.quiet = true; for (u32 k = 0; k < 3000 && !L.bad; k++) { string t; u32 c = k < 33 * 5 ? (k / 5 == 32 ? 0u : 1u << (k / 5)) + k % 5 - 2 : g.chance(50) ? (u32)g.next() : charof(e, g) + (0x10000u << g.below(16)) * (1 + g.below(3)); u4(t, c); u4(t, charof(e, g)); L.whole(t); cnt["beyond_unicode"]++; } seen(hs({42, i})); }
static void text(u64 i, Rng &g) {
    int b; do b = g.chance(60) ? i % encs.size() : pickenc(g); while (is_unicode(b)); int a = g.chance(80) ? idx("ucs4be") : idx("utf8"); string in = encode(a, gentext(b, b, 1 + g.below(30), g)); Lock L(a, b, false, *gi, *go, "encode"); u32 z = g.below(3); if (z == 0) L.whole(in); else if (z == 1) L.session(in, g); else L.caps(in, g); smp(i, 40009, L, in);
}
static void longs(u64 i, Rng &g) { int b; do b = pickenc(g); while (is_unicode(b)); int a = idx("ucs4be"); string in = longinput(a, b, 30000 + g.below(90000), g, 0); Lock L(a, b, false, *gi, *go, "encode"); L.longrun(in, g); }
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"sweep", sweep, n * 17, n * 17}, {"beyond", beyond, n * 4, n * 60}, {"text", text, 400000, 12000000}, {"longs", longs, 200, 5000}}); }

// C10: unrepresentable characters are substituted, counted or refused.
#define RX_MAIN
#include "lockmain.hpp"
using namespace rx;
static void u4(string &s, u32 c) { u8 b[4]; Spec::wr(b, c, 4, false); s.append((char *)b, 4); }
// every code point, alone and between representable characters, for every target
static void uni(u64 i, Rng &g) {
    int e = (i / 17) % encs.size(); u32 plane = i % 17; Lock L(idx("ucs4be"), e, false, *gi, *go, "unrep"); L.quiet = true;
    auto reprs = [&](u32 c) { EState st; u8 b[64]; u32 n; return specs[e].enc(st, c, b, n); };
    u32 step = thorough || plane == 0 || plane == 2 || plane == 14 ? 1 : 7;
    for (u32 c = plane * 0x10000 + (step > 1 ? g.below(step) : 0); c < (plane + 1) * 0x10000u && !L.bad; c += step) {
        string t; u4(t, c); L.whole(t); bool r = reprs(c); cnt[r ? "representable" : "unrepresentable"]++;
        if (!r || g.chance(3)) { t.clear(); u32 n = g.below(3); while (n--) u4(t, charof(e, g)); u4(t, c); if (g.chance(20)) u4(t, c); u4(t, charof(e, g)); L.whole(t); }
        if ((c & 0xfff) == 0) ctl->beat++;
    }
    if (plane == 0) for (u32 k = 0; k < 2000 && !L.bad; k++) { string t; u4(t, g.chance(50) ? 0x110000 + g.below(0x1000) : (u32)g.next() | 0x110000); u4(t, charof(e, g)); L.whole(t); cnt["beyond_unicode"]++; }
    seen(hs({5, (u64)e, plane}));
}
static void rnd(u64 i, Rng &g) {
    int a = g.chance(50) ? pickenc(g) : g.below(encs.size()), b = g.chance(50) ? pickenc(g) : g.below(encs.size()); static const u32 st[] = {1, 3, 3, 4, 5, 2}; string in = encode(a, gentext(a, b, 1 + g.below(30), g, st[g.below(6)]), g.chance(70));
    Lock L(a, b, g.chance(15), *gi, *go, "unrep"); if (g.chance(50)) L.session(in, g); else L.whole(in); smp(i, 30011, L, in);
}
// a character only delivered by the final flush
static void pend(u64 i, Rng &g) {
    static vector<int> src; if (src.empty()) for (size_t k = 0; k < encs.size(); k++) if (specs[k].f == model::F_PEND || specs[k].f == model::F_HK || specs[k].is("iso2022_jp3")) src.push_back(k);
    int a = src[g.below(src.size())], b = i % encs.size(); auto &p = rep(a).pairs; string in = encode(a, gentext(a, b, g.below(4), g), false);
    if (!p.empty() && g.chance(60)) { auto q = p[g.below(p.size())]; in += encode(a, {q.first, q.second}, g.chance(70)); } else in += encode(a, {charof(a, g)}, true);
    Lock L(a, b, g.chance(20), *gi, *go, "unrep"); Res r = L.call((u8 *)in.data(), in.size(), 4000); if (L.bad) return; if (r.ret == (size_t)-1) { if (r.en == EILSEQ) { L.zero(); } return; }
    u32 z = g.below(5); if (z < 3) for (u32 k = 0; k <= z; k++) { Res f = L.flush(k); if (L.bad || f.ret != (size_t)-1) return; if (f.en != E2BIG) break; }
    Res f = L.flush(64); if (f.ret == (size_t)-1 && f.en == EILSEQ) { cnt["flush_refused"]++; if (!L.bad) { L.flush(64); if (!L.bad) L.zero(); } } else if (f.ret) cnt["flush_substituted"]++;
    seen(hs({6, (u64)a, (u64)b, f.ret, hashbytes(in.data(), in.size())}));
}
static void longs(u64 i, Rng &g) { int a = pickenc(g), b = g.below(encs.size()); string in; while (in.size() < 60000) in += encode(a, gentext(a, b, 200, g, 3), true) + encode(a, {'a'}); Lock L(a, b, g.chance(30), *gi, *go, "unrep"); L.longrun(in, g); }
// counts beyond 8, 16 and (thorough) 24 bits, in one call
static void many(u64 i, Rng &g) {
    static const u32 N[] = {255, 256, 257, 1000, 65535, 65536, 65537, 131073, 400000}; u32 n = thorough && i % 16 == 0 ? (1u << 24) + g.below(1000) : N[i % 9]; int b; u32 c; bool disc;
    for (;;) { b = g.below(encs.size()); c = g.chance(50) ? 0x110000 + g.below(0x10000) : g.chance(50) ? 0xd800 + g.below(0x800) : 0x10000 + g.below(0xd0000); EState st; u8 x[64]; u32 k; if (specs[b].enc(st, c, x, k)) continue; EState s2; disc = g.chance(30); if (disc || specs[b].enc(s2, 0xfffd, x, k)) break; }
    string in; in.reserve(n * 4 + 4); EState s0; u8 y[64]; u32 z; u32 lead = specs[b].enc(s0, 'a', y, z) && g.chance(50); if (lead) u4(in, 'a'); while (in.size() < n * 4 + lead * 4) u4(in, c); reiconv_t cd = reiconv_open_from_index(encs[idx("ucs4be")].idx, encs[b].idx, disc ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); if (cd == (reiconv_t)-1) return; string out(disc ? 64 : n * 12 + 64, 0);
    char *ip = in.data(), *op = out.data(); size_t il = in.size(), ol = out.size(); size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); reiconv_handle_close(cd); cnt["large_counts"]++; seen(hs({9, (u64)b, n, disc, lead}));
    if (r != n || il) fail(fmt("many:%s%s", encs[b].id, disc ? "//IGNORE" : ""), fmt("%u times U+%04X into %s%s: returned %zd, %zu bytes left", n, c, encs[b].id, disc ? " with discard" : "", (ssize_t)r, il));
}
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"uni", uni, n * 17, n * 17}, {"rnd", rnd, 600000, 20000000}, {"pend", pend, 400000, 8000000}, {"longs", longs, 300, 6000}, {"many", many, 300, 4000}}); }

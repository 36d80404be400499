// C02: positions, counters, return value and errno of every conversion call.
#define RX_MAIN
#include "lockmain.hpp"
#include "huge.hpp"
using namespace rx;
static void pairs(u64 i, Rng &g) { int n = encs.size(); u64 q = i % (u64)(n * n); int a = q / n, b = q % n; bool d = g.chance(35); string in = geninput(a, b, 24, g); Lock L(a, b, d, *gi, *go, "call"); L.session(in, g); smp(i, 7001, L, in); }
static void rnd(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); bool d = g.chance(35); string in = geninput(a, b, 60, g); Lock L(a, b, d, *gi, *go, "call"); L.session(in, g); }
static void caps(u64 i, Rng &g) { int a = g.chance(70) ? pickenc(g) : g.below(encs.size()), b = g.chance(50) ? pickenc(g) : g.below(encs.size()); bool d = g.chance(35); string in = geninput(a, b, 12, g); Lock L(a, b, d, *gi, *go, "call"); L.caps(in, g); cnt["all_rooms_inputs"]++; smp(i, 20011, L, in); }
// every single character of the source at every room
static void chars(u64 i, Rng &g) {
    int a = i % encs.size(); static const char *tg[] = {"utf8", "utf16", "utf7", "iso2022_jp2", "iso2022_jp3", "iso2022_cn_ext", "big5hkscs2008", "gb18030_2005", "euc_tw", "java", "hz", "iso2022_kr"};
    int b = idx(tg[(i / encs.size()) % 12]); auto &q = rep(a).seqs; u32 m = q.empty() ? 400 : std::min<size_t>(q.size(), 1500);
    for (u32 k = 0; k < m; k++) { string s; if (q.empty()) s = encode(a, {charof(a, g)}); else { auto &z = m == q.size() ? q[k] : q[g.below(q.size())]; s.assign((char *)z.b, z.n); } Lock L(a, b, false, *gi, *go, "call"); L.caps(s, g); if (L.bad) return; cnt["single_chars_all_rooms"]++; }
}
static void longs(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); string in = longinput(a, b, 20000 + g.below(130000), g); Lock L(a, b, g.chance(50), *gi, *go, "call"); L.longrun(in, g); }
static void huge(u64 i, Rng &g) { int a = g.chance(60) ? pickenc(g) : g.below(encs.size()), b = g.chance(60) ? pickenc(g) : g.below(encs.size()); hugecase(a, b, g.chance(40), geninput(a, b, 16, g), g, "call"); }
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"pairs", pairs, n * n * 8, n * n * 300}, {"rnd", rnd, 400000, 12000000}, {"caps", caps, 400000, 10000000}, {"chars", chars, n * 12, n * 48}, {"huge", huge, 2000, 40000}, {"longs", longs, 800, 20000}}); }

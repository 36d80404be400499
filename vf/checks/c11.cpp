// C11: discard mode.
#define RX_MAIN
#include "lockmain.hpp"
#include <cppp/reiconv.hpp>
using namespace rx;
static void pairs(u64 i, Rng &g) { int n = encs.size(); u64 q = i % (u64)(n * n); int a = q / n, b = q % n; string in = geninput(a, b, 24, g, 1 + g.below(3)); Lock L(a, b, true, *gi, *go, "discard"); if (g.chance(50)) L.session(in, g); else L.whole(in); smp(i, 9001, L, in); }
static void rnd(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); string in = geninput(a, b, 60, g); Lock L(a, b, true, *gi, *go, "discard"); if (g.chance(50)) L.session(in, g); else L.caps(in, g); }
// valid text: identical with and without the flag (no reference to the specification)
struct Out { string o; size_t cnt = 0; int en = 0; size_t used = 0; };
static Out conv(int a, int b, bool d, const string &in) {
    Out r; reiconv_t cd = reiconv_open_from_index(encs[a].idx, encs[b].idx, d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); r.o.resize(in.size() * 14 + 64);
    char *ip = (char *)in.data(), *op = r.o.data(); size_t il = in.size(), ol = r.o.size(); size_t k = reiconv_iconv(cd, &ip, &il, &op, &ol); if (k == (size_t)-1) r.en = errno; else r.cnt = k;
    r.used = in.size() - il; if (!r.en) { k = reiconv_iconv(cd, 0, 0, &op, &ol); if (k == (size_t)-1) r.en = errno; else r.cnt += k; } r.o.resize(op - r.o.data()); reiconv_handle_close(cd); return r;
}
static void valid(u64 i, Rng &g) {
    int a = g.chance(50) ? pickenc(g) : g.below(encs.size()), b = g.chance(50) ? pickenc(g) : g.below(encs.size()); vector<u32> t = gentext(a, b, 1 + g.below(40), g, 0); string in = encode(a, t);
    Out x = conv(a, b, false, in), y = conv(a, b, true, in); cnt["valid_texts"]++;
    if (x.en == 0 && x.cnt == 0 && (y.en || y.cnt || x.o != y.o)) fail(fmt("valid:%s->%s", encs[a].id, encs[b].id), fmt("input %s without flag [%s], with flag errno %d count %zu [%s]", hex(in).c_str(), hex(x.o).c_str(), y.en, y.cnt, hex(y.o).c_str()));
    if (y.en == EILSEQ) fail(fmt("eilseq:%s->%s", encs[a].id, encs[b].id), "discard mode failed with EILSEQ for " + hex(in));
    seen(hashbytes(in.data(), in.size(), hs({7, (u64)a, (u64)b})));
}
// the flag through every door: //IGNORE on either name, the flag argument, one-shot calls, C++
static void doors(u64 i, Rng &g) {
    int a = g.chance(50) ? pickenc(g) : g.below(encs.size()), b = g.chance(50) ? pickenc(g) : g.below(encs.size()); string in = geninput(a, b, 30, g, 1 + g.below(3)); Out x = conv(a, b, true, in); if (x.en == E2BIG) return;
    string fa = encs[a].names[0], fb = encs[b].names[0]; reiconv_t cds[4] = {reiconv_open((fb + "//IGNORE").c_str(), fa.c_str()), reiconv_open(fb.c_str(), (fa + "//IGNORE").c_str()), reiconv_open((fb + "//ignore").c_str(), (fa + "//IGNORE").c_str()), reiconv_open_from_name(fa.c_str(), fb.c_str(), REICONV_DISCARD_ILSEQ)};
    for (int k = 0; k < 4; k++) {
        if (cds[k] == (reiconv_t)-1) { fail("door-open", fa + " -> " + fb); continue; }
        char *o = nullptr; size_t n = 0; int r = reiconv_convert(cds[k], in.data(), in.size(), &o, &n); string s(o ? string(o, r ? 0 : n) : ""); free(o); cnt["doors"]++;
        bool trunc = x.en == EINVAL; if (trunc ? r == 0 : (x.en != 0 || r != 0 || s != x.o)) fail(fmt("door%d:%s->%s", k, encs[a].id, encs[b].id), fmt("input %s streaming errno %d [%s], one-shot %d [%s]", hex(in).c_str(), x.en, hex(x.o).c_str(), r, hex(s).c_str()));
        reiconv_handle_close(cds[k]);
    }
    string s; bool threw = false; try { s = reiconv::convert((reiconv::Encodings)encs[a].idx, (reiconv::Encodings)encs[b].idx, in, reiconv::ConvertFlag::DISCARD_ILSEQ); } catch (const std::exception &) { threw = true; }
    if ((x.en != 0) != threw || (!threw && s != x.o)) fail(fmt("doorcpp:%s->%s", encs[a].id, encs[b].id), "input " + hex(in) + " C++ gives " + (threw ? "exception" : hex(s)) + " streaming " + hex(x.o));
}
// every bad byte / bad pair in front of and after good text
static void bytes(u64 i, Rng &g) {
    int a = i % encs.size(), b = (i / encs.size()) % 2 ? idx("ucs4be") : idx("utf8"); Lock L(a, b, true, *gi, *go, "discard"); L.quiet = true; u32 u = specs[a].unit;
    for (u32 x = 0; x < 256 && !L.bad; x++) for (u32 k = 0; k < 24 && !L.bad; k++) {
        string t = encode(a, gentext(a, b, g.below(3), g, 1), g.chance(50)); if (u == 1) { t += (char)x; if (g.chance(60)) t += (char)g.next(); } else { u8 w[4]; Spec::wr(w, g.chance(50) ? (x << 8 | g.below(256)) : (u32)g.next(), u, g.chance(50)); t.append((char *)w, u); }
        t += encode(a, gentext(a, b, g.below(3), g, 1)); L.whole(t); cnt["bad_unit_inputs"]++; seen(hashbytes(t.data(), t.size(), a));
    }
}
static void longs(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); string in = longinput(a, b, 20000 + g.below(100000), g, 2); Lock L(a, b, true, *gi, *go, "discard"); L.longrun(in, g); }
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"pairs", pairs, n * n * 8, n * n * 200}, {"rnd", rnd, 400000, 10000000}, {"valid", valid, 300000, 6000000}, {"doors", doors, 150000, 3000000}, {"bytes", bytes, n * 4, n * 40}, {"longs", longs, 400, 8000}}); }

// C09: a direct conversion equals decoding to code points and encoding those.  The library is compared with itself.
#define RX_MAIN
#include "stream.hpp"
using namespace rx;
struct One { string out; size_t ret = 0; int en = 0; size_t used = 0; size_t fret = 0; int fen = 0; size_t mid = 0; };
static One run(reiconv_t cd, const string &in, size_t cap, bool fl = true) {
    One r; u8 *ip0 = gi->load(in.data(), in.size()), *op0 = go->set(cap); char *ip = (char *)ip0, *op = (char *)op0; size_t il = in.size(), ol = cap; errno = 0; r.ret = reiconv_iconv(cd, &ip, &il, &op, &ol); r.en = r.ret == (size_t)-1 ? errno : 0; r.used = in.size() - il; r.mid = (u8 *)op - op0;
    if (fl && (r.en == 0 || r.en == EINVAL)) { r.fret = reiconv_iconv(cd, 0, 0, &op, &ol); r.fen = r.fret == (size_t)-1 ? errno : 0; } r.out.assign((char *)op0, (u8 *)op - op0); return r;
}
static string sh(const One &x) { return fmt("ret %lld errno %d used %zu flush %lld/%d [%s]", (long long)x.ret, x.en, x.used, (long long)x.fret, x.fen, hex(x.out).c_str()); }
static void cmp(int a, int b, bool d, const string &in) {
    int u = idx("ucs4be"); Cd dir(a, b, d), de(a, u, d), en(u, b, d); if (!dir.ok() || !de.ok() || !en.ok()) return; size_t big = in.size() * 16 + 128; One x = run(dir.h, in, big);
    One y = run(de.h, in, big); string body = y.out.substr(0, y.mid), tail = y.out.substr(y.mid); One e; e = run(en.h, body, big, false); One z = e; z.used = y.used; z.en = y.en; z.fen = 0; z.fret = 0; bool okflush = true;
    if (e.en) {            // the encoder refused character k: that is where the direct conversion must have stopped
        size_t k = e.used / 4; Cd d2(a, u, d); One p = run(d2.h, in, 4 * k, false); z.used = p.used; z.en = e.en; z.ret = -1; okflush = false; if (e.en != EILSEQ) { fail("encoder:" + pname(a, b, d), fmt("errno %d", e.en)); return; } cnt["encoder_refusals"]++;
    } else if (y.en) { z.ret = -1; if (y.en != EINVAL) okflush = false; }
    if (okflush) {
        One f = run(en.h, tail, 256, true); z.out += f.out; z.fen = f.en ? f.en : f.fen; z.fret = f.en ? (size_t)-1 : f.ret + f.fret; if (tail.size()) cnt["pending_at_end"]++;
        if (f.fen == 0 && f.fret != (size_t)-1 && y.fen) z.fen = y.fen;
    }
    cnt["compared"]++; if (x.en == EILSEQ) cnt["saw_EILSEQ"]++; if (x.en == EINVAL) cnt["saw_EINVAL"]++; if (x.ret && x.ret != (size_t)-1) cnt["saw_irreversible"]++;
    bool same = x.out == z.out && x.en == z.en && x.used == z.used && x.ret == z.ret && (!okflush || (x.fen == z.fen && (x.fen || x.fret == z.fret)));
    if (!same) fail("pivot:" + pname(a, b, d), pname(a, b, d) + " input " + hex(in) + " direct: " + sh(x) + "; through code points: " + sh(z));
}
static void pairs(u64 i, Rng &g) { int n = encs.size(); u64 q = i % (u64)(n * n); int a = q / n, b = q % n; string in = geninput(a, b, 30, g, g.chance(50) ? 0 : -1); cmp(a, b, g.chance(25), in); seen(hs({9, q, hashbytes(in.data(), in.size())})); if (i % 30011 == 0) sample(pname(a, b, 0) + " " + hex(in)); }
// every character of the source (sampled per pair in the quick tier) alone and in runs
static void reps_(u64 i, Rng &g) {
    int n = encs.size(); int a = i % n, b = pickenc(g); const Rep &r = rep(a); string in; vector<u32> t; if (r.chars.empty()) { for (int k = 0; k < 300; k++) t.push_back(charof(b, g)); } else { size_t s = g.below(r.chars.size()); for (int k = 0; k < 300; k++) t.push_back(r.chars[(s + k) % r.chars.size()]); }
    size_t k = 0; while (k < t.size()) { size_t m = 1 + g.below(20); vector<u32> p(t.begin() + k, t.begin() + std::min(t.size(), k + m)); in = encode(a, p); cmp(a, b, g.chance(50), in); k += m; } cnt["repertoire_runs"]++;
}
// every pair: what the source contains, and what both contain, in one go
static const vector<u64> &bits(int e) { static vector<vector<u64>> v(encs.size()); auto &b = v[e]; if (b.empty()) { b.resize(0x110000 / 64); for (u32 c : rep(e).chars) if (c < 0x110000) b[c >> 6] |= 1ull << (c & 63); } return b; }
static vector<string> chunks(int a, const vector<u32> &t) { vector<string> v; for (size_t k = 0; k < t.size(); k += 8000) v.push_back(encode(a, vector<u32>(t.begin() + k, t.begin() + std::min(t.size(), k + 8000)))); return v; }
static void full(u64 i, Rng &g) {
    int n = encs.size(), a = i / n % n, b = i % n; const vector<u32> &ra = rep(a).chars, &rb = rep(b).chars; const vector<u32> &r = ra.empty() ? rb : ra; static int last = -1; static vector<string> whole; vector<string> own; vector<u32> t, both; const vector<u32> *use = &r;
    if (r.empty()) { for (int k = 0; k < 600; k++) t.push_back(anychar(g)); use = &t; }
    if (!ra.empty()) { if (last != a) whole = chunks(a, ra), last = a; } else own = chunks(a, *use); const vector<string> &in = ra.empty() ? own : whole;
    size_t lost = 0; if (!ra.empty() && !rb.empty()) { auto &y = bits(b); for (u32 c : *use) if (c < 0x110000 && (y[c >> 6] >> (c & 63) & 1)) both.push_back(c); lost = use->size() - both.size(); }
    for (auto &x : in) cmp(a, b, true, x); for (auto &x : lost ? chunks(a, both) : in) cmp(a, b, false, x); cnt["full_pairs"]++; cnt["full_characters"] += 2 * use->size() - lost; if (i % 8 == 0) ctl->beat++;
}
static void rnd(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); cmp(a, b, g.chance(30), geninput(a, b, 80, g)); }
static void longs(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); string in = longinput(a, b, 5000 + g.below(60000), g, g.chance(80) ? 0 : 1); cmp(a, b, g.chance(60), in); cnt["long_bytes"] += in.size(); ctl->beat++; }
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"pairs", pairs, n * n * 20, n * n * 400}, {"reps", reps_, n * 40, n * 2000}, {"full", full, n * n, n * n}, {"rnd", rnd, 300000, 10000000}, {"longs", longs, 400, 10000}}); }

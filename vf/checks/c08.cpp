// C08: text -> bytes -> text.  The library is compared with itself; the golden tables only tell which single characters are reversible.
#define RX_MAIN
#include "stream.hpp"
using namespace rx;
static int U;
struct Rev { vector<bool> ok; vector<u32> list; };
// characters outside the claim: byte order marks where they are interpreted, backslash where it starts escapes, escape/shift controls in ISO-2022, language tags in ISO-2022-JP-2
static bool outside(int e, u32 c) {
    auto &s = specs[e]; if (c >= 0xd800 && c < 0xe000) return true; if (c >= 0x110000) return true;
    if (s.f >= model::F_U2 && s.f <= model::F_U32 && s.o == model::O_MARK && (c == 0xfeff || c == 0xfffe)) return true;
    if ((s.f == model::F_C99 || s.f == model::F_JAVA) && c == '\\') return true;
    if (s.f == model::F_ESC && (c == 0x1b || c == 0x0e || c == 0x0f)) return true;
    return c >> 7 == 0xe0000 >> 7;
}
static const Rev &rev(int e) {
    static std::map<int, Rev> m; auto it = m.find(e); if (it != m.end()) return it->second; Rev r; r.ok.resize(0x110000);
    for (u32 c = 0; c < 0x110000; c++) {
        if (outside(e, c)) continue; EState st; u8 b[80]; u32 n = 0; if (!specs[e].enc(st, c, b, n)) continue; n += specs[e].reset(st, b + n);
        DState ds; u32 bo = 0; size_t p = 0; vector<u32> got; while (p < n) { u32 wc = 0; size_t k; auto v = specs[e].dec(ds, bo, b + p, n - p, wc, k); if (v == model::CHAR) { got.push_back(wc); p += k; } else if (v == model::FEW && k) p += k; else break; }
        u32 wc; if (specs[e].flush(ds, wc)) got.push_back(wc); if (p == n && got.size() == 1 && got[0] == c) { r.ok[c] = true; if (c < 0x30000 || c % 16 == 0) r.list.push_back(c); }
    }
    return m[e] = r;
}
static string run(int a, int b, const string &in, string &err, Rng *cut = nullptr) {
    Cd c(a, b, false); Plan p = wholeplan(in.size()); if (cut) p.piece = [&](size_t e) { return e + 1 + cut->below(7); }; Trace t = drive(c.h, 1, in, p, *gi, *go); err = t.end || t.fl || !t.bad.empty() ? t.show() : ""; if (err.empty() && t.counted && t.count) err = fmt("%zu substitutions", t.count); return t.out;
}
static string u4s(const vector<u32> &t) { string s; for (u32 c : t) { u8 b[4]; Spec::wr(b, c, 4, false); s.append((char *)b, 4); } return s; }
static vector<u32> from4(const string &s) { vector<u32> t; for (size_t i = 0; i + 4 <= s.size(); i += 4) t.push_back(Spec::rd((u8 *)s.data() + i, 4, false)); return t; }
// a base and a combining character side by side that have a composed form: such text is outside the claim (decoding composes)
static bool composes(int e, const vector<u32> &t) { if (specs[e].f != model::F_PEND) return false; u32 z; for (size_t i = 0; i + 1 < t.size(); i++) if (blob.compose(*specs[e].e, t[i], t[i + 1], z)) return true; return false; }
// bytes -> text -> bytes -> text
static void stable(int e, const string &bytes, Rng *cut) {
    string er; string t = run(e, U, bytes, er); if (!er.empty()) { cnt["undecodable_inputs"]++; return; } auto tx = from4(t); const Rev &r = rev(e); for (u32 c : tx) if (c >= 0x110000 || !r.ok[c]) { cnt["texts_with_one_way_characters"]++; return; }
    if (composes(e, tx)) { cnt["uncomposed_texts"]++; return; }
    string b2 = run(U, e, t, er, cut); cnt["round_trips"]++; cnt["characters"] += tx.size(); seen(hs({81, (u64)e, hashbytes(t.data(), t.size())})); if (!er.empty()) { fail(string("encode:") + encs[e].id, string(encs[e].id) + " text " + hex(t) + " decoded from " + hex(bytes) + " does not encode: " + er); return; }
    string t2 = run(e, U, b2, er); if (!er.empty() || t2 != t) fail(string("roundtrip:") + encs[e].id, string(encs[e].id) + " text " + hex(t) + " becomes bytes " + hex(b2) + " and text " + hex(t2) + " " + er);
}
static void fromtext(u64 i, Rng &g) {
    int e = i % encs.size(); if (g.chance(50)) e = pickenc(g); auto &L = rev(e).list; if (L.empty()) return; vector<u32> t; u32 n = 1 + g.below(30); auto &pr = rep(e).pairs; auto &bp = rep(e).bypage;
    while (t.size() < n) { u32 k = g.below(10); u32 c; if (k < 4) c = L[g.below(L.size())]; else if (k < 6 && !pr.empty()) { auto q = pr[g.below(pr.size())]; t.push_back(q.first); c = q.second; } else if (k < 8) c = special(g); else c = charof(e, g); t.push_back(c); }
    vector<u32> u; for (u32 c : t) if (c < 0x110000 && rev(e).ok[c]) u.push_back(c); if (u.empty()) return; string er, in = u4s(u); string b = run(U, e, in, er, g.chance(50) ? &g : nullptr); cnt["texts_encoded"]++;
    if (!er.empty()) { fail(string("encode:") + encs[e].id, string(encs[e].id) + " text " + hex(in) + ": " + er); return; }
    string t1 = run(e, U, b, er, g.chance(50) ? &g : nullptr); if (!er.empty()) { fail(string("own-output:") + encs[e].id, string(encs[e].id) + " text " + hex(in) + " gives bytes " + hex(b) + " which it does not accept: " + er); return; }
    // unless neighbours compose, the text is the same; the text it decodes to is stable in any case
    if (t1 != in) { if (!composes(e, u)) fail(string("roundtrip:") + encs[e].id, string(encs[e].id) + " text " + hex(in) + " becomes bytes " + hex(b) + " and text " + hex(t1)); cnt["composed_texts"]++; }
    stable(e, b, g.chance(50) ? &g : nullptr); if (i % 40009 == 0) sample(string(encs[e].id) + " text " + hex(in) + " bytes " + hex(b));
}
static void frombytes(u64 i, Rng &g) {
    int e = i % encs.size(); if (g.chance(50)) e = pickenc(g); auto &q = rep(e).seqs; string s;
    if (q.empty() || specs[e].f == model::F_ESC || g.chance(20)) s = geninput(e, e, 30, g, g.chance(70) ? 0 : 1); else { u32 n = 1 + g.below(25); while (n--) { auto &x = q[g.below(q.size())]; s.append((char *)x.b, x.n); } }
    stable(e, s, g.chance(50) ? &g : nullptr);
}
// every reversible character, next to its table neighbours and to characters that interact
static void every(u64 i, Rng &g) {
    int e = i % encs.size(); u32 part = i / encs.size(), parts = thorough ? 1 : 1; (void)part; (void)parts; auto &L = rev(e).list; for (size_t k = 0; k < L.size(); k += 16) { if (k % 4096 == 0) ctl->beat++; if (is_unicode(e) && !thorough && k % 160 >= 16) continue; vector<u32> t(L.begin() + k, L.begin() + std::min(L.size(), k + 16)); if (specs[e].f == model::F_PEND) { vector<u32> v; for (u32 c : t) { v.push_back(c); v.push_back('.'); } t = v; } std::reverse(t.begin() + t.size() / 2, t.end());
        string er, in = u4s(t); string b = run(U, e, in, er); if (!er.empty()) { fail(string("encode:") + encs[e].id, hex(in) + ": " + er); continue; } string t1 = run(e, U, b, er); cnt["swept_characters"] += t.size(); if (!er.empty() || t1 != in) fail(string("roundtrip:") + encs[e].id, string(encs[e].id) + " text " + hex(in) + " becomes bytes " + hex(b) + " and text " + hex(t1) + " " + er); }
    seen(hs({82, (u64)e}));
}
static void longs(u64 i, Rng &g) { int e = pickenc(g); auto &L = rev(e).list; if (L.empty()) return; vector<u32> t; u32 n = 2000 + g.below(20000); while (t.size() < n) { u32 c = g.chance(30) ? special(g) : g.chance(30) ? (g.chance(50) ? '\n' : 'a' + g.below(26)) : L[g.below(L.size())]; if (rev(e).ok[c]) t.push_back(c); } stable(e, encode(e, t), g.chance(50) ? &g : nullptr); cnt["long_texts"]++; ctl->beat++; }
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"every", [](u64 i, Rng &g) { U = idx("ucs4be"); every(i, g); }, n, n}, {"text", [](u64 i, Rng &g) { U = idx("ucs4be"); fromtext(i, g); }, 600000, 20000000}, {"bytes", [](u64 i, Rng &g) { U = idx("ucs4be"); frombytes(i, g); }, 400000, 15000000}, {"longs", [](u64 i, Rng &g) { U = idx("ucs4be"); longs(i, g); }, 300, 10000}}); }

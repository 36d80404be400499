// C07: escape-sequence encodings.
#define RX_MAIN
#include "lockmain.hpp"
using namespace rx;
static vector<int> escs() { static vector<int> v; if (v.empty()) for (size_t i = 0; i < encs.size(); i++) if (specs[i].f == model::F_ESC) v.push_back(i); return v; }
static void u4(string &s, u32 c) { u8 b[4]; Spec::wr(b, c, 4, false); s.append((char *)b, 4); }
// characters by the set (and width) the encoder uses for them, in each language context
struct Cls { vector<vector<u32>> by; };
static const Cls &classes(int e) {
    static std::map<int, Cls> m; auto it = m.find(e); if (it != m.end()) return it->second; Cls c; const gold::Enc &g = *specs[e].e;
    std::map<vector<u32>, vector<u32>> k;
    for (u32 x : rep(e).chars) { vector<u32> key; for (int l = 0; l < 4; l++) { u32 hi = 0, lo; if (g.inv[l]) blob.encode(blob.inv[g.inv[l] - 1], x, hi, lo); key.push_back(hi & ~0x7fu); } k[key].push_back(x); }
    for (auto &q : k) c.by.push_back(q.second);
    c.by.push_back({'\n'}); c.by.push_back({'\r'}); c.by.push_back({'~'}); c.by.push_back({0xe0001, 0xe007f, 0xe006a, 0xe0061, 0xe006b, 0xe006f, 0xe007a, 0xe0068}); c.by.push_back({0x1f600, 0xfffd, 0x10ffff, 0xe9, 0xd800});
    return m[e] = c;
}
// encoder: all class sequences of length up to 4 (random member of each class), with a flush at the end and at a random place
static void enc(u64 i, Rng &g) {
    auto v = escs(); int e = v[i % v.size()]; u64 x = i / v.size(); auto &c = classes(e).by; u32 n = c.size(); Lock L(idx("ucs4be"), e, g.chance(10), *gi, *go, "esc"); u32 len = 1 + g.below(6); u32 cut = g.below(len + 1); bool tiny = g.chance(30);
    string in; for (u32 k = 0; k < len && !L.bad; k++) {
        u32 q = k < 4 ? x % n : g.below(n); if (k < 4) x /= n; u32 ch = c[q][g.below(c[q].size())]; in.clear(); u4(in, ch);
        size_t cap = tiny ? 0 : 64; for (u32 t = 0; t < 40 && !L.bad; t++) { Res r = L.call((u8 *)in.data(), 4, cap); if (r.ret != (size_t)-1 || r.en != E2BIG) break; cap++; }
        if (L.bad) return; cnt["encoder_steps"]++; auto &s = L.m().es; seen(hs({11, (u64)e, s.g, s.g1, s.g2, s.g3, s.pset, s.prev, s.lang, s.pend, q}));
        if (k + 1 == cut) { if (g.chance(70)) { for (u32 z = 0; z < 12; z++) { Res f = L.flush(tiny ? z : 64); if (L.bad || f.ret != (size_t)-1) break; } } else L.zero(); }
    }
    if (L.bad) return; for (u32 z = 0; z < 12; z++) { Res f = L.flush(tiny ? z : 64); if (L.bad || f.ret != (size_t)-1) break; } smp(i, 50021, L, in);
}
// decoder: sequences of escapes, shifts, designations, character bytes, newlines
static vector<string> alphabet(int e) {
    vector<string> a; const Spec &s = specs[e]; if (s.ek == Spec::K_HZ) return {"~{", "~}", "~~", "~\n", "~", "VP", "a", "\n", "\x80", "~x", "{", "~\r"};
    std::set<string> t; for (u32 i = 1; i < s.e->nsets; i++) { string p(s.e->sets[i].pre, s.e->sets[i].prelen); size_t k = s.ek == Spec::K_CN || s.ek == Spec::K_KR ? 4 : p.size() > 3 && p[1] == '.' ? 3 : p.size(); t.insert(p.substr(0, k)); }
    for (auto &x : t) a.push_back(x);
    for (const char *x : {"\x1b(B", "\x0e", "\x0f", "\x1bN", "\x1bO", "\n", "\r", "a", "\x30\x21", "\x21", "\x1b", "\x1b(I", "\x1b(J", "\x1b$(D", "\x1b$A", "\x1b$)A", "\x1b$)C", "\x1b$*H", "\x1b$)Z", "\x1b.A", "\x1b.F", "\x1b$(Q", "\x80", "\x1b&@"}) a.push_back(x);
    return a;
}
static void dec(u64 i, Rng &g) {
    auto v = escs(); int e = v[i % v.size()]; u64 x = i / v.size(); static std::map<int, vector<string>> al; auto &A = al[e]; if (A.empty()) A = alphabet(e); u32 n = A.size(), len = 1 + g.below(6); string in;
    for (u32 k = 0; k < len; k++) { u32 q = k < 3 ? x % n : g.below(n); if (k < 3) x /= n; in += A[q]; if (g.chance(35)) { in += (char)(0x21 + g.below(94)); in += (char)(0x21 + g.below(94)); } }
    Lock L(e, g.chance(80) ? idx("ucs4be") : pickenc(g), g.chance(30), *gi, *go, "esc"); if (g.chance(40)) L.whole(in); else L.session(in, g); cnt["decoder_inputs"]++; seen(hashbytes(in.data(), in.size(), e)); smp(i, 50021, L, in);
}
// texts, also between two escape encodings
static void text(u64 i, Rng &g) { auto v = escs(); int a = g.chance(50) ? v[g.below(v.size())] : pickenc(g), b = v[g.below(v.size())]; string in = geninput(a, b, 60, g, g.chance(60) ? 0 : -1); Lock L(a, b, g.chance(20), *gi, *go, "esc"); if (g.chance(30)) L.whole(in); else L.session(in, g); cnt["texts"]++; }
// after a flush the bytes are in the initial state: text encoded after it decodes the same on its own (no reference to the specification)
static void home(u64 i, Rng &g) {
    auto v = escs(); int e = v[i % v.size()]; reiconv_t cd = reiconv_open_from_index(ENCODING_UCS4BE, encs[e].idx, REICONV_NO_FLAGS), dd = reiconv_open_from_index(encs[e].idx, ENCODING_UCS4BE, REICONV_NO_FLAGS); string all; vector<string> parts; u32 n = 2 + g.below(3); string want, got;
    for (u32 k = 0; k < n; k++) {
        string t; u32 m = 1 + g.below(8); while (m--) { u32 c = charof(e, g); if (c == 0x1b || c == 0x0e || c == 0x0f) continue; EState st; u8 b[64]; u32 z; if (specs[e].enc(st, c, b, z)) u4(t, c); }   // text with the escape and shift control characters is outside the claim
         char ob[512]; char *ip = t.data(), *op = ob; size_t il = t.size(), ol = sizeof ob; reiconv_iconv(cd, &ip, &il, &op, &ol); reiconv_iconv(cd, 0, 0, &op, &ol); parts.push_back(string(ob, op - ob)); all += parts.back();
    }
    auto d = [&](const string &s) { char ob[1024]; char *ip = (char *)s.data(), *op = ob; size_t il = s.size(), ol = sizeof ob; size_t r = reiconv_iconv(dd, &ip, &il, &op, &ol); if (r == (size_t)-1) { fail(string("home-decode:") + encs[e].id, fmt("own output %s refused, errno %d at %zu", hex(s).c_str(), errno, s.size() - il)); } reiconv_iconv(dd, 0, 0, &op, &ol); return string(ob, op - ob); };
    for (auto &p : parts) want += d(p); got = d(all); cnt["home_checks"]++; if (want != got) fail(string("home:") + encs[e].id, "parts of " + hex(all) + " decode differently when joined: " + hex(want) + " / " + hex(got));
    for (auto &p : parts) { bool low = true; for (u8 c : p) if (c >= 0x80) low = false; if (!low) fail(string("eightbit:") + encs[e].id, "output has bytes above 7F: " + hex(p)); }
    reiconv_handle_close(cd); reiconv_handle_close(dd);
}
static void longs(u64 i, Rng &g) { auto v = escs(); bool z = g.chance(50); int a = z ? v[g.below(v.size())] : pickenc(g), b = z ? pickenc(g) : v[g.below(v.size())]; string in = longinput(a, b, 30000 + g.below(90000), g, g.chance(70) ? 0 : 1); Lock L(a, b, g.chance(30), *gi, *go, "esc"); L.longrun(in, g); }
int main(int c, char **v) { guards(); return rx_main(c, v, {{"enc", enc, 900000, 30000000}, {"dec", dec, 900000, 30000000}, {"text", text, 200000, 6000000}, {"home", home, 200000, 4000000}, {"longs", longs, 300, 6000}}); }

// C15: names, aliases and code pages.
#define RX_MAIN
#include "stream.hpp"
#include <cppp/reiconv.hpp>
#include <stdexcept>
#include <unordered_map>
using namespace rx;
static std::unordered_map<string, int> known; static std::map<int, int> cps; static vector<string> all;
static const struct { const char *id; int c, cpp; } consts[] = {
#define RX_ENC(id, CN) {id, ENCODING_##CN, (int)reiconv::Encodings::CN},
#include "encconst.inc"
};
static string canon(const string &s) { string r; for (char c : s) if (c != '-' && c != '_') r += c >= 'a' && c <= 'z' ? c - 32 : c; return r; }
static int want(const string &s) { auto it = known.find(canon(s)); return it == known.end() ? -1 : encs[it->second].idx; }
static void setup() { if (!known.empty()) return; for (size_t e = 0; e < encs.size(); e++) { for (auto n : encs[e].names) { known[n] = e; all.push_back(n); } for (int c : encs[e].cps) cps[c] = e; } std::sort(all.begin(), all.end()); }
static void ask(const string &s, bool cpp) {
    const char *p = (const char *)gi->load(s.c_str(), s.size() + 1); int w = want(p), r = reiconv_lookup_from_name(p); static u64 &c1 = cnt["names_found"], &c2 = cnt["names_refused"]; ++(w >= 0 ? c1 : c2);
    if (r != w) fail("name:" + canon(s).substr(0, 60), "'" + s.substr(0, 300) + fmt("' (length %zu) gives index %d, not %d", s.size(), r, w));
    if (cpp) {
        for (int k = 0; k < 2; k++) { int i = -7; bool thrown = false; try { i = k ? (int)reiconv::Encoding(s) : (int)reiconv::Encoding(p); } catch (const std::invalid_argument &) { thrown = true; i = -1; } catch (...) { i = -9; } cnt["cpp_names"]++; if (i != w || thrown != (w < 0)) fail((r == i ? "name:" : "cppname:") + canon(s).substr(0, 60), "Encoding('" + s.substr(0, 300) + fmt("') gives %d, not %d", i, w)); }
        u8 *o = go->set(w >= 0 || 1 ? canon(p).size() + 1 : 0, 0xEE); size_t n = reiconv_name_canonicalize(p, (char *)o); cnt["canonicalized"]++; if (n != canon(p).size() || memcmp(o, canon(p).c_str(), n + 1)) fail("canonicalize", "'" + s.substr(0, 300) + "' becomes '" + string((char *)o, std::min(n, canon(p).size())) + fmt("' length %zu", n));
    }
}
static string spell(const string &n, Rng &g) { string s; u32 dash = g.below(4); for (char c : n) { while (dash && g.below(100) < (dash == 1 ? 10u : dash == 2 ? 40u : 70u)) s += g.chance(50) ? '-' : '_'; s += c >= 'A' && c <= 'Z' && g.chance(50) ? c + 32 : c; } while (dash && g.chance(40)) s += g.chance(50) ? '-' : '_'; if (g.chance(1)) s.insert(g.below(s.size() + 1), string(1 + g.below(9000), g.chance(50) ? '-' : '_')); return s; }
static void names(u64 i, Rng &g) {
    const string &n = all[i % all.size()]; if (i < all.size()) { ask(n, true); string l; for (char c : n) l += c >= 'A' && c <= 'Z' ? c + 32 : c; ask(l, true); seen(hashbytes(n.data(), n.size())); } for (int k = 0; k < 6; k++) { string s = spell(n, g); ask(s, true); seen(hashbytes(s.data(), s.size())); } if (i % 211 == 0) sample(spell(n, g));
}
static const char ALPHA[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:()+/ _-,;!*@abz\t\n\x7f\x80\xff";
// every one-character change of every name
static void near(u64 i, Rng &g) {
    const string &n = all[i % all.size()]; u32 A = sizeof ALPHA - 1;
    for (size_t p = 0; p <= n.size(); p++) { if (p < n.size()) { string s = n; s.erase(p, 1); ask(s, false); string w = n; if (p + 1 < n.size()) { std::swap(w[p], w[p + 1]); ask(w, false); } } for (u32 k = 0; k < A; k++) { string s = n; s.insert(p, 1, ALPHA[k]); ask(s, false); if (p < n.size()) { s = n; s[p] = ALPHA[k]; ask(s, false); } } }
    for (u32 p = 1; p < 256; p++) { string s = n; s[g.below(n.size())] = (char)p; ask(s, p % 16 == 0); }
    for (const char *x : {"/", "//", "//IGNORE", "//TRANSLIT", " ", "\n", "0", "1", "A", "X", ".", ":"}) { ask(n + x, false); ask(x + n, false); } for (int k = 0; k < 40; k++) { ask(n + all[g.below(all.size())], false); ask(n.substr(0, g.below(n.size() + 1)) + all[g.below(all.size())].substr(g.below(3)), false); } seen(hs({15, i}));
}
// all strings of up to three characters
static void tiny(u64 i, Rng &) { static const char C[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:-_+"; u32 A = sizeof C - 1; string s(1, C[i % A]); ask("", false); ask(s, false); for (u32 a = 0; a < A; a++) { string t = s + C[a]; ask(t, false); for (u32 b = 0; b < A; b++) { ask(t + C[b], false); if (thorough || b % 4 == 0) for (u32 c = 0; c < A; c++) ask(t + C[b] + C[c], false); } } seen(hs({16, i})); }
static void junk(u64 i, Rng &g) {
    string s; u32 k = g.below(6), n = k == 0 ? g.below(5000) : k == 1 ? 30 + g.below(60) : g.below(40);
    while (s.size() < n) { if (k < 3) s += (char)(1 + g.below(255)); else if (k == 3) s += ALPHA[g.below(sizeof ALPHA - 1)]; else { s += all[g.below(all.size())].substr(0, 1 + g.below(8)); } } if (g.chance(10)) s = string(g.below(100000), g.chance(50) ? '-' : 'A') + s; ask(s, g.chance(20)); seen(hashbytes(s.data(), s.size()));
}
// all 2^32 code page numbers
static void pages(u64 i, Rng &) {
    u64 lo = i << 24, hi = (i + 1) << 24; static u64 &c = cnt["codepages"]; u64 f = 0;
    for (u64 x = lo; x < hi; x++) { int v = (int)(u32)x; int r = reiconv_lookup_from_codepage(v); if (r != -1 || (v >= 0 && v < 70000)) { auto it = cps.find(v); int w = it == cps.end() ? -1 : encs[it->second].idx; if (r != w) { fail(fmt("codepage:%d", v), fmt("code page %d gives index %d, not %d", v, r, w)); if (f++ > 20) return; } if (w >= 0) cnt["codepages_found"]++; } }
    c += hi - lo; seen(hs({17, i}));
    if (i == 0 || i == 128 || i == 255) for (u64 x = i == 0 ? 0 : lo; x < (i == 0 ? 70000 : lo + 2000); x++) { int v = (int)(u32)x; auto it = cps.find(v); int w = it == cps.end() ? -1 : encs[it->second].idx, q = -7; bool t = false; try { q = (int)reiconv::Encoding(v); } catch (const std::invalid_argument &) { t = true; q = -1; } catch (...) { q = -9; } if (q != w || t != (w < 0)) { fail(fmt("cppcodepage:%d", v), fmt("Encoding(%d) gives %d, not %d", v, q, w)); return; } }
}
// published constants: distinct, in both languages the same, and the index behind a name is that encoding's conversion
static void denote(u64 i, Rng &g) {
    int e = i % encs.size(); const auto &c = consts[e]; if (c.c != encs[e].idx || c.cpp != c.c) fail(string("const:") + c.id, fmt("ENCODING_ constant %d, C++ enumerator %d", c.c, c.cpp)); for (size_t k = 0; k < encs.size(); k++) if ((int)k != e && encs[k].idx == c.c) fail(string("const-dup:") + c.id, string("same index as ") + encs[k].id);
    cnt["constants"]++; for (int z = 0; z < 30; z++) { bool in = g.chance(50); int u = idx(g.chance(50) ? "utf8" : "ucs4be"); string s = geninput(in ? e : u, in ? u : e, 40, g, g.chance(70) ? 0 : -1); Lock L(in ? e : u, in ? u : e, false, *gi, *go, "denote"); L.whole(s); cnt["conversions_compared"]++; seen(hashbytes(s.data(), s.size(), e)); }
    // names run together (a missing comma in the list) are no names
    for (size_t k = 0; k + 1 < encs[e].names.size(); k++) { string j = string(encs[e].names[k]) + encs[e].names[k + 1]; if (!known.count(j)) ask(j, true), cnt["joined_names"]++; }
    // each name opens it
    for (auto n : encs[e].names) { Cd a(reiconv_open_from_name(n, "UTF-8", REICONV_NO_FLAGS)), b(e, idx("utf8"), false); if (!a.ok()) { fail(string(reiconv_lookup_from_name(n) < 0 ? "name:" : "open:") + n, "open_from_name fails"); continue; } string s = geninput(e, idx("utf8"), 20, g, 0); Trace x = drive(a.h, unitof(e), s, wholeplan(s.size()), *gi, *go), y = drive(b.h, unitof(e), s, wholeplan(s.size()), *gi, *go); cnt["names_opened"]++; if (!x.same(y)) fail(string("open:") + n, "by name " + x.show() + " by index " + y.show()); }
}
int main(int c, char **v) {
    guards(); setup(); for (size_t i = 0; i < encs.size(); i++) if (strcmp(encs[i].id, consts[i].id)) { fprintf(stderr, "constant list out of step\n"); return 3; }
    auto w = [](void (*f)(u64, Rng &)) { return [f](u64 i, Rng &g) { f(i, g); }; }; u64 n = all.size(), E = encs.size(); return rx_main(c, v, {{"names", w(names), n * 40, n * 2000}, {"near", w(near), n, n}, {"tiny", w(tiny), 41, 41}, {"junk", w(junk), 150000, 5000000}, {"pages", w(pages), 256, 256}, {"denote", w(denote), E, E * 50}});
}

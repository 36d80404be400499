// C20: the locale charset query, compiled for several platforms (see custom build in specs.py), under hostile environments.
#define RX_MAIN
#include "rx.hpp"
#include <clocale>
#include <string_view>
#include "locale.inc"
using namespace rx;
#include <dlfcn.h>
typedef const char *(*CF)(); typedef std::string_view (*VF)();
#define CFG(x) static CF lc_##x; namespace reiconv { static VF lc_##x; }
CFG(env) CFG(freebsd) CFG(langinfo) CFG(win) CFG(wincon) CFG(cygwin) CFG(haiku) CFG(android) CFG(beos)
extern "C" { unsigned rx_acp = 0, rx_concp = 0; unsigned GetACP() { return rx_acp; } unsigned GetConsoleOutputCP() { return rx_concp; } extern char **environ; }
static string env_str() { string s; for (char **e = environ; e && *e; e++) { string x = *e; s += x.size() > 60 ? x.substr(0, 50) + fmt("...(%zu)", x.size()) : x; s += ' '; } return s; }
static void expect(const char *cfg, CF cf, VF vf, const string &want, const string &how) {
    string loc0 = setlocale(LC_ALL, nullptr); string e0; for (char **e = environ; e && *e; e++) { e0 += *e; e0 += '\1'; }
    const char *a = cf(); if (!a) { fail(string("null:") + cfg, how); return; } string s = a; std::string_view v = vf(); const char *b = cf(); cnt[string("asked_") + cfg]++;
    string key = string(cfg) + ":"; if (s.empty()) fail("empty:" + key, how); if (s != want) fail("answer:" + key, string(cfg) + " with " + how + " gives '" + s.substr(0, 100) + "', expected '" + want.substr(0, 100) + "'"); if (v != s) fail("binding:" + key, string(cfg) + " C++ gives '" + string(v).substr(0, 100) + "', C '" + s.substr(0, 100) + "' with " + how); if (!b || s != b) fail("unstable:" + key, how);
    string e1; for (char **e = environ; e && *e; e++) { e1 += *e; e1 += '\1'; } if (e0 != e1) fail("environment:" + key, "the environment is changed"); if (loc0 != setlocale(LC_ALL, nullptr)) fail("locale:" + key, "the locale is changed");
    seen(hs({20, hashbytes(cfg, strlen(cfg)), hashbytes(how.data(), how.size())}));
}
// the environment is an array of heap blocks of exactly the right size, so that a read past the end is seen by ASan
struct Env { vector<char *> p; Env(const vector<string> &v) { for (auto &s : v) { char *q = (char *)malloc(s.size() + 1); memcpy(q, s.c_str(), s.size() + 1); p.push_back(q); } p.push_back(nullptr); old = environ; environ = p.data(); } ~Env() { environ = old; for (char *q : p) free(q); } char **old; };
static string value(Rng &g) {
    u32 k = g.below(16); auto N = sizeof FREEBSD / sizeof *FREEBSD; string s;
    switch (k) {
    case 0: return ""; case 1: return "C"; case 2: return "POSIX"; case 3: { static const char *x[] = {"en_US.UTF-8", "de_DE.ISO-8859-1", "zh_CN.GB18030", "ja_JP.eucJP", "ru_RU.KOI8-R", "C.UTF-8", "zh_TW.Big5", "ko_KR.EUC-KR", "th_TH.TIS-620", "vi_VN.TCVN"}; return x[g.below(10)]; }
    case 4: return "."; case 5: return "en_US."; case 6: return "en_US"; case 7: return ".UTF-8"; case 8: return "en_US..UTF-8.x"; case 9: case 10: case 11: { s = FREEBSD[g.below(N)].locale; if (k == 10) s += (char)(33 + g.below(90)); if (k == 11) s[g.below(s.size())] ^= 1 << g.below(6); for (char &c : s) if (!c) c = '!'; return s; }
    case 12: { u32 n = g.below(60); while (n--) s += (char)(1 + g.below(255)); return s; } case 13: { u32 n = g.below(40); while (n--) { static const char c[] = "aB_.-@8"; s += c[g.below(7)]; } return s; }
    case 14: s = string(g.below(g.chance(5) ? 200000 : 3000), 'x'); if (g.chance(50)) s.insert(g.below(s.size() + 1), "."); return s;
    default: return encs[g.below(encs.size())].names[0];
    }
}
static string oracle(const string &loc, bool table) {
    if (table) for (auto &e : FREEBSD) if (loc == e.locale) return e.charset;
    size_t d = loc.find('.'); return d == string::npos || d + 1 == loc.size() ? "UTF-8" : loc.substr(d + 1);
}
static void env(u64 i, Rng &g) {
    static const char *K[] = {"LC_ALL", "LC_CTYPE", "LANG"}; vector<string> v; string val[3]; bool set[3];
    for (int k = 0; k < 3; k++) { set[k] = g.chance(60); val[k] = value(g); } int skip = g.below(4); for (int k = 0; k < skip; k++) set[k] = false;
    for (int k = 0; k < 3; k++) if (set[k]) v.push_back(string(K[k]) + "=" + val[k]);
    if (g.chance(40)) v.push_back("LC_MESSAGES=" + value(g)); if (g.chance(40)) v.push_back("LANGUAGE=" + value(g)); if (g.chance(20)) v.push_back("LC_ALLX=" + value(g)); if (g.chance(20)) v.push_back("XLC_ALL=a.WRONG"); if (g.chance(20)) v.push_back("lang=a.WRONG");
    for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[g.below(k)]);
    const char *cur = g.chance(50) ? "C" : "C.UTF-8"; if (!setlocale(LC_ALL, cur)) { cur = "C"; setlocale(LC_ALL, cur); }
    string loc = setlocale(LC_CTYPE, nullptr); for (int k = 2; k >= 0; k--) if (set[k] && !val[k].empty()) { loc = val[k]; } int which = 3; for (int k = 0; k < 3; k++) if (set[k] && !val[k].empty()) { which = k; break; } cnt[which == 3 ? "from_setlocale" : string("from_") + K[which]]++;
    Env e(v); string how = env_str() + "locale " + cur; expect("env", lc_env, reiconv::lc_env, oracle(loc, false), how); expect("freebsd", lc_freebsd, reiconv::lc_freebsd, oracle(loc, true), how);
    if (oracle(loc, false) == "UTF-8" && loc.find('.') == string::npos) cnt["defaulted"]++; if (oracle(loc, true) != oracle(loc, false)) cnt["table_hits"]++;
    expect("haiku", lc_haiku, reiconv::lc_haiku, "UTF-8", how); expect("android", lc_android, reiconv::lc_android, "UTF-8", how); expect("beos", lc_beos, reiconv::lc_beos, "UTF-8", how);
    expect("langinfo", lc_langinfo, reiconv::lc_langinfo, strcmp(cur, "C") ? "UTF-8" : "ANSI_X3.4-1968", how);
    if (i % 4001 == 0) sample(how.substr(0, 200) + " -> " + string(lc_env()).substr(0, 60) + " / freebsd " + string(lc_freebsd()).substr(0, 60));
}
static void table(u64 i, Rng &g) { auto N = sizeof FREEBSD / sizeof *FREEBSD; if (i >= N) return; for (int k = 0; k < 3; k++) { static const char *K[] = {"LC_ALL", "LC_CTYPE", "LANG"}; Env e({string(K[k]) + "=" + FREEBSD[i].locale}); expect("freebsd", lc_freebsd, reiconv::lc_freebsd, FREEBSD[i].charset, env_str()); cnt["table_entries"]++; } if (reiconv_lookup_from_name(FREEBSD[i].charset) < 0) fail(string("unusable:") + FREEBSD[i].charset, "the name is not known to the library"); }
static void windows(u64 i, Rng &g) {
    for (unsigned k = 0; k < 256; k++) {
        unsigned cp = i < 300 ? i * 256 + k : (unsigned)g.next(); const char *want = "ASCII"; for (auto &w : WINDOWS) if (w.cp == cp) want = w.charset; auto same = [&](const char *s) { if (want == string(s)) return string(s); int x = reiconv_lookup_from_name(want), y = reiconv_lookup_from_name(s); return x >= 0 && x == y ? string(s) : string(want); };
        rx_acp = cp; rx_concp = ~cp; expect("win", lc_win, reiconv::lc_win, same(lc_win()), fmt("code page %u", cp)); expect("cygwin", lc_cygwin, reiconv::lc_cygwin, same(lc_cygwin()), fmt("code page %u", cp)); rx_concp = cp; rx_acp = ~cp; expect("wincon", lc_wincon, reiconv::lc_wincon, same(lc_wincon()), fmt("console code page %u", cp)); rx_acp = cp;
        int x = reiconv_lookup_from_name(lc_win()), y = reiconv_lookup_from_codepage(cp); if (strcmp(want, "ASCII") && x >= 0 && y >= 0) { cnt["codepages_agree"]++; if (x != y) fail(fmt("codepage:%u", cp), fmt("code page %u is answered with %s, which is another encoding", cp, lc_win())); }
    }
}
static void real(u64 i, Rng &g) {    // locales made by localedef for this check
    const char *list = getenv("RX_LOCALES"); vector<std::pair<string, string>> L; for (string t, s = list ? list : ""; !s.empty();) { size_t p = s.find(';'); t = s.substr(0, p); s = p == string::npos ? "" : s.substr(p + 1); size_t q = t.find('='); if (q != string::npos) L.push_back({t.substr(0, q), t.substr(q + 1)}); }
    if (L.empty()) return; auto &l = L[i % L.size()]; if (!setlocale(LC_ALL, "C")) return; const char *r = setlocale(g.chance(50) ? LC_ALL : LC_CTYPE, l.first.c_str()); if (!r) { cnt["locale_missing"]++; return; } vector<string> none; if (g.chance(50)) none.push_back("LANG=en_US.WRONG"); if (g.chance(50)) none.push_back("LC_ALL=en_US.WRONG"); if (getenv("LOCPATH")) none.push_back(string("LOCPATH=") + getenv("LOCPATH"));
    { Env e(none); expect("langinfo", lc_langinfo, reiconv::lc_langinfo, l.second, "locale " + l.first); if (reiconv_lookup_from_name(lc_langinfo()) < 0) fail("unusable:" + l.first, string("the name is not known to the library: ") + lc_langinfo()); cnt["real_locales"]++; } setlocale(LC_ALL, "C");
}
static void load(const char *dir, const char *n, CF &cf, VF &vf) { string p = string(dir) + "/lc-" + n + ".so"; void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); } cf = (CF)dlsym(h, "locale_charset"); vf = (VF)dlsym(h, "_ZN7reiconv14locale_charsetEv"); if (!cf || !vf) { fprintf(stderr, "no locale_charset in %s\n", p.c_str()); exit(3); } }
int main(int c, char **v) { const char *dir = getenv("RX_DIR");
#define L(x) load(dir, #x, lc_##x, reiconv::lc_##x);
    L(env) L(freebsd) L(langinfo) L(win) L(wincon) L(cygwin) L(haiku) L(android) L(beos)
    return rx_main(c, v, {{"env", env, 60000, 2000000}, {"table", table, sizeof FREEBSD / sizeof *FREEBSD, 200}, {"windows", windows, 320, 4000}, {"real", real, 400, 4000}}, false); }

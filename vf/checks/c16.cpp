// C16: every way of opening a conversion gives the same conversion.  The library is compared with itself (reference: open by index).
#define RX_MAIN
#include "stream.hpp"
#include <cppp/reiconv.hpp>
#include <stdexcept>
#include <system_error>
namespace compat {       // the iconv compatibility header, used like iconv(3)
#include <compat/iconv.h>
static void *cd_open(const char *to, const char *from) { iconv_t c = iconv_open(to, from); return (void *)c; }
static size_t cd_conv(void *c, char **i, size_t *il, char **o, size_t *ol) { return iconv((iconv_t)c, i, il, o, ol); }
static int cd_close(void *c) { return iconv_close((iconv_t)c); }
#undef iconv_t
#undef iconv_open
#undef iconv
#undef iconv_close
}
using namespace rx;
static const reiconv_t BAD = (reiconv_t)-1;
static string spell(const string &n, Rng &g) { string s; bool dash = g.chance(40); for (char c : n) { if (dash && g.chance(25)) s += g.chance(50) ? '-' : '_'; s += c >= 'A' && c <= 'Z' && g.chance(40) ? c + 32 : c; } return s; }
static bool found(const char *n) { return reiconv_lookup_from_name(n) >= 0; }
static string nameof(int e, Rng &g) { auto &v = encs[e].names; for (int k = 0; k < 8; k++) { auto n = v[g.below(v.size())]; if (found(n)) return spell(n, g); } return v[0]; }
static string suffix(Rng &g) { static const char *s[] = {"//IGNORE", "//ignore", "//Ignore", "//IG-NORE"}; return s[g.below(10) < 6 ? 0 : g.below(3)]; }
static void routes(int a, int b, Rng &g) {
    bool d = g.chance(50); string in = geninput(a, b, 20, g, g.chance(40) ? 0 : -1), id = pname(a, b, d); size_t N = in.size(); Cd ix(a, b, d); if (!ix.ok()) return; Trace w = drive(ix.h, unitof(a), in, wholeplan(N), *gi, *go, 5); string fa = nameof(a, g), fb = nameof(b, g);
    auto cmp = [&](reiconv_t h, const char *how, const string &names) { Cd c(h); cnt[string("route_") + how]++; if (h == BAD) { fail(string(how) + ":" + id, id + " cannot be opened " + how + " " + names); return; } Trace t = drive(h, unitof(a), in, wholeplan(N), *gi, *go, 5); if (!w.same(t) || w.count != t.count) fail(string(how) + ":" + id, id + " opened by " + how + " " + names + " input " + hex(in) + ": " + t.show() + fmt(" count %zu", t.count) + "; by index: " + w.show() + fmt(" count %zu", w.count)); };
    enum ConvertFlag fl = d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS; cmp(reiconv_open_from_name(fa.c_str(), fb.c_str(), fl), "name", fa + " " + fb);
    if (!encs[a].cps.empty() && !encs[b].cps.empty()) { int ca = encs[a].cps[g.below(encs[a].cps.size())], cb = encs[b].cps[g.below(encs[b].cps.size())]; cmp(reiconv_open_from_codepage(ca, cb, fl), "codepage", fmt("%d %d", ca, cb)); }
    int side = d ? 1 + g.below(3) : 0; string ta = side & 1 ? fa + suffix(g) : fa, tb = side & 2 ? fb + suffix(g) : fb; cmp(reiconv_open(tb.c_str(), ta.c_str()), side == 0 ? "open" : side == 1 ? "open_ignore_from" : side == 2 ? "open_ignore_to" : "open_ignore_both", tb + " <- " + ta);
    { void *c = compat::cd_open(tb.c_str(), ta.c_str()); if (c == (void *)-1) fail("compat:" + id, "iconv_open fails"); else { string o(N * 16 + 64, 0); char *ip = in.data(), *op = o.data(); size_t il = N, ol = o.size(); size_t r = compat::cd_conv(c, &ip, &il, &op, &ol); Cd y(a, b, d); string o2(N * 16 + 64, 0); char *ip2 = in.data(), *op2 = o2.data(); size_t il2 = N, ol2 = o2.size(); size_t r2 = reiconv_iconv(y.h, &ip2, &il2, &op2, &ol2); if (r != r2 || il != il2 || ol != ol2 || o != o2) fail("compat:" + id, "iconv gives another result for " + hex(in)); compat::cd_conv(c, nullptr, nullptr, &op, &ol); if (compat::cd_close(c)) fail("compat-close", id); cnt["route_compat"]++; } }
    // C++: by name, std::string, index, code page
    auto cpp = [&](auto x, auto y, const char *how) { string s; int en = 0; try { s = reiconv::convert(x, y, in, d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS); } catch (const std::system_error &e) { en = e.code().value(); } catch (const std::exception &e) { en = -1; } cnt[string("route_") + how]++; bool bad = !w.errs.empty() || w.end || w.fl; if (bad ? en <= 0 : en || s != w.out) fail(string(how) + ":" + id, id + " C++ by " + how + fmt(" exception %d ", en) + hex(s) + " input " + hex(in) + "; by index " + w.show()); };
    cpp(reiconv::Encoding(fa.c_str()), reiconv::Encoding(fb), "cpp_name"); cpp((reiconv::Encodings)encs[a].idx, (reiconv::Encodings)encs[b].idx, "cpp_index"); if (!encs[a].cps.empty() && !encs[b].cps.empty()) cpp(reiconv::Encoding(encs[a].cps[0]), reiconv::Encoding(encs[b].cps.back()), "cpp_codepage");
    seen(hs({16, (u64)a, (u64)b, d, (u64)side}));
}
static void pairs(u64 i, Rng &g) { int n = encs.size(); u64 q = i % (u64)(n * n); routes(q / n, q % n, g); if (i % 9001 == 0) sample(pname(q / n, q % n, 0)); }
// an unknown name or code page on either side
static void unknown(u64 i, Rng &g) {
    int e = g.below(encs.size()); string good = nameof(e, g), bad = good; u32 k = g.below(6); if (k == 0) bad = ""; else if (k == 1) bad = good + "X1"; else if (k == 2) { bad = string(g.below(3000), 'A' + g.below(26)); } else if (k == 3) { bad = ""; u32 n = g.below(30); while (n--) bad += (char)(1 + g.below(255)); for (auto &c : bad) if (c == '/') c = '.'; } else if (k == 4) bad = good.substr(0, good.size() / 2); else bad = "NOPE"; if (found(bad.c_str())) return; string sfx = g.chance(30) ? "//IGNORE" : "";
    auto no = [&](reiconv_t c, const char *how) { int en = errno; cnt["refused_opens"]++; if (c != BAD) { fail(string("unknown:") + how, "'" + bad.substr(0, 80) + "' is accepted"); reiconv_handle_close(c); } else if (en != EINVAL) fail(string("unknown-errno:") + how, fmt("errno %d", en)); };
    bool both = g.chance(20); string x = bad, y = both ? bad : good; errno = 0; no(reiconv_open_from_name(x.c_str(), y.c_str(), REICONV_NO_FLAGS), "name-from"); errno = 0; no(reiconv_open_from_name(y.c_str(), x.c_str(), REICONV_DISCARD_ILSEQ), "name-to"); errno = 0; no(reiconv_open((x + sfx).c_str(), y.c_str()), "open-to"); errno = 0; no(reiconv_open(y.c_str(), (x + sfx).c_str()), "open-from"); errno = 0; no((reiconv_t)compat::cd_open(x.c_str(), y.c_str()), "compat-to"); errno = 0; no((reiconv_t)compat::cd_open(y.c_str(), x.c_str()), "compat-from");
    int cp = g.chance(50) ? (int)g.next() : (int)g.below(70000); bool have = false; int okcp = 65001; for (auto &q : encs) for (int c : q.cps) if (c == cp) have = true; if (!have) { errno = 0; no(reiconv_open_from_codepage(cp, both ? cp : okcp, REICONV_NO_FLAGS), "codepage-from"); errno = 0; no(reiconv_open_from_codepage(both ? cp : okcp, cp, REICONV_NO_FLAGS), "codepage-to"); }
    for (int s = 0; s < 2; s++) { bool thrown = false; try { reiconv::convert(s ? reiconv::Encoding(x.c_str()) : reiconv::Encoding(y.c_str()), s ? reiconv::Encoding("UTF-8") : reiconv::Encoding(x.c_str()), "abc"); } catch (const std::invalid_argument &) { thrown = true; } catch (...) {} cnt["refused_opens"]++; if (!thrown) fail("unknown:cpp", "'" + bad.substr(0, 80) + "' gives no std::invalid_argument"); } seen(hashbytes(bad.data(), bad.size(), e));
}
// what is not the suffix does not switch discarding on (such a name may be refused)
static void nearly(u64 i, Rng &g) {
    static const char *S[] = {"//IGNORX", "//XGNORE", "//IGNOR", "/IGNORE", "//TRANSLIT", "//", "/", "//NOIGNORE", "IGNORE"}; int a = g.below(encs.size()), b = g.below(encs.size()); string fa = nameof(a, g), fb = nameof(b, g), sf = S[i % 9]; (g.chance(50) ? fa : fb) += sf; reiconv_t h = reiconv_open(fb.c_str(), fa.c_str()); cnt["other_suffixes"]++;
    if (h == BAD) return; if (sf == "IGNORE") { fail("suffix:" + sf, fb + " <- " + fa + " is accepted"); reiconv_handle_close(h); return; } Cd c(h), x(a, b, false); string in = geninput(a, b, 20, g, 1 + g.below(3)); size_t N = in.size(); Trace w = drive(x.h, unitof(a), in, wholeplan(N), *gi, *go, 5), t = drive(h, unitof(a), in, wholeplan(N), *gi, *go, 5);
    if (!w.same(t) || w.count != t.count) fail("suffix:" + sf, fb + " <- " + fa + " input " + hex(in) + ": " + t.show() + "; without the suffix: " + w.show()); seen(hs({17, (u64)a, (u64)b, i % 9}));
}
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"pairs", pairs, n * n * 6, n * n * 100}, {"unknown", unknown, 120000, 4000000}, {"nearly", nearly, 9000, 300000}}); }

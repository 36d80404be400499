// C21: the C++ interface.
#define RX_MAIN
#include "stream.hpp"
#include <cppp/reiconv.hpp>
#include <stdexcept>
#include <system_error>
using namespace rx;
struct R { bool ok = false; int en = 0; string what, out; };
template <class A, class B> static R cpp(A a, B b, std::string_view in, bool d, bool deflt) {
    R r; try { r.out = deflt && !d ? reiconv::convert(a, b, in) : reiconv::convert(a, b, in, d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS); r.ok = true; } catch (const std::system_error &e) { r.en = e.code().value(); if (!(e.code() == std::error_condition(r.en, std::generic_category()))) r.what = "category"; if (!*e.what()) r.what = "empty message"; } catch (const std::exception &e) { r.what = string("other exception: ") + e.what(); } catch (...) { r.what = "foreign exception"; } return r;
}
static void one(int a, int b, bool d, const string &in, Rng &g) {
    string id = pname(a, b, d); Cd c(a, b, d); Trace t = drive(c.h, unitof(a), in, wholeplan(in.size()), *gi, *go); int en = t.end == EINVAL ? EILSEQ : t.end ? t.end : t.fl; const char *p = (const char *)gi->load(in.data(), in.size()); std::string_view sv(p, in.size()); if (in.empty() && g.chance(50)) sv = std::string_view();
    R r; u32 how = g.below(3); auto ea = (reiconv::Encodings)encs[a].idx, eb = (reiconv::Encodings)encs[b].idx; if (how == 0) r = cpp(ea, eb, sv, d, g.chance(50)); else { string na = encs[a].names[0], nb = encs[b].names[0]; if (how == 1) r = cpp(na.c_str(), nb.c_str(), sv, d, g.chance(50)); else r = cpp(na, nb, sv, d, g.chance(50)); }
    cnt[r.ok ? "returned" : "threw"]++; seen(hs({21, (u64)a, (u64)b, d, hashbytes(in.data(), in.size())})); if (!t.bad.empty()) { fail("streaming:" + id, t.bad); return; }
    if (!r.what.empty()) fail("exception:" + id, id + " input " + hex(in) + ": " + r.what); else if (r.ok != (en == 0) || r.en != en) fail("verdict:" + id, id + " input " + hex(in) + fmt(": errno in exception %d, expected %d", r.en, en)); else if (r.ok && r.out != t.out) fail("bytes:" + id, id + " input " + hex(in) + " gives " + hex(r.out) + fmt(" (%zu)", r.out.size()) + " not " + hex(t.out) + fmt(" (%zu)", t.out.size()));
    if (r.ok && r.out.c_str()[r.out.size()] != 0) fail("unterminated", id);
}
static void pairs(u64 i, Rng &g) { int n = encs.size(); u64 q = i % (u64)(n * n); int a = q / n, b = q % n; string in = geninput(a, b, 24, g, g.chance(50) ? 0 : -1); if (g.chance(4)) in.clear(); if (g.chance(5)) in.insert(g.below(in.size() + 1), 1, '\0'); one(a, b, g.chance(35), in, g); if (i % 20011 == 0) sample(pname(a, b, 0) + " " + hex(in)); }
static void rnd(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); one(a, b, g.chance(35), geninput(a, b, 60, g, g.chance(50) ? 0 : -1), g); }
static void longs(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); bool d = g.chance(60); string in = longinput(a, b, 3000 + g.below(90000), g, d && g.chance(40) ? 1 : 0); one(a, b, d, in, g); cnt["long_bytes"] += in.size(); ctl->beat++; }
// results around multiples of likely buffer sizes, and of hundreds of kilobytes to megabytes; an error, if any, at the very end
static void big(u64 i, Rng &g) {
    static const u32 N[] = {255, 511, 1023, 2047, 4095, 8191, 12287, 16383, 32767, 65535, 131071, 262143, 1048575, 3000001}; int a = pickenc(g), b = pickenc(g); bool d = g.chance(40); size_t want = N[g.below(thorough ? 14 : g.chance(12) ? 14 : 11)] + g.below(4); u32 style = g.below(3); vector<u32> t; EState st, s0; u8 bf[80]; u32 n; size_t len = 0; vector<u32> pool;
    for (int k = 0; k < 3000 && pool.size() < 200; k++) { u32 c = style == 0 ? 'a' + g.below(26) : charof(g.chance(50) ? a : b, g); EState x, y; if (specs[a].enc(x, c, bf, n) && specs[b].enc(y, c, bf, n)) pool.push_back(c); } if (pool.empty()) return;
    while (len < want && t.size() < want + 10) { u32 c = pool[g.below(pool.size())]; EState s = st; if (!specs[b].enc(s, c, bf, n)) continue; st = s; len += n; t.push_back(c); if (t.size() % 100000 == 0) ctl->beat++; }
    string in = encode(a, t); u32 tail = g.below(6); if (tail == 0) in += geninput(a, b, 3, g); else if (tail == 1 && in.size()) in.pop_back(); else if (tail == 2) in += encode(a, {0xe0041}); else if (tail == 3) in += encode(a, {anychar(g)});
    auto fs = d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS; reiconv_t h = reiconv_open_from_index(encs[a].idx, encs[b].idx, fs); if (h == (reiconv_t)-1) return; string out(in.size() * 16 + 256, 0); char *ip = in.data(), *op = out.data(); size_t il = in.size(), ol = out.size(); int en = 0;
    if (reiconv_iconv(h, &ip, &il, &op, &ol) == (size_t)-1) en = errno == EINVAL ? EILSEQ : errno; else if (reiconv_iconv(h, 0, 0, &op, &ol) == (size_t)-1) en = errno; reiconv_handle_close(h); out.resize(op - out.data()); ctl->beat++;
    R r = cpp((reiconv::Encodings)encs[a].idx, (reiconv::Encodings)encs[b].idx, in, d, false); string id = pname(a, b, d); cnt["big_results"]++; cnt["big_bytes"] += out.size(); seen(hs({211, (u64)a, (u64)b, d, out.size()}));
    if (!r.what.empty()) fail("big-exception:" + id, r.what); else if (r.ok != (en == 0) || r.en != en) fail("big-verdict:" + id, id + fmt(" input of %zu bytes: errno in exception %d, expected %d (result of %zu bytes)", in.size(), r.en, en, out.size())); else if (r.ok && r.out != out) { size_t k = 0; while (k < r.out.size() && k < out.size() && r.out[k] == out[k]) k++; fail("big-bytes:" + id, id + fmt(" input of %zu bytes gives %zu bytes, not %zu, first difference at %zu", in.size(), r.out.size(), out.size(), k)); }
}
// Encoding objects
static void objs(u64 i, Rng &g) {
    int a = i % encs.size(); vector<reiconv::Encoding> A; auto mk = [&](int e, vector<reiconv::Encoding> &v) { for (auto n : encs[e].names) if (reiconv_lookup_from_name(n) >= 0) { try { v.push_back(reiconv::Encoding(n)); v.push_back(reiconv::Encoding(string(n))); } catch (...) { fail(string("object:") + n, "a known name throws"); } } for (int c : encs[e].cps) { try { v.push_back(reiconv::Encoding(c)); } catch (...) { fail(fmt("object:%d", c), "a known code page throws"); } } v.push_back(reiconv::Encoding((reiconv::Encodings)encs[e].idx)); };
    mk(a, A); for (auto &x : A) { cnt["objects"]++; if ((int)x != encs[a].idx) fail(string("object-index:") + encs[a].id, fmt("%d", (int)x)); for (auto &y : A) if (!(x == y) || x != y) fail(string("object-equal:") + encs[a].id, "two objects of the same encoding differ"); }
    for (size_t b = 0; b < encs.size(); b++) if ((int)b != a) { vector<reiconv::Encoding> B; mk(b, B); cnt["object_pairs"] += B.size(); for (auto &y : B) if (A[0] == y || !(A[0] != y)) fail(string("object-differ:") + encs[a].id + ":" + encs[b].id, "objects of different encodings are equal"); } seen(hs({210, (u64)a}));
    for (int k = 0; k < 200; k++) { string s = encs[g.below(encs.size())].names[0]; u32 m = g.below(4); if (m == 0) s += (char)('A' + g.below(26)); else if (m == 1) s = s.substr(0, g.below(s.size())); else if (m == 2) { s.clear(); u32 n = g.below(60); while (n--) s += (char)(1 + g.below(255)); } else s = string(g.below(70), 'Q'); bool kn = reiconv_lookup_from_name(s.c_str()) >= 0; for (int z = 0; z < 2; z++) { int got = 0; try { if (z) reiconv::Encoding x(s); else reiconv::Encoding x(s.c_str()); got = 1; } catch (const std::invalid_argument &) { got = 2; } catch (...) { got = 3; } cnt["strange_names"]++; if (got != (kn ? 1 : 2)) fail("object-strange", "'" + s + fmt("' outcome %d", got)); } int cp = g.chance(50) ? (int)g.next() : (int)g.below(70000); bool kc = reiconv_lookup_from_codepage(cp) >= 0; int got; try { reiconv::Encoding x(cp); got = 1; } catch (const std::invalid_argument &) { got = 2; } catch (...) { got = 3; } if (got != (kc ? 1 : 2)) fail("object-codepage", fmt("%d outcome %d", cp, got)); }
    if (reiconv::version.major != reiconv_version.major || reiconv::version.minor != reiconv_version.minor || reiconv::version.patch != reiconv_version.patch || reiconv_version.major != RX_MAJ || reiconv_version.minor != RX_MIN || reiconv_version.patch != RX_PAT) fail("version", "version constants disagree");
}
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"objs", objs, n, n * 20}, {"pairs", pairs, n * n * 8, n * n * 150}, {"rnd", rnd, 300000, 8000000}, {"longs", longs, 300, 10000}, {"big", big, 2000, 40000}}); }

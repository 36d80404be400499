// C14: byte order marks.
#define RX_MAIN
#include "lockmain.hpp"
using namespace rx;
static vector<int> fam() { static vector<int> v; if (v.empty()) for (size_t i = 0; i < encs.size(); i++) if (specs[i].f >= model::F_U2 && specs[i].f <= model::F_U32) v.push_back(i); return v; }
static vector<int> marks() { static vector<int> v; if (v.empty()) for (int i : fam()) if (specs[i].o == model::O_MARK) v.push_back(i); return v; }
static string unit(int a, u32 k, Rng &g) {
    static const u32 v[] = {0xfeff, 0xfeff, 0x41, 0x41, 0xfffe, 0xd83d, 0xde00, 0x4e00, 0x4100, 0xfffd, 0xff, 0}; u8 b[4]; u32 u = specs[a].unit; Spec::wr(b, v[k], u, k == 1 || k == 3 || (k > 4 && g.chance(50))); return string((char *)b, u);
}
// all sequences of up to 5 units over {mark BE, mark LE, A BE, A LE, other}, cut at every byte, with stream ends in between
static void seqs(u64 i, Rng &g) {
    auto m = fam(); int a = m[i % m.size()]; u64 x = i / m.size(); static const char *tg[] = {"utf8", "utf16", "utf32", "ucs2", "ucs4", "utf16le", "ucs4be", "utf7"}; int b = idx(tg[g.below(8)]); Lock L(a, b, g.chance(20), *gi, *go, "bom");
    u32 n = 1 + x % 5; x /= 5; vector<string> u; for (u32 k = 0; k < n; k++) { u.push_back(unit(a, x % 6, g)); x /= 6; }
    u32 style = g.below(4); string pend;
    for (u32 k = 0; k < n && !L.bad; k++) {
        string s = pend + u[k]; pend.clear(); size_t p = 0;
        if (style == 0) { Res r = L.call((u8 *)s.data(), s.size(), 64); p = r.used; if (r.ret == (size_t)-1 && r.en == EILSEQ) p = s.size(); }
        else for (size_t e = 1; e <= s.size() && !L.bad; e++) { Res r = L.call((u8 *)s.data() + p, e - p, style == 1 ? 64 : g.below(12)); p += r.used; if (r.ret == (size_t)-1 && r.en == EILSEQ) p = std::min(e, p + 1); }
        pend = s.substr(std::min(p, s.size())); if (pend.size() > 16) pend.clear(); cnt["units"]++;
        if (L.bad) break; u32 z = g.below(8); if (z == 0) { Res f = L.flush(64); if (f.ret == (size_t)-1) L.zero(); pend.clear(); cnt["stream_ends"]++; } else if (z == 1) { L.zero(); pend.clear(); cnt["stream_ends"]++; }
        seen(hs({8, (u64)a, (u64)b, L.m().bo, L.m().es.g, k, hashbytes(s.data(), s.size())}));
    }
    if (!L.bad) L.flush(64); smp(i, 30011, L, u[0]);
}
// output: exactly one mark per stream, before the first character, however the room is cut
static void outm(u64 i, Rng &g) {
    auto m = fam(); int b = m[i % m.size()], a = g.chance(50) ? pickenc(g) : g.below(encs.size()); Lock L(a, b, g.chance(20), *gi, *go, "bom"); u32 streams = 1 + g.below(4); int mk = 0; (void)mk;
    for (u32 s = 0; s < streams && !L.bad; s++) {
        string in = encode(a, gentext(a, b, g.below(6), g), true); if (g.chance(20)) in = encode(a, {0xfeff}) + in; if (g.chance(20)) in = mutate(in, a, g, 1);
        size_t p = 0, guard = 0; while (p < in.size() && !L.bad && guard++ < 60) { Res r = L.call((u8 *)in.data() + p, in.size() - p, g.below(14)); p += r.used; if (r.ret == (size_t)-1 && r.en == EILSEQ) p++; if (r.ret == (size_t)-1 && r.en == EINVAL) break; }
        if (L.bad) break; if (g.chance(70)) { for (int k = 0; k < 5; k++) { Res f = L.flush(g.below(9)); if (L.bad || f.ret != (size_t)-1) break; if (f.en != E2BIG || k == 4) { L.zero(); break; } } } else L.zero(); cnt["output_streams"]++;
    }
}
// the order found in one stream serves the next streams of that descriptor, and one-shot calls
static void oneshot(u64 i, Rng &g) {
    auto m = marks(); int a = m[i % m.size()], b = idx("utf8"); reiconv_t cd = reiconv_open_from_index(encs[a].idx, encs[b].idx, REICONV_NO_FLAGS); bool le = false;
    for (u32 k = 0; k < 1 + g.below(6); k++) {
        string in, exp; bool l2 = le; u32 n = 1 + g.below(4); for (u32 z = 0; z < n; z++) { u32 t = g.below(3); if (t < 2) { bool ml = g.chance(50); u8 w[4]; Spec::wr(w, 0xfeff, specs[a].unit, ml); in.append((char *)w, specs[a].unit); l2 = ml; } else { u8 w[4]; Spec::wr(w, 0x41 + z, specs[a].unit, l2); in.append((char *)w, specs[a].unit); exp += (char)(0x41 + z); } }
        if (g.chance(50)) { size_t q = reiconv_result_size(cd, in.data(), in.size()); if (q != exp.size()) { fail(string("bom-size:") + encs[a].id, fmt("size query of %s gave %zd expected %zu", hex(in).c_str(), (ssize_t)q, exp.size())); break; } }
        char out[64]; int r = reiconv_convert_static_size(cd, in.data(), in.size(), out, exp.size()); if (r || memcmp(out, exp.data(), exp.size())) { fail(string("bom-oneshot:") + encs[a].id, fmt("conversion %u of %s gave %d [%s] expected [%s]", k, hex(in).c_str(), r, hex(out, exp.size()).c_str(), hex(exp).c_str())); break; }
        le = l2; cnt["oneshot_streams"]++;
    }
    reiconv_handle_close(cd);
}
// generated streams with marks anywhere
static void rnd(u64 i, Rng &g) { auto m = fam(); bool side = g.chance(60); int a = side ? m[g.below(m.size())] : pickenc(g), b = side ? pickenc(g) : m[g.below(m.size())]; string in = geninput(a, b, 40, g); Lock L(a, b, g.chance(30), *gi, *go, "bom"); L.session(in, g); if (!L.bad && g.chance(50)) { in = geninput(a, b, 20, g); L.session(in, g); } }
int main(int c, char **v) { guards(); return rx_main(c, v, {{"seqs", seqs, 400000, 12000000}, {"outm", outm, 200000, 5000000}, {"oneshot", oneshot, 100000, 2000000}, {"rnd", rnd, 300000, 8000000}}); }

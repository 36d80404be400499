// C04: every byte sequence of every character set decodes to what its table says.
#define RX_MAIN
#include "lockmain.hpp"
using namespace rx;
struct Fast {
    int e; reiconv_t cd; u64 n = 0, ok = 0, bad = 0, few = 0; int fails = 0; const Spec &S;
    Fast(int e_) : e(e_), S(specs[e_]) { cd = reiconv_open_from_index(encs[e].idx, ENCODING_UCS4BE, REICONV_NO_FLAGS); }
    ~Fast() { reiconv_handle_close(cd); cnt["sequences"] += n; cnt["defined"] += ok; cnt["refused"] += bad; cnt["incomplete"] += few; }
    void one(const u8 *s, size_t len) {
        if (fails > 3) return; n++; u8 out[128]; char *ip = (char *)s, *op = (char *)out; size_t il = len, ol = 128; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int en = r == (size_t)-1 ? errno : 0; size_t used = (u8 *)ip - s;
        u8 x[128]; size_t xm = 0, p = 0; int xe = 0; DState d; u32 bo = 0;
        while (p < len) { u32 wc; size_t k; auto v = S.dec(d, bo, s + p, len - p, wc, k); if (v == model::CHAR) { Spec::wr(x + xm, wc, 4, false); xm += 4; p += k; continue; } if (v == model::FEW && k) { p += k; continue; } p += k; xe = v == model::BADSEQ ? EILSEQ : EINVAL; break; }
        bool dirty = d.g || d.pend || d.g1 || d.g2 || d.g3; u32 w;
        if (xe == 0 && d.pend) { if (S.flush(d, w)) { Spec::wr(x + xm, w, 4, false); xm += 4; } if (reiconv_iconv(cd, 0, 0, &op, &ol) == (size_t)-1) xe = -1; } else if (dirty) reiconv_iconv(cd, 0, 0, 0, 0);
        size_t made = (u8 *)op - out; if (xe == 0) ok++; else if (xe == EILSEQ) bad++; else few++;
        if (en != xe || used != p || made != xm || memcmp(x, out, xm) || (r != 0 && r != (size_t)-1)) { fails++; fail(fmt("decode:%s", encs[e].id), fmt("%s: expected errno %d used %zu [%s] got errno %d used %zu [%s]", hex(s, len).c_str(), xe, p, hex(x, xm).c_str(), en, used, hex(out, made).c_str())); reiconv_iconv(cd, 0, 0, 0, 0); }
    }
};
// exhaustive over all sequences up to the longest code, by lead byte; for escape encodings: of every designated set
static void sweep(u64 i, Rng &g) {
    int e = i / 256 % encs.size(); u32 a = i % 256; if (is_unicode(e)) return; Fast F(e); const gold::Enc &E = *specs[e].e; const u32 *w = blob.w; u8 s[24];
    if (E.kind == 'E') {
        for (u32 k = 0; k < E.nsets; k++) { u32 n = E.sets[k].prelen; memcpy(s, E.sets[k].pre, n); s[n] = a; F.one(s, n + 1); for (u32 b = 0; b < 256; b++) { s[n + 1] = b; F.one(s, n + 2); if (b % 16 == 1) { s[n + 2] = g.next(); s[n + 3] = g.next(); F.one(s, n + 4); } } }
    } else {
        s[0] = a; F.one(s, 1); const gold::Table &t = blob.tab[E.table]; u32 x = w[t.nodes + a];
        for (u32 b = 0; b < 256; b++) {
            s[1] = b; F.one(s, 2); u32 y = x >> 30 == gold::T_NODE ? w[t.nodes + (x & 0x3fffffff) * 256 + b] : 0;
            if (y >> 30 != gold::T_MORE) { s[2] = g.next(); F.one(s, 3); continue; }
            for (u32 c = 0; c < 256; c++) {
                s[2] = c; F.one(s, 3); u32 key = a << 16 | b << 8 | c;
                if (!std::binary_search(w + t.i3, w + t.i3 + t.ni3, key)) { if (g.chance(3)) { s[3] = g.next(); F.one(s, 4); } continue; }
                for (u32 d = 0; d < 256; d++) { s[3] = d; F.one(s, 4); }
            }
            ctl->beat++;
        }
        if (E.kind == 'P') for (u32 b = 0; b < 256; b++) { s[1] = b; for (u32 c = 0; c < 256; c++) { s[2] = c; F.one(s, 3); } }    // compositions of three
    }
    cnt["tables_swept_lead_bytes"]++; seen(hs({31, i})); if (i % 4099 == 0) sample(fmt("%s: all sequences with lead byte %02x", encs[e].id, a));
}
// strings of sequences: each character decodes independently of its neighbours unless the character set says otherwise
static void text(u64 i, Rng &g) {
    int a; do a = g.chance(60) ? i % encs.size() : pickenc(g); while (is_unicode(a)); string in = geninput(a, a, 30, g, g.chance(50) ? 0 : -1); Lock L(a, g.chance(80) ? idx("ucs4be") : idx("utf8"), false, *gi, *go, "decode"); if (g.chance(60)) L.whole(in); else L.session(in, g); smp(i, 40009, L, in);
}
static void longs(u64 i, Rng &g) { int a; do a = pickenc(g); while (is_unicode(a)); string in = longinput(a, a, 30000 + g.below(90000), g, g.chance(70) ? 0 : 1); Lock L(a, idx("ucs4be"), false, *gi, *go, "decode"); L.longrun(in, g); }
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"sweep", sweep, n * 256, n * 256}, {"text", text, 400000, 12000000}, {"longs", longs, 200, 5000}}); }

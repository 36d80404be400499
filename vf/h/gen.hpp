// Workload generation: repertoires, texts, encoded inputs, mutations, call schedules.
#pragma once
#include "rx.hpp"
namespace rx {
using model::Spec; using model::DState; using model::EState;
struct Seq { u8 n; u8 b[5]; };
struct Rep {                  // what an encoding contains
    vector<u32> chars;        // encodable code points
    vector<Seq> seqs;         // decodable sequences (main table)
    vector<std::pair<u32, u32>> pairs;   // neighbouring code points that interact
    vector<vector<u32>> bypage;
};
inline vector<std::unique_ptr<Rep>> reps;
inline bool is_unicode(int e) { return blob.enc[specs[e].e - blob.enc].kind == 'U'; }
inline const Rep &rep(int e) {
    if (reps.empty()) reps.resize(encs.size());
    if (reps[e]) return *reps[e];
    auto r = std::make_unique<Rep>(); const gold::Enc &g = *specs[e].e; const u32 *w = blob.w;
    if (g.kind != 'U') {
        std::set<u32> all; bool big = false;
        for (int l = 0; l < 4; l++) if (g.inv[l]) {
            const gold::Inv &v = blob.inv[g.inv[l] - 1];
            for (u32 p = 0; p < 0x1100; p++) if (u32 pg = w[v.dir + p]) for (u32 c = 0; c < 256; c++) if (w[v.pages + (pg - 1) * 512 + 2 * c]) { if (l == 0) r->chars.push_back(p << 8 | c); }
        }
        const gold::Table &t = blob.tab[g.table];
        for (u32 a = 0; a < 256; a++) {
            u32 x = w[t.nodes + a];
            if (x >> 30 == gold::T_CHAR) r->seqs.push_back({1, {(u8)a}});
            else if (x >> 30 == gold::T_NODE) for (u32 b = 0; b < 256; b++) { u32 y = w[t.nodes + (x & 0x3fffffff) * 256 + b]; if (y >> 30 == gold::T_CHAR) r->seqs.push_back({2, {(u8)a, (u8)b}}); }
        }
        for (u32 i = 0; i < t.ns3; i++) { u32 k = w[t.s3 + 2 * i]; r->seqs.push_back({3, {(u8)(k >> 16), (u8)(k >> 8), (u8)k}}); }
        for (u32 i = 0; i < t.ns4; i++) { u32 k = w[t.s4 + 2 * i]; r->seqs.push_back({4, {(u8)(k >> 24), (u8)(k >> 16), (u8)(k >> 8), (u8)k}}); }
        for (u32 i = 0; i < g.ncomp; i++) r->pairs.push_back({w[g.comp + 3 * i], w[g.comp + 3 * i + 1]});
        for (u32 i = 0; i < g.npair; i++) r->pairs.push_back({w[g.pair + 4 * i], w[g.pair + 4 * i + 1]});
        // group by 256-blocks so that small scripts get as much weight as the big ideograph blocks
        std::map<u32, vector<u32>> m; for (u32 c : r->chars) m[c >> 8].push_back(c); for (auto &k : m) r->bypage.push_back(k.second);
    }
    reps[e] = std::move(r); return *reps[e];
}
inline u32 anychar(Rng &g) {
    switch (g.below(12)) {
    case 0: case 1: return g.below(0x80); case 2: return g.below(0x250); case 3: return g.below(0x1000); case 4: return 0x2000 + g.below(0x1000); case 5: return 0x4e00 + g.below(0x5200);
    case 6: return 0xac00 + g.below(0x2bff); case 7: return 0xe000 + g.below(0x2000); case 8: return g.below(0x10000); case 9: return 0x20000 + g.below(0xa6e0); case 10: return 0x10000 + g.below(0x100000);
    default: { static const u32 edge[] = {0, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x22, 0x24, 0x40, 0x60}; return edge[g.below(24)]; }
    }
}
inline u32 charof(int e, Rng &g) {
    const Rep &r = rep(e);
    if (r.chars.empty()) { u32 c; do c = anychar(g); while (c >= 0xd800 && c < 0xe000); return c; }
    if (g.chance(50)) return r.chars[g.below(r.chars.size())];
    auto &p = r.bypage[g.below(r.bypage.size())]; return p[g.below(p.size())];
}
inline u32 special(Rng &g) {
    static const u32 s[] = {'\n', '\r', '~', '+', '-', '\\', 'u', '{', '}', ' ', 'A', '/', '=', 0x1b, 0x0e, 0x0f, 0xca, 0xea, 0x304, 0x30c, 0x300, 0x301, 0x309a, 0x304b, 0x30ab, 0x30bb, 0x31f7, 0x2e5, 0x2e9, 0xe6, 0x254, 0x28c, 0x259, 0x25a, 0x5d0, 0x5b7, 0x5bc, 0x5c1, 0x5e9, 0x61, 0x41, 0x302, 0x303, 0x309, 0x323, 0x1b0, 0x1a1, 0xe2, 0x103, 0xa5, 0x203e, 0xff61, 0xff9f, 0x20ac, 0xa3, 0x3b1, 0x4e00, 0x3042, 0xac00, 0xfffd, 0x2015, 0xff5e, 0x301c};
    return s[g.below(sizeof s / sizeof *s)];
}
inline u32 tagchar(Rng &g) { static const u32 t[] = {0x01, 'j', 'a', 'k', 'o', 'z', 'h', 'J', 'A', 'K', 'O', 'Z', 'H', 0x7f, 'x', '-'}; return 0xe0000 | t[g.below(16)]; }
// a text for a conversion from encoding a to encoding b
inline vector<u32> gentext(int a, int b, u32 len, Rng &g, u32 style = 99) {
    vector<u32> t; if (style == 99) style = g.below(6);
    while (t.size() < len) {
        u32 k = g.below(100), c;
        switch (style) {
        case 0: c = charof(b, g); break;                 // all representable
        case 1: c = k < 50 ? charof(b, g) : charof(a, g); break;
        case 2: c = k < 40 ? special(g) : k < 80 ? charof(b, g) : charof(a, g); break;
        case 3: c = k < 10 ? anychar(g) : k < 55 ? charof(a, g) : charof(b, g); break;
        case 4: { auto &p = rep(g.chance(50) ? a : b).pairs; if (!p.empty() && k < 50) { auto q = p[g.below(p.size())]; t.push_back(q.first); if (k < 8) t.push_back(special(g)); c = q.second; } else if (k < 70) c = special(g); else c = charof(b, g); break; }
        default:
            if (k < 8) { t.push_back(0xe0001); static const char *l[] = {"ja", "ko", "zh", "JA", "Ko", "fr", "j", "zz"}; for (const char *p = l[g.below(8)]; *p; p++) t.push_back(0xe0000 | *p); c = charof(b, g); }
            else if (k < 14) c = tagchar(g); else if (k < 40) c = special(g); else c = charof(b, g);
        }
        u32 rpt = g.chance(5) ? g.below(4) + 1 : 1;
        while (rpt--) t.push_back(c);
    }
    return t;
}
// encode with the reference encoder (characters the encoding lacks are left out)
inline string encode(int e, const vector<u32> &t, bool fin = true, vector<u32> *kept = nullptr) {
    EState st; string o; u8 b[64]; u32 n;
    for (u32 c : t) { EState s = st; if (specs[e].enc(s, c, b, n)) { st = s; o.append((char *)b, n); if (kept) kept->push_back(c); } }
    if (fin) { n = specs[e].reset(st, b); o.append((char *)b, n); }
    return o;
}
// bytes that matter to an encoding
inline string token(int e, Rng &g) {
    const Spec &s = specs[e]; auto S = [](std::initializer_list<int> l) { string r; for (int x : l) r += (char)x; return r; };
    switch (s.f) {
    case model::F_ESC: {
        u32 k = g.below(10);
        if (s.ek == Spec::K_HZ) { static const char *t[] = {"~{", "~}", "~~", "~\n", "~", "VPND", "a", "\n", "{", "}"}; return t[k]; }
        if (k < 5) { u32 i = g.below(s.e->nsets); const gold::Set &st = s.e->sets[i]; if (!i) return s.ek == Spec::K_JP || s.ek == Spec::K_JPMS ? "\x1b(B" : "\x0f"; return string(st.pre, st.prelen); }
        if (k == 5) return "\x1b"; if (k == 6) return g.chance(50) ? "\x0e" : "\x0f"; if (k == 7) return g.chance(50) ? "\n" : "\r";
        if (k == 8) { static const char *t[] = {"\x1b$", "\x1b$(", "\x1b(", "\x1b.A", "\x1b.F", "\x1bN", "\x1bO", "\x1b$)", "\x1b$*H", "\x1b$(D", "\x1b$)C", "\x1b(K", "\x1b$)Z", "\x1b.Z", "\x1b$*G", "\x1b$+N", "\x1b$(Z"}; return t[g.below(17)]; }
        return S({(int)(0x21 + g.below(94)), (int)(0x21 + g.below(94))});
    }
    case model::F_UTF7: { static const char *t[] = {"+", "-", "+-", "A", "+AKM-", "+2D3eAA-", "+2D0-", "+3gA-", "+AA", "/", "z", "+2D3", "\\", "~", "+AOkA6Q-", "+,"}; return t[g.below(16)]; }
    case model::F_C99: case model::F_JAVA: { static const char *t[] = {"\\", "\\u", "\\U", "\\u00e9", "\\u4E00", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\U0001f600", "\\u0024", "\\u0041", "\\uGGGG", "\\u12", "\\u123z", "\\\\", "\\uD83D\\u", "\\U0000", "\\U0000d800", "a"}; return t[g.below(19)]; }
    case model::F_UTF8: { static const char *t[] = {"\xc0\x80", "\xe0\x80\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x8f\xbf\xbf", "\xc2", "\xe1\x80", "\xf1\x80\x80", "\x80", "\xff", "\xf5\x80\x80\x80", "\xef\xbf\xbd", "\xf4\x8f\xbf\xbf", "\xfc", "\xef\xbb\xbf", "\xc1\xbf", "\xe0\x9f\xbf", "\xed\x9f\xbf", "\xf8\x88\x80\x80\x80"}; return t[g.below(19)]; }
    case model::F_U2: case model::F_U16: case model::F_U4: case model::F_U32: {
        static const u32 v[] = {0xfeff, 0xfffe, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83d, 0xde00, 0x41, 0x4100, 0xffff, 0x110000, 0x10ffff, 0x7fffffff, 0x80000000, 0xfffe0000, 0xfffe, 0xfeff, 0xffffffff, 0x10000};
        u8 b[4]; Spec::wr(b, v[g.below(20)], s.unit, g.chance(50)); return string((char *)b, s.unit);
    }
    default: {
        const Rep &r = rep(e); auto &q = r.seqs[g.below(r.seqs.size())]; string x((char *)q.b, q.n); u32 k = g.below(4);
        if (k == 0 && q.n > 1) x.resize(g.below(q.n - 1) + 1); if (k == 1) x[x.size() - 1] = g.next(); if (k == 2) x = S({(int)(0x80 + g.below(128))}); return x;
    }
    }
}
inline string mutate(string s, int e, Rng &g, u32 times) {
    while (times--) {
        u32 k = g.below(7); size_t p = s.empty() ? 0 : g.below(s.size() + 1);
        if (k == 0 && p < s.size()) s[p] = g.next(); else if (k == 1 && p < s.size()) s.erase(p, 1 + g.below(3)); else if (k == 2) s.insert(p, 1, (char)g.next());
        else if (k == 3) s.insert(p, token(e, g)); else if (k == 4 && p < s.size()) s[p] ^= 1 << g.below(8); else if (k == 5 && p < s.size()) s.resize(p); else s.insert(p, token(e, g));
    }
    return s;
}
// input bytes for a->b.  mostly valid / with errors / hostile
inline string geninput(int a, int b, u32 len, Rng &g, int dirt = -1) {
    if (dirt < 0) dirt = g.below(4);
    if (dirt == 3) { string s; u32 n = g.below(len) + 1; while (n--) { u32 k = g.below(4); if (k == 0) s += (char)g.next(); else if (k == 1) s += encode(a, {charof(g.chance(50) ? a : b, g)}, g.chance(50)); else s += token(a, g); } return s; }
    if (g.chance(12) && !rep(a).seqs.empty()) { string s; u32 n = g.below(len) + 1; auto &q = rep(a).seqs; while (n--) { auto &x = q[g.below(q.size())]; s.append((char *)x.b, x.n); } if (dirt) s = mutate(s, a, g, dirt); return s; }
    string s = encode(a, gentext(a, b, g.below(len) + 1, g), g.chance(80));
    if (dirt) s = mutate(s, a, g, g.below(dirt == 1 ? 2 : 5) + 1);
    return s;
}
inline bool stateful(int e) { auto f = specs[e].f; return f == model::F_ESC || f == model::F_PEND || f == model::F_HK || f == model::F_UTF7 || ((f == model::F_U16 || f == model::F_U32 || f == model::F_U2 || f == model::F_U4) && specs[e].o == model::O_MARK); }
inline vector<int> statefuls() { static vector<int> v; if (v.empty()) for (size_t i = 0; i < encs.size(); i++) if (stateful(i)) v.push_back(i); return v; }
inline vector<int> multis() { static vector<int> v; if (v.empty()) for (size_t i = 0; i < encs.size(); i++) { auto &g = *specs[i].e; if (g.kind != 'T' || blob.tab[g.table].nnodes > 1) v.push_back(i); } return v; }
// weighted choice: stateful and multibyte encodings more often
inline int pickenc(Rng &g) { u32 k = g.below(100); if (k < 40) { auto v = statefuls(); return v[g.below(v.size())]; } if (k < 70) { auto v = multis(); return v[g.below(v.size())]; } return g.below(encs.size()); }
inline size_t pickcap(Rng &g) { u32 k = g.below(10); if (k < 3) return g.below(8); if (k < 6) return g.below(40); if (k < 8) return g.below(200); return 4000; }
} // namespace rx

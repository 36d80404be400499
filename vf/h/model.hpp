// Executable specification of every encoding (decoder, encoder, flush) and of the conversion loop.
// Independent of the library's code: computed formats are written from their RFCs/standards, everything else
// interprets the committed golden tables.
#pragma once
#include "blob.hpp"
#include <cerrno>
namespace model {
using gold::u8; using gold::u32; using gold::u64; using gold::Blob; using gold::Enc;
enum Verdict { CHAR, BADSEQ, FEW };
struct DState { u32 g = 0, g1 = 0, g2 = 0, g3 = 0, pend = 0; bool operator==(const DState &) const = default; };
struct EState { u32 g = 0, g1 = 0, g2 = 0, g3 = 0, pend = 0, pset = 0, prev = 0, lang = 0, bits = 0; bool operator==(const EState &) const = default; };
enum Fmt { F_TAB, F_PEND, F_HK, F_ESC, F_UTF8, F_U2, F_U4, F_U16, F_U32, F_UTF7, F_C99, F_JAVA };
enum Ord { O_MARK, O_BE, O_LE };
struct Spec {
    const Blob *b = nullptr; const Enc *e = nullptr; Fmt f = F_TAB; Ord o = O_BE; bool wide_any = false; u32 unit = 1;
    const char *id = "";
    bool is(const char *s) const { return !strcmp(id, s); }
    enum EscKind { K_JP, K_JPMS, K_CN, K_KR, K_HZ } ek = K_JP;
    void init(const Blob &bl, const char *name) {
        b = &bl; e = bl.find(name); if (!e) { fprintf(stderr, "no golden for %s\n", name); exit(3); }
        id = e->id;
        switch (e->kind) {
        case 'T': f = F_TAB; return;
        case 'P': f = F_PEND; return;
        case 'H': f = F_HK; return;
        case 'E': f = F_ESC; settwo();
            ek = is("hz") ? K_HZ : is("iso2022_kr") ? K_KR : is("iso2022_jpms") ? K_JPMS : !strncmp(id, "iso2022_cn", 10) ? K_CN : K_JP; return;
        }
        if (is("utf8")) f = F_UTF8; else if (is("utf7")) f = F_UTF7; else if (is("c99")) f = F_C99; else if (is("java")) f = F_JAVA;
        else {
            f = !strncmp(id, "ucs2", 4) ? F_U2 : !strncmp(id, "ucs4", 4) ? F_U4 : !strncmp(id, "utf16", 5) ? F_U16 : F_U32;
            unit = f == F_U2 || f == F_U16 ? 2 : 4;
            const char *s = id + (f == F_U2 || f == F_U4 ? 4 : 5);
            o = !*s ? O_MARK : !strcmp(s, "be") || !strcmp(s, "swapped") ? O_BE : O_LE;   // x86: internal is little-endian
        }
    }
    static u32 rd(const u8 *s, u32 unit, bool le) { u32 v = 0; for (u32 i = 0; i < unit; i++) v |= (u32)s[i] << 8 * (le ? i : unit - 1 - i); return v; }
    static void wr(u8 *r, u32 v, u32 unit, bool le) { for (u32 i = 0; i < unit; i++) r[i] = v >> 8 * (le ? i : unit - 1 - i); }
    static bool sur(u32 w) { return w >= 0xd800 && w < 0xe000; }
    static int hexv(u8 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }

    // One decoding step from state d (byte order bo: 1 = little endian).  k: bytes used (CHAR), bytes of shift
    // sequences before the offending/incomplete unit (BADSEQ, FEW).
    Verdict dec(DState &d, u32 &bo, const u8 *s, size_t n, u32 &wc, size_t &k) const {
        k = 0;
        switch (f) {
        case F_TAB: { u32 v; int r = b->dec(b->tab[e->table], s, n, v); if (r < 0) return FEW; if (!r) return BADSEQ; wc = v & gold::C_WC; k = r; return CHAR; }
        case F_PEND: {
            u32 v; int r = b->dec(b->tab[e->table], s, n, v); if (!r) return BADSEQ;
            u32 c = v & gold::C_WC, z;
            if (d.pend) {
                if (b->compose(*e, d.pend, c, z)) { k = 1; if (z & gold::C_BUF) { d.pend = z & gold::C_WC; return FEW; } d.pend = 0; wc = z; return CHAR; }
                wc = d.pend; d.pend = 0; return CHAR;
            }
            k = 1; if (v & gold::C_BUF) { d.pend = c; return FEW; } wc = c; return CHAR;
        }
        case F_HK: {
            if (d.pend) { wc = d.pend; d.pend = 0; return CHAR; }
            u32 v; int r = b->dec(b->tab[e->table], s, n, v); if (r < 0) return FEW; if (!r) return BADSEQ;
            k = r; if (v & gold::C_PAIR) { const u32 *p = b->w + e->pair + 4 * (v & gold::C_WC); wc = p[0]; d.pend = p[1]; } else wc = v & gold::C_WC;
            return CHAR;
        }
        case F_ESC: return decesc(d, s, n, wc, k);
        case F_UTF8: {
            u8 c = s[0]; if (c < 0x80) { wc = c; k = 1; return CHAR; }
            if (c < 0xc2 || c >= 0xf8) return BADSEQ;
            u32 len = c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; if (n < len) return FEW;
            u32 v = c & (0xff >> (len + 1)); for (u32 i = 1; i < len; i++) { if ((s[i] & 0xc0) != 0x80) return BADSEQ; v = v << 6 | (s[i] & 0x3f); }
            static const u32 minv[5] = {0, 0, 0x80, 0x800, 0x10000};
            if (v < minv[len] || v >= 0x110000 || sur(v)) return BADSEQ;
            wc = v; k = len; return CHAR;
        }
        case F_U2: case F_U4: case F_U16: case F_U32: {
            size_t i = 0; u32 mark = 0xfeff, swapped = unit == 2 ? 0xfffe : 0xfffe0000;
            for (; n - i >= unit; i += unit) {
                u32 v = rd(s + i, unit, o == O_MARK ? bo : o == O_LE);
                if (o == O_MARK) { if (v == mark) continue; if (v == swapped) { bo ^= 1; continue; } }
                k = i;
                if (f == F_U2) { if (sur(v)) return BADSEQ; }
                if (f == F_U4) { if (o == O_MARK && v > 0x7fffffff) return BADSEQ; }
                if (f == F_U32) { if (sur(v) || v >= 0x110000) return BADSEQ; }
                if (f == F_U16) {
                    if (v >= 0xdc00 && v < 0xe000) return BADSEQ;
                    if (sur(v)) {
                        if (n - i < 4) return FEW;
                        u32 v2 = rd(s + i + 2, 2, o == O_MARK ? bo : o == O_LE); if (v2 < 0xdc00 || v2 >= 0xe000) return BADSEQ;
                        wc = 0x10000 + ((v - 0xd800) << 10) + (v2 - 0xdc00); k = i + 4; return CHAR;
                    }
                }
                wc = v; k = i + unit; return CHAR;
            }
            k = i; return FEW;
        }
        case F_UTF7: return dec7(d, s, n, wc, k);
        case F_C99: {
            u8 c = s[0]; if (c >= 0xa0) return BADSEQ; if (c != '\\') { wc = c; k = 1; return CHAR; }
            if (n < 2) return FEW;
            u32 dg = s[1] == 'u' ? 4 : s[1] == 'U' ? 8 : 0; if (!dg) { wc = '\\'; k = 1; return CHAR; }
            u32 v = 0; for (u32 i = 2; i < 2 + dg; i++) { if (n <= i) return FEW; int h = hexv(s[i]); if (h < 0) { wc = '\\'; k = 1; return CHAR; } v = v << 4 | h; }
            if ((v >= 0xa0 && !sur(v)) || v == 0x24 || v == 0x40 || v == 0x60) { wc = v; k = 2 + dg; return CHAR; }
            return BADSEQ;
        }
        case F_JAVA: {
            auto lit = [&] { wc = '\\'; k = 1; return CHAR; };
            u8 c = s[0]; if (c != '\\') { wc = c; k = 1; return CHAR; }
            if (n < 2) return FEW; if (s[1] != 'u') return lit();
            u32 v = 0; for (u32 i = 2; i < 6; i++) { if (n <= i) return FEW; int h = hexv(s[i]); if (h < 0) return lit(); v = v << 4 | h; }
            if (!sur(v)) { wc = v; k = 6; return CHAR; }
            if (v >= 0xdc00) return lit();
            if (n < 7) return FEW; if (s[6] != '\\') return lit(); if (n < 8) return FEW; if (s[7] != 'u') return lit();
            u32 w = 0; for (u32 i = 8; i < 12; i++) { if (n <= i) return FEW; int h = hexv(s[i]); if (h < 0) return lit(); w = w << 4 | h; }
            if (w < 0xdc00 || w >= 0xe000) return lit();
            wc = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); k = 12; return CHAR;
        }
        }
        return BADSEQ;
    }
    static int b64(u8 c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
    static bool direct(u32 c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || (c && c < 128 && strchr("'(),-./:? \t\n\r", c)); }
    static bool xdirect(u32 c) { return direct(c) || (c && c < 128 && strchr("!\"#$%&*;<=>@[]^_`{|}", c)); }
    // UTF-7 decoder state: g = 1 inside base64; g1 = number of leftover bits (0, 2, 4), g2 = their value
    Verdict dec7(DState &d, const u8 *s, size_t n, u32 &wc, size_t &k) const {
        size_t i = 0;
        for (;;) {
            if (!d.g) {
                if (n - i < 1) { k = i; return FEW; }
                u8 c = s[i];
                if (xdirect(c)) { wc = c; k = i + 1; return CHAR; }
                if (c != '+') { k = i; return BADSEQ; }
                if (n - i < 2) { k = i; return FEW; }
                if (s[i + 1] == '-') { wc = '+'; k = i + 2; return CHAR; }
                i++; d.g = 1; d.g1 = d.g2 = 0;
            }
            // inside base64: gather 16 (or 32 for a surrogate pair) bits
            u64 acc = d.g2; u32 nb = d.g1, need = 16; size_t j = i; bool again = false;
            for (;;) {
                int v = b64(s[j]);
                if (v < 0) {
                    if (j > i || d.g2) { k = i; return BADSEQ; }
                    if (s[j] == '-') i++;
                    d = DState(); again = true; break;
                }
                acc = acc << 6 | v; nb += 6; j++;
                if (nb >= need) {
                    u32 hi = (acc >> (nb - 16)) & 0xffff;
                    if (need == 16 && hi >= 0xd800 && hi < 0xdc00) need = 32; else break;
                }
                if (j >= n) { k = i; return FEW; }
            }
            if (again) continue;
            u32 left = nb - need;
            if (need == 16) { u32 v = (acc >> left) & 0xffff; if (sur(v)) { k = i; return BADSEQ; } wc = v; }
            else { u32 h = (acc >> (left + 16)) & 0xffff, l = (acc >> left) & 0xffff; if (l < 0xdc00 || l >= 0xe000) { k = i; return BADSEQ; } wc = 0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00); }
            d.g1 = left; d.g2 = acc & ((1u << left) - 1); k = j; return CHAR;
        }
    }
    u32 setno(const char *pre, u32 len) const { for (u32 i = 0; i < e->nsets; i++) if (e->sets[i].prelen == len && !memcmp(e->sets[i].pre, pre, len)) return i; return ~0u; }
    // find the set whose selecting bytes start with the escape at s (len bytes)
    u32 setstarting(const u8 *s, u32 len) const { for (u32 i = 1; i < e->nsets; i++) if (e->sets[i].prelen >= len && !memcmp(e->sets[i].pre, s, len)) return i; return 0; }
    bool two_[16] = {};
    bool two(u32 set) const { return two_[set]; }
    void settwo() { for (u32 s = 0; s < e->nsets; s++) { two_[s] = true; u32 t = b->tab[e->sets[s].table].nodes; for (int i = 0x21; i < 0x7f; i++) if (b->w[t + i] >> 30 == gold::T_CHAR) two_[s] = false; } }
    Verdict fromset(u32 set, DState &d, const u8 *s, size_t n, size_t at, u32 &wc, size_t &k, size_t skip, bool istwo) const {
        // character of `set` at s[at+skip..]; consumed ends after it
        u32 w = istwo ? 2 : 1; k = at;
        if (n - at < skip + w) return FEW;
        u32 v; const u8 *p = s + at + skip;
        for (u32 i = 0; i < w; i++) if (p[i] >= 0x80) return BADSEQ;
        int r = b->dec(b->tab[e->sets[set].table], p, w, v); if (r != (int)w) return BADSEQ;
        if (v & gold::C_PAIR) { const u32 *q = b->w + e->pair + 4 * (v & gold::C_WC); wc = q[0]; d.pend = q[1]; } else wc = v & gold::C_WC;
        k = at + skip + w; return CHAR;
    }
    Verdict decesc(DState &d, const u8 *s, size_t n, u32 &wc, size_t &k) const {
        size_t i = 0; const u8 ESC = 0x1b;
        if (d.pend) { wc = d.pend; d.pend = 0; k = 0; return CHAR; }
        for (;;) {
            u8 c = s[i]; size_t m = n - i; size_t adv = 0;
            if (ek == K_HZ) {
                if (c == '~') {
                    if (m < 2) { k = i; return FEW; }
                    u8 c2 = s[i + 1];
                    if (!d.g && c2 == '~') { wc = '~'; k = i + 2; return CHAR; }
                    if (!d.g && c2 == '{') d.g = 1, adv = 2; else if (!d.g && c2 == '\n') adv = 2; else if (d.g && c2 == '}') d.g = 0, adv = 2; else { k = i; return BADSEQ; }
                }
            } else if (ek == K_CN || ek == K_KR) {
                if (c == ESC) {
                    if (m < 4) { k = i; return FEW; }
                    const u8 *p = s + i; u32 st = setstarting(p, 4);
                    if (p[1] == '$' && st) { if (p[2] == ')') d.g1 = st; else if (p[2] == '*') d.g2 = st; else d.g3 = st; adv = 4; }
                    else if (p[1] == 'N' && ek == K_CN && d.g2) return fromset(d.g2, d, s, n, i, wc, k, 2, true);
                    else if (p[1] == 'O' && ek == K_CN && d.g3) return fromset(d.g3, d, s, n, i, wc, k, 2, true);
                    else { k = i; return BADSEQ; }
                } else if (c == 0x0e) { if (!d.g1) { k = i; return BADSEQ; } d.g = 1; adv = 1; }
                else if (c == 0x0f) { d.g = 0; adv = 1; }
            } else {
                if (c == ESC) {
                    if (m < 3) { k = i; return FEW; }
                    const u8 *p = s + i; u32 L = p[1] == '$' && p[2] == '(' ? 4 : 3;
                    if (L == 4 && (is("iso2022_jp"))) { k = i; return BADSEQ; }
                    if (m < L) { k = i; return FEW; }
                    if (p[1] == '(' && p[2] == 'B') d.g = 0, adv = 3;
                    else if (p[1] == 'N' && d.g2) return fromset(d.g2, d, s, n, i, wc, k, 2, false);
                    else {
                        u32 st = setstarting(p, L); if (!st) { k = i; return BADSEQ; }
                        if (p[1] == '.') d.g2 = st; else d.g = st;
                        adv = L;
                    }
                } else if (ek == K_JPMS && (c == 0x0e || c == 0x0f)) {
                    static const u8 R[] = {0x1b, '(', 'J'}, K[] = {0x1b, '(', 'I'};
                    u32 r = setstarting(R, 3), ka = setstarting(K, 3);
                    if (c == 0x0e && d.g == r) d.g = ka; else if (c == 0x0f && d.g == ka) d.g = r;
                    adv = 1;
                }
            }
            if (!adv) break;
            i += adv; if (i >= n) { k = i; return FEW; }
        }
        u8 c = s[i];
        if (ek == K_CN || ek == K_KR) {
            if (d.g) return fromset(d.g1, d, s, n, i, wc, k, 0, true);
            k = i; if (c >= 0x80) return BADSEQ;
            wc = c; k = i + 1; if (ek == K_CN && (c == '\n' || c == '\r')) d.g1 = d.g2 = d.g3 = 0; return CHAR;
        }
        if (ek == K_HZ) { if (d.g) return fromset(1, d, s, n, i, wc, k, 0, true); k = i; if (c >= 0x80) return BADSEQ; wc = c; k = i + 1; return CHAR; }
        if (!d.g) { k = i; if (c >= 0x80) return BADSEQ; wc = c; k = i + 1; }
        else { Verdict v = fromset(d.g, d, s, n, i, wc, k, 0, two(d.g)); if (v != CHAR) return v; }
        if ((wc == '\n' || wc == '\r')) d.g2 = 0;
        return CHAR;
    }
    // pending character at the end of a stream
    bool flush(DState &d, u32 &wc) const { if (!d.pend) return false; wc = d.pend; d.pend = 0; return true; }

    // ---- encoding: new state and bytes; false = not representable
    bool enc(EState &st, u32 wc, u8 *r, u32 &len) const {
        len = 0;
        switch (f) {
        case F_TAB: case F_PEND: { u32 hi, lo; if (!b->encode(b->inv[e->inv[0] - 1], wc, hi, lo)) return false; len = hi & 0x7f; put(r, lo, len); return true; }
        case F_HK: {
            if (st.pend) { if (const u32 *p = b->pairof(*e, st.pend, wc)) { len = 2; put(r, p[3], 2); st.pend = 0; return true; } }
            u32 hi, lo; if (!b->encode(b->inv[e->inv[0] - 1], wc, hi, lo)) return false;
            if (st.pend) { u32 h2, l2; b->encode(b->inv[e->inv[0] - 1], st.pend, h2, l2); len = h2 & 0x7f; put(r, l2, len); st.pend = 0; }
            if (hi & gold::I_BUF) { st.pend = wc; return true; }
            put(r + len, lo, hi & 0x7f); len += hi & 0x7f; return true;
        }
        case F_ESC: return encesc(st, wc, r, len);
        case F_UTF8: if (sur(wc) || wc >= 0x110000) return false;
            if (wc < 0x80) r[len++] = wc; else if (wc < 0x800) r[len++] = 0xc0 | wc >> 6, r[len++] = 0x80 | (wc & 63);
            else if (wc < 0x10000) r[len++] = 0xe0 | wc >> 12, r[len++] = 0x80 | (wc >> 6 & 63), r[len++] = 0x80 | (wc & 63);
            else r[len++] = 0xf0 | wc >> 18, r[len++] = 0x80 | (wc >> 12 & 63), r[len++] = 0x80 | (wc >> 6 & 63), r[len++] = 0x80 | (wc & 63);
            return true;
        case F_U2: if (wc >= 0x10000 || sur(wc) || (o == O_MARK && wc == 0xfffe)) return false; wr(r, wc, 2, o == O_LE); len = 2; return true;
        case F_U4: if (o == O_MARK && wc > 0x7fffffff) return false; wr(r, wc, 4, o == O_LE); len = 4; return true;
        case F_U16: case F_U32: {
            if (wc >= 0x110000 || sur(wc) || (f == F_U16 && o == O_MARK && wc == 0xfffe)) return false;
            if (o == O_MARK && !st.g) { wr(r, 0xfeff, unit, false); len = unit; st.g = 1; }
            if (f == F_U32) { wr(r + len, wc, 4, o == O_LE); len += 4; }
            else if (wc < 0x10000) { wr(r + len, wc, 2, o == O_LE); len += 2; }
            else { wr(r + len, 0xd800 + ((wc - 0x10000) >> 10), 2, o == O_LE); wr(r + len + 2, 0xdc00 + ((wc - 0x10000) & 0x3ff), 2, o == O_LE); len += 4; }
            return true;
        }
        case F_UTF7: {
            if (wc >= 0x110000 || sur(wc)) return false;
            if (direct(wc)) {
                if (st.g) { if (st.g1) { r[len++] = b64c(st.bits << (6 - st.g1)); } if (b64(wc) >= 0 || wc == '-') r[len++] = '-'; st.g = st.g1 = st.bits = 0; }
                r[len++] = wc; return true;
            }
            if (!st.g) { r[len++] = '+'; if (wc == '+') { r[len++] = '-'; return true; } st.g = 1; st.g1 = st.bits = 0; }
            u64 acc = st.bits; u32 nb = st.g1;
            if (wc < 0x10000) acc = acc << 16 | wc, nb += 16;
            else acc = acc << 32 | (u64)(0xd800 + ((wc - 0x10000) >> 10)) << 16 | (0xdc00 + ((wc - 0x10000) & 0x3ff)), nb += 32;
            while (nb >= 6) { r[len++] = b64c(acc >> (nb - 6) & 63); nb -= 6; }
            st.g1 = nb; st.bits = acc & ((1u << nb) - 1); return true;
        }
        case F_C99:
            if (wc < 0xa0) { r[len++] = wc; return true; }
            if (sur(wc)) return false;
            len = sprintf((char *)r, wc < 0x10000 ? "\\u%04x" : "\\U%08x", wc); return true;
        case F_JAVA:
            if (wc < 0x80) { r[len++] = wc; return true; }
            if (sur(wc) || wc >= 0x110000) return false;
            if (wc < 0x10000) len = sprintf((char *)r, "\\u%04x", wc);
            else len = sprintf((char *)r, "\\u%04x\\u%04x", 0xd800 + ((wc - 0x10000) >> 10), 0xdc00 + ((wc - 0x10000) & 0x3ff));
            return true;
        }
        return false;
    }
    static u8 b64c(u32 v) { return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[v & 63]; }
    static void put(u8 *r, u32 lo, u32 len) { for (u32 i = 0; i < len; i++) r[i] = lo >> (24 - 8 * i); }
    static void add(u8 *r, u32 &len, const char *s, u32 n) { memcpy(r + len, s, n); len += n; }
    bool encesc(EState &st, u32 wc, u8 *r, u32 &len) const {
        bool jp2 = is("iso2022_jp2"); EState s = st; len = 0;
        if (jp2 && wc >> 7 == 0xe0000 >> 7) {         // language tags: 4 = tag opened, 5/6/7 = first letter seen
            u32 c = wc & 0x7f; if (c >= 'A' && c <= 'Z') c |= 0x20;
            static const char *pairs[3] = {"ja", "ko", "zh"}; u32 nl = st.lang >= 4 ? 0 : st.lang;
            if (c == 1) nl = 4; else if (c == 0x7f) nl = 0;
            else for (u32 i = 0; i < 3; i++) { if (st.lang == 4 && c == (u8)pairs[i][0]) nl = 5 + i; if (st.lang == 5 + i && c == (u8)pairs[i][1]) nl = 1 + i; }
            st.lang = nl; return true;
        }
        if (s.lang >= 4) s.lang = 0;
        u32 hi, lo;
        if (s.pend) {                                   // ISO-2022-JP-3 kept-back base character
            if (const u32 *p = b->pairof(*e, s.pend, wc)) {
                u32 set = p[2] >> 8;
                if (s.pset != set) { add(r, len, e->sets[set].pre, e->sets[set].prelen); }
                s.g = set; u8 t[4]; put(t, p[3], 2); add(r, len, (char *)t, 2); s.pend = 0; s.pset = s.prev = 0; st = s; return true;
            }
        }
        if (!b->encode(b->inv[e->inv[jp2 ? s.lang : 0] - 1], wc, hi, lo)) return false;
        if (s.pend) { emitpend(s, r, len); }
        u32 set = hi >> 8, n = hi & 0x7f; u8 t[4]; put(t, lo, n);
        switch (ek) {
        case K_HZ:
            if (set != s.g) { add(r, len, set ? "~{" : "~}", 2); s.g = set; }
            add(r, len, (char *)t, n); break;
        case K_CN: case K_KR: {
            if (!set) { if (s.g) { r[len++] = 0x0f; s.g = 0; } r[len++] = t[0]; if (wc == '\n' || wc == '\r') s.g1 = s.g2 = s.g3 = 0; break; }
            const char *pre = e->sets[set].pre; u32 &slot = pre[2] == ')' ? s.g1 : pre[2] == '*' ? s.g2 : s.g3;
            if (slot != set) { add(r, len, pre, 4); slot = set; }
            if (pre[2] == ')') { if (!s.g) { r[len++] = 0x0e; s.g = 1; } }
            else { r[len++] = 0x1b; r[len++] = pre[2] == '*' ? 'N' : 'O'; }
            add(r, len, (char *)t, n); break;
        }
        default: {
            const char *pre = e->sets[set].pre; u32 pl = e->sets[set].prelen;
            if (pl > 1 && pre[1] == '.') { if (s.g2 != set) { add(r, len, pre, 3); s.g2 = set; } r[len++] = 0x1b; r[len++] = 'N'; add(r, len, (char *)t, n); break; }
            if (hi & gold::I_BUF) {
                // a base of a composed JIS X 0213 character: kept back
                bool p1 = pl == 4; s.prev = s.g;
                if (p1 && s.g != set) { add(r, len, pre, pl); s.prev = set; }
                s.g = set; s.pset = set; s.pend = wc; break;
            }
            if (s.g != set) { if (set) add(r, len, pre, pl); else add(r, len, "\x1b(B", 3); s.g = set; }
            add(r, len, (char *)t, n);
            if (wc == '\n' || wc == '\r') s.g2 = 0;
        }
        }
        st = s; return true;
    }
    void emitpend(EState &s, u8 *r, u32 &len) const {
        u32 hi, lo; b->encode(b->inv[e->inv[0] - 1], s.pend, hi, lo); u8 t[4]; put(t, lo, 2);
        if (s.prev != s.pset) add(r, len, e->sets[s.pset].pre, e->sets[s.pset].prelen);
        add(r, len, (char *)t, 2); s.pend = s.pset = s.prev = 0;
    }
    // bytes that end the stream
    u32 reset(const EState &st0, u8 *r) const {
        u32 len = 0; EState st = st0;
        if (f == F_HK && st.pend) { u32 h, l; b->encode(b->inv[e->inv[0] - 1], st.pend, h, l); put(r, l, h & 0x7f); return h & 0x7f; }
        if (f == F_UTF7 && st.g) { if (st.g1) r[len++] = b64c(st.bits << (6 - st.g1)); r[len++] = '-'; return len; }
        if (f == F_ESC) {
            if (st.pend) emitpend(st, r, len);
            if (st.g) { if (ek == K_HZ) add(r, len, "~}", 2); else if (ek == K_CN || ek == K_KR) r[len++] = 0x0f; else add(r, len, "\x1b(B", 3); }
        }
        return len;
    }
};
struct Res { size_t ret = 0; int en = 0; size_t used = 0, made = 0; };
// The conversion loop specification, run in lockstep with the real call (only used to resolve the points where the
// contract leaves a choice: a full output buffer may be reported before a character that needs no room).
struct Conv {
    const Spec *i, *o; bool discard; DState ds; EState es; u32 bo = 0;
    u64 nchar = 0, nsub = 0, ndrop = 0, nskip = 0;
    Conv(const Spec &a, const Spec &b, bool d) : i(&a), o(&b), discard(d) {}
    // 0 = written, 1 = dropped (not counted), 2 = substituted/dropped and counted, 3 = no room, 4 = refused
    int emit(u32 wc, size_t room, bool maystop, u8 *out, size_t &made) {
        u8 buf[64]; u32 len; EState n = es;
        if (room == 0 && maystop) return 3;
        int kind = 0; bool ok = o->enc(n, wc, buf, len);
        if (!ok) {
            if (maystop && room < 24) return 3;
            if (wc >> 7 == 0xe0000 >> 7) return 1;
            kind = 2; n = es;
            if (discard) { len = 0; } else if (!o->enc(n, 0xfffd, buf, len)) return 4;
        }
        if (len > room) return 3;
        memcpy(out + made, buf, len); made += len; es = n; return kind;
    }
    static bool same(const Res &x, const Res &y) { return x.ret == y.ret && (x.ret != (size_t)-1 || x.en == y.en) && x.used == y.used && x.made == y.made; }
    Res convert(const u8 *in, size_t n, size_t cap, const Res *real, u8 *out) { return convert1(in, n, cap, real, out); }
    Res flush(size_t cap, const Res *real, u8 *out) { return flush1(cap, real, out); }
    bool eq(const Conv &c) const { return ds == c.ds && es == c.es && bo == c.bo; }
    Res convert1(const u8 *in, size_t n, size_t cap, const Res *real, u8 *out) {
        Res r; size_t &p = r.used;
        auto fail = [&](int e) { r.ret = (size_t)-1; r.en = e; return r; };
        while (p < n) {
            DState save = ds; u32 wc = 0; size_t k;
            Verdict v = i->dec(ds, bo, in + p, n - p, wc, k);
            if (v == BADSEQ) { if (discard) { p += k + i->unit; nskip++; continue; } p += k; return fail(EILSEQ); }
            if (v == FEW) { if (!k) return fail(EINVAL); p += k; continue; }
            bool may = real && real->ret == (size_t)-1 && real->en == E2BIG && real->used == p && real->made == r.made;
            int q = emit(wc, cap - r.made, may, out, r.made);
            if (q == 3) { ds = save; return fail(E2BIG); }
            if (q == 4) { ds = save; return fail(EILSEQ); }
            if (q == 2) { r.ret++; if (discard) ndrop++; else nsub++; }
            nchar++; p += k;
        }
        return r;
    }
    Res flush1(size_t cap, const Res *real, u8 *out) {
        Res r; u32 wc; DState save = ds;
        auto fail = [&](int e) { r.ret = (size_t)-1; r.en = e; return r; };
        if (i->flush(ds, wc)) {
            bool may = real && real->ret == (size_t)-1 && real->en == E2BIG && real->made == 0;
            int q = emit(wc, cap, may, out, r.made);
            if (q == 3) { ds = save; return fail(E2BIG); }
            if (q == 4) { ds = save; return fail(EILSEQ); }
            if (q == 2) r.ret++;
        }
        u8 buf[64]; u32 len = o->reset(es, buf);
        if (len > cap - r.made) return fail(E2BIG);
        memcpy(out + r.made, buf, len); r.made += len; ds = DState(); es = EState(); return r;
    }
    void zero() { ds = DState(); es = EState(); }
};
// The contract leaves one choice: a full (or nearly full) buffer may be reported before a character that turns out to need
// no room.  The monitor therefore tracks every state the descriptor can be in that agrees with all calls so far.
struct Track {
    std::vector<Conv> c; std::vector<u8> out, out2;
    Track(const Spec &a, const Spec &b, bool d) { c.emplace_back(a, b, d); }
    template <class F> bool step(const Res &real, const u8 *ro, size_t cap, Res &exp, F f) {
        if (out.size() < cap + 128) out.resize(cap + 128), out2.resize(cap + 128);
        bool e2 = real.ret == (size_t)-1 && real.en == E2BIG; bool first = true;
        if (c.size() == 1 && !e2) { exp = f(c[0], nullptr, out.data()); return Conv::same(exp, real) && !memcmp(ro, out.data(), exp.made); }
        std::vector<Conv> nx;
        for (auto &k : c) for (int h = 0; h < (e2 ? 2 : 1); h++) {
            Conv t = k; u8 *o = first ? out.data() : out2.data(); Res r = f(t, h ? &real : nullptr, o); if (first) exp = r, first = false;
            if (!Conv::same(r, real) || memcmp(ro, o, r.made)) continue;
            bool dup = false; for (auto &z : nx) if (z.eq(t)) dup = true;
            if (!dup) nx.push_back(t);
        }
        if (nx.empty()) return false;
        c = nx; return true;
    }
    bool convert(const u8 *in, size_t n, size_t cap, const Res &real, const u8 *ro, Res &exp) { return step(real, ro, cap, exp, [&](Conv &k, const Res *h, u8 *o) { return k.convert(in, n, cap, h, o); }); }
    bool flush(size_t cap, const Res &real, const u8 *ro, Res &exp) { return step(real, ro, cap, exp, [&](Conv &k, const Res *h, u8 *o) { return k.flush(cap, h, o); }); }
    void zero() { for (auto &k : c) k.zero(); std::vector<Conv> n; for (auto &k : c) { bool d = false; for (auto &z : n) if (z.eq(k)) d = true; if (!d) n.push_back(k); } c = n; }
};
} // namespace model

// Golden tables: mmapped read-only blob (decompressed from golden/tables.bin.xz by the runner).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
namespace gold {
typedef uint32_t u32; typedef uint8_t u8; typedef uint64_t u64;
// trie entry: top 2 bits 0: undefined, 1: char (low 30 bits), 2: child node, 3: incomplete, look in s3/i3/s4
enum { T_BAD = 0, T_CHAR = 1, T_NODE = 2, T_MORE = 3 };
enum : u32 { C_PAIR = 0x200000, C_BUF = 0x400000, C_WC = 0x1fffff };   // flags inside a char entry
struct Table {            // byte sequence -> code point(s); one per encoding, one per G-set of escape encodings
    u32 nodes, nnodes;    // offset (in u32) of nnodes*256 entries, node 0 = first byte
    u32 s3, ns3;          // sorted (key,val) pairs, 3-byte sequences
    u32 i3, ni3;          // sorted keys, incomplete 3-byte prefixes
    u32 s4, ns4;          // sorted (key,val) pairs, 4-byte sequences
};
struct Inv {              // code point -> bytes: 0x1100 page numbers (0 = empty), pages of 256*2 u32 (hi: g<<8|flags|len, lo: bytes)
    u32 dir, pages, npages;
};
enum : u32 { I_BUF = 0x80 };   // encoder keeps this character back (may combine with the next)
struct Set { char pre[12]; u32 prelen; u32 table; };  // G-set: bytes that select it, table number
struct Enc {
    char id[24];
    u32 kind;              // 'T' table, 'P' compose-on-decode, 'H' two-char sequences, 'E' escapes, 'U' computed
    u32 table;             // table number
    u32 inv[4];            // inverse number (+1; 0 = none); escapes with languages use up to 4
    u32 comp, ncomp;       // decode compositions: triples (a, b, composed|C_BUF)
    u32 pair, npair;       // two-char decode results / encoder compositions: (wc1, wc2, hi, lo)
    u32 nsets; Set sets[16];
};
struct Hdr { char magic[8]; u32 nenc, ntab, ninv; u32 enc_off, tab_off, inv_off, nwords; };
struct Blob {
    const u32 *w = nullptr; const Hdr *h = nullptr; const Enc *enc = nullptr; const Table *tab = nullptr; const Inv *inv = nullptr;
    bool load(const char *path) {
        int fd = open(path, O_RDONLY); if (fd < 0) return false;
        struct stat st; fstat(fd, &st);
        void *p = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0); close(fd);
        if (p == MAP_FAILED) return false;
        attach((const u32 *)p); return memcmp(h->magic, "RXGOLD1", 8) == 0;
    }
    void attach(const u32 *p) {
        w = p; h = (const Hdr *)p; enc = (const Enc *)(w + h->enc_off); tab = (const Table *)(w + h->tab_off); inv = (const Inv *)(w + h->inv_off);
    }
    const Enc *find(const char *id) const { for (u32 i = 0; i < h->nenc; i++) if (!strcmp(enc[i].id, id)) return enc + i; return nullptr; }
    // decode one sequence: returns consumed length >0 with val, 0 = undefined, -1 = incomplete
    int dec(const Table &t, const u8 *s, size_t n, u32 &val) const {
        u32 e = w[t.nodes + s[0]];
        switch (e >> 30) { case T_BAD: return 0; case T_CHAR: val = e & 0x3fffffff; return 1; default: break; }
        if (n < 2) return -1;
        e = w[t.nodes + (e & 0x3fffffff) * 256 + s[1]];
        switch (e >> 30) { case T_BAD: return 0; case T_CHAR: val = e & 0x3fffffff; return 2; default: break; }
        if (n < 3) return -1;
        u32 k = s[0] << 16 | s[1] << 8 | s[2];
        if (pairfind(t.s3, t.ns3, k, val)) return 3;
        if (!std::binary_search(w + t.i3, w + t.i3 + t.ni3, k)) return 0;
        if (n < 4) return -1;
        if (pairfind(t.s4, t.ns4, k << 8 | s[3], val)) return 4;
        return 0;
    }
    bool pairfind(u32 off, u32 n, u32 key, u32 &val) const {
        u32 lo = 0, hi = n;
        while (lo < hi) { u32 m = (lo + hi) / 2; if (w[off + 2 * m] < key) lo = m + 1; else hi = m; }
        if (lo < n && w[off + 2 * lo] == key) { val = w[off + 2 * lo + 1]; return true; }
        return false;
    }
    bool encode(const Inv &v, u32 wc, u32 &hi, u32 &lo) const {
        if (wc >= 0x110000) return false;
        u32 pg = w[v.dir + (wc >> 8)]; if (!pg) return false;
        const u32 *p = w + v.pages + (pg - 1) * 512 + (wc & 255) * 2;
        hi = p[0]; lo = p[1]; return hi != 0;
    }
    bool compose(const Enc &e, u32 a, u32 b, u32 &c) const {
        for (u32 i = 0; i < e.ncomp; i++) { const u32 *p = w + e.comp + 3 * i; if (p[0] == a && p[1] == b) { c = p[2]; return true; } }
        return false;
    }
    const u32 *pairof(const Enc &e, u32 a, u32 b) const {
        for (u32 i = 0; i < e.npair; i++) { const u32 *p = w + e.pair + 4 * i; if (p[0] == a && p[1] == b) return p; }
        return nullptr;
    }
};
} // namespace gold

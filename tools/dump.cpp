// One-off: records golden tables from the (repaired) pinned tree through the public API.
// The result is cross-checked against independent sources by tools/xcheck.py before being committed.
#include <cppp/reiconv.h>
#include <cppp/encodings/reiconv.h>
#include <cerrno>
#include <map>
#include <set>
#include "blob.hpp"
using namespace gold; using std::vector; using std::string;
struct E0 { const char *id, *cn; int idx; vector<const char *> names; vector<int> cps; };
static vector<E0> encs = {
#include "encs.inc"
};
struct R { bool err; int en; size_t used; vector<u32> pre, post; };   // chars before/after flush
static reiconv_t D;
static R dec(const string &s) {
    R r{}; reiconv_iconv(D, 0, 0, 0, 0);
    char out[256]; char *ip = (char *)s.data(), *op = out; size_t il = s.size(), ol = sizeof out;
    size_t k = reiconv_iconv(D, &ip, &il, &op, &ol);
    r.err = k == (size_t)-1; r.en = r.err ? errno : 0; r.used = s.size() - il;
    auto get = [&](char *a, char *b) { vector<u32> v; for (; a < b; a += 4) { u8 *p = (u8 *)a; v.push_back(p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]); } return v; };
    r.pre = get(out, op); char *o2 = op;
    if (reiconv_iconv(D, 0, 0, &op, &ol) == (size_t)-1) abort();
    r.post = get(o2, op); return r;
}
static vector<u32> W; static vector<Table> tabs; static vector<Inv> invs;
static std::map<vector<u32>, u32> tabdedup, invdedup;
struct Raw { vector<u32> nodes, s3, i3, s4; };
static u32 addtab(Raw &r) {
    vector<u32> key = r.nodes; key.push_back(~0u); key.insert(key.end(), r.s3.begin(), r.s3.end()); key.push_back(~0u);
    key.insert(key.end(), r.i3.begin(), r.i3.end()); key.push_back(~0u); key.insert(key.end(), r.s4.begin(), r.s4.end());
    auto it = tabdedup.find(key); if (it != tabdedup.end()) return it->second;
    Table t; auto put = [&](vector<u32> &v) { u32 o = W.size(); W.insert(W.end(), v.begin(), v.end()); return o; };
    t.nnodes = r.nodes.size() / 256; t.nodes = put(r.nodes); t.ns3 = r.s3.size() / 2; t.s3 = put(r.s3); t.ni3 = r.i3.size(); t.i3 = put(r.i3); t.ns4 = r.s4.size() / 2; t.s4 = put(r.s4);
    tabs.push_back(t); return tabdedup[key] = tabs.size() - 1;
}
static vector<u32> *pairs; // for two-char results
// probe: pre + bytes; returns entry or flags
static u32 entry(const string &pre, const string &b, bool &inc, size_t flushed_extra = 0) {
    R r = dec(pre + b); inc = false;
    if (r.err && r.en == EINVAL) { inc = true; return 0; }
    if (r.err) return 0;
    if (r.used != pre.size() + b.size()) abort();
    vector<u32> all = r.pre; all.insert(all.end(), r.post.begin(), r.post.end());
    if (all.empty()) return 0;     // shift only
    if (all.size() == 1) return 1u << 30 | all[0] | (r.pre.empty() ? C_BUF : 0);
    if (all.size() == 2) {
        if (!pairs) return 0;
        for (size_t i = 0; i < pairs->size(); i += 4) if ((*pairs)[i] == all[0] && (*pairs)[i + 1] == all[1]) return 1u << 30 | C_PAIR | (i / 4);
        pairs->insert(pairs->end(), {all[0], all[1], 0, 0});
        return 1u << 30 | C_PAIR | (pairs->size() / 4 - 1);
    }
    return 0;
}
static u32 probe(const string &pre, int maxlen = 4) {
    Raw t; t.nodes.assign(256, 0);
    for (int a = 0; a < 256; a++) {
        bool inc; string s(1, (char)a); u32 e = entry(pre, s, inc);
        if (!inc) { t.nodes[a] = e; continue; }
        if (maxlen < 2) continue;
        u32 node = t.nodes.size() / 256; t.nodes.resize(t.nodes.size() + 256);
        t.nodes[a] = 2u << 30 | node;
        for (int b = 0; b < 256; b++) {
            string s2 = s + (char)b; e = entry(pre, s2, inc);
            if (!inc) { t.nodes[node * 256 + b] = e; continue; }
            if (maxlen < 3) continue;
            t.nodes[node * 256 + b] = 3u << 30;
            for (int c = 0; c < 256; c++) {
                string s3 = s2 + (char)c; e = entry(pre, s3, inc);
                if (!inc) { if (e) { t.s3.push_back(a << 16 | b << 8 | c); t.s3.push_back(e & 0x3fffffff); } continue; }
                t.i3.push_back(a << 16 | b << 8 | c);
                for (int d = 0; d < 256; d++) {
                    string s4 = s3 + (char)d; e = entry(pre, s4, inc);
                    if (inc) { fprintf(stderr, "5 bytes?\n"); abort(); }
                    if (e) { t.s4.push_back((u32)a << 24 | b << 16 | c << 8 | d); t.s4.push_back(e & 0x3fffffff); }
                }
            }
        }
    }
    return addtab(t);
}
static size_t prelen;
static bool enc1(reiconv_t e, const vector<u32> &tx, string &out, bool flush, bool &buffered) {
    reiconv_iconv(e, 0, 0, 0, 0); out.clear();
    char ib[64], ob[256]; size_t k = 0; for (u32 c : tx) { ib[k++] = c >> 24; ib[k++] = c >> 16; ib[k++] = c >> 8; ib[k++] = c; }
    char *ip = ib, *op = ob; size_t il = k, ol = sizeof ob;
    size_t r = reiconv_iconv(e, &ip, &il, &op, &ol); if (r != 0) return false;
    buffered = op == ob; prelen = op - ob;
    if (flush && reiconv_iconv(e, 0, 0, &op, &ol) != 0) abort();
    out.assign(ob, op - ob); return true;
}
int main(int, char **av) {
    vector<Enc> E;
    W.resize(sizeof(Hdr) / 4);
    for (auto &e : encs) {
        Enc g; memset(&g, 0, sizeof g); strcpy(g.id, e.id); string id = e.id;
        auto any = [&](std::initializer_list<const char *> l) { for (auto x : l) if (id == x) return true; return false; };
        g.kind = 'T';
        if (any({"utf8", "ucs2", "ucs2be", "ucs2le", "ucs4", "ucs4be", "ucs4le", "utf16", "utf16be", "utf16le", "utf32", "utf32be", "utf32le", "utf7", "ucs2internal", "ucs2swapped", "ucs4internal", "ucs4swapped", "c99", "java"})) g.kind = 'U';
        if (any({"cp1255", "cp1258", "tcvn"})) g.kind = 'P';
        if (id.substr(0, 9) == "big5hkscs" || any({"euc_jisx0213", "shift_jisx0213"})) g.kind = 'H';
        if (id.substr(0, 7) == "iso2022" || id == "hz") g.kind = 'E';
        D = reiconv_open_from_index(e.idx, ENCODING_UCS4BE, REICONV_NO_FLAGS);
        reiconv_t en = reiconv_open_from_index(ENCODING_UCS4BE, e.idx, REICONV_NO_FLAGS);
        vector<u32> prs; pairs = g.kind == 'H' || g.kind == 'E' ? &prs : nullptr;
        if (g.kind == 'U') { E.push_back(g); continue; }
        vector<string> pre;
        if (g.kind == 'E') {
            if (id == "iso2022_jp") pre = {"", "\x1b(J", "\x1b$@", "\x1b$B"};
            if (id == "iso2022_jp1") pre = {"", "\x1b(J", "\x1b$@", "\x1b$B", "\x1b$(D"};
            if (id == "iso2022_jp2") pre = {"", "\x1b(J", "\x1b$@", "\x1b$B", "\x1b$(D", "\x1b(I", "\x1b$A", "\x1b$(C", "\x1b.A\x1bN", "\x1b.F\x1bN"};
            if (id == "iso2022_jpms") pre = {"", "\x1b(J", "\x1b$@", "\x1b$B", "\x1b$(D", "\x1b(I"};
            if (id == "iso2022_jp3") pre = {"", "\x1b(J", "\x1b$@", "\x1b$B", "\x1b(I", "\x1b$(O", "\x1b$(Q", "\x1b$(P"};
            if (id == "iso2022_cn") pre = {"", "\x1b$)A\x0e", "\x1b$)G\x0e", "\x1b$*H\x1bN"};
            if (id == "iso2022_cn_ext") pre = {"", "\x1b$)A\x0e", "\x1b$)G\x0e", "\x1b$*H\x1bN", "\x1b$)E\x0e", "\x1b$+I\x1bO", "\x1b$+J\x1bO", "\x1b$+K\x1bO", "\x1b$+L\x1bO", "\x1b$+M\x1bO"};
            if (id == "iso2022_kr") pre = {"", "\x1b$)C\x0e"};
            if (id == "hz") pre = {"", "~{"};
            g.nsets = pre.size(); if (g.nsets > 16) abort();
            for (size_t i = 0; i < pre.size(); i++) {
                memcpy(g.sets[i].pre, pre[i].data(), pre[i].size()); g.sets[i].prelen = pre[i].size();
                g.sets[i].table = probe(pre[i], 2);
            }
            g.table = g.sets[0].table;
        } else g.table = probe("");
        if (g.kind == 'P') {
            // compositions of byte pairs/triples, keyed by code points
            std::set<vector<u32>> comp; const Table &t = tabs[g.table];
            auto one = [&](int a) { return W[t.nodes + a]; };
            for (int a = 0; a < 256; a++) {
                u32 ea = one(a); if (!(ea >> 30) || !(ea & C_BUF)) continue;
                for (int b = 0; b < 256; b++) {
                    u32 eb = one(b); if (!(eb >> 30)) continue;
                    R r = dec(string() + (char)a + (char)b);
                    if (r.pre.size() + r.post.size() == 1) {
                        u32 c = r.pre.empty() ? r.post[0] : r.pre[0];
                        comp.insert({ea & C_WC, eb & C_WC, c | (r.pre.empty() ? C_BUF : 0)});
                        if (r.pre.empty()) for (int d = 0; d < 256; d++) {
                            u32 ed = one(d); if (!(ed >> 30)) continue;
                            R q = dec(string() + (char)a + (char)b + (char)d);
                            if (q.pre.size() + q.post.size() == 1) comp.insert({c, ed & C_WC, (q.pre.empty() ? q.post[0] | C_BUF : q.pre[0])});
                        }
                    }
                }
            }
            g.comp = W.size(); g.ncomp = comp.size(); for (auto &v : comp) W.insert(W.end(), v.begin(), v.end());
        }
        // inverse
        int nl = id == "iso2022_jp2" ? 4 : 1;
        static const char *tags[4] = {"", "ja", "ko", "zh"};
        for (int l = 0; l < nl; l++) {
            vector<u32> dir(0x1100), pages; bool any1 = false;
            vector<u32> head; if (l) { head.push_back(0xE0001); for (const char *p = tags[l]; *p; p++) head.push_back(0xE0000 + *p); }
            for (u32 wc = 0; wc < 0x110000; wc++) {
                vector<u32> tx = head; tx.push_back(wc); string o; bool buf;
                if (!enc1(en, tx, o, g.kind == 'E' || g.kind == 'H', buf)) continue;
                if (wc >> 7 == 0xe0000 >> 7 && o.empty()) continue;      // tag character, dropped
                u32 gs = 0; bool b = buf && g.kind != 'T' && g.kind != 'P';
                if (g.kind == 'E') {
                    string best; for (size_t i = 0; i < pre.size(); i++) if (o.compare(0, pre[i].size(), pre[i]) == 0 && pre[i].size() >= best.size()) best = pre[i], gs = i;
                    string suf = gs == 0 ? "" : id == "hz" ? "~}" : id == "iso2022_jp2" && best[1] == '.' ? "" : (id.find("jp") != string::npos ? "\x1b(B" : (best.size() && best[best.size() - 1] == 0x0e ? "\x0f" : ""));
                    if (o.size() < best.size() + suf.size() || o.substr(o.size() - suf.size()) != suf) { fprintf(stderr, "%s %x bad suffix\n", e.id, wc); return 1; }
                    o = o.substr(best.size(), o.size() - best.size() - suf.size());
                    if (id == "iso2022_kr" && gs == 0) { string hd = "\x1b$)C"; if (o.compare(0, 4, hd) == 0) o = o.substr(4); }
                    b = id == "iso2022_jp3" && prelen < best.size() + o.size();   // kept back (its designator may be out already)
                }
                if (o.empty() || o.size() > 4) { fprintf(stderr, "%s U+%04X: %zu bytes\n", e.id, wc, o.size()); return 1; }
                u32 lo = 0; for (size_t i = 0; i < o.size(); i++) lo |= (u32)(u8)o[i] << (24 - 8 * i);
                if (!dir[wc >> 8]) { dir[wc >> 8] = pages.size() / 512 + 1; pages.resize(pages.size() + 512); }
                u32 *p = &pages[(dir[wc >> 8] - 1) * 512 + (wc & 255) * 2];
                p[0] = gs << 8 | (b ? (u32)I_BUF : 0) | o.size(); p[1] = lo; any1 = true;
            }
            vector<u32> key = dir; key.insert(key.end(), pages.begin(), pages.end());
            auto it = invdedup.find(key); u32 no;
            if (it != invdedup.end()) no = it->second; else {
                Inv v; v.dir = W.size(); W.insert(W.end(), dir.begin(), dir.end()); v.pages = W.size(); v.npages = pages.size() / 512; W.insert(W.end(), pages.begin(), pages.end());
                invs.push_back(v); no = invdedup[key] = invs.size() - 1;
            }
            g.inv[l] = no + 1;
        }
        // encoder results for the two-char sequences
        if (!prs.empty()) {
            for (size_t i = 0; i < prs.size(); i += 4) {
                string o; bool buf; if (!enc1(en, {prs[i], prs[i + 1]}, o, true, buf)) { fprintf(stderr, "%s pair %x %x\n", e.id, prs[i], prs[i + 1]); return 1; }
                u32 gs = 0;
                if (g.kind == 'E') { string best; for (size_t k = 0; k < pre.size(); k++) if (o.compare(0, pre[k].size(), pre[k]) == 0 && pre[k].size() >= best.size()) best = pre[k], gs = k; o = o.substr(best.size(), o.size() - best.size() - 3); }
                if (o.size() != 2) { fprintf(stderr, "%s pair %x %x: %zu\n", e.id, prs[i], prs[i + 1], o.size()); return 1; }
                prs[i + 2] = gs << 8 | 2; prs[i + 3] = (u32)(u8)o[0] << 24 | (u8)o[1] << 16;
            }
            g.pair = W.size(); g.npair = prs.size() / 4; W.insert(W.end(), prs.begin(), prs.end());
        }
        E.push_back(g); fprintf(stderr, "%s kind %c tab %u nodes %u s3 %u s4 %u comp %u pair %u W %zu\n", e.id, g.kind, g.table, tabs[g.table].nnodes, tabs[g.table].ns3, tabs[g.table].ns4, g.ncomp, g.npair, W.size());
        reiconv_handle_close(D); reiconv_handle_close(en);
    }
    Hdr h; memcpy(h.magic, "RXGOLD1", 8); h.nenc = E.size(); h.ntab = tabs.size(); h.ninv = invs.size();
    auto put = [&](const void *p, size_t n) { u32 o = W.size(); W.resize(o + n / 4); memcpy(&W[o], p, n); return o; };
    h.enc_off = put(E.data(), E.size() * sizeof(Enc)); h.tab_off = put(tabs.data(), tabs.size() * sizeof(Table)); h.inv_off = put(invs.data(), invs.size() * sizeof(Inv)); h.nwords = W.size();
    memcpy(&W[0], &h, sizeof h);
    FILE *f = fopen(av[1], "wb"); fwrite(W.data(), 4, W.size(), f); fclose(f);
}

// C01: memory safety.  Exact-size buffers (heap blocks under ASan, guard pages in the plain build), hostile input, every room,
// every prefix, odd names and code pages.  The oracle is the sanitizer / the MMU plus the pointer bookkeeping of each call;
// differences from the text specification are not this property's business (Lock::judge_text = false).
#define RX_MAIN
#include "lock.hpp"
#include <cppp/reiconv.hpp>
using namespace rx;
static Guard *gi, *go;
static string hostile_name(Rng &g) {
    u32 k = g.below(8); string s;
    auto nm = [&] { auto &e = encs[g.below(encs.size())]; return string(e.names[g.below(e.names.size())]); };
    if (k == 0) { u32 n = g.below(300); while (n--) s += (char)(1 + g.below(255)); }
    else if (k == 1) { u32 n = 1 + g.below(5000); s.assign(n, "A-_/9\xff"[g.below(6)]); }
    else if (k == 2) { s = nm(); u32 n = 1 + g.below(80); while (n--) s.insert(g.below(s.size() + 1), 1, "-_"[g.below(2)]); }
    else if (k == 3) { s = nm(); s[g.below(s.size())] = (char)(1 + g.below(255)); }
    else if (k == 4) { s = nm() + "//" + (g.chance(50) ? "IGNORE" : "TRANSLIT"); if (g.chance(50)) s += "//IGNORE"; if (g.chance(30)) s.append(g.below(3000), '/'); }
    else if (k == 5) { s = nm(); s.resize(g.below(s.size() + 1)); }
    else if (k == 6) { s = nm() + nm(); }
    else s = nm();
    size_t z = s.find('\0'); if (z != string::npos) s.resize(z);
    return s;
}
// exact heap copy of a C string
struct CStr { char *p; CStr(const string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~CStr() { free(p); } };
static FILE *corpus;
static void put(u32 type, int a, int b, bool d, const string &in, u64 sd) { if (!corpus) return; u32 h[6] = {type, (u32)encs[a].idx, (u32)encs[b].idx, d, (u32)in.size(), (u32)sd}; fwrite(h, 4, 6, corpus); fwrite(in.data(), 1, in.size(), corpus); }
static void sess(u64 i, Rng &g) {
    int n = encs.size(); int a, b;
    if (g.chance(50)) { a = pickenc(g); b = pickenc(g); } else { a = g.below(n); b = g.below(n); }
    bool d = g.chance(40); string in = geninput(a, b, g.chance(10) ? 200 : 30, g); u64 sd = g.next();
    Lock L(a, b, d, *gi, *go, "mem"); L.judge_text = false; L.session(in, g); cnt["sessions"]++;
    if (i % 9973 == 0) sample(L.name() + " input " + hex(in) + " calls " + L.log.substr(0, 160));
}
static void corp(u64 i, Rng &g) {
    int a = g.chance(50) ? pickenc(g) : g.below(encs.size()), b = g.chance(50) ? pickenc(g) : g.below(encs.size());
    if (g.chance(6)) put(2, a, b, g.chance(50), hostile_name(g), g.next());
    else put(1, a, b, g.chance(40), geninput(a, b, g.chance(10) ? 200 : 24, g), g.next());
}
// every representable character with every room, conversions and flushes
static void room(u64 i, Rng &g) {
    int e = i % encs.size(), ucs = idx("ucs4be"); vector<u32> cs;
    if (is_unicode(e)) for (u32 c = 0; c < 0x110000; c += c < 0x3000 ? 1 : g.below(60) + 1) cs.push_back(c); else cs = rep(e).chars;
    for (u32 k = 0; k < 3000; k++) cs.push_back(anychar(g));
#ifdef RX_ASAN
    u32 keep = thorough ? 100 : 12;
#else
    u32 keep = 100;
#endif
    vector<u8> slots(1); u64 tested = 0;
    reiconv_t cd = reiconv_open_from_index(encs[ucs].idx, encs[e].idx, REICONV_NO_FLAGS);
    for (u32 c : cs) {
        if (keep < 100 && !g.chance(keep)) continue;
        u8 in[4]; Spec::wr(in, c, 4, false); tested++; if (tested % 4096 == 0) ctl->beat++;
        for (size_t cap = 0; cap < 14; cap++) {
            reiconv_iconv(cd, 0, 0, 0, 0);
            char *ip = (char *)in, *op = (char *)go->set(cap), *o0 = op; size_t il = 4, ol = cap;
            size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int en = errno;
            if (op < o0 || (size_t)(op - o0) > cap || ol + (op - o0) != cap || !go->under()) { fail(string("room:") + encs[e].id, fmt("U+%04X room %zu: moved %zd left %zu", c, cap, (ssize_t)(op - o0), ol)); break; }
            if (r == (size_t)-1) { if (en != E2BIG) break; cnt["small_rooms"]++; continue; }
            size_t f = 0; for (; f < 9; f++) { op = (char *)go->set(f); o0 = op; ol = f; if (reiconv_iconv(cd, 0, 0, &op, &ol) != (size_t)-1 || errno != E2BIG) break; cnt["small_flush_rooms"]++; }
            break;
        }
    }
    reiconv_handle_close(cd); cnt["chars_all_rooms"] += tested; seen(hs({9, (u64)e}));
}
// all one- and two-byte inputs, cut prefixes of valid sequences, in every designated set
static void dec(u64 i, Rng &g) {
    int e = i % encs.size(); static const char *tg[] = {"ucs4be", "utf8", "utf16", "ascii", "gb18030_2022", "iso2022_jp3", "big5hkscs2008"};
    bool all = i < encs.size();
    for (u32 rnd = 0; rnd < (all ? 1 : 3); rnd++) {
        int b = all ? idx("ucs4be") : idx(tg[g.below(7)]); bool d = g.chance(30);
        vector<string> pre = {""}; if (specs[e].f == model::F_ESC) for (u32 s = 1; s < specs[e].e->nsets; s++) pre.push_back(string(specs[e].e->sets[s].pre, specs[e].e->sets[s].prelen));
        for (auto &pf : pre) {
            reiconv_t cd = reiconv_open_from_index(encs[e].idx, encs[b].idx, d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
            u32 keep =
#ifdef RX_ASAN
                thorough ? 100 : 15;
#else
                100;
#endif
            for (u32 x = 0; x < 256 + 65536 + 20000; x++) {
                if (x >= 256 && keep < 100 && !g.chance(keep)) continue;
                string s = pf; if (x < 256) s += (char)x; else if (x < 65792) { s += (char)((x - 256) >> 8); s += (char)(x - 256); }
                else { auto &q = rep(e).seqs; if (q.empty()) { s += token(e, g); if (g.chance(50) && s.size() > 1) s.resize(s.size() - 1); } else { auto &z = q[g.below(q.size())]; s.append((char *)z.b, z.n); if (g.chance(50)) s.resize(s.size() - 1 - g.below(z.n)); } if (g.chance(30)) s += (char)g.next(); }
                if (x % 4096 == 0) ctl->beat++;
                u8 *i0 = gi->load(s.data(), s.size()); char *ip = (char *)i0; size_t il = s.size(); size_t cap = all ? 16 : g.below(12);
                char *op = (char *)go->set(cap), *o0 = op; size_t ol = cap;
                for (int k = 0; k < 12; k++) {
                    size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol);
                    if (ip < (char *)i0 || (size_t)(ip - (char *)i0) > s.size() || op < o0 || (size_t)(op - o0) > cap) { fail(string("dec:") + encs[e].id, "pointers out of range for " + hex(s)); return; }
                    if (r == (size_t)-1 && errno == EILSEQ && il) { size_t u = std::min<size_t>(il, specs[e].unit); ip += u; il -= u; if (il) continue; }
                    break;
                }
                op = (char *)go->set(cap & 3); ol = cap & 3; reiconv_iconv(cd, 0, 0, &op, &ol);
                reiconv_iconv(cd, 0, 0, 0, 0); cnt["short_inputs"]++;
            }
            reiconv_handle_close(cd);
        }
        seen(hs({3, (u64)e, (u64)b, d}));
    }
}
// every code point through every encoder, every sequence through every decoder: the tables are never read outside
static void tables(u64 i, Rng &g) {
    int e = i / 256 % encs.size(), ucs = idx("ucs4be"); u32 a = i % 256; static vector<u8> in, out(1 << 17); in.clear(); auto add = [&](u32 c) { u8 b[4]; Spec::wr(b, c, 4, false); in.insert(in.end(), b, b + 4); };
    for (u32 c = a * 4352; c < (a + 1) * 4352; c++) add(c); for (u32 k = 0; k < 16; k++) add(0x110000 + (a << 12) + k * 37); add(0x7fffffff - a); add(0xffffffff - a); for (u32 k = 0; k < 32; k++) add((1u << k) + a), add((1u << k) - 1 - a);
    reiconv_t cd = reiconv_open_from_index(encs[ucs].idx, encs[e].idx, REICONV_DISCARD_ILSEQ); char *ip = (char *)in.data(); size_t il = in.size(); u32 calls = 0;
    while (il && calls++ < 100) { char *op = (char *)out.data(); size_t ol = out.size(); if (reiconv_iconv(cd, &ip, &il, &op, &ol) == (size_t)-1 && errno != E2BIG) { fail(string("tables:") + encs[e].id, fmt("discard mode stops with errno %d", errno)); break; } } reiconv_handle_close(cd); cnt["table_characters"] += in.size() / 4; seen(hs({18, i}));
    if (is_unicode(e)) return; cd = reiconv_open_from_index(encs[e].idx, encs[ucs].idx, REICONV_NO_FLAGS); u64 n = 0; u8 s[24];
    auto one = [&](size_t len) { char *ip = (char *)s, o[96], *op = o; size_t il = len, ol = sizeof o; reiconv_iconv(cd, &ip, &il, &op, &ol); reiconv_iconv(cd, 0, 0, 0, 0); n++; };
    const gold::Enc &E = *specs[e].e; const u32 *w = blob.w;
    if (E.kind == 'E') { for (u32 k = 0; k < E.nsets; k++) { u32 m = E.sets[k].prelen; memcpy(s, E.sets[k].pre, m); s[m] = a; one(m + 1); for (u32 b = 0; b < 256; b++) { s[m + 1] = b; one(m + 2); if (b % 16 == 1) { s[m + 2] = g.next(); s[m + 3] = g.next(); one(m + 4); } } } }
    else {
        s[0] = a; one(1); const gold::Table &t = blob.tab[E.table]; u32 x = w[t.nodes + a];
        for (u32 b = 0; b < 256; b++) {
            s[1] = b; one(2); u32 y = x >> 30 == gold::T_NODE ? w[t.nodes + (x & 0x3fffffff) * 256 + b] : 0; if (y >> 30 != gold::T_MORE) { s[2] = g.next(); s[3] = g.next(); one(4); continue; }
            for (u32 c = 0; c < 256; c++) { s[2] = c; one(3); if (!std::binary_search(w + t.i3, w + t.i3 + t.ni3, a << 16 | b << 8 | c)) { s[3] = g.next(); one(4); continue; } for (u32 d = 0; d < 256; d++) { s[3] = d; one(4); } } ctl->beat++;
        }
    }
    cnt["table_sequences"] += n; reiconv_handle_close(cd);
}
static void names(u64 i, Rng &g) {
    string s = hostile_name(g), t = hostile_name(g); note(hex(s.substr(0, 60))); CStr a(s), b(t); seen(hashbytes(s.data(), s.size()));
    int x = reiconv_lookup_from_name(a.p); if (x >= 0) cnt["names_found"]++; else cnt["names_refused"]++;
    char *o = (char *)malloc(s.size() + 1); size_t n = reiconv_name_canonicalize(a.p, o); if (n > s.size() || strlen(o) != n) fail("canonicalize", "bad length for " + hex(s)); free(o);
    auto use = [&](reiconv_t cd) { if (cd == (reiconv_t)-1) { cnt["opens_refused"]++; return; } cnt["opens"]++; char in[5] = "ab\xe9", ou[8]; char *ip = in, *op = ou; size_t il = 3, ol = 8; reiconv_iconv(cd, &ip, &il, &op, &ol); reiconv_handle_close(cd); };
    use(reiconv_open(a.p, b.p)); use(reiconv_open_from_name(a.p, b.p, g.chance(50) ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS));
    for (int k = 0; k < 20; k++) {
        u32 z = g.below(6); int cp = z == 0 ? (int)g.next() : z == 1 ? (int)g.below(70000) : z == 2 ? -(int)g.below(70000) : z == 3 ? (int)(0x80000000u + g.below(5)) : z == 4 ? 65400 + (int)g.below(200) : (int)((1u << g.below(32)) + g.below(3) - 1);
        int r = reiconv_lookup_from_codepage(cp); cnt["codepages"]++; (void)r; use(reiconv_open_from_codepage(cp, g.chance(50) ? 65001 : cp, REICONV_NO_FLAGS));
    }
    try { reiconv::Encoding e1(a.p); cnt["cpp_encodings"]++; } catch (const std::exception &) { cnt["cpp_refused"]++; }
}
static void oneshot(u64 i, Rng &g) {
    int a = pickenc(g), b = g.chance(50) ? pickenc(g) : g.below(encs.size()); bool d = g.chance(40); string in = geninput(a, b, g.chance(6) ? 3000 : 40, g, g.below(4));
    if (g.chance(8)) { string t; size_t want = 4000 + g.below(9000); while (t.size() < want && !in.empty()) t += in; in = t.substr(0, std::min<size_t>(t.size(), 60000)); }
    reiconv_t cd = reiconv_open_from_index(encs[a].idx, encs[b].idx, d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
    note(fmt("%s->%s %d ", encs[a].id, encs[b].id, d) + hex(in));
    for (int k = 0; k < 3; k++) {
        u8 *ip = (u8 *)malloc(in.size()); memcpy(ip, in.data(), in.size());
        size_t n = reiconv_result_size(cd, (char *)ip, in.size());
        size_t cap = n == (size_t)-1 ? g.below(50) : k == 0 ? n : k == 1 ? g.below(n + 1) : n + g.below(20);
        char *o = (char *)malloc(cap); int r = reiconv_convert_static_size(cd, (char *)ip, in.size(), o, cap); free(o); cnt[r ? "static_failed" : "static_ok"]++;
        char *p = g.chance(50) ? nullptr : (char *)malloc(g.below(100)); size_t m = 0; r = reiconv_convert(cd, (char *)ip, in.size(), &p, &m);
        if (!r && m) { volatile char c = p[m - 1]; (void)c; } free(p); free(ip);
        if (k == 0) try { string z = reiconv::convert((reiconv::Encodings)encs[a].idx, (reiconv::Encodings)encs[b].idx, in, d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS); cnt["cpp_ok"]++; } catch (const std::exception &) { cnt["cpp_threw"]++; }
    }
    reiconv_handle_close(cd); seen(hashbytes(in.data(), in.size(), hs({4, (u64)a, (u64)b, d})));
}
static void longs(u64 i, Rng &g) {
    int a = pickenc(g), b = pickenc(g); string in; u32 want = 20000 + g.below(200000); while (in.size() < want) in += geninput(a, b, 400, g, g.chance(70) ? 0 : 2) + "a";
    Lock L(a, b, g.chance(60), *gi, *go, "mem"); L.judge_text = false; size_t p = 0;
    for (int k = 0; k < 40 && p < in.size(); k++) { size_t n = std::min<size_t>(in.size() - p, 1 + g.below(60000)); Res r = L.call((u8 *)in.data() + p, n, g.chance(50) ? 300000 : g.below(70000)); p += r.used; if (r.ret == (size_t)-1 && r.en == EILSEQ) p++; cnt["long_bytes"] += r.used; }
    L.flush(64);
}
// runs of shift sequences, marks and plain characters longer than 1 GiB (the same memory mapped again and again)
static const struct { const char *e, *tok; } RUNS[] = {{"iso2022_jp", "\x1b(B"}, {"iso2022_jp1", "\x1b(J\x1b(B"}, {"iso2022_jp2", "\x1b$A\x1b(B"}, {"iso2022_jp3", "\x1b$(Q\x1b(B"}, {"iso2022_jpms", "\x1b$B\x1b(B"}, {"iso2022_kr", "\x1b$)C"}, {"iso2022_cn", "\x0f"}, {"iso2022_cn_ext", "\x1b$)A\x0e\x0f"}, {"hz", "~{~}"}, {"utf16", "\xfe\xff"}, {"ucs2", "\xfe\xff"}, {"utf7", "+-"}, {"utf8", "\xff"}, {"iso2022_kr", "\x0e\x0f"}};
static void runs(u64 i, Rng &g) {
    auto &R = RUNS[i % (sizeof RUNS / sizeof *RUNS)]; string tok = R.tok; const size_t B = tok.size() * 4096 * 2048; size_t total = ((size_t)1 << (thorough && i >= sizeof RUNS / sizeof *RUNS ? 32 : 30)) + (200u << 20); total = total / B * B + B;
    int fd = memfd_create("rx", 0); if (fd < 0 || ftruncate(fd, B)) { fprintf(stderr, "memfd\n"); exit(3); } char *m = (char *)mmap(0, B, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for (size_t k = 0; k < B; k += tok.size()) memcpy(m + k, tok.data(), tok.size()); munmap(m, B);
    char *in = (char *)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (size_t k = 0; k < total; k += B) mmap(in + k, B, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0); close(fd);
    int a = -1; for (size_t k = 0; k < encs.size(); k++) if (!strcmp(encs[k].id, R.e)) a = k; if (a < 0) { fprintf(stderr, "no %s\n", R.e); exit(3); }
    reiconv_t cd = reiconv_open_from_index(encs[a].idx, encs[idx("utf8")].idx, REICONV_DISCARD_ILSEQ); char *ip = in; size_t il = total; u64 calls = 0;
    while (il && calls++ < 100) { size_t cap = 500000; char *op0 = (char *)go->set(cap), *op = op0; size_t ol = cap, il0 = il; char *ip0 = ip; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); if (ip < ip0 || (size_t)(ip - ip0) > il0 || (size_t)(ip - ip0) + il != il0 || op < op0 || (size_t)(op - op0) + ol != cap) { fail(string("runs:") + R.e, fmt("positions wrong after %zu bytes", (size_t)(ip - in))); break; } if (r == (size_t)-1 && errno != E2BIG) { cnt["runs_refused"]++; break; } ctl->beat++; }
    cnt["long_runs"]++; cnt["long_run_bytes"] += ip - in; seen(hs({17, i})); reiconv_handle_close(cd); munmap(in, total);
}
int main(int c, char **v) {
    gi = new Guard(1 << 19); go = new Guard(1 << 20);
    if (const char *d = getenv("RX_CORPUS_DIR")) for (int i = 1; i < c; i++) if (!strcmp(v[i], "--shard")) corpus = fopen((string(d) + "/corpus." + std::to_string(atoi(v[i + 1]))).c_str(), "wb");
    u64 n = encs.size();
    int r = rx_main(c, v, {{"runs", runs, 14, 28}, {"corpus", corp, 800000, 8000000}, {"sess", sess, 400000, 10000000}, {"room", room, n, n}, {"tables", tables, n * 256, n * 256}, {"dec", dec, n, n * 6}, {"names", names, 40000, 600000}, {"oneshot", oneshot, 60000, 1000000}, {"longs", longs, 320, 6000}});
    if (corpus) fclose(corpus); return r;
}

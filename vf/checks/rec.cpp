// C24 and C25: the same list of calls is executed by separately built or differently surrounded processes (vf/rec); their logs must be identical.
// RX_RECS: "name|program|arguments;..."; the first one is the reference.
#define RX_MAIN
#include "stream.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace rx;
struct Cfg { string name, prog; vector<string> args, env; bool off = false; };
static vector<Cfg> cfgs;
static void load() {
    const char *e = getenv("RX_RECS"); if (!e) { fprintf(stderr, "RX_RECS not set\n"); exit(3); } string s = e, t; vector<string> items; for (char c : s + ";") if (c == ';') { if (!t.empty()) items.push_back(t); t.clear(); } else t += c;
    for (auto &x : items) { Cfg c; size_t p = x.find('|'), q = x.find('|', p + 1); c.name = x.substr(0, p); c.prog = x.substr(p + 1, q - p - 1); string a = x.substr(q + 1) + " ", t; for (char k : a) if (k == ' ') { if (!t.empty()) { if (t[0] == '@') c.env.push_back(t.substr(1)); else c.args.push_back(t); } t.clear(); } else t += k; cfgs.push_back(c); }
}
struct Jobs {
    vector<u32> v{0x4a0b5, 0}; vector<size_t> at;
    void begin(u32 kind) { at.push_back(v.size()); v.push_back(0); v.push_back(kind); v[1]++; }
    void bytes(const void *p, size_t n, bool nul = false) { v.push_back(n); size_t k = v.size(); size_t words = nul ? n / 4 + 1 : (n + 3) / 4; v.resize(k + words); memcpy(&v[k], p, n); }
    void end() { v[at.back()] = v.size() - at.back(); }
    void session(int a, int b, u32 fl, const vector<std::array<u32, 3>> &st, const string &in) { begin(1); for (u32 x : {(u32)encs[a].idx, (u32)encs[b].idx, fl, specs[a].unit, (u32)(strstr(encs[a].id, "internal") || strstr(encs[a].id, "swapped") || strstr(encs[b].id, "internal") || strstr(encs[b].id, "swapped") ? 0 : 1), (u32)st.size()}) v.push_back(x); for (auto &s : st) for (u32 x : s) v.push_back(x); bytes(in.data(), in.size()); end(); }
    void name(const string &s) { begin(2); bytes(s.data(), s.size(), true); end(); }
    void pages(int f, u32 n) { begin(3); v.push_back(f); v.push_back(n); end(); }
    void opens(u32 route, u32 fl, const string &to, const string &from, const string &in) { begin(4); v.push_back(route); v.push_back(fl); bytes(to.data(), to.size(), true); bytes(from.data(), from.size(), true); bytes(in.data(), in.size()); end(); }
    void cpp(int a, int b, u32 fl, const string &in) { begin(5); v.push_back(encs[a].idx); v.push_back(encs[b].idx); v.push_back(fl); bytes(in.data(), in.size()); end(); }
    string show(u32 i) const {
        const u32 *j = &v[at[i]]; auto en = [](u32 x) { for (auto &e : encs) if (e.idx == (int)x) return string(e.id); return fmt("#%u", x); };
        if (j[1] == 1) { string s = en(j[2]) + "->" + en(j[3]) + (j[4] ? "//IGNORE" : ""); static const char *on[] = {"?", "convert", "flush", "reset", "result_size", "static", "alloc"}; for (u32 k = 0; k < j[7] && k < 12; k++) s += fmt(" %s(%u,%u)", on[j[8 + 3 * k]], j[9 + 3 * k], j[10 + 3 * k]); const u32 *q = j + 8 + 3 * j[7]; return s + " input " + hex(q + 1, *q, 120); }
        if (j[1] == 2) return "name \"" + jesc(string((const char *)(j + 3), std::min<u32>(j[2], 60))) + "\""; if (j[1] == 3) return fmt("code pages %d..+%u", (int)j[2], j[3]);
        if (j[1] == 5) return en(j[2]) + "->" + en(j[3]) + fmt(" C++ flags %u input ", j[4]) + hex(j + 6, j[5], 120);
        const u32 *f = j + 5 + j[4] / 4 + 1; return fmt("open route %u flags %u to %s from %s", j[2], j[3], hex(j + 5, j[4], 60).c_str(), hex(f + 1, *f, 60).c_str());
    }
};
static string dir; static string tmp(const char *x) { return dir + fmt("/b%d.%s", getpid(), x); }
struct Log { vector<u32> w; int status = 0; u64 job = 0, done = 0, changed = 0; };
static bool runcfg(const Cfg &c, const string &jf, const string &lf, const string &sf, bool is32) {
    vector<string> a{c.prog, jf, lf, sf}; a.insert(a.end(), c.args.begin(), c.args.end()); vector<char *> av; for (auto &x : a) av.push_back((char *)x.c_str()); av.push_back(nullptr);
    pid_t p = vfork(); if (p == 0) { if (is32) { int i = open(jf.c_str(), O_RDONLY), o = open(lf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); dup2(i, 0); dup2(o, 1); } execve(c.prog.c_str(), av.data(), environ); _exit(43); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} errno = st; return true;
}
static Log collect(const Cfg &c, const string &jf, size_t njobs) {
    Log l; bool is32 = c.prog.size() > 2 && c.prog.substr(c.prog.size() - 2) == "32"; string lf = tmp("log"), sf = tmp("st"); vector<char *> keep;
    static vector<string> added; for (auto &n : added) unsetenv(n.c_str()); added.clear(); for (auto &e : c.env) { size_t q = e.find('='); setenv(e.substr(0, q).c_str(), e.substr(q + 1).c_str(), 1); added.push_back(e.substr(0, q)); }
    runcfg(c, jf, lf, sf, is32); l.status = errno; for (auto &n : added) unsetenv(n.c_str()); added.clear();
    size_t n = 0; struct stat st; if (is32) { if (!stat(lf.c_str(), &st)) n = st.st_size; l.done = l.status == 0 ? 0xd0e : 0; } else { u64 s[4] = {}; int fd = open(sf.c_str(), O_RDONLY); if (fd >= 0) { if (read(fd, s, sizeof s) != sizeof s) {} close(fd); } l.job = (u32)s[0]; n = s[1]; l.changed = s[2]; l.done = s[3]; }
    l.w.resize(n / 4); int fd = open(lf.c_str(), O_RDONLY); size_t k = 0; while (k < n) { ssize_t r = pread(fd, (char *)l.w.data() + k, n - k, k); if (r <= 0) break; k += r; } if (fd >= 0) close(fd); unlink(lf.c_str()); unlink(sf.c_str());
    for (auto &x : c.args) if (x == "backwards" && l.status == 0 && l.w.size() > njobs) {      // put the jobs back into order
        vector<u32> o; size_t z = l.w.size() - 1 - njobs; vector<u32> st(l.w.begin() + z, l.w.end() - 1); for (size_t j = 0; j < njobs; j++) { size_t b = st[j], e = j ? st[j - 1] : z; if (b > e || e > z) { o.clear(); break; } o.insert(o.end(), l.w.begin() + b, l.w.begin() + e); } o.push_back(l.w.back()); l.w = o;
    }
    return l;
}
static string job_words(const vector<u32> &w, size_t from) { string s; for (size_t i = from; i < w.size() && i < from + 40; i++) { if (i > from && (w[i] >> 20) == 0x10b) break; s += fmt(" %x", w[i]); } return s; }
static void judge(const Jobs &J) {
    string jf = tmp("jobs"); { FILE *f = fopen(jf.c_str(), "wb"); fwrite(J.v.data(), 4, J.v.size(), f); fclose(f); }
    vector<Log> L; for (auto &c : cfgs) { if (c.off) { L.push_back({}); continue; } L.push_back(collect(c, jf, J.at.size())); Log &l = L.back(); int st = l.status;
        ctl->beat++;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 43 || WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 40)) { c.off = true; cnt["unavailable_" + c.name]++; continue; }
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 8 || WEXITSTATUS(st) == 9)) { fprintf(stderr, "%s: cannot run (%d)\n", c.name.c_str(), st); exit(3); }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 41) { fail("changed:" + c.name, fmt("%s: environment, locale, working directory, signal handling, open files or file positions changed between jobs %d and %d", c.name.c_str(), (int)l.changed - 257, (int)l.changed - 1)); continue; }
        if (st != 0) { string w = l.job < J.at.size() ? J.show(l.job) : "?"; const char *why = WIFSIGNALED(st) && WTERMSIG(st) == SIGSYS ? "a system call other than memory management" : WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "abnormal exit"; fail(fmt("end:%s:%s", c.name.c_str(), why), c.name + ": " + why + fmt(" (status %x)", st) + " in job " + w); continue; }
        cnt["jobs_" + c.name] += J.at.size(); cnt["words_" + c.name] += l.w.size(); }
    unlink(jf.c_str()); if (L[0].status) return;
    for (size_t k = 1; k < L.size(); k++) {
        if (cfgs[k].off || L[k].status) continue; cnt["logs_compared"]++; auto &x = L[0].w, &y = L[k].w; size_t n = std::min(x.size(), y.size()), i = 0, js = 0; while (i < n && x[i] == y[i]) { i++; } if (i == n && x.size() == y.size()) continue;
        u32 job = 0, next = 0; for (size_t q = 0; q <= i && q < x.size(); q++) if (x[q] == 0x10b00000u + next) { job = next++; js = q; }
        string id = J.v[J.at[job] + 1] == 1 ? J.show(job).substr(0, J.show(job).find(' ')) : fmt("kind%u", J.v[J.at[job] + 1]);
        fail("differ:" + cfgs[k].name + ":" + id, cfgs[k].name + " differs from " + cfgs[0].name + fmt(" at word %zu of job ", i - js) + J.show(job) + ": " + cfgs[0].name + job_words(x, js) + "; " + cfgs[k].name + job_words(y, js));
    }
}
static void rsession(Jobs &J, int a, int b, Rng &g) {
    string in = geninput(a, b, g.chance(10) ? 300 : 24, g); if (in.size() > 30000) in.resize(30000); vector<std::array<u32, 3>> st; u32 style = g.below(6), n = 1 + g.below(8);
    if (style == 0) st.push_back({1, (u32)in.size(), 60000}), st.push_back({2, 0, 64}); else for (u32 k = 0; k < n; k++) { u32 o = g.below(12), l = g.chance(20) ? in.size() : g.below(12), c = g.chance(30) ? 2000 : g.below(16); st.push_back({o < 6 ? 1 : o < 8 ? 2 : o < 9 ? 3 : o < 10 ? 4 : o < 11 ? 5u : 6u, l, o >= 10 && g.chance(60) ? 4000 : c}); }
    J.session(a, b, g.chance(25), st, in); cnt["sessions"]++; seen(hs({25, (u64)a, (u64)b, hashbytes(in.data(), in.size()), n}));
}
static string spell(Rng &g) {
    const EncInfo &e = encs[g.below(encs.size())]; string s = e.names[g.below(e.names.size())]; for (auto &c : s) if (g.chance(40)) { if (c >= 'A' && c <= 'Z') c += 32; else if (c >= 'a' && c <= 'z') c -= 32; } u32 k = g.below(8);
    if (k == 0) s.insert(g.below(s.size() + 1), 1, (char)(1 + g.below(255))); if (k == 1) s[g.below(s.size())] = (char)(1 + g.below(255)); if (k == 2) s.insert(g.below(s.size() + 1), g.chance(50) ? "-" : "_"); if (k == 3) { s.clear(); u32 n = g.below(40); while (n--) s += (char)(1 + g.below(255)); } if (k == 4 && !s.empty()) s.pop_back(); if (k == 5 && g.chance(20)) s += string(g.below(500), 'A'); if (k == 6) s[g.below(s.size())] |= 0x80; return s;
}
static void batch(u64 i, Rng &g) {
    Jobs J; int n = encs.size(); for (u32 k = 0; k < 1500; k++) {
        u32 w = g.below(20); if (w < 2) { int a = pickenc(g), b = pickenc(g); string in = geninput(a, b, 60, g, g.chance(60) ? 0 : -1); if (in.size() > 30000) in.resize(30000); J.cpp(a, b, g.chance(25), in); cnt["cpp_conversions"]++; }
        else if (w < 16) { int a, b; if (g.chance(50)) { u64 q = (i * 1500 + k) * 37 % (u64)(n * n); a = q / n; b = q % n; } else a = pickenc(g), b = pickenc(g); rsession(J, a, b, g); }
        else if (w < 18) { J.name(spell(g)); cnt["names"]++; } else if (w < 19) { J.pages(g.chance(50) ? g.below(70000) : (int)g.next(), 1 + g.below(50)); cnt["codepage_runs"]++; }
        else { int a = pickenc(g), b = pickenc(g); string in = geninput(a, b, 20, g); u32 r = g.below(3); static const char *suf[] = {"", "//IGNORE", "//ignore", "//TRANSLIT", "/", "//", "//TRANSLIT//IGNORE", "//IGNORE//TRANSLIT"}; string x = encs[a].names[0], y = encs[b].names[0];
            if (r == 2) { int p = encs[a].cps.empty() ? (int)g.below(66000) : encs[a].cps[0], q = encs[b].cps.empty() ? (int)g.next() : encs[b].cps[0]; x.assign((char *)&p, 4); y.assign((char *)&q, 4); } else { if (g.chance(10)) x = spell(g); if (g.chance(10)) y = spell(g); if (r == 0) { x += suf[g.below(8)]; y += suf[g.below(8)]; } } J.opens(r, g.chance(30), y, x, in); cnt["opens"]++; }
    }
    judge(J); if (i % 97 == 0) sample(J.show(0));
}
// everything an encoding contains, decoded and encoded
static void sweep(u64 i, Rng &g) {
    Jobs J; int e = i, u4 = idx("ucs4be"); u32 top = thorough ? 0x110 : 0; auto put = [&](u32 lo, u32 n) { string in; for (u32 c = lo; c < lo + n; c++) { u8 b[4] = {(u8)(c >> 24), (u8)(c >> 16), (u8)(c >> 8), (u8)c}; if (c < 0xd800 || c >= 0xe000) in.append((char *)b, 4); } J.session(u4, e, 1, {{1, (u32)in.size(), 60000}, {2, 0, 64}}, in); cnt["swept_characters"] += n; };
    for (u32 c = 0; c < 0x10000; c += 2048) put(c, 2048); for (u32 c = 0x10000; c < 0x110000; c += 2048) if (top || c < 0x12000 || (c >= 0x1f000 && c < 0x30000) || c == 0xe0000 || g.chance(3)) put(c, 2048);
    const Rep &r = rep(e); if (!r.seqs.empty()) for (u32 k = 0; k < r.seqs.size();) { string in; for (; k < r.seqs.size() && in.size() < 6000; k++) in.append((char *)r.seqs[k].b, r.seqs[k].n); J.session(e, u4, 0, {{1, (u32)in.size(), 60000}, {2, 0, 64}}, in); cnt["swept_sequences"]++; }
    string all; for (u32 a = 0; a < 256; a++) for (u32 b = 0; b < 256; b += 1 + (r.seqs.empty() ? 0 : 0)) { all += (char)a; all += (char)b; if (all.size() >= 4096) { J.session(e, u4, 1, {{1, (u32)all.size(), 60000}, {2, 0, 64}}, all); all.clear(); cnt["swept_pairs"]++; } }
    seen(hs({26, i})); judge(J);
}
int main(int c, char **v) { load(); dir = getenv("RX_DIR") ? getenv("RX_DIR") : "/tmp"; mkdir(dir.c_str(), 0755); u64 n = 0; n = encs.size(); return rx_main(c, v, {{"sweep", sweep, n, n}, {"batch", batch, (u64)atoi(getenv("RX_BATCHES") ? getenv("RX_BATCHES") : "400"), 20000}}); }

// Lockstep monitor: every real call is checked against the executable specification.
#pragma once
#include "gen.hpp"
namespace rx {
using model::Res; using model::Conv;
struct Lock {
    int a, b; bool discard; reiconv_t cd; model::Track tr; Conv &m() { return tr.c[0]; } Guard &gi, &go; string log; bool bad = false; string mout; u64 calls = 0; const char *tag; bool judge_text = true, quiet = false;
    Lock(int a_, int b_, bool d, Guard &i, Guard &o, const char *t) : a(a_), b(b_), discard(d), tr(specs[a_], specs[b_], d), gi(i), go(o), tag(t) {
        cd = reiconv_open_from_index(encs[a].idx, encs[b].idx, d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS);
        if (cd == (reiconv_t)-1) { fail("open", "open_from_index failed"); bad = true; }
    }
    ~Lock() { if (cd != (reiconv_t)-1) reiconv_handle_close(cd); }
    string name() const { return fmt("%s->%s%s", encs[a].id, encs[b].id, discard ? "//IGNORE" : ""); }
    void report(const char *kind, const string &d) { bad = true; fail(fmt("%s:%s:%s", tag, kind, name().c_str()), name() + " " + kind + " " + d + " after [" + log.substr(log.size() > 1200 ? log.size() - 1200 : 0) + "]"); }
    static string show(const Res &r) { return fmt("ret=%lld errno=%d used=%zu made=%zu", (long long)r.ret, r.ret == (size_t)-1 ? r.en : 0, r.used, r.made); }
    void diff(const char *kind, const Res &x, const Res &y, const u8 *ro) { if (!judge_text) { bad = true; cnt["sessions_cut_short"]++; return; } const u8 *mo = tr.out.data(); report(kind, fmt("expected %s [%s] got %s [%s]", show(y).c_str(), hex(mo, y.made).c_str(), show(x).c_str(), hex(ro, x.made).c_str())); }
    // one conversion call
    Res call(const u8 *in, size_t n, size_t cap) {
        u8 *ip0 = gi.load(in, n), *op0 = go.set(cap); char *ip = (char *)ip0, *op = (char *)op0; size_t il = n, ol = cap;
        if (!quiet && log.size() < 6000) log += fmt("C(%s,%zu)", hex(in, n, 60).c_str(), cap);
        calls++; Res r; errno = 0; r.ret = reiconv_iconv(cd, &ip, &il, &op, &ol); r.en = errno;
        r.used = (u8 *)ip - ip0; r.made = (u8 *)op - op0;
        if (r.used > n || r.made > cap || r.used + il != n || r.made + ol != cap) { report("bookkeeping", fmt("in moved %zd left %zu of %zu, out moved %zd left %zu of %zu", (ssize_t)r.used, il, n, (ssize_t)r.made, ol, cap)); return r; }
        if (n && memcmp(ip0, in, n)) report("input-modified", "");
        if (!go.under()) report("underrun", "");
        Res e; if (!tr.convert(in, n, cap, r, op0, e)) { if (quiet) log = fmt("C(%s,%zu)", hex(in, n, 60).c_str(), cap); diff("convert", r, e, op0); }
        static u64 &c0 = cnt["calls_compared"], &c1 = cnt["saw_E2BIG"], &c2 = cnt["saw_EILSEQ"], &c3 = cnt["saw_EINVAL"], &c4 = cnt["saw_irreversible"], &c5 = cnt["saw_other_errno"];
        c0++; if (r.ret == (size_t)-1) ++(r.en == E2BIG ? c1 : r.en == EILSEQ ? c2 : r.en == EINVAL ? c3 : c5); else if (r.ret) c4++;
        return r;
    }
    Res flush(size_t cap) {
        u8 *op0 = go.set(cap); char *op = (char *)op0; size_t ol = cap; if (!quiet && log.size() < 6000) log += fmt("F(%zu)", cap);
        // alternate between the NULL and the pointer-to-NULL form of the flush request
        calls++; Res r; errno = 0; char *nul = nullptr; size_t z = 0; r.ret = calls & 1 ? reiconv_iconv(cd, nullptr, nullptr, &op, &ol) : reiconv_iconv(cd, &nul, &z, &op, &ol); r.en = errno; r.made = (u8 *)op - op0;
        if (r.made > cap || r.made + ol != cap) { report("bookkeeping", "flush counters"); return r; }
        Res e; if (!tr.flush(cap, r, op0, e)) diff("flush", r, e, op0); static u64 &c0 = cnt["flushes_compared"], &c1 = cnt["flush_wrote"], &c2 = cnt["flush_failed"]; c0++; if (r.made) c1++; if (r.ret == (size_t)-1) c2++;
        return r;
    }
    // whole input in one call from the initial state, flush, back to the initial state
    Res whole(const string &in, size_t cap = 4000) { Res r = call((const u8 *)in.data(), in.size(), cap); if (!bad) { Res f = flush(64); if (f.ret == (size_t)-1 && !bad) zero(); } return r; }
    // one call per output capacity, each on its own continuation: all rooms for one input
    void caps(const string &in, Rng &g) {
        size_t p = 0; u32 guard = 0; const u8 *s = (const u8 *)in.data(); size_t cap = 0;
        while (p < in.size() && !bad && guard++ < 4000) {
            Res r = call(s + p, in.size() - p, cap); p += r.used;
            if (r.ret == (size_t)-1 && r.en == E2BIG) { if (!r.used && !r.made) cap++; else cap = 0; if (cap > 80) { report("no-progress", "E2BIG with 80 bytes of room"); return; } continue; }
            if (r.ret == (size_t)-1 && r.en == EILSEQ) { p += std::min<size_t>(in.size() - p, specs[a].unit); cap = 0; continue; }
            if (r.ret == (size_t)-1) break;
        }
        for (cap = 0; cap < 40 && !bad; cap++) { Res f = flush(cap); if (f.ret != (size_t)-1) break; if (f.en != E2BIG) { zero(); break; } }
    }
    // a few large calls
    void longrun(const string &in, Rng &g) {
        size_t p = 0; u32 guard = 0;
        while (p < in.size() && !bad && guard++ < 400) {
            size_t n = g.chance(50) ? in.size() - p : std::min<size_t>(in.size() - p, 1 + g.below(80000));
            Res r = call((const u8 *)in.data() + p, n, g.chance(50) ? 1500000 : g.below(100000)); p += r.used; cnt["long_bytes"] += r.used; ctl->beat++;
            if (r.ret == (size_t)-1 && r.en == EILSEQ) p += std::min<size_t>(in.size() - p, specs[a].unit);
            else if (r.ret == (size_t)-1 && r.en == EINVAL && n == in.size() - (p - r.used)) break;
        }
        if (!bad) flush(64);
    }
    void zero() { if (!quiet && log.size() < 6000) log += "Z"; if (reiconv_iconv(cd, nullptr, nullptr, nullptr, nullptr) != 0) report("reset", "nonzero"); tr.zero(); static u64 &c0 = cnt["resets"]; c0++; }
    // run a whole input through random pieces and capacities; errors are stepped over
    void session(const string &in, Rng &g, u32 maxsteps = 400) {
        size_t p = 0, end = 0; const u8 *s = (const u8 *)in.data(); u32 style = g.below(4); u32 stuck = 0;
        end = style == 0 ? in.size() : std::min<size_t>(in.size(), g.below(6));
        auto grow = [&] { end = std::min(in.size(), style == 1 ? end + 1 : end + 1 + g.below(style == 2 ? 4 : 30)); };
        for (u32 st = 0; st < maxsteps && !bad; st++) {
            size_t cap = stuck ? 4 * stuck + g.below(8) : style == 0 && g.chance(60) ? in.size() * 12 + 64 : pickcap(g);
            Res r = call(s + p, end - p, cap); if (bad) return; p += r.used; seen(hs({1, (u64)a, (u64)b, m().ds.g, m().ds.g1, m().ds.g2, m().ds.g3, m().ds.pend, m().es.g, m().es.g1, m().es.g2, m().es.pend, m().es.lang, m().es.bits, (u64)r.en * (r.ret == (size_t)-1)}));
            if (r.ret == (size_t)-1 && r.en == E2BIG) { stuck = r.used || r.made ? 1 : stuck + 1; if (stuck > 20) { report("no-progress", "E2BIG with a large buffer"); return; } continue; }
            stuck = 0;
            if (r.ret == (size_t)-1 && r.en == EILSEQ) { if (p < end) p += std::min<size_t>(end - p, g.chance(80) ? specs[a].unit : 1); continue; }
            if (r.ret == (size_t)-1 && r.en == EINVAL) { if (end == in.size()) break; grow(); continue; }
            if (g.chance(3)) { Res f = flush(pickcap(g)); if (f.ret == (size_t)-1 && f.en == E2BIG && g.chance(70)) flush(64); } else if (g.chance(1)) zero();
            if (p >= in.size()) break;
            grow();
        }
        if (bad) return;
        for (u32 t = 0; t < 8; t++) { size_t cap = t < 3 ? g.below(9) : 64; Res f = flush(cap); if (bad) return; if (f.ret == (size_t)-1 && f.en == E2BIG) continue; if (f.ret == (size_t)-1) { zero(); } break; }
    }
};
} // namespace rx

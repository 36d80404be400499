// Model-free drivers of a descriptor, for the checks that compare the library with itself.
#pragma once
#include "lockmain.hpp"
namespace rx {
struct Cd {       // closes itself
    reiconv_t h; Cd(reiconv_t x) : h(x) {} Cd(int a, int b, bool d) : h(reiconv_open_from_index(encs[a].idx, encs[b].idx, d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS)) { if (h == (reiconv_t)-1) fail("open", "open_from_index failed"); }
    Cd(const Cd &) = delete; ~Cd() { if (h != (reiconv_t)-1) reiconv_handle_close(h); } bool ok() const { return h != (reiconv_t)-1; }
};
inline string pname(int a, int b, bool d) { return fmt("%s->%s%s", encs[a].id, encs[b].id, d ? "//IGNORE" : ""); }
// what a whole stream came to: bytes, the positions of refused input (stepped over by one unit), how it ended
struct Trace {
    string out; vector<size_t> errs; int end = 0; size_t endpos = 0; int fl = 0; size_t count = 0; bool counted = true; u32 calls = 0; string bad;
    bool same(const Trace &t) const { return bad == t.bad && out == t.out && errs == t.errs && end == t.end && endpos == t.endpos && fl == t.fl; }
    string show() const { string s = fmt("out[%zu]=%s", out.size(), hex(out).c_str()); if (!errs.empty()) { s += " EILSEQ at"; for (size_t i = 0; i < errs.size() && i < 10; i++) s += fmt(" %zu", errs[i]); } return s + fmt(" end=%d at %zu flush=%d %s", end, endpos, fl, bad.c_str()); }
};
struct Plan { std::function<size_t(size_t)> piece; std::function<size_t()> room; };   // next end of the available input; next room
inline Trace drive(reiconv_t cd, u32 unit, const string &in, const Plan &pl, Guard &gi, Guard &go, size_t maxerr = 0, u64 maxcalls = 400000) {
    Trace t; size_t p = 0, N = in.size(), end = std::min(N, pl.piece(0)), grow = 0; const u8 *s = (const u8 *)in.data(); bool done = false;
    while (!done) {
        if (t.calls++ > maxcalls) { t.bad = "no end"; break; }
        size_t cap = pl.room() + grow; u8 *ip0 = gi.load(s + p, end - p), *op0 = go.set(cap); char *ip = (char *)ip0, *op = (char *)op0; size_t il = end - p, ol = cap; errno = 0;
        size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int en = errno; size_t used = (u8 *)ip - ip0, made = (u8 *)op - op0;
        if (used > end - p || made > cap || used + il != end - p || made + ol != cap) { t.bad = "positions and counters disagree"; return t; }
        t.out.append((char *)op0, made); p += used;
        if (r != (size_t)-1) { t.count += r; if (p != end) { t.bad = "success with input left"; return t; } grow = 0; if (end == N) done = true; else end = std::min(N, std::max(end + 1, pl.piece(end))); continue; }
        t.counted = false;
        if (en == E2BIG) { grow = used || made ? 0 : grow ? grow * 2 : 1; if (grow > 4096) { t.bad = "E2BIG with plenty of room"; return t; } }
        else if (en == EILSEQ) { grow = 0; t.errs.push_back(p); if (t.errs.size() > maxerr) { t.end = EILSEQ; t.endpos = p; return t; } p = std::min(N, p + unit); if (end < p) end = p; if (p == N) done = true; }
        else if (en == EINVAL) { grow = 0; if (end == N) { t.end = EINVAL; done = true; } else end = std::min(N, std::max(end + 1, pl.piece(end))); }
        else { t.bad = fmt("errno %d", en); return t; }
    }
    t.endpos = p; grow = 0; if (!t.bad.empty()) return t;
    for (u32 k = 0; k < 60; k++) {
        size_t cap = std::min<size_t>(pl.room(), 4096) + grow; u8 *op0 = go.set(cap); char *op = (char *)op0; size_t ol = cap; errno = 0; size_t r = reiconv_iconv(cd, nullptr, nullptr, &op, &ol); int en = errno; t.calls++;
        t.out.append((char *)op0, (u8 *)op - op0);
        if (r != (size_t)-1) { t.count += r; return t; }
        t.counted = false; if (en != E2BIG) { t.fl = en; reiconv_iconv(cd, nullptr, nullptr, nullptr, nullptr); return t; } grow++;
    }
    t.bad = "flush never fits"; return t;
}
inline Plan wholeplan(size_t n) { return {[n](size_t) { return n; }, [n] { return n * 16 + 64; }}; }
inline u32 unitof(int a) { return specs[a].unit; }
} // namespace rx

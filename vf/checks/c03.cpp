// C03: cutting input or output into pieces never changes the result.  The library is compared with itself.
#define RX_MAIN
#include "stream.hpp"
#include "huge.hpp"
using namespace rx;
// The position of an unrepresentable character may be that of the shift sequences in front of it (which one call takes together with the character):
// both positions are right if the bytes between them decode to nothing.
static bool sameplace(int a, const string &in, size_t p, size_t q) {
    if (p == q) return true; if (p > q) return false; auto f = specs[a].f; bool marks = f >= model::F_U2 && f <= model::F_U32 && specs[a].o == model::O_MARK; if (f != model::F_ESC && f != model::F_UTF7 && !marks) return false;
    auto chars = [&](size_t n) { Cd c(a, idx("ucs4be"), false); return drive(c.h, 1, in.substr(0, n), wholeplan(n), *gi, *go).out; }; cnt["shift_before_refused"]++; return chars(p) == chars(q);
}
static void judge(const Trace &w, const Trace &t, int a, int b, bool d, const string &in, const string &how) {
    cnt["cut_runs"]++; cnt["cut_calls"] += t.calls; if (t.calls > 3) cnt["runs_with_many_calls"]++; if (w.errs.size()) cnt["inputs_with_errors"]++; if (w.end == EINVAL) cnt["truncated_inputs"]++; if (w.fl) cnt["flush_refused"]++;
    Trace x = t; if (w.end == EILSEQ && t.end == EILSEQ && sameplace(a, in, w.endpos, t.endpos)) x.endpos = w.endpos, x.errs = w.errs;
    if (!w.same(x)) fail("cut:" + pname(a, b, d), pname(a, b, d) + " input " + hex(in) + " in one call: " + w.show() + "; " + how + ": " + t.show());
}
static Plan rndplan(size_t n, Rng &g, string &how) {
    u32 st = g.below(5), ro = g.below(5); how = fmt("pieces style %u rooms style %u", st, ro); Rng *r = new Rng(g.next()); std::shared_ptr<Rng> rp(r);
    return {[=](size_t e) { switch (st) { case 0: return n; case 1: return e + 1; case 2: return e + 1 + rp->below(3); case 3: return e + 1 + rp->below(12); default: return rp->chance(30) ? n : e + 1 + rp->below(5); } },
            [=]() -> size_t { switch (ro) { case 0: return n * 16 + 64; case 1: return rp->below(3); case 2: return rp->below(10); case 3: return rp->below(40); default: return rp->chance(30) ? 4000 : rp->below(6); } }};
}
static void one(int a, int b, bool d, const string &in, Rng &g, u32 times) {
    Cd c(a, b, d); if (!c.ok()) return; auto fresh = [&] { return drive(c.h, unitof(a), in, wholeplan(in.size()), *gi, *go); };
    // every run starts on a fresh descriptor
    Trace w = fresh(); seen(hs({3, (u64)a, (u64)b, d, hashbytes(in.data(), in.size())}));
    for (u32 k = 0; k < times; k++) { Cd x(a, b, d); string how; Plan p = rndplan(in.size(), g, how); judge(w, drive(x.h, unitof(a), in, p, *gi, *go), a, b, d, in, how); }
}
static void pairs(u64 i, Rng &g) { int n = encs.size(); u64 q = i % (u64)(n * n); int a = q / n, b = q % n; one(a, b, g.chance(25), geninput(a, b, 20, g), g, 2); }
static void rnd(u64 i, Rng &g) { int a = pickenc(g), b = pickenc(g); string in = geninput(a, b, 60, g); one(a, b, g.chance(25), in, g, 3); if (i % 40009 == 0) sample(pname(a, b, 0) + " " + hex(in)); }
// every two-piece split, every three-piece split of short inputs, every single room
static void all(u64 i, Rng &g) {
    int a = pickenc(g), b = pickenc(g); bool d = g.chance(25); string in = geninput(a, b, 10, g); if (in.size() > 48) in.resize(48); size_t N = in.size(); Cd c(a, b, d); Trace w = drive(c.h, unitof(a), in, wholeplan(N), *gi, *go);
    auto go1 = [&](vector<size_t> cuts, size_t room, const string &how) { Cd x(a, b, d); Plan p{[&](size_t e) { for (size_t c : cuts) if (c > e || (e == 0 && c == 0)) return c; return N; }, [&] { return room; }}; judge(w, drive(x.h, unitof(a), in, p, *gi, *go), a, b, d, in, how); };
    for (size_t k = 0; k <= N; k++) go1({k}, N * 16 + 64, fmt("cut at %zu", k));
    if (N <= 14) for (size_t k = 1; k < N; k++) for (size_t l = k + 1; l < N; l++) go1({k, l}, N * 16 + 64, fmt("cut at %zu and %zu", k, l));
    for (size_t r = 0; r < 24; r++) go1({}, r, fmt("rooms of %zu", r));
    vector<size_t> each; for (size_t k = 1; k < N; k++) each.push_back(k); for (size_t r : {0, 1, 2, 3, 4, 6, 8}) go1(each, r, fmt("byte by byte, rooms of %zu", r)); cnt["all_cut_inputs"]++;
}
static void longs(u64 i, Rng &g) {
    int a = pickenc(g), b = pickenc(g); bool d = g.chance(40); string in = longinput(a, b, 5000 + g.below(90000), g, g.chance(60) ? 0 : 1); Cd c(a, b, d), x(a, b, d); Trace w = drive(c.h, unitof(a), in, wholeplan(in.size()), *gi, *go); ctl->beat++;
    u32 s = 1 + g.below(5000), r = g.below(5000); Rng h(g.next()); Plan p{[&](size_t e) { return e + 1 + h.below(s); }, [&]() -> size_t { return h.below(r + 1); }}; judge(w, drive(x.h, unitof(a), in, p, *gi, *go), a, b, d, in.substr(0, 64), "long pieces"); cnt["long_bytes"] += in.size();
}
static void huge(u64 i, Rng &g) { int a = g.chance(60) ? pickenc(g) : g.below(encs.size()), b = g.chance(60) ? pickenc(g) : g.below(encs.size()); hugecase(a, b, g.chance(40), geninput(a, b, 16, g), g, "cut"); }
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"pairs", pairs, n * n * 4, n * n * 100}, {"rnd", rnd, 400000, 12000000}, {"all", all, 40000, 1500000}, {"huge", huge, 2000, 40000}, {"longs", longs, 400, 12000}}); }

// C17: every allocation failure is reported, nothing leaks, everything stays usable.
#define RX_MAIN
#include "stream.hpp"
#include "alloc.hpp"
#include <cppp/reiconv.hpp>
#include <stdexcept>
#include <system_error>
using namespace rx;
struct Res2 { bool ok = false; int en = 0; string out; bool operator==(const Res2 &) const = default; };
struct Env { int a, b; bool d; string in, na, nb; int old; };
static const char *OPS[] = {"open_from_index", "open_from_codepage", "open_from_name", "open", "convert", "cpp_convert", "convert_static_size", "result_size", "iconv", "cpp_encoding"};
static string bad;      // what is wrong with the caller's side after a failed call
static Res2 streamed(reiconv_t c, const Env &e) { Trace t = drive(c, unitof(e.a), e.in, wholeplan(e.in.size()), *gi, *go); Res2 r; r.en = t.end ? t.end : t.fl; r.ok = !r.en; r.out = t.out; return r; }
static void same_descriptor_works(reiconv_t c, const Env &e) { reiconv_t f = reiconv_open_from_index(encs[e.a].idx, encs[e.b].idx, e.d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); if (!(streamed(c, e) == streamed(f, e))) bad = "the descriptor converts differently afterwards"; reiconv_handle_close(f); }
// runs one operation with the heap watched; releases everything it got
static Res2 run(int op, const Env &e) {
    Res2 r; reiconv_t c = (reiconv_t)-1; enum ConvertFlag f = e.d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS; errno = 0;
    if (op <= 3) {
        { heap::Lib l; if (op == 0) c = reiconv_open_from_index(encs[e.a].idx, encs[e.b].idx, f); else if (op == 1) c = reiconv_open_from_codepage(encs[e.a].cps[0], encs[e.b].cps[0], f); else if (op == 2) c = reiconv_open_from_name(e.na.c_str(), e.nb.c_str(), f); else c = reiconv_open(e.nb.c_str(), e.na.c_str()); r.en = errno; }
        if (c == (reiconv_t)-1) return r; if (!c) { bad = "open returns NULL"; return r; } r = streamed(c, e); r.ok = true; r.en = 0; reiconv_handle_close(c); return r;
    }
    { auto save = heap::fail_at; heap::fail_at = 0; heap::Lib l; auto n = heap::count; c = reiconv_open_from_index(encs[e.a].idx, encs[e.b].idx, f); heap::count = n; heap::fail_at = save; } errno = 0;
    if (op == 4) {
        char *o = nullptr, *was; size_t len = 0; string mark = "old contents of the buffer"; auto save = heap::fail_at; auto n = heap::count; heap::fail_at = 0; if (e.old) { heap::Lib l; o = (char *)malloc(e.old == 1 ? mark.size() : 70000); memcpy(o, mark.data(), mark.size()); } heap::count = n; heap::fail_at = save; was = o; int x;
        { heap::Lib l; x = reiconv_convert(c, e.in.data(), e.in.size(), &o, &len); r.en = errno; } if (x == 0) { r.ok = true; r.en = 0; r.out.assign(o, len); } else if (o && (o != was || memcmp(o, mark.data(), mark.size()))) bad = "the caller's buffer is not as it was";
        if (o && !heap::has(o)) bad = "the caller's buffer was released but the pointer is kept"; else free(o); same_descriptor_works(c, e);
    } else if (op == 5) { try { string s; { heap::Lib l; s = reiconv::convert((reiconv::Encodings)encs[e.a].idx, (reiconv::Encodings)encs[e.b].idx, e.in, e.d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS); } r.ok = true; r.out = s; } catch (const std::system_error &x) { heap::in = false; r.en = x.code().value(); } catch (const std::bad_alloc &) { heap::in = false; r.en = ENOMEM; } catch (...) { heap::in = false; r.en = -1; bad = "another exception"; }
    } else if (op == 6) { size_t cap = e.in.size() * 16 + 64; char *o = (char *)go->set(cap); int x; { heap::Lib l; x = reiconv_convert_static_size(c, e.in.data(), e.in.size(), o, cap); r.en = errno; } r.ok = x == 0; if (r.ok) r.en = 0; same_descriptor_works(c, e); }
    else if (op == 7) { size_t z; { heap::Lib l; z = reiconv_result_size(c, e.in.data(), e.in.size()); r.en = errno; } r.ok = z != (size_t)-1; if (r.ok) { r.en = 0; r.out = std::to_string(z); } same_descriptor_works(c, e); }
    else if (op == 8) { string o(e.in.size() * 16 + 64, 0); char *ip = (char *)e.in.data(), *op_ = o.data(); size_t il = e.in.size(), ol = o.size(); size_t x; { heap::Lib l; x = reiconv_iconv(c, &ip, &il, &op_, &ol); r.en = errno; if (x != (size_t)-1) { x = reiconv_iconv(c, 0, 0, &op_, &ol); r.en = errno; } } r.ok = x != (size_t)-1; if (r.ok) r.en = 0; r.out.assign(o.data(), op_ - o.data()); reiconv_iconv(c, 0, 0, 0, 0); same_descriptor_works(c, e); }
    else if (op == 9) { int k = 0; for (const string &n : {e.na, string("no such name"), string(300, 'x')}) { try { heap::Lib l; reiconv::Encoding x(n); r.out += fmt("%d ", (int)x); } catch (const std::invalid_argument &) { heap::in = false; r.out += "invalid "; } catch (const std::bad_alloc &) { heap::in = false; r.en = ENOMEM; } catch (...) { heap::in = false; bad = "another exception"; } } r.ok = !r.en; }
    heap::in = false; reiconv_handle_close(c); return r;
}
static void one(u64 i, Rng &g) {
    heap::hook(); int op = i % 10; Env e; e.a = g.chance(60) ? pickenc(g) : g.below(encs.size()); e.b = g.chance(60) ? pickenc(g) : g.below(encs.size()); if (op == 1) { while (encs[e.a].cps.empty()) e.a = g.below(encs.size()); while (encs[e.b].cps.empty()) e.b = g.below(encs.size()); } e.d = g.chance(40); bool marks = specs[e.a].f >= model::F_U2 && specs[e.a].f <= model::F_U32 && specs[e.a].o == model::O_MARK; (void)marks;
    u32 len = g.chance(70) ? 20 : g.chance(70) ? 600 : 5000; e.in = geninput(e.a, e.b, len, g, g.chance(70) ? 0 : -1); if (g.chance(5)) e.in.clear(); if (marks) e.in = encode(e.a, {0xfeff}) + e.in; e.na = encs[e.a].names[0]; e.nb = encs[e.b].names[0]; if (g.chance(20)) e.na += string(g.below(3000), '-'); if (op == 3 && e.d) e.nb += "//IGNORE"; e.old = g.below(3);
    string id = string(OPS[op]) + ":" + pname(e.a, e.b, e.d);
    auto attempt = [&](u64 at, bool rest, Res2 &r) -> size_t { bad.clear(); size_t l0 = heap::live; u64 b0 = heap::badfree; heap::count = 0; heap::failed = 0; heap::fail_at = at; heap::fail_rest = rest; r = run(op, e); heap::fail_at = 0; heap::in = false; u64 f = heap::failed; cnt["operations"]++;
        string how = at ? fmt("with allocation %llu%s failing", (unsigned long long)at, rest ? " and all later ones" : "") : string("with memory");
        if (heap::badfree != b0) fail("badfree:" + string(OPS[op]), id + " " + how + ": a block that was not allocated (any more) is released, input " + hex(e.in));
        if (!bad.empty()) fail("state:" + string(OPS[op]), id + " " + how + ": " + bad + ", input " + hex(e.in)); return heap::live - l0 + (f << 32); };
    Res2 base, r; attempt(0, false, base); u64 n = heap::count; size_t d = attempt(0, false, r); if (d) fail("leak:" + string(OPS[op]), id + fmt(" with memory: %zu blocks more, input ", d) + hex(e.in)); if (!(r == base)) fail("unstable:" + string(OPS[op]), id); cnt["allocations_seen"] += n;
    for (u64 k = 1; k <= n && k <= 24; k++) for (int rest = 0; rest < 2; rest++) {
        size_t x = attempt(k, rest, r); u64 f = x >> 32; if (!f) continue; cnt["faults_injected"]++; cnt[string("faults_") + OPS[op]]++; seen(hs({17, (u64)op, k, (u64)rest, (u64)e.old, (u64)e.d, (u64)base.ok, std::min<u64>(e.in.size() / 64, 40)}));
        string how = fmt(" with allocation %llu%s failing", (unsigned long long)k, rest ? " and all later ones" : "");
        if (r.ok ? !(r == base) : r.en != ENOMEM && (base.ok || r.en != base.en)) fail("verdict:" + string(OPS[op]), id + how + fmt(": ok=%d errno %d result %s", r.ok, r.en, hex(r.out).c_str()) + fmt("; with memory ok=%d errno %d %s, input ", base.ok, base.en, hex(base.out).c_str()) + hex(e.in)); else cnt[r.ok ? "faults_absorbed" : "faults_reported"]++;
        if ((u32)x) { Res2 r2; size_t y = attempt(k, rest, r2); if ((u32)y) fail("leak:" + string(OPS[op]), id + how + fmt(": %u blocks more each time, input ", (u32)y) + hex(e.in)); }
        Res2 again; attempt(0, false, again); if (!(again == base)) fail("later:" + string(OPS[op]), id + how + ": a later call with memory gives another result");
    }
    if (i % 5003 == 0) sample(id + fmt(" allocations %llu input ", (unsigned long long)n) + hex(e.in).substr(0, 80));
}
int main(int c, char **v) { guards(); return rx_main(c, v, {{"faults", one, 60000, 2000000}}); }

// C18: over any history the heap returns to where it started; nothing is released twice.
#define RX_MAIN
#include "stream.hpp"
#include "alloc.hpp"
#include <cppp/reiconv.hpp>
#include <stdexcept>
#include <system_error>
using namespace rx;
struct D { reiconv_t h; int a, b; };
static string history(u64 s, bool faults) {
    Rng g(s); string log; vector<D> ds; vector<char *> bufs; u32 n = 4 + g.below(30);
    auto note_ = [&](const char *o) { if (log.size() < 1500) { log += o; log += ' '; } cnt["api_calls"]++; };
    for (u32 k = 0; k < n; k++) {
        int a = pickenc(g), b = pickenc(g); bool d = g.chance(30); enum ConvertFlag f = d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS; string in = geninput(a, b, g.chance(90) ? 20 : 2500, g); string na = encs[a].names[0], nb = encs[b].names[0]; if (g.chance(10)) na = "unknown-name"; if (g.chance(5)) nb += string(g.below(600), 'q'); u32 op = g.below(14);
#if !defined(RX_ASAN)
        heap::count = 0; heap::fail_at = faults && g.chance(25) ? 1 + g.below(3) : 0; heap::fail_rest = g.chance(50);
#else
        g.next(); g.next();
#endif
        reiconv_t h = (reiconv_t)-1; string tb = nb + (d ? "//IGNORE" : "");
        if (op < 4) { { heap::Lib l; if (op == 0) h = reiconv_open_from_index(encs[a].idx, encs[b].idx, f); else if (op == 1) h = reiconv_open_from_name(na.c_str(), nb.c_str(), f); else if (op == 2) h = reiconv_open(tb.c_str(), na.c_str()); else h = reiconv_open_from_codepage(g.chance(50) ? 65001 : (int)g.below(70000), g.chance(50) ? 936 : (int)g.below(70000), f); } note_(h == (reiconv_t)-1 ? "open!" : "open"); if (h != (reiconv_t)-1) { if (op == 0) ds.push_back({h, a, b}); else { heap::Lib l; if (g.chance(50)) { char o[64], *op_ = o; size_t ol = 64; reiconv_iconv(h, 0, 0, &op_, &ol); } reiconv_handle_close(h); } } else cnt["failed_opens"]++; }
        else if (op == 4 || op == 5) { try { string r; { heap::Lib l; r = reiconv::convert((reiconv::Encodings)encs[a].idx, (reiconv::Encodings)encs[b].idx, in, d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS); } note_("cpp"); } catch (const std::exception &) { heap::in = false; note_("cpp!"); cnt["exceptions"]++; } }
        else if (op == 6) { try { { heap::Lib l; reiconv::Encoding e(na.c_str()); } note_("enc"); } catch (const std::exception &) { heap::in = false; note_("enc!"); cnt["exceptions"]++; } }
        else if (!ds.empty()) {
            D &x = ds[g.below(ds.size())]; in = geninput(x.a, x.b, g.chance(85) ? 20 : 2500, g);
            if (op < 10) { char *o = nullptr; size_t len = 0; bool reuse = !bufs.empty() && g.chance(50); u32 w = 0; if (reuse) { w = g.below(bufs.size()); o = bufs[w]; bufs.erase(bufs.begin() + w); } int r; { heap::Lib l; r = reiconv_convert(x.h, in.data(), in.size(), &o, &len); } note_(r ? "convert!" : reuse ? "convert(reuse)" : "convert"); cnt[r ? "failed_converts" : "converts"]++; if (reuse) cnt["reused_buffers"]++; if (o) bufs.push_back(o); }
            else if (op == 10) { size_t cap = g.below(60); char *o = (char *)go->set(cap); { heap::Lib l; reiconv_convert_static_size(x.h, in.data(), in.size(), o, cap); } note_("static"); }
            else if (op == 11) { { heap::Lib l; reiconv_result_size(x.h, in.data(), in.size()); } note_("size"); }
            else if (op == 12) { char *ip = in.data(); size_t il = in.size(), ol = g.below(80); char *o = (char *)go->set(ol); { heap::Lib l; reiconv_iconv(x.h, &ip, &il, &o, &ol); if (g.chance(50)) reiconv_iconv(x.h, 0, 0, 0, 0); } note_("iconv"); }
            else { u32 w = g.below(ds.size()); { heap::Lib l; reiconv_handle_close(ds[w].h); } ds.erase(ds.begin() + w); note_("close"); }
        }
        heap::fail_at = 0; if (!bufs.empty() && g.chance(30)) { u32 w = g.below(bufs.size()); free(bufs[w]); bufs.erase(bufs.begin() + w); }
    }
    while (!ds.empty()) { u32 w = g.below(ds.size()); heap::Lib l; reiconv_handle_close(ds[w].h); ds.erase(ds.begin() + w); } for (char *p : bufs) free(p); return log;
}
static void one(u64 i, Rng &g) {
    static bool init = false; if (!init) { heap::hook(); init = true; } u64 s = g.next(); bool faults = i % 3 == 2; size_t l0 = heap::live; u64 b0 = heap::badfree, t0 = heap::total; string log = history(s, faults); size_t l1 = heap::live; cnt["blocks_watched"] += heap::total - t0; cnt["histories"]++; seen(hs({18, hashbytes(log.data(), log.size())}));
    if (heap::badfree != b0) fail("badfree", "a block is released that is not live: " + log);
    if (l1 != l0) { history(s, faults); size_t l2 = heap::live; if (l2 != l1) fail("leak", fmt("%lld blocks more each time: ", (long long)(l2 - l1)) + log); else cnt["one_time_allocations"]++; }
    if (i % 10007 == 0) sample(log.substr(0, 300));
}
// the same failing call many times: the number of live blocks must not grow
static void same(u64 i, Rng &g) {
    int a = g.below(encs.size()), b = g.below(encs.size()); string in = geninput(a, b, 40, g, 2); reiconv_t h = reiconv_open_from_index(encs[a].idx, encs[b].idx, REICONV_NO_FLAGS); auto round = [&] { char *o = nullptr; size_t l; { heap::Lib z; reiconv_convert(h, in.data(), in.size(), &o, &l); } free(o); try { heap::Lib z; reiconv::convert((reiconv::Encodings)encs[a].idx, (reiconv::Encodings)encs[b].idx, in); } catch (const std::exception &) { heap::in = false; } heap::in = false; { heap::Lib z; reiconv_t q = reiconv_open("UTF-8", "nope"); if (q != (reiconv_t)-1) reiconv_handle_close(q); reiconv_open_from_name("nope", "UTF-8", REICONV_NO_FLAGS); reiconv_open_from_codepage(-5, 65001, REICONV_NO_FLAGS); } };
    round(); size_t l0 = heap::live; for (int k = 0; k < 20; k++) round(); if (heap::live >= l0 + 20) fail("grows:" + pname(a, b, false), fmt("%zu blocks more after 20 rounds, input ", heap::live - l0) + hex(in)); reiconv_handle_close(h); cnt["rounds"] += 21;
}
int main(int c, char **v) { guards(); return rx_main(c, v, {{"history", one, 60000, 2500000}, {"same", same, 8000, 200000}}); }

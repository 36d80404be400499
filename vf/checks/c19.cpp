// C19: threads with descriptors of their own get the results they would get alone; no data race (TSan).
// The threads run first, on cold state; the same jobs are then run one after another and compared.
#define RX_MAIN
#include "stream.hpp"
#include <cppp/reiconv.hpp>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <sched.h>
using namespace rx;
struct Job { u32 op; int a, b; bool d; string in, na, nb; int ca, cb; u64 s; };
struct Own { Guard gi{1 << 16}, go{1 << 20}; };
static std::atomic<u64> arrived, epoch; static std::atomic<u32> overlap, busy;
static void nap(Rng &g) { u32 k = g.below(20); if (k == 0) sched_yield(); else if (k == 1) { for (volatile int i = 0; i < 300; i++) ; } }
static u64 hstr(const string &s, u64 h) { return mix(hashbytes(s.data(), s.size()) ^ h); }
static u64 htrace(const Trace &t) { u64 h = hstr(t.out, 5); h = hs({h, (u64)t.end, t.endpos, (u64)t.fl, t.counted ? t.count : 0, t.errs.size()}); return hstr(t.bad, h); }
// everything a job shows to its caller, as one number
static u64 perform(const Job &j, Own &o, reiconv_t given) {
    Rng g(j.s); enum ConvertFlag f = j.d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS; u64 r = j.op;
    reiconv_t h = given; if (j.op < 7 && h == (reiconv_t)-1) { u32 how = g.below(3); errno = 0; if (how == 0) h = reiconv_open_from_index(encs[j.a].idx, encs[j.b].idx, f); else if (how == 1) h = reiconv_open_from_name(j.na.c_str(), j.nb.c_str(), f); else { string t = j.nb + (j.d ? "//IGNORE" : ""); h = reiconv_open(t.c_str(), j.na.c_str()); } if (h == (reiconv_t)-1) return hs({r, 1, (u64)errno}); }
    switch (j.op) {
    case 0: case 1: case 2: case 3: { Plan pl = j.op == 0 ? wholeplan(j.in.size()) : Plan{[&](size_t p) { nap(g); return p + 1 + g.below(j.op == 1 ? 2 : 30); }, [&] { nap(g); return (size_t)g.below(j.op == 1 ? 12 : 90); }}; for (int k = 0; k < 2; k++) { Trace t = drive(h, unitof(j.a), j.in, pl, o.gi, o.go, 3); r = hs({r, htrace(t)}); reiconv_iconv(h, 0, 0, 0, 0); nap(g); } break; }
    case 4: { errno = 0; size_t n = reiconv_result_size(h, (const char *)o.gi.load(j.in.data(), j.in.size()), j.in.size()); r = hs({r, n, n == (size_t)-1 ? (u64)errno : 0}); break; }
    case 5: { char *p = nullptr; size_t n = 0; errno = 0; int q = reiconv_convert(h, (const char *)o.gi.load(j.in.data(), j.in.size()), j.in.size(), &p, &n); r = hs({r, (u64)q, q ? (u64)errno : 0}); if (!q) r = hstr(string(p ? p : "", p ? n : 0), r); free(p); break; }
    case 6: { size_t cap = g.below(200); char *p = (char *)o.go.set(cap, 0x5a); errno = 0; int q = reiconv_convert_static_size(h, (const char *)o.gi.load(j.in.data(), j.in.size()), j.in.size(), p, cap); r = hs({r, (u64)q, q ? (u64)errno : 0}); if (!q) r = hstr(string(p, cap), r); break; }
    case 7: { try { string s = g.chance(50) ? reiconv::convert((reiconv::Encodings)encs[j.a].idx, (reiconv::Encodings)encs[j.b].idx, j.in, j.d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS) : reiconv::convert(j.na.c_str(), j.nb.c_str(), j.in, j.d ? reiconv::ConvertFlag::DISCARD_ILSEQ : reiconv::ConvertFlag::NO_FLAGS); r = hstr(s, r); } catch (const std::system_error &e) { r = hs({r, 2, (u64)e.code().value()}); } catch (const std::exception &) { r = hs({r, 3}); } break; }
    case 8: for (int k = 0; k < 6; k++) { const EncInfo &e = encs[g.below(encs.size())]; string n = e.names[g.below(e.names.size())]; if (g.chance(30)) n += 'x'; if (g.chance(30)) for (char &c : n) c = g.chance(50) ? tolower(c) : c; r = hs({r, (u64)reiconv_lookup_from_name(n.c_str())}); char buf[600]; memset(buf, 0, sizeof buf); r = hs({r, (u64)reiconv_name_canonicalize(n.c_str(), buf)}); r = hstr(buf, r); nap(g); } break;
    case 9: for (int k = 0; k < 6; k++) { r = hs({r, (u64)reiconv_lookup_from_codepage(k < 2 ? j.ca : (int)g.below(66000))}); int x = -7; try { reiconv::Encoding e(j.cb); x = (int)e; } catch (const std::invalid_argument &) {} r = hs({r, (u64)x}); nap(g); } break;
    default: { errno = 0; reiconv_t q = reiconv_open_from_codepage(j.ca, j.cb, f); if (q == (reiconv_t)-1) { r = hs({r, 4, (u64)errno}); break; } Trace t = drive(q, unitof(j.a), j.in, wholeplan(j.in.size()), o.gi, o.go, 2); r = hs({r, htrace(t)}); reiconv_handle_close(q); }
    }
    if (j.op < 7) reiconv_handle_close(h);
    return r;
}
static string show(const Job &j) { return fmt("op %u ", j.op) + pname(j.a, j.b, j.d) + " input " + hex(j.in); }
static Job mkjob(int a, int b, Rng &g, u32 len) {
    Job j; j.op = g.below(11); j.a = a; j.b = b; j.d = g.chance(30); j.in = geninput(a, b, len, g); j.s = g.next(); const EncInfo &x = encs[a], &y = encs[b]; j.na = x.names[g.below(x.names.size())]; j.nb = y.names[g.below(y.names.size())]; j.ca = x.cps.empty() ? (int)g.below(70000) : x.cps[g.below(x.cps.size())]; j.cb = y.cps.empty() ? (int)g.below(70000) : y.cps[g.below(y.cps.size())];
    if (j.op == 10) { if (x.cps.empty() || y.cps.empty()) j.op = 0; } return j;
}
static void session(u64 i, Rng &g, const vector<std::pair<int, int>> &pairs, u32 rounds, u32 len) {
    u32 T = 2 + g.below(4); bool shared_jobs = g.chance(40); vector<vector<Job>> jobs(T); vector<vector<u64>> res(T), ref(T); vector<vector<reiconv_t>> given(T);
    for (u32 t = 0; t < T; t++) for (u32 k = 0; k < rounds; k++) for (auto &p : pairs) { if (shared_jobs && t) { jobs[t].push_back(jobs[0][jobs[t].size()]); } else jobs[t].push_back(mkjob(p.first, p.second, g, len)); }
    for (u32 t = 0; t < T; t++) { res[t].resize(jobs[t].size()); ref[t].resize(jobs[t].size()); for (auto &j : jobs[t]) given[t].push_back(j.op < 7 && g.chance(15) ? reiconv_open_from_index(encs[j.a].idx, encs[j.b].idx, j.d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS) : (reiconv_t)-1); }   // some descriptors are opened here and handed to the thread
    static vector<std::unique_ptr<Own>> owns; while (owns.size() < 8) owns.push_back(std::make_unique<Own>());
    arrived.store(0, std::memory_order_relaxed); overlap.store(0, std::memory_order_relaxed); busy.store(0, std::memory_order_relaxed); vector<std::thread> th;
    for (u32 t = 0; t < T; t++) th.emplace_back([&, t] {
        arrived.fetch_add(1, std::memory_order_relaxed); while (arrived.load(std::memory_order_relaxed) < T) sched_yield();      // relaxed: the barrier itself orders nothing
        for (size_t k = 0; k < jobs[t].size(); k++) { if (busy.fetch_add(1, std::memory_order_relaxed)) overlap.fetch_add(1, std::memory_order_relaxed); res[t][k] = perform(jobs[t][k], *owns[t], given[t][k]); busy.fetch_sub(1, std::memory_order_relaxed); }
    });
    for (auto &x : th) x.join();
    u64 hh = 19; for (u32 t = 0; t < T; t++) for (size_t k = 0; k < jobs[t].size(); k++) { const Job &j = jobs[t][k]; u64 r; if (shared_jobs && t) r = ref[0][k]; else r = ref[t][k] = perform(j, *owns[0], (reiconv_t)-1); bool gv = given[t][k] != (reiconv_t)-1; if (gv) { reiconv_t q = reiconv_open_from_index(encs[j.a].idx, encs[j.b].idx, j.d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); r = perform(j, *owns[0], q); } hh = hs({hh, (u64)j.a, (u64)j.b, j.op}); cnt["jobs_compared"]++; cnt[fmt("op%u", j.op)]++; if (gv) cnt["handed_over"]++; if (r != res[t][k]) fail(fmt("result:op%u:", j.op) + pname(j.a, j.b, j.d), fmt("%u threads: a job gives another result than alone: ", T) + show(j)); }
    seen(hh); cnt["sessions"]++; cnt["threads"] += T; cnt["overlapping_calls"] += overlap.load(); if (shared_jobs) cnt["same_jobs_in_all_threads"]++; ctl->beat++;
    if (i % 997 == 0) sample(fmt("%u threads, %zu jobs each, %u calls began while another thread was inside: ", T, jobs[0].size(), overlap.load()) + show(jobs[0][0]));
}
static void cold(u64 i, Rng &g) { int n = encs.size(), a = i % n; vector<std::pair<int, int>> p; int u = idx("utf8"); p.push_back({a, u}); p.push_back({u, a}); p.push_back({a, (int)g.below(n)}); session(i, g, p, 2, 12); }
static void mixed(u64 i, Rng &g) { vector<std::pair<int, int>> p; for (u32 k = 1 + g.below(3); k--;) p.push_back({pickenc(g), pickenc(g)}); session(i, g, p, 2 + g.below(3), 25); }
static void longs(u64 i, Rng &g) { vector<std::pair<int, int>> p; p.push_back({pickenc(g), pickenc(g)}); session(i, g, p, 2, 1500); cnt["long_sessions"]++; }
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"cold", cold, n * 4, n * 60}, {"mixed", mixed, 6000, 150000}, {"longs", longs, 100, 3000}}); }

// C13: after a reset or a one-shot call a descriptor behaves like a new one; descriptors do not influence one another.
#define RX_MAIN
#include "stream.hpp"
using namespace rx;
static bool marks(int a) { return specs[a].f >= model::F_U2 && specs[a].f <= model::F_U32 && specs[a].o == model::O_MARK; }
// A history on a descriptor; returns how it is known to end.  The last step brings the descriptor back to the start of a stream.
// bo (byte order of the unmarked Unicode encodings): tracked with the specification's decoder, -1 when the outcome leaves it open.
static int order_after(int a, int b, bool d, int bo, const string &in, bool &done) {
    model::Conv m(specs[a], specs[b], d); m.bo = bo; string o(in.size() * 16 + 256, 0); model::Res r = m.convert((u8 *)in.data(), in.size(), o.size() - 100, nullptr, (u8 *)o.data()); done = r.ret != (size_t)-1; return m.bo;
}
static string history(reiconv_t cd, int a, int b, bool d, Rng &g, int &bo) {
    string log; u32 steps = 1 + g.below(4); bool open = false;
    auto conv = [&](const string &in, size_t cap) { const char *p = (const char *)gi->load(in.data(), in.size()); char *ip = (char *)p, *op = (char *)go->set(cap); size_t il = in.size(), ol = cap; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); log += fmt(" convert(%s,room %zu)=%d/%d", hex(in.data(), in.size(), 40).c_str(), cap, (int)r, r == (size_t)-1 ? errno : 0); if (marks(a)) bo = -1; };
    for (u32 k = 0; k < steps; k++) {
        string in = geninput(a, b, 12, g); u32 what = g.below(9); bool done; int nb;
        if (what < 3) { conv(in, pickcap(g)); open = true; continue; }
        if (what == 3) { size_t cap = g.below(4); char *op = (char *)go->set(cap); size_t ol = cap; size_t r = reiconv_iconv(cd, 0, 0, &op, &ol); log += fmt(" flush(room %zu)=%d", cap, (int)r); if (r == (size_t)-1) open = true; else open = false; continue; }
        // one-shot calls start at the start of a stream
        if (open) { reiconv_iconv(cd, 0, 0, 0, 0); open = false; log += " reset"; }
        const char *p = (const char *)gi->load(in.data(), in.size()); nb = bo < 0 ? -1 : order_after(a, b, d, bo, in, done);
        if (what < 6) { size_t z = reiconv_result_size(cd, p, in.size()); log += fmt(" result_size(%s)=%d", hex(in.data(), in.size(), 40).c_str(), (int)z); cnt["oneshot_size"]++; if (z == (size_t)-1) cnt["oneshot_failed"]++; }
        else if (what < 8) { size_t cap = g.chance(50) ? in.size() * 16 + 64 : g.below(20); char *op = (char *)go->set(cap); int r = reiconv_convert_static_size(cd, p, in.size(), op, cap); log += fmt(" static(%s,%zu)=%d", hex(in.data(), in.size(), 40).c_str(), cap, r); cnt["oneshot_static"]++; if (r) cnt["oneshot_failed"]++; bo = r == 0 ? nb : -1; }
        else { char *o = nullptr; size_t l; int r = reiconv_convert(cd, p, in.size(), &o, &l); free(o); log += fmt(" convert_alloc(%s)=%d", hex(in.data(), in.size(), 40).c_str(), r); cnt["oneshot_alloc"]++; if (r) cnt["oneshot_failed"]++; bo = r == 0 ? nb : -1; }
    }
    if (open) { u32 w = g.below(3); if (w == 0) { for (int k = 0; k < 12; k++) { size_t cap = g.chance(50) ? 64 : k; char *op = (char *)go->set(cap); size_t ol = cap; size_t r = reiconv_iconv(cd, 0, 0, &op, &ol); if (r != (size_t)-1) { open = false; log += " flush"; break; } if (errno != E2BIG) break; } } if (open) { char *nul = nullptr; if (w == 1) { size_t z = 0; reiconv_iconv(cd, &nul, &z, 0, 0); } else reiconv_iconv(cd, 0, 0, 0, 0); log += " reset"; } cnt["streams_reset"]++; }
    return log;
}
static void after(u64 i, Rng &g) {
    int n = encs.size(), a, b; if (g.chance(40)) { u64 q = i % (u64)(n * n); a = q / n; b = q % n; } else { a = pickenc(g); b = pickenc(g); } bool d = g.chance(25); Cd x(a, b, d), y(a, b, d); int bo = 0; string log = history(x.h, a, b, d, g, bo); string in = geninput(a, b, 20, g, g.chance(50) ? 0 : -1);
    if (marks(a)) {   // put the new descriptor into the remembered order; if the history leaves the order open, say it in the input
        u32 u = specs[a].unit; u8 m[4]; if (bo < 0) { Spec::wr(m, 0xfeff, u, g.chance(50)); Cd probe(a, idx("ucs4be"), d); in = string((char *)m, u) + in;
            // a mark read in the wrong order is a mark of the other order: the text after it is read the same way
            } else if (bo == 1) { Spec::wr(m, 0xfeff, u, true); char *ip = (char *)m, o[64], *op = o; size_t il = u, ol = 64; reiconv_iconv(y.h, &ip, &il, &op, &ol); reiconv_iconv(y.h, 0, 0, 0, 0); cnt["order_remembered"]++; }
    }
    Rng h = g; u32 st = g.below(3); size_t N = in.size(); auto plan = [&](Rng &r) { Plan p = wholeplan(N); if (st) { p.piece = [&r](size_t e) { return e + 1 + r.below(6); }; p.room = [&r, st]() -> size_t { return r.below(st == 1 ? 12 : 60); }; } return p; };
    Rng r1(g.s), r2(g.s); Trace t1 = drive(x.h, unitof(a), in, plan(r1), *gi, *go, 3), t2 = drive(y.h, unitof(a), in, plan(r2), *gi, *go, 3); cnt["compared"]++; seen(hs({13, (u64)a, (u64)b, d, hashbytes(log.data(), log.size()), hashbytes(in.data(), in.size())}));
    if (!t1.same(t2) || t1.calls != t2.calls || t1.count != t2.count) fail("after:" + pname(a, b, d), pname(a, b, d) + " after" + log + " input " + hex(in) + ": " + t1.show() + fmt(" count %zu calls %u", t1.count, t1.calls) + "; a new descriptor: " + t2.show() + fmt(" count %zu calls %u", t2.count, t2.calls));
    // and one-shot calls after the history
    if (g.chance(30) && !marks(a)) { reiconv_iconv(x.h, 0, 0, 0, 0); Cd z(a, b, d); const char *p = (const char *)gi->load(in.data(), in.size()); size_t s1 = reiconv_result_size(x.h, p, in.size()), s2 = reiconv_result_size(z.h, p, in.size()); if (s1 != s2) fail("after-size:" + pname(a, b, d), pname(a, b, d) + " after" + log + " and input " + hex(in) + fmt(": size %lld, new %lld", (long long)s1, (long long)s2)); }
    if (i % 30011 == 0) sample(pname(a, b, d) + " after" + log.substr(0, 200) + " input " + hex(in));
}
// many live descriptors used in turn give what each gives alone
struct Job { int a, b; bool d; string in; u64 s; };
struct Step { reiconv_t cd; const Job *j; Rng r; size_t p = 0, end = 0; bool over = false; string out; vector<int> ev; int tries = 0;
    Step(const Job *x) : j(x), r(x->s) { cd = reiconv_open_from_index(encs[x->a].idx, encs[x->b].idx, x->d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); } ~Step() { reiconv_handle_close(cd); }
    void go1(Guard &gi, Guard &go) {
        if (tries++ > 200) { over = true; return; } size_t N = j->in.size(); if (p >= end) end = std::min(N, p + 1 + r.below(12)); size_t cap = r.below(50);
        if (p >= N || r.chance(6)) { char *o0 = (char *)go.set(64), *op = o0; size_t ol = 64; size_t q = reiconv_iconv(cd, 0, 0, &op, &ol); out.append(o0, op - o0); ev.push_back((int)q); if (q == (size_t)-1) { ev.push_back(errno); reiconv_iconv(cd, 0, 0, 0, 0); } if (p >= N) over = true; return; }
        char *i0 = (char *)gi.load(j->in.data() + p, end - p), *ip = i0, *o0 = (char *)go.set(cap), *op = o0; size_t il = end - p, ol = cap; size_t q = reiconv_iconv(cd, &ip, &il, &op, &ol); int en = errno; out.append(o0, op - o0); p += ip - i0; ev.push_back((int)q); ev.push_back(ip - i0); if (q == (size_t)-1) { ev.push_back(en); if (en == EILSEQ) p = std::min(N, p + 1); if (en == EINVAL) { if (end >= N) p = N; else end = std::min(N, end + 1 + r.below(5)); } }
    } };
static void multi(u64 i, Rng &g) {
    u32 n = i % 301 == 7 ? 400 : 2 + g.below(6); if (n == 400) cnt["many_live"]++; vector<Job> J; for (u32 k = 0; k < n; k++) { int a = pickenc(g), b = pickenc(g); if (k && g.chance(40)) a = J[0].a, b = J[0].b; J.push_back({a, b, g.chance(20), geninput(a, b, 20, g), g.next()}); }
    vector<std::unique_ptr<Step>> alone, tog; for (auto &j : J) { auto s = std::make_unique<Step>(&j); while (!s->over) s->go1(*gi, *go); alone.push_back(std::move(s)); } for (auto &j : J) tog.push_back(std::make_unique<Step>(&j));
    for (;;) { u32 left = 0; for (auto &s : tog) left += !s->over; if (!left) break; auto &s = tog[g.below(n)]; if (!s->over) { s->go1(*gi, *go); if (g.chance(10)) { Cd tmp(pickenc(g), pickenc(g), false); char *o = nullptr; size_t l; reiconv_convert(tmp.h, "abc\xe9", 4, &o, &l); free(o); } } }
    for (u32 k = 0; k < n; k++) { cnt["interleaved"]++; if (alone[k]->out != tog[k]->out || alone[k]->ev != tog[k]->ev) fail("multi:" + pname(J[k].a, J[k].b, J[k].d), pname(J[k].a, J[k].b, J[k].d) + " input " + hex(J[k].in) + " alone " + hex(alone[k]->out) + " among others " + hex(tog[k]->out)); }
}
// one descriptor through very many streams: the last is converted like the first
static void life(u64 i, Rng &g) {
    int n = encs.size(), a = i < (u64)n ? i : pickenc(g), b = i < (u64)n ? (g.chance(40) ? idx("utf8") : (int)i) : pickenc(g); if (g.chance(50)) std::swap(a, b); bool d = g.chance(25); string in = geninput(a, b, 3, g, g.chance(70) ? 0 : -1); if (in.size() > 40) in.resize(40);
    if (marks(a)) { bool done; if (order_after(a, b, d, 0, in, done) != 0) return; } Cd x(a, b, d); u32 mode = g.below(4), rounds = g.chance(15) ? 70000 : 700; char *p = (char *)gi->load(in.data(), in.size()); size_t cap = in.size() * 16 + 64; char *o0 = (char *)go->set(cap); string first; long long v0 = 0; cnt["lives"]++; if (rounds > 65536) cnt["long_lives"]++; seen(hs({131, (u64)a, (u64)b, d, mode, hashbytes(in.data(), in.size())}));
    for (u32 k = 0; k < rounds; k++) {
        char *ip = p, *op = o0; size_t il = in.size(), ol = cap; long long v; cnt["streams"]++;
        if (mode == 0) { v = (long long)reiconv_result_size(x.h, p, il); } else if (mode == 1) { v = reiconv_convert_static_size(x.h, p, il, o0, cap); }
        else { size_t r = reiconv_iconv(x.h, &ip, &il, &op, &ol); v = (long long)r * 100 + (r == (size_t)-1 ? errno : 0) + (long long)(ip - p) * 1000003; if (mode == 2) { r = reiconv_iconv(x.h, 0, 0, &op, &ol); v = v * 31 + (r == (size_t)-1 ? 7 + errno : r); if (r == (size_t)-1) reiconv_iconv(x.h, 0, 0, 0, 0); } else reiconv_iconv(x.h, 0, 0, 0, 0); }
        if (k == 0) { v0 = v; first.assign(o0, op - o0); continue; }
        if (v != v0 || first.size() != (size_t)(op - o0) || memcmp(first.data(), o0, first.size())) { fail("life:" + pname(a, b, d), pname(a, b, d) + fmt(" stream %u (mode %u) of ", k + 1, mode) + hex(in) + fmt(": verdict %lld, first %lld, output ", v, v0) + hex(o0, op - o0, 80) + ", first " + hex(first)); return; }
    }
}
int main(int c, char **v) { guards(); u64 n = encs.size(); return rx_main(c, v, {{"after", after, 900000, 30000000}, {"multi", multi, 60000, 2000000}, {"life", life, 3000, 60000}}); }

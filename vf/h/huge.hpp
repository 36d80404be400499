// Calls with more than 4 GiB of input or room: the library compared with itself on the same data with ordinary sizes.
// The far part is never touched (unreserved zero pages), so a call costs no more than an ordinary one.
#pragma once
#include "gen.hpp"
namespace rx {
struct Huge {
    static constexpr size_t W = (size_t)5 << 30; u8 *base;
    Huge() { base = (u8 *)mmap(0, W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(3); } }
    ~Huge() { munmap(base, W); }
};
struct One { size_t ret; int en; size_t used, made; bool exact; string out; string show() const { return fmt("ret=%lld errno=%d used=%zu made=%zu%s [%s]", (long long)ret, ret == (size_t)-1 ? en : 0, used, made, exact ? "" : " counters disagree with the pointers", hex(out).c_str()); } bool operator==(const One &o) const { return ret == o.ret && (ret != (size_t)-1 || en == o.en) && used == o.used && made == o.made && exact == o.exact && out == o.out; } };
inline One onecall(int a, int b, bool d, const u8 *in, size_t n, u8 *out, size_t cap) {
    reiconv_t cd = reiconv_open_from_index(encs[a].idx, encs[b].idx, d ? REICONV_DISCARD_ILSEQ : REICONV_NO_FLAGS); char *ip = (char *)in, *op = (char *)out; size_t il = n, ol = cap; One o; errno = 0;
    o.ret = reiconv_iconv(cd, &ip, &il, &op, &ol); o.en = errno; o.used = (u8 *)ip - in; o.made = (u8 *)op - out; o.exact = o.used <= n && o.made <= cap && o.used + il == n && o.made + ol == cap; o.out.assign((char *)out, std::min<size_t>(o.made, 100000)); reiconv_handle_close(cd); return o;
}
inline void hugecase(int a, int b, bool d, const string &in, Rng &g, const char *tag) {
    static Huge h; string nm = fmt("%s->%s%s", encs[a].id, encs[b].id, d ? "//IGNORE" : ""); vector<u8> o(in.size() * 16 + 70000);
    size_t W = ((size_t)1 << 32) + g.below(in.size() * 2 + 3);      // a truncated counter is then about as large as the data itself
    if (g.chance(30)) W = ((size_t)1 << 31) + g.below(in.size() * 2 + 3);
    One w = onecall(a, b, d, (const u8 *)in.data(), in.size(), o.data(), in.size() * 16 + 64), x = onecall(a, b, d, (const u8 *)in.data(), in.size(), h.base, W); cnt["huge_rooms"]++;
    if (!(w == x)) fail(string(tag) + ":huge-room:" + nm, nm + " input " + hex(in) + " with ordinary room: " + w.show() + fmt("; with room %zu: ", W) + x.show());
    // the far input: zeros after the text; judged only if the call stops within the first 4096 bytes after it
    // (a converter may use the room after what it reports as scratch space)
    memset(h.base, 0, std::min<size_t>(x.made, 1 << 20) + 70000); string t = in + string(4096, '\0'); memcpy(h.base, in.data(), in.size()); size_t cap = g.below(in.size() * 2 + 40);
    w = onecall(a, b, d, (const u8 *)t.data(), t.size(), o.data(), cap); if (w.ret == (size_t)-1 && w.en != EINVAL && w.used < in.size() + 3000) { x = onecall(a, b, d, h.base, W, o.data(), cap); cnt["huge_inputs"]++;
        if (!(w == x)) fail(string(tag) + ":huge-input:" + nm, nm + " input " + hex(in) + " followed by 4096 zeros: " + w.show() + fmt("; followed by zeros up to %zu bytes: ", W) + x.show()); }
    memset(h.base, 0, in.size());
}
} // namespace rx

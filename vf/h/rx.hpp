// Monitor runtime: case numbering, seeded randomness, shared "current case" record (crash replay), counters, distinct-case
// bitmap, violation records, guarded buffers.
#pragma once
#include <cppp/reiconv.h>
#include <cppp/encodings/reiconv.h>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <csignal>
#include <sys/wait.h>
#include "blob.hpp"
#include "model.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define RX_ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#define RX_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif
namespace rx {
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; using std::string; using std::vector;
struct EncInfo { const char *id, *cn; int idx; vector<const char *> names; vector<int> cps; };
extern vector<EncInfo> encs;
inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct Rng {
    u64 s; Rng(u64 a = 1) : s(a) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
    u32 below(u32 n) { return n ? (u32)((next() >> 32) * n >> 32) : 0; }
    bool chance(u32 pct) { return below(100) < pct; }
    u32 range(u32 a, u32 b) { return a + below(b - a + 1); }
};
struct Ctl {          // shared with the runner
    std::atomic<u64> beat; char cur[240]; std::atomic<u64> nfail; std::atomic<u64> done;
};
inline Ctl *ctl; inline FILE *vio; inline std::map<string, u64> cnt; inline vector<string> samples;
inline std::atomic<u64> *bitmap; inline u64 distinct_new; inline u64 evals;
constexpr u64 BITS = 1ull << 27;
inline string curmode; inline u64 curidx; inline u64 seed = 1; inline bool thorough; inline bool verbose; inline int shard = 0, nshards = 1;
inline std::set<string> reported; inline u64 stop_after = 300;
inline gold::Blob blob; inline vector<model::Spec> specs;
inline void seen(u64 h) {
    h = mix(h) & (BITS - 1); u64 m = 1ull << (h & 63);
    if (!(bitmap[h >> 6].load(std::memory_order_relaxed) & m) && !(bitmap[h >> 6].fetch_or(m) & m)) distinct_new++;
}
inline u64 hashbytes(const void *p, size_t n, u64 h = 1469598103934665603ull) { const u8 *b = (const u8 *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
inline u64 hs(std::initializer_list<u64> l) { u64 h = 77; for (u64 x : l) h = mix(h ^ x); return h; }
inline string hex(const void *p, size_t n, size_t max = 200) { static const char *d = "0123456789abcdef"; string s; const u8 *b = (const u8 *)p; for (size_t i = 0; i < n && i < max; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; } if (n > max) s += "..."; return s; }
inline string hex(const string &s) { return hex(s.data(), s.size()); }
inline string fmt(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline string jesc(const string &s) { string r; for (u8 c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r; }
// Report a violation. key identifies what fails (call site / encoding / kind), used for de-duplication and known findings.
inline const std::set<string> &known_keys() { static std::set<string> k = [] { std::set<string> r; if (const char *e = getenv("RX_KNOWN")) { string t; for (; *e; e++) if (*e == '\n') { r.insert(t); t.clear(); } else t += *e; } return r; }(); return k; }
inline void fail(const string &key, const string &what) {
    if (known_keys().count(key)) {       // a recorded finding: told once, does not stop the run
        cnt["known_finding_reports"]++; if (!reported.insert(key).second) return;
        fprintf(vio, "{\"key\":\"%s\",\"case\":\"%s:%llu\",\"what\":\"%s\"}\n", jesc(key).c_str(), curmode.c_str(), (unsigned long long)curidx, jesc(what).c_str()); fflush(vio); return;
    }
    ctl->nfail++; cnt["violation_reports"]++;
    if (verbose) printf("FAIL %s:%llu key=%s %s\n", curmode.c_str(), (unsigned long long)curidx, key.c_str(), what.c_str());
    if (reported.count(key) || reported.size() > 40 + known_keys().size()) return;
    reported.insert(key);
    fprintf(vio, "{\"key\":\"%s\",\"case\":\"%s:%llu\",\"what\":\"%s\"}\n", jesc(key).c_str(), curmode.c_str(), (unsigned long long)curidx, jesc(what).c_str()); fflush(vio);
}
inline void sample(const string &s) { if (samples.size() < 6) samples.push_back(s); }
struct Mode { const char *name; std::function<void(u64, Rng &)> f; u64 quick, thor; };
// note: the text of the current step, for crash reports
inline void note(const string &s) { strncpy(ctl->cur + 80, s.c_str(), 150); }

// ---- guarded buffers: the end of the buffer is the end of accessible memory (exact heap blocks under ASan/MSan)
struct Guard {
    u8 *base = nullptr, *ptr = nullptr; size_t cap = 0, n = 0;
    Guard(size_t c = 1 << 16) {
        room(c);
    }
    void room(size_t c) {
#if !defined(RX_ASAN) && !defined(RX_MSAN)
        if (base) munmap(base, cap + 8192);
#endif
        cap = (c + 4095) / 4096 * 4096;
#if !defined(RX_ASAN) && !defined(RX_MSAN)
        base = (u8 *)mmap(0, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) { fprintf(stderr, "no memory for a guarded buffer of %zu\n", c); exit(3); }
        mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + cap, 4096, PROT_NONE);
#endif
    }
    Guard(const Guard &) = delete;
    ~Guard() {
#if defined(RX_ASAN) || defined(RX_MSAN)
        free(ptr);
#else
        munmap(base, cap + 8192);
#endif
    }
    u8 *set(size_t len, int fill = -1) {
        n = len;
#if defined(RX_ASAN) || defined(RX_MSAN)
        free(ptr); ptr = (u8 *)malloc(len);
        if (fill >= 0 && len) memset(ptr, fill, len);
#else
        if (len + 64 > cap) room(len * 2 + 4096);
        ptr = base + 4096 + cap - len; memset(ptr - 64, 0xC7, 64); if (fill >= 0) memset(ptr, fill, len);
#endif
        return ptr;
    }
    u8 *load(const void *p, size_t len) { set(len); if (len) memcpy(ptr, p, len); return ptr; }
    bool under() const {
#if defined(RX_ASAN) || defined(RX_MSAN)
        return true;
#else
        for (int i = 1; i <= 64; i++) if (ptr[-i] != 0xC7) return false;
        return true;
#endif
    }
};
inline int idx(const char *id) { for (size_t i = 0; i < encs.size(); i++) if (!strcmp(encs[i].id, id)) return i; fprintf(stderr, "no enc %s\n", id); exit(3); }
inline void cur_set(const char *m, u64 i) { curmode = m; curidx = i; snprintf(ctl->cur, 80, "%s:%llu", m, (unsigned long long)i); ctl->cur[80] = 0; ctl->beat++; }
int rx_main(int argc, char **argv, vector<Mode> modes, bool need_blob = true);
} // namespace rx
#ifdef RX_MAIN
namespace rx {
vector<EncInfo> encs = {
#include "encs.inc"
};
int rx_main(int argc, char **argv, vector<Mode> modes, bool need_blob) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);      // a worker never outlives the runner
    string out = "/dev/null", ctlf, bmf, blobf, replay, only; double scale = 1;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
        if (a == "--shard") { string s = nx(); sscanf(s.c_str(), "%d/%d", &shard, &nshards); } else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0);
        else if (a == "--tier") thorough = nx() == "thorough"; else if (a == "--out") out = nx(); else if (a == "--ctl") ctlf = nx(); else if (a == "--bitmap") bmf = nx();
        else if (a == "--blob") blobf = nx(); else if (a == "--replay") replay = nx(), verbose = true; else if (a == "--only") only = nx(); else if (a == "--scale") scale = atof(nx().c_str());
        else if (a == "-v") verbose = true; else if (a == "--list") { for (auto &m : modes) printf("%s %llu %llu\n", m.name, (unsigned long long)m.quick, (unsigned long long)m.thor); return 0; }
    }
    auto shm = [&](const string &f, size_t n) -> void * {
        if (f.empty()) return mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        int fd = open(f.c_str(), O_RDWR | O_CREAT, 0644); if (ftruncate(fd, n)) exit(3); void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); return p;
    };
    ctl = (Ctl *)shm(ctlf, 4096); bitmap = (std::atomic<u64> *)shm(bmf, BITS / 8);
    vio = fopen((out + ".vio").c_str(), "w"); if (!vio || out == "/dev/null") vio = stdout;
    if (need_blob) {
        if (!blob.load(blobf.c_str())) { fprintf(stderr, "cannot load golden tables %s\n", blobf.c_str()); return 3; }
        specs.resize(encs.size()); for (size_t i = 0; i < encs.size(); i++) specs[i].init(blob, encs[i].id);
    }
    auto runcase = [&](Mode &m, u64 i) {
        cur_set(m.name, i); Rng r(mix(mix(seed) ^ hashbytes(m.name, strlen(m.name))) ^ mix(i * 2 + 1)); evals++; m.f(i, r);
    };
    if (!replay.empty()) {
        size_t c = replay.find(':'); string mn = replay.substr(0, c); u64 i = strtoull(replay.c_str() + c + 1, 0, 0);
        for (auto &m : modes) if (mn == m.name) runcase(m, i);
    } else for (auto &m : modes) {
        if (!only.empty() && ("," + only + ",").find(string(",") + m.name + ",") == string::npos) continue;
        u64 n = thorough ? m.thor : m.quick; if (m.quick > 2000 && m.quick != m.thor) n = (u64)(n * scale); u64 k = 0;
        for (u64 i = shard; i < n; i += nshards) { runcase(m, i); k++; if (ctl->nfail > stop_after) break; }
        cnt[string("cases:") + m.name] += k;
    }
    ctl->done = 1;
    if (out != "/dev/null") {
        FILE *f = fopen(out.c_str(), "w"); fprintf(f, "{\"evals\":%llu,\"distinct\":%llu,\"fails\":%llu,\"counters\":{", (unsigned long long)evals, (unsigned long long)distinct_new, (unsigned long long)ctl->nfail.load());
        bool first = true; for (auto &k : cnt) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
        fprintf(f, "},\"samples\":["); first = true; for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
        fprintf(f, "]}\n"); fclose(f);
    } else { printf("evals %llu distinct %llu fails %llu\n", (unsigned long long)evals, (unsigned long long)distinct_new, (unsigned long long)ctl->nfail.load()); for (auto &k : cnt) printf("  %s = %llu\n", k.first.c_str(), (unsigned long long)k.second); for (auto &s : samples) printf("  sample %s\n", s.c_str()); }
    return 0;
}
} // namespace rx
#endif

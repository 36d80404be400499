// Common pieces of the checks that judge every call against the executable specification.
#pragma once
#include "lock.hpp"
namespace rx {
inline Guard *gi, *go;
inline string longinput(int a, int b, u32 want, Rng &g, int dirt = -1) { string in; while (in.size() < want) { string x = geninput(a, b, 300, g, dirt < 0 ? (g.chance(70) ? 0 : (int)g.below(4)) : dirt); if (x.empty()) x = "a"; in += x; } return in; }
inline void guards() { gi = new Guard(1 << 21); go = new Guard(1 << 21); }
inline void smp(u64 i, u64 every, Lock &L, const string &in) { if (i % every == 0) sample(L.name() + " input " + hex(in).substr(0, 80) + " calls " + L.log.substr(0, 240)); }
} // namespace rx

#!/usr/bin/env python3
"""Writes MANIFEST.json from the specs."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "../vf"))
import specs
V = os.path.join(os.path.dirname(__file__), "..")
T = {
 "C01": ("ASan+UBSan, MSan and guard-page buffers around hostile call sessions", "no access outside the given buffers, no undefined behaviour and no use of uninitialised memory in any session run; every encoding, every character at every small room and all 1- and 2-byte inputs in each run"),
 "C02": ("online lockstep monitor: every call against an executable specification", "every call's pointers, counters, return value, errno and bytes equal the specification's on all sessions run"),
 "C03": ("metamorphic monitor: whole conversion against every cutting, library against itself", "all two-piece cuts and all small rooms of the inputs run"),
 "C04": ("exhaustive replay of short byte sequences against golden tables, plus lockstep monitor", "all byte sequences up to the longest code of each character set; longer strings sampled"),
 "C05": ("exhaustive replay of all code points against golden tables, plus lockstep monitor", "all 1,114,112 code points on each character set; texts sampled"),
 "C06": ("exhaustive sweeps of short units against an executable specification, plus lockstep monitor", "all short units of each Unicode format; longer strings sampled"),
 "C07": ("online trace monitor of designations, shifts and flushes against an executable specification", "all class and token sequences up to a small length on every escape encoding; longer ones sampled"),
 "C08": ("round-trip monitor, library against itself", "every reversible character of every encoding; texts sampled"),
 "C09": ("differential monitor: direct conversion against the two halves, library against itself", "every ordered pair of encodings in each run; inputs sampled"),
 "C10": ("online lockstep monitor of refusals, substitutions and counts", "every code point of planes 0, 2, 14 on every target; positions and texts sampled"),
 "C11": ("online lockstep monitor of discard mode; with/without-flag comparison", "all pairs sampled in every run"),
 "C12": ("differential monitor over the five conversion interfaces, guarded output blocks", "interfaces agree byte for byte on every input run, including sizes beyond 2^32"),
 "C13": ("history monitor: used descriptor against new descriptor", "every history run; encodings weighted to the stateful ones"),
 "C14": ("online trace monitor of byte order marks over unit sequences", "all short unit sequences on the marked formats; streams sampled"),
 "C15": ("lookup oracle: complete sweep of code pages, names, near-names against the published list", "all names, all one-character changes, all strings up to 3 characters, all 2^32 code page numbers"),
 "C16": ("differential monitor over all opening routes", "every ordered pair through every route in each run"),
 "C17": ("allocation fault injection at every allocation of every call, heap and state monitors", "each allocation of each operation run is failed once, alone and with all later ones"),
 "C18": ("heap-conservation monitor (interposed allocator) and ASan over random histories", "live blocks return to the start after every history run"),
 "C19": ("ThreadSanitizer and result comparison over concurrent sessions on cold state", "no race reported by ThreadSanitizer and results equal to the sequential ones in all sessions run"),
 "C20": ("ASan and oracle over hostile environments on simulated platforms", "documented precedence and tables on every environment run"),
 "C21": ("differential monitor of the C++ interface against streaming, exception monitor", "every ordered pair in each run; inputs sampled"),
 "C22": ("execution of the generators on random lists under ASan+UBSan, output parsed and compiled, write faults injected", "every list run, the real one included"),
 "C23": ("work, heap and stack meters (coverage callbacks, interposed allocator and string functions) over growing inputs", "growth judged at three lengths per case; all operations; pairs and units sampled"),
 "C24": ("offline comparison of complete call logs across process surroundings; system call filter, read-only input, process state fingerprints", "eight surroundings; every encoding swept, all pairs sampled"),
 "C25": ("offline comparison of complete call logs across separately built libraries, one of them sanitized", "nine builds (gcc, clang, -O0..-O3, signed and unsigned char, short enums, 32- and 64-bit); every encoding swept, all pairs sampled"),
}
checks = []
for pid, s in specs.SPECS.items():
    t, n = T[pid]
    checks.append(dict(property=pid, quick_cmd="python3 run.py %s" % pid, thorough_cmd="python3 run.py %s --tier thorough" % pid, evidence_file="evidence/%s.json" % pid, technique=t, level=s["level"],
                       level_note="Runtime observation, not proof: " + n + ". Assumes: " + "; ".join(s["assume"]) + "."))
checks.sort(key=lambda c: c["property"])
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[], notes="No hooks in /repo: everything is observed at the public API, the allocator and the sanitizers. Every check rebuilds the library from /repo's working tree."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))

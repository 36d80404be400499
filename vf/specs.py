"""What each check builds and runs."""
def X(exe, src, variant="plain", **k):
    d = dict(exe=exe, src=src, variant=variant); d.update(k); return d
A_GOLD = "the golden tables (golden/tables.bin.xz), recorded from the pinned tree after its repairs and cross-checked against the repository's own table files, Python's codecs and glibc (tools/xcheck.py)"
A_BUILD = "the library is compiled from /repo's working tree with this toolchain (x86-64, little-endian)"
import os, subprocess
LC_CFGS = {"env": [], "freebsd": ["-D__has_freebsd__=1"], "langinfo": ["-DHAVE_LANGINFO_CODESET=1"], "win": ["-D__has_windows__=1"], "wincon": ["-D__has_windows__=1", "-D_CONSOLE=1"],
           "cygwin": ["-D__has_windows__=1", "-D__has_cygwin__=1"], "haiku": ["-D__has_haiku__=1"], "android": ["-D__has_android__=1"], "beos": ["-D__has_beos__=1"]}
LOCALES = [("ja_JP", "EUC-JP"), ("de_DE", "ISO-8859-1"), ("ru_RU", "KOI8-R"), ("zh_CN", "GB18030"), ("zh_TW", "BIG5"), ("ko_KR", "EUC-KR"), ("tr_TR", "ISO-8859-9"), ("el_GR", "ISO-8859-7"), ("en_US", "UTF-8"), ("uk_UA", "KOI8-U"), ("th_TH", "TIS-620"), ("he_IL", "ISO-8859-8"), ("pl_PL", "ISO-8859-2"), ("fr_FR", "ISO-8859-15"), ("ru_RU", "CP1251"), ("zh_CN", "GBK")]
def c20_build(B, out, inc, fl, cc, cxx):
    """lib/locale_charset.c and .cpp once per platform: the missing platform headers are stubs, the platform is chosen by defines."""
    stub = os.path.join(out, "stub"); B.write(os.path.join(stub, "cppp/cppp-platform.h"), "/* the platform macros are given on the command line */\n")
    B.write(os.path.join(stub, "Windows.h"), "typedef unsigned UINT;\n#ifdef __cplusplus\nextern \"C\" {\n#endif\nUINT GetACP(void); UINT GetConsoleOutputCP(void);\n#ifdef __cplusplus\n}\n#endif\n")
    B.write(os.path.join(stub, "windows.h"), "#include <Windows.h>\n")
    jobs, links = [], []
    for n, d in LC_CFGS.items():
        objs = []
        for f, comp in (("locale_charset.c", [cc, "-std=gnu17"]), ("locale_charset.cpp", [cxx, "-std=c++20"])):
            o = os.path.join(out, "lc-%s-%s.o" % (n, f)); objs.append(o)
            jobs.append(comp + ["-w", "-fPIC"] + fl + d + B.defs() + ["-I" + os.path.join(B.REPO, "lib"), "-I" + stub, "-I" + inc, "-c", os.path.join(B.REPO, "lib", f), "-o", o])
        links.append([cxx] + fl + ["-shared"] + objs + ["-o", os.path.join(out, "lc-%s.so" % n)])      # one shared object per platform, loaded privately
    h = os.path.join(out, "h-c20.o"); hfl = list(fl) + ["-fno-sanitize=undefined"]
    jobs.append([cxx, "-std=c++20", "-w"] + hfl + ["-I" + os.path.join(B.VERIF, "vf/h"), "-I" + os.path.join(B.VERIF, "golden"), "-I" + out, "-I" + inc, "-c", os.path.join(B.VERIF, "vf/checks/c20.cpp"), "-o", h])
    for l, m in LOCALES:
        jobs.append(["sh", "-c", "mkdir -p %s/loc && (localedef -i %s -f %s %s/loc/%s.%s >/dev/null 2>&1; true)" % (out, l, m, out, l, m)])
    return jobs, links + [[cxx] + fl + ["-rdynamic", h, os.path.join(out, "lib-asan.a"), "-lpthread", "-ldl", "-o", os.path.join(out, "c20")]]
C20_ENV = {"RX_DIR": "@OUT@", "LOCPATH": "@OUT@/loc", "RX_LOCALES": ";".join("%s.%s=%s" % (l, m, m) for l, m in LOCALES)}
def rec_build(configs, locales=()):
    """the call recorder (vf/rec), once per configuration {name: (cc, cxx, flags)}; a configuration named *32 is a freestanding 32-bit program and may be unavailable"""
    def f(B, out, inc, fl, cc, cxx):
        d = os.path.join(B.VERIF, "vf/rec"); jobs, links = [], []
        src = [x for x in B.project()[1] if os.path.basename(x) != "locale_charset.c" and os.path.basename(x) != "locale_charset.cpp"]
        for n, (kc, kx, kf) in configs.items():
            I = ["-I" + os.path.join(B.REPO, "lib"), "-I" + inc, "-I" + d]; exe = os.path.join(out, n)
            if n.endswith("32"):
                stub = os.path.join(out, "stub32"); B.write(os.path.join(stub, "gnu/stubs-32.h"), "")
                c = [[kc, "-std=gnu17", "-w", "-m32", "-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fno-pic", "-fno-pie", "-fno-tree-loop-distribute-patterns"] if kc == "gcc" else [kc, "-std=gnu17", "-w", "-m32", "-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fno-pic"]]
                cmd = c[0] + kf + B.defs() + ["-isystem", stub, "-isystem", "/usr/include/x86_64-linux-gnu"] + I + ["-nostdlib", "-static", "-no-pie", os.path.join(d, "rec.c"), os.path.join(d, "os32.c")] + [x for x in src if x.endswith(".c")] + ["-o", exe]
                jobs.append(["sh", "-c", " ".join(cmd) + " > %s.txt 2>&1 || rm -f %s" % (exe, exe)]); continue
            objs = []
            for s in src + [os.path.join(d, x) for x in ("rec.c", "os64.c", "cpp.cpp")]:
                o = exe + "-" + os.path.basename(s) + ".o"; objs.append(o); lib = s in src
                jobs.append(([kx, "-std=c++20"] if s.endswith(".cpp") else [kc, "-std=gnu17"]) + ["-w", "-g1"] + (kf if lib else ["-O2"]) + B.defs() + I + ["-c", s, "-o", o])
            links.append([kx] + [x for x in kf if "sanitize" in x] + objs + ["-Wl," + ",".join("--wrap=" + x for x in "getenv secure_getenv time clock_gettime gettimeofday clock rand random getpid isatty nl_langinfo".split()), "-lm", "-o", exe])
        h = os.path.join(out, "h-rec.o")
        jobs.append([cxx, "-std=c++20", "-w"] + fl + ["-I" + os.path.join(B.VERIF, "vf/h"), "-I" + out, "-I" + inc, "-c", os.path.join(B.VERIF, "vf/checks/rec.cpp"), "-o", h])
        for l, m in locales: jobs.append(["sh", "-c", "mkdir -p %s/loc && (localedef -i %s -f %s %s/loc/%s.%s >/dev/null 2>&1; true)" % (out, l, m, out, l, m)])
        return jobs, links + [[cxx] + fl + [h, "-lpthread", "-ldl", "-o", os.path.join(out, "rec")]]
    return f
C25_CFG = {"ref": ("clang", "clang++", ["-O2"]), "gccO3": ("gcc", "g++", ["-O3"]), "gccO0uchar": ("gcc", "g++", ["-O0", "-funsigned-char", "-ftrivial-auto-var-init=pattern"]),
           "clangO0init": ("clang", "clang++", ["-O0", "-ftrivial-auto-var-init=pattern"]), "clangO3uchar": ("clang", "clang++", ["-O3", "-funsigned-char", "-fshort-enums", "-fwrapv"]),
           "gccOsenums": ("gcc", "g++", ["-Os", "-fshort-enums", "-fwrapv", "-ftrivial-auto-var-init=zero"]), "ucharsan": ("clang", "clang++", ["-O1", "-funsigned-char", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=alignment,function,vptr", "-fno-sanitize-recover=all"]), "gccO2b32": ("gcc", "g++", ["-O2"]), "clangO1ucharb32": ("clang", "clang++", ["-O1", "-funsigned-char"])}
C24_CFG = {"ref": ("clang", "clang++", ["-O2"])}
C24_ARGS = [("ref", ""), ("turkish", "@LOCPATH=@OUT@/loc locale=tr_TR.ISO-8859-9"), ("chinese", "@LOCPATH=@OUT@/loc locale=zh_CN.GB18030 errno=84 fill=0"), ("japanese", "@LOCPATH=@OUT@/loc locale=ja_JP.EUC-JP errno=7 fill=27"),
            ("environment", "env=7 @LC_ALL=de_DE.ISO-8859-1 @LANG=ja_JP.SJIS @LC_CTYPE=zh_CN.GBK @LANGUAGE=tr @CHARSET=KOI8-R @POSIXLY_CORRECT=1 @TMPDIR=/nonexistent @HOME=/nonexistent cwd=/ errno=22"), ("backwards", "backwards any=4 align=1 fill=1"), ("odd", "any=1 align=3 errno=5 fill=254"), ("readonly", "inplace fill=255 round=1 errno=12"),
            ("confined", "filter fill=65 errno=7"), ("dirty", "stack round=2 fill=170 errno=84 @GLIBC_TUNABLES=glibc.malloc.perturb=165:glibc.malloc.tcache_count=0")]
def c22_build(B, out, inc, fl, cc, cxx):
    h = os.path.join(out, "h-c22.o")
    return [[cxx, "-std=c++20", "-w"] + fl + ["-I" + os.path.join(B.VERIF, "vf/h"), "-I" + out, "-I" + inc, "-c", os.path.join(B.VERIF, "vf/checks/c22.cpp"), "-o", h]], [[cxx] + fl + [h, "-lpthread", "-ldl", "-o", os.path.join(out, "c22")]]
SPECS = {}
def S(id, exes, rule, need=(), level="exploration", assume=(), **k):
    SPECS[id] = dict(exes=exes, rule=rule, need=list(need), level=level, assume=[A_BUILD] + list(assume), **k)
C = {"RX_CORPUS_DIR": None}
S("C01", [X("c01p", "c01.cpp", "plain", corpus=True, stuck_s=300), X("c01a", "c01.cpp", "asan", only="sess,room,dec,names,oneshot,longs,tables", scale={"quick": 0.7, "thorough": 0.3}), X("c01m", "c01m.cpp", "msan", corpus=True)],
  "one case = one descriptor driven through a hostile input with random pieces and rooms (exact-size buffers), one encoding swept over every character x every room or all 1- and 2-byte inputs, every code point through every encoder and every sequence through every decoder, one hostile name, or one one-shot call set; distinct = different (encodings, decoder state, encoder state, errno) or different name/input hash",
  need=["long_runs", "table_characters", "table_sequences", "sessions", "small_rooms", "small_flush_rooms", "short_inputs", "names_found", "names_refused", "codepages", "static_ok", "static_failed", "msan_calls", "msan_bytes_checked", "saw_E2BIG", "saw_EILSEQ", "saw_EINVAL"],
  assume=["ASan/UBSan/MSan and guard pages see accesses outside a buffer's block, not inside another live block", "misaligned buffers for UCS-*-INTERNAL/SWAPPED are not judged (documented precondition)"])
R_LOCK = "one case = one input fed to a descriptor in random pieces and rooms, every call compared with the executable specification (return value, errno, both positions, bytes); distinct = different (encodings, decoder state, encoder state, errno) observed after a call"
N_LOCK = ["calls_compared", "flushes_compared", "saw_E2BIG", "saw_EILSEQ", "saw_EINVAL", "saw_irreversible", "flush_wrote"]
A_MODEL = "the executable specification (vf/h/model.hpp), written from the encodings' definitions"
S("C02", [X("c02", "c02.cpp")], R_LOCK, need=N_LOCK + ["all_rooms_inputs", "single_chars_all_rooms", "long_bytes", "huge_rooms", "huge_inputs"], assume=[A_GOLD, A_MODEL])
S("C10", [X("c10", "c10.cpp")], R_LOCK + "; every code point of planes 0, 2 and 14 (the others sampled 1 in 7 in the quick tier) is tried on every target", need=["calls_compared", "saw_EILSEQ", "saw_irreversible", "unrepresentable", "representable", "beyond_unicode", "flush_refused", "flush_substituted", "long_bytes"], assume=[A_GOLD, A_MODEL])
S("C11", [X("c11", "c11.cpp")], R_LOCK + "; plus valid texts converted with and without the flag and the flag given through every opening route", need=["calls_compared", "saw_irreversible", "valid_texts", "doors", "bad_unit_inputs", "long_bytes"], assume=[A_GOLD, A_MODEL])
S("C14", [X("c14", "c14.cpp")], R_LOCK + "; unit sequences over marks of both orders, plain units of both orders, surrogates", need=["calls_compared", "units", "stream_ends", "output_streams", "oneshot_streams", "saw_EILSEQ", "saw_EINVAL"], assume=[A_MODEL])
S("C04", [X("c04", "c04.cpp")], "all byte sequences up to the longest code of every character set (per designated set for escape encodings) compared with the golden table, plus random strings judged call by call; distinct = (encoding, lead byte) blocks swept and distinct (encodings, states, errno)", need=["sequences", "defined", "refused", "incomplete", "calls_compared", "long_bytes"], assume=[A_GOLD])
S("C05", [X("c05", "c05.cpp")], "all code points 0..10FFFF on every character set (four language contexts for ISO-2022-JP-2) compared with the golden table, each also with every smaller room, plus random texts; distinct = (encoding, plane) blocks swept and distinct (encodings, states, errno)", need=["in_table", "not_in_table", "exact_rooms", "beyond_unicode", "calls_compared", "long_bytes"], assume=[A_GOLD])
S("C06", [X("c06", "c06.cpp")], "exhaustive short inputs per Unicode format (all UTF-8 inputs up to 3 bytes, all 16-bit units and surrogate pairs, code point ranges, all \\\\uXXXX escapes; 2^32 spaces in the thorough tier) plus random strings, judged by the executable specification; distinct = blocks swept and distinct (encodings, states, errno)", need=["swept_valid", "swept_refused", "swept_incomplete", "encoded_chars", "utf7_strings", "calls_compared", "long_bytes"], assume=[A_MODEL])
S("C07", [X("c07", "c07.cpp")], "class sequences through every encoder, token sequences through every decoder, texts and flushes at random places, every call judged by the executable specification; distinct = (encoder designations, shift, pending, language, character class) reached and token strings", need=["encoder_steps", "decoder_inputs", "texts", "home_checks", "flush_wrote", "saw_EILSEQ", "long_bytes"], assume=[A_GOLD, A_MODEL])
S("C03", [X("c03", "c03.cpp")], "one case = one input converted in one call and again cut into pieces and rooms on fresh descriptors (all two-piece cuts, all rooms 0..23, byte by byte, random plans), the library compared with itself; distinct = different (encodings, flag, input)", need=["cut_runs", "runs_with_many_calls", "inputs_with_errors", "truncated_inputs", "flush_refused", "all_cut_inputs", "long_bytes", "huge_rooms", "huge_inputs"])
S("C09", [X("c09", "c09.cpp")], "one case = one input converted directly and through UCS-4BE by the library itself, all ordered pairs of encodings in every run, each also with the characters the source (and both) contain; distinct = different (pair, input)", need=["compared", "encoder_refusals", "pending_at_end", "saw_EILSEQ", "saw_EINVAL", "saw_irreversible", "repertoire_runs", "full_pairs", "full_characters", "long_bytes"])
S("C08", [X("c08", "c08.cpp")], "one case = one text (or byte string) taken text -> bytes -> text by the library itself, or all reversible characters of an encoding swept in runs of 16; distinct = different (encoding, text)", need=["round_trips", "texts_encoded", "composed_texts", "swept_characters", "long_texts"], assume=["the golden tables say which single characters are reversible"])
S("C12", [X("c12", "c12.cpp", stuck_s=300)], "one case = one input given to streaming, the size query, the fixed-buffer form (exact, smaller, larger buffers at the end of accessible memory), the allocating form (three kinds of old buffer) and the C++ form, the library compared with itself; plus sizes beyond 2^32; distinct = different (encodings, flag, input)", need=["inputs_ok", "inputs_failing", "static_calls", "too_small", "rest_checked", "alloc_calls", "cpp_calls", "edge_inputs", "long_bytes", "huge_runs", "null_arguments", "no_input"])
S("C13", [X("c13", "c13.cpp")], "one case = one history (partial conversions, small rooms, invalid input, flushes, failed and successful one-shot calls) brought to the start of a stream, then one input through the used and through a new descriptor, the library compared with itself; or one descriptor through up to 70,000 streams, each compared with the first; or 2-7 (sometimes 400) descriptors interleaved against each alone; distinct = different (pair, history, input)", need=["compared", "streams_reset", "oneshot_size", "oneshot_static", "oneshot_alloc", "oneshot_failed", "order_remembered", "interleaved", "many_live", "long_lives"], assume=["the byte order remembered by UTF-16/32, UCS-2/4 input is predicted by the executable specification"])
S("C15", [X("c15", "c15.cpp")], "all published names in random spellings, every one-character change of every name, all strings up to 3 characters, junk and very long strings, all 2^32 code page numbers, all index constants, each compared with the committed list of names and code pages; distinct = different names/strings asked and blocks swept", need=["names_found", "names_refused", "cpp_names", "canonicalized", "codepages", "codepages_found", "constants", "conversions_compared", "names_opened"], assume=["the committed list of published names and code pages (golden/names.json), taken from the pinned tree"])
S("C16", [X("c16", "c16.cpp")], "all ordered pairs opened by name, code page, iconv-style call with suffixes, the compatibility header and C++, each compared with the conversion opened by index on one input; unknown names and code pages on either side; distinct = different (pair, flag, side of the suffix) and unknown names", need=["route_name", "route_codepage", "route_open", "route_open_ignore_from", "route_open_ignore_to", "route_open_ignore_both", "route_compat", "route_cpp_name", "route_cpp_index", "route_cpp_codepage", "refused_opens"])
S("C21", [X("c21", "c21.cpp", cflags=["@VERSION"])], "one case = one C++ conversion compared with the streaming conversion (bytes, exception type and errno), or all ways of making the Encoding object of one encoding compared with all others; distinct = different (pair, flag, input)", need=["returned", "threw", "objects", "object_pairs", "strange_names", "long_bytes", "big_results"])
S("C17", [X("c17", "c17.cpp")], "one case = one operation (open by four routes, one-shot forms, streaming, C++) on one input: every allocation it makes is failed, alone and with all later ones, and the verdict, the heap, the caller's buffer and the descriptor are checked after each; distinct = (operation, allocation number, kind of fault, old buffer, flag, outcome, size class)", level="fault_enumeration", need=["operations", "faults_injected", "faults_reported", "faults_open_from_index", "faults_open_from_codepage", "faults_open_from_name", "faults_open", "faults_convert", "faults_cpp_convert"], assume=["allocation goes through malloc/calloc/realloc/operator new (interposed)"])
S("C18", [X("c18", "c18.cpp"), X("c18a", "c18.cpp", "asan", scale={"quick": 0.4, "thorough": 0.3})], "one case = one random history of opens, conversions, one-shot calls, C++ calls, buffer reuse and closes (a third with injected allocation failures), live blocks counted by interposing the allocator; also under ASan for use after free; distinct = different histories", need=["histories", "blocks_watched", "converts", "failed_converts", "reused_buffers", "failed_opens", "exceptions", "rounds"], assume=["allocation goes through malloc/calloc/realloc/operator new (interposed)"])
S("C19", [X("c19t", "c19.cpp", "tsan"), X("c19p", "c19.cpp", "plain", scale={"quick": 3, "thorough": 3})], "one case = one session of 2-5 threads released together on state not used before by the process (each encoding), every thread opening, converting, querying and looking up with descriptors of its own (some handed over from the main thread), under ThreadSanitizer and again at full speed; afterwards every job is run alone and its result compared; distinct = different job lists", need=["sessions", "jobs_compared", "overlapping_calls", "handed_over", "same_jobs_in_all_threads", "long_sessions", "op0", "op1", "op4", "op5", "op6", "op7", "op8", "op9", "op10"], assume=["ThreadSanitizer sees all memory accesses of the library (it is compiled with it) and the synchronisation of the C/C++ runtime"])

S("C20", [X("c20", "c20.cpp", "asan", custom=c20_build, env=C20_ENV)], "one case = one environment (LC_ALL, LC_CTYPE, LANG and decoys as exact-size heap blocks; current locale) asked on six simulated platforms through both bindings, one platform table entry, 256 Windows code pages, or one real locale made by localedef, compared with the documented precedence, under ASan+UBSan; distinct = different (platform, environment)", need=["asked_env", "asked_freebsd", "asked_langinfo", "asked_win", "asked_wincon", "asked_cygwin", "from_LC_ALL", "from_LC_CTYPE", "from_LANG", "from_setlocale", "defaulted", "table_hits", "table_entries", "codepages_agree"], blob=False, assume=["platforms other than this one are simulated: the source is compiled with their macros and stub headers"])

S("C25", [X("rec", "", nolib=True, custom=rec_build(C25_CFG), env={"RX_DIR": "@OUT@/run", "RX_BATCHES": "400", "RX_RECS": ";".join("%s|@OUT@/%s|" % (n, n) for n in C25_CFG)})], "one case = a list of calls (1,500 random sessions, names, code pages, opens and C++ conversions on all pairs of encodings, or everything one encoding contains decoded and encoded) executed by nine separately compiled programs (one under ASan+UBSan), whose complete logs (return values, errno, positions, bytes) are compared; distinct = different sessions", need=["logs_compared", "sessions", "names", "codepage_runs", "opens", "cpp_conversions", "swept_characters", "swept_pairs", "words_ref", "words_gccO3", "words_gccO0uchar", "words_clangO0init", "words_clangO3uchar", "words_gccOsenums", "words_ucharsan"], assume=["little-endian x86 only, 64-bit and (freestanding) 32-bit: there is no emulator for other processors here"])
S("C24", [X("rec", "", nolib=True, custom=rec_build(C24_CFG, [("tr_TR", "ISO-8859-9"), ("zh_CN", "GB18030"), ("ja_JP", "EUC-JP")]), env={"RX_DIR": "@OUT@/run", "RX_BATCHES": "400", "RX_RECS": ";".join("%s|@OUT@/ref|%s" % x for x in C24_ARGS)})], "one case = a list of calls (as in C25) executed by one program in ten surroundings (locales, environment, answers to getenv, time, rand and the like, order of the jobs, buffer addresses, errno before each call, contents of buffers, heap and stack, rounding, read-only input, a system call filter), whose complete logs are compared; environment, locale, working directory, signals, umask, open files and file positions are fingerprinted every 256 jobs; distinct = different sessions", need=["logs_compared", "sessions", "names", "codepage_runs", "opens", "cpp_conversions", "swept_characters", "swept_pairs", "words_ref", "words_environment", "words_readonly", "words_dirty", "words_backwards", "words_odd"])
S("C23", [X("c23", "c23.cpp", "cov", hvariant="plain", ldflags=["-Wl," + ",".join("--wrap=" + f for f in "strlen memcpy memmove memset memcmp strcmp strchr memchr strncmp".split())])], "one case = one operation on one repeated unit at three lengths (or one name padded to three lengths, or one call stopping early with short and long input and room, or stack and descriptor size of one pair), its work counted as control flow edges executed in the library plus bytes handled by string functions, its heap and stack measured; distinct = different (pair, flag, operation, unit)", need=["growth_measured", "growth_of_long_runs", "grew_iconv", "grew_result_size", "grew_static", "grew_alloc", "grew_cpp", "grew_iconv-pieces", "edges_counted", "early_stops", "names_measured", "descriptors", "stacks_measured"], assume=["work inside C library functions other than the interposed string functions is not counted"])
S("C22", [X("c22", "c22.cpp", nolib=True, custom=c22_build, env={"RX_DIR": "@OUT@/gen", "RX_REPO_DIR": "@REPO@"})], "one case = one random list of encodings (1-300 encodings, names of any ASCII form, some with lower case or non-ASCII names) or the real one: the three generator programs are compiled with it in a scratch directory (half of them under ASan+UBSan), run with good and bad arguments and outputs that cannot be written, and their output is parsed and compiled; distinct = different lists", need=["lists", "entries", "check_refused", "check_accepted", "nonascii_lists", "alias_lines", "write_failures", "constants", "real_list_entries"], blob=False, assume=["gperf, the next program in the chain, is not installed: its input is checked, not its output"])
# how much larger than the modes' own numbers the random part of the quick tier is (about 15-20 s of work on 8 cores)
for k, v in dict(C02=5, C03=14, C04=10, C05=3, C06=7, C07=5, C08=5, C09=12, C10=3, C11=5, C13=6, C14=7, C15=8, C16=20, C17=12, C18=2, C19=2, C20=5, C21=20).items(): SPECS[k]["qscale"] = v

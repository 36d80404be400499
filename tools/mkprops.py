#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so the long text stays readable)."""
import json, os
L="lib/loop_unicode.h"; I="lib/iconv.c"; C="lib/converters"; H="include/cppp/reiconv.h.in"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
p("C01","No API call ever touches memory it was not given, aborts or uses garbage",
 "For every pair of encodings, every input byte string, every output capacity (including 0), every sequence of convert/flush/reset calls, and every encoding name or code page number, the library reads only inside the input it was given, writes only inside the output it was given, has no undefined behaviour, never aborts, and no output byte, return value or position depends on uninitialised memory. (Excluded, as documented: invalid encoding indexes, and misaligned buffers for the UCS-*-INTERNAL/SWAPPED encodings.)",
 ["inputs","histories"],"all encodings x inputs x capacities x call histories x names",
 "Tests convert a few valid files with roomy buffers; they never run at exact buffer ends with hostile bytes, tiny outputs, pending characters, long names or odd code pages, and not under sanitizers.",
 [I,L,C,"lib/codepage_to_ei.h","lib/generated/aliases.h"],
 [("every converter checks n / outleft before each byte",C),("outleft==0 guard before encoding",L),("bounded name buffer",I)],
 [("istate/ostate","shift state and pending character","lib/encoding.h")],["public C API"])
p("C02","Positions, counters, return value and errno of a conversion call are exact",
 "Every conversion call advances the input and output pointers by exactly what it subtracts from the matching byte counters, consuming and producing a prefix; it returns a non-error only when all input is consumed, and otherwise fails with E2BIG only if the next character's output does not fit the remaining room (a room too small for any character may be reported before a character that would be dropped or substituted), EILSEQ only if the input at the reported position is invalid or unrepresentable, and EINVAL only if the remaining bytes are an incomplete character. The output written so far is exactly the conversion of the input consumed so far, and a retry with more room or more input makes progress and eventually finishes.",
 ["inputs","histories"],"all encodings, inputs with errors at any place, all capacities, all retry sequences",
 "The table tests look only at whole successful conversions; two tests probe one E2BIG/EILSEQ position each.",
 [L,I,C],[("unicode_loop_convert bookkeeping; istate restored when a character is not consumed",L)],
 [("last_istate","state to restore when the decoded character could not be written",L)],["reiconv_iconv"])
p("C03","Splitting input or output into pieces never changes the result",
 "Feeding any input in any number of pieces, at any split points, and taking the output through any sequence of buffer sizes (carrying unconsumed bytes over after EINVAL and retrying after E2BIG) yields the same output bytes, up to the same error at the same position or to the end with the same verdict, as one call with the whole input and a large buffer followed by one flush. (Shift sequences directly before a refused character may count as consumed or not.)",
 ["inputs","histories"],"all encodings, inputs, split points and output buffer sizes",
 "Tests use one input buffer of fixed size per run and one output size; shift states, pending combining characters and lookahead are never cut at each byte.",
 [L,C],[("state kept in the descriptor between calls","lib/encoding.h"),("TOOFEW/TOOSMALL leave state as before the character",L)],
 [("istate/ostate/ibyteorder","carry-over between calls","lib/encoding.h")],["reiconv_iconv"])
p("C04","Every byte sequence decodes to the Unicode text its character set defines",
 "For each supported non-Unicode character set, decoding any byte sequence from the initial state gives exactly the code points of that character set's published table; byte sequences the table does not define are refused with EILSEQ, and sequences that merely stop early are reported incomplete (EINVAL).",
 ["inputs"],"all encodings x all byte sequences up to the longest code",
 "The tests compare tables for a part of the encodings; some 70 (all EBCDIC sets, CP943, JISX02xx charsets, ASCII, ...) have no test, and invalid or truncated sequences and multi-character sequences are not covered.",
 [C],[("xxx_mbtowc functions and their tables",C)],(),["conversion to UCS-4"])
p("C05","Every Unicode character encodes to the bytes its character set defines",
 "For each supported non-Unicode character set, encoding any code point gives exactly the bytes of that character set's published table (including its documented one-way compatibility mappings), using exactly that many bytes of output; code points the set does not contain are never silently turned into other bytes.",
 ["inputs"],"all encodings x all code points 0..10FFFF (and beyond)",
 "Tests check the inverse tables for a part of the encodings only, through one buffer size; untested encodings and unassigned code points are not visited.",
 [C],[("xxx_wctomb functions and page tables",C)],(),["conversion from UCS-4"])
p("C06","Unicode encodings follow their specifications exactly",
 "UTF-8, UTF-16/32 and UCS-2/4 (plain, BE, LE, internal, swapped), UTF-7, C99 and JAVA escapes accept exactly the well-formed sequences of their definition, decode them to the right code points, refuse overlong forms, surrogates, out-of-range values and malformed escapes with EILSEQ at the offending unit, and emit only well-formed output for any text of Unicode scalar values.",
 ["inputs","histories"],"all byte strings and all code point strings",
 "Tests convert one or two sample texts per format; UCS-2/UCS-4 families, C99, JAVA and almost all malformed forms are not exercised.",
 [C+"/utf8.h",C+"/utf16.h",C+"/utf32.h",C+"/utf7.h",C+"/ucs2.h",C+"/ucs4.h",C+"/c99.h",C+"/java.h"],
 [("decoders/encoders of the Unicode formats",C)],[("istate/ostate of UTF-7 (base64 position) and surrogate buffering","bits carried between characters",C+"/utf7.h")],["reiconv_iconv"])
p("C07","Escape-sequence encodings designate, shift and return to the initial state right",
 "For every text (without raw ESC, SO and SI characters) and every history, what ISO-2022-JP/-1/-2/-3/-MS, ISO-2022-CN/-EXT, ISO-2022-KR and HZ emit is in their published grammar: every character is emitted under the designation and shift in force, line ends drop what the standard says they drop, and after a flush the stream is back in its initial state; decoding interprets every escape, shift and designation accordingly and refuses what the grammar forbids.",
 ["inputs","histories"],"all texts, all escape sequences, all histories",
 "Tests convert one sample snippet per encoding; state combinations (two designations, single shifts, newlines inside shifted text, flush at each state) are not enumerated.",
 [C+"/iso2022_jp.h",C+"/iso2022_jp1.h",C+"/iso2022_jp2.h",C+"/iso2022_jp3.h",C+"/iso2022_jpms.h",C+"/iso2022_cn.h",C+"/iso2022_cnext.h",C+"/iso2022_kr.h",C+"/hz.h"],
 [("xxx_mbtowc/xxx_wctomb/xxx_reset of each encoding",C)],[("istate/ostate","designations and shift","lib/encoding.h")],["reiconv_iconv"])
p("C08","Encoding text and decoding it back returns the same text",
 "For every encoding, any text made of characters the encoding can represent reversibly converts to bytes and back to the same text, with no character lost, merged, reordered or altered, for texts of any length and any mix of characters; likewise the bytes produced by encoding are always decodable by the same encoding without error. (Excluded, because the formats are ambiguous there: raw ESC, SO and SI in ISO-2022, backslashes in C99/JAVA, byte order marks in unmarked UTF/UCS, Unicode tag characters, one-way characters, and letters next to combining marks in the encodings that compose them.)",
 ["inputs","histories"],"all encodings, all texts over their repertoires",
 "Tests check single characters from tables; interactions between neighbouring characters (pending combining characters, shift states, lookahead) are only reached by strings.",
 [C,L],[("each encoding's decode and encode functions are inverse",C)],(),["conversion to and from UCS-4"])
p("C09","A conversion between any two encodings equals going through Unicode",
 "For every ordered pair of supported encodings and any input, converting directly gives the same bytes, irreversible count and verdict as decoding the input to Unicode and encoding the resulting code points into the target.",
 ["inputs","configurations"],"all ordered pairs (about 37,000) x inputs",
 "Tests always have UTF-8 on one side; other pairs are practically never run.",
 [L,"lib/all_encodings.h",C],[("all conversions pivot through 32-bit code points",L)],[("istate vs ostate","decoder and encoder state must not interfere","lib/encoding.h")],["reiconv_iconv"])
p("C10","Unrepresentable characters are substituted, counted or refused, never garbled",
 "Without the discard flag, a character the target cannot represent becomes U+FFFD when the target can represent that and adds one to the returned count, and otherwise stops the conversion with EILSEQ at exactly that character with everything before it converted; Unicode tag characters (U+E0000-U+E007F) vanish without being counted; characters that are representable never count. The same holds for a character that is only delivered by the final flush.",
 ["inputs","histories"],"all targets x all unrepresentable characters x positions in the text",
 "One test asserts a substitution count for one pair; positions, flush, tag characters and other targets are not covered.",
 [L],[("RET_ILUNI handling in the convert and reset loops",L)],(),["reiconv_iconv return value"])
p("C11","Discard mode skips exactly the bad units and nothing else",
 "With the discard flag a conversion never fails with EILSEQ: each undecodable position is skipped by one code unit (1 byte, or 2/4 bytes for the 2/4-byte-unit Unicode encodings) and decoding resumes right after it, each unrepresentable character is dropped and counted, and all other characters come out exactly as they would without the flag; valid representable input gives identical results with and without the flag.",
 ["inputs","histories"],"all encodings, inputs with any mix of valid and invalid bytes, any capacities and splits",
 "Tests use the flag on one or two inputs.",
 [L,I],[("discard branch with unit size by input encoding",L)],[("discard_ilseq","descriptor flag","lib/encoding.h")],["reiconv_iconv","reiconv_open","reiconv::convert"])
p("C12","Size query, static, allocating, C++ and streaming conversions agree",
 "For every pair of encodings, flag, and input of any length, the reported result size, the allocating conversion's length and content, the fixed-buffer conversion, the C++ conversion and streaming plus flush all give the same bytes or all report failure (incomplete trailing input is a failure for each one-shot call); the fixed-buffer conversion succeeds with exactly the reported size, fails with E2BIG with any smaller one, and leaves the rest of a larger buffer unchanged.",
 ["inputs","configurations"],"all pairs, flags, inputs (empty, short, longer than internal buffers, several GiB), output sizes",
 "Tests call these functions on a few short valid strings.",
 [I,"lib/reiconv.cpp"],[("reiconv_result_size loops over a 4096-byte scratch buffer",I),("reiconv_convert = size query + allocation + static conversion",I)],(),["reiconv_result_size","reiconv_convert_static_size","reiconv_convert","reiconv::convert"])
p("C13","After a reset or a one-shot call a descriptor behaves like a fresh one",
 "Whatever was converted before - including truncated input, invalid input, output that ran out of room, or a pending character - after a reset call (or after any one-shot size query or conversion, successful or failed) the descriptor converts the next input exactly like a newly opened one with the same encodings and flags, apart from the documented memory of the input byte order across stream resets; descriptors never influence one another.",
 ["histories","inputs"],"all encodings, all call histories on one descriptor, many live descriptors",
 "Tests open a fresh descriptor for every case, except one that reuses one for byte order marks.",
 [L,I],[("loop_reset clears the states",L),("one-shot functions finish with a reset",I)],[("istate/ostate/ibyteorder","must be initial at stream start","lib/encoding.h")],["public C API"])
p("C14","Byte order marks: written once per stream, honoured and remembered on input",
 "UTF-16 and UTF-32 output starts each flushed/reset-delimited stream with exactly one big-endian byte order mark before its first character and has none elsewhere, UCS-2/UCS-4 and the explicit-order variants write none; on input the unmarked encodings start big-endian, a byte order mark (of either order) switches the order and is not delivered as text, the order survives stream resets on that descriptor, and explicit-order variants pass U+FEFF through as a character.",
 ["inputs","histories"],"all placements of marks, splits at any byte, any sequence of streams on a descriptor",
 "One test covers a few histories for UTF-16/UTF-32/UCS-2/UCS-4.",
 [C+"/utf16.h",C+"/utf32.h",C+"/ucs2.h",C+"/ucs4.h",L],[("ibyteorder kept outside istate",C+"/utf16.h"),("ostate records that the mark was written",C+"/utf16.h")],
 [("ibyteorder","current input byte order","lib/encoding.h")],["reiconv_iconv"])
p("C15","Every documented name, alias and code page finds its encoding, nothing else does",
 "Each published encoding name, alias and code page number resolves to the encoding it denotes, regardless of letter case and of '-' and '_' anywhere in the name, and agrees with the published index constants (KSC56011987, listed for two encodings, is the plain character set); every other string (any length, any bytes) and every other integer yields the not-found result without side effects.",
 ["inputs"],"all 840 names x spellings, all other strings, all 2^32 code page numbers",
 "Tests look up a handful of names and twelve code pages.",
 ["lib/generated/aliases.h","lib/generated/indexes.h.shippet","lib/generated/indexes.hpp.shippet","lib/codepage_to_ei.h","lib/encodings.h.snippet",I],
 [("gperf table over canonical names","lib/generated/aliases.h"),("codepage table","lib/codepage_to_ei.h")],(),["reiconv_lookup_from_name","reiconv_lookup_from_codepage","reiconv_name_canonicalize","reiconv::Encoding"])
p("C16","All ways of opening a conversion give the same conversion",
 "Opening by name, by code page, by index, through the iconv-style call (target first) with or without the //IGNORE suffix on either name, through the iconv compatibility header, or through the C++ interface selects the same encodings and options and so behaves identically on every input; an unknown name or code page on either side makes each of them fail cleanly with EINVAL (or the documented exception).",
 ["inputs","configurations"],"all pairs, names, suffixes and flags",
 "Tests open a few pairs through one route each.",
 [I,"lib/reiconv.cpp","include/iconv.h.in",H],[("reiconv_open parses suffixes and delegates to open_from_index",I)],[("discard_ilseq","flag set from either suffix","lib/encoding.h")],["open functions"])
p("C17","Running out of memory is reported, never crashes or leaks",
 "If any memory allocation made inside a library call fails, that call reports failure (ENOMEM, or the C++ exception) without crashing, without leaking memory, and with the caller's buffers and the descriptor still valid and usable: a later call with memory available gives the normal result.",
 ["fault_sequences","inputs"],"each allocation site of each call, every fault sequence",
 "No test injects allocation failure.",
 [I,"lib/reiconv.cpp"],[("malloc/realloc results are checked",I),("descriptor closed on every exit path","lib/reiconv.cpp")],(),["reiconv_open*","reiconv_convert","reiconv::convert"])
p("C18","No call sequence leaks memory or frees it twice",
 "Over every history of opens, conversions (successful or failing), one-shot calls and closes, closing each descriptor and freeing each returned buffer once returns the heap to where it started; failed calls hand nothing over that must be freed, and a buffer passed in for reuse is either grown in place of the old one or released.",
 ["histories","fault_sequences"],"all API histories including failures and C++ exceptions",
 "Tests exit right after their work and do not run under a leak checker.",
 [I,"lib/reiconv.cpp"],[("close frees the descriptor",I),("failed conversion frees and clears the output pointer",I)],(),["heap at quiescence"])
p("C19","Threads converting with their own descriptors do not interfere",
 "Any number of threads, each using its own descriptors, lookups and one-shot conversions at the same time, under every schedule, get exactly the results they would get alone, with no data race.",
 ["schedules","inputs"],"all schedules of concurrent calls over all encodings",
 "All tests are single-threaded.",
 [I,L,C,"lib/reiconv.cpp"],[("all mutable state lives in the descriptor; tables are const","lib/encoding.h")],(),["public API under ThreadSanitizer"])
p("C20","The locale charset query answers with a usable name for the active locale",
 "In every environment the locale charset query returns a non-empty name without changing the environment or locale or reading out of bounds, and both language bindings return the same answer. The name is the current locale's codeset where the system reports it, the encoding of the active (console) code page on Windows, UTF-8 on platforms that only have that, and otherwise comes from the first non-empty one of LC_ALL, LC_CTYPE, LANG and the current locale: its entry in the platform's table, else what follows its first dot unchanged, else UTF-8.",
 ["inputs","configurations"],"all environment values, current locales, code pages and platforms",
 "The one test only prints/opens the name in the build's own locale; the file is not even compiled by the offline test build.",
 ["lib/locale_charset.c","lib/locale_charset.cpp","lib/localecharset"],[("nl_langinfo or environment parsing plus alias table","lib/locale_charset.c")],(),["locale_charset"])
p("C21","The C++ interface returns the exact result or throws the documented exception",
 "Every C++ conversion either returns exactly the converted bytes or throws std::system_error carrying the errno of the underlying failure (std::bad_alloc when memory runs out) - never another exception, a truncated or padded string - and an Encoding object can be made from exactly the known names and code pages (std::invalid_argument otherwise) and compares equal exactly when it denotes the same encoding.",
 ["inputs","fault_sequences"],"all encodings, names, code pages, inputs valid or not",
 "The C++ tests convert a few valid strings.",
 ["lib/reiconv.cpp","include/cppp/reiconv.hpp.in","lib/generated/indexes.hpp.shippet"],[("wrapper over the C one-shot functions","lib/reiconv.cpp")],(),["reiconv::convert","reiconv::Encoding"])
p("C22","The generator tools turn any encoding list into right tables or fail",
 "For every list of encodings (encodings.h.snippet): genaliases writes exactly one entry for each listed name, upper-cased and with the encoding it is listed for, and fails if a name is not ASCII; genindexes writes, for C and for C++, exactly one constant per encoding, equal to its position in the list, and one per index alias, equal to the constant it names; check-encodings fails exactly when some name contains a lower-case letter. Each of them ends with a failure status when called with wrong arguments or when its output cannot be created or completely written.",
 ["inputs","fault_sequences"],"all lists of encodings, arguments and failing outputs",
 "No test runs the generators; they run only when a developer changes the list, and their output is compiled in.",
 ["tools/genaliases.cpp","tools/genindexes.cpp","tools/check-encodings.cpp","lib/encodings.h.snippet","lib/encoding_indexes.h"],
 [("the list is included with different macro definitions","tools/genaliases.cpp"),("constants from the internal enumeration","tools/genindexes.cpp")],(),["output and exit status of the tools"])
p("C23","Every call ends, with work and memory in proportion to its arguments",
 "Every call terminates. Its work grows at most linearly with the input it looks at (or with the length of the name), and depends neither on input left unread after an early stop nor on unused output room. Streaming, size-query and fixed-buffer calls hold at most a small constant amount of heap, the allocating and C++ conversions at most a small multiple of their result; a descriptor is small for every pair, and stack use is bounded whatever the length of inputs and names.",
 ["inputs","histories"],"all operations, encodings, inputs, names, lengths and rooms",
 "Tests convert small files and do not measure; a quadratic rescan or a buffer that grows with the input goes unnoticed.",
 [I,L,C,"lib/reiconv.cpp"],[("each character is decoded once per call",L),("size query works through a 4096-byte scratch buffer",I),("lookup stops at the longest known name",I)],(),["work counted inside the library, heap and stack high-water marks"])
p("C24","Results depend on the arguments alone and calls have no side effects",
 "Apart from the locale charset query, what a call does and returns is determined by its arguments and the descriptor: it does not depend on the locale, environment variables, the value of errno before the call, the previous contents of output buffers, heap or stack, or buffer addresses; and a call changes nothing but the output, the positions, the descriptor and errno - it never writes to its input and makes no system calls other than for memory.",
 ["inputs","histories","configurations"],"all calls in all process surroundings",
 "Tests run in one locale and environment, with errno 0 and fresh buffers, and look only at the result.",
 [I,L,C,"lib/reiconv.cpp"],[("name comparison is plain ASCII",I),("errno is read only after a failure",I)],(),["complete logs of all calls in different surroundings"])
p("C25","Results are the same for every compiler, char signedness and word size",
 "The library gives the same results (return values, errno, positions, bytes) for the same calls whichever supported compiler, optimisation level, signedness of char, enum size or pointer width it is built with, and none of these builds has out-of-bounds accesses or undefined behaviour on them.",
 ["inputs","configurations"],"all calls on all builds",
 "The tests run one build of one compiler on one platform.",
 [I,L,C,"lib/reiconv.cpp","lib/encoding.h"],[("bytes are handled as unsigned char",C),("states are 32-bit words","lib/encoding.h")],(),["complete logs of the same calls on differently built libraries"])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x,ensure_ascii=True)+"\n")
    print(len(P))

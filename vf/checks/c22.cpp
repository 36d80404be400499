// C22: the generator programs (tools/) turn any list of encodings into the right alias list and constants, and refuse what they must.
// One case = one random list (or the real one): the programs are compiled with it in a scratch directory, under ASan+UBSan, run, and their output judged.
#define RX_MAIN
#include "stream.hpp"
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace rx;
static string repo, dir, cxx = "clang++";
struct E { vector<string> names; string c, index; }; struct List { vector<E> e; vector<std::pair<string, string>> alias; vector<std::pair<u32, u32>> pages; bool lower = false, nonascii = false; };
static string slurp(const string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spew(const string &f, const string &t) { std::ofstream o(f, std::ios::binary); o << t; }
static int sh(const string &c, const string &out = "/dev/null") { int r = system(("cd " + dir + " && ( " + c + " ) > " + out + " 2> " + dir + "/err").c_str()); ctl->beat++; return WIFEXITED(r) ? WEXITSTATUS(r) : 128 + WTERMSIG(r); }
static string ident(Rng &g, std::set<string> &used, bool upper) {
    static const char *kw[] = {"auto", "int", "for", "if", "do", "else", "goto", "new", "and", "or", "not", "xor", "asm", "try", "this", "end", "main", "linux", "unix", "char", "long", "enum", "out", "names", "std", "EOF", "NULL", "BRACIFY", "C"};
    for (;;) { string s; u32 n = 1 + g.below(g.chance(10) ? 40 : 10); for (u32 k = 0; k < n; k++) { u32 w = g.below(37); char c = w < 26 ? (upper ? 'A' : 'a') + w : w < 36 && k ? '0' + (w - 26) : k ? '_' : 'Q'; s += c; } if (s.find("__") != string::npos || s[0] == '_') continue; bool bad = s.rfind("DEF", 0) == 0 || s == "linux" || s.size() < 2; for (auto k : kw) if (s == k) bad = true; if (!bad && used.insert(s).second) return s + (upper ? "" : "x"); }
}
static List make(Rng &g) {
    List l; std::set<string> un, uc, ui; u32 n = g.chance(15) ? 1 : 1 + g.below(g.chance(20) ? 300 : 40); l.lower = g.chance(40); l.nonascii = g.chance(20);
    for (u32 k = 0; k < n; k++) { E e; e.c = ident(g, uc, false); e.index = ident(g, ui, true); u32 m = 1 + g.below(g.chance(10) ? 30 : 5); static const char cs[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ:.+()&'=/ "; for (u32 q = 0; q < m; q++) for (;;) { string s; u32 z = 1 + g.below(g.chance(5) ? 60 : 12); while (z--) s += cs[g.below(sizeof cs - 1)]; if (s.front() == ' ' || s.back() == ' ') continue; if (un.insert(s).second) { e.names.push_back(s); break; } } l.e.push_back(e); }
    if (l.lower) { u32 z = 1 + g.below(3); while (z--) { E &e = l.e[g.chance(50) ? g.below(n) : n - 1]; string &s = e.names[g.chance(50) ? g.below(e.names.size()) : e.names.size() - 1]; u32 p = g.chance(50) ? g.below(s.size()) : s.size() - 1; string o = s; char c = g.chance(30) ? "az"[g.below(2)] : 'a' + g.below(26); s[p] = c; string up = s; for (auto &x : up) x = toupper(x); if (un.count(up) && up != o) s = o; else { un.erase(o); un.insert(up); } } l.lower = false; for (auto &e : l.e) for (auto &s : e.names) for (char c : s) if (c >= 'a' && c <= 'z') l.lower = true; }
    if (l.nonascii) { E &e = l.e[g.below(n)]; string &s = e.names[g.below(e.names.size())]; static const u8 b[] = {0x80, 0xff, 0xe9, 0xa0, 0xc3, 0xdd}; s.insert(g.below(s.size() + 1), 1, (char)b[g.below(6)]); }
    u32 na = g.below(6); while (na--) l.alias.push_back({ident(g, ui, true), l.e[g.below(n)].index}); std::set<u32> up; u32 np = g.below(6); while (np--) { u32 p = 1 + g.below(65535); if (up.insert(p).second) l.pages.push_back({p, g.below(n)}); }
    return l;
}
static string q(const string &s) { string r = "\""; for (u8 c : s) { if (c == '"' || c == '\\') r += '\\'; if (c >= 0x80) r += fmt("\\%03o", c); else r += c; } return r + "\""; }
static string snippet(const List &l, Rng &g) {
    string s = "/* a list of encodings */\n"; size_t ia = 0, ip = 0;
    for (size_t k = 0; k < l.e.size(); k++) { auto &e = l.e[k]; if (g.chance(20)) s += "// " + e.names[0].substr(0, 3) + " group\n\n"; s += "DEFENCODING(("; for (size_t j = 0; j < e.names.size(); j++) s += (j ? "             " : "") + q(e.names[j]) + (j + 1 < e.names.size() || g.chance(70) ? "," : "") + (g.chance(50) ? "         /* IANA */\n" : "\n"); s += "            ),\n            " + e.c + ",\n            " + e.index + ",\n            { " + e.c + "_mbtowc, NULL },     { " + e.c + "_wctomb, NULL })\n";
        while (ip < l.pages.size() && g.chance(40)) { s += fmt("DEFCODEPAGE(%u, %s)\n", l.pages[ip].first, l.e[l.pages[ip].second].c.c_str()); ip++; } while (ia < l.alias.size() && g.chance(40)) { s += "DEFINDEX(" + l.alias[ia].first + ", " + l.alias[ia].second + ")\n"; ia++; } s += "\n"; }
    while (ip < l.pages.size()) { s += fmt("DEFCODEPAGE(%u, %s)\n", l.pages[ip].first, l.e[l.pages[ip].second].c.c_str()); ip++; } while (ia < l.alias.size()) { s += "DEFINDEX(" + l.alias[ia].first + ", " + l.alias[ia].second + ")\n"; ia++; } return s;
}
static string tail(const string &f) { string s = slurp(f); return s.size() > 600 ? s.substr(0, 600) : s; }
static void judge(const List &l, const string &what, Rng &g) {
    static const char *tool[] = {"genaliases", "genindexes", "check-encodings"}; string base = fmt("%s -std=c++20 -w -O0 -g0 -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all -I%s ", cxx.c_str(), dir.c_str()), all; bool plain = g.chance(50); if (plain) base = "g++ -std=c++20 -w -O1 -I" + dir + " ";
    for (auto t : tool) all += base + repo + "/tools/" + t + ".cpp -o " + t + " & p" + (t[0] == 'c' ? "3" : t[3] == 'a' ? "1" : "2") + "=$!; "; all += "wait $p1 && wait $p2 && wait $p3";
    if (sh(all)) { fprintf(stderr, "the tools do not compile with %s: %s\n", what.c_str(), tail(dir + "/err").c_str()); exit(3); } cnt["lists"]++; cnt["entries"] += l.e.size();
    auto bad = [&](const string &k, const string &m) { fail(k, what + ": " + m); };
    // check-encodings
    int r = sh("./check-encodings"); cnt[r ? "check_refused" : "check_accepted"]++; if ((r != 0) != l.lower) bad("check-encodings", fmt("check-encodings ended with %d, the list %s", r, l.lower ? "has a name with a lower case letter" : "has upper case names only")); if (r > 1) bad("check-encodings-crash", tail(dir + "/err"));
    if (!sh("./check-encodings x")) bad("check-encodings-usage", "check-encodings accepted an argument");
    // genaliases
    r = sh("rm -f al; ./genaliases al"); if (r > 1) bad("genaliases-crash", tail(dir + "/err"));
    if (l.nonascii) { cnt["nonascii_lists"]++; if (!r) bad("genaliases-nonascii", "genaliases accepted a name that is not ASCII"); }
    else if (r) bad("genaliases-status", fmt("genaliases ended with %d: ", r) + tail(dir + "/err"));
    else {
        string s = slurp(dir + "/al"); size_t p = s.find("\n%%\n"); if (p == string::npos) bad("genaliases-form", "no %% line");
        else { string head = s.substr(0, p + 1); for (const char *d : {"%struct-type\n", "%pic\n", "%define lookup-function-name aliases_lookup\n", "%define hash-function-name aliases_hash\n", "struct alias { int name; unsigned int encoding_index; };"}) if (head.find(d) == string::npos) bad("genaliases-head", string("declaration missing: ") + d);
            vector<std::pair<string, string>> want, got; for (auto &e : l.e) for (auto &n : e.names) { string u = n; for (auto &c : u) if (c >= 'a' && c <= 'z') c -= 32; want.push_back({u, "ei_" + e.c}); } std::stringstream in(s.substr(p + 4)); string ln; bool form = true; while (std::getline(in, ln)) { if (ln == "%%") break; size_t c = ln.rfind(','); if (c == string::npos) { form = false; bad("genaliases-form", "line " + ln); break; } string v = ln.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); got.push_back({ln.substr(0, c), v}); }
            std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); cnt["alias_lines"] += got.size(); if (form && want != got) { string m; for (size_t k = 0; k < std::max(want.size(), got.size()); k++) if (k >= want.size() || k >= got.size() || want[k] != got[k]) { m = fmt("%zu entries, expected %zu; first difference: ", got.size(), want.size()) + (k < got.size() ? got[k].first + ", " + got[k].second : "(end)") + " instead of " + (k < want.size() ? want[k].first + ", " + want[k].second : "(end)"); break; } bad("genaliases-list", m); } }
        if (!sh("./genaliases /dev/full")) bad("genaliases-full", "genaliases reported success although nothing could be written"); if (!sh("./genaliases " + dir + "/no/such/dir/al")) bad("genaliases-open", "genaliases reported success although the file cannot be created"); cnt["write_failures"] += 2;
    }
    if (!sh("./genaliases")) bad("genaliases-usage", "genaliases accepted no argument"); if (!sh("./genaliases al2 al3")) bad("genaliases-usage", "genaliases accepted two arguments");
    // genindexes: the constants, as a compiler sees them
    std::map<string, u32> want; for (size_t k = 0; k < l.e.size(); k++) want[l.e[k].index] = k; for (auto &a : l.alias) want[a.first] = want[a.second];
    for (int cpp = 0; cpp < 2; cpp++) {
        string f = cpp ? "ix.hpp" : "ix.h"; r = sh(string("./genindexes ") + (cpp ? "C++" : "C"), dir + "/" + f); if (r) { bad("genindexes-status", fmt("genindexes ended with %d: ", r) + tail(dir + "/err")); continue; }
        string t = cpp ? "#include \"ix.hpp\"\nextern \"C\" int printf(const char*,...);\nint main() {\n" : "#include \"ix.h\"\nint printf(const char*,...);\nint main() {\n"; for (auto &w : want) t += "printf(\"" + w.first + " %d\\n\", (int)" + (cpp ? "reiconv::encoding::Encodings::" : "ENCODING_") + w.first + ");\n"; t += "}\n"; spew(dir + (cpp ? "/t.cpp" : "/t.c"), t);
        if (sh(cpp ? "clang++ -std=c++20 -w -O0 t.cpp -o t" : "clang -std=gnu17 -w -O0 t.c -o t")) { bad(cpp ? "genindexes-c++" : "genindexes-c", "a constant is missing or the result does not compile: " + tail(dir + "/err")); continue; } sh("./t", dir + "/val"); std::stringstream in(slurp(dir + "/val")); string n; u32 v, k = 0; while (in >> n >> v) { k++; if (want[n] != v) bad(cpp ? "genindexes-c++" : "genindexes-c", fmt("constant %s is %u, the encoding's index is %u", n.c_str(), v, want[n])); } cnt["constants"] += k;
        // nothing else is defined
        string s = slurp(dir + "/" + f); u32 eq = 0; for (size_t p = 0; (p = s.find(" = ", p)) != string::npos; p++) eq++; if (eq && eq != want.size()) bad(cpp ? "genindexes-c++-count" : "genindexes-c-count", fmt("%u constants instead of %zu", eq, want.size()));
        if (!sh(string("./genindexes ") + (cpp ? "C++" : "C"), "/dev/full")) bad("genindexes-full", "genindexes reported success although its output could not be written"); cnt["write_failures"]++;
    }
    if (!sh("./genindexes")) bad("genindexes-usage", "no argument accepted"); if (!sh("./genindexes D")) bad("genindexes-usage", "argument D accepted"); if (!sh("./genindexes C C")) bad("genindexes-usage", "two arguments accepted");
}
static string scratch() { string d = string(getenv("RX_DIR")) + fmt("/g%d", getpid()); mkdir(getenv("RX_DIR"), 0755); mkdir(d.c_str(), 0755); return d; }
static void lists(u64 i, Rng &g) {
    dir = scratch(); List l = make(g); string s = snippet(l, g); spew(dir + "/encodings.h.snippet", s); spew(dir + "/encoding_indexes.h", slurp(repo + "/lib/encoding_indexes.h")); u64 h = hashbytes(s.data(), s.size()); seen(h);
    judge(l, fmt("list %llx (%zu encodings, first %s, %zu index aliases%s%s)", (unsigned long long)h, l.e.size(), l.e[0].names[0].c_str(), l.alias.size(), l.lower ? ", lower case" : "", l.nonascii ? ", not ASCII" : ""), g); if (i % 13 == 0) sample(s.substr(0, 250));
}
// the real list, read by the compiler itself
static void real(u64, Rng &g) {
    dir = scratch(); spew(dir + "/encodings.h.snippet", slurp(repo + "/lib/encodings.h.snippet")); spew(dir + "/encoding_indexes.h", slurp(repo + "/lib/encoding_indexes.h"));
    spew(dir + "/l.c", "int printf(const char*,...);\n#define BR(...) {__VA_ARGS__}\n#define DEFENCODING(n, x, i, a, b, c, d) { static const char *const nm[] = BR n; printf(\"E %s %s\\n\", #x, #i); for (unsigned k = 0; k < sizeof nm / sizeof *nm; k++) printf(\"N %s\\n\", nm[k]); }\n#define DEFCODEPAGE(p, x) printf(\"P %s %s\\n\", #p, #x);\n#define DEFINDEX(a, i) printf(\"A %s %s\\n\", #a, #i);\nint main() {\n#include \"encodings.h.snippet\"\n}\n");
    if (sh("clang -w -O0 l.c -o l") || sh("./l", dir + "/list")) { fprintf(stderr, "the list does not compile: %s\n", tail(dir + "/err").c_str()); exit(3); }
    List l; std::stringstream in(slurp(dir + "/list")); string ln; while (std::getline(in, ln)) { string a = ln.substr(2); if (ln[0] == 'N') { l.e.back().names.push_back(a); for (char c : a) { if (c >= 'a' && c <= 'z') l.lower = true; if (c & 0x80) l.nonascii = true; } } else { size_t p = a.find(' '); string x = a.substr(0, p), y = a.substr(p + 1); if (ln[0] == 'E') l.e.push_back({{}, x, y}); else if (ln[0] == 'A') l.alias.push_back({x, y}); } }
    judge(l, "the real list", g); cnt["real_list_entries"] += l.e.size();
}
int main(int c, char **v) { repo = getenv("RX_REPO_DIR") ? getenv("RX_REPO_DIR") : "/repo"; return rx_main(c, v, {{"real", real, 2, 4}, {"lists", lists, 56, 1500}}, false); }

#include <cppp/reiconv.hpp>
#include <cstdlib>
#include <new>
#include <system_error>
extern "C" int os_cpp(int from, int to, int flag, const char *in, size_t n, unsigned char **out, size_t *len) {
    try { std::string s = reiconv::convert((reiconv::Encodings)from, (reiconv::Encodings)to, std::string_view(in, n), (reiconv::ConvertFlag)flag); *len = s.size(); *out = (unsigned char *)malloc(s.size() + 1); memcpy(*out, s.data(), s.size()); return 0; }
    catch (const std::system_error &e) { return e.code().value() ? e.code().value() : 9001; } catch (const std::bad_alloc &) { return 9002; } catch (...) { return 9003; }
}

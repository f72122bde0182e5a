#pragma once
// Stand-in for libfmt used only for verification builds: same call syntax,
// replaces each "{...}" by the argument in turn (specs: x, >N for integers / strings).
#include <string>
#include <string_view>
#include <cstdio>
#include <cstdint>
#include <type_traits>
#include <stdexcept>
#include <optional>
extern "C" int vf_tok(unsigned long long v, int isSigned);   // -1: concrete; else the token number of this value
extern "C" void vf_tokd(double v, char* out);               // text of a floating-point number (a token when symbolic)
namespace fmt {
namespace vf {
inline std::string utoa(unsigned long long v, unsigned base) {
    char buf[72]; int i = 72;
    do { buf[--i] = "0123456789abcdef"[v % base]; v /= base; } while (v);
    return std::string(buf + i, 72 - i);
}
inline std::string itoa(long long v) {
    if (v < 0) return "-" + utoa(0ull - (unsigned long long)v, 10);
    return utoa((unsigned long long)v, 10);
}
struct Ptr { const void* p; };
template<typename T> std::string conv(const T& v, bool hex) {
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, char>) return std::string(1, v);
    else if constexpr (std::is_floating_point_v<T>) { char b[40]; vf_tokd(v, b); return b; }
    else if constexpr (std::is_integral_v<T>) {
        if (hex) return utoa((unsigned long long)v, 16);
        int k = vf_tok((unsigned long long)v, std::is_signed_v<T>);
        if (k >= 0) return "@" + utoa(k, 10) + ";";
        if constexpr (std::is_signed_v<T>) return itoa(v); else return utoa(v, 10);
    }
    else if constexpr (std::is_same_v<T, Ptr>) return "<ptr>";
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) return std::string(std::string_view(v));
    else return "<value>";
}
inline void step(std::string& out, std::string_view& f) {
    while (!f.empty()) {
        char c = f[0];
        if (c == '{' && f.size() > 1 && f[1] == '{') { out += '{'; f.remove_prefix(2); continue; }
        if (c == '}' && f.size() > 1 && f[1] == '}') { out += '}'; f.remove_prefix(2); continue; }
        if (c == '{') return;
        out += c; f.remove_prefix(1);
    }
}
template<typename T> void one(std::string& out, std::string_view& f, const T& v) {
    step(out, f);
    if (f.empty()) return;
    bool hex = false; unsigned width = 0;
    std::size_t i = 1;
    while (i < f.size() && f[i] != '}') {
        if (f[i] == 'x') hex = true;
        if (f[i] >= '0' && f[i] <= '9') width = width * 10 + (f[i] - '0');
        ++i;
    }
    f.remove_prefix(i < f.size() ? i + 1 : f.size());
    std::string s = conv(v, hex);
    while (s.size() < width) s = " " + s;
    out += s;
}
}
template<typename T> vf::Ptr ptr(const T* p) { return {p}; }
struct fstr {
    std::string_view s;
    template<typename S> requires std::is_convertible_v<const S&, std::string_view>
    constexpr fstr(const S& x) : s(x) {}
};
template<typename... A> using format_string = fstr;
template<typename... A> std::string format(fstr f, const A&... a) {
    std::string out; std::string_view v = f.s;
    (vf::one(out, v, a), ...);
    vf::step(out, v);
    return out;
}
template<typename... A> void print(fstr, const A&...) {}
template<typename... A> void print(std::FILE*, fstr, const A&...) {}
struct text_style {};
inline text_style operator|(text_style a, text_style) { return a; }
enum class color { violet, blue, orange, crimson, red, green, dark_blue, dim_gray, beige, cornflower_blue, dark_green, light_gray };
enum class emphasis { bold, italic };
inline text_style fg(color) { return {}; }
inline text_style operator|(text_style a, emphasis) { return a; }
template<typename... A> std::string format(text_style, fstr f, const A&... a) { return format(f, a...); }
template<typename S, typename... A> void print(std::FILE*, text_style, const S&, const A&...) {}
template<typename S, typename... A> void print(text_style, const S&, const A&...) {}
}

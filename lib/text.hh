// C19-C22: construction from text and printing.
#pragma once
#include "ops.hh"
namespace ops {
struct Text {
    Ty t;
    void (*parse)(const std::string &s, int how, Out &o);
    std::string (*print)(const Bits &b, const std::string &fmt, int how);
    // prints, parses the print into the same type, prints again
    // parse a buffer of exactly n bytes, then use the vector; fmt may be null
    void (*raw)(const char *p, size_t n, const char *fmt, size_t nf);
    void (*round)(const Bits &b, const std::string &prefix, const std::string &fmt, Out &o, std::string &printed, std::string &again);
};
std::vector<Text> &texts();

// every text at the same address
inline const char *reused_buffer(const std::string &s) {
    static thread_local std::vector<char> buf(1 << 14);
    if (s.size() > buf.size()) buf.resize(s.size());
    std::copy(s.begin(), s.end(), buf.begin());
    return buf.data();
}
template <typename T>
T parsed(const std::string &s, int how) {
    if constexpr (traits<T>::four)
        if (how == 1 && s.find('\0') == std::string::npos) return T(s.c_str());
    if (how == 2) {  // a view into a larger buffer: nothing outside it may be read
        const std::string big = "7'h" + s + "1zf";
        return T(std::string_view(big).substr(3, s.size()));
    }
    if (how == 3) return T(std::string_view(reused_buffer(s), s.size()));
    return T(std::string_view(s));
}
template <typename T>
void parse_fn(const std::string &s, int how, Out &o) {
    const T v = parsed<T>(s, how);
    observe(v, o);
}
template <typename T>
std::string print_fn(const Bits &b, const std::string &fmt, int how) {
    const T v = load<T>(b);
    if (how == 1 && fmt == "b") return v.str();
    if (how == 2) {  // a format that is a view into a larger buffer
        const std::string big = fmt + "7d";
        return v.str(std::string_view(big).substr(0, fmt.size()));
    }
    if (how == 3) return v.str(std::string_view(reused_buffer(fmt), fmt.size()));
    return v.str(fmt);
}
template <typename T>
void raw_fn(const char *p, size_t n, const char *fmt, size_t nf) {
    const T v = T(std::string_view(p, n));
    Out o;
    observe(v, o);
    volatile size_t sink = 0;
    if (fmt) sink = v.str(std::string_view(fmt, nf)).size();
    sink = v.str("b").size() + v.str("o").size() + v.str("h").size() + v.str("s").size();
    if constexpr (T::size <= 128) sink = v.str("d").size();
    // what an invalid text leaves behind goes through the operators too
    const T w = T(v + v);
    observe(w, o);
    observe(v * v, o);
    observe(v << v, o);
    observe(v / w, o);
    observe(v < w, o);
}
template <typename T>
void round_fn(const Bits &b, const std::string &prefix, const std::string &fmt, Out &o, std::string &printed, std::string &again) {
    const T v = load<T>(b);
    printed = v.str(fmt);
    const std::string text = prefix + printed;
    const T w = T(std::string_view(text));
    observe(w, o);
    if (!w.match(v)) o.bad = "parsed vector does not match the printed one";
    again = w.str(fmt);
}
template <typename T>
void text() {
    texts().push_back({ty_of<T>(), parse_fn<T>, print_fn<T>, raw_fn<T>, round_fn<T>});
}
}  // namespace ops

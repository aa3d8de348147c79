// C15: concatenations and unpackings.
#pragma once
#include "ops.hh"
namespace ops {
struct Cat {
    std::vector<Ty> pieces;  // first operand first
    // how 0: a.concat(b, ...), 1: concat(a, b, ...), 2: a.concat(b).concat(c)...
    void (*fn)(const std::vector<Bits> &in, int how, Out &o, std::vector<Bits> &after);
    Ty src;                  // unpack: the vector
    void (*un)(const Bits &src, std::vector<Bits> &out, std::string &bad);
    bool round;              // pieces can be unpacked from the concatenation
    void (*rt)(const std::vector<Bits> &in, std::vector<Bits> &out);
};
std::vector<Cat> &cats();

template <typename A>
auto chain(A a) {
    return a;
}
template <typename A, typename B, typename... Cs>
auto chain(A a, B b, Cs... cs) {
    return chain(a.concat(b), cs...);
}
template <typename... Ts>
std::vector<Ty> tys() {
    return {ty_of<Ts>()...};
}
template <typename... Ts, size_t... I>
std::tuple<Ts...> load_all(const std::vector<Bits> &in, std::index_sequence<I...>) {
    return {load<Ts>(in[I])...};
}
template <typename... Ts>
void cat_fn(const std::vector<Bits> &in, int how, Out &o, std::vector<Bits> &after) {
    auto t = load_all<Ts...>(in, std::index_sequence_for<Ts...>{});
    std::apply([&](auto &a, auto &...b) {
        if (how == 0) observe(a.concat(b...), o);
        else if (how == 1) observe(logic::concat(a, b...), o);
        else observe(chain(a, b...), o);
        after = {read(a), read(b)...};
    }, t);
}
template <typename S, typename... Ts>
void un_fn(const Bits &src, std::vector<Bits> &out, std::string &bad) {
    const S s = load<S>(src);
    std::tuple<Ts...> t;
    std::apply([&](auto &...x) {
        s.unpack(x...);
        out = {read(x)...};
        (cross_check(x, read(x), bad), ...);
    }, t);
    if (read(s) != src) bad = "unpacking changed the vector";
}
template <typename... Ts>
void rt_fn(const std::vector<Bits> &in, std::vector<Bits> &out) {
    auto t = load_all<Ts...>(in, std::index_sequence_for<Ts...>{});
    std::tuple<Ts...> u;
    std::apply([&](auto &a, auto &...b) {
        const auto all = a.concat(b...);
        std::apply([&](auto &...x) {
            all.unpack(x...);
            out = {read(x)...};
        }, u);
    }, t);
}
template <typename... Ts>
void cat() {
    cats().push_back({tys<Ts...>(), cat_fn<Ts...>, {}, nullptr, false, nullptr});
}
template <typename... Ts>
void cat_rt() {
    cats().push_back({tys<Ts...>(), cat_fn<Ts...>, {}, nullptr, true, rt_fn<Ts...>});
}
template <typename S, typename... Ts>
void unpk() {
    cats().push_back({tys<Ts...>(), nullptr, ty_of<S>(), un_fn<S, Ts...>, false, nullptr});
}
}  // namespace ops

// C23: C++ integers to vectors and back.
#pragma once
#include "ops.hh"
namespace ops {
struct IntKind {
    const char *name;
    int bits;
    bool sgn;
};
inline const IntKind int_kinds[] = {
    {"bool", 1, false}, {"char", 8, std::is_signed_v<char>}, {"signed char", 8, true}, {"unsigned char", 8, false}, {"short", 16, true},
    {"unsigned short", 16, false}, {"int", 32, true}, {"unsigned", 32, false}, {"long", 64, true}, {"unsigned long", 64, false},
    {"long long", 64, true}, {"unsigned long long", 64, false}};
template <typename F>
void with_int(int k, uint64_t raw, F f) {
    switch (k) {
        case 0: return f(static_cast<bool>(raw & 1));
        case 1: return f(static_cast<char>(raw));
        case 2: return f(static_cast<signed char>(raw));
        case 3: return f(static_cast<unsigned char>(raw));
        case 4: return f(static_cast<short>(raw));
        case 5: return f(static_cast<unsigned short>(raw));
        case 6: return f(static_cast<int>(raw));
        case 7: return f(static_cast<unsigned>(raw));
        case 8: return f(static_cast<long>(raw));
        case 9: return f(static_cast<unsigned long>(raw));
        case 10: return f(static_cast<long long>(raw));
        default: return f(static_cast<unsigned long long>(raw));
    }
}
struct IntConv {
    Ty t;
    // how 0: T v(x); 1: v = x over old contents; 2: T v = T(x) copied
    void (*from)(int kind, uint64_t raw, int how, const Bits &old, Out &o, bool &ref_ok);
    // reading a vector: everything observable as C++ values
    void (*to)(const Bits &b, uint64_t &u64, bool &has_num, int64_t &num, bool &num_signed, int &num_bits, bool &truth, char &neg);
};
std::vector<IntConv> &intconvs();

template <typename T>
void int_from(int kind, uint64_t raw, int how, const Bits &old, Out &o, bool &ref_ok) {
    ref_ok = true;
    with_int(kind, raw, [&](auto x) {
        if (how == 1) {
            T v = load<T>(old);
            auto &r = (v = x);
            ref_ok = static_cast<const void *>(&r) == &v;
            observe(v, o);
        } else if (how == 2) {
            const T v = T(x);
            const T w(v);
            observe(w, o);
        } else {
            const T v(x);
            observe(v, o);
        }
    });
}
template <typename T>
void int_to(const Bits &b, uint64_t &u64, bool &has_num, int64_t &num, bool &num_signed, int &num_bits, bool &truth, char &neg) {
    const T v = load<T>(b);
    u64 = v.to_uint64();
    has_num = T::size <= 64;
    if constexpr (T::size <= 64) {
        const auto n = v.to_num();
        num = static_cast<int64_t>(n);
        num_signed = std::is_signed_v<std::remove_const_t<decltype(n)>>;
        num_bits = sizeof n * 8;
    }
    truth = v ? true : false;
    if constexpr (traits<T>::four) {
        const auto r = !v;
        neg = r.x_set(0) ? 'x' : r.z_set(0) ? 'z' : static_cast<bool>(r) ? '1' : '0';
    } else
        neg = !v ? '1' : '0';
}
template <typename T>
void ints() {
    intconvs().push_back({ty_of<T>(), int_from<T>, int_to<T>});
}
}  // namespace ops

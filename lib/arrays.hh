// C16/C17: packed and unpacked arrays behind one interface.
#pragma once
#include <memory>

#include "logic/array.hh"
#include "ops.hh"
namespace ops {
struct Arr {
    virtual ~Arr() = default;
    bool four = true, desc = true;
    int lo = 0, hi = 0, w = 0;
    Ty idx;                       // type of run-time indexes
    std::vector<Ty> val;          // types of written values
    std::vector<std::pair<int, int>> ranges;  // element ranges available at compile time (hi, lo)
    virtual std::unique_ptr<Arr> fresh() const = 0;
    virtual std::unique_ptr<Arr> clone() const = 0;
    virtual void assign(const Arr &o) = 0;
    virtual void from_text(const Bits &flat) = 0;  // construct from a binary literal
    virtual void from_int(uint64_t v) = 0;
    virtual std::string text() const = 0;          // str("b"), most significant first
    virtual Bits get(const Bits &index, Ty &ty) const = 0;
    virtual void put(const Bits &index, size_t v, const Bits &value) = 0;
    virtual Bits rslice(size_t r, Ty &ty) const = 0;
    virtual void rput(size_t r, const Bits &value) = 0;
    virtual Bits flat_slice(int lo, Ty &ty) const = 0;  // one element's width at any flat position
    // the array used as a vector: operation op on it and on a plain vector of the same bits
    virtual void as_vector(int op, const Bits &same, const Bits &other, Out &arr, Out &plain) const = 0;
    virtual void bump(int op, const Bits &other) = 0;  // operations that modify the array as a vector
    virtual void set_bit(int at, char c) = 0;
};
enum { V_AND, V_OR, V_XOR, V_NOT, V_ADD, V_SUB, V_MUL, V_SHR, V_EQ, V_MATCH, V_LT, V_RAND, V_ROR, V_RXOR, V_LNOT, V_NEG, V_CONCAT, V_EXTEND, V_SIGNED, V_VALUE, V_COUNT };
extern const char *const v_names[V_COUNT];
enum { B_AND, B_OR, B_XOR, B_INC, B_DEC, B_COUNT };
std::vector<std::unique_ptr<Arr>> &arrs();

template <typename V>
Bits read_ty(const V &v, Ty &ty) {
    ty = ty_of<V>();
    return read(v);
}
template <int h, int l>
struct R {};

template <int op, typename A, typename F>
void vec_op(const A &a, const F &f, Out &o) {
    if constexpr (op == V_AND) observe(a & f, o);
    else if constexpr (op == V_OR) observe(a | f, o);
    else if constexpr (op == V_XOR) observe(a ^ f, o);
    else if constexpr (op == V_NOT) observe(~a, o);
    else if constexpr (op == V_ADD) observe(a + f, o);
    else if constexpr (op == V_SUB) observe(a - f, o);
    else if constexpr (op == V_MUL) observe(a * f, o);
    else if constexpr (op == V_SHR) observe(a >> f, o);
    else if constexpr (op == V_EQ) observe(a == f, o);
    else if constexpr (op == V_MATCH) observe(a.match(f), o);
    else if constexpr (op == V_LT) observe(a < f, o);
    else if constexpr (op == V_RAND) observe(a.r_and(), o);
    else if constexpr (op == V_ROR) observe(a.r_or(), o);
    else if constexpr (op == V_RXOR) observe(a.r_xor(), o);
    else if constexpr (op == V_LNOT) observe(!a, o);
    else if constexpr (op == V_NEG) observe(-a, o);
    else if constexpr (op == V_CONCAT) {
        auto c = a;
        observe(c.concat(f), o);
    } else if constexpr (op == V_EXTEND) observe(a.template extend<A::size + 3>(), o);
    else if constexpr (op == V_SIGNED) observe(a.to_signed(), o);
    else {
        o.b = (a ? "1 " : "0 ") + std::to_string(a.to_uint64()) + " " + a.str("h") + " " + a.str("o");
        if constexpr (A::size <= 64) o.b += " " + std::to_string(a.to_num());
    }
}
// EV: an unsigned vector of the element's width and kind; Vs: value types; Rs: element ranges
template <typename A, int msb, int lsb, typename LI, typename Vs, typename Rs>
struct ArrT;
template <typename A, int msb, int lsb, typename LI, typename... V, typename... Rg>
struct ArrT<A, msb, lsb, LI, std::tuple<V...>, std::tuple<Rg...>> : Arr {
    A a;
    static constexpr bool k4 = A::is_4state;
    template <int n>
    using Flat = std::conditional_t<k4, logic::logic<n - 1, 0>, logic::bit<n - 1, 0>>;
    template <int h, int l>
    static std::pair<int, int> rg(R<h, l>) {
        return {h, l};
    }
    ArrT() {
        four = k4;
        desc = msb >= lsb;
        lo = std::min(msb, lsb);
        hi = std::max(msb, lsb);
        w = A::base_size;
        idx = ty_of<LI>();
        val = {ty_of<V>()...};
        ranges = {rg(Rg{})...};
    }
    std::unique_ptr<Arr> fresh() const override { return std::make_unique<ArrT>(); }
    std::unique_ptr<Arr> clone() const override { return std::make_unique<ArrT>(*this); }
    void assign(const Arr &o) override { a = static_cast<const ArrT &>(o).a; }
    void from_text(const Bits &flat) override { a = A(std::string_view("'b" + ref::msb_first(flat))); }
    void from_int(uint64_t v) override { a = A(v); }
    std::string text() const override { return a.str("b"); }
    Bits get(const Bits &index, Ty &ty) const override {
        const auto r = a[load<LI>(index)];
        return read_ty(r, ty);
    }
    void put(const Bits &index, size_t k, const Bits &value) override {
        size_t n = 0;
        ((n++ == k ? a.update(load<LI>(index), load<V>(value)) : void()), ...);
    }
    template <int h, int l>
    Bits rget(R<h, l>, Ty &ty) const {
        const auto r = a.template slice_array<h, l>();
        return read_ty(r, ty);
    }
    template <int h, int l>
    void rset(R<h, l>, const Bits &value) {
        constexpr int n = ((h > l ? h - l : l - h) + 1) * A::base_size;
        a.template update<h, l>(load<Flat<n>>(value));
    }
    Bits rslice(size_t k, Ty &ty) const override {
        size_t n = 0;
        Bits b;
        ((n++ == k ? void(b = rget(Rg{}, ty)) : void()), ...);
        return b;
    }
    void rput(size_t k, const Bits &value) override {
        size_t n = 0;
        ((n++ == k ? rset(Rg{}, value) : void()), ...);
    }
    Bits flat_slice(int at, Ty &ty) const override {
        const auto r = a.template slice<A::base_size>(at + (int)A::base_size - 1, at);
        return read_ty(r, ty);
    }
    static constexpr int total = A::array_size;
    using Plain = std::conditional_t<k4, logic::logic<total - 1, 0, A::is_signed>, logic::bit<total - 1, 0, A::is_signed>>;
    template <int... op>
    void run_op(int k, const Plain &p, const Flat<total> &f, Out &x, Out &y, std::integer_sequence<int, op...>) const {
        ((k == op ? (vec_op<op>(a, f, x), vec_op<op>(p, f, y)) : void()), ...);
    }
    void as_vector(int op, const Bits &same, const Bits &other, Out &x, Out &y) const override {
        run_op(op, load<Plain>(same), load<Flat<total>>(other), x, y, std::make_integer_sequence<int, V_COUNT>());
    }
    void bump(int op, const Bits &other) override {
        const auto f = load<Flat<total>>(other);
        if (op == B_AND) a &= f;
        else if (op == B_OR) a |= f;
        else if (op == B_XOR) a ^= f;
        else if (op == B_INC) ++a;
        else --a;
    }
    void set_bit(int at, char c) override {
        if constexpr (k4) {
            if (c == 'z') a.set_z(at);
            else a.set_x(at);
        } else
            a.set(at, c == '1');
    }
};
template <typename T, int msb, int lsb, typename LI, typename Vs, typename Rs>
void parr() {
    arrs().push_back(std::make_unique<ArrT<logic::packed_array<T, msb, lsb>, msb, lsb, LI, Vs, Rs>>());
}

// ---- unpacked
struct UArr {
    virtual ~UArr() = default;
    Ty elem;
    int lo = 0, hi = 0;
    std::vector<int> cidx;   // compile-time indexes of writes
    Ty src;                  // another type that is written
    virtual std::unique_ptr<UArr> fresh() const = 0;
    virtual std::unique_ptr<UArr> clone() const = 0;
    virtual void assign(const UArr &o) = 0;
    virtual Bits get(int i) const = 0;
    virtual void put(size_t k, bool other, const Bits &v) = 0;
    virtual void check(int i, const Bits &b, std::string &bad) const = 0;
};
std::vector<std::unique_ptr<UArr>> &uarrs();
template <typename T, int msb, int lsb, typename S, int... ci>
struct UArrT : UArr {
    logic::unpacked_array<T, msb, lsb> a;
    UArrT() {
        elem = ty_of<T>();
        src = ty_of<S>();
        lo = std::min(msb, lsb);
        hi = std::max(msb, lsb);
        cidx = {ci...};
    }
    std::unique_ptr<UArr> fresh() const override { return std::make_unique<UArrT>(); }
    std::unique_ptr<UArr> clone() const override { return std::make_unique<UArrT>(*this); }
    void assign(const UArr &o) override { a = static_cast<const UArrT &>(o).a; }
    Bits get(int i) const override { return read(a[i]); }
    template <int i>
    void p(bool other, const Bits &v) {
        if (other) a.template update<i>(load<S>(v));
        else a.template update<i>(load<T>(v));
    }
    void put(size_t k, bool other, const Bits &v) override {
        size_t n = 0;
        ((n++ == k ? p<ci>(other, v) : void()), ...);
    }
    void check(int i, const Bits &b, std::string &bad) const override { cross_check(a[i], b, bad); }
};
template <typename T, int msb, int lsb, typename S, int... ci>
void uarr() {
    uarrs().push_back(std::make_unique<UArrT<T, msb, lsb, S, ci...>>());
}
}  // namespace ops

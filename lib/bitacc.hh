// C12: single-bit writes and reads of one vector object, by every offered form.
#pragma once
#include <memory>

#include "ops.hh"
namespace ops {
struct BitObj {
    virtual ~BitObj() = default;
    Ty ty;
    std::vector<int> cidx;                    // indexes available at compile time
    virtual std::unique_ptr<BitObj> fresh() const = 0;
    virtual void fill(const Bits &b) = 0;
    virtual Bits all() const = 0;             // operator[](int)
    // run-time index writes; how: see write_name
    virtual void write(int how, int idx, char c) = 0;
    // compile-time index: position in cidx
    virtual void cwrite(int how, size_t ci, char c) = 0;
    virtual char cread(int how, size_t ci) const = 0;
    virtual char rread(int how, int idx) const = 0;   // 0 operator[], 1 x_set/z_set
    virtual char iread(bool four_index, const Bits &index) const = 0;
    virtual void check(const Bits &expect, std::string &bad) const = 0;
    Ty lidx, bidx;                            // types of the vectors used as index
};
std::vector<std::unique_ptr<BitObj>> &bit_objs();

template <typename R>
char bit_char(const R &r) {
    if constexpr (std::is_same_v<R, bool>) return r ? '1' : '0';
    else if constexpr (R::is_4state) return r.x_set(0) ? 'x' : r.z_set(0) ? 'z' : static_cast<bool>(r) ? '1' : '0';
    else return static_cast<bool>(r) ? '1' : '0';
}
inline logic::logic<0> bit4(char c) {
    logic::logic<0> l;
    if (c == 'z') l.set_z(0);
    else if (c != 'x') l.set(0, c == '1');
    return l;
}

template <typename T, typename LI, typename BI, int... ci>
struct BitObjT : BitObj {
    T v;
    BitObjT() {
        ty = ty_of<T>();
        cidx = {ci...};
        lidx = ty_of<LI>();
        bidx = ty_of<BI>();
    }
    std::unique_ptr<BitObj> fresh() const override { return std::make_unique<BitObjT>(); }
    void fill(const Bits &b) override { store(v, b); }
    Bits all() const override { return read(v); }
    void write(int how, int idx, char c) override {
        if constexpr (traits<T>::four) {
            if (c == 'x' && how == 0) return v.set_x(idx);
            if (c == 'z' && how == 0) return v.set_z(idx);
            if (how == 0) v.set(idx, c == '1');
            else if (how == 1) v.set(idx, bit4(c));
            else {
                logic::logic<0, 0, true> s(bit4(c).to_signed());
                v.set(idx, s);
            }
        } else {
            if (how == 0) v.set(idx, c == '1');
            else v.set(idx, logic::bit<0>(c == '1'));
        }
    }
    template <int i>
    void cw(int how, char c) {
        if constexpr (traits<T>::four) {
            if (c == 'x') v.template set_x<i>();
            else if (c == 'z') v.template set_z<i>();
            else if (how == 0) v.template set<i>(c == '1');
            else if (c == '1') v.template set<i, true>();
            else v.template set<i, false>();
        } else {
            if (how == 0) v.template set<i>(c == '1');
            else if (how == 1) v.template set<i>(logic::bit<0>(c == '1'));
            else if (c == '1') v.template set<i, true>();
            else v.template set<i, false>();
        }
    }
    void cwrite(int how, size_t k, char c) override {
        size_t n = 0;
        ((n++ == k ? cw<ci>(how, c) : void()), ...);
    }
    template <int i>
    char cr(int how) const {
        if constexpr (traits<T>::four) {
            if (how == 1) return v.template x_set<i>() ? 'x' : v.template z_set<i>() ? 'z' : v[i].value ? '1' : '0';
        }
        return bit_char(v.template get<i>());
    }
    char cread(int how, size_t k) const override {
        size_t n = 0;
        char r = 0;
        ((n++ == k ? void(r = cr<ci>(how)) : void()), ...);
        return r;
    }
    char rread(int how, int idx) const override {
        if constexpr (traits<T>::four) {
            if (how == 1) return v.x_set(idx) ? 'x' : v.z_set(idx) ? 'z' : bit_char(v[idx]);
        }
        return bit_char(v[idx]);
    }
    char iread(bool four_index, const Bits &index) const override {
        if constexpr (traits<T>::four) {
            if (four_index) return bit_char(v.get(load<LI>(index)));
        }
        return bit_char(v.get(load<BI>(index)));
    }
    void check(const Bits &b, std::string &bad) const override { cross_check(v, b, bad); }
};
template <typename T, typename LI, typename BI, int... ci>
void bitobj() {
    bit_objs().push_back(std::make_unique<BitObjT<T, LI, BI, ci...>>());
}
}  // namespace ops

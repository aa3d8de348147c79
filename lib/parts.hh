// C13/C14: part-select reads and writes in every offered form.
#pragma once
#include <memory>

#include "ops.hh"
namespace ops {
enum Form { F_CT, F_RT, F_INC, F_DEC, F_REF_CT, F_REF_RT, F_REF_INC, F_REF_DEC };
const char *form_name(Form f);

struct Sel {
    Ty t;
    Form form;
    int a, b;   // compile-time bounds
    int n;      // selected width
    Ty base;    // type of the base of an indexed select
    void (*fn)(const Bits &v, int a, int b, Out &o);  // F_INC/F_DEC: a is the base
};
std::vector<Sel> &sels();

template <typename T, Form form, int a, int b, typename B>
void sel_fn(const Bits &bits, int ra, int rb, Out &o) {
    const T v = load<T>(bits);
    constexpr uint32_t n = (a > b ? a - b : b - a) + 1;
    if constexpr (form == F_CT) observe(v.template slice<a, b>(), o);
    else if constexpr (form == F_RT) observe(v.template slice<n>(ra, rb), o);
    else {
        const B base = load<B>(ref::from_i64(ra, ty_of<B>().w()));
        if constexpr (form == F_INC) {
            if (ra & 1) observe(v.template slice<n>(base), o);  // the default direction is upwards
            else observe(v.template slice<n, true>(base), o);
        } else observe(v.template slice<n, false>(base), o);
    }
    o.l = read(v);
}
template <typename T, Form form, int a, int b, typename B = logic::bit<7, 0>>
void sel() {
    sels().push_back({ty_of<T>(), form, a, b, (a > b ? a - b : b - a) + 1, ty_of<B>(), sel_fn<T, form, a, b, B>});
}

// ---- writes: a subject is a vector object with a set of ways to write parts of it
struct Part {
    virtual ~Part() = default;
    Ty ty;
    virtual std::unique_ptr<Part> fresh() const = 0;
    virtual void fill(const Bits &b) = 0;
    virtual Bits bits() const = 0;
    virtual void check(const Bits &b, std::string &bad) const = 0;
};
template <typename T>
struct PartT : Part {
    T v;
    PartT() { ty = ty_of<T>(); }
    std::unique_ptr<Part> fresh() const override { return std::make_unique<PartT>(); }
    void fill(const Bits &b) override { store(v, b); }
    Bits bits() const override { return read(v); }
    void check(const Bits &b, std::string &bad) const override { cross_check(v, b, bad); }
};
struct Write {
    Form form;
    int a, b, n;
    Ty src, base;
    void (*fn)(Part &, const Bits &src, int a, int b, Bits &src_after);
};
struct Subject {
    std::unique_ptr<Part> proto;
    std::vector<Write> writes;
};
std::vector<Subject> &subjects();

template <typename T, typename S, Form form, int a, int b, typename B>
void write_fn(Part &p, const Bits &bits, int ra, int rb, Bits &after) {
    T &v = static_cast<PartT<T> &>(p).v;
    const S s = load<S>(bits);
    constexpr uint32_t n = (a > b ? a - b : b - a) + 1;
    if constexpr (form == F_CT) v.template update<a, b>(s);
    else if constexpr (form == F_RT) v.update(ra, rb, s);
    else if constexpr (form == F_REF_CT) v.template slice_ref<a, b>() = s;
    else if constexpr (form == F_REF_RT) v.slice_ref(ra, rb) = s;
    else {
        const B base = load<B>(ref::from_i64(ra, ty_of<B>().w()));
        if constexpr (form == F_REF_INC) v.template slice_ref<n, true>(base) = s;
        else v.template slice_ref<n, false>(base) = s;
    }
    after = read(s);
}
template <typename T>
void subject() {
    subjects().push_back({std::make_unique<PartT<T>>(), {}});
}
template <typename T, typename S, Form form, int a, int b, typename B = logic::bit<7, 0>>
void wr() {
    subjects().back().writes.push_back({form, a, b, (a > b ? a - b : b - a) + 1, ty_of<S>(), ty_of<B>(), write_fn<T, S, form, a, b, B>});
}
}  // namespace ops

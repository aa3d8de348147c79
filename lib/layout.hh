// C18: packed structs and unions with generated layouts, accessed as the repository's tests do:
// a type derived from packed_struct/union_ with accessors built on slice and update.
#pragma once
#include <memory>

#include "logic/struct.hh"
#include "logic/union.hh"
#include "ops.hh"
namespace ops {
struct Layout {
    virtual ~Layout() = default;
    bool four = true, is_union = false;
    int size = 0;
    struct F {
        int hi, lo;
        Ty ty;
    };
    std::vector<F> fields;
    Ty whole;  // a type the whole object is assigned from and to
    Ty self;   // the type of the whole object
    virtual std::unique_ptr<Layout> fresh() const = 0;
    virtual std::unique_ptr<Layout> clone() const = 0;
    virtual void assign(const Layout &o) = 0;
    virtual Bits flat() const = 0;
    virtual Bits get_whole() const = 0;                         // the object stored into a variable of type whole
    virtual Bits get(size_t f, Ty &ty) const = 0;               // the accessor's value
    virtual Bits get_typed(size_t f) const = 0;                 // stored into a field-typed variable
    virtual Bits get_part(size_t f, int &lo, int &n) const = 0; // part of a part
    virtual void set(size_t f, int how, const Bits &b) = 0;
    virtual void copy_field(size_t to, size_t from) = 0;
    virtual void set_whole(const Bits &b) = 0;
    virtual void set_int(int64_t v) = 0;
    virtual void check(const Bits &b, std::string &bad) const = 0;
};
std::vector<std::unique_ptr<Layout>> &layouts();

template <int h, int l, typename V>
struct Fld {
    static constexpr int hi = h, lo = l;
    using type = V;
    template <typename T>
    static auto get(const T &v) {
        return v.template slice<h, l>();
    }
    template <typename T, typename K>
    static void set(T &v, const K &k, int how) {
        if (how == 0) v.template update<h, l>(k);
        else if (how == 1) v.template slice_ref<h, l>() = k;
        else if (how == 2) v.update(h, l, k);
        else v.slice_ref(h, l) = k;
    }
};
// struct Obj : packed_struct<..> as a user would write it
template <typename Base, bool uni, typename W, typename... Fs>
struct LayoutT : Layout {
    struct Obj : Base {};
    using T = typename Obj::type;
    T v;
    LayoutT() {
        four = T::is_4state;
        is_union = uni;
        size = T::size;
        fields = {F{Fs::hi, Fs::lo, ty_of<typename Fs::type>()}...};
        whole = ty_of<W>();
        self = ty_of<T>();
    }
    std::unique_ptr<Layout> fresh() const override { return std::make_unique<LayoutT>(); }
    std::unique_ptr<Layout> clone() const override { return std::make_unique<LayoutT>(*this); }
    void assign(const Layout &o) override { v = static_cast<const LayoutT &>(o).v; }
    Bits flat() const override { return read(v); }
    Bits get_whole() const override {
        W w;
        w = v;
        return read(w);
    }
    Bits get(size_t f, Ty &ty) const override {
        size_t n = 0;
        Bits b;
        auto one = [&](const auto &r) {
            ty = ty_of<std::remove_cvref_t<decltype(r)>>();
            b = read(r);
        };
        ((n++ == f ? one(Fs::get(v)) : void()), ...);
        return b;
    }
    Bits get_typed(size_t f) const override {
        size_t n = 0;
        Bits b;
        ((n++ == f ? void([&] {
            typename Fs::type x;
            x = Fs::get(v);
            b = read(x);
        }()) : void()), ...);
        return b;
    }
    Bits get_part(size_t f, int &lo, int &w) const override {
        size_t n = 0;
        Bits b;
        ((n++ == f ? void([&] {
            const auto r = Fs::get(v);
            constexpr int s = Fs::hi - Fs::lo + 1, l = s / 3, h = s - 1 - s / 4;
            lo = l;
            w = h - l + 1;
            b = read(r.template slice<h, l>());
        }()) : void()), ...);
        return b;
    }
    void set(size_t f, int how, const Bits &bits) override {
        size_t n = 0;
        ((n++ == f ? Fs::set(v, load<typename Fs::type>(bits), how) : void()), ...);
    }
    void copy_field(size_t to, size_t from) override {
        size_t n = 0;
        auto put = [&](const auto &val) {
            size_t k = 0;
            ((k++ == to ? Fs::set(v, val, 0) : void()), ...);
        };
        ((n++ == from ? put(Fs::get(v)) : void()), ...);
    }
    void set_whole(const Bits &b) override { v = load<W>(b); }
    void set_int(int64_t x) override { v = x; }
    void check(const Bits &b, std::string &bad) const override { cross_check(v, b, bad); }
};
template <typename Base, bool uni, typename W, typename... Fs>
void layout() {
    layouts().push_back(std::make_unique<LayoutT<Base, uni, W, Fs...>>());
}
}  // namespace ops

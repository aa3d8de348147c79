// Part writes whose source is the target itself.
#pragma once
#include "ops.hh"
namespace ops {
struct SelfUpdate {
    Ty t;
    const char *what;
    // in: the value; out: result when written from itself / from an equal object
    void (*fn)(Bits &aliased, Bits &plain, int hi, int lo);
};
std::vector<SelfUpdate> &self_updates();

template <typename T, int how, int a, int b>
void self_fn(Bits &aliased, Bits &plain, int hi, int lo) {
    T v = load<T>(aliased), w = load<T>(plain);
    const T src = load<T>(plain);
    if constexpr (how == 0) {
        v.update(hi, lo, v);
        w.update(hi, lo, src);
    } else if constexpr (how == 1) {
        v.template update<a, b>(v);
        w.template update<a, b>(src);
    } else if constexpr (how == 2) {
        v.slice_ref(hi, lo) = v;
        w.slice_ref(hi, lo) = src;
    } else if constexpr (how == 3) {
        v.template slice_ref<a, b>() = v;
        w.template slice_ref<a, b>() = src;
    } else {
        v.template slice_ref<a, b>() = v.template slice<a - b, 0>();
        w.template slice_ref<a, b>() = src.template slice<a - b, 0>();
    }
    aliased = read(v);
    plain = read(w);
}
template <typename T, int a, int b>
void self_upd() {
    const Ty t = ty_of<T>();
    self_updates().push_back({t, "update(hi,lo,v)", self_fn<T, 0, a, b>});
    self_updates().push_back({t, "update<a,b>(v)", self_fn<T, 1, a, b>});
    self_updates().push_back({t, "slice_ref(hi,lo) = v", self_fn<T, 2, a, b>});
    self_updates().push_back({t, "slice_ref<a,b>() = v", self_fn<T, 3, a, b>});
    self_updates().push_back({t, "slice_ref<a,b>() = v.slice", self_fn<T, 4, a, b>});
}
}  // namespace ops

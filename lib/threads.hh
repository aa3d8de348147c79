// C31: operations on shared read-only operands and on private vectors, to be run by several threads.
#pragma once
#include <memory>

#include "arrays.hh"
#include "bitacc.hh"
#include "concat.hh"
#include "ints.hh"
#include "layout.hh"
#include "ops.hh"
#include "parts.hh"
#include "text.hh"
namespace ops {
struct Conc {
    Op op;
    Ty l, r, d;
    std::shared_ptr<void> (*left)(const Bits &);
    std::shared_ptr<void> (*right)(const Bits &);
    void (*run)(const void *l, const void *r, Out &o);
    std::string (*print)(const void *l, const std::string &fmt);
};
std::vector<Conc> &concs();

template <typename T>
std::shared_ptr<void> make_(const Bits &b) {
    return std::make_shared<T>(load<T>(b));
}
template <Op op, typename L, typename R, typename D>
void conc_run(const void *l, const void *r, Out &o) {
    const L &cl = *static_cast<const L *>(l);
    R &cr = const_cast<R &>(*static_cast<const R *>(r));  // only read: apply takes it by const reference
    if constexpr (op == ref::ANDA || op == ref::ORA || op == ref::XORA || op == ref::SHLA || op == ref::SHRA || op == ref::ASSIGN || op == ref::CONCAT ||
                  op == ref::PREINC || op == ref::PREDEC || op == ref::POSTINC || op == ref::POSTDEC) {
        L own(cl);
        apply<op, L, R, D>(own, cr, o);
        o.l = read(own);
    } else {
        apply<op, L, R, D>(const_cast<L &>(cl), cr, o);
        o.l = read(cl);
    }
}
template <typename L>
std::string conc_print(const void *l, const std::string &fmt) {
    return static_cast<const L *>(l)->str(fmt);
}
template <Op op, typename L, typename R, typename D = R>
void conc() {
    concs().push_back({op, ty_of<L>(), ty_of<R>(), ty_of<D>(), make_<L>, make_<R>, conc_run<op, L, R, D>, conc_print<L>});
}
}  // namespace ops

// C26: a typed register file and statements over it, behind one interface.
#pragma once
#include <functional>
#include <memory>

#include "logic/array.hh"
#include "ops.hh"
namespace ops {
struct P {  // run-time parameters of a statement
    std::string text;  // a literal
    int64_t num = 0;
    int i = 0;     // a declared bit index
    char c = '0';  // a bit
};
struct Machine {
    virtual ~Machine() = default;
    virtual Bits var(int i, std::string *bad) const = 0;  // bad: compare the observers too
    virtual Bits elem(int i) const = 0;
    virtual Bits uelem(int i, std::string *bad) const = 0;
};
struct Step {
    const char *cxx, *model;
    std::function<void(Machine &, const P &)> fn;
};
struct MachineSpec {
    std::vector<Ty> vars;
    Ty elem, uelem;
    int elo = 0, en = 0, un = 0;
    std::unique_ptr<Machine> (*make)() = nullptr;
    std::vector<Step> steps;
};
std::vector<MachineSpec> &specs();
MachineSpec &spec(int k);

template <typename M>
struct MachineT : Machine {
    M m;
    Bits var(int i, std::string *bad) const override {
        Bits b;
        m.each([&](int k, const auto &v) {
            if (k != i) return;
            b = read(v);
            if (bad) cross_check(v, b, *bad);
        });
        return b;
    }
    Bits elem(int i) const override { return read(m.pa[logic::logic<31, 0, true>(M::elo + i)]); }
    Bits uelem(int i, std::string *bad) const override {
        const auto v = m.ua[i];
        Bits b = read(v);
        if (bad) cross_check(v, b, *bad);
        return b;
    }
};
template <typename M>
void machine(int k) {
    auto &s = spec(k);
    s.vars = M::types();
    s.elem = ty_of<std::remove_cvref_t<decltype(std::declval<const M &>().pa[logic::logic<31, 0, true>(0)])>>();
    s.uelem = ty_of<std::remove_cvref_t<decltype(std::declval<const M &>().ua[0])>>();
    s.elo = M::elo;
    s.en = M::en;
    s.un = M::un;
    s.make = [] { return std::unique_ptr<Machine>(std::make_unique<MachineT<M>>()); };
}
template <typename M, typename F>
void step(int k, const char *cxx, const char *model, F f) {
    spec(k).steps.push_back({cxx, model, [f](Machine &m, const P &p) { f(static_cast<MachineT<M> &>(m).m, p); }});
}
// ---- used by the generated statements
template <typename A, typename B>
auto cat(A a, B b) {
    return a.concat(b);
}
inline logic::bit<0> b1(bool b) {
    return logic::bit<0>(b);
}
}  // namespace ops

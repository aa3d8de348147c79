// C22, second part: a computed vector prints like any equal vector.
#include "engine.hh"
#include "gen.hh"
#include "ops.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::all();
    const auto &in = v[s.draw(v.size())];
    const bool bin = is_binary(in.op);
    const bool shift = in.op == SHL || in.op == SHR || in.op == SHLA || in.op == SHRA || in.op == ASHR || in.op == ASHL;
    Bits r = shift ? gen::amount(s, in.r.w(), in.l.w()) : gen::known(s, in.r.w());
    Bits base = r;
    Bits l = gen::known(s, in.l.w(), bin ? &base : nullptr, in.r.sgn);
    if (in.l.four) l = gen::unknown(s, l, 25);
    if (in.r.four && bin) r = gen::unknown(s, r, 10);
    static const std::vector<std::string> fm = {"b", "o", "h", "d", "s", "0d", "x", "20d", "40h", "12o"};
    ops::print_as.clear();
    for (int i = 0; i < 3; i++) {
        auto f = fm[s.draw(fm.size())];
        if (f == "b" || f == "o") f = std::to_string(s.range(1, 90)) + f;
        ops::print_as.push_back(f);
    }
    c.desc = bin ? Val{in.l, l}.show() + "  " + op_name(in.op) + "  " + Val{in.r, r}.show() : std::string(op_name(in.op)) + "  " + Val{in.l, l}.show();
    c.desc += " printed as";
    for (auto &f : ops::print_as) c.desc += " " + f;
    c.label(op_name(in.op));
    ops::Out o;
    in.fn(l, r, o);
    c.nontrivial = !is_zero(o.b);
    if (!o.bad.empty()) c.fail(o.bad);
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C22";
    p.run = run;
    p.quick_cases = 450000;
    p.thorough_cases = 4000000;
    p.rule =
        "a case computes a vector by one operation and compares its print in three formats (and match, truth, to_uint64) with "
        "those of a vector whose bits were set one by one; non-trivial: the result is not all zeros";
    return pbt::run_main(argc, argv, p);
}

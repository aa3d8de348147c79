// C10: metamorphic - replacing x/z operand bits by 0/1 never contradicts a bit reported as known.
#include "engine.hh"
#include "gen.hh"
#include "ops.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static bool is_shift(Op op) { return op == SHL || op == SHR || op == ASHR || op == ASHL || op == SHLA || op == SHRA; }

static void run(Source &s, Case &c) {
    auto &v = ops::all();
    const auto &in = v[s.draw(v.size())];
    const bool bin = is_binary(in.op);
    Val l{in.l, {}}, r{in.r, {}};
    r.b = is_shift(in.op) ? gen::amount(s, in.r.w(), in.l.w())
          : in.op == GETIDX ? from_i64(std::min(in.l.msb, in.l.lsb) + (int64_t)s.draw(in.l.w()), in.r.w())
                            : gen::known(s, in.r.w());
    Bits base = r.b;
    l.b = gen::known(s, in.l.w(), bin ? &base : nullptr, in.r.sgn);
    // one side unknown or both
    const int side = s.draw(4);
    if (in.l.four && side != 1) l.b = gen::unknown(s, l.b, 90);
    if (in.r.four && bin && side != 0) r.b = gen::unknown(s, r.b, 90);
    ops::deep = false;
    const bool xz = has_xz(l.b) || (bin && has_xz(r.b));
    c.nontrivial = xz;
    c.label(op_name(in.op));
    c.desc = bin ? l.show() + "  " + op_name(in.op) + "  " + r.show() : std::string(op_name(in.op)) + "  " + l.show();
    ops::Out o;
    in.fn(l.b, r.b, o);
    if (!o.bad.empty()) c.fail("result inconsistent between observers: " + o.bad);
    if (!known(o.b) && !xz && !((in.op == DIV || in.op == MOD) && is_zero(r.b)))
        c.fail("known operands gave an unknown result " + msb_first(o.b));
    if (o.b.find_first_of("01") != Bits::npos && xz) c.label("partly or fully known result from unknown operands");
    const int n = xz ? 3 : 0;
    for (int k = 0; k < n; k++) {
        Bits lk = gen::concretize(s, l.b), rk = bin ? gen::concretize(s, r.b) : r.b;
        if ((in.op == DIV || in.op == MOD) && is_zero(rk)) continue;
        ops::Out p;
        in.fn(lk, rk, p);
        const std::string how = "\n  with the unknown bits replaced: " + msb_first(lk) + (bin ? ", " + msb_first(rk) : "") +
                                "\n  unknown operands gave " + msb_first(o.b) + "\n  known operands gave   " + msb_first(p.b);
        bool in_range = true;
        if (in.op == GETIDX) in_range = eval(GETIDX, {in.l, lk}, {in.r, rk}).b != "x";
        if (!known(p.b) && in_range) c.fail("known operands gave an unknown result" + how);
        if (p.b.size() != o.b.size()) c.fail("result width depends on the values" + how);
        for (size_t i = 0; i < o.b.size(); i++)
            if ((o.b[i] == '0' || o.b[i] == '1') && o.b[i] != p.b[i])
                c.fail("bit " + std::to_string(i) + " was reported known but depends on an unknown bit" + how);
    }
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C10";
    p.run = run;
    p.quick_cases = 1500000;
    p.thorough_cases = 12000000;
    p.rule =
        "a case is one four-state operation on operands with x/z, plus three runs with every x/z replaced by 0/1 (all 0, all 1, "
        "or random); every bit known in the first result must be the same in the others, and known operands must give known "
        "results; non-trivial: some operand bit is x/z";
    p.assumptions = {"division and remainder are exempt when the (replaced) divisor is zero; an index outside the declared range reads x"};
    return pbt::run_main(argc, argv, p);
}

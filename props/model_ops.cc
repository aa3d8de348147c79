// C01-C09, C11 (and operand purity as a by-product): one operation on generated operands,
// compared with the reference model.
#include "engine.hh"
#include "gen.hh"
#include "ops.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

#ifndef PROP
#error
#endif
#define STR_(x) #x
#define STR(x) STR_(x)

static int xz_percent() {
    std::string p = STR(PROP);
    if (p == "C01" || p == "C02" || p == "C11") return 60;
    if (p == "C08") return 40;
    return 20;
}

static void run(Source &s, Case &c) {
    auto &v = ops::all();
    const auto &in = v[s.draw(v.size())];
    const int pct = xz_percent();
    const bool bin = is_binary(in.op);
    Val l{in.l, {}}, r{in.r, {}};
    const bool shift = in.op == SHL || in.op == SHR || in.op == SHLA || in.op == SHRA || in.op == ASHR || in.op == ASHL;
    r.b = shift ? gen::amount(s, in.r.w(), in.l.w()) : gen::known(s, in.r.w());
    if (in.r.four && bin) r.b = gen::unknown(s, r.b, shift ? 8 : pct / 2);
    Bits base = gen::concretize(s, r.b);
    l.b = gen::known(s, in.l.w(), bin ? &base : nullptr, in.r.sgn);
    if (in.l.four) {
        if (in.op == MATCH || in.op == NMATCH || in.op == EQ) {
            // carry the other side's x/z over, so that near-identical vectors are common
            if (has_xz(r.b) && s.chance(3, 4)) {
                Bits e = widen(r.b, in.l.w(), in.r.sgn);
                for (size_t i = 0; i < e.size(); i++)
                    if (e[i] == 'x' || e[i] == 'z') l.b[i] = e[i];
                if (s.chance(1, 2)) l.b[s.draw(l.b.size())] = "01xz"[s.draw(4)];
            } else
                l.b = gen::unknown(s, l.b, pct / 2);
        } else
            l.b = gen::unknown(s, l.b, pct);
    }
    if (in.alias) r = l;
    if (in.op == HIGHEST && is_zero(l.b)) l.b[0] = '1';  // of zero: not specified
    ops::deep = s.draw(8) == 7;

    const Res e = eval(in.op, l, r, in.d);
    c.desc = bin ? l.show() + "  " + op_name(in.op) + "  " + r.show() : std::string(op_name(in.op)) + "  " + l.show();
    if (has_width(in.op)) c.desc += " to " + std::to_string(in.d.w()) + " bits";
    if (in.alias) c.desc += " (same object)";
    ops::Out o;
    in.fn(l.b, r.b, o);

    c.label(op_name(in.op));
    const bool xz = has_xz(l.b) || (bin && has_xz(r.b));
    if (xz) c.label("some x/z operand bit");
    c.label(in.l.four ? "four-state" : "two-state");
    c.label(l.b.size() > 64 || (bin && r.b.size() > 64) ? "multiword" : "native");
    if (bin && l.b.size() != r.b.size()) c.label("different widths");
    if ((in.op == DIV || in.op == MOD || in.op == WDIV || in.op == WMOD) && is_zero(r.b)) c.label("zero divisor");
    c.nontrivial = xz || (!is_zero(l.b) && (!bin || !is_zero(r.b)));

    auto what = [&](const std::string &m) {
        c.fail(m + "\n  got      " + Val{o.ty, o.b}.show() + "\n  expected " + msb_first(e.b) +
               (e.sign_known ? e.sgn ? " (signed)" : " (unsigned)" : ""));
    };
    if (!o.bad.empty()) what("result inconsistent between observers: " + o.bad);
    if (o.b != e.b) {
        if (in.op == ASHR && ashr_deviates(l, r) && o.b == ashr_deviation(l, r) &&
            pbt::known_listed(STR(PROP) "-ashr-multiword")) {
            c.known.push_back({STR(PROP) "-ashr-multiword", c.desc});
            c.label("known finding");
            return;
        }
        what("wrong result");
    }
    if (e.sign_known && o.ty.sgn != e.sgn) what("wrong signedness of the result");
    if (o.ty.w() != (int)o.b.size()) what("wrong width");
    if (!o.ref_ok) what("the operator did not return its left operand");
    const Bits el = is_compound(in.op) ? e.b : l.b;
    if (o.l != el) c.fail("left operand is " + msb_first(o.l) + " afterwards, expected " + msb_first(el));
    if (bin && !in.alias && o.r != r.b) c.fail("right operand changed to " + msb_first(o.r));
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = STR(PROP);
    p.run = run;
    p.quick_cases = 2400000;
    p.thorough_cases = 20000000;
    p.rule =
        "a case is one operation of one operand type combination with operand values drawn from boundary classes (zero, "
        "one, all ones, extreme signed values, runs, one-hot, 2^k+-small, per-word classes, random lengths, values derived "
        "from the other operand) with x/z sprinkled in; non-trivial: some operand bit is x/z, or no operand is all zeros";
    p.assumptions = {"operand widths come from a grid of boundary widths plus seed-chosen ones, up to about 2050 bits",
                     "the reference model in lib/model.cc states the intended semantics"};
    return pbt::run_main(argc, argv, p);
}

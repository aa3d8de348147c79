// C24: native against multiword representation.  C25: two-state against four-state, mixed operands
// against converted ones.
#include "engine.hh"
#include "gen.hh"
#include "ops.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;
#define STR_(x) #x
#define STR(x) STR_(x)
static const std::string P = STR(PROP);

static bool is_shift(Op op) { return op == SHL || op == SHR || op == ASHR || op == ASHL || op == SHLA || op == SHRA; }

static void run(Source &s, Case &c) {
    auto &v = ops::rels();
    const auto &re = v[s.draw(v.size())];
    const Op op = re.a.op;
    const bool bin = is_binary(op);
    const Ty lt = re.a.l, rt = re.a.r;
    ops::deep = false;
    Val l{lt, {}}, r{rt, {}};
    if (is_shift(op)) r.b = gen::amount(s, rt.w(), lt.w());
    else if (op == GETIDX) r.b = from_i64((int64_t)std::min(lt.msb, lt.lsb) + (int64_t)s.draw(lt.w()), rt.w());
    else r.b = gen::known(s, rt.w());
    Bits base = r.b;
    l.b = gen::known(s, lt.w(), bin ? &base : nullptr, rt.sgn);
    if (lt.four && re.b.l.four) l.b = gen::unknown(s, l.b, 15);
    if (rt.four && bin && re.b.r.four) r.b = gen::unknown(s, r.b, 10);
    if (op == SHR && P == "C24" && lt.sgn && l.b.back() != '0') l.b.back() = '0';  // >> is not value preserving on negatives
    c.label(op_name(op));
    const bool xz = has_xz(l.b) || (bin && has_xz(r.b));
    if (xz) c.label("some x/z operand bit");
    c.nontrivial = xz || (!is_zero(l.b) && (!bin || !is_zero(r.b)));
    c.desc = bin ? l.show() + "  " + op_name(op) + "  " + r.show() : std::string(op_name(op)) + "  " + l.show();
    c.desc += "  vs  " + re.b.l.name() + (bin ? ", " + re.b.r.name() : "");
    const bool zero_div = (op == DIV || op == MOD) && is_zero(r.b);
    ops::Out a, b;
    re.a.fn(l.b, r.b, a);
    // the same values in the other types
    const Bits l2 = widen(l.b, re.b.l.w(), lt.sgn);
    const Bits r2 = bin ? widen(r.b, re.b.r.w(), rt.sgn) : l2;
    re.b.fn(l2, r2, b);
    auto fail = [&](const std::string &m) {
        c.fail(m + "\n  " + re.a.l.name() + ": " + Val{a.ty, a.b}.show() + "\n  " + re.b.l.name() + ": " + Val{b.ty, b.b}.show());
    };
    if (!a.bad.empty()) fail("first result inconsistent between observers: " + a.bad);
    if (!b.bad.empty()) fail("second result inconsistent between observers: " + b.bad);
    if (P == "C24") {
        Bits low = b.b.substr(0, a.b.size());
        if (low == a.b) return;
        if (op == ASHR && ashr_deviates({re.b.l, l2}, {re.b.r, r2}) && b.b == ashr_deviation({re.b.l, l2}, {re.b.r, r2}) &&
            pbt::known_listed("C24-ashr-multiword")) {
            c.known.push_back({"C24-ashr-multiword", c.desc});
            c.label("known finding");
            return;
        }
        fail("the native and the multiword result differ");
    }
    // C25
    if (re.kind == 2) {  // two-state left operand of a relational operator: unknown is false
        Bits e = b.b == "x" ? "0" : b.b;
        if (a.b != e) fail("mixed operands and converted operands differ");
        return;
    }
    if (zero_div && !re.a.l.four) {  // two-state has no x to report
        if (!is_zero(a.b)) fail("two-state division by zero is not 0");
        if (b.b != Bits(b.b.size(), 'x')) fail("four-state division by zero is not all x");
        return;
    }
    if (a.b != b.b) fail(re.kind == 0 ? "two-state and four-state results differ" : "mixed operands and converted operands differ");
    if (a.b.size() > 1 && a.ty.sgn != b.ty.sgn) fail("signedness of the results differs");
    if (is_compound(op) && a.l != b.l) fail("left operands differ afterwards");
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = P;
    p.run = run;
    p.quick_cases = 2000000;
    p.thorough_cases = 15000000;
    p.rule = P == "C24"
                 ? "a case runs one operation on native vectors (<= 64 bits) and with one or both of the operands widened to 65..520 bits; the low "
                   "bits must agree; non-trivial: some operand bit is x/z, or no operand is all zeros"
                 : "a case runs one operation on two-state vectors and on four-state vectors of the same type and value, or on "
                   "mixed operands and on converted ones; results must agree; non-trivial: some operand bit is x/z, or no operand "
                   "is all zeros";
    p.assumptions = P == "C24" ? std::vector<std::string>{"logical right shift is compared on non-negative values only; comparisons, division and remainder on operands of the same signedness"}
                               : std::vector<std::string>{"division by zero is 0 in two-state and x in four-state vectors"};
    return pbt::run_main(argc, argv, p);
}

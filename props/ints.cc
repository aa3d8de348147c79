// C23: conversions between C++ integers and vectors.
#include "engine.hh"
#include "gen.hh"
#include "ints.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void literal(Source &s, Case &c) {
    const Bits b64 = gen::known(s, 64);
    const uint64_t x = to_u64(b64);
    const int k = s.draw(4);
    static const char *n[] = {"_logic", "_logic64", "_bit", "_bit64"};
    c.desc = std::to_string(x) + n[k];
    c.label("user literal");
    const int w = k % 2 ? 64 : 32;
    ops::Out o;
    using namespace logic::literals;
    if (k == 0) ops::observe(operator""_logic(x), o);
    else if (k == 1) ops::observe(operator""_logic64(x), o);
    else if (k == 2) ops::observe(operator""_bit(x), o);
    else ops::observe(operator""_bit64(x), o);
    const Bits e = from_u64(x, w);
    c.nontrivial = x != 0;
    if (!o.bad.empty()) c.fail("result inconsistent between observers: " + o.bad);
    if (o.b != e || !o.ty.sgn) c.fail("the vector is " + Val{o.ty, o.b}.show() + ", expected " + msb_first(e) + " (signed)");
}

static void run(Source &s, Case &c) {
    auto &v = ops::intconvs();
    const size_t pick = s.draw(v.size() + 1);
    ops::deep = s.draw(4) == 3;
    if (pick == v.size()) return literal(s, c);
    const auto &in = v[pick];
    const int w = in.t.w();
    c.label(w > 64 ? "multiword" : "native");
    c.label(in.t.four ? "four-state" : "two-state");
    if (s.chance(1, 2)) {
        const int kind = s.draw(12), how = s.draw(3);
        const auto &ik = ops::int_kinds[kind];
        const Bits b = gen::known(s, ik.bits);
        const Bits full = widen(b, 64, ik.sgn);
        const uint64_t raw = to_u64(full);
        const Bits old = gen::value(s, in.t, 50);
        const Bits e = widen(full, w, ik.sgn);
        c.label("from C++");
        c.desc = in.t.name() + (how == 1 ? " holding " + msb_first(old) + " = (" : "(") + ik.name + ")" + (ik.sgn ? std::to_string((int64_t)raw) : std::to_string(raw));
        c.nontrivial = raw != 0;
        ops::Out o;
        bool ref_ok;
        in.from(kind, raw, how, old, o, ref_ok);
        if (!o.bad.empty()) c.fail("result inconsistent between observers: " + o.bad);
        if (o.b != e) c.fail("the vector is " + msb_first(o.b) + "\n  expected " + msb_first(e));
        if (!ref_ok) c.fail("assignment does not return its left operand");
        return;
    }
    c.label("to C++");
    const Bits b = gen::value(s, in.t, 30);
    c.desc = Val{in.t, b}.show() + " to C++";
    c.nontrivial = !is_zero(b);
    const bool xz = has_xz(b), sgn = in.t.sgn;
    uint64_t u64 = 0;
    int64_t num = 0;
    bool has_num = false, ns = false, truth = false;
    int nb = 0;
    char neg = '?';
    in.to(b, u64, has_num, num, ns, nb, truth, neg);
    const uint64_t e = xz ? 0 : to_u64(widen(b, 64, sgn));
    if (u64 != e) c.fail("to_uint64 is " + std::to_string(u64) + ", expected " + std::to_string(e));
    if (has_num) {
        if ((uint64_t)num != e) c.fail("to_num is " + std::to_string(num) + ", expected " + (sgn ? std::to_string((int64_t)e) : std::to_string(e)));
        if (ns != sgn) c.fail("to_num has the wrong signedness");
        if (nb < w) c.fail("to_num is narrower than the vector");
    }
    if (truth != nonzero(b)) c.fail(std::string("converts to ") + (truth ? "true" : "false"));
    const char en = xz ? 'x' : is_zero(b) ? '1' : '0';
    if (neg != en) c.fail(std::string("! gives ") + neg + ", expected " + en);
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C23";
    p.run = run;
    p.quick_cases = 2000000;
    p.thorough_cases = 15000000;
    p.rule =
        "a case builds or assigns a vector from a value of one of the 12 C++ integer types (or a user literal), or reads a "
        "vector as to_uint64, to_num, bool and !; compared with two's complement arithmetic; non-trivial: the value is not zero";
    return pbt::run_main(argc, argv, p);
}

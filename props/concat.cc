// C15: concatenation, unpacking and their round trip.
#include "concat.hh"
#include "engine.hh"
#include "gen.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::cats();
    const auto &in = v[s.draw(v.size())];
    const size_t n = in.pieces.size();
    size_t total = 0;
    for (auto &t : in.pieces) total += t.w();
    ops::deep = s.draw(4) == 3;
    c.label(std::to_string(n) + " pieces");
    c.label(total > 64 ? "multiword" : "native");
    if (in.un) {
        const Bits src = gen::value(s, in.src, 60);
        c.label("unpack");
        c.desc = "unpack " + Val{in.src, src}.show() + " into";
        for (auto &t : in.pieces) c.desc += " " + t.name();
        std::vector<Bits> out;
        std::string bad;
        in.un(src, out, bad);
        size_t hi = total;
        for (size_t i = 0; i < n; i++) {
            const size_t w = in.pieces[i].w();
            hi -= w;
            const Bits e = src.substr(hi, w);
            if (out[i] != e) c.fail("target " + std::to_string(i + 1) + " is " + msb_first(out[i]) + "\n  expected " + msb_first(e));
        }
        if (!bad.empty()) c.fail(bad);
        c.nontrivial = n > 1 && !is_zero(src);
        return;
    }
    std::vector<Bits> ps, after;
    Bits all;
    for (auto &t : in.pieces) {
        ps.push_back(gen::value(s, t, 35));
        all = ps.back() + all;
        c.desc += (c.desc.empty() ? "concat " : ", ") + Val{t, ps.back()}.show();
    }
    bool any4 = false, mixed = false;
    for (auto &t : in.pieces) {
        any4 = any4 || t.four;
        mixed = mixed || t.four != in.pieces[0].four;
        if (t.sgn) c.label("signed piece");
    }
    if (mixed) c.label("mixed kinds");
    c.nontrivial = !is_zero(ps[0]) || !is_zero(ps.back());
    if (in.round && s.chance(1, 2)) {
        c.label("round trip");
        std::vector<Bits> out;
        in.rt(ps, out);
        for (size_t i = 0; i < n; i++)
            if (out[i] != ps[i]) c.fail("piece " + std::to_string(i + 1) + " came back as " + msb_first(out[i]));
        return;
    }
    ops::Out o;
    const int how = s.draw(3);
    in.fn(ps, how, o, after);
    if (!o.bad.empty()) c.fail("result inconsistent between observers: " + o.bad);
    if (o.b != all) c.fail("concatenation is " + msb_first(o.b) + "\n  expected " + msb_first(all));
    if (o.ty.four != any4) c.fail("wrong state kind");
    if (o.ty.sgn) c.fail("signed result");
    for (size_t i = 0; i < n; i++)
        if (after[i] != ps[i]) c.fail("piece " + std::to_string(i + 1) + " changed to " + msb_first(after[i]));
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C15";
    p.run = run;
    p.quick_cases = 1000000;
    p.thorough_cases = 8000000;
    p.rule =
        "a case concatenates 2..6 generated pieces (member, free-function and chained form), unpacks one vector into 1..6 "
        "targets, or unpacks a concatenation back into its pieces, compared with string concatenation; non-trivial: the outer "
        "pieces (the vector) are not all zeros";
    return pbt::run_main(argc, argv, p);
}

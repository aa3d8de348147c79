// C13: part-select reads.
#include "engine.hh"
#include "gen.hh"
#include "parts.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::sels();
    const auto &in = v[s.draw(v.size())];
    const int w = in.t.w(), n = in.n;
    Bits b = gen::value(s, in.t, 55);
    int lo, a = in.a, e = in.b;
    if (in.form == ops::F_CT) {
        lo = std::min(a, e);
    } else {
        // biased to the ends and to word boundaries
        const int room = w - n;
        if (s.chance(1, 2)) lo = s.draw(room + 1);
        else if (w > 128 && s.chance(1, 2)) {
            // at, or next to, any word boundary
            lo = 64 * (int)s.draw(w / 64 + 1) + (s.chance(1, 2) ? 0 : (int)s.draw(3) - 1) - (s.chance(1, 3) ? n : 0);
            if (lo < 0) lo = 0;
            if (lo > room) lo = room;
        } else {
            static const int mk[] = {0, 1, 31, 32, 33, 62, 63, 64, 65, 127, 128};
            lo = mk[s.draw(11)] - (s.chance(1, 2) ? n - 1 : 0);
            if (lo < 0) lo = 0;
            if (lo > room) lo = room;
        }
        if (in.form == ops::F_RT) {
            a = lo + n - 1, e = lo;
            if (s.chance(1, 3)) std::swap(a, e);
        } else
            a = e = in.form == ops::F_INC ? lo : lo + n - 1;
        if (in.form != ops::F_RT && widen(from_i64(a, in.base.w()), 64, in.base.sgn) != from_i64(a, 64)) {
            // the base type cannot hold it: move the select to the bottom
            lo = 0;
            a = in.form == ops::F_INC ? 0 : n - 1;
            if (widen(from_i64(a, in.base.w()), 64, in.base.sgn) != from_i64(a, 64)) return;
        }
    }
    ops::deep = s.draw(4) == 3;
    c.desc = Val{in.t, b}.show() + " " + ops::form_name(in.form) + " a=" + std::to_string(a) + " b=" + std::to_string(e) + " n=" + std::to_string(n);
    c.label(ops::form_name(in.form));
    c.label(in.t.four ? "four-state" : "two-state");
    c.label(w > 64 ? n > 64 ? "multiword from multiword" : "native from multiword" : "native");
    if (lo / 64 != (lo + n - 1) / 64) c.label("straddles a word boundary");
    if (has_xz(b)) c.label("some x/z bit");
    ops::Out o;
    in.fn(b, a, e, o);
    const Bits x = b.substr(lo, n);
    c.nontrivial = !is_zero(b) && n < w;
    if (!o.bad.empty()) c.fail("result inconsistent between observers: " + o.bad);
    if (o.b != x) c.fail("selected " + msb_first(o.b) + "\n  expected " + msb_first(x));
    if (o.ty.sgn) c.fail("the selection is signed");
    if (o.ty.w() != n) c.fail("the selection has " + std::to_string(o.ty.w()) + " bits");
    if (o.ty.four != in.t.four) c.fail("the selection has the wrong state kind");
    if (o.l != b) c.fail("the vector changed to " + msb_first(o.l));
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C13";
    p.run = run;
    p.quick_cases = 2000000;
    p.thorough_cases = 15000000;
    p.rule =
        "a case reads one part-select (fixed bounds, run-time bounds, base plus/minus width) of a generated [n-1:0] vector and "
        "compares it with the corresponding substring; non-trivial: the vector is not all zeros and the selection is proper";
    return pbt::run_main(argc, argv, p);
}

// C14: histories of part-select writes.
#include "engine.hh"
#include "gen.hh"
#include "parts.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::subjects();
    const auto &sub = v[s.draw(v.size())];
    const Ty t = sub.proto->ty;
    const int w = t.w();
    auto o = sub.proto->fresh();
    Bits m(w, t.four ? 'x' : '0');
    c.desc = t.name() + ":";
    if (s.chance(4, 5)) {
        m = gen::value(s, t, 60);
        o->fill(m);
        c.desc += " " + msb_first(m);
    }
    c.label(t.four ? "four-state" : "two-state");
    c.label(w > 64 ? "multiword" : "native");
    if (!t.desc()) c.label("ascending target");
    const int steps = 1 + s.draw(5);
    int real = 0;
    for (int k = 0; k < steps; k++) {
        const auto &wr = sub.writes[s.draw(sub.writes.size())];
        int n = wr.n, a = wr.a, b = wr.b, lo;  // lo: lowest declared index written
        using namespace ops;
        const bool fixed = wr.form == F_CT || wr.form == F_REF_CT;
        const bool rt = wr.form == F_RT || wr.form == F_REF_RT;
        if (fixed) {
            lo = std::min(a, b);
        } else {
            if (rt && t.desc() && s.chance(2, 3)) n = w > 128 && s.chance(1, 5) ? 64 * s.range(1, w / 64) : s.range(1, w);  // run-time bounds are free
            const int room = w - n;
            if (s.chance(1, 2)) lo = s.draw(room + 1);
            else if (w > 128 && s.chance(1, 2)) {
                // at, or next to, any word boundary
                lo = 64 * (int)s.draw(w / 64 + 1) + (s.chance(1, 2) ? 0 : (int)s.draw(3) - 1) - (s.chance(1, 3) ? n : 0);
                if (lo < 0) lo = 0;
                if (lo > room) lo = room;
            } else {
                static const int mk[] = {0, 1, 31, 32, 33, 62, 63, 64, 65, 127, 128};
                lo = mk[s.draw(11)] - (s.chance(1, 2) ? n - 1 : 0);
                if (lo < 0) lo = 0;
                if (lo > room) lo = room;
            }
            if (rt) {
                a = lo + n - 1, b = lo;
                if (s.chance(1, 3)) std::swap(a, b);
            } else {
                a = b = wr.form == F_REF_INC ? lo : lo + n - 1;
                if (widen(from_i64(a, wr.base.w()), 64, wr.base.sgn) != from_i64(a, 64)) continue;
            }
        }
        const Bits src = gen::value(s, wr.src, 40);
        c.desc += std::string("; ") + form_name(wr.form) + " a=" + std::to_string(a) + " b=" + std::to_string(b) + " n=" + std::to_string(n) + " = " + Val{wr.src, src}.show();
        c.label(form_name(wr.form));
        const int sw = src.size();
        c.label(sw < n ? "narrower source" : sw > n ? "wider source" : "same width");
        if (t.desc() != wr.src.desc()) c.label("opposite directions");
        if (has_xz(src)) c.label("x/z written");
        Bits after;
        wr.fn(*o, src, a, b, after);
        const Bits part = zext(src, n);
        const Bits before = m;
        const int at = t.desc() ? lo : w - (lo + n);  // bit position of the part's LSB
        m.replace(at, n, part);
        real += before != m;
        const Bits g = o->bits();
        if (g != m) c.fail("the vector is " + msb_first(g) + "\n  expected " + msb_first(m));
        if (after != src) c.fail("the source changed to " + msb_first(after));
    }
    std::string bad;
    ops::deep = s.draw(4) == 3;
    o->check(m, bad);
    if (!bad.empty()) c.fail(bad);
    c.nontrivial = real > 0;
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C14";
    p.run = run;
    p.quick_cases = 1000000;
    p.thorough_cases = 6000000;
    p.rule =
        "a case is a history of 1..5 part-select writes (fixed, run-time and indexed bounds, directly and through slice "
        "references; narrower, equal and wider sources of any range) on one vector, every bit compared with a string model "
        "after each write; non-trivial: at least one write changes the vector";
    return pbt::run_main(argc, argv, p);
}

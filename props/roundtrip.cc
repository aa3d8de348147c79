// C22, first part: print and parse give the vector back.
#include "engine.hh"
#include "gen.hh"
#include "text.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::texts();
    const auto &in = v[s.draw(v.size())];
    const int w = in.t.w();
    Bits b = gen::known(s, w);
    const char base = "bbohds"[s.draw(6)];
    if (base == 'b') {
        if (in.t.four) b = gen::unknown(s, b, 75);
    } else if (base == 'o' || base == 'h') {
        const int k = base == 'o' ? 3 : 4;
        if (in.t.four && s.chance(2, 3))
            for (int d = 0; d * k < w; d++)
                if (s.chance(1, 4)) {
                    const char u = "xz"[s.draw(2)];
                    for (int i = d * k; i < d * k + k && i < w; i++) b[i] = u;
                }
    } else if (base == 'd') {
        if (w > 64) b = zext(gen::known(s, 64), w);
        if (in.t.sgn) b.back() = '0';
    } else {  // non-NUL characters; a partial top character as well
        for (int i = 0; i < w; i += 8) {
            bool nul = true;
            for (int j = i; j < i + 8 && j < w; j++) nul = nul && b[j] == '0';
            if (nul) b[i] = '1';
            Bits q = b.substr(i, 8);
            if (to_u64(q) == '\'') b[i] = '0';  // an apostrophe starts a base
        }
    }
    std::string fmt;
    if (s.chance(1, 4) && base != 's' && base != 'd') fmt = std::to_string(s.range(1, w + 20));
    if (s.chance(1, 4) && base == 'd') fmt = "0";
    fmt += base;
    std::string prefix;
    if (base != 's') {
        if (s.chance(1, 2)) prefix = std::to_string(w);
        prefix += std::string("'") + (s.chance(1, 4) ? (char)toupper(base) : base);
    }
    c.desc = Val{in.t, b}.show() + " via \"" + prefix + "\" + str(\"" + fmt + "\")";
    c.label(std::string("base ") + base);
    c.label(w > 64 ? "multiword" : "native");
    c.label(in.t.four ? "four-state" : "two-state");
    if (has_xz(b)) c.label("some x/z bit");
    c.nontrivial = !is_zero(b);
    ops::Out o;
    std::string printed, again;
    in.round(b, prefix, fmt, o, printed, again);
    if (o.b != b) c.fail("printed \"" + printed + "\", parsed back as " + msb_first(o.b));
    if (!o.bad.empty()) c.fail("result inconsistent between observers: " + o.bad);
    if (again != printed) c.fail("printed \"" + printed + "\", after the round trip \"" + again + "\"");
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C22";
    p.run = run;
    p.quick_cases = 900000;
    p.thorough_cases = 8000000;
    p.rule =
        "a case prints a generated vector (with x/z where the base can express them), parses the text into the same type and "
        "compares bits, match and the second print; non-trivial: the value is not all zeros";
    return pbt::run_main(argc, argv, p);
}

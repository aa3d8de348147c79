// C20 (b/o/h/x/s) and C21 (d): printing against the model printer.
#include "engine.hh"
#include "gen.hh"
#include "text.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;
#define STR_(x) #x
#define STR(x) STR_(x)

static void run(Source &s, Case &c) {
    static const bool dec = std::string(STR(PROP)) == "C21";
    auto &v = ops::texts();
    const auto &in = v[s.draw(v.size())];
    const int w = in.t.w();
    std::string base;
    if (dec) base = s.chance(1, 3) ? "D" : "d";
    else {
        static const char *f[] = {"b", "o", "h", "x", "s", "B", "O", "H", "X", "S", "o", "h"};
        base = f[s.draw(12)];
    }
    const bool str = base == "s" || base == "S";
    Bits b = gen::known(s, w);
    if (dec && s.chance(1, 4)) {  // around powers of ten
        Bits t = from_u64(1, w), ten = from_u64(10, w);
        for (int i = s.draw(40); i > 0; i--) t = mul(t, ten);
        b = add(t, from_i64((int64_t)s.draw(3) - 1, w));
    }
    if (in.t.four && !str) {
        if (!dec && s.chance(1, 2)) {  // digit-aligned unknowns
            const int k = tolower(base[0]) == 'o' ? 3 : tolower(base[0]) == 'b' ? 1 : 4;
            const int n = (w + k - 1) / k;
            for (int q = 1 + s.draw(4); q > 0; q--) {
                const int d = s.draw(3) == 2 ? n - 1 : s.draw(n);
                const int how = s.draw(5);
                for (int i = d * k; i < d * k + k && i < w; i++)
                    b[i] = how == 0 ? 'x' : how == 1 ? 'z' : how == 2 ? "xz"[s.draw(2)] : how == 3 ? "01z"[s.draw(3)] : "01xz"[s.draw(4)];
            }
        } else
            b = gen::unknown(s, b, dec ? 35 : 45);
    }
    std::string fmt;
    switch (s.draw(5)) {
        case 0: case 1: break;
        case 2: fmt = "0"; break;
        case 3: fmt = std::to_string(s.range(1, 20)); break;
        default: fmt = std::string(s.chance(1, 4) ? 1 + s.draw(2) * s.draw(30) : 0, '0') +
                       std::to_string(s.draw(2) ? s.draw(20) == 19 ? s.range(161, 3000) : s.range(1, 160) : std::max<int>(1, w - 3 + s.draw(6)));
    }
    fmt += base;
    const std::string e = print(Val{in.t, b}, fmt);
    c.desc = Val{in.t, b}.show() + " str(\"" + fmt + "\")";
    c.label(std::string("format ") + (char)tolower(base[0]));
    c.label(w > 64 ? "multiword" : "native");
    c.label(in.t.four ? "four-state" : "two-state");
    if (in.t.sgn && b.back() == '1') c.label("negative");
    if (has_xz(b)) c.label("some x/z bit");
    if (fmt.size() > 1) c.label("requested width");
    c.nontrivial = !is_zero(b);
    const std::string g = in.print(b, fmt, s.draw(4));
    if (g != e) {
        auto q = [](const std::string &t) {
            std::string r;
            for (unsigned char ch : t) {
                char buf[8];
                if (ch >= 32 && ch < 127) r += ch;
                else snprintf(buf, sizeof buf, "\\x%02x", ch), r += buf;
            }
            return r;
        };
        c.fail("prints \"" + q(g) + "\"\n  expected \"" + q(e) + "\"");
    }
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = STR(PROP);
    p.run = run;
    p.quick_cases = 1200000;
    p.thorough_cases = 12000000;
    p.rule =
        "a case prints one vector of a generated type and value (boundary classes, powers of ten for decimal, digit-aligned "
        "and scattered x/z) in one format with a generated requested width and compares the text with the model printer; "
        "non-trivial: the value is not all zeros";
    return pbt::run_main(argc, argv, p);
}

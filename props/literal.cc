// C19: generated literals against the model parser.
#include "engine.hh"
#include "gen.hh"
#include "text.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static std::string digits(Source &s, int k, int n, bool four) {
    const char *d = k == 1 ? "01" : k == 3 ? "01234567" : "0123456789abcdef";
    const int nd = 1 << k;
    std::string r;
    const int style = s.draw(6);
    for (int i = 0; i < n; i++) {
        char c;
        if (style == 0) c = d[s.draw(nd)];
        else if (style == 1) c = i == 0 ? d[1 + s.draw(nd - 1)] : '0';
        else if (style == 2) c = d[nd - 1];
        else if (style == 3) c = s.chance(1, 4) ? d[s.draw(nd)] : '0';
        else if (four) {
            const int q = s.draw(6);
            c = q == 4 ? 'x' : q == 5 ? 'z' : d[s.draw(nd)];
            if (style == 5 && q >= 4) c = toupper(c);
        } else
            c = d[s.draw(nd)];
        if (c >= 'a' && c <= 'f' && s.chance(1, 2)) c = toupper(c);
        r += c;
    }
    return r;
}

static void run(Source &s, Case &c) {
    auto &v = ops::texts();
    const auto &in = v[s.draw(v.size())];
    const int w = in.t.w();
    const bool four = in.t.four;
    std::string lit;
    const int kind = s.draw(11);  // b b b o o o h h h d raw
    if (kind == 10) {
        c.label("raw string");
        int n = s.draw(3) == 2 ? s.draw(90) : s.draw((w + 7) / 8 + 2);
        for (int i = 0; i < n; i++) {
            char ch = s.chance(1, 4) ? (char)s.draw(256) : (char)(32 + s.draw(95));
            if (ch == '\'') ch = '"';
            lit += ch;
        }
    } else {
        if (s.chance(1, 2)) lit += std::to_string(s.chance(1, 2) ? (uint64_t)w : s.draw(700));
        lit += '\'';
        std::string d;
        if (kind == 9) {
            c.label("decimal");
            const Bits b = gen::known(s, 64);
            uint64_t x = to_u64(b);
            if (s.chance(1, 4)) {  // powers of ten and neighbours
                x = 1;
                for (int i = s.draw(20); i > 0; i--) x *= 10;
                x += s.draw(3);
                x -= 1;
            }
            lit += s.chance(1, 2) ? 'd' : 'D';
            d = std::to_string(x);
            if (s.chance(1, 4)) d = std::string(s.range(1, 25), '0') + d;
        } else {
            const int k = kind < 3 ? 1 : kind < 6 ? 3 : 4;
            c.label(k == 1 ? "binary" : k == 3 ? "octal" : "hex");
            char b = k == 1 ? 'b' : k == 3 ? 'o' : 'h';
            lit += s.chance(1, 2) ? b : (char)toupper(b);
            const int fit = (w + k - 1) / k;
            int n;
            switch (s.draw(6)) {
                case 0: n = 1; break;
                case 1: n = fit; break;
                case 2: n = std::max<int>(1, fit - 1 + s.draw(3)); break;
                case 3: n = s.range(1, fit); break;
                case 4: n = fit + s.draw(70); break;
                default: {
                    static const int m[] = {15, 16, 17, 20, 21, 22, 23, 31, 32, 33, 42, 43, 63, 64, 65, 127, 128, 129};
                    n = m[s.draw(18)];
                }
            }
            d = digits(s, k, n, four);
            if (n * k > w) c.label("longer than the vector");
        }
        if (s.chance(1, 3)) {  // underscores between digits
            c.label("underscores");
            std::string u;
            const int every = s.draw(2) ? 1 + s.draw(8) : 0;
            for (size_t i = 0; i < d.size(); i++) {
                if (i && (every ? i % every == 0 : s.chance(1, 4))) u += std::string(s.chance(1, 5) ? 2 : 1, '_');
                u += d[i];
            }
            d = u;
        }
        lit += d;
    }
    bool ok;
    const Bits e = parse_literal(lit, w, ok);
    if (!ok) return;
    const int how = s.draw(4);
    c.desc = in.t.name() + "(\"";
    for (unsigned char ch : lit) {
        char buf[8];
        if (ch >= 32 && ch < 127) c.desc += ch;
        else snprintf(buf, sizeof buf, "\\x%02x", ch), c.desc += buf;
    }
    c.desc += "\")";
    c.label(w > 64 ? "multiword" : "native");
    c.label(four ? "four-state" : "two-state");
    if (has_xz(e)) c.label("x/z digits");
    c.nontrivial = !is_zero(e);
    ops::deep = s.draw(4) == 3;
    ops::Out o;
    in.parse(lit, how, o);
    if (o.b != e) c.fail("the vector is " + msb_first(o.b) + "\n  expected " + msb_first(e));
    if (!o.bad.empty()) c.fail("result inconsistent between observers: " + o.bad);
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C19";
    p.run = run;
    p.quick_cases = 1200000;
    p.thorough_cases = 12000000;
    p.rule =
        "a case builds one vector from a generated literal (binary, octal, hex with x/z digits, letter case and underscores; "
        "decimal below 2^64; raw strings of arbitrary characters) of generated length and compares every bit with the model "
        "parser; non-trivial: the value is not all zeros";
    return pbt::run_main(argc, argv, p);
}

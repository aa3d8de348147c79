// C28: arbitrary bytes as literals and valid format strings; no oracle but the sanitizers and termination.
#include <cstring>
#include <memory>

#include "engine.hh"
#include "gen.hh"
#include "text.hh"

using pbt::Case;
using pbt::Source;

static std::string piece(Source &s) {
    static const char *tok[] = {"'", "b", "B", "o", "O", "h", "H", "d", "D", "s", "S", "x", "X", "z", "Z", "_", "0", "1", "7", "9", "f", "F", "g",
                                "'h", "'b", "'o", "'d", "8'", "64'h", "128'b", "4294967296'", "18446744073709551616'h", "-", "+", " ", "\n", "?", "''", "%", "18446744073709551615", "__", "xz", "ffffffffffffffff"};
    switch (s.draw(4)) {
        case 0: case 1: return tok[s.draw(sizeof tok / sizeof *tok)];
        case 2: return std::string(1, (char)s.draw(256));
        default: return std::string(1, "0123456789abcdefxz_"[s.draw(19)]);
    }
}

static void run(Source &s, Case &c) {
    auto &v = ops::texts();
    const auto &in = v[s.draw(v.size())];
    std::string t;
    const int style = s.draw(6);
    const int n = s.draw(3) == 0 ? s.draw(4) : s.draw(10) == 9 ? s.draw(1500) : s.draw(60);
    if (style >= 3) t = std::string(s.chance(1, 2) ? "'" : "64'") + "bohdsBOHDSxg_"[s.draw(13)];
    if (style == 4) {  // one kind of byte, possibly very many
        const char ch = s.chance(1, 2) ? (char)s.draw(256) : "019afxzXZ_'"[s.draw(11)];
        size_t len = n;
        if (s.draw(60) == 59) len = 100000 + s.draw(400000);
        t += std::string(len, ch);
    } else
        for (int i = 0; i < n; i++) t += piece(s);
    if (style == 5 && !t.empty()) {  // cut or damaged
        t.resize(s.draw(t.size() + 1));
        if (!t.empty()) t[s.draw(t.size())] = (char)s.draw(256);
    }
    std::string f;
    const bool fmt = s.chance(1, 2);
    if (fmt) {
        if (s.chance(1, 6)) f = std::string(s.draw(40), '0');
        if (s.chance(1, 2)) f += std::to_string(s.draw(8) == 7 ? s.draw(5000) : s.draw(140));
        static const char *b = "bohxsBOHXSdD";
        f += b[s.draw(in.t.w() <= 128 ? 12 : 10)];
    }
    c.desc = in.t.name() + "(" + std::to_string(t.size()) + " bytes \"";
    for (size_t i = 0; i < t.size() && i < 200; i++) {
        char buf[8];
        const unsigned char ch = t[i];
        if (ch >= 32 && ch < 127) c.desc += ch;
        else snprintf(buf, sizeof buf, "\\x%02x", ch), c.desc += buf;
    }
    c.desc += t.size() > 200 ? "...\")" : "\")";
    if (fmt) c.desc += ".str(\"" + f + "\")";
    c.hash = pbt::fnv(t + "\1" + f, pbt::fnv(in.t.name()));
    c.nontrivial = t.size() >= 2;
    c.label(t.find('\'') == std::string::npos ? "no quote" : "with a quote");
    c.label(t.size() > 1000 ? "over 1000 bytes" : "at most 1000 bytes");
    // exactly sized heap buffers: reading beyond them is reported
    std::unique_ptr<char[]> p(new char[t.size()]), q(new char[f.size()]);
    memcpy(p.get(), t.data(), t.size());
    memcpy(q.get(), f.data(), f.size());
    in.raw(p.get(), t.size(), fmt ? q.get() : nullptr, f.size());
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C28";
    p.run = run;
    p.quick_cases = 60000;
    p.thorough_cases = 2000000;
    p.rule =
        "a case parses a byte string (tokens of literals, arbitrary bytes, damaged literals, up to 500000 bytes) from an exactly "
        "sized buffer into a vector of a generated type, prints it in all bases and a generated format, and uses it in the "
        "operators; non-trivial: at least two bytes";
    return pbt::run_main(argc, argv, p);
}

// Coverage-guided fuzzing of the literal parser and the formatter.
// C28: sanitizers only.  -DORACLE (C19): bits also compared with the model parser for texts in its domain.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>

#include "text.hh"

namespace ops {
bool deep = false;
std::vector<std::string> print_as;
}  // namespace ops

using namespace ops;
#define TYPES(X)                                                                                                                        \
    X(0, logic::logic<7, 0>) X(1, logic::bit<63, 0>) X(2, logic::logic<64, 0>) X(3, logic::logic<127, 0, true>) X(4, logic::bit<130, 0>) \
    X(5, logic::logic<191, 0>) X(6, logic::logic<0, 0>) X(7, logic::logic<62, 0, true>) X(8, logic::logic<3, 103>) X(9, logic::bit<257, 0, true>)

template <typename T>
static void one(const char *p, size_t n, const char *f, size_t nf) {
#ifdef ORACLE
    const std::string text(p, n);
    // the documented grammar: [size]'base digits, x/z only in four-state binary, octal and hex, at least one digit
    const size_t q = text.find('\'');
    if (q != std::string::npos) {
        size_t i = 0;
        while (i < q && isdigit((unsigned char)text[i])) i++;
        if (i != q) return;
        size_t b = q + 1;
        if (b < text.size() && isdigit((unsigned char)text[b])) return;
        if (b + 1 >= text.size()) return;
        const char base = tolower(text[b]);
        if (!strchr("bohd", base) || text[b + 1] == '_') return;
        for (size_t k = b + 1; k < text.size(); k++) {
            const char c = tolower(text[k]);
            if (c == '_') continue;
            if (c == 'x' || c == 'z') {
                if (base == 'd' || !traits<T>::four) return;
            } else if (c >= '0' && c <= '9') {
                if (c - '0' >= (base == 'b' ? 2 : base == 'o' ? 8 : 10)) return;
            } else if (!(base == 'h' && c >= 'a' && c <= 'f'))
                return;
        }
    }
    bool ok;
    const Bits e = ref::parse_literal(text, ty_of<T>().w(), ok);
    if (!ok) return;
    const T v = T(std::string_view(p, n));
    Out o;
    observe(v, o);
    if (o.b != e || !o.bad.empty()) {
        fprintf(stderr, "MISMATCH %s(\"%s\")\n  is       %s\n  expected %s\n  %s\n", ty_of<T>().name().c_str(), text.c_str(), ref::msb_first(o.b).c_str(), ref::msb_first(e).c_str(), o.bad.c_str());
        abort();
    }
#else
    raw_fn<T>(p, n, f, nf);
#endif
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    if (n < 2) return 0;
    const int pick = d[0] % 10;
    static const char *fm[] = {"b", "o", "h", "x", "s", "d", "0d", "20d", "100b", "7h", "300o", "33s"};
    const char *f = fm[d[1] % 12];
    const bool dec = f[strlen(f) - 1] == 'd';
    std::unique_ptr<char[]> t(new char[n - 2]), g(new char[strlen(f)]);
    memcpy(t.get(), d + 2, n - 2);
    memcpy(g.get(), f, strlen(f));
#define X(k, ...)                                                                      \
    if (pick == k) one<__VA_ARGS__>(t.get(), n - 2, dec && __VA_ARGS__::size > 128 ? nullptr : g.get(), strlen(f));
    TYPES(X)
#undef X
    return 0;
}

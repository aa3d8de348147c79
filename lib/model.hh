// Reference model, written independently of the library: vectors are strings of
// '0','1','x','z', index 0 = least significant bit.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

using Bits = std::string;

struct Ty {
    bool four = true;  // logic (true) or bit (false)
    int msb = 0, lsb = 0;
    bool sgn = false;
    int w() const { return (msb > lsb ? msb - lsb : lsb - msb) + 1; }
    bool desc() const { return msb >= lsb; }
    // declared index of bit position k (0 = LSB)
    int idx(int k) const { return desc() ? lsb + k : lsb - k; }
    std::string name() const;
    bool operator==(const Ty &o) const = default;
};
struct Val {
    Ty ty;
    Bits b;
    std::string show() const;
};

// clang-format off
#define REF_OPS(X) \
    X(AND, "&") X(OR, "|") X(XOR, "^") X(ANDA, "&=") X(ORA, "|=") X(XORA, "^=") \
    X(SHL, "<<") X(SHR, ">>") X(SHLA, "<<=") X(SHRA, ">>=") X(ASHR, "ashr") X(ASHL, "ashl") \
    X(ADD, "+") X(SUB, "-") X(MUL, "*") X(DIV, "/") X(MOD, "%") \
    X(EQ, "==") X(NE, "!=") X(MATCH, "match") X(NMATCH, "nmatch") \
    X(LT, "<") X(LE, "<=") X(GT, ">") X(GE, ">=") X(CONCAT, "concat") X(FCONCAT, "concat()") X(GETIDX, "get") \
    X(ASSIGN, "=") X(CONSTRUCT, "T(v)") \
    X(WAND, "and_") X(WOR, "or_") X(WXOR, "xor_") X(WADD, "add") X(WSUB, "minus") X(WMUL, "multiply") X(WDIV, "divide") X(WMOD, "mod") \
    X(NOT, "~") X(NEG, "-u") X(PLUS, "+u") X(PREINC, "++v") X(POSTINC, "v++") X(PREDEC, "--v") X(POSTDEC, "v--") \
    X(RAND, "r_and") X(RNAND, "r_nand") X(ROR, "r_or") X(RNOR, "r_nor") X(RXOR, "r_xor") X(RXNOR, "r_xnor") \
    X(BOOL, "bool") X(LNOT, "!") X(SIGNED, "to_signed") X(UNSIGNED, "to_unsigned") X(EXTEND, "extend") X(SLICE, "slice") \
    X(COPY, "copy") \
    X(POPCOUNT, "popcount") X(HIGHEST, "highest_bit") X(ANYSET, "any_set") X(ALLSET, "all_set") X(NEGATIVE, "negative") \
    X(MASKALL, "mask") X(CLEAR, "clear") X(MASKOFF, "mask_off") X(NEGATEIP, "negate") X(NEGATED, "negate const") X(FRESH, "T()")
// clang-format on
enum Op {
#define X(a, b) a,
    REF_OPS(X)
#undef X
        OP_COUNT
};
const char *op_name(Op op);
bool is_compound(Op op);  // modifies its left operand
bool is_binary(Op op);
bool has_width(Op op);  // evaluated at the width of the destination type

// ---- bit string helpers
bool has_xz(const Bits &b);
bool known(const Bits &b);
bool is_zero(const Bits &b);
bool nonzero(const Bits &b);                    // known and not zero
Bits zext(const Bits &b, int w);                // or truncate
Bits widen(const Bits &b, int w, bool sgn);     // own-sign widening, or truncation
Bits from_u64(uint64_t v, int w);
Bits from_i64(int64_t v, int w);
uint64_t to_u64(const Bits &b);                 // low 64 bits of a known vector
std::string msb_first(const Bits &b);
Bits lsb_first(const std::string &s);
Bits add(const Bits &a, const Bits &b);         // equal widths, known
Bits neg(const Bits &a);
Bits mul(const Bits &a, const Bits &b);         // equal widths, low half
void udivmod(const Bits &a, const Bits &b, Bits &q, Bits &r);
int ucmp(const Bits &a, const Bits &b);         // equal widths
int scmp(const Bits &a, const Bits &b);

// Result of an operation. sign_known=false: result signedness unspecified.
struct Res {
    Bits b;
    bool sgn = false;
    bool sign_known = true;
};
// r is ignored for unary operations; EXTEND and the W operations use dst
Res eval(Op op, const Val &l, const Val &r, const Ty &dst = {});

// ---- text
Bits parse_literal(const std::string &text, int w, bool &ok);
std::string print(const Val &v, const std::string &fmt);
std::string udec(const Bits &b);

// the recorded deviation of multiword ashr (known finding): applies, and its result
bool ashr_deviates(const Val &l, const Val &r);
Bits ashr_deviation(const Val &l, const Val &r);
}  // namespace ref

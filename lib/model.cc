#include "model.hh"

#include <algorithm>

namespace ref {

std::string Ty::name() const {
    return std::string(four ? "logic" : "bit") + "<" + std::to_string(msb) + "," + std::to_string(lsb) +
           (sgn ? ",signed>" : ">");
}
std::string Val::show() const { return ty.name() + " " + msb_first(b); }

const char *op_name(Op op) {
    static const char *n[] = {
#define X(a, b) b,
        REF_OPS(X)
#undef X
    };
    return n[op];
}
bool is_compound(Op op) {
    switch (op) {
        case ANDA: case ORA: case XORA: case SHLA: case SHRA: case ASSIGN:
        case PREINC: case POSTINC: case PREDEC: case POSTDEC:
        case MASKALL: case CLEAR: case MASKOFF: case NEGATEIP: return true;
        default: return false;
    }
}
bool is_binary(Op op) { return op < NOT; }
bool has_width(Op op) { return op == EXTEND || (op >= WAND && op <= WMOD); }

bool has_xz(const Bits &b) { return b.find_first_of("xz") != Bits::npos; }
bool known(const Bits &b) { return !has_xz(b); }
bool is_zero(const Bits &b) { return b.find_first_not_of('0') == Bits::npos; }
bool nonzero(const Bits &b) { return known(b) && !is_zero(b); }
Bits zext(const Bits &b, int w) {
    Bits r = b.substr(0, w);
    r.resize(w, '0');
    return r;
}
Bits widen(const Bits &b, int w, bool sgn) {
    Bits r = b.substr(0, w);
    r.resize(w, sgn ? b.back() : '0');
    return r;
}
Bits from_u64(uint64_t v, int w) {
    Bits r(w, '0');
    for (int i = 0; i < w && i < 64; i++) r[i] = '0' + ((v >> i) & 1);
    return r;
}
Bits from_i64(int64_t v, int w) {
    Bits r(w, v < 0 ? '1' : '0');
    for (int i = 0; i < w && i < 64; i++) r[i] = '0' + (((uint64_t)v >> i) & 1);
    return r;
}
uint64_t to_u64(const Bits &b) {
    uint64_t v = 0;
    for (size_t i = 0; i < b.size() && i < 64; i++)
        if (b[i] == '1') v |= 1ull << i;
    return v;
}
std::string msb_first(const Bits &b) { return std::string(b.rbegin(), b.rend()); }
Bits lsb_first(const std::string &s) { return Bits(s.rbegin(), s.rend()); }

Bits add(const Bits &a, const Bits &b) {
    Bits r(a.size(), '0');
    int c = 0;
    for (size_t i = 0; i < a.size(); i++) {
        int s = (a[i] - '0') + (b[i] - '0') + c;
        r[i] = '0' + (s & 1);
        c = s >> 1;
    }
    return r;
}
Bits neg(const Bits &a) {
    Bits n = a, one(a.size(), '0');
    for (auto &c : n) c = c == '0' ? '1' : '0';
    one[0] = '1';
    return add(n, one);
}

// 16-bit limbs
static std::vector<uint32_t> limbs(const Bits &b) {
    std::vector<uint32_t> v((b.size() + 15) / 16, 0);
    for (size_t i = 0; i < b.size(); i++)
        if (b[i] == '1') v[i / 16] |= 1u << (i % 16);
    return v;
}
static Bits unlimbs(const std::vector<uint32_t> &v, size_t w) {
    Bits r(w, '0');
    for (size_t i = 0; i < w && i / 16 < v.size(); i++)
        if ((v[i / 16] >> (i % 16)) & 1) r[i] = '1';
    return r;
}
Bits mul(const Bits &a, const Bits &b) {
    auto x = limbs(a), y = limbs(b);
    std::vector<uint32_t> r(x.size() + y.size() + 1, 0);
    for (size_t i = 0; i < x.size(); i++) {
        uint64_t carry = 0;
        for (size_t j = 0; j < y.size() || carry; j++) {
            uint64_t t = r[i + j] + carry + (j < y.size() ? (uint64_t)x[i] * y[j] : 0);
            r[i + j] = t & 0xffff;
            carry = t >> 16;
        }
    }
    return unlimbs(r, a.size());
}
int ucmp(const Bits &a, const Bits &b) {
    for (size_t i = a.size(); i-- > 0;)
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
int scmp(const Bits &a, const Bits &b) {
    if (a.back() != b.back()) return a.back() == '1' ? -1 : 1;
    return ucmp(a, b);
}
// restoring division, 16-bit limb remainder
void udivmod(const Bits &a, const Bits &b, Bits &q, Bits &r) {
    size_t w = a.size();
    q.assign(w, '0');
    auto d = limbs(b);
    d.push_back(0);
    std::vector<uint32_t> rem(d.size(), 0);
    for (size_t i = w; i-- > 0;) {
        uint32_t c = a[i] - '0';
        for (auto &x : rem) {
            x = (x << 1) | c;
            c = x >> 16;
            x &= 0xffff;
        }
        bool ge = true;
        for (size_t k = rem.size(); k-- > 0;)
            if (rem[k] != d[k]) {
                ge = rem[k] > d[k];
                break;
            }
        if (ge) {
            int32_t borrow = 0;
            for (size_t k = 0; k < rem.size(); k++) {
                int32_t t = (int32_t)rem[k] - (int32_t)d[k] - borrow;
                borrow = t < 0;
                rem[k] = t + (borrow << 16);
            }
            q[i] = '1';
        }
    }
    r = unlimbs(rem, w);
}

static char t_and(char a, char b) {
    if (a == '0' || b == '0') return '0';
    return a == '1' && b == '1' ? '1' : 'x';
}
static char t_or(char a, char b) {
    if (a == '1' || b == '1') return '1';
    return a == '0' && b == '0' ? '0' : 'x';
}
static char t_xor(char a, char b) {
    if (a == 'x' || a == 'z' || b == 'x' || b == 'z') return 'x';
    return a == b ? '0' : '1';
}
static char t_not(char a) { return a == '0' ? '1' : a == '1' ? '0' : 'x'; }

// shift amount as unsigned; saturates
static uint64_t amount(const Bits &b) {
    for (size_t i = 64; i < b.size(); i++)
        if (b[i] == '1') return UINT64_MAX;
    return to_u64(b);
}
static Bits shr(const Bits &b, uint64_t n, char fill) {
    Bits r(b.size(), fill);
    for (size_t i = 0; i < b.size(); i++)
        if (n < b.size() && i + n < b.size()) r[i] = b[i + n];
    return r;
}
static Bits shl(const Bits &b, uint64_t n) {
    Bits r(b.size(), '0');
    for (size_t i = 0; i < b.size(); i++)
        if (n <= i) r[i] = b[i - n];
    return r;
}

bool ashr_deviates(const Val &l, const Val &r) {
    if (!l.ty.sgn || l.b.size() <= 64 || !known(l.b) || !known(r.b) || l.b.back() != '1') return false;
    uint64_t n = amount(r.b);
    return n <= l.b.size() - 1;
}
Bits ashr_deviation(const Val &l, const Val &r) {
    uint64_t n = amount(r.b);
    Bits e = shr(l.b, n, '1');
    e[l.b.size() - 1 - n] = '0';
    return e;
}

Res eval(Op op, const Val &l, const Val &r, const Ty &dst) {
    Res o;
    const int w = is_binary(op) ? std::max(l.b.size(), r.b.size()) : l.b.size();
    const bool sgn = l.ty.sgn && r.ty.sgn;
    const bool four = l.ty.four || (is_binary(op) && r.ty.four);
    const char unk = four ? 'x' : '0';
    const bool anyxz = has_xz(l.b) || (is_binary(op) && has_xz(r.b));
    auto L = [&] { return widen(l.b, w, l.ty.sgn); };
    auto R = [&] { return widen(r.b, w, r.ty.sgn); };
    auto one = [&](char c) {
        o.b = Bits(1, c);
        o.sgn = false;
        return o;
    };
    auto fold = [&](char (*f)(char, char)) {
        char c = l.b[0];
        if (c == 'z') c = 'x';
        for (size_t i = 1; i < l.b.size(); i++) c = f(c, l.b[i]);
        return c;
    };
    switch (op) {
        case AND: case OR: case XOR: case ANDA: case ORA: case XORA: {
            Bits a = L(), b = R();
            for (int i = 0; i < w; i++) {
                if (op == AND || op == ANDA) a[i] = t_and(a[i], b[i]);
                else if (op == OR || op == ORA) a[i] = t_or(a[i], b[i]);
                else a[i] = t_xor(a[i], b[i]);
            }
            o.b = a;
            o.sgn = sgn;
            if (op == ANDA || op == ORA || op == XORA) {
                o.b = a.substr(0, l.b.size());
                o.sgn = l.ty.sgn;
            }
            return o;
        }
        case NOT:
            o.b = l.b;
            for (auto &c : o.b) c = t_not(c);
            o.sgn = false;
            return o;
        case SHL: case SHR: case SHLA: case SHRA: case ASHR: case ASHL: {
            o.sgn = l.ty.sgn;
            if (has_xz(l.b) || has_xz(r.b)) {
                o.b = Bits(l.b.size(), 'x');
                return o;
            }
            uint64_t n = amount(r.b);
            if (op == SHL || op == SHLA || op == ASHL) o.b = shl(l.b, n);
            else if (op == ASHR && l.ty.sgn) o.b = shr(l.b, n, l.b.back());
            else o.b = shr(l.b, n, '0');
            return o;
        }
        case ADD: case SUB: case MUL: {
            o.sgn = sgn;
            if (anyxz) {
                o.b = Bits(w, unk);
                return o;
            }
            if (op == MUL) o.b = mul(L(), R());
            else o.b = add(L(), op == ADD ? R() : neg(R()));
            return o;
        }
        case DIV: case MOD: {
            o.sgn = sgn;
            if (anyxz || is_zero(r.b)) {
                o.b = Bits(w, unk);
                return o;
            }
            Bits a = L(), b = R(), q, m;
            bool na = sgn && a.back() == '1', nb = sgn && b.back() == '1';
            udivmod(na ? neg(a) : a, nb ? neg(b) : b, q, m);
            if (op == DIV) o.b = na != nb ? neg(q) : q;
            else o.b = na ? neg(m) : m;
            return o;
        }
        case EQ: case NE:
            if (anyxz) return one('x');
            return one(((L() == R()) == (op == EQ)) ? '1' : '0');
        case MATCH: case NMATCH: return one(((L() == R()) == (op == MATCH)) ? '1' : '0');
        case LT: case LE: case GT: case GE: {
            if (anyxz) return one(l.ty.four ? 'x' : '0');
            int c = sgn ? scmp(L(), R()) : ucmp(L(), R());
            bool t = op == LT ? c < 0 : op == LE ? c <= 0 : op == GT ? c > 0 : c >= 0;
            return one(t ? '1' : '0');
        }
        case CONCAT: case FCONCAT:
            o.b = r.b + l.b;
            o.sgn = false;
            return o;
        case GETIDX: {  // bit of l at the index r denotes; outside: x (0 in a two-state vector)
            if (has_xz(r.b)) return one('x');
            int64_t i;
            Bits t = widen(r.b, 4096, r.ty.sgn);
            bool neg_ = t.back() == '1';
            bool small = true;
            for (int k = 40; k < 4096; k++) small = small && t[k] == t.back();
            i = small ? (int64_t)(to_u64(t)) : (neg_ ? INT64_MIN : INT64_MAX);
            int lo = std::min(l.ty.msb, l.ty.lsb), hi = std::max(l.ty.msb, l.ty.lsb);
            if (i < lo || i > hi) return one(l.ty.four ? 'x' : '0');
            return one(l.b[l.ty.desc() ? i - l.ty.lsb : l.ty.lsb - i]);
        }
        case NEG: case PLUS:
            o.sgn = l.ty.sgn;
            if (anyxz) o.b = Bits(w, 'x');
            else o.b = op == NEG ? neg(l.b) : l.b;
            return o;
        case PREINC: case POSTINC: case PREDEC: case POSTDEC: {  // the new value of the operand
            o.sgn = l.ty.sgn;
            Bits d = from_u64(1, w);
            if (op == PREDEC || op == POSTDEC) d = Bits(w, '1');
            o.b = anyxz ? Bits(w, 'x') : add(l.b, d);
            return o;
        }
        case RAND: return one(fold(t_and));
        case RNAND: return one(t_not(fold(t_and)));
        case ROR: return one(fold(t_or));
        case RNOR: return one(t_not(fold(t_or)));
        case RXOR: return one(fold(t_xor));
        case RXNOR: return one(t_not(fold(t_xor)));
        case BOOL: return one(nonzero(l.b) ? '1' : '0');
        case LNOT: return one(anyxz ? 'x' : is_zero(l.b) ? '1' : '0');
        case SIGNED: case UNSIGNED:
            o.b = l.b;
            o.sgn = op == SIGNED;
            return o;
        case EXTEND:
            o.b = widen(l.b, dst.w(), l.ty.sgn);
            o.sgn = l.ty.sgn;
            return o;
        case SLICE: {  // of a [n-1:0] vector, bounds given by dst
            int lo = std::min(dst.msb, dst.lsb);
            o.b = l.b.substr(lo, dst.w());
            o.sgn = false;
            return o;
        }
        case ASSIGN: case CONSTRUCT:  // l is the target (old value), r the source
            o.b = widen(r.b, l.b.size(), r.ty.sgn);
            o.sgn = l.ty.sgn;
            return o;
        case COPY:
            o.b = l.b;
            o.sgn = l.ty.sgn;
            return o;
        case WAND: case WOR: case WXOR: case WADD: case WSUB: case WMUL: case WDIV: case WMOD: {
            static const Op base[] = {AND, OR, XOR, ADD, SUB, MUL, DIV, MOD};
            Val a = l, b = r;
            a.b = widen(l.b, dst.w(), l.ty.sgn);
            b.b = widen(r.b, dst.w(), r.ty.sgn);
            return eval(base[op - WAND], a, b);
        }
        case POPCOUNT: case HIGHEST: {
            uint64_t n = 0;
            for (size_t i = 0; i < l.b.size(); i++)
                if (l.b[i] == '1') n = op == HIGHEST ? i : n + 1;
            o.b = from_u64(n, 64);
            return o;
        }
        case ANYSET: return one(is_zero(l.b) ? '0' : '1');
        case ALLSET: return one(l.b.find('0') == Bits::npos ? '1' : '0');
        case NEGATIVE: return one(l.ty.sgn ? l.b.back() : '0');
        case MASKALL: case CLEAR: case MASKOFF: case NEGATEIP:
            o.sgn = l.ty.sgn;
            o.b = op == MASKALL ? Bits(w, '1') : op == CLEAR ? Bits(w, '0') : op == MASKOFF ? l.b : neg(l.b);
            return o;
        case NEGATED:
            o.sign_known = false;
            o.b = neg(l.b);
            return o;
        case FRESH:
            o.sgn = l.ty.sgn;
            o.b = Bits(w, unk);
            return o;
        default: break;
    }
    return o;
}

// ------------------------------------------------------------------ text
Bits parse_literal(const std::string &t, int w, bool &ok) {
    ok = true;
    size_t q = t.find('\'');
    if (q == std::string::npos) {  // raw string
        Bits r;
        for (size_t i = t.size(); i-- > 0;)
            for (int k = 0; k < 8; k++) r += '0' + (((unsigned char)t[i] >> k) & 1);
        return zext(r, w);
    }
    size_t p = q + 1;
    while (p < t.size() && isdigit((unsigned char)t[p])) p++;
    if (p >= t.size()) {
        ok = false;
        return {};
    }
    char base = tolower(t[p]);
    std::string d;
    for (size_t i = p + 1; i < t.size(); i++)
        if (t[i] != '_') d += tolower(t[i]);
    Bits r;
    if (base == 'd') {
        unsigned __int128 v = 0;
        for (char c : d) {
            if (!isdigit((unsigned char)c)) ok = false;
            v = v * 10 + (c - '0');
            if (v >> 64) {
                ok = false;
                return {};
            }
        }
        return from_u64((uint64_t)v, w);
    }
    int k = base == 'b' ? 1 : base == 'o' ? 3 : base == 'h' ? 4 : 0;
    if (!k) {
        ok = false;
        return {};
    }
    for (size_t i = d.size(); i-- > 0;) {
        char c = d[i];
        if (c == 'x' || c == 'z') {
            r += Bits(k, c);
            continue;
        }
        int v = isdigit((unsigned char)c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99;
        if (v >= (1 << k)) {
            ok = false;
            return {};
        }
        for (int j = 0; j < k; j++) r += '0' + ((v >> j) & 1);
    }
    return zext(r, w);
}

std::string udec(const Bits &b) {  // repeated doubling of a decimal digit string
    std::string d = "0";           // LS digit first
    for (size_t i = b.size(); i-- > 0;) {
        int c = b[i] - '0';
        for (auto &ch : d) {
            int v = (ch - '0') * 2 + c;
            ch = '0' + v % 10;
            c = v / 10;
        }
        if (c) d += '0' + c;
    }
    return std::string(d.rbegin(), d.rend());
}

static char xz_digit(const std::string &g) {  // 0: fully known
    size_t x = std::count(g.begin(), g.end(), 'x'), z = std::count(g.begin(), g.end(), 'z');
    if (x == g.size()) return 'x';
    if (z == g.size()) return 'z';
    if (x) return 'X';
    if (z) return 'Z';
    return 0;
}

std::string print(const Val &v, const std::string &fmt) {
    size_t p = 0;
    while (p < fmt.size() && isdigit((unsigned char)fmt[p])) p++;
    long req = p ? std::stol(fmt.substr(0, p)) : -1;
    char base = tolower(fmt[p]);
    const Bits &b = v.b;
    std::string s;
    if (base == 'd') {
        char c = xz_digit(b);
        size_t width = udec(Bits(b.size(), '1')).size();
        if (req > 0) width = std::max<size_t>(width, req);
        if (c) {
            s = std::string(1, c);
        } else if (v.ty.sgn && b.back() == '1') {
            s = "-" + udec(neg(b));
            width++;
        } else {
            s = udec(b);
        }
        if (req != 0 && s.size() < width) s = std::string(width - s.size(), ' ') + s;
        return s;
    }
    size_t k = base == 'b' ? 1 : base == 'o' ? 3 : base == 's' ? 8 : 4;
    for (size_t i = 0; i < b.size(); i += k) {
        std::string g = b.substr(i, k);
        char c = base == 's' ? 0 : xz_digit(g);
        if (c) {
            s += c;
        } else {
            int d = 0;
            for (size_t j = 0; j < g.size(); j++)
                if (g[j] == '1') d |= 1 << j;
            s += base == 's' ? (char)d : "0123456789abcdef"[d];
        }
    }
    if (req > 0)
        while ((long)s.size() < req) s += base == 's' ? ' ' : '0';
    return std::string(s.rbegin(), s.rend());
}
}  // namespace ref

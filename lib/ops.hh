// Executes operations of the library under test on values given as bit strings.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <new>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

#include "logic/logic.hh"
#include "model.hh"

namespace ops {
using ref::Bits;
using ref::Op;
using ref::Ty;

template <typename T>
struct traits;
template <int m, int l, bool s, bool a>
struct traits<logic::logic<m, l, s, a>> {
    static constexpr bool four = true, sgn = s;
    static constexpr int msb = m, lsb = l;
};
template <int m, int l, bool s, bool a>
struct traits<logic::bit<m, l, s, a>> {
    static constexpr bool four = false, sgn = s;
    static constexpr int msb = m, lsb = l;
};
// a class derived from one of the vectors counts as that vector
template <int m, int l, bool s, bool a>
traits<logic::logic<m, l, s, a>> probe(const logic::logic<m, l, s, a> *);
template <int m, int l, bool s, bool a>
traits<logic::bit<m, l, s, a>> probe(const logic::bit<m, l, s, a> *);
template <typename T>
struct traits : decltype(probe(static_cast<const T *>(nullptr))) {};
template <typename T>
Ty ty_of() {
    using X = traits<T>;
    return Ty{X::four, X::msb, X::lsb, X::sgn};
}

// ---- writing a value bit by bit
template <typename T>
void store(T &v, const Bits &b) {
    const Ty t = ty_of<T>();
    for (int k = 0; k < t.w(); k++) {
        const int i = t.idx(k);
        if constexpr (traits<T>::four) {
            if (b[k] == 'x') v.set_x(i);
            else if (b[k] == 'z') v.set_z(i);
            else v.set(i, b[k] == '1');
        } else {
            v.set(i, b[k] == '1');
        }
    }
}
template <typename T>
T load(const Bits &b) {
    T v;
    store(v, b);
    return v;
}

// ---- reading it back through single-bit reads
template <typename T>
Bits read(const T &v) {
    const Ty t = ty_of<T>();
    Bits b(t.w(), '?');
    for (int k = 0; k < t.w(); k++) {
        const int i = t.idx(k);
        if constexpr (traits<T>::four) {
            const auto r = v[i];
            b[k] = r.x_set(0) ? 'x' : r.z_set(0) ? 'z' : static_cast<bool>(r) ? '1' : '0';
        } else {
            b[k] = static_cast<bool>(v[i]) ? '1' : '0';
        }
    }
    return b;
}

extern bool deep;  // also compare the other observers with the bits read
extern std::vector<std::string> print_as;  // formats in which v must print like an equal vector
template <typename T>
void cross_check(const T &v, const Bits &b, std::string &bad) {
    const Ty t = ty_of<T>();
    if constexpr (traits<T>::four) {
        for (int k = 0; k < t.w() && bad.empty(); k++) {
            const int i = t.idx(k);
            if (v.x_set(i) != (b[k] == 'x')) bad = "x_set(" + std::to_string(i) + ") disagrees with the bit read";
            if (v.z_set(i) != (b[k] == 'z')) bad = "z_set(" + std::to_string(i) + ") disagrees with the bit read";
        }
    }
    // nothing outside the bits read may be visible: a vector set to the same bits is identical
    const T c = load<T>(b);
    if (!v.match(c) || !c.match(v) || v.nmatch(c)) bad = "does not match a vector with the same bits " + ref::msb_first(b);
    if (v.to_uint64() != c.to_uint64()) bad = "to_uint64 differs from that of a vector with the same bits " + ref::msb_first(b);
    if (v.to_uint64() != (ref::has_xz(b) ? 0 : ref::to_u64(ref::widen(b, 64, t.sgn)))) bad = "to_uint64 is " + std::to_string(v.to_uint64()) + " for bits " + ref::msb_first(b);
    if (static_cast<bool>(v) != ref::nonzero(b)) bad = "truth value wrong for bits " + ref::msb_first(b);
    for (auto &f : print_as)
        if (v.str(f) != c.str(f)) bad = "str(" + f + ") prints \"" + v.str(f) + "\", but \"" + c.str(f) + "\" for a vector with the same bits " + ref::msb_first(b);
    if (deep) {
        const auto not_v = !v;
        const char n = ref::has_xz(b) ? 'x' : ref::is_zero(b) ? '1' : '0';
        if constexpr (traits<T>::four) {
            if ((not_v.x_set(0) ? 'x' : static_cast<bool>(not_v) ? '1' : '0') != n) bad = "! is wrong for bits " + ref::msb_first(b);
        } else if (not_v != (n == '1')) bad = "! is wrong for bits " + ref::msb_first(b);
        if constexpr (T::size <= 64) {
            const auto x = v.to_num();
            const uint64_t e = ref::has_xz(b) ? 0 : ref::to_u64(ref::widen(b, 64, t.sgn));
            if (static_cast<uint64_t>(static_cast<int64_t>(x)) != e || std::is_signed_v<decltype(v.to_num())> != t.sgn)
                bad = "to_num is " + std::to_string(x) + " for bits " + ref::msb_first(b);
        }
        if (v.str("b") != ref::msb_first(b)) bad = "str(b) prints " + v.str("b") + " for bits " + ref::msb_first(b);
        const std::string x = v.str("h"), e = ref::print({t, b}, "h");
        if (x != e) bad = "str(h) prints " + x + " for bits " + ref::msb_first(b);
    }
}

struct Out {
    Ty ty;               // static type of the result
    Bits b;              // its bits
    Bits l, r;           // operands afterwards
    bool ref_ok = true;  // a compound form returned a reference to its left operand
    std::string bad;     // an observer disagrees with the bits read
};

template <typename T>
void observe(const T &v, Out &o) {
    if constexpr (std::is_same_v<T, bool>) {
        o.ty = Ty{false, 0, 0, false};
        o.b = v ? "1" : "0";
    } else {
        o.ty = ty_of<T>();
        o.b = read(v);
        cross_check(v, o.b, o.bad);
    }
}

inline void observe_u64(uint64_t v, Out &o) {
    o.ty = Ty{false, 63, 0, false};
    o.b = ref::from_u64(v, 64);
}

#define COMPOUND(expr)               \
    do {                             \
        auto &ref_ = (expr);         \
        o.ref_ok = (void *)&ref_ == (void *)&l; \
        observe(l, o);               \
    } while (0)

// what a postfix operator returned
template <typename L, typename T>
void old_value(const T &old, const Bits &b, Out &o) {
    cross_check(old, b, o.bad);
    const Ty t = ty_of<T>(), l = ty_of<L>();
    if (t.w() != l.w() || t.sgn != l.sgn || t.four != l.four) o.bad = "a postfix operator returned a vector of another type";
}

// D: destination type of EXTEND
template <Op op, typename L, typename R, typename D>
void apply(L &l, R &r, Out &o) {
    using namespace ref;
    const L &cl = l;
    const R &cr = r;
    if constexpr (op == AND) observe(cl & cr, o);
    else if constexpr (op == OR) observe(cl | cr, o);
    else if constexpr (op == XOR) observe(cl ^ cr, o);
    else if constexpr (op == ANDA) COMPOUND(l &= cr);
    else if constexpr (op == ORA) COMPOUND(l |= cr);
    else if constexpr (op == XORA) COMPOUND(l ^= cr);
    else if constexpr (op == SHL) observe(cl << cr, o);
    else if constexpr (op == SHR) observe(cl >> cr, o);
    else if constexpr (op == SHLA) COMPOUND(l <<= cr);
    else if constexpr (op == SHRA) COMPOUND(l >>= cr);
    else if constexpr (op == ASHR) observe(cl.ashr(cr), o);
    else if constexpr (op == ASHL) observe(cl.ashl(cr), o);
    else if constexpr (op == ADD) observe(cl + cr, o);
    else if constexpr (op == SUB) observe(cl - cr, o);
    else if constexpr (op == MUL) observe(cl * cr, o);
    else if constexpr (op == DIV) observe(cl / cr, o);
    else if constexpr (op == MOD) observe(cl % cr, o);
    else if constexpr (op == EQ) observe(cl == cr, o);
    else if constexpr (op == NE) observe(cl != cr, o);
    else if constexpr (op == MATCH) observe(cl.match(cr), o);
    else if constexpr (op == NMATCH) observe(cl.nmatch(cr), o);
    else if constexpr (op == LT) observe(cl < cr, o);
    else if constexpr (op == LE) observe(cl <= cr, o);
    else if constexpr (op == GT) observe(cl > cr, o);
    else if constexpr (op == GE) observe(cl >= cr, o);
    else if constexpr (op == CONCAT) observe(l.concat(cr), o);
    else if constexpr (op == FCONCAT) observe(logic::concat(cl, cr), o);
    else if constexpr (op == GETIDX) {
        observe(cl.get(cr), o);
    } else if constexpr (op == ASSIGN) COMPOUND(l = cr);
    else if constexpr (op == CONSTRUCT) {
        const L v(cr);
        observe(v, o);
    } else if constexpr (op == NOT) observe(~cl, o);
    else if constexpr (op == NEG) observe(-cl, o);
    else if constexpr (op == PLUS) observe(+cl, o);
    else if constexpr (op == PREINC) COMPOUND(++l);
    else if constexpr (op == PREDEC) COMPOUND(--l);
    else if constexpr (op == POSTINC || op == POSTDEC) {
        const Bits before = read(l);
        if constexpr (op == POSTINC) {
            const auto old = l++;
            if (read(old) != before) o.bad = "postfix ++ did not return the old value";
            else old_value<L>(old, before, o);
        } else {
            const auto old = l--;
            if (read(old) != before) o.bad = "postfix -- did not return the old value";
            else old_value<L>(old, before, o);
        }
        observe(l, o);
    } else if constexpr (op == RAND) observe(cl.r_and(), o);
    else if constexpr (op == RNAND) observe(cl.r_nand(), o);
    else if constexpr (op == ROR) observe(cl.r_or(), o);
    else if constexpr (op == RNOR) observe(cl.r_nor(), o);
    else if constexpr (op == RXOR) observe(cl.r_xor(), o);
    else if constexpr (op == RXNOR) observe(cl.r_xnor(), o);
    else if constexpr (op == BOOL) observe(static_cast<bool>(cl), o);
    else if constexpr (op == LNOT) observe(!cl, o);
    else if constexpr (op == SIGNED) observe(cl.to_signed(), o);
    else if constexpr (op == UNSIGNED) observe(cl.to_unsigned(), o);
    else if constexpr (op == EXTEND) observe(cl.template extend<D::size>(), o);
    else if constexpr (op == SLICE) observe(cl.template slice<traits<D>::msb, traits<D>::lsb>(), o);
    else if constexpr (op == WAND) observe(cl.template and_<D::size>(cr), o);
    else if constexpr (op == WOR) observe(cl.template or_<D::size>(cr), o);
    else if constexpr (op == WXOR) observe(cl.template xor_<D::size>(cr), o);
    else if constexpr (op == WADD) observe(cl.template add<D::size>(cr), o);
    else if constexpr (op == WSUB) observe(cl.template minus<D::size>(cr), o);
    else if constexpr (op == WMUL) observe(cl.template multiply<D::size>(cr), o);
    else if constexpr (op == WDIV) observe(cl.template divide<D::size>(cr), o);
    else if constexpr (op == WMOD) observe(cl.template mod<D::size>(cr), o);
    else if constexpr (op == POPCOUNT) observe_u64(cl.popcount(), o);
    else if constexpr (op == HIGHEST) observe_u64(cl.highest_bit(), o);
    else if constexpr (op == ANYSET) observe(cl.any_set(), o);
    else if constexpr (op == ALLSET) observe(cl.all_set(), o);
    else if constexpr (op == NEGATIVE) observe(cl.negative(), o);
    else if constexpr (op == MASKALL) l.mask(), observe(l, o);
    else if constexpr (op == CLEAR) l.clear(), observe(l, o);
    else if constexpr (op == MASKOFF) l.mask_off(), observe(l, o);
    else if constexpr (op == NEGATEIP) l.negate(), observe(l, o);
    else if constexpr (op == NEGATED) observe(cl.negate(), o);
    else if constexpr (op == FRESH) {
        const L v;
        const auto *p = new L;  // and one that lives elsewhere
        observe(*p, o);
        const Bits first = o.b;
        delete p;
        alignas(L) unsigned char dirty[sizeof(L)];  // and one where something else was before
        std::fill(std::begin(dirty), std::end(dirty), 0xa5);
        asm volatile("" : : "r"(dirty) : "memory");
        const auto *q = new (static_cast<void *>(dirty)) L;
        observe(*q, o);
        if (o.b != first) o.bad = "two new vectors differ";
        q->~L();
        observe(v, o);
        if (o.b != first) o.bad = "two new vectors differ";
        const Ty t = ty_of<L>();
        if (L::size != t.w() || L::is_signed != t.sgn || L::is_4state != t.four || L::big_endian != t.desc()) o.bad = "a constant of the type is wrong";
    }
    else if constexpr (op == COPY) {
        L c(cl);
        L d;
        d = cl;
        observe(c, o);
        if (read(d) != o.b) o.bad = "copy assignment and copy construction differ";
    }
}

struct Inst {
    Op op;
    Ty l, r, d;
    bool alias;  // both operands are the same object
    void (*fn)(const Bits &, const Bits &, Out &);
};
std::vector<Inst> &all();

template <Op op, typename L, typename R, typename D>
void call(const Bits &lb, const Bits &rb, Out &o) {
    L l = load<L>(lb);
    R r = load<R>(rb);
    apply<op, L, R, D>(l, r, o);
    o.l = read(l);
    o.r = read(r);
}
template <Op op, typename L>
void call_alias(const Bits &lb, const Bits &, Out &o) {
    L l = load<L>(lb);
    apply<op, L, L, L>(l, l, o);
    o.l = o.r = read(l);
}

template <Op op, typename L, typename R>
void bin() {
    all().push_back({op, ty_of<L>(), ty_of<R>(), {}, false, call<op, L, R, R>});
}
template <Op op, typename L>
void un() {
    all().push_back({op, ty_of<L>(), ty_of<L>(), {}, false, call<op, L, L, L>});
}
template <typename L, typename D>
void ext() {
    all().push_back({ref::EXTEND, ty_of<L>(), ty_of<L>(), ty_of<D>(), false, call<ref::EXTEND, L, L, D>});
}
template <Op op, typename L, typename R, typename D>
void wide() {
    all().push_back({op, ty_of<L>(), ty_of<R>(), ty_of<D>(), false, call<op, L, R, D>});
}
template <typename L, typename D>
void slc() {
    all().push_back({ref::SLICE, ty_of<L>(), ty_of<L>(), ty_of<D>(), false, call<ref::SLICE, L, L, D>});
}
// two instances whose results are related
struct Rel {
    Inst a, b;
    int kind;
};
std::vector<Rel> &rels();
template <Op op, typename L, typename R, typename D>
Inst inst() {
    return {op, ty_of<L>(), ty_of<R>(), ty_of<D>(), false, call<op, L, R, D>};
}
template <Op op, typename L, typename R, typename D, typename L2, typename R2, typename D2>
void rel(int kind) {
    rels().push_back({inst<op, L, R, D>(), inst<op, L2, R2, D2>(), kind});
}
// C27: repeated evaluation on one pair of objects, fresh objects, and aliased operands
struct Pure {
    Op op;
    Ty l, r, d;
    void (*fn)(const Bits &, const Bits &, Out &first, Out &again, Out &fresh, Bits &copy);
    bool alias;
};
std::vector<Pure> &pures();
template <Op op, typename L, typename R, typename D>
void call_pure(const Bits &lb, const Bits &rb, Out &first, Out &again, Out &fresh, Bits &copy) {
    L l = load<L>(lb);
    R r = load<R>(rb);
    L c(l);
    L c2;
    c2 = l;
    apply<op, L, R, D>(l, r, first);
    first.l = read(l);
    first.r = read(r);
    copy = read(c);
    if (read(c2) != copy) copy = "!" + read(c2);
    // the copies take part in an operation of their own: they must not be tied to the original
    if (ref::is_compound(op)) {
        apply<op, L, R, D>(c, r, again);
        again.l = read(c);
    } else {
        apply<op, L, R, D>(l, r, again);
        again.l = read(l);
    }
    again.r = read(r);
    L x = load<L>(lb);
    R y = load<R>(rb);
    apply<op, L, R, D>(x, y, fresh);
    fresh.l = read(x);
    fresh.r = read(y);
}
template <Op op, typename L, typename D>
void call_pure_alias(const Bits &lb, const Bits &, Out &first, Out &again, Out &fresh, Bits &copy) {
    L a = load<L>(lb);
    L c(a);
    apply<op, L, L, D>(a, a, first);
    first.l = first.r = read(a);
    copy = read(c);
    L x = load<L>(lb), y = load<L>(lb);
    apply<op, L, L, D>(x, y, fresh);
    fresh.l = read(x);
    fresh.r = read(y);
    apply<op, L, L, D>(c, y, again);
    again.l = read(c);
    again.r = read(y);
}
template <Op op, typename L, typename R, typename D = R>
void pure() {
    pures().push_back({op, ty_of<L>(), ty_of<R>(), ty_of<D>(), call_pure<op, L, R, D>, false});
}
template <Op op, typename L, typename D = L>
void pure_alias() {
    pures().push_back({op, ty_of<L>(), ty_of<L>(), ty_of<D>(), call_pure_alias<op, L, D>, true});
}
template <Op op, typename L>
void alias() {
    all().push_back({op, ty_of<L>(), ty_of<L>(), {}, true, call_alias<op, L>});
}
}  // namespace ops

// C27: operands stay as they were, repetition and aliasing make no difference, copies are independent.
#include "engine.hh"
#include "gen.hh"
#include "ops.hh"
#include "selfupd.hh"
#include "text.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

// printing and parsing: a, something like a, something else, a again
static void text_history(Source &s, Case &c) {
    const auto &tx = ops::texts()[s.draw(ops::texts().size())];
    const int w = tx.t.w();
    auto &x2 = ops::texts()[s.draw(ops::texts().size())];  // of another type
    std::string first, again;
    c.nontrivial = true;
    const int how = s.chance(1, 2) ? 3 : 0;  // all texts in one buffer, or each in its own
    if (s.chance(1, 2)) {
        const Bits a = gen::value(s, tx.t, 25), b = gen::relative(s, a, tx.t.four), e = gen::value(s, x2.t, 25);
        auto fmt = [&](int n) {
            std::string f = s.chance(1, 3) ? (s.chance(1, 2) ? "0" : std::to_string(s.draw(80))) : "";
            return f + (n <= 128 ? "bohxdBOHXD"[s.draw(10)] : "bohxBOHX"[s.draw(8)]);
        };
        const std::string f = fmt(w), g = s.chance(1, 2) ? f : fmt(w), h = fmt(x2.t.w());
        c.label("printing");
        c.desc = "print " + Val{tx.t, a}.show() + " as " + f + "; " + msb_first(b) + " as " + g + "; " + Val{x2.t, e}.show() + " as " + h + "; the second again" + (how ? " (all formats in one buffer)" : "");
        tx.print(a, f, how);
        first = tx.print(b, g, how);
        x2.print(e, h, how);
        again = tx.print(b, g, how);
    } else {
        auto literal = [&](const Ty &t) {
            const char base = "bohd"[s.draw(4)];
            if (base == 'd') return "'d" + std::to_string(s.draw(0) >> s.draw(64));
            const Bits v = gen::value(s, t, 30);
            const int k = base == 'b' ? 1 : base == 'o' ? 3 : 4;
            std::string o;
            for (size_t i = 0; i < v.size(); i += k) {
                int d = 0;
                char u = 0;
                for (int j = 0; j < k && i + j < v.size(); j++) {
                    if (v[i + j] == 'x' || v[i + j] == 'z') u = v[i + j];
                    else d |= (v[i + j] - '0') << j;
                }
                o += u ? u : "0123456789abcdef"[d];
            }
            return std::string("'") + base + std::string(o.rbegin(), o.rend());
        };
        const std::string a = literal(tx.t), e = literal(x2.t);
        std::string b = a;
        const size_t i = 2 + s.draw(b.size() - 2);
        b[i] = b[i] == '0' ? '1' : '0';
        c.label("parsing");
        c.desc = "parse " + tx.t.name() + " " + a + "; " + b + "; " + x2.t.name() + " " + e + "; the second again" + (how ? " (all texts in one buffer)" : "");
        ops::Out o;
        tx.parse(a, how, o);
        o = {};
        tx.parse(b, how, o);
        first = o.b + o.bad;
        o = {};
        x2.parse(e, how, o);
        o = {};
        tx.parse(b, how, o);
        again = o.b + o.bad;
    }
    if (first != again) c.fail("the second evaluation depends on what came before\n  " + first + "\n  " + again);
}

static void run(Source &s, Case &c) {
    auto &v = ops::pures();
    auto &u = ops::self_updates();
    ops::deep = false;
    if (s.chance(1, 10)) return text_history(s, c);
    const size_t pick = s.draw(v.size() + u.size());
    if (pick >= v.size()) {  // a part of a vector written from the vector itself
        const auto &su = u[pick - v.size()];
        Bits b = gen::value(s, su.t, 40);
        const int w = su.t.w();
        int hi = s.draw(w), lo = s.range(0, hi);
        c.label(su.what);
        c.desc = std::string(su.what) + " of " + Val{su.t, b}.show() + " [" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
        Bits aliased = b, plain = b;
        su.fn(aliased, plain, hi, lo);
        c.nontrivial = lo > 0 && !is_zero(b);
        if (aliased != plain)
            c.fail("writing part of a vector from itself differs from writing it from an equal vector\n  from itself " +
                   msb_first(aliased) + "\n  from a copy " + msb_first(plain));
        return;
    }
    const auto &in = v[pick];
    const bool bin = is_binary(in.op);
    Val l{in.l, {}}, r{in.r, {}};
    r.b = gen::known(s, in.r.w());
    if (in.op == SHL || in.op == SHR || in.op == SHLA || in.op == SHRA || in.op == ASHR || in.op == ASHL) r.b = gen::amount(s, in.r.w(), in.l.w());
    Bits base = r.b;
    l.b = gen::known(s, in.l.w(), bin ? &base : nullptr, in.r.sgn);
    if (in.l.four) l.b = gen::unknown(s, l.b, 30);
    if (in.r.four) r.b = gen::unknown(s, r.b, 20);
    if (in.alias) r = l;
    c.label(in.alias ? std::string("aliased ") + op_name(in.op) : std::string(op_name(in.op)));
    c.desc = bin ? l.show() + "  " + op_name(in.op) + "  " + (in.alias ? "itself" : r.show()) : std::string(op_name(in.op)) + "  " + l.show();
    c.nontrivial = has_xz(l.b) || has_xz(r.b) || (!is_zero(l.b) && (!bin || !is_zero(r.b)));
    ops::Out first, again, fresh;
    Bits copy;
    in.fn(l.b, r.b, first, again, fresh, copy);
    const bool comp = is_compound(in.op);
    auto same = [&](const ops::Out &a, const ops::Out &b, const char *what) {
        if (a.b != b.b) c.fail(std::string(what) + "\n  " + msb_first(a.b) + "\n  " + msb_first(b.b));
    };
    for (auto *o : {&first, &again, &fresh})
        if (!o->bad.empty()) c.fail("result inconsistent between observers: " + o->bad);
    same(first, fresh, in.alias ? "aliased and separate operands give different results" : "used and fresh objects give different results");
    same(first, again, "repeated evaluation gives a different result");
    if (copy != l.b) c.fail("a copy changed to " + msb_first(copy));
    if (!comp) {
        if (first.l != l.b || again.l != l.b) c.fail("left operand changed to " + msb_first(first.l));
    } else {
        if (first.l != first.b) c.fail("left operand and the value of the expression differ");
        if (!first.ref_ok) c.fail("the operator did not return its left operand");
    }
    if (bin && !in.alias && (first.r != r.b || again.r != r.b)) c.fail("right operand changed to " + msb_first(first.r));
    if (bin && fresh.r != r.b) c.fail("right operand changed to " + msb_first(fresh.r));
    if (!s.chance(1, 2)) return;
    // history: operands much like these, then others, then the former again
    c.label("after others");
    const Bits l2 = s.chance(2, 3) ? gen::relative(s, l.b, in.l.four) : l.b;
    const Bits r2 = in.alias ? l2 : !bin ? r.b : s.chance(2, 3) ? gen::relative(s, r.b, in.r.four) : r.b;
    const Bits l3 = gen::value(s, in.l, 20), r3 = in.alias ? l3 : gen::value(s, in.r, 20);
    ops::Out before, after, x;
    auto eval = [&](const Bits &lb, const Bits &rb, ops::Out &o) {
        ops::Out a, b;
        in.fn(lb, rb, a, b, o, copy);
    };
    eval(l2, r2, before);
    eval(l3, r3, x);
    eval(l2, r2, after);
    if (before.b != after.b)
        c.fail(msb_first(l2) + "  " + op_name(in.op) + "  " + (bin ? msb_first(r2) : "") + " right after the above gives " + msb_first(before.b) +
               ", after " + msb_first(l3) + "  " + op_name(in.op) + "  " + (bin ? msb_first(r3) : "") + " it gives " + msb_first(after.b));
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C27";
    p.run = run;
    p.quick_cases = 900000;
    p.thorough_cases = 8000000;
    p.rule =
        "a case evaluates one operation twice on the same objects, once on fresh objects of the same value, or once with both "
        "operands being one object, or writes part of a vector from itself, or evaluates (prints, parses) similar operands, others and the similar ones again; results, operands and copies are compared; "
        "non-trivial: some operand bit is x/z or no operand is all zeros (for self writes: the part does not start at bit 0)";
    return pbt::run_main(argc, argv, p);
}

// C16: histories on packed arrays against a list of elements.
#include "arrays.hh"
#include "engine.hh"
#include "gen.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::arrs();
    const auto &proto = v[s.draw(v.size())];
    const int w = proto->w, n = proto->hi - proto->lo + 1, total = w * n;
    const bool four = proto->four;
    const Ty ety{four, w - 1, 0, false}, fty{four, total - 1, 0, false};
    auto o = proto->fresh();
    // the elements, lowest index first
    std::vector<Bits> m(n, Bits(w, four ? 'x' : '0'));
    auto split = [&](const Bits &flat) {
        for (int i = 0; i < n; i++) m[i] = flat.substr(i * w, w);
    };
    auto flat = [&](int from, int to, bool up) {  // elements [from..to]
        Bits b;
        for (int i = 0; i <= to - from; i++) b += m[up ? from + i : to - i];
        return b;
    };
    c.desc = std::string(four ? "logic" : "bit") + " " + std::to_string(n) + " x " + std::to_string(w) + " bits [" +
             std::to_string(proto->desc ? proto->hi : proto->lo) + ":" + std::to_string(proto->desc ? proto->lo : proto->hi) + "]:";
    c.label(four ? "four-state" : "two-state");
    c.label(proto->desc ? "descending" : "ascending");
    c.label(total > 64 ? "multiword" : "native");
    // where an element sits is only claimed for descending arrays
    auto agree = [&](const Bits &b, int from, int to) { return b == flat(from, to, true) || (!proto->desc && b == flat(from, to, false)); };
    const int start = proto->desc ? s.draw(3) : 0;
    if (start == 1) {
        Bits f = gen::value(s, fty, 50);
        c.desc += " from text " + msb_first(f);
        o->from_text(f);
        split(f);
    } else if (start == 2) {
        uint64_t x = s.draw(4) == 3 ? s.draw(0) : s.draw(1000);
        c.desc += " from " + std::to_string(x);
        o->from_int(x);
        split(from_u64(x, total));
    }
    auto index_value = [&](int i, Bits &ix) {
        ix = from_i64(i, proto->idx.w());
        return widen(ix, 64, proto->idx.sgn) == from_i64(i, 64);
    };
    auto check_elems = [&](const char *when) {
        for (int i = 0; i < n; i++) {
            Bits ix;
            if (!index_value(proto->lo + i, ix)) continue;
            Ty ty;
            Bits g = o->get(ix, ty);
            if (g != m[i]) c.fail(std::string(when) + ": element " + std::to_string(proto->lo + i) + " is " + msb_first(g) + "\n  expected " + msb_first(m[i]));
            if (ty.four != four) c.fail("element of the wrong state kind");
        }
        const std::string t = o->text();
        if (!agree(lsb_first(t), 0, n - 1)) c.fail(std::string(when) + ": the flat vector prints " + t + "\n  expected " + msb_first(flat(0, n - 1, true)));
    };
    check_elems("initially");
    const int steps = 1 + s.draw(8);
    int real = 0;
    bool outside = false;
    for (int k = 0; k < steps; k++) {
        switch (s.draw(10)) {
            case 0: case 1: case 2: case 3: {  // variable index: write or read
                Bits ix;
                bool inside = false;
                int i = 0;
                const int q = s.draw(10);
                if (q < 7) {
                    i = proto->lo + (int)s.draw(n);
                    if (!index_value(i, ix)) continue;
                } else if (q == 7) {
                    i = s.chance(1, 2) ? proto->hi + 1 + (int)s.draw(4) : proto->lo - 1 - (int)s.draw(4);
                    if (!index_value(i, ix)) continue;
                } else
                    ix = gen::known(s, proto->idx.w());
                ix = gen::unknown(s, ix, 10);
                const Ty it = proto->idx;
                if (!has_xz(ix)) {
                    const Bits t = widen(ix, 4096, it.sgn);
                    for (int e = 0; e < n; e++)
                        if (t == from_i64(proto->lo + e, 4096)) inside = true, i = proto->lo + e;
                }
                outside = outside || !inside;
                c.label(has_xz(ix) ? "x/z index" : inside ? "index inside" : "index outside");
                if (s.chance(2, 3)) {
                    const size_t vk = s.draw(proto->val.size());
                    const Bits b = gen::value(s, proto->val[vk], 35);
                    c.desc += "; [" + Val{it, ix}.show() + "] = " + Val{proto->val[vk], b}.show();
                    o->put(ix, vk, b);
                    if (inside) {
                        const Bits nb = zext(b, w);
                        real += nb != m[i - proto->lo];
                        m[i - proto->lo] = nb;
                    }
                    check_elems("after the write");
                } else {
                    c.desc += "; read [" + Val{it, ix}.show() + "]";
                    Ty ty;
                    const Bits g = o->get(ix, ty);
                    const Bits e = inside ? m[i - proto->lo] : Bits(w, four ? 'x' : '0');
                    if (g != e) c.fail("read " + msb_first(g) + "\n  expected " + msb_first(e));
                }
                break;
            }
            case 4: case 5: {  // compile-time element ranges
                if (proto->ranges.empty()) continue;
                const size_t rk = s.draw(proto->ranges.size());
                const int a = proto->ranges[rk].first, b = proto->ranges[rk].second;
                const int from = std::min(a, b) - proto->lo, to = std::max(a, b) - proto->lo;
                const std::string name = "<" + std::to_string(a) + "," + std::to_string(b) + ">";
                if (s.chance(1, 2)) {
                    c.desc += "; slice" + name;
                    c.label("slice");
                    Ty ty;
                    const Bits g = o->rslice(rk, ty);
                    if (!agree(g, from, to)) c.fail("slice" + name + " is " + msb_first(g) + "\n  expected " + msb_first(flat(from, to, true)));
                    if (ty.four != four) c.fail("slice of the wrong state kind");
                } else {
                    if (!proto->desc && from != to) continue;
                    const Bits val = gen::value(s, Ty{four, (to - from + 1) * w - 1, 0, false}, 35);
                    c.desc += "; update" + name + " = " + msb_first(val);
                    c.label("fixed-range write");
                    o->rput(rk, val);
                    for (int i = from; i <= to; i++) {
                        const Bits nb = val.substr((i - from) * w, w);
                        real += nb != m[i];
                        m[i] = nb;
                    }
                    check_elems("after the write");
                }
                break;
            }
            case 6: {  // copies are independent
                c.label("copy");
                auto o2 = o->clone();
                if (s.chance(1, 2)) {
                    auto o3 = o->fresh();
                    o3->assign(*o2);
                    o2 = std::move(o3);
                }
                Bits ix;
                if (!index_value(proto->lo, ix)) continue;
                size_t vk = 0;
                while (vk + 1 < proto->val.size() && proto->val[vk].w() != w) vk++;
                if (proto->val[vk].w() != w) continue;
                o2->put(ix, vk, Bits(w, m[0][0] == '1' ? '0' : '1'));
                c.desc += "; copy and write element " + std::to_string(proto->lo) + " of the copy";
                check_elems("after writing to a copy");
                break;
            }
            case 7: {  // the array used as a vector
                const Bits same = lsb_first(o->text());
                const int op = s.draw(ops::V_COUNT);
                Bits other = s.chance(1, 4) ? same : gen::value(s, fty, 25);
                c.desc += std::string("; array ") + ops::v_names[op] + " " + msb_first(other);
                c.label("used as a vector");
                ops::Out x, y;
                o->as_vector(op, same, other, x, y);
                if (x.b != y.b || !(x.ty == y.ty))
                    c.fail(std::string(ops::v_names[op]) + " of the array gives " + msb_first(x.b) + ", of the same vector " + msb_first(y.b));
                if (!x.bad.empty()) c.fail(x.bad);
                check_elems("after a non-modifying operation");
                break;
            }
            case 8: {  // modified as a vector
                if (!proto->desc) continue;
                c.label("modified as a vector");
                const Bits now = flat(0, n - 1, true);
                Bits then = now;
                const int op = s.draw(ops::B_COUNT + 1);
                if (op == ops::B_COUNT) {
                    const int at = s.draw(total);
                    const char ch = "01xz"[s.draw(2) + (four ? 2 : 0)];
                    c.desc += "; bit " + std::to_string(at) + " = " + ch;
                    o->set_bit(at, ch);
                    then[at] = ch;
                } else {
                    static const Op kind[] = {ANDA, ORA, XORA, PREINC, PREDEC};
                    const Bits other = gen::value(s, fty, 25);
                    c.desc += std::string("; ") + op_name(kind[op]) + " " + msb_first(other);
                    o->bump(op, other);
                    then = eval(kind[op], Val{fty, now}, Val{fty, other}).b;
                }
                real += then != now;
                split(then);
                check_elems("after a write to the whole vector");
                break;
            }
            default: {  // the flat vector seen by part-selects
                if (!proto->desc) continue;
                const int at = s.draw(total - w + 1);
                c.desc += "; flat part at " + std::to_string(at);
                Ty ty;
                const Bits g = o->flat_slice(at, ty);
                const Bits e = flat(0, n - 1, true).substr(at, w);
                if (g != e) c.fail("part-select is " + msb_first(g) + "\n  expected " + msb_first(e));
            }
        }
    }
    c.nontrivial = real > 0;
    if (outside) c.label("some index outside or unknown");
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C16";
    p.run = run;
    p.quick_cases = 400000;
    p.thorough_cases = 3000000;
    p.rule =
        "a case is a history of 1..8 element writes, reads, slices, fixed-range writes, operations on the array as a vector and copies on one packed array of a "
        "generated shape (index vectors of several types, inside, outside and x/z), all elements and the flat vector compared "
        "after each write; non-trivial: at least one write changes an element";
    return pbt::run_main(argc, argv, p);
}

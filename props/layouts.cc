// C18: histories of field and whole-object accesses on packed structs and unions.
#include "engine.hh"
#include "gen.hh"
#include "layout.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::layouts();
    const auto &proto = v[s.draw(v.size())];
    const int N = proto->size;
    const bool four = proto->four;
    auto o = proto->fresh();
    Bits m(N, four ? 'x' : '0');
    c.desc = std::string(four ? "four-state " : "two-state ") + (proto->is_union ? "union" : "struct") + " of " + std::to_string(N) + " bits:";
    c.label(four ? "four-state" : "two-state");
    c.label(proto->is_union ? "union" : "struct");
    c.label(N > 64 ? "multiword" : "native");
    auto check = [&](const char *when) {
        const Bits g = o->flat();
        if (g != m) c.fail(std::string(when) + ": object is " + msb_first(g) + "\n  expected " + msb_first(m));
        for (size_t f = 0; f < proto->fields.size(); f++) {
            const auto &fd = proto->fields[f];
            Ty ty;
            const Bits x = o->get(f, ty), e = m.substr(fd.lo, fd.hi - fd.lo + 1);
            if (x != e) c.fail(std::string(when) + ": field [" + std::to_string(fd.hi) + ":" + std::to_string(fd.lo) + "] reads " + msb_first(x) + "\n  expected " + msb_first(e));
            if (ty.four != four || ty.sgn) c.fail("field has type " + ty.name());
        }
    };
    if (proto->self != (Ty{four, N - 1, 0, false})) c.fail("the object has type " + proto->self.name() + ", not that of an unsigned vector of " + std::to_string(N) + " bits");
    check("fresh object");
    int real = 0;
    const int steps = 1 + s.draw(8);
    for (int k = 0; k < steps; k++) {
        const size_t f = s.draw(proto->fields.size());
        const auto &fd = proto->fields[f];
        const std::string name = "[" + std::to_string(fd.hi) + ":" + std::to_string(fd.lo) + "]";
        const int n = fd.hi - fd.lo + 1;
        const Bits before = m;
        switch (s.draw(9)) {
            case 7: {
                const Bits e = widen(m, proto->whole.w(), false);
                c.desc += "; whole read as " + proto->whole.name();
                c.label("whole read");
                const Bits g = o->get_whole();
                if (g != e) c.fail("read " + msb_first(g) + "\n  expected " + msb_first(e));
                break;
            }
            case 0: case 1: case 2: {
                const Bits b = gen::value(s, fd.ty, 40);
                const int how = s.draw(4);
                c.desc += "; " + name + " = " + Val{fd.ty, b}.show();
                o->set(f, how, b);
                m.replace(fd.lo, n, zext(b, n));
                check("after the field write");
                break;
            }
            case 3: {
                const Bits b = gen::value(s, proto->whole, 40);
                c.desc += "; whole = " + Val{proto->whole, b}.show();
                c.label("whole assignment");
                o->set_whole(b);
                m = widen(b, N, proto->whole.sgn);
                check("after the assignment");
                break;
            }
            case 4: {
                int64_t x = s.chance(1, 2) ? (int64_t)s.draw(0) : (int64_t)s.draw(200) - 100;
                c.desc += "; whole = " + std::to_string(x);
                o->set_int(x);
                m = from_i64(x, N);
                check("after the assignment");
                break;
            }
            case 5: {
                const Bits e = widen(m.substr(fd.lo, n), fd.ty.w(), false);
                c.desc += "; typed read " + name;
                const Bits g = o->get_typed(f);
                if (g != e) c.fail("read " + msb_first(g) + "\n  expected " + msb_first(e));
                int lo = 0, w = 0;
                const Bits p = o->get_part(f, lo, w), pe = m.substr(fd.lo + lo, w);
                if (p != pe) c.fail("part of the field reads " + msb_first(p) + "\n  expected " + msb_first(pe));
                break;
            }
            case 6: {
                const size_t from = s.draw(proto->fields.size());
                const auto &ff = proto->fields[from];
                const Bits src = m.substr(ff.lo, ff.hi - ff.lo + 1);
                c.desc += "; " + name + " = field [" + std::to_string(ff.hi) + ":" + std::to_string(ff.lo) + "]";
                c.label("field to field");
                o->copy_field(f, from);
                m.replace(fd.lo, n, zext(src, n));
                check("after the field copy");
                break;
            }
            default: {
                c.label("copy");
                auto d = o->clone();
                auto d2 = o->fresh();
                d2->assign(*o);
                const Bits b(fd.ty.w(), m[fd.lo] == '1' ? '0' : '1');
                d->set(f, 0, b);
                d2->set(f, 1, b);
                c.desc += "; copy and write " + name + " of the copy";
                check("after writing to a copy");
                Bits e = m;
                e.replace(fd.lo, n, zext(b, n));
                if (d->flat() != e || d2->flat() != e) c.fail("the copy is " + msb_first(d->flat()) + "\n  expected " + msb_first(e));
                o = std::move(d);  // go on with the copy
                m = e;
            }
        }
        real += before != m;
    }
    std::string bad;
    ops::deep = true;
    o->check(m, bad);
    if (!bad.empty()) c.fail(bad);
    c.nontrivial = real > 0;
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C18";
    p.run = run;
    p.quick_cases = 1000000;
    p.thorough_cases = 2500000;
    p.rule =
        "a case is a history of 1..8 field writes, field reads, field-to-field copies, whole-object assignments and reads and object "
        "copies on a packed struct (disjoint fields) or union (overlapping members) of a generated layout; the object and all "
        "fields are compared with one string after each step; non-trivial: at least one step changes the object";
    return pbt::run_main(argc, argv, p);
}

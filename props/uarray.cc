// C17: histories on unpacked arrays against a map.
#include "arrays.hh"
#include "engine.hh"
#include "gen.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::uarrs();
    const auto &proto = v[s.draw(v.size())];
    const Ty t = proto->elem;
    const Bits dflt(t.w(), t.four ? 'x' : '0');
    const int n = proto->hi - proto->lo + 1;
    struct Copy {
        std::unique_ptr<ops::UArr> o;
        std::vector<Bits> m;
    };
    std::vector<Copy> objs;
    objs.push_back({proto->fresh(), std::vector<Bits>(n, dflt)});
    c.desc = t.name() + " [" + std::to_string(proto->lo) + ".." + std::to_string(proto->hi) + "]:";
    c.label(t.four ? "four-state" : "two-state");
    auto all = [&] {
        const int rot = (int)s.draw(n);
        for (size_t q = 0; q < objs.size(); q++)
            for (int j = 0; j < n; j++) {
                const int i = (j + rot) % n;
                Bits g = objs[q].o->get(proto->lo + i);
                if (g != objs[q].m[i])
                    c.fail("array " + std::to_string(q) + " element " + std::to_string(proto->lo + i) + " is " + msb_first(g) + "\n  expected " + msb_first(objs[q].m[i]));
            }
    };
    // in half of the cases nothing at all is read before the first write, and elements are read in any order
    const bool early = s.chance(1, 2);
    if (!early) c.label("first read after a write");
    if (early) all();
    int real = 0;
    const int steps = 1 + s.draw(10);
    for (int k = 0; k < steps; k++) {
        const size_t q = s.draw(objs.size());
        auto &x = objs[q];
        switch (s.draw(6)) {
            case 0: case 1: case 2: {
                const size_t ck = s.draw(proto->cidx.size());
                const int i = proto->cidx[ck];
                const bool other = s.chance(1, 3);
                const Ty st = other ? proto->src : t;
                const Bits b = gen::value(s, st, 40);
                c.desc += "; " + std::to_string(q) + "[" + std::to_string(i) + "] = " + Val{st, b}.show();
                x.o->put(ck, other, b);
                if (i >= proto->lo && i <= proto->hi) {
                    Bits nb = widen(b, t.w(), st.sgn);
                    real += nb != x.m[i - proto->lo];
                    x.m[i - proto->lo] = nb;
                } else
                    c.label("write outside");
                all();
                break;
            }
            case 3: case 4: {
                int i;
                if (s.chance(1, 2)) i = proto->lo + (int)s.draw(n);
                else {
                    static const int far[] = {1, 2, 5, 64, 1000, 1 << 30, INT32_MAX};
                    int64_t d = far[s.draw(7)];
                    int64_t j = s.chance(1, 2) ? proto->hi + d : proto->lo - d;
                    i = (int)std::min<int64_t>(INT32_MAX, std::max<int64_t>(INT32_MIN, j));
                    c.label("read outside");
                }
                c.desc += "; read " + std::to_string(q) + "[" + std::to_string(i) + "]";
                const Bits e = i >= proto->lo && i <= proto->hi ? x.m[i - proto->lo] : dflt;
                const Bits g = x.o->get(i);
                if (g != e) c.fail("read " + msb_first(g) + "\n  expected " + msb_first(e));
                std::string bad;
                x.o->check(i, e, bad);
                if (!bad.empty()) c.fail(bad);
                break;
            }
            default: {
                c.label("copy");
                if (objs.size() < 3) {
                    auto o2 = x.o->clone();
                    auto m2 = x.m;
                    c.desc += "; copy " + std::to_string(q);
                    objs.push_back({std::move(o2), m2});
                } else {
                    const size_t to = s.draw(objs.size());
                    c.desc += "; " + std::to_string(to) + " = " + std::to_string(q);
                    objs[to].o->assign(*x.o);
                    auto m2 = x.m;
                    objs[to].m = m2;
                }
                all();
            }
        }
    }
    c.nontrivial = real > 0;
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C17";
    p.run = run;
    p.quick_cases = 1200000;
    p.thorough_cases = 4000000;
    p.rule =
        "a case is a history of 1..10 element writes, reads (inside and outside the range), copies and array assignments on up "
        "to three unpacked arrays of a generated shape, all elements compared with a map after each write; non-trivial: at "
        "least one write changes an element";
    return pbt::run_main(argc, argv, p);
}

// C12: histories of single-bit writes and reads against a map index -> bit.
#include "bitacc.hh"
#include "engine.hh"
#include "gen.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

static void run(Source &s, Case &c) {
    auto &v = ops::bit_objs();
    const auto &proto = v[s.draw(v.size())];
    const Ty t = proto->ty;
    const int w = t.w(), lo = std::min(t.msb, t.lsb), hi = std::max(t.msb, t.lsb);
    auto o = proto->fresh();
    Bits m(w, t.four ? 'x' : '0');
    c.desc = t.name() + ":";
    if (s.chance(2, 3)) {
        m = gen::value(s, t, 70);
        o->fill(m);
        c.desc += " " + msb_first(m);
    }
    c.label(t.four ? "four-state" : "two-state");
    c.label(t.desc() ? (t.lsb ? "offset range" : "zero-based") : "ascending");
    c.label(w > 64 ? "multiword" : "native");
    auto pos = [&](int i) { return t.desc() ? i - t.lsb : t.lsb - i; };
    auto some_index = [&] {
        if (s.chance(1, 3)) {  // around words and ends, counted from the LSB
            static const int mk[] = {0, 1, 7, 8, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129};
            int k = mk[s.draw(14)];
            if (w > 128 && s.chance(1, 2)) k = std::max(0, 64 * (int)s.draw(w / 64 + 1) + (int)s.draw(3) - 1);
            if (k >= w) k = w - 1 - s.draw(std::min(w, 3));
            return t.idx(k);
        }
        return lo + (int)s.draw(w);
    };
    auto outside = [&] {
        static const int far[] = {1, 2, 63, 64, 65, 128, 1 << 16, 1 << 30};
        int64_t d = s.chance(1, 2) ? far[s.draw(8)] : 1 + s.draw(200);
        if (s.chance(1, 4)) {  // an index in range, and a round distance from it
            static const int round[] = {64, 128, 256, 512, 1 << 15, 1 << 16, 1 << 24, 1 << 30};
            const int64_t i = lo + (int64_t)s.draw(w) + (s.chance(1, 2) ? 1 : -1) * (int64_t)round[s.draw(8)];
            if (i < lo || i > hi) return (int)i;
        }
        return (int)(s.chance(1, 2) ? hi + d : lo - d);
    };
    int writes = 0, unknown_writes = 0;
    auto chk_all = [&](const char *when) {
        const Bits g = o->all();
        if (g != m) c.fail(std::string(when) + ": bits are " + msb_first(g) + ", expected " + msb_first(m));
    };
    chk_all("initially");
    const int n = 1 + s.draw(12);
    for (int k = 0; k < n; k++) {
        char ch = t.four ? "01xz"[s.draw(4)] : "01"[s.draw(2)];
        switch (s.draw(8)) {
            case 0: case 1: case 2: {
                int i = s.chance(1, 10) ? outside() : some_index(), how = s.draw(3);
                c.desc += " set(" + std::to_string(i) + "," + ch + ")";
                o->write(how, i, ch);
                if (i < lo || i > hi) c.label("out-of-range write");
                else m[pos(i)] = ch;
                writes++;
                unknown_writes += ch > '1';
                chk_all("after the write");
                break;
            }
            case 3: case 4: {
                size_t k2 = s.draw(proto->cidx.size());
                int i = proto->cidx[k2];
                c.desc += " set<" + std::to_string(i) + ">(" + ch + ")";
                o->cwrite(s.draw(3), k2, ch);
                m[pos(i)] = ch;
                writes++;
                unknown_writes += ch > '1';
                chk_all("after the write");
                break;
            }
            case 5: {
                size_t k2 = s.draw(proto->cidx.size());
                int i = proto->cidx[k2];
                char g = o->cread(s.draw(2), k2);
                c.desc += " get<" + std::to_string(i) + ">";
                if (g != m[pos(i)]) c.fail(std::string("read ") + g + ", expected " + m[pos(i)]);
                break;
            }
            case 6: {
                if (s.chance(2, 3)) {
                    int i = some_index();
                    c.desc += " [" + std::to_string(i) + "]";
                    char g = o->rread(s.draw(2), i);
                    if (g != m[pos(i)]) c.fail(std::string("read ") + g + ", expected " + m[pos(i)]);
                } else {
                    const int i = outside();
                    c.desc += " [" + std::to_string(i) + "]";
                    c.label("out-of-range read");
                    char g = o->rread(0, i);
                    if (g != (t.four ? 'x' : '0')) c.fail(std::string("out-of-range read gave ") + g);
                }
                break;
            }
            default: {  // index held in a vector
                const bool four = t.four && s.chance(1, 2);
                const Ty it = four ? proto->lidx : proto->bidx;
                Bits ix;
                if (s.chance(2, 3)) {
                    int i = some_index();
                    // representable in the index type?
                    ix = from_i64(i, it.w());
                    Bits back = widen(ix, 4096, it.sgn);
                    if (back != from_i64(i, 4096)) continue;
                } else
                    ix = gen::known(s, it.w());
                if (four) ix = gen::unknown(s, ix, 12);
                Res e = eval(GETIDX, Val{t, m}, Val{it, ix});
                c.desc += " get(" + Val{it, ix}.show() + ")";
                c.label("vector index");
                char g = o->iread(four, ix);
                if (g != e.b[0]) c.fail(std::string("read ") + g + ", expected " + e.b);
            }
        }
    }
    std::string bad;
    ops::deep = true;
    o->check(m, bad);
    if (!bad.empty()) c.fail(bad + "; expected bits " + msb_first(m));
    c.nontrivial = writes >= 2 && (unknown_writes || !t.four);
    if (t.four && unknown_writes) c.label("x/z written");
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C12";
    p.run = run;
    p.quick_cases = 1000000;
    p.thorough_cases = 6000000;
    p.rule =
        "a case is a history of 1..12 single-bit writes and reads (run-time, compile-time and vector-valued indexes) on one "
        "vector of a generated declared range, compared after every step with a map from index to bit; non-trivial: at least "
        "two writes, one of them x or z if the vector is four-state";
    return pbt::run_main(argc, argv, p);
}

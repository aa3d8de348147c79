// C26: random programs over a typed register file against an interpreter of the reference model.
#include "engine.hh"
#include "gen.hh"
#include "machine.hh"

#include <cstring>
#include <map>
#include <sstream>

using namespace ref;
using pbt::Case;
using pbt::Source;

struct State {
    std::vector<Bits> v, pa, ua;
};

static Op op_by_name(const std::string &s) {
    static const std::map<std::string, Op> m = {
#define X(a, b) {#a, a},
        REF_OPS(X)
#undef X
    };
    auto it = m.find(s);
    if (it == m.end()) {
        fprintf(stderr, "bad model token %s\n", s.c_str());
        abort();
    }
    return it->second;
}
static Ty vec(bool four, int w, bool sgn) { return Ty{four, w - 1, 0, sgn}; }

struct Interp {
    const ops::MachineSpec &sp;
    State &st;
    bool unknown = false;  // an unknown value entered an expression

    // element of the packed array an index denotes, or -1
    int pidx(const Bits &b, const Ty &t) {
        if (has_xz(b)) return -1;
        const Bits w = widen(b, 4096, t.sgn);
        for (int e = 0; e < sp.en; e++)
            if (w == from_i64(sp.elo + e, 4096)) return e;
        return -1;
    }
    Val rpn(std::istream &in) {
        std::vector<Val> s;
        std::string t;
        auto pop = [&] {
            if (s.empty()) abort();
            Val v = s.back();
            s.pop_back();
            return v;
        };
        while (in >> t) {
            if (t == ";") break;
            if (t[0] == 'v') {
                const int i = atoi(t.c_str() + 1);
                s.push_back({sp.vars[i], st.v[i]});
            } else if (t.rfind("lit:", 0) == 0) {
                int w, sg, four, at;
                sscanf(t.c_str(), "lit:%d:%d:%d:%n", &w, &sg, &four, &at);
                s.push_back({vec(four, w, sg), zext(lsb_first(t.substr(at)), w)});
            } else if (t.rfind("elem:", 0) == 0) {
                const int i = atoi(t.c_str() + 5), e = pidx(st.v[i], sp.vars[i]);
                const int w = sp.elem.w();
                s.push_back({vec(sp.elem.four, w, sp.elem.sgn), e < 0 ? Bits(w, sp.elem.four ? 'x' : '0') : st.pa[e]});
            } else if (t.rfind("uelem:", 0) == 0) {
                const int i = atoi(t.c_str() + 6), w = sp.uelem.w();
                s.push_back({vec(sp.uelem.four, w, sp.uelem.sgn), i < sp.un ? st.ua[i] : Bits(w, sp.uelem.four ? 'x' : '0')});
            } else if (t.rfind("ext:", 0) == 0) {
                Val v = pop();
                const int w = atoi(t.c_str() + 4);
                s.push_back({vec(v.ty.four, w, v.ty.sgn), widen(v.b, w, v.ty.sgn)});
            } else if (t.rfind("sl:", 0) == 0) {
                Val v = pop();
                int hi, lo;
                sscanf(t.c_str(), "sl:%d:%d", &hi, &lo);
                s.push_back({vec(v.ty.four, hi - lo + 1, false), v.b.substr(lo, hi - lo + 1)});
            } else if (t == "lift" || t == "asbit") {
                Val v = pop();
                v.ty = vec(t == "lift", v.b.size(), v.ty.sgn);
                s.push_back(v);
            } else {
                const Op op = op_by_name(t);
                Val r = is_binary(op) ? pop() : Val{}, l = pop();
                if (!is_binary(op)) r = l;
                const Res o = eval(op, l, r);
                s.push_back({vec(l.ty.four || r.ty.four, o.b.size(), o.sgn), o.b});
            }
            unknown = unknown || has_xz(s.back().b);
        }
        if (s.size() != 1) abort();
        return s[0];
    }
    void store(int i, const Val &v) { st.v[i] = widen(v.b, sp.vars[i].w(), v.ty.sgn); }
};

static void run(Source &s, Case &c) {
    auto &all = ops::specs();
    const auto &sp = all[s.draw(all.size())];
    const int nv = sp.vars.size();
    auto m = sp.make();
    State st;
    for (auto &t : sp.vars) st.v.push_back(Bits(t.w(), t.four ? 'x' : '0'));
    st.pa.assign(sp.en, Bits(sp.elem.w(), sp.elem.four ? 'x' : '0'));
    st.ua.assign(sp.un, Bits(sp.uelem.w(), sp.uelem.four ? 'x' : '0'));
    c.desc = "machine " + std::to_string(&sp - all.data()) + " {";
    for (int i = 0; i < nv; i++) c.desc += (i ? ", v" : "v") + std::to_string(i) + " " + sp.vars[i].name();
    c.desc += ", pa " + std::to_string(sp.en) + " x " + sp.elem.name() + " from " + std::to_string(sp.elo) + ", ua " + std::to_string(sp.un) + " x " + sp.uelem.name() + "}";
    ops::deep = s.draw(8) == 7;
    auto compare = [&](int changed) {
        for (int i = 0; i < nv; i++) {
            std::string bad;
            const Bits g = m->var(i, i == changed || changed < 0 ? &bad : nullptr);
            if (g != st.v[i]) c.fail("v" + std::to_string(i) + " is " + msb_first(g) + "\n  expected " + msb_first(st.v[i]));
            if (!bad.empty()) c.fail("v" + std::to_string(i) + ": " + bad);
        }
        for (int i = 0; i < sp.en; i++)
            if (m->elem(i) != st.pa[i]) c.fail("pa[" + std::to_string(sp.elo + i) + "] is " + msb_first(m->elem(i)) + "\n  expected " + msb_first(st.pa[i]));
        for (int i = 0; i < sp.un; i++) {
            std::string bad;
            const Bits g = m->uelem(i, &bad);
            if (g != st.ua[i]) c.fail("ua[" + std::to_string(i) + "] is " + msb_first(g) + "\n  expected " + msb_first(st.ua[i]));
            if (!bad.empty()) c.fail("ua[" + std::to_string(i) + "]: " + bad);
        }
    };
    compare(-1);
    Interp ip{sp, st};
    int computed = 0, changes = 0;
    auto exec = [&](const ops::Step &step, bool allow_unknown) {
        ops::P p;
        std::istringstream in(step.model);
        std::string kind;
        in >> kind;
        int changed = -2;
        const State before = st;
        std::string note;
        if (kind == "LOAD") {
            int i;
            in >> i;
            const Ty &t = sp.vars[i];
            // values related to another variable make comparisons and boundary cases likely
            const int o = s.draw(nv + 1);
            const Bits *other = o < nv && known(st.v[o]) ? &st.v[o] : nullptr;
            Bits b = gen::known(s, t.w(), other, s.chance(1, 2));
            if (t.four && allow_unknown) b = gen::unknown(s, b, 25);
            p.text = "'b" + msb_first(b);
            note = p.text;
            st.v[i] = b;
            changed = i;
        } else if (kind == "INT") {
            int i;
            in >> i;
            p.num = (int64_t)to_u64(gen::known(s, 64));
            note = std::to_string(p.num);
            st.v[i] = widen(from_i64(p.num, 64), sp.vars[i].w(), true);
            changed = i;
        } else if (kind == "BIT") {
            int i;
            in >> i;
            const Ty &t = sp.vars[i];
            const int k = s.draw(t.w());
            p.i = t.idx(k);
            p.c = t.four && allow_unknown ? "0101xz"[s.draw(6)] : "01"[s.draw(2)];
            note = std::string("i=") + std::to_string(p.i) + " c=" + p.c;
            st.v[i][k] = p.c;
            changed = i;
        } else if (kind == "COMP") {
            std::string o, colon;
            int i;
            in >> o >> i >> colon;
            const Op op = op_by_name(o);
            const Val l{sp.vars[i], st.v[i]};
            const Val r = is_binary(op) ? ip.rpn(in) : l;
            st.v[i] = eval(op, l, r).b;
            changed = i;
            computed++;
        } else if (kind == "SET") {
            std::string colon;
            int i;
            in >> i >> colon;
            ip.store(i, ip.rpn(in));
            changed = i;
            computed++;
        } else if (kind == "PART") {
            std::string colon;
            int i, hi, lo;
            in >> i >> hi >> lo >> colon;
            const Val v = ip.rpn(in);
            st.v[i].replace(lo, hi - lo + 1, zext(v.b, hi - lo + 1));
            changed = i;
            computed++;
        } else if (kind == "ELEM") {
            std::string colon;
            int j;
            in >> j >> colon;
            const int e = ip.pidx(st.v[j], sp.vars[j]);
            const Val v = ip.rpn(in);
            if (e >= 0) st.pa[e] = zext(v.b, sp.elem.w());
            computed++;
        } else if (kind == "UELEM") {
            std::string colon;
            int j;
            in >> j >> colon;
            const Val v = ip.rpn(in);
            st.ua[j] = widen(v.b, sp.uelem.w(), v.ty.sgn);
            computed++;
        } else if (kind == "IF") {
            const Val cnd = ip.rpn(in);
            std::string t, colon;
            int i;
            in >> t >> i >> colon;
            if (nonzero(cnd.b)) {
                ip.store(i, ip.rpn(in));
                changed = i;
            }
            computed++;
        } else if (kind == "SWAP") {
            int a, b;
            in >> a >> b;
            std::swap(st.v[a], st.v[b]);
            changed = a;
        } else
            abort();
        c.desc += "\n  " + std::string(step.cxx) + (note.empty() ? "" : "  // " + note);
        step.fn(*m, p);
        changes += st.v != before.v || st.pa != before.pa || st.ua != before.ua;
        compare(changed);
    };
    // most variables get a known value first (the LOAD statements of every machine)
    std::vector<const ops::Step *> loads, rest;
    for (auto &x : sp.steps) (strncmp(x.model, "LOAD", 4) ? rest : loads).push_back(&x);
    const int unknowns = s.draw(3);  // 0: only known values are loaded
    for (auto *x : loads)
        if (s.draw(8) != 0) exec(*x, unknowns == 2);
    const int steps = 1 + s.draw(14);
    for (int k = 0; k < steps; k++) {
        if (s.draw(6) == 5) exec(*loads[s.draw(loads.size())], unknowns != 0);
        else exec(*rest[s.draw(rest.size())], unknowns != 0);
    }
    c.label(ip.unknown ? "with unknown bits" : "all known");
    c.label(steps <= 4 ? "1-4 steps" : steps <= 9 ? "5-9 steps" : "10-14 steps");
    c.nontrivial = computed >= 2 && changes >= 3;
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C26";
    p.run = run;
    p.quick_cases = 500000;
    p.thorough_cases = 3000000;
    p.rule =
        "a case is a program: loads of most of the nine variables of a generated register file (plus a packed and an unpacked "
        "array), then 1..14 generated statements (assignments of nested expressions, compound and part assignments, bit, "
        "element and conditional writes, swaps) with run-time parameters; all variables and elements are compared with the "
        "interpreter after every statement, the changed one through every observer; non-trivial: at least two statements "
        "compute something and at least three change the state";
    return pbt::run_main(argc, argv, p);
}

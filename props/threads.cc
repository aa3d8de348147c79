// C31: what several threads compute at the same time is what each would compute alone; under ThreadSanitizer.
#include <atomic>
#include <cstring>
#include <functional>
#include <thread>

#include "engine.hh"
#include "gen.hh"
#include "arrays.hh"
#include "threads.hh"

using namespace ref;
using pbt::Case;
using pbt::Source;

namespace {
struct Task {
    int kind;  // 0 operation, 1 print, 2 parse, 3 unpacked array, 4 packed array, 5 something done to a vector of its own
    std::function<std::string()> own;
    std::string own_show, own_label;
    const ops::UArr *ua = nullptr;
    const ops::Arr *pa = nullptr;
    int index = 0;
    bool write = false;
    size_t which = 0;
    Bits value;
    const ops::Conc *op = nullptr;
    const ops::Text *text = nullptr;
    const void *l = nullptr, *r = nullptr;
    std::string arg;
    std::string show() const {
        if (kind == 5) return own_show;
        if (kind >= 3) {
            std::string n = kind == 3 ? "unpacked array of " + ua->elem.name() : "packed array";
            const int lo = kind == 3 ? ua->lo : pa->lo, hi = kind == 3 ? ua->hi : pa->hi;
            n += " " + std::to_string(lo) + ".." + std::to_string(hi);
            if (write) n += " copied and written with " + msb_first(value) + (kind == 3 ? " at " + std::to_string(ua->cidx[which]) : "");
            return n + " read at " + std::to_string(index);
        }
        if (kind == 2) return text->t.name() + "(\"" + arg + "\")";
        if (kind == 1) return "str(" + arg + ") of " + op->l.name();
        return op->l.name() + " " + op_name(op->op) + " " + op->r.name();
    }
};
std::string exec(const Task &t) {
    ops::Out o;
    if (t.kind == 5) return t.own();
    if (t.kind == 3) {
        if (!t.write) return t.ua->get(t.index);
        auto own = t.ua->clone();
        own->put(t.which, false, t.value);
        return own->get(t.index) + "/" + own->get(t.ua->cidx[t.which]);
    }
    if (t.kind == 4) {
        Ty ty;
        const Bits i = from_i64(t.index, t.pa->idx.w());
        if (!t.write) return t.pa->get(i, ty);
        auto own = t.pa->clone();
        own->put(i, t.which, t.value);
        return own->get(i, ty) + "/" + own->text();
    }
    if (t.kind == 1) return t.op->print(t.l, t.arg);
    if (t.kind == 2) t.text->parse(t.arg, 0, o);
    else t.op->run(t.l, t.r, o);
    return o.b + "/" + o.l + "/" + (o.ty.sgn ? "s" : "u") + o.bad;
}
bool fits(const Ty &base, int v) { return widen(from_i64(v, base.w()), 64, base.sgn) == from_i64(v, 64); }
std::string told(const ops::Out &o) { return o.b + "/" + o.ty.name() + o.bad; }

// part-selects, concatenations, conversions, single bits, packed structs: on objects the task makes itself
void own_task(Source &s, Task &t) {
    using namespace ops;
    t.kind = 5;
    switch (s.draw(6)) {
        case 0: {
            const Sel *in = &sels()[s.draw(sels().size())];
            const int w = in->t.w(), lo = s.draw(w - in->n + 1);
            const Bits b = gen::value(s, in->t, 30);
            int a = in->a, e = in->b;
            if (in->form == F_RT) a = lo + in->n - 1, e = lo;
            if (in->form == F_INC) a = e = lo;
            if (in->form == F_DEC) a = e = lo + in->n - 1;
            if ((in->form == F_INC || in->form == F_DEC) && !fits(in->base, a)) {
                a = e = in->form == F_INC ? 0 : in->n - 1;
                if (!fits(in->base, a)) in = nullptr;
            }
            if (!in) break;
            t.own = [=] {
                Out o;
                in->fn(b, a, e, o);
                return told(o) + "/" + o.l;
            };
            t.own_show = in->t.name() + " part-select " + form_name(in->form);
            t.own_label = "part-select read";
            return;
        }
        case 1: {
            const Subject *sub = &subjects()[s.draw(subjects().size())];
            struct Step {
                const Write *w;
                Bits src;
                int a, b;
            };
            std::vector<Step> steps;
            const Ty ty = sub->proto->ty;
            const Bits init = gen::value(s, ty, 30);
            for (int k = 1 + s.draw(3); k--;) {
                const Write *w = &sub->writes[s.draw(sub->writes.size())];
                Step st{w, gen::value(s, w->src, 30), w->a, w->b};
                const int lo = s.draw(ty.w() - w->n + 1);
                if (w->form == F_RT || w->form == F_REF_RT) st.a = lo + w->n - 1, st.b = lo;
                if (w->form == F_REF_INC || w->form == F_REF_DEC) {
                    st.a = st.b = w->form == F_REF_INC ? lo : lo + w->n - 1;
                    if (!fits(w->base, st.a)) continue;
                }
                t.own_show += std::string(t.own_show.empty() ? "" : ", ") + form_name(w->form);
                steps.push_back(st);
            }
            t.own = [=] {
                auto o = sub->proto->fresh();
                o->fill(init);
                std::string all, bad;
                for (auto &st : steps) {
                    Bits after;
                    st.w->fn(*o, st.src, st.a, st.b, after);
                    all += o->bits() + "/" + after + "/";
                }
                o->check(o->bits(), bad);
                return all + bad;
            };
            t.own_show = ty.name() + " part writes " + t.own_show;
            t.own_label = "part-select write";
            return;
        }
        case 2: {
            const Cat *in = &cats()[s.draw(cats().size())];
            std::vector<Bits> v;
            for (auto &p : in->pieces) v.push_back(gen::value(s, p, 30));
            t.own_label = in->fn ? "concatenation of several" : "unpacking";
            t.own_show = t.own_label + " " + std::to_string(v.size());
            if (!in->fn) {
                const Bits src = gen::value(s, in->src, 30);
                t.own = [=] {
                    std::vector<Bits> out;
                    std::string all;
                    in->un(src, out, all);
                    for (auto &b : out) all += b + "/";
                    return all;
                };
                return;
            }
            const int how = s.draw(3);
            t.own = [=] {
                Out o;
                std::vector<Bits> after;
                in->fn(v, how, o, after);
                std::string all = told(o);
                for (auto &b : after) all += "/" + b;
                if (in->round) {
                    in->rt(v, after);
                    for (auto &b : after) all += "/" + b;
                }
                return all;
            };
            return;
        }
        case 3: {
            const IntConv *in = &intconvs()[s.draw(intconvs().size())];
            const int k = s.draw(12), how = s.draw(3);
            const uint64_t raw = s.draw(0);
            const Bits old = gen::value(s, in->t, 30);
            t.own = [=] {
                Out o;
                bool ref = true, has = false, sg = false, truth = false;
                in->from(k, raw, how, old, o, ref);
                uint64_t u = 0;
                int64_t n = 0;
                int nb = 0;
                char neg = 0;
                in->to(old, u, has, n, sg, nb, truth, neg);
                return told(o) + "/" + std::to_string(u) + "/" + std::to_string(n) + neg + (truth ? "t" : "f");
            };
            t.own_show = in->t.name() + " from " + int_kinds[k].name + " and back";
            t.own_label = "C++ integers";
            return;
        }
        case 4: {
            const BitObj *in = bit_objs()[s.draw(bit_objs().size())].get();
            struct Step {
                bool ct;
                int how, idx;
                size_t k;
                char c;
            };
            std::vector<Step> steps;
            const int lo = std::min(in->ty.msb, in->ty.lsb);
            const Bits init = gen::value(s, in->ty, 30);
            for (int k = 1 + s.draw(4); k--;)
                steps.push_back({s.chance(1, 2), (int)s.draw(2), lo + (int)s.draw(in->ty.w()), (size_t)s.draw(in->cidx.size()), (in->ty.four ? "01xz" : "0101")[s.draw(4)]});
            t.own = [=] {
                auto o = in->fresh();
                o->fill(init);
                std::string all;
                for (auto &st : steps) {
                    if (st.ct) o->cwrite(st.how, st.k, st.c), all += o->cread(st.how, st.k);
                    else o->write(st.how, st.idx, st.c), all += o->rread(st.how, st.idx);
                    all += o->all() + "/";
                }
                return all;
            };
            t.own_show = in->ty.name() + " " + std::to_string(steps.size()) + " single-bit writes";
            t.own_label = "single bits";
            return;
        }
        default: {
            const Layout *in = layouts()[s.draw(layouts().size())].get();
            const Bits whole = gen::value(s, in->whole, 30);
            const size_t f = s.draw(in->fields.size()), h = s.draw(in->fields.size());
            const int how = s.draw(4);
            const Bits val = gen::value(s, in->fields[f].ty, 30);
            t.own = [=] {
                auto o = in->fresh();
                o->set_whole(whole);
                std::string all = o->flat() + "/";
                o->set(f, how, val);
                Ty ty;
                all += o->flat() + "/" + o->get(h, ty) + "/" + o->get_typed(f);
                return all;
            };
            t.own_show = std::string(in->is_union ? "union" : "struct") + " of " + std::to_string(in->size) + " bits";
            t.own_label = "structs and unions";
            return;
        }
    }
    t.own = [] { return std::string(); };
    t.own_show = t.own_label = "nothing";
}
std::string literal(Source &s, int w) {
    const char base = "bohdBHO"[s.draw(7)];
    static const char *digits[] = {"01xz", "01234567xz", "0123456789abcdefxzXZABCDEF", "0123456789"};
    const char *d = digits[base == 'b' || base == 'B' ? 0 : base == 'o' || base == 'O' ? 1 : base == 'd' ? 3 : 2];
    int n = base == 'd' ? 1 + s.draw(18) : 1 + s.draw(w < 8 ? 8 : w / (d == digits[0] ? 1 : 3));
    std::string t = "'";
    t += base;
    while (n--) {
        t += d[s.draw(strlen(d))];
        if (s.draw(9) == 8) t += '_', t += d[s.draw(2)];
    }
    return t;
}
}  // namespace

static void run(Source &s, Case &c) {
    auto &v = ops::concs();
    auto &tx = ops::texts();
    const int threads = 2 + s.draw(3);
    // the operands, shared between the threads
    struct Pair {
        const ops::Conc *op;
        std::shared_ptr<void> l, r;
        std::string show;
    };
    std::vector<Pair> pool;
    const int np = 1 + s.draw(4);
    for (int i = 0; i < np; i++) {
        Pair p;
        p.op = &v[s.draw(v.size())];
        const bool shift = p.op->op >= SHL && p.op->op <= ASHL;
        Bits r = shift ? gen::amount(s, p.op->r.w(), p.op->l.w()) : gen::value(s, p.op->r, 20);
        Bits l = gen::value(s, p.op->l, 20);
        p.l = p.op->left(l);
        p.r = p.op->right(r);
        p.show = Val{p.op->l, l}.show() + " " + op_name(p.op->op) + " " + Val{p.op->r, r}.show();
        pool.push_back(p);
    }
    auto &uas = ops::uarrs();
    auto &pas = ops::arrs();
    std::unique_ptr<ops::UArr> ua = uas[s.draw(uas.size())]->clone();
    for (size_t k = 0; k < ua->cidx.size(); k++)
        if (s.chance(2, 3)) ua->put(k, false, gen::value(s, ua->elem, 20));
    std::unique_ptr<ops::Arr> pa = pas[s.draw(pas.size())]->clone();
    pa->from_text(gen::value(s, {(pa->hi - pa->lo + 1) * pa->w - 1, 0, false, pa->four}, 20));
    auto fmt = [&](const Ty &t) {
        std::string f = s.chance(1, 3) ? (s.chance(1, 2) ? "0" : std::to_string(s.draw(300))) : "";
        const char b = t.w() <= 128 ? "bohxdBOHXD"[s.draw(10)] : "bohxBOHX"[s.draw(8)];
        return f + b;
    };
    std::vector<std::vector<Task>> work(threads);
    for (auto &w : work) {
        const int n = 1 + s.draw(4);
        for (int i = 0; i < n; i++) {
            Task t;
            const Pair &p = pool[s.draw(pool.size())];
            t.op = p.op;
            t.l = p.l.get();
            t.r = p.r.get();
            const int k = s.draw(12);
            if (k >= 8) {
                own_task(s, t);
                w.push_back(t);
                continue;
            }
            t.kind = k < 6 ? k % 3 : k - 3;
            if (t.kind == 3) {
                t.ua = ua.get();
                t.index = s.chance(1, 3) ? ua->hi + 1 + s.draw(3) : ua->lo + s.draw(ua->hi - ua->lo + 1);
                t.write = s.chance(1, 3);
                t.which = s.draw(ua->cidx.size());
                t.value = gen::value(s, ua->elem, 20);
            }
            if (t.kind == 4) {
                t.pa = pa.get();
                t.index = s.chance(1, 4) ? pa->hi + 1 : pa->lo + s.draw(pa->hi - pa->lo + 1);
                t.write = s.chance(1, 3);
                t.which = s.draw(pa->val.size());
                t.value = gen::value(s, pa->val[t.which], 20);
            }
            if (t.kind == 1) t.arg = fmt(p.op->l);
            if (t.kind == 2) {
                t.text = &tx[s.draw(tx.size())];
                t.arg = literal(s, t.text->t.w());
            }
            w.push_back(t);
        }
    }
    ops::deep = s.chance(1, 4);
    const bool twins = s.chance(1, 3);  // all threads do the same
    if (twins)
        for (auto &w : work) w = work[0];
    for (auto &p : pool) c.desc += (c.desc.empty() ? "" : "; ") + p.show;
    for (int i = 0; i < threads; i++) {
        c.desc += "; thread " + std::to_string(i) + ":";
        for (auto &t : work[i]) {
            c.desc += " [" + t.show() + "]";
            c.label(t.kind == 0 ? op_name(t.op->op) : t.kind == 1 ? "printing" : t.kind == 2 ? "parsing" : t.kind == 3 ? "unpacked array" : t.kind == 4 ? "packed array" : t.own_label);
        }
    }
    c.label(std::to_string(threads) + " threads");
    if (twins) c.label("the same tasks in every thread");
    c.nontrivial = true;
    const bool parallel_first = s.chance(1, 2);  // state set up on first use: by whom?
    std::vector<std::vector<std::string>> alone(threads), together(threads);
    auto sequential = [&] {
        for (int i = 0; i < threads; i++)
            for (auto &t : work[i]) alone[i].push_back(exec(t));
    };
    if (!parallel_first) sequential();
    std::atomic<int> ready{0};
    std::vector<std::string> diff(threads);
    {
        std::vector<std::thread> th;
        for (int i = 0; i < threads; i++)
            th.emplace_back([&, i] {
                ready.fetch_add(1, std::memory_order_relaxed);  // no ordering between the threads
                while (ready.load(std::memory_order_relaxed) < threads) {}
                for (int round = 0; round < 3; round++)
                    for (size_t k = 0; k < work[i].size(); k++) {
                        std::string g = exec(work[i][k]);
                        if (!round) together[i].push_back(g);
                        else if (g != together[i][k]) diff[i] = work[i][k].show() + " gave " + together[i][k] + " and then " + g;
                    }
            });
        for (auto &t : th) t.join();
    }
    if (parallel_first) sequential();
    for (int i = 0; i < threads; i++) {
        if (!diff[i].empty()) c.fail("in thread " + std::to_string(i) + ": " + diff[i]);
        for (size_t k = 0; k < work[i].size(); k++)
            if (alone[i][k] != together[i][k])
                c.fail("thread " + std::to_string(i) + ": " + work[i][k].show() + " gave " + together[i][k] + ", alone " + alone[i][k]);
    }
}

int main(int argc, char **argv) {
    pbt::Property p;
    p.id = "C31";
    p.run = run;
    p.quick_cases = 12000;
    p.thorough_cases = 600000;
    p.rule =
        "a case is a schedule of 2 to 4 threads, each with 1 to 4 tasks (operations on operands shared between the threads, "
        "modifying operations on a private copy, printing, literal parsing, element access in arrays; part-selects, concatenations, integer conversions, single-bit and field accesses on objects of their own), executed three times in parallel without any ordering "
        "between the threads and once alone, under ThreadSanitizer; every case is non-trivial";
    p.segments = {1, 1, 1, 1, 1, 1, 1, 1, 24};  // state set up on first use: most processes start with a case that may be the first user
    p.assumptions = {"ThreadSanitizer sees the races of the library's own code and of the templates compiled with it"};
    return pbt::run_main(argc, argv, p);
}

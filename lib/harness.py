"""What each property's harness is made of: generated translation units + a runner."""
import glob, os, subprocess
import build
from build import VERIF, REPO, Builder
from machine import machines
from typegrid import T, Grid, spread, CORE, MORE, WORDS

ENGINE = ["engine.cc", "model.cc", "gen.cc"]


def library():
    return [(p, (), True) for p in sorted(glob.glob(REPO + "/src/*.cc"))]


class Stage:
    def __init__(self, pid, name, work, runner, calls, header="ops.hh", libs=("ops.cc",), flags=(), cxx=None, groups=8, env=None, run_flags=(), pre="", note="", wrap=()):
        self.pid, self.name, self.work, self.runner = pid, name, work, runner
        self.calls, self.header, self.libs, self.flags, self.cxx, self.groups = calls, header, libs, flags, cxx, groups
        self.env = env or {}
        self.instances = len(calls)
        self.run_flags = list(run_flags)
        self.pre = pre  # declarations emitted into every unit
        self.note, self.wrap = note, list(wrap)

    def cmd(self, exe):
        return self.wrap + [exe] + self.run_flags

    def replay_cmd(self, exe, path):
        return self.wrap + [exe, "--replay", path]

    def build(self):
        b = Builder(self.work, self.flags, self.cxx)
        units = []
        gs = spread(self.calls, self.groups)
        for i, g in enumerate(gs):
            p = os.path.join(self.work, "%s_%d.cc" % (self.name, i))
            with open(p, "w") as f:
                f.write('#include "%s"\n%s\nnamespace {\nusing namespace ref;\nusing namespace ops;\nstruct Reg {\n  Reg() {\n' % (self.header, self.pre))
                for c in g:
                    f.write("    " + c + "\n")
                f.write("  }\n} reg;\n}  // namespace\n")
            units.append((p, (), True))
        units.append((os.path.join(VERIF, "props", self.runner), ("-DPROP=" + self.pid,), True))
        for l in self.libs:
            units.append((os.path.join(VERIF, "lib", l), (), True))
        for l in ENGINE:
            units.append((os.path.join(VERIF, "lib", l), (), False))
        units += library()
        return b.build(units, os.path.join(self.work, self.name))


class FuzzStage(Stage):
    """coverage-guided: a libFuzzer target (clang); the wrapper fuzz/run.py translates its verdict"""

    def __init__(self, pid, name, work, target, runs, flags=(), max_len=160):
        super().__init__(pid, name, work, target, [])
        self.flags = ("-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all") + tuple(flags)
        self.runs, self.max_len = runs, max_len
        self.instances = 1

    def build(self):
        clang = "/usr/bin/clang++"
        if not os.path.exists(clang):
            self.skipped = "clang++ is not there"
            return None
        b = Builder(self.work, self.flags, clang)
        units = [(os.path.join(VERIF, "fuzz", self.runner), (), True), (os.path.join(VERIF, "lib", "model.cc"), ("-fno-sanitize=fuzzer",), False),
                 *library()]
        try:
            return b.build(units, os.path.join(self.work, self.name))
        except build.CompileError as e:
            self.skipped = "clang++ cannot compile it: " + str(e)[-300:]
            return None

    def cmd(self, exe):
        return ["python3", os.path.join(VERIF, "fuzz", "run.py"), exe, str(self.runs), str(self.max_len)]

    def replay_cmd(self, exe, path):
        return ["python3", os.path.join(VERIF, "fuzz", "run.py"), exe, "--replay", path]


def headers_compile(work):
    p = os.path.join(work, "headers.cc")
    with open(p, "w") as f:
        f.write('#include "logic/logic.hh"\n#include "logic/array.hh"\n#include "logic/struct.hh"\n#include "logic/union.hh"\n'
                "logic::logic<7, 0> a(1); logic::bit<100, 0> b(2);\n")
    r = subprocess.run([build.CXX, "-std=c++20", "-w", "-include", "cstdint", "-I" + REPO + "/include", "-fsyntax-only", p])
    return r.returncode == 0


BITWISE = ["AND", "OR", "XOR", "ANDA", "ORA", "XORA"]


def allowed(op, l, r):
    """is the operation offered for these operand types"""
    if l.four != r.four:
        if not l.four:
            return op in ("LT", "LE", "GT", "GE")
        return op not in ("ANDA", "ORA", "XORA", "SHLA", "SHRA", "ASHR", "ASSIGN", "CONSTRUCT")
    return True


def binop(op, l, r):
    return "bin<%s,%s,%s>();" % (op, l, r)


def unop(op, t):
    return "un<%s,%s>();" % (op, t)


def ops_for(opl, pairs):
    return [binop(op, l, r) for l, r in pairs for op in opl if allowed(op, l, r)]


def shift_pairs(g):
    r = g.r
    out = []
    for i, w in enumerate(g.widths()):
        for f in (True, False):
            for s in (False, True):
                aw = r.choice([1, 3, 5, 6, 7, 8, 9, 16, 31, 32, 33, 64]) if r.random() < 0.7 else r.choice([65, 66, 96, 128, 129, 200])
                if r.random() < 0.25:
                    aw = w
                out.append((T(w, s, f), T(aw, r.random() < 0.4, f)))
                if r.random() < (1 if g.thorough else 0.5):
                    out.append((T(w, s, f), T(r.choice([7, 8, 32, 64, 65, 130]), r.random() < 0.5, f)))
        if i % 2 == 0:
            out.append((T(w, i % 4 == 0, True), T(r.choice([6, 8, 32, 70]), r.random() < 0.4, False)))
    return [(g.odd_range(a) if r.random() < 0.08 else a, g.odd_range(b) if r.random() < 0.08 else b) for a, b in out]


def conversions(g):
    r = g.r
    calls = []
    widths = g.widths()
    for f in (True, False):
        for i, w in enumerate(widths):
            for s in (False, True):
                t = T(w, s, f)
                calls += [unop("SIGNED", t), unop("UNSIGNED", t), unop("COPY", t)]
                # widening and narrowing across the boundaries
                ts = {w, w + 1, r.choice([8, 9, 16, 31, 33]), r.choice([32, 63, 64]), r.choice([65, 66, 96, 127]), r.choice([128, 129, 192, 193, 256, 300]), g.width()}
                if not g.thorough:
                    ts = set(r.sample(sorted(ts), 4))
                # several words further, on and off the word boundaries
                if w >= 64 and (g.thorough or w % 64 == 0 or r.random() < 0.4):
                    ts.add((w + 63) // 64 * 64 + 64 * r.randint(2, 7) + r.choice([0, 0, -1, 1, r.randint(2, 62)]))
                for d in sorted(ts):
                    if d >= w or not f:
                        calls.append("ext<%s,%s>();" % (t, T(d, s, f)))
                    dt = T(d, r.random() < 0.5, f)
                    if r.random() < 0.1:
                        dt = g.odd_range(dt)
                    calls.append(binop("ASSIGN", dt, t))
                    if (not f) or s or d == w:
                        calls.append(binop("CONSTRUCT", dt, t))
                if f and i % 2 == 0:
                    # two-state into four-state of the same declared range
                    calls.append(binop("CONSTRUCT", T(w, r.random() < 0.5, True), T(w, s, False)))
    return calls


WIDER = ["WAND", "WOR", "WXOR", "WADD", "WSUB", "WMUL", "WDIV", "WMOD"]
QUERIES = ["POPCOUNT", "HIGHEST", "ANYSET", "ALLSET", "NEGATIVE", "MASKALL", "CLEAR", "MASKOFF", "NEGATEIP", "NEGATED"]


def model_calls(pid, g):
    r = g.r
    if pid == "C01":
        pairs = g.pairs(("ll", "bb", "lb"))
        return ops_for(BITWISE, pairs) + [unop("NOT", t) for t in g.unary_types(10 if g.thorough else 4)]
    if pid == "C02":
        return [unop(o, t) for t in g.unary_types(30 if g.thorough else 24, 0.3) for o in ("RAND", "RNAND", "ROR", "RNOR", "RXOR", "RXNOR")]
    if pid == "C03":
        return ops_for(["SHL", "SHR", "SHLA", "SHRA"], shift_pairs(g))
    if pid == "C04":
        return ops_for(["ASHR", "ASHL"], shift_pairs(g))
    if pid == "C05":
        calls = ops_for(["ADD", "SUB"], g.pairs(("ll", "bb", "lb")))
        for t in g.unary_types(10 if g.thorough else 5):
            calls += [unop(o, t) for o in ("NEG", "PLUS", "PREINC", "PREDEC")]
            if t.zero_based():  # the postfix forms are only offered for [n-1:0] vectors
                calls += [unop(o, t) for o in ("POSTINC", "POSTDEC")]
        return calls
    if pid == "C06":
        return ops_for(["MUL"], g.pairs(("ll", "bb", "lb")) + Grid(pid + "b", g.seed, g.thorough).pairs(("bb",)))
    if pid == "C07":
        return ops_for(["DIV", "MOD"], g.pairs(("ll", "bb", "lb")))
    if pid == "C08":
        return ops_for(["EQ", "NE", "MATCH", "NMATCH"], g.pairs(("ll", "bb", "lb")))
    if pid == "C09":
        return ops_for(["LT", "LE", "GT", "GE"], g.pairs(("ll", "bb", "lb", "bl")))
    if pid == "C11":
        return conversions(g)
    if pid == "C29":
        calls = []
        for l, rr in g.pairs(("ll", "bb"), 0.15):
            w = max(l.w, rr.w)
            ds = {w, w + 1, l.w + rr.w, r.choice([32, 33, 63, 64, 65, 66, 127, 128, 129, 192, 193, 256]), w + r.randint(1, 150)}
            ds = sorted(d for d in ds if d >= w)
            for op in WIDER if g.thorough else r.sample(WIDER, 5):
                for d in r.sample(ds, min(len(ds), 3 if g.thorough else 1)):
                    calls.append("wide<%s,%s,%s,%s>();" % (op, l, rr, T(d, False, l.four)))
        return calls
    if pid == "C30":
        calls = []
        for t in g.unary_types(40 if g.thorough else 32, 0.3):
            calls.append(unop("FRESH", t))
            if not t.four:
                calls += [unop(o, t) for o in QUERIES]
        return calls
    raise KeyError(pid)


REDUCE = ["RAND", "RNAND", "ROR", "RNOR", "RXOR", "RXNOR"]


def slice_bounds(r, w, n):
    """bounds (hi, lo) inside [w-1:0], biased to word boundaries"""
    out = []
    marks = [m for m in (0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, w - 1, w - 2) if 0 <= m < w]
    if w > 192:
        k = 64 * r.randint(3, w // 64)
        marks += [m for m in (k - 1, k, k + 1) if m < w]
    for _ in range(n):
        if w > 128 and r.random() < 0.2:  # whole words
            lo = r.randint(0, w // 64 - 1)
            hi = r.choice([lo, lo, r.randint(lo, w // 64 - 1)])
            out.append((64 * hi + 63, 64 * lo))
            continue
        a = r.choice(marks) if r.random() < 0.6 else r.randrange(w)
        b = r.choice(marks) if r.random() < 0.6 else r.randrange(w)
        out.append((max(a, b), min(a, b)))
    return out


def slc(t, hi, lo):
    return "slc<%s,logic::logic<%d,%d>>();" % (t, hi, lo)


def index_type(r, t, four):
    need = max(abs(t.msb), abs(t.lsb)).bit_length() + 1
    neg = min(t.msb, t.lsb) < 0
    if not neg and r.random() < 0.4:  # just wide enough: the top bit is part of the number
        return T(max(1, need - 1), False, four)
    return T(max(need, r.choice([1, 8, 16, 32, 64, 70])), neg or r.random() < 0.3, four)


def c10_calls(g):
    r = g.r
    calls = []
    for l, rr in g.pairs(("ll",)):
        opl = ["AND", "OR", "XOR"] + r.sample(["ADD", "SUB", "MUL", "DIV", "MOD", "EQ", "NE", "LT", "LE", "GT", "GE", "CONCAT", "ANDA", "ORA", "XORA", "ASSIGN"], 12 if g.thorough else 6)
        calls += ops_for(opl, [(l, rr)])
    for l, rr in g.pairs(("lb",)):
        calls += ops_for(r.sample(["AND", "OR", "XOR", "ADD", "EQ", "LT", "CONCAT"], 3), [(l, rr)])
    for l, rr in shift_pairs(g):
        if l.four:
            calls += ops_for(r.sample(["SHL", "SHR", "ASHR", "ASHL", "SHLA", "SHRA"], 3), [(l, rr)])
    for t in g.unary_types(None, 0.2):
        if not t.four:
            continue
        calls += [unop(o, t) for o in r.sample(REDUCE, 3) + ["NOT", "NEG", "LNOT"]]
        calls.append(binop("GETIDX", t, index_type(r, t, True)))
        calls.append("ext<%s,%s>();" % (t, T(t.w + r.choice([0, 1, 5, 64]), t.sgn, True)))
        if t.zero_based():
            calls += [slc(t, a, b) for a, b in slice_bounds(r, t.w, 2)]
    return calls


def rel(kind, op, l, rr, l2, r2, d=None, d2=None):
    return "rel<%s,%s,%s,%s,%s,%s,%s>(%d);" % (op, l, rr, d or rr, l2, r2, d2 or r2, kind)


def c24_calls(g):
    r = g.r
    nat = [w for w in CORE if w <= 64] + [3, 4, 5, 12, 15, 24, 40, 48, 62] + [r.randint(1, 64) for _ in range(20 if g.thorough else 10)]
    wide = [65, 66, 96, 127, 128, 129, 192, 193, 256, 257, 320, 512]
    calls = []
    low = BITWISE[:3] + ["ADD", "SUB", "MUL"]
    val = ["EQ", "NE", "MATCH", "LT", "LE", "GT", "GE", "DIV", "MOD"]
    for i, w in enumerate(nat):
        for s in (False, True):
            four = r.random() < 0.5
            w2 = w if r.random() < 0.6 else r.choice(nat)
            W = r.choice(wide) if r.random() < 0.7 else r.randint(max(65, w), 520)
            W2 = W if r.random() < 0.6 else r.choice(wide)
            l, rr = T(w, s, four), T(w2, s, four)
            L, RR = T(W, s, four), T(W2, s, four)
            for op in low + val:
                calls.append(rel(0, op, l, rr, L, RR))
            for op in r.sample(low + val, 15 if g.thorough else 3):  # only one of the operands beyond the word
                calls.append(rel(0, op, l, rr, *r.choice([(l, RR), (L, rr)])))
            mixed, MIXED = T(w2, not s, four), T(W2, not s, four)
            for op in r.sample(low, 2):
                calls.append(rel(0, op, l, mixed, L, MIXED))
            amt = T(r.choice([3, 6, 7, 8, 16, 64, 66]), r.random() < 0.3, four)
            for op in ("SHL", "SHR", "ASHR"):
                calls.append(rel(0, op, l, amt, L, amt))
            for op in ["NOT", "NEG"] + r.sample(["PREINC", "PREDEC", "POSTINC", "POSTDEC", "BOOL", "LNOT", "PLUS"], 7 if g.thorough else 3):
                calls.append(rel(0, op, l, l, L, L))
    return calls


def c25_calls(g):
    r = g.r
    calls = []
    binary = BITWISE + ["ADD", "SUB", "MUL", "DIV", "MOD", "EQ", "NE", "MATCH", "NMATCH", "LT", "LE", "GT", "GE", "CONCAT", "ASSIGN"]
    unary = REDUCE + ["NOT", "NEG", "PLUS", "PREINC", "PREDEC", "BOOL", "LNOT", "SIGNED", "UNSIGNED"]
    mixable = ["AND", "OR", "XOR", "SHL", "SHR", "ASHL", "ADD", "SUB", "MUL", "DIV", "MOD", "EQ", "NE", "MATCH", "NMATCH", "LT", "LE", "GT", "GE", "CONCAT"]
    n = 21 if g.thorough else 8
    for l, rr in g.pairs(("ll",)):
        lb, rb = l.like(four=False), rr.like(four=False)
        for op in r.sample(binary, n):
            calls.append(rel(0, op, lb, rb, l, rr))
        for op in r.sample(mixable, n - 2):
            calls.append(rel(1, op, l, rb, l, rr))
        for op in r.sample(["LT", "LE", "GT", "GE"], 2):
            calls.append(rel(2, op, lb, rr, l, rr))
    for l, rr in shift_pairs(g):
        if l.four and rr.four:
            for op in r.sample(["SHL", "SHR", "ASHR", "ASHL", "SHLA", "SHRA"], 2):
                calls.append(rel(0, op, l.like(four=False), rr.like(four=False), l, rr))
    for t in g.unary_types(6, 0.2):
        if not t.four:
            continue
        tb = t.like(four=False)
        for op in r.sample(unary, 15 if g.thorough else 7) + (["POSTINC", "POSTDEC"] if t.zero_based() else []):
            calls.append(rel(0, op, tb, tb, t, t))
        ix = index_type(r, t, True)
        calls.append(rel(0, "GETIDX", tb, ix.like(four=False), t, ix))
        calls.append(rel(1, "GETIDX", t, ix.like(four=False), t, ix))
        e = T(t.w + r.choice([0, 1, 7, 60]), t.sgn, True)
        calls.append(rel(0, "EXTEND", tb, tb, t, t, e.like(four=False), e))
        if t.zero_based():
            for a, b in slice_bounds(r, t.w, 1):
                d = T(a - b + 1, False, True, lsb=b)
                calls.append(rel(0, "SLICE", tb, tb, t, t, d, d))
    return calls


def c27_calls(g):
    r = g.r
    calls = []
    binary = BITWISE + ["ADD", "SUB", "MUL", "DIV", "MOD", "EQ", "NE", "MATCH", "NMATCH", "LT", "LE", "GT", "GE", "CONCAT", "FCONCAT", "ASSIGN", "SHL", "SHR", "SHLA", "SHRA", "ASHR", "ASHL"]
    unary = REDUCE + ["NOT", "NEG", "PLUS", "PREINC", "PREDEC", "BOOL", "LNOT", "SIGNED", "UNSIGNED", "COPY"]
    for l, rr in g.pairs(("ll", "bb")):
        for op in r.sample(binary, 12 if g.thorough else 4):
            calls.append("pure<%s,%s,%s>();" % (op, l, rr))
    for t in g.unary_types(5, 0.1):
        for op in r.sample(binary, 14 if g.thorough else 7):
            calls.append("pure_alias<%s,%s>();" % (op, t))
        for op in r.sample(unary, 4):
            calls.append("pure<%s,%s,%s>();" % (op, t, t))
        if t.zero_based() and t.w > 1:
            a, b = slice_bounds(r, t.w, 1)[0]
            b = max(1, b)
            calls.append("self_upd<%s,%d,%d>();" % (t, max(a, b), b))
            calls.append("pure<SLICE,%s,%s,logic::logic<%d,%d>>();" % (t, t, a, b))
    return calls


def c31_calls(g):
    r = g.r
    calls = []
    binary = BITWISE + ["ADD", "SUB", "MUL", "DIV", "MOD", "EQ", "NE", "MATCH", "NMATCH", "LT", "LE", "GT", "GE", "CONCAT", "FCONCAT", "ASSIGN", "SHL", "SHR", "SHLA", "SHRA", "ASHR", "ASHL"]
    unary = REDUCE + ["NOT", "NEG", "PLUS", "PREINC", "PREDEC", "BOOL", "LNOT", "SIGNED", "UNSIGNED", "COPY"]
    for l, rr in g.pairs(("ll", "bb")):
        for op in r.sample(binary, 8 if g.thorough else 2):
            calls.append("conc<%s,%s,%s>();" % (op, l, rr))
        if r.random() < 0.2 and l.zero_based() and rr.zero_based():
            calls.append("conc<%s,%s,%s,%s>();" % (r.choice(WIDER), l, rr, T(max(l.w, rr.w) + r.choice([0, 1, 7, 64]), False, l.four)))
    for t in g.unary_types(5, 0.1):
        for op in r.sample(unary, 2):
            calls.append("conc<%s,%s,%s>();" % (op, t, t))
        calls.append("conc<EXTEND,%s,%s,%s>();" % (t, t, T(t.w + r.choice([1, 30, 64, 65]), t.sgn, t.four)))
        if not t.four:
            calls.append("conc<%s,%s,%s>();" % (r.choice(["POPCOUNT", "ANYSET", "ALLSET", "NEGATIVE"]), t, t))
        calls.append("conc<GETIDX,%s,%s>();" % (t, index_type(r, t, t.four)))
        if t.zero_based() and t.w > 1:
            calls.append("conc<%s,%s,%s>();" % (r.choice(["POSTINC", "POSTDEC"]), t, t))
            a, b = slice_bounds(r, t.w, 1)[0]
            calls.append("conc<SLICE,%s,%s,logic::logic<%d,%d>>();" % (t, t, a, b))
    k = 3 if g.thorough else 1

    def some(cs, n):
        return r.sample(cs, min(len(cs), n * k))
    def sub(q):
        return Grid("C31" + q, g.seed, g.thorough)
    calls += some(text_calls(sub("t")), 24) + some(c17_calls(sub("u")), 16) + some(c16_calls(sub("p")), 8)
    calls += some(c13_calls(sub("s")), 30) + some(c14_groups(sub("w")), 6) + some(c15_calls(sub("c")), 16)
    calls += ["ints<%s>();" % t for t in some(sub("i").unary_types(20, 0.1), 12)]
    return calls + some(c12_calls(sub("b")), 8) + some(c18_calls(sub("l")), 8)


def c12_calls(g):
    r = g.r
    calls = []
    types = g.unary_types(40 if g.thorough else 16, 0.9 if g.thorough else 0.7)
    for t in types:
        if not g.thorough and t.zero_based() and r.random() < 0.4:
            continue
        lo, hi = min(t.msb, t.lsb), max(t.msb, t.lsb)
        ks = {0, t.w - 1} | {k for k in (63, 64, 31, 32, 127, 128, 1024) if k < t.w and r.random() < 0.6} | {r.randrange(t.w) for _ in range(2)}
        idx = [t.lsb + k if t.desc else t.lsb - k for k in sorted(ks)]
        calls.append("bitobj<%s,%s,%s,%s>();" % (t, index_type(r, t, True), index_type(r, t, False), ",".join(map(str, idx))))
    return calls


def base_type(r, w, four):
    """type of the base of an indexed select: at most 64 bits"""
    need = w.bit_length() + 1
    if r.random() < 0.4:  # just wide enough: the top bit is part of the number
        return T(max(1, (w - 1).bit_length()), False, four)
    sgn = r.random() < 0.3
    bw = r.choice([x for x in (need, 8, 16, 31, 32, 33, 64) if x >= need] or [need])
    return T(bw, sgn, four)


def part_widths(r, w, k):
    c = [x for x in (1, 2, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, w - 1, w) if 1 <= x <= w]
    out = set(r.sample(c, min(len(c), k)))
    out.add(r.randint(1, w))
    if w > 128 and r.random() < 0.4:  # whole words
        out.add(64 * r.choice([1, 1, r.randint(1, w // 64)]))
    return sorted(out)


def c13_calls(g):
    r = g.r
    calls = []
    for t in g.unary_types(30 if g.thorough else 18, 0):
        for a, b in slice_bounds(r, t.w, 6 if g.thorough else 3):
            if r.random() < 0.2:
                a, b = b, a
            calls.append("sel<%s,F_CT,%d,%d>();" % (t, a, b))
        for n in part_widths(r, t.w, 5 if g.thorough else 2):
            calls.append("sel<%s,F_RT,%d,0>();" % (t, n - 1))
            for f in ("F_INC", "F_DEC"):
                calls.append("sel<%s,%s,%d,0,%s>();" % (t, f, n - 1, base_type(r, t.w, r.random() < 0.5)))
    return calls


def c14_groups(g):
    """one string per subject: its registration must stay together"""
    r = g.r
    out = []
    types = g.unary_types(24 if g.thorough else 14, 0)
    types += [t.like(desc=False) for t in types if r.random() < 0.25]
    for t in types:
        c = ["subject<%s>();" % t]
        def src(n, equal):
            if equal:
                sw = n
            else:
                sw = r.choice([n, n, max(1, n - 1), n + 1, r.randint(1, n), n + r.choice([3, 40, 64]), r.choice([1, 8, 32, 64, 65, 128])])
            s = T(sw, r.random() < 0.4, t.four)
            return g.odd_range(s) if r.random() < 0.25 else s
        if t.desc:
            for a, b in slice_bounds(r, t.w, 5 if g.thorough else 2):
                if not t.four and r.random() < 0.2:
                    a, b = b, a
                c.append("wr<%s,%s,%s,%d,%d>();" % (t, src(abs(a - b) + 1, False), r.choice(["F_CT", "F_REF_CT"]), a, b))
            for n in part_widths(r, t.w, 3 if g.thorough else 1):
                c.append("wr<%s,%s,%s,%d,0>();" % (t, src(n, False), r.choice(["F_RT", "F_REF_RT"]), n - 1))
                c.append("wr<%s,%s,%s,%d,0,%s>();" % (t, src(n, False), r.choice(["F_REF_INC", "F_REF_DEC"]), n - 1, base_type(r, t.w, r.random() < 0.5)))
        else:
            if t.w == 1:
                continue
            for a, b in slice_bounds(r, t.w, 2) + [(t.w - 1, 0)]:
                if a == b:  # fixed one-bit writes of ascending vectors are not offered
                    continue
                c.append("wr<%s,%s,%s,%d,%d>();" % (t, src(a - b + 1, True), r.choice(["F_CT", "F_REF_CT"]), b, a))
            for n in part_widths(r, t.w, 1):
                c.append("wr<%s,%s,%s,%d,0>();" % (t, src(n, True), r.choice(["F_RT", "F_REF_RT"]), n - 1))
        out.append(" ".join(c))
    return out


def c15_calls(g):
    r = g.r
    calls = []

    def split(total, n):
        # cuts anywhere, or at (next to) whole words counted from the low end
        n = min(n, total)
        cut = set()
        for _ in range(200):
            if len(cut) >= n - 1:
                break
            c = r.randrange(1, total) if r.random() < 0.6 else total - r.choice([8, 16, 32, 64, 64, 64, 128, 192]) + r.choice([0, 0, 0, 1, -1])
            if 0 < c < total:
                cut.add(c)
        cut = sorted(cut)
        return [b - a for a, b in zip([0] + cut, cut + [total])]

    totals = [2, 3, 8, 9, 16, 31, 32, 33, 40, 63, 64, 65, 66, 96, 127, 128, 129, 130, 192, 193, 256, 257, 320]
    reps = 8 if g.thorough else 2
    edge = [1, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192]
    for a in edge:
        for b in edge:
            if not g.thorough and max(a, b) < 63 and r.random() < 0.5:
                continue
            for kind in ("lbm" if g.thorough else r.choice("lbm")):
                x, y = T(a, r.random() < 0.35, kind in "lm"), T(b, r.random() < 0.35, kind == "l")
                calls.append("%s<%s,%s>();" % ("cat_rt" if x.four == y.four else "cat", x, y))
                if g.thorough or r.random() < 0.3:
                    calls.append("unpk<%s,%s,%s>();" % (T(a + b, r.random() < 0.4, x.four and y.four), x, y))
    for total in totals + [r.randint(2, 400) for _ in range(reps * 8)]:
        for k in range(reps):
            for kind in ("l", "b", "m") if g.thorough else (("l", "b") if k else ("l", "m")):
                ws = split(total, r.choice([2, 2, 3, 4, 5, 6]))
                ts = [T(w, r.random() < 0.35, kind == "l" or (kind == "m" and (i == 0 or r.random() < 0.5))) for i, w in enumerate(ws)]
                rt = all(t.four for t in ts) or not any(t.four for t in ts)
                if r.random() < 0.15:
                    i = r.randrange(len(ts))
                    ts[i] = g.odd_range(ts[i])
                calls.append("%s<%s>();" % ("cat_rt" if rt else "cat", ",".join(map(str, ts))))
        for kind in ("l", "b", "m"):
            ws = split(total, r.choice([1, 2, 3, 4, 5, 6]))
            ts = [T(w, r.random() < 0.35, kind == "l" or (kind == "m" and r.random() < 0.5)) for w in ws]
            if r.random() < 0.15:
                i = r.randrange(len(ts))
                ts[i] = g.odd_range(ts[i])
            calls.append("unpk<%s,%s>();" % (T(total, r.random() < 0.4, kind == "l"), ",".join(map(str, ts))))
    return calls


def array_range(r, n, neg=True):
    k = r.random()
    lo = 0 if k < 0.5 else r.choice([1, 2, 5, 10]) if k < 0.85 or not neg else -r.randint(1, 4)
    return (lo + n - 1, lo) if r.random() < 0.7 else (lo, lo + n - 1)


def c16_calls(g):
    r = g.r
    calls = []
    shapes = [(w, n) for w in (1, 2, 4, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 128) for n in (r.choice([2, 3, 4]), r.choice([5, 7, 8, 10, 16])) if w * n <= 700]
    shapes += [(r.randint(1, 70), r.randint(1, 9)) for _ in range(60 if g.thorough else 24)]
    for w, n in shapes:
        four = r.random() < 0.6
        e = T(w, r.random() < 0.3, four)
        if r.random() < 0.15:
            e = g.odd_range(e)
        elem = str(e)
        if r.random() < 0.3 and w * n <= 100:  # nested: the element is itself an array
            inner = r.choice([2, 3, 4])
            elem = "logic::packed_array<%s,%d,0>" % (e, inner - 1)
            w *= inner
        hi, lo = array_range(r, n)
        need = max(abs(hi), abs(lo)).bit_length() + 1
        neg = min(hi, lo) < 0
        iw = r.choice([max(need, x) for x in (1, 3, 8, 16, 32, 33, 64, 65, 70, 128)])
        ix = T(iw, neg or r.random() < 0.3, True)
        vals = [T(w, False, four), T(w, True, four), T(r.choice([max(1, w - 1), w + 1, r.randint(1, w), w + 64]), r.random() < 0.3, four)]
        if r.random() < 0.4:
            vals[1] = T(w, r.random() < 0.5, four, lsb=r.choice([1, 3, 8]))
        mn = min(hi, lo)
        rs = set()
        for _ in range(3):
            a, b = mn + r.randrange(n), mn + r.randrange(n)
            a, b = max(a, b), min(a, b)
            rs.add((a, b) if hi >= lo else (b, a))
        rs = ",".join("R<%d,%d>" % x for x in sorted(rs))
        calls.append("parr<%s,%d,%d,%s,std::tuple<%s>,std::tuple<%s>>();" % (elem, hi, lo, ix, ",".join(map(str, vals)), rs))
    return calls


def c17_calls(g):
    r = g.r
    calls = []
    for w in g.widths(20 if g.thorough else 14):
        for four in (True, False):
            e = T(w, r.random() < 0.4, four)
            if r.random() < 0.15:
                e = g.odd_range(e)
            n = r.choice([1, 2, 3, 4, 5, 8, 12])
            hi, lo = array_range(r, n)
            a, b = min(hi, lo), max(hi, lo)
            idx = sorted({a, b} | {r.randint(a, b) for _ in range(2)}) + r.sample([a - 1, b + 1, a - 3, b + 7, b + 1000, -1 if a > 0 else b + 2], 2)
            src = T(r.choice([w, max(1, w - 1), w + 1, r.randint(1, w + 64)]), r.random() < 0.5, four)
            calls.append("uarr<%s,%d,%d,%s,%s>();" % (e, hi, lo, src, ",".join(map(str, idx))))
    return calls


def c18_calls(g):
    r = g.r
    calls = []
    sizes = [2, 8, 10, 16, 31, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, 192, 200, 256]
    sizes += [r.randint(2, 300) for _ in range(60 if g.thorough else 24)]
    for N in sizes:
        for uni in (False, True):
            four = r.random() < 0.6
            fs = []
            if uni:
                for i in range(r.choice([2, 3, 4])):
                    lo = 0 if r.random() < 0.7 else r.randrange(N)
                    hi = N - 1 if i == 0 else r.randint(lo, N - 1)
                    fs.append((hi, lo if i else 0))
            else:
                k = min(N, r.choice([1, 2, 3, 4, 6]))
                cut = sorted(r.sample(range(1, N), k - 1)) if k > 1 else []
                if r.random() < 0.5:  # a boundary at or next to a word
                    c = r.choice([31, 32, 63, 64, 65, 128])
                    if 0 < c < N and c not in cut:
                        cut = sorted(cut + [c])
                e = [0] + cut + [N]
                fs = [(b - 1, a) for a, b in zip(e, e[1:])]
            fl = []
            for hi, lo in fs:
                n = hi - lo + 1
                w = n if r.random() < 0.8 else max(1, n + r.choice([-1, 1, 5, 64]))
                fl.append("Fld<%d,%d,%s>" % (hi, lo, T(w, r.random() < 0.3, four)))
            whole = T(N if r.random() < 0.6 else r.choice([1, 8, 32, 64, 65, 128, N + 1]), r.random() < 0.4, four)
            calls.append("layout<logic::%s<%d,%s>,%s,%s,%s>();" % (
                "union_" if uni else "packed_struct", N, "true" if four else "false", "true" if uni else "false", whole, ",".join(fl)))
    return calls


def text_calls(g, top=None):
    if top:  # decimal: every width matters, only up to 128 bits
        ws = sorted(set(w for w in CORE + MORE if w <= top) | set(g.r.sample(range(1, top + 1), 100 if g.thorough else 40)))
    else:
        ws = g.widths(60 if g.thorough else 32)
    out = []
    for w in ws:
        for sgn in (False, True):
            for four in (True, False):
                t = T(w, sgn, four)
                if g.r.random() < 0.1:
                    t = g.odd_range(t)
                out.append("text<%s>();" % t)
    return out


SAN = ("-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer")
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=1"}


def c28_stages(g, seed, thorough, work, n):
    """the harnesses of the other properties, sanitized, with only undefined behaviour counting"""
    r = g.r
    out = []

    def some(calls, k):
        k *= 4 if thorough else 1
        return r.sample(calls, min(len(calls), k))

    def sub(q):
        return Grid("C28" + q, seed, thorough)

    def add(name, runner, calls, cases, header="ops.hh", libs=("ops.cc",), pre=""):
        env = dict(SANENV, PBT_UB="1", PBT_CASES=str(cases * (25 if thorough else 1)))
        note = "under AddressSanitizer and UndefinedBehaviorSanitizer, only undefined behaviour and non-termination count: "
        out.append(Stage("C28", name, work, runner, calls, header=header, libs=libs, flags=SAN, groups=n, env=env, pre=pre, note=note))

    calls = []
    for q in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C29 C30".split():
        calls += some(model_calls(q, sub(q)), 24)
    for t in g.unary_types(0, 0.2):
        calls += [unop("BOOL", t), unop("LNOT", t), unop("COPY", t)][:1 + r.randrange(3)]
        calls.append(binop("GETIDX", t, index_type(r, t, t.four)))
    for w in [1025, r.choice(WORDS[3:]), r.choice([1300, 2047, 2049])]:
        t = T(w, r.random() < 0.5, r.random() < 0.5)
        calls += [unop(o, t) for o in ("FRESH", "NOT", "NEG", r.choice(REDUCE))]
        calls += ops_for(["ADD", "SUB", "SHL", "SHR", "ASHR", "LT", r.choice(["AND", "OR", "XOR"]), r.choice(["MUL", "DIV", "MOD"])], [(t, t)])
    add("ops", "model_ops.cc", calls, 300000)
    add("pure", "pure.cc", some(c27_calls(sub("C27")), 60) + some(text_calls(sub("C27t")), 8), 100000, "pures.hh", ("ops.cc", "selfupd.cc", "text.cc"))
    add("bits", "bits.cc", some(c12_calls(sub("C12")), 24), 75000, "bitacc.hh", ("ops.cc", "bitacc.cc"))
    add("selects", "selects.cc", some(c13_calls(sub("C13")), 80), 100000, "parts.hh", ("ops.cc", "parts.cc"))
    add("writes", "writes.cc", some(c14_groups(sub("C14")), 30), 75000, "parts.hh", ("ops.cc", "parts.cc"))
    add("concat", "concat.cc", some(c15_calls(sub("C15")), 40), 75000, "concat.hh", ("ops.cc", "concat.cc"))
    add("packed", "parray.cc", some(c16_calls(sub("C16")), 16), 50000, "arrays.hh", ("ops.cc", "arrays.cc"))
    add("unpacked", "uarray.cc", some(c17_calls(sub("C17")), 16), 50000, "arrays.hh", ("ops.cc", "arrays.cc"))
    add("layouts", "layouts.cc", some(c18_calls(sub("C18")), 16), 50000, "layout.hh", ("ops.cc", "layout.cc"))
    add("ints", "ints.cc", some(["ints<%s>();" % t for t in sub("C23").unary_types(4, 0.1)], 24), 75000, "ints.hh", ("ops.cc", "ints.cc"))
    tc = some(text_calls(sub("C19")), 24)
    lib = ("ops.cc", "text.cc")
    add("literals", "literal.cc", tc, 75000, "text.hh", lib)
    add("bytes", "bytes.cc", tc, 75000, "text.hh", lib)
    add("formats", "format.cc", tc, 75000, "text.hh", lib)
    decl, calls = machines(sub("C26"), 8 if thorough else 2, 120)
    add("machine", "machine.cc", calls, 30000, "machine.hh", ("ops.cc", "machine.cc"), decl)
    # uninitialised storage: memcheck, with errors counted per case
    vg = ["valgrind", "-q", "--error-exitcode=0", "--leak-check=no", "--undef-value-errors=yes", "--track-origins=no"]

    def memcheck(name, runner, calls, cases, header="ops.hh", libs=("ops.cc",), pre=""):
        if not os.path.exists("/usr/bin/valgrind"):
            return
        out.append(Stage("C28", "memcheck-" + name, work, runner, calls, header=header, libs=libs, flags=("-ftrivial-auto-var-init=uninitialized",),
                         groups=n, env={"PBT_UB": "1", "PBT_CASES": str(cases * (25 if thorough else 1))}, pre=pre, wrap=vg,
                         note="under valgrind memcheck, only undefined behaviour and non-termination count: "))

    calls = []
    for w in [33, 64, 65, 129, r.choice([257, 320, 512]), 1025, r.choice([1100, 1300, 1536]), r.choice([2047, 2048, 2049])]:
        t, t2 = T(w, r.random() < 0.5, r.random() < 0.5), T(w, r.random() < 0.5, r.random() < 0.5)
        calls += [unop(o, t) for o in ("FRESH", "NOT", "NEG", "PREINC", r.choice(REDUCE), "COPY")]
        t2.four = t.four
        calls += ops_for(["ADD", "XOR", "SHL", "SHR", "EQ", "LT", "ASSIGN", r.choice(["MUL", "DIV"])], [(t, t2)])
        calls += ["ext<%s,%s>();" % (t, T(w + d, t.sgn, t.four)) for d in (1, 70)]
    memcheck("ops", "model_ops.cc", calls, 1000)
    decl, calls = machines(sub("C26v"), 6 if thorough else 2, 100)
    memcheck("machine", "machine.cc", calls, 800, "machine.hh", ("ops.cc", "machine.cc"), decl)
    memcheck("layouts", "layouts.cc", some(c18_calls(sub("C18v")), 12), 800, "layout.hh", ("ops.cc", "layout.cc"))
    memcheck("packed", "parray.cc", some(c16_calls(sub("C16v")), 12), 800, "arrays.hh", ("ops.cc", "arrays.cc"))
    memcheck("bytes", "bytes.cc", some(text_calls(sub("C19v")), 12), 800, "text.hh", lib)
    out.append(FuzzStage("C28", "libfuzzer", work, "literal_fuzz.cc", 6000000 if thorough else 60000, max_len=600 if thorough else 200))
    return out


def stages(pid, seed, thorough, work):
    g = Grid(pid, seed, thorough)
    n = 32 if thorough else 16
    if pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C29", "C30"):
        return [Stage(pid, "model", work, "model_ops.cc", model_calls(pid, g), groups=n)]
    if pid == "C10":
        return [Stage(pid, "xsound", work, "xsound.cc", c10_calls(g), groups=n)]
    if pid == "C24":
        return [Stage(pid, "seam", work, "rel.cc", c24_calls(g), groups=n)]
    if pid == "C25":
        return [Stage(pid, "kinds", work, "rel.cc", c25_calls(g), groups=n)]
    if pid == "C27":
        return [Stage(pid, "pure", work, "pure.cc", c27_calls(g) + g.r.sample(text_calls(g), 100 if g.thorough else 24), header="pures.hh", libs=("ops.cc", "selfupd.cc", "text.cc"), groups=n)]
    if pid == "C31":
        return [Stage(pid, "threads", work, "threads.cc", c31_calls(g), header="threads.hh", libs=("ops.cc", "text.cc", "arrays.cc", "threads.cc", "parts.cc", "concat.cc", "ints.cc", "bitacc.cc", "layout.cc"),
                      flags=("-fsanitize=thread", "-pthread"), env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}, groups=n)]
    if pid == "C12":
        return [Stage(pid, "bits", work, "bits.cc", c12_calls(g), header="bitacc.hh", libs=("ops.cc", "bitacc.cc"), groups=n)]
    if pid == "C13":
        return [Stage(pid, "selects", work, "selects.cc", c13_calls(g), header="parts.hh", libs=("ops.cc", "parts.cc"), groups=n)]
    if pid == "C14":
        return [Stage(pid, "writes", work, "writes.cc", c14_groups(g), header="parts.hh", libs=("ops.cc", "parts.cc"), groups=n)]
    if pid == "C15":
        return [Stage(pid, "concat", work, "concat.cc", c15_calls(g), header="concat.hh", libs=("ops.cc", "concat.cc"), groups=n)]
    if pid == "C16":
        return [Stage(pid, "packed", work, "parray.cc", c16_calls(g), header="arrays.hh", libs=("ops.cc", "arrays.cc"), groups=n)]
    if pid == "C17":
        return [Stage(pid, "unpacked", work, "uarray.cc", c17_calls(g), header="arrays.hh", libs=("ops.cc", "arrays.cc"), groups=n)]
    if pid == "C18":
        return [Stage(pid, "layouts", work, "layouts.cc", c18_calls(g), header="layout.hh", libs=("ops.cc", "layout.cc"), groups=n)]
    if pid in ("C19", "C20", "C21"):
        out = [Stage(pid, "text", work, "literal.cc" if pid == "C19" else "format.cc", text_calls(g, 128 if pid == "C21" else None), header="text.hh", libs=("ops.cc", "text.cc"), groups=n)]
        if pid == "C19":
            out.append(FuzzStage(pid, "libfuzzer", work, "literal_fuzz.cc", 8000000 if thorough else 150000, ("-DORACLE",), 500 if thorough else 200))
        return out
    if pid == "C22":
        calls = []
        for q in ("C01", "C03", "C04", "C05", "C06", "C07", "C11"):
            cs = model_calls(q, Grid(pid + q, seed, thorough))
            calls += g.r.sample(cs, min(len(cs), 400 if thorough else 70))
        for t in g.unary_types(6, 0.1):
            calls += [unop("NOT", t), binop("CONCAT", t, T(g.width(), g.r.random() < 0.5, t.four))]
            if t.zero_based():
                calls += [slc(t, a, b) for a, b in slice_bounds(g.r, t.w, 1)]
        return [Stage(pid, "roundtrip", work, "roundtrip.cc", text_calls(g), header="text.hh", libs=("ops.cc", "text.cc"), groups=n),
                Stage(pid, "printing", work, "printops.cc", calls, groups=n)]
    if pid == "C23":
        return [Stage(pid, "ints", work, "ints.cc", ["ints<%s>();" % t for t in g.unary_types(60 if thorough else 32, 0.1)], header="ints.hh", libs=("ops.cc", "ints.cc"), groups=n)]
    if pid == "C26":
        decl, calls = machines(g, 20 if thorough else 8, 200 if thorough else 140)
        return [Stage(pid, "machine", work, "machine.cc", calls, header="machine.hh", libs=("ops.cc", "machine.cc"), groups=n, pre=decl)]
    if pid == "C28":
        return c28_stages(g, seed, thorough, work, n)
    raise SystemExit("unknown property " + pid)

"""C26: random statements over a typed register file, as C++ text and as a program for the model."""
import random
from typegrid import T

BIN = ["AND", "OR", "XOR", "ADD", "SUB", "MUL", "DIV", "MOD", "EQ", "NE", "LT", "LE", "GT", "GE", "MATCH", "NMATCH", "SHL", "SHR", "ASHR", "ASHL", "CONCAT"]
CXX = {"AND": "&", "OR": "|", "XOR": "^", "ADD": "+", "SUB": "-", "MUL": "*", "DIV": "/", "MOD": "%", "EQ": "==", "NE": "!=", "LT": "<", "LE": "<=",
       "GT": ">", "GE": ">=", "SHL": "<<", "SHR": ">>"}
RED = {"RAND": "r_and", "RNAND": "r_nand", "ROR": "r_or", "RNOR": "r_nor", "RXOR": "r_xor", "RXNOR": "r_xnor"}
CMP = ("EQ", "NE", "LT", "LE", "GT", "GE", "MATCH", "NMATCH")
MAXW = 320


class E:
    """expression: C++ text, model program, type"""

    def __init__(self, c, m, w, sgn, four, zb=True):
        self.c, self.m, self.w, self.sgn, self.four, self.zb = c, m, w, sgn, four, zb


class Gen:
    def __init__(self, r, k):
        self.r, self.k = r, k
        ws = [1, 8, 16, 31, 32, 33, 63, 64, 65, 70, 100, 127, 128, 129, 192, 200]
        self.vars = []
        for i in range(9):
            w = r.choice(ws) if r.random() < 0.6 else r.randint(1, 140)
            t = T(w, r.random() < 0.5, r.random() < 0.65)
            if i >= 7:  # other declared ranges
                t = t.like(lsb=r.choice([0, 1, 3, 32]), desc=r.random() < 0.5)
            self.vars.append(t)
        # two of one type, for swaps and copies
        self.vars[1] = T(self.vars[0].w, self.vars[0].sgn, self.vars[0].four)
        self.ew, self.an = r.choice([1, 4, 8, 17, 32, 33, 64]), r.choice([2, 3, 4, 6])
        self.afour = r.random() < 0.7
        self.alo = r.choice([0, 0, 1, 4])
        self.uw, self.un = r.choice([5, 8, 64, 65, 90]), r.choice([2, 3, 5])
        self.ufour, self.usgn = r.random() < 0.6, r.random() < 0.5

    def decl(self):
        s = "struct M%d {\n" % self.k
        for i, t in enumerate(self.vars):
            s += "  %s v%d;\n" % (t, i)
        s += "  logic::packed_array<%s,%d,%d> pa;\n" % (T(self.ew, False, self.afour), self.alo + self.an - 1, self.alo)
        s += "  logic::unpacked_array<%s,%d,0> ua;\n" % (T(self.uw, self.usgn, self.ufour), self.un - 1)
        s += "  static std::vector<ref::Ty> types() { return {%s}; }\n" % ", ".join("ops::ty_of<%s>()" % t for t in self.vars)
        s += "  template <typename F> void each(F f) const { %s }\n" % " ".join("f(%d, v%d);" % (i, i) for i in range(len(self.vars)))
        s += "  static constexpr int elo = %d, en = %d, un = %d;\n};\n" % (self.alo, self.an, self.un)
        return s

    def leaf(self, four=None):
        c = [i for i, t in enumerate(self.vars) if four is None or t.four == four]
        r = self.r
        if not c or r.random() < 0.1:  # a constant
            f = four if four is not None else r.random() < 0.6
            w = r.choice([1, 4, 8, 32, 33, 64, 65, 90])
            s = r.random() < 0.4
            digs = "".join(r.choice("01xz" if f and r.random() < 0.2 else "01") for _ in range(r.randint(1, w)))
            t = T(w, s, f)
            return E('%s(std::string_view("\'b%s"))' % (t, digs), "lit:%d:%d:%d:%s" % (w, s, f, digs), w, s, f)
        if r.random() < 0.08 and (four is None or four == self.afour):
            idx = [i for i, t in enumerate(self.vars) if t.four]
            if idx:
                i = r.choice(idx)
                return E("m.pa[m.v%d]" % i, "elem:%d" % i, self.ew, False, self.afour)
        if r.random() < 0.06 and (four is None or four == self.ufour):
            i = r.randrange(self.un + 1)
            return E("m.ua[%d]" % i, "uelem:%d" % i, self.uw, self.usgn, self.ufour)
        i = r.choice(c)
        t = self.vars[i]
        return E("m.v%d" % i, "v%d" % i, t.w, t.sgn, t.four, t.zero_based())

    def wrapb(self, c, m):
        return E("b1(%s)" % c, m, 1, False, False)

    def unary(self, e):
        r = self.r
        k = r.random()
        if k < 0.18:
            return E("(~%s)" % e.c, e.m + " NOT", e.w, False, e.four, e.zb)
        if k < 0.32:
            return E("(-%s)" % e.c, e.m + " NEG", e.w, e.sgn, e.four, e.zb)
        if k < 0.45:
            op = r.choice(list(RED))
            c = "%s.%s()" % (e.c, RED[op])
            return E(c, e.m + " " + op, 1, False, True) if e.four else self.wrapb(c, e.m + " " + op)
        if k < 0.58:
            s = r.random() < 0.5
            return E("%s.%s()" % (e.c, "to_signed" if s else "to_unsigned"), e.m + (" SIGNED" if s else " UNSIGNED"), e.w, s, e.four, e.zb)
        if k < 0.7:
            n = e.w + r.choice([0, 1, 3, 32, 64])
            if not e.four and r.random() < 0.3:
                n = r.randint(1, e.w)
            if n <= MAXW:
                return E("%s.extend<%d>()" % (e.c, n), e.m + " ext:%d" % n, n, e.sgn, e.four)
        if k < 0.9 and e.zb:
            a, b = r.randrange(e.w), r.randrange(e.w)
            hi, lo = max(a, b), min(a, b)
            n = hi - lo + 1
            if r.random() < 0.5:
                return E("%s.slice<%d,%d>()" % (e.c, hi, lo), e.m + " sl:%d:%d" % (hi, lo), n, False, e.four)
            if r.random() < 0.8:
                return E("%s.slice<%d>(%d,%d)" % (e.c, n, hi, lo), e.m + " sl:%d:%d" % (hi, lo), n, False, e.four)
            return E("%s[%d]" % (e.c, lo), e.m + " sl:%d:%d" % (lo, lo), 1, False, e.four)
        if e.four:
            return E("(!%s)" % e.c, e.m + " LNOT", 1, False, True)
        return self.wrapb("!%s" % e.c, e.m + " LNOT")

    def lift(self, e):
        if not e.zb:
            e = E("%s.to_%s()" % (e.c, "signed" if e.sgn else "unsigned"), e.m, e.w, e.sgn, e.four)
        return E("%s(%s)" % (T(e.w, e.sgn, True), e.c), e.m + " lift", e.w, e.sgn, True)

    def binary(self, a, b):
        r = self.r
        for _ in range(20):
            op = r.choice(BIN)
            l, rr = a, b
            if not l.four and rr.four:
                if op not in ("LT", "LE", "GT", "GE"):
                    l, rr = rr, l
                    if r.random() < 0.4:
                        rr = self.lift(rr)
            if op == "CONCAT" and l.w + rr.w > MAXW:
                continue
            if op in ("ASHR", "ASHL") and l.four and not rr.four and op == "ASHR":
                rr = self.lift(rr)
            if op == "ASHR" and l.sgn and l.w > 64:  # the recorded finding
                continue
            if op in ("MUL", "DIV", "MOD") and max(l.w, rr.w) > 200:
                continue
            m = "%s %s %s" % (l.m, rr.m, op)
            w = max(l.w, rr.w)
            if op in CMP:
                c = "(%s %s %s)" % (l.c, CXX[op], rr.c) if op in CXX else "%s.%s(%s)" % (l.c, op.lower(), rr.c)
                if op in ("MATCH", "NMATCH") or not l.four:  # a C++ bool
                    return self.wrapb(c, m + " asbit")
                return E(c, m, 1, False, True)
            if op in ("SHL", "SHR", "ASHR", "ASHL"):
                c = "(%s %s %s)" % (l.c, CXX[op], rr.c) if op in CXX else "%s.%s(%s)" % (l.c, op.lower(), rr.c)
                s = r.random() < 0.5
                return E("%s.%s()" % (c, "to_signed" if s else "to_unsigned"), m + (" SIGNED" if s else " UNSIGNED"), l.w, s, l.four)
            if op == "CONCAT":
                s = r.random() < 0.4
                f = "logic::concat(%s, %s)" % (l.c, rr.c) if r.random() < 0.5 else "cat(%s, %s)" % (l.c, rr.c)
                return E("%s.%s()" % (f, "to_signed" if s else "to_unsigned"), m + (" SIGNED" if s else " UNSIGNED"), l.w + rr.w, s, l.four)
            return E("(%s %s %s)" % (l.c, CXX[op], rr.c), m, w, l.sgn and rr.sgn, l.four)
        return a

    def expr(self, depth, four=None):
        r = self.r
        if depth <= 0 or r.random() < 0.15:
            e = self.leaf(four)
        elif r.random() < 0.35:
            e = self.unary(self.expr(depth - 1, four))
        else:
            e = self.binary(self.expr(depth - 1, four), self.expr(depth - 1, four))
        if four is True and not e.four:
            e = self.lift(e)
        if four is False and e.four:
            return self.leaf(False)
        return e

    def statements(self, n):
        r = self.r
        out = []

        def add(c, m):
            out.append((c, m))

        for i, t in enumerate(self.vars):
            add("m.v%d = %s(p.text);" % (i, t), "LOAD %d" % i)
            add("m.v%d = p.num;" % i, "INT %d" % i)
            if t.four:
                add("p.c == 'x' ? m.v%d.set_x(p.i) : p.c == 'z' ? m.v%d.set_z(p.i) : m.v%d.set(p.i, p.c == '1');" % (i, i, i), "BIT %d" % i)
            else:
                add("m.v%d.set(p.i, p.c == '1');" % i, "BIT %d" % i)
            if t.zero_based():
                op = r.choice(["++", "--"])
                add("m.v%d%s;" % (i, op), "COMP %s %d :" % ("POSTINC" if op == "++" else "POSTDEC", i))
            op = r.choice(["++", "--"])
            add("%sm.v%d;" % (op, i), "COMP %s %d :" % ("PREINC" if op == "++" else "PREDEC", i))
        while len(out) < n:
            i = r.randrange(len(self.vars))
            t = self.vars[i]
            k = r.random()
            if k < 0.5:
                e = self.expr(r.choice([1, 2, 2, 3]), t.four)
                add("m.v%d = %s;" % (i, e.c), "SET %d : %s" % (i, e.m))
            elif k < 0.62:
                op, sym = r.choice([("ANDA", "&="), ("ORA", "|="), ("XORA", "^="), ("SHLA", "<<="), ("SHRA", ">>=")])
                e = self.expr(r.choice([0, 1]), t.four)
                add("m.v%d %s %s;" % (i, sym, e.c), "COMP %s %d : %s" % (op, i, e.m))
            elif k < 0.78 and t.zero_based():
                a, b = r.randrange(t.w), r.randrange(t.w)
                hi, lo = max(a, b), min(a, b)
                e = self.expr(r.choice([0, 1, 2]), t.four)
                q = r.randrange(4)
                c = ["m.v%d.update<%d,%d>(%s);", "m.v%d.slice_ref<%d,%d>() = %s;", "m.v%d.update(%d,%d,%s);", "m.v%d.slice_ref(%d,%d) = %s;"][q] % (i, hi, lo, e.c)
                add(c, "PART %d %d %d : %s" % (i, hi, lo, e.m))
            elif k < 0.83:
                idx = [j for j, x in enumerate(self.vars) if x.four]
                if not idx:
                    continue
                j = r.choice(idx)
                e = self.expr(r.choice([0, 1]), self.afour)
                add("m.pa.update(m.v%d, %s);" % (j, e.c), "ELEM %d : %s" % (j, e.m))
            elif k < 0.87:
                j = r.randrange(self.un)
                e = self.expr(r.choice([0, 1]), self.ufour)
                add("m.ua.update<%d>(%s);" % (j, e.c), "UELEM %d : %s" % (j, e.m))
            elif k < 0.92:
                cnd = self.expr(r.choice([0, 1]))
                e = self.expr(1, t.four)
                add("if (%s) m.v%d = %s;" % (cnd.c, i, e.c), "IF %s ; SET %d : %s" % (cnd.m, i, e.m))
            elif k < 0.95:
                add("auto t = m.v0; m.v0 = m.v1; m.v1 = t;", "SWAP 0 1")
            else:  # unpack a vector into temporaries, store one of them
                if not t.zero_based() or t.w < 2:
                    continue
                src = self.expr(1, t.four)
                if src.w < 2 or not src.zb:
                    continue
                cut = r.randint(1, src.w - 1)
                s1, s2 = T(src.w - cut, False, t.four), T(cut, False, t.four)
                hi = r.random() < 0.5
                add("%s a; %s b; const auto s = %s; s.unpack(a, b); m.v%d = %s;" % (s1, s2, src.c, i, "a" if hi else "b"),
                    "SET %d : %s sl:%d:%d" % ((i, src.m) + ((src.w - 1, cut) if hi else (cut - 1, 0))))
        return out


def machines(g, count, per):
    """(declarations, registration calls)"""
    decl = "using namespace ops;\n"
    calls = []
    for k in range(count):
        q = Gen(random.Random("%s/m%d" % (g.r.random(), k)), k)
        decl += q.decl()
        calls.append("machine<M%d>(%d);" % (k, k))
        for c, m in q.statements(per):
            calls.append('step<M%d>(%d, %s, %s, [](M%d &m, const P &p) { %s });' % (k, k, cstr(c), cstr(m), k, c))
    return decl, calls


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

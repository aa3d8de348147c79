"""Type grids: fixed boundary widths plus widths drawn from the seed."""
import random

CORE = [1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 192, 193, 256]
MORE = [3, 4, 5, 12, 15, 24, 40, 48, 62, 66, 72, 95, 97, 100, 120, 126, 130, 160, 191, 194, 255, 257, 300, 319, 320, 321, 383, 384, 448, 512, 513, 600]


WIDE = [700, 1000, 1023, 1025, 1500, 2047, 2049]
WORDS = [448, 512, 576, 640, 768, 1024, 2048]  # whole words


class T:
    """logic<msb,lsb,sgn> (four) or bit<...>"""

    def __init__(self, w, sgn=False, four=True, lsb=0, desc=True):
        self.w, self.sgn, self.four, self.desc = w, bool(sgn), bool(four), desc
        if desc:
            self.msb, self.lsb = lsb + w - 1, lsb
        else:
            self.msb, self.lsb = lsb, lsb + w - 1

    def cxx(self):
        return "logic::%s<%d,%d,%s>" % ("logic" if self.four else "bit", self.msb, self.lsb, "true" if self.sgn else "false")

    def key(self):
        return (self.four, self.msb, self.lsb, self.sgn)

    def like(self, **kw):
        d = dict(w=self.w, sgn=self.sgn, four=self.four, lsb=min(self.msb, self.lsb), desc=self.desc)
        d.update(kw)
        return T(**d)

    def zero_based(self):
        return self.desc and self.lsb == 0

    def __str__(self):
        return self.cxx()


# properties whose units compile fast: more widths on every change
RICH = {"C02", "C03", "C04", "C08", "C09", "C12", "C20", "C23", "C24", "C30", "C06", "C05", "C07"}


class Grid:
    def __init__(self, prop, seed, thorough):
        self.r = random.Random("%s/%s" % (prop, seed))
        self.seed, self.thorough = seed, thorough
        self.rich = prop in RICH

    def width(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return r.randint(1, 64)
        if k < 0.6:
            return r.randint(65, 128)
        if k < 0.7:
            return r.choice(MORE)
        return r.randint(65, 400)

    def widths(self, n=None):
        """CORE plus n others"""
        if n is None:
            n = 30 if self.thorough else 20 if self.rich else 10
        extra = []
        while len(extra) < n:
            w = self.r.choice(MORE) if self.r.random() < 0.5 else self.width()
            if w not in CORE and w not in extra:
                extra.append(w)
        if self.thorough:
            wide = self.r.sample(WIDE, 4) + self.r.sample(WORDS, 3)
        else:
            wide = [self.r.choice(WIDE[:3]), self.r.choice(WIDE[3:]), self.r.choice(WORDS[3:]) if self.rich else self.r.choice(WORDS)]
        return CORE + extra + [w for w in wide if w not in extra]

    def odd_range(self, t):
        """the same vector with another declared range"""
        k = self.r.randrange(4)
        if k == 0:
            return t.like(desc=False, lsb=0)
        if k == 1:
            return t.like(lsb=self.r.choice([1, 3, 5, 32, 60, 64]))
        if k == 2:
            return t.like(desc=False, lsb=self.r.choice([1, 2, 7, 63]))
        return t.like(lsb=-self.r.randint(1, 5))

    def unary_types(self, n=None, odd=0.15):
        out = []
        for w in self.widths(n):
            for s in (False, True):
                for f in (True, False):
                    t = T(w, s, f)
                    out.append(t)
                    if self.r.random() < odd:
                        out.append(self.odd_range(t))
        return out

    def pair_widths(self):
        """(same-width list, different-width list)"""
        r = self.r
        same = self.widths(None)
        diff = [(1, 8), (8, 1), (7, 9), (8, 16), (16, 9), (31, 33), (33, 32), (17, 64), (64, 63), (1, 65), (65, 1), (8, 128),
                (32, 65), (65, 32), (64, 65), (65, 64), (64, 128), (128, 64), (63, 129), (127, 128), (128, 127), (65, 129), (129, 96),
                (128, 192), (193, 128), (256, 65), (192, 256)]
        for _ in range(40 if self.thorough else 30 if self.rich else 12):
            a, b = self.width(), self.width()
            if a != b:
                diff.append((a, b))
        return same, diff

    def pairs(self, kinds=("ll", "bb"), odd=0.1):
        """operand type pairs; kinds: ll logic/logic, bb bit/bit, lb logic/bit, bl bit/logic"""
        r = self.r
        same, diff = self.pair_widths()
        out = []
        for i, w in enumerate(same):
            for ki, k in enumerate(kinds):
                combos = [(0, 0), (1, 1)]
                if self.thorough or self.rich or (i + ki) % 2 == 0:
                    combos.append((0, 1) if (i // 2) % 2 == 0 else (1, 0))
                if k in ("lb", "bl") and not self.thorough:
                    combos = combos[i % 2:i % 2 + 1]
                for a, b in combos:
                    out.append((T(w, a, k[0] == "l"), T(w, b, k[1] == "l")))
        for i, (a, b) in enumerate(diff):
            for ki, k in enumerate(kinds):
                sc = [(0, 0), (1, 1), (0, 1), (1, 0)]
                if not self.thorough:
                    j = (i + ki) % 4
                    sc = [(1, 1), sc[j]] if sc[j] != (1, 1) else [(1, 1)]
                    if k in ("lb", "bl"):
                        sc = sc[-1:]
                for x, y in sc:
                    out.append((T(a, x, k[0] == "l"), T(b, y, k[1] == "l")))
        res = []
        for a, b in out:
            if r.random() < odd:
                a = self.odd_range(a)
            if r.random() < odd:
                b = self.odd_range(b)
            res.append((a, b))
        return res


def spread(items, n):
    """n groups of similar size, keeping neighbours (same types) together"""
    k = (len(items) + n - 1) // n
    return [items[i:i + k] for i in range(0, len(items), k)]

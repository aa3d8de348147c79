#include "gen.hh"

#include <algorithm>

namespace gen {
using namespace ref;

Bits random_bits(Source &s, int w) {
    Bits r;
    r.reserve(w);
    for (int i = 0; i < w; i += 64) {
        int n = std::min(64, w - i);
        uint64_t v = s.draw(n == 64 ? 0 : 1ull << n);
        for (int k = 0; k < n; k++) r += '0' + ((v >> k) & 1);
    }
    return r;
}

static Bits plus_small(const Bits &b, int64_t d) { return add(b, from_i64(d, b.size())); }

Bits known(Source &s, int w, const Bits *other, bool osgn) {
    Bits b(w, '0');
    int k = s.draw(other ? 29 : 20);
    switch (k) {
        case 0: return b;
        case 1: b[0] = '1'; return b;
        case 2: return from_u64(s.draw(17), w);
        case 3: return Bits(w, '1');
        case 4: b = Bits(w, '1'); b[w - 1] = '0'; return b;
        case 5: b[w - 1] = '1'; return b;
        case 6: return from_i64(-(int64_t)s.draw(17), w);
        case 7: b[s.draw(w)] = '1'; return b;
        case 8: b = Bits(w, '1'); b[s.draw(w)] = '0'; return b;
        case 9: {  // run of ones
            int lo = s.draw(w), n = s.range(1, w - lo);
            for (int i = 0; i < n; i++) b[lo + i] = '1';
            return b;
        }
        case 10: {  // 2^k +- small
            b[s.draw(w)] = '1';
            return plus_small(b, (int64_t)s.draw(7) - 3);
        }
        case 11: {  // 64-bit word classes
            for (int i = 0; i < w; i += 64) {
                static const uint64_t c[] = {0, ~0ull, 1, 1ull << 63, 0xffffffffull, 0xffffffff00000000ull, 1ull << 32, ~1ull};
                int q = s.draw(10);
                uint64_t v = q < 8 ? c[q] : s.draw(0);
                for (int j = 0; j < 64 && i + j < w; j++) b[i + j] = '0' + ((v >> j) & 1);
            }
            return b;
        }
        case 12: {  // 8-bit chunk classes (also bytes for text)
            for (int i = 0; i < w; i += 8) {
                static const uint64_t c[] = {0, 0xff, 1, 0x80, 0x7f, 0x20};
                int q = s.draw(9);
                uint64_t v = q < 6 ? c[q] : s.draw(256);
                for (int j = 0; j < 8 && i + j < w; j++) b[i + j] = '0' + ((v >> j) & 1);
            }
            return b;
        }
        case 13: {  // random bit length
            int n = s.range(1, w);
            b = random_bits(s, n);
            b.resize(w, '0');
            return b;
        }
        case 14: {  // negative with random magnitude length
            int n = s.range(1, w);
            b = random_bits(s, n);
            b.resize(w, '1');
            return b;
        }
        case 15: {  // every word a function of the one before
            uint64_t v = s.chance(1, 2) ? s.draw(0) : s.chance(1, 2) ? 1ull << s.draw(64) : s.draw(17);
            for (int i = 0; i < w; i += 64) {
                for (int j = 0; j < 64 && i + j < w; j++) b[i + j] = '0' + ((v >> j) & 1);
                switch (s.draw(6)) {
                    case 0: break;
                    case 1: v = ~v; break;
                    case 2: v = 0 - v; break;
                    case 3: v = v << 1 | v >> 63; break;
                    case 4: v = 0; break;
                    default: v += 1;
                }
            }
            return b;
        }
        case 16: {  // the same offset in several words
            const int o = s.chance(1, 2) ? s.draw(64) : 63 * s.draw(2), step = s.chance(3, 4) ? 64 : 32;
            for (int i = o % step; i < w; i += step)
                if (s.chance(1, 2)) b[i] = '1';
            return b;
        }
        case 17: {  // whole words of ones, some of them cleared (mostly not the first and the last)
            const int n = (w + 63) / 64, from = s.draw(n), len = s.draw(n - from + 1);
            const bool run = s.chance(1, 2), ends = s.chance(3, 4);
            for (int i = 0; i < n; i++) {
                const bool one = ends && (i == 0 || i == n - 1) ? true : run ? i < from || i >= from + len : s.chance(1, 2);
                for (int j = i * 64; j < w && j < i * 64 + 64; j++) b[j] = '0' + one;
            }
            return b;
        }
        case 20: case 21: return widen(*other, w, osgn);
        case 22: return plus_small(widen(*other, w, osgn), s.chance(1, 2) ? 1 : -1);
        case 23: b = widen(*other, w, osgn); {
            auto &c = b[s.draw(w)];
            c = c == '0' ? '1' : '0';
            return b;
        }
        case 24: b = widen(*other, w, osgn); {
            for (auto &c : b) c = c == '0' ? '1' : '0';
            return b;
        }
        case 25: return neg(widen(*other, w, osgn));
        case 26: {  // multiple of the other, +- small
            Bits m = mul(widen(*other, w, osgn), random_bits(s, w));
            return plus_small(m, (int64_t)s.draw(3) - 1);
        }
        case 27: {  // shares whole words with the other
            b = widen(*other, w, osgn);
            for (int i = 0; i < w; i += 64) {
                const int q = s.draw(4);
                if (q < 2) continue;
                uint64_t v = q == 2 ? s.draw(0) : s.draw(3) - 1;
                for (int j = 0; j < 64 && i + j < w; j++) b[i + j] = '0' + ((v >> j) & 1);
            }
            return b;
        }
        case 28: {  // small multiple of the other
            Bits m = mul(widen(*other, w, osgn), from_u64(s.draw(20), w));
            return plus_small(m, (int64_t)s.draw(3) - 1);
        }
        default: return random_bits(s, w);
    }
}

Bits unknown(Source &s, Bits b, int percent) {
    if (!s.chance(percent, 100)) return b;
    const int w = b.size();
    auto xz = [&] { return s.chance(1, 2) ? 'z' : 'x'; };
    switch (s.draw(14)) {
        case 0: b[s.draw(w)] = 'x'; break;
        case 1: b[s.draw(w)] = 'z'; break;
        case 2: b = Bits(w, 'x'); break;
        case 3: b = Bits(w, 'z'); break;
        case 4: b[w - 1] = xz(); break;
        case 5: b[0] = xz(); break;
        case 6: {
            int n = s.range(2, 5);
            for (int i = 0; i < n; i++) b[s.draw(w)] = xz();
            break;
        }
        case 7: {  // a run
            int lo = s.draw(w), n = s.range(1, w - lo);
            char c = xz();
            for (int i = 0; i < n; i++) b[lo + i] = c;
            break;
        }
        case 8: {  // one 64-bit word
            int lo = 64 * s.draw((w + 63) / 64);
            Bits m = random_bits(s, w);
            for (int i = lo; i < w && i < lo + 64; i++)
                if (m[i] == '1') b[i] = xz();
            break;
        }
        case 9: {  // the same offset in several words
            const int o = s.draw(64), step = s.chance(3, 4) ? 64 : 32;
            const char c = xz();
            for (int i = o % step; i < w; i += step)
                if (s.chance(2, 3)) b[i] = c;
            if (!has_xz(b)) b[std::min(o, w - 1)] = c;
            break;
        }
        case 10: {  // two
            b[s.draw(w)] = xz();
            b[s.draw(w)] = xz();
            break;
        }
        default: {
            Bits m = random_bits(s, w), z = random_bits(s, w);
            for (int i = 0; i < w; i++)
                if (m[i] == '1') b[i] = z[i] == '1' ? 'z' : 'x';
        }
    }
    return b;
}

Bits amount(Source &s, int rw, int lw) {
    uint64_t v = 0;
    switch (s.draw(14)) {
        case 0: v = 0; break;
        case 1: v = 1; break;
        case 2: case 3: v = s.draw(lw); break;
        case 4: case 5: v = (uint64_t)std::max<int64_t>(0, (int64_t)lw - 2 + (int64_t)s.draw(5)); break;
        case 6: v = 62 + s.draw(5); break;
        case 7: v = 30 + s.draw(5); break;
        case 8: v = 126 + s.draw(5); break;
        case 9: v = (1ull << 32) + s.draw(4); break;
        case 10: v = 1ull << s.draw(64); break;
        case 11: {  // beyond 64 bits
            Bits b = from_u64(s.draw(4), rw);
            b[rw > 64 ? 64 + s.draw(rw - 64) : s.draw(rw)] = '1';
            return b;
        }
        case 12: return Bits(rw, '1');
        default: return known(s, rw);
    }
    if (rw < 64) v &= (1ull << rw) - 1;
    return from_u64(v, rw);
}

Bits concretize(Source &s, Bits b) {
    Bits m = random_bits(s, b.size());
    int k = s.draw(4);  // all 0, all 1, random
    for (size_t i = 0; i < b.size(); i++)
        if (b[i] == 'x' || b[i] == 'z') b[i] = k == 0 ? '0' : k == 1 ? '1' : m[i];
    return b;
}
Bits relative(Source &s, const Bits &b, bool four) {
    const size_t w = b.size(), words = (w + 63) / 64;
    Bits r = b;
    auto flip = [](char c) { return c == '0' ? '1' : c == '1' ? '0' : c == 'x' ? 'z' : 'x'; };
    switch (s.draw(four ? 6 : 5)) {
        case 0: {  // one bit
            const size_t i = s.draw(w);
            r[i] = flip(r[i]);
            break;
        }
        case 1: {  // all words but one (the lowest, or another one) become random
            const size_t keep = s.chance(1, 2) ? s.draw(words) : 0;
            const Bits n = known(s, w);
            for (size_t i = 0; i < w; i++)
                if (i / 64 != keep) r[i] = n[i];
            if (words == 1) r[w - 1] = flip(r[w - 1]);
            break;
        }
        case 2: {  // one word becomes zero or random
            const size_t k = s.draw(words);
            const bool zero = s.chance(1, 2);
            const Bits n = known(s, w);
            for (size_t i = k * 64; i < w && i < k * 64 + 64; i++) r[i] = zero ? '0' : n[i];
            break;
        }
        case 3:  // the same bits in another order
            r = b.substr(w > 64 ? 64 : w / 2) + b.substr(0, w > 64 ? 64 : w / 2);
            break;
        case 4: {  // the highest set bit goes, or a higher one comes
            size_t h = w;
            while (h && r[h - 1] == '0') h--;
            if (h && s.chance(1, 2)) r[h - 1] = '0';
            else r[h < w ? h + s.draw(w - h) : s.draw(w)] = '1';
            break;
        }
        default: {  // the same values with other unknown bits
            for (int n = 1 + s.draw(3); n--;) {
                const size_t i = s.draw(w);
                r[i] = r[i] == 'x' ? '0' : r[i] == 'z' ? '1' : r[i] == '0' ? 'x' : 'z';
            }
        }
    }
    return r;
}
}  // namespace gen

// Generators of operand values, biased to boundaries.  Draw 0 is the simplest choice everywhere.
#pragma once
#include "engine.hh"
#include "model.hh"

namespace gen {
using pbt::Source;
using ref::Bits;

Bits random_bits(Source &s, int w);
// a 0/1 vector; `other` (may be null) is a vector to correlate with, `osgn` its signedness
Bits known(Source &s, int w, const Bits *other = nullptr, bool osgn = false);
// sprinkle x/z over b; percent: how often anything is unknown at all
Bits unknown(Source &s, Bits b, int percent);
// shift amount of width rw for a value of width lw
Bits amount(Source &s, int rw, int lw);
// replace every x/z by a random 0/1
Bits concretize(Source &s, Bits b);
// something close to b that a partial comparison takes for b: some words kept, some changed
Bits relative(Source &s, const Bits &b, bool four);
// four-state value (or known if !four)
inline Bits value(Source &s, const ref::Ty &t, int percent, const Bits *other = nullptr, bool osgn = false) {
    Bits b = known(s, t.w(), other, osgn);
    return t.four ? unknown(s, b, percent) : b;
}
}  // namespace gen

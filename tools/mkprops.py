#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
            mechanism=[dict(name=n, where=w) for n,w in mech], observe_at=list(observe), hook_needed=None)))
L, B, N, U, A = ("include/logic/logic.hh","include/logic/bit.hh","include/logic/big_num.hh","src/util.cc","include/logic/array.hh")
UH, ST, UN = "include/logic/util.hh","include/logic/struct.hh","include/logic/union.hh"
ENC = ("value/xz_mask planes","xz_mask 0: value is the bit; xz_mask 1: value 0 is x, 1 is z","logic::value, logic::xz_mask in "+L)
HOLD = ("holder","machine integer up to 64 bits, array of 64-bit words above","util::get_holder_type in "+UH)

prop("C01","Bitwise operators follow the four-state truth tables",
 "For operands of any widths, signedness and four-state contents, &, |, ^, ~ and the forms &=, |=, ^= give bit for bit the IEEE 1800 truth-table result (z counts as x) over the operands widened to the larger width, each according to its own signedness (an x or z sign bit is replicated). The result is as wide as the wider operand and signed only if both operands are (~ is unsigned); a compound assignment keeps the left operand's width by truncation. Two-state vectors obey the same rules on 0/1.",
 ["inputs","configurations"],"all operand values in {0,1,x,z}^n, all width pairs on both sides of the 64-bit boundary, both signednesses, two- and four-state",
 "The tests use 1-bit tables and two zero-padded 120/140-bit examples; mixed widths with x/z, signed operands and compound forms are never run, and the value space is exponential.",
 [L,B,N],[("mask algebra for &,|,^,~",L+" operator&/operator|/operator^/operator~"),("word-wise operators",N),("widening",B+" extend")],["result bits, width and signedness"],[ENC,HOLD])
prop("C02","Reductions give the exact four-state verdict",
 "For every vector, and-, or-, xor-reduction and their inverted forms return what folding the corresponding four-state operator over all bits gives: a known 0 decides and-reduction and a known 1 decides or-reduction wherever they stand relative to x/z bits, and any x/z makes an xor-reduction x. Two-state vectors return the same verdict as a Boolean.",
 ["inputs","configurations"],"all values and widths, both signednesses, two- and four-state",
 "The tests use 4-bit examples only, with the deciding bit mostly below the unknown one; odd widths and multiword vectors are not reached.",
 [L,B,N],[("bit loops and popcount",L+" r_and/r_or/r_xor"),("two-state reductions",B+" r_and/r_or/r_xor/popcount; "+N+" r_and/r_xor")],["1-bit result"],[ENC])
prop("C03","Logical shifts move bits exactly and drop what falls off",
 "For every vector and every shift amount of any width, << and >> (and <<=, >>=) return a vector of the left operand's width whose bit i is the operand's bit at i minus/plus the amount, 0 where there is none, so an amount at or above the width gives all zeros; the amount is read as an unsigned number and the value's sign is ignored; the result is signed iff the operand is. If either operand holds an x or z bit the result is all x.",
 ["inputs","configurations"],"all values, all amounts including >= width, >= 64 and wider-than-64-bit amounts, all width pairs, signed and unsigned",
 "The tests use a handful of small in-range amounts on 20/32/120-bit values; amounts near the holder width, amounts wider than the value and the 64-bit boundary are untested.",
 [L,B,N],[("native shift with masking",B+" operator<< / operator>>"),("bit-loop shift",N+" operator<< / operator>>")],["result bits"],[HOLD])
prop("C04","Arithmetic shifts preserve the sign",
 "For every vector and amount, an arithmetic right shift of a signed vector fills vacated positions with the sign bit (all sign bits once the amount reaches the width), of an unsigned vector with zeros, and an arithmetic left shift equals the logical left shift. The amount is unsigned and the result signed iff the operand is; an x or z in either operand gives all x.",
 ["inputs","configurations"],"all values, amounts and widths, signed and unsigned, native and multiword",
 "Three examples exist; negative multiword values at other amounts, amounts at or above the width, and non-machine widths are untested.",
 [L,B,N],[("ashr/ashl",L+" ashr; "+B+" ashr; "+N+" ashr")],["result bits"],[HOLD])
prop("C05","Addition, subtraction, negation and ++/-- are modular",
 "For all widths and known values, +, -, unary - and prefix/postfix ++/-- give the mathematical result modulo 2^w, where w is the larger operand width and each operand is first widened by its own signedness; the result is signed only if both operands are. No carry survives beyond the declared width, in any later use of the result either. If any operand bit is x or z the result is all x.",
 ["inputs","configurations"],"all values, width pairs, signedness combinations; two- and four-state",
 "The tests add a few small numbers and two all-ones patterns; wrap-around at widths that are not machine widths, carries across words and signed overflow are never sampled.",
 [L,B,N],[("carry chain",N+" operator+"),("native add",B+" operator+ / operator- / operator++"),("x gate",L+" operator+ / operator-")],["result bits","integer value of the result"],[HOLD])
prop("C06","Multiplication is exact modulo 2^w",
 "For all widths and known values, * gives the mathematical product modulo 2^w of the operands widened by their own signedness to the larger width w, whatever the magnitude of the operands, and touches nothing else. The result is signed only if both operands are; any x or z operand bit gives all x.",
 ["inputs","configurations"],"all values (both halves of every 64-bit word populated or empty), width pairs and signedness",
 "One 300-bit product and three small ones are tested; partial products past the top word and the fast-path boundary are not.",
 [L,B,N],[("fast path / schoolbook product",N+" operator*"),("native multiply",B+" operator*")],["result bits","integer value"],[HOLD])
prop("C07","Division and remainder truncate toward zero and never crash",
 "For all widths and known values with a nonzero divisor, / and % satisfy a = (a/b)*b + a%b with the quotient truncated toward zero and the remainder taking the dividend's sign when both operands are signed, and unsigned division otherwise, modulo 2^w. A zero divisor (or any x/z bit) gives all x in four-state vectors and zero in two-state ones; no operand pair stops the program.",
 ["inputs","configurations"],"all values including 0, 1, equal operands, the most negative value and -1; all widths and signedness",
 "Six positive examples are tested; zero divisors, negative operands, most-negative / -1 and divisors near the dividend are not.",
 [L,B,N],[("long division",N+" div_mod / div_mod_unsigned / highest_bit"),("native divide",B+" operator/ operator%"),("zero gate",L+" operator/ operator%")],["result bits","process survival"],[HOLD])
prop("C08","Equality and case equality are exact",
 "For all vectors, == and != compare the full values widened to the larger width by their own signedness and return x as soon as either side holds an x or z; match/nmatch (===, !==) always return a definite answer that is true exactly when every widened bit, including x and z, is identical. == and != are always each other's complement when known.",
 ["inputs","configurations"],"all pairs of values, especially pairs differing in one bit anywhere, all width pairs, signedness, two- and four-state",
 "The tests compare a few small constants; a difference confined to high bits, to one word, or beyond the narrower operand is not sampled.",
 [L,B,N],[("native compare",B+" operator=="),("word compare",N+" operator=="),("plane compare",L+" match / operator==")],["1-bit result"],[ENC,HOLD])
prop("C09","Relational operators form the correct total order",
 "For all known vectors, <, <=, >, >= order the operands as integers: as two's complement when both are signed, otherwise as unsigned numbers after each is widened to the larger width by its own signedness. Exactly one of <, ==, > holds, and any x or z bit on either side gives x (false when compared through a two-state left operand).",
 ["inputs","configurations"],"all pairs, especially adjacent values, equal values, sign boundary and most-negative values; all width pairs and signedness",
 "The tests hold about ten comparisons; mixed widths across the 64-bit boundary, equal negative numbers and most-negative values are not run.",
 [L,B,N],[("native compare",B+" operator> ..."),("word compare with sign rule",N+" operator>")],["1-bit result"],[HOLD])
prop("C10","Unknown bits are never resolved optimistically",
 "For every four-state operation, replacing any x or z operand bits by any 0/1 choice yields a result that agrees with the original result on every bit the original reported as known (division by zero, whose result is unknown, aside). Fully known operands give a fully known result for every operation except division or remainder by zero.",
 ["inputs","configurations"],"all four-state operands and all concretizations of their unknown bits, over bitwise, reduction, shift, arithmetic, comparison, select and concat operations",
 "A metamorphic relation over pairs of runs; the tests check single results on fixed operands.",
 [L],[("x gates",L+" any_set() guards"),("mask algebra",L)],["known bits of the result"],[ENC])
prop("C11","Widening, narrowing and sign reinterpretation keep the value",
 "For every vector, widening replicates the sign bit of a signed vector (x and z included) and zero-fills an unsigned one; assignment to or construction of a different width widens that way or keeps exactly the low bits; and to_signed/to_unsigned keep every bit. No bit outside the destination's declared width is ever observable afterwards.",
 ["inputs","configurations"],"all values, all source/destination width pairs on both sides of 64 bits, signedness, two- and four-state",
 "The tests touch one narrowing and one widening with small positive constants.",
 [L,B,N],[("extend",B+" extend; "+N+" extend; "+L+" extend"),("assignment conversion",B+" operator=; "+L+" operator="),("mask_off",B+"; "+N)],["all bits, integer value and printed form of the destination"],[HOLD])
prop("C12","Single-bit access honours the declared range",
 "For a vector declared with any range (descending or ascending, zero-based or not), setting index i to 0, 1, x or z makes reads at i return it and leaves every other index unchanged; index lsb is the least significant bit of the value. Reading an index outside the range returns x (0 from a two-state vector), and writing one by a run-time index changes nothing.",
 ["inputs","histories","configurations"],"all ranges, all indexes, any sequence of single-bit writes by run-time and compile-time index",
 "The tests read one bit of a zero-based vector and never write single bits directly or use offset ranges.",
 [L,B,N],[("index mapping",B+" set / get_; "+L+" operator[] / get / set / set_x / set_z"),("word and bit index",N+" set / operator[]")],["every bit after every write"],[ENC])
prop("C13","Part-selects return exactly the selected bits",
 "For every zero-based descending vector, a compile-time, run-time or indexed (base plus/minus width) part-select inside the vector returns an unsigned vector of the selected width holding exactly those bits, x and z included, independent of the vector's signedness and of the bits around the selection.",
 ["inputs","configurations"],"all values, all in-range bounds at every offset relative to word and holder boundaries, signed and unsigned",
 "About eight selections are tested, nearly all on small positive values; bounds straddling words and signed vectors with the top bit set are not.",
 [L,B,N],[("mask and shift",B+" slice_"),("bit loop",N+" slice"),("two-plane select",L+" slice / slice_")],["result bits, width"],[HOLD])
prop("C14","Part-select writes change the selected bits and nothing else",
 "Writing to a compile-time, run-time or indexed part-select (directly or through a slice reference) replaces exactly the selected bits by the low bits of the source, zero-filled if the source is narrower, clearing or setting x/z accordingly; every other bit keeps its value. For a mix of ascending and descending vectors of equal width the leftmost bit goes to the leftmost position.",
 ["inputs","histories","configurations"],"all values, positions, source widths, sequences of writes; two- and four-state, both range directions",
 "The tests write at offset 0 almost exclusively, so source alignment and the neighbours of the selection are unconstrained.",
 [L,B],[("update loops",L+" update_ / set_; "+B+" update / update_"),("slice references",B+" slice_ref_fixed / slice_ref_runtime")],["all bits of the target after each write"],[ENC])
prop("C15","Concatenation and unpacking are exact and mutually inverse",
 "Concatenating any vectors yields their bits side by side, first operand most significant, with total width the sum of the widths and an unsigned result; unpacking a descending vector into targets of the same total width assigns the same consecutive pieces, first target most significant, so unpacking a concatenation restores every piece including x and z. Signedness of the pieces never affects neighbouring bits.",
 ["inputs","configurations"],"all piece widths and counts including totals around 64 and 128 bits, all values, signed pieces, mixed two- and four-state pieces",
 "One 12-bit concatenation and two unpackings are tested.",
 [L,B,N],[("concat",B+" concat; "+N+" concat; "+L+" concat"),("unpack",B+" unpack_; "+L+" unpack_")],["result bits, target bits"],[ENC,HOLD])
prop("C16","Packed array elements are isolated and bounds-safe",
 "In a packed array of any element width and declared index range, an element read by a variable index returns what was last written to that element, a write changes no other element, and element and slice accesses agree with the array viewed as one flat vector, and every vector operation applied to the array acts on that flat vector. An index that is out of range or contains x/z reads as x (0 in two-state arrays) and writes nothing.",
 ["inputs","histories","configurations"],"all element widths, array ranges (1-D and nested), index types and values, sequences of reads and writes",
 "Tests read and write one element of a 10x16 array and never look at its neighbours or at any out-of-range index.",
 [A,L,B],[("address computation",A+" packed_array::operator[] / update / slice_array")],["all elements after each step"],[("flat vector","element i occupies bits [(i+1)*w-1 : i*w]",A)])
prop("C17","Unpacked arrays behave as a bounds-checked map",
 "An unpacked array with any declared range returns for each in-range index the last element stored there (x initially for four-state elements, 0 for two-state ones); reads outside the range give that default and writes outside it are ignored.",
 ["inputs","histories","configurations"],"all ranges including non-zero-based and ascending ones, all indexes, sequences of reads and writes",
 "One write and one read at index 1 of a zero-based array are tested.",
 [A],[("index rebasing and bounds test",A+" unpacked_array::operator[] / update")],["element values"])
prop("C18","Struct and union fields are views of one bit vector",
 "Fields of a packed struct or members of a union read and write exactly their declared bit range of one flat vector: writing a field leaves all other fields intact, reading any overlapping member afterwards sees the new bits, the whole object is an unsigned vector of its size, and a fresh four-state object is all x while a two-state one is all 0.",
 ["inputs","histories","configurations"],"all field layouts and sizes on both sides of 64 bits, sequences of field writes and whole-object assignments",
 "One field read of a 10-bit struct and one member of a 16-bit union are tested.",
 [ST,UN,L,B],[("type alias to one vector",ST+"; "+UN),("field access by part-select",L+" slice / update")],["all fields after each step"])
prop("C19","Literals parse to exactly the digits written",
 "For every literal of the form [size]'<base><digits> with binary, octal, hex (any letter case, underscores anywhere between digits, x/z digits) or decimal digits (values below 2^64), and every raw string, construction of a vector of any width gives the number (or right-justified 8-bit characters) the digits denote, zero-extended or cut to the vector's width. Each x/z digit marks exactly its own bits.",
 ["inputs","configurations"],"all digit strings of any length, all bases, underscore placements, target widths below, at and above the literal's width and 64 bits",
 "A dozen short literals are tested; lower-case hex, long octal, underscores in long literals and over-long literals are not.",
 [U,L,B,N],[("digit loops",U+" parse_raw_str_ / parse_xz_raw_str_"),("chunking",U+" parse_raw_str(…,size,ptr)")],["all bits of the constructed vector"],[ENC])
prop("C20","Binary, octal, hex and string formatting are faithful",
 "For every vector, str in base b, o, h/x or s prints the value's digits most significant first, one digit per 1, 3, 4 or 8 bits of the declared width, left-padded with 0 (blank for s) up to a larger requested width. A digit whose bits are all x (all z) prints x (z), one containing some x prints X, otherwise one containing some z prints Z; bits of neighbouring digits have no influence.",
 ["inputs","configurations"],"all values, widths (multiples of the digit size or not, one or more words), requested widths; two- and four-state, signed and unsigned",
 "Seven outputs are tested, none with x/z in octal or hex, none for multiword two-state vectors.",
 [U,L,B],[("digit formatting",U+" fmt_value / to_string_ / to_string / pad_result"),("entry",L+" str; "+B+" str")],["returned string"],[ENC])
prop("C21","Decimal formatting prints the exact number",
 "For every vector of up to 128 bits, str in base d prints the exact value in decimal (with a minus sign for negative signed values), left-padded with blanks to the width of the largest unsigned value of that size or the requested width (the sign adding one column), and without padding for a requested width of 0. A vector with unknown bits prints x or z if all bits are, X if some bit is x, and Z otherwise, with no sign.",
 ["inputs","configurations"],"all values incl. 0, powers of ten, most-negative values and x/z mixes; all widths 1..128, signed and unsigned, requested widths",
 "Six small numbers of 20 bits are tested.",
 [U,L,B],[("digit extraction and padding",U+" fmt_decimal / to_string / pad_result / decimal_size_table")],["returned string"])
prop("C22","Printing and parsing round-trip",
 "For every four-state vector, parsing the binary print of it into the same type gives back the identical vector including x and z; the same holds for octal and hex whenever every digit is uniformly known, x or z, for decimal when known, non-negative and below 2^64, and for strings of non-NUL characters. Equal vectors print identically regardless of how they were computed.",
 ["inputs","configurations","histories"],"all values and widths, values produced by construction or by operations",
 "No test parses what was printed.",
 [U,L,B],[("parser",U+" parse_raw_str / parse_xz_raw_str"),("printer",U+" to_string")],["identity of vectors"])
prop("C23","Conversions to and from C++ values are lossless and guarded",
 "Constructing or assigning a vector from a C++ integer stores it modulo 2^w, sign-extending negative numbers into any wider vector; to_num and to_uint64 return the stored integer (two's complement if signed, modulo 2^64), or 0 if any bit is x or z. Conversion to bool is true exactly for fully known nonzero vectors, and ! gives the definite opposite, or x if anything is unknown.",
 ["inputs","configurations"],"all C++ integer types and values, all widths and signedness, x/z contents; values produced directly or by operations",
 "A few small positive constants and one x are tested.",
 [L,B,N],[("constructors",L+" logic(T); "+B+" bit(T); "+N+" big_num(T)"),("to_num/to_uint64/bool",L+"; "+B),("any_set",B+"; "+N)],["C++ value","bits"],[HOLD])
prop("C24","No seam at the machine-word boundary",
 "An operation carried out on vectors of up to 64 bits gives the same value as the same operation with one or both operands widened beyond 64 bits (by their own signedness), reduced to the original width, for every operation whose low-order result is width-independent (bitwise, +, -, *, <<) or value-preserving under widening (comparisons, /, %, >>, and arithmetic shift).",
 ["inputs","configurations"],"all values, native widths 1..64 against multiword widths 65..520, signed and unsigned",
 "A metamorphic relation between two storage representations; tests never compare them.",
 [L,B,N],[("native path",B),("multiword path",N)],["result bits on both paths"],[HOLD])
prop("C25","Two-state and four-state vectors agree on known values",
 "On known operands every operation of a two-state vector gives the same bits as the corresponding four-state vector; and an operation mixing a four-state left operand with a two-state right operand gives the same result as converting the latter to four-state first.",
 ["inputs","configurations"],"all values, operations, widths and signedness",
 "Only four comparisons of 0 with 10 mix the two kinds in the tests.",
 [L,B],[("mixed overloads",L+" operators taking bit; "+B+" comparisons taking logic"),("conversion constructor",L+" logic(const bit&)")],["result bits of both"],[ENC])
prop("C26","Any history of operations matches the reference machine",
 "For any program of declarations, assignments, bit and part writes, operators and conversions over a set of two- and four-state variables of assorted types, every variable, read through any observer (bits, printing, comparison, integer conversion), equals the IEEE-1800-style reference interpreter after every step.",
 ["histories","programs","inputs"],"random straight-line programs over a register file of mixed widths, signedness and state kinds",
 "Tests run one or two operations on fresh values; residue left by earlier operations (stray high bits, stale unknown flags) shows only in later ones.",
 [L,B,N,U],[("canonical holder contents",B+" mask_off; "+N+" mask_off"),("plane consistency",L)],["all observers of all variables after each step"],[ENC,HOLD])
prop("C27","Operands are never disturbed and aliasing is harmless",
 "Evaluating any non-assigning operation leaves its operands bit-identical, repeated evaluation gives the same answer, and results do not depend on whether operands are the same object (a op a, a op= a, concatenation of a vector with itself, writing a part of a vector from itself, self-assignment). A copy never changes when the original does.",
 ["inputs","histories","configurations"],"all operations, values and types, aliased and non-aliased operands",
 "Tests use each operand once and never look at it again.",
 [L,B,N,A],[("const operations, value semantics",L+"; "+B+"; "+N)],["operand bits before and after"])
prop("C28","No operation or text input causes undefined behaviour",
 "For any in-contract operation on any operands, and for any byte string handed to the literal parser, the library performs no out-of-bounds access, invalid shift, signed overflow, division trap, use of uninitialised storage, unbounded recursion or endless loop, and always returns.",
 ["inputs","histories","configurations"],"all operations, values and types of the other properties, arbitrary byte strings for parsing, all valid format strings",
 "The tests are not run under sanitizers and exercise only short inputs.",
 [L,B,N,U,A],[("bounds tests",N+"; "+A),("chunked parsing and printing",U)],["sanitizer reports, signals, termination"])
prop("C29","Operations at a requested width work at that width",
 "The named operations and_, or_, xor_, add, minus, multiply, divide and mod, called with a target width at least as wide as both operands, first widen each operand to that width by its own signedness and then give exactly what the operator gives at that width (so a carry or a full product that the plain operator would drop is kept); any x or z bit makes an arithmetic result all x, a zero divisor gives all x in four-state and 0 in two-state vectors, and the operands are untouched.",
 ["inputs","configurations"],"all values, operand width pairs and target widths up to several words, signedness, two- and four-state",
 "The tests reach these only through the operators, whose target width is always the larger operand width; context-determined widths are never run.",
 [L,B,N],[("named operations",L+" and_/or_/xor_/add/minus/multiply/divide/mod; "+B+" same names"),("widening",B+" extend; "+N+" extend")],["result bits and width"],[HOLD])
prop("C30","Bit queries, clearing and fresh vectors tell the truth",
 "For every two-state vector, popcount, highest set bit, any_set, all_set and negative describe exactly the declared bits; mask, clear, mask_off and in-place negation leave exactly the bits they name and nothing beyond the declared width. A freshly constructed four-state vector is all x and a two-state one all zero, and the size, bounds and signedness constants of every type agree with its declaration.",
 ["inputs","configurations","histories"],"all values and widths, including values produced by operations; both signednesses and all declared ranges",
 "The tests query two or three constants; widths that are not multiples of the word, and bits only in the last word, are not covered.",
 [L,B,N],[("queries",B+" popcount/any_set/all_set/negative; "+N+" popcount/highest_bit/any_set/all_set"),("clearing",B+" clear/mask_off/negate; "+N),("default construction",L+" logic(); "+B+" bit()")],["returned numbers","bits after the call"],[HOLD])
prop("C31","Threads working on their own or on shared constant vectors do not interfere",
 "When several threads at the same time evaluate operations on vectors none of them modifies, modify vectors of their own, print, and parse literals, every thread gets exactly the result it would get alone, and no data race occurs inside the library.",
 ["schedules","inputs","configurations"],"all interleavings of 2 to 4 threads over all operations, formatting and parsing, all values and types",
 "The tests are single-threaded; a cache, static buffer or lazily built table would pass all of them.",
 [U,N,L,B],[("no caching for the sake of concurrency",U+" compute_decimal_size"),("static tables",U),("value semantics",L+"; "+B+"; "+N)],["results per thread","race reports"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
F9 = ["src/field/mod_e221_3.rs","src/field/mod_e222_117.rs","src/field/mod_e251_9.rs","src/field/mod_e255_19.rs",
      "src/field/mod_e382_105.rs","src/field/mod_e383_187.rs","src/field/mod_e414_17.rs","src/field/mod_e511_187.rs","src/field/mod_e521_1.rs"]
ED = ["src/curve/edwards.rs","src/curve/point.rs","src/curve/e_222.rs","src/curve/curve1174.rs","src/curve/e_382.rs","src/curve/curve41417.rs","src/curve/e_521.rs"]
W = lambda s: "each field type in src/field/mod_e*.rs: " + s
REPS = "Every one of the nine field types, and every operand value in every lazily normalized representation that a history of public operations can leave behind (carries of either sign in the top word, values at or above the modulus)."
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)
REPSTATE = [("limb array", "value = sum of limbs at fixed bit weights; top limb also stores a signed carry", W("the tuple struct wrapping [i64; n]"))]

add("C01", "Field addition, subtraction and negation are exact modulo the prime",
    "For each of the nine prime fields, adding, subtracting or negating field elements yields an element congruent modulo the field's prime to the integer sum, difference or opposite of the operands' values. This holds for every operand, whether or not it has been normalized, and no operand other than the assigned one is modified.",
    ["inputs","histories"], REPS, "Tests add and subtract a handful of values of magnitude at most 16 (and never call negation); carries into the top word, negative carries and long borrow chains are not sampled.",
    F9, [("Add/AddAssign, Sub/SubAssign, Neg", W("impl AddAssign<&F>, SubAssign<&F>, Neg and the by-value forms"))], REPSTATE, ["packed() of the result"])
add("C02", "Field multiplication and squaring are exact modulo the prime",
    "For each of the nine prime fields, the product of two elements and the square of an element are congruent modulo the field's prime to the integer product and square of the operands' values. This holds for every operand, whether or not it has been normalized, and no operand other than the assigned one is modified.",
    ["inputs","histories"], REPS, "Tests multiply only values of magnitude at most 16; a wrong cross product, a dropped sign or a lost carry between high words shows only for particular limb patterns out of 2^(2N).",
    F9, [("Mul/MulAssign", W("impl MulAssign<&F> (schoolbook product and pseudo-Mersenne reduction)")), ("square/squared", W("PrimeField::square"))], REPSTATE, ["packed() of the result"])
add("C03", "Arithmetic with small integers agrees with full field arithmetic",
    "For each of the nine prime fields, adding, subtracting or multiplying a field element by any 8-, 16- or 32-bit signed integer yields an element congruent modulo the prime to the same operation on integers. This holds for the entire signed range of the integer (including the most negative value), for every operand representation, in the in-place, by-reference and integer-on-the-left forms.",
    ["inputs","histories"], REPS + " Every i8, i16 and i32 value.", "Tests use integers of magnitude at most 16 on normalized or barely unnormalized values; carries combined with large multipliers are not reached.",
    F9, [("small_add/small_sub/small_mul and _assign", W("PrimeField::small_*")), ("operators with i32/i16/i8", W("impl Add<i32> ... Mul<i8>, impl Add<&F> for i32 ..."))], REPSTATE, ["packed() of the result"])
add("C04", "Inversion and division are exact for every non-zero divisor",
    "For each of the nine prime fields and every element not congruent to zero, the computed inverse multiplied by the element is congruent to one, and the quotient of any element by it, multiplied back by the divisor, is congruent to the dividend. This holds for every operand representation, normalized or not, and the inverted copy forms leave their operands unchanged.",
    ["inputs","histories"], REPS, "Tests invert a handful of small constants; a wrong exponent chain can still be right on elements of small order or on specific samples.",
    F9, [("invert/inverted exponentiation chain", W("PrimeField::invert")), ("Div/DivAssign", W("impl DivAssign<&F>, Div"))], REPSTATE, ["packed() of the result"])
add("C05", "Legendre symbol and square roots are correct for every element",
    "For each of the nine prime fields, the Legendre symbol of an element is congruent to one when the element is a non-zero square, to minus one when it is a non-square, and to zero when it is zero. For every element that is a square, the computed square root squared is congruent to the element, whatever the operands' representation, and the operand is left unchanged.",
    ["inputs","histories"], REPS, "Tests check a handful of small squares and non-squares; for primes congruent to 5 mod 8 half of the squares need a correction factor selected by masks, and exponent-chain errors can vanish on small subgroups.",
    F9, [("legendre", W("PrimeField::legendre")), ("sqrt with quartic correction", W("PrimeField::sqrt, quartic_legendre, COEFF"))], REPSTATE, ["packed() of the result"])
add("C06", "Normalization preserves the value and yields the unique canonical form",
    "For each of the nine prime fields, normalizing an element in any representation reachable through public operations leaves its residue unchanged and produces the unique canonical representation: all words in range, no pending carry, and a value at least zero and strictly less than the prime. Normalizing an already canonical element changes nothing.",
    ["inputs","histories"], REPS, "Canonicalization is decided by a rare boundary (values within c of 2^N, small negative values); tests reach it only through a few constants.",
    F9, [("normalize", W("impl Normalize"))], REPSTATE, ["packed() bytes after the call", "normalized equality"])
add("C07", "Normalized equality holds exactly when values are congruent",
    "For each of the nine prime fields, normalizing comparison of two elements returns true if and only if the two elements are congruent modulo the prime, for every pair of representations (the one-sided form needs only that the other operand is already normalized). The comparison changes neither residue, and leaves the operands it normalizes in canonical form.",
    ["inputs","histories"], REPS, "A comparison that ignores one word or one bit is right on all small samples tests use.",
    F9, [("normalize_eq / normalize_self_eq", W("impl NormalizeEq"))], REPSTATE, ["the returned bool"])
add("C08", "Packing is the canonical little-endian encoding and unpacking inverts it",
    "For each of the nine prime fields, packing an element in any representation writes exactly the declared number of bytes, which are the little-endian encoding of its canonical residue, and unpacking any little-endian encoding of a number below the prime yields an element with exactly that value. Packing therefore round-trips in both directions, ignores what the output buffer or the overwritten element held before, and changes at most the representation, never the residue, of the packed element.",
    ["inputs","histories"], REPS + " Every byte string encoding a number below the prime; every prior content of the output buffer.", "Tests pack a few patterns; each of up to 66 bytes straddles words with its own shift and mask, and unnormalized inputs are hardly tried.",
    F9, [("pack/pack_normalized/packed", W("impl Pack, fn packed")), ("unpack/unpacked", W("impl Pack")), ("nbytes", W("Pack::nbytes"))], REPSTATE, ["the byte arrays"])
add("C09", "Bit access and bitwise operators agree with the canonical binary value",
    "For each of the nine prime fields, the reported bit count is the bit length of the prime, and reading bit i (for every i below that count) returns bit i of the canonical residue, whether the element is normalized by the call or already canonical. The normalizing bitwise and / or of two elements equal the bitwise and / or of their canonical residues, with the second operand changed at most in representation.",
    ["inputs","histories"], REPS + " Every bit index below the bit count.", "No test reads bits or uses the bitwise operators at all; word/bit index arithmetic can be wrong for a single index.",
    F9, [("nbits, bit, bit_normalized", W("PrimeField")), ("normalize_bitand/bitor family", W("PrimeField"))], REPSTATE, ["returned bool", "packed() of the result"])
add("C10", "No history of field operations overflows, panics or leaves the valid range",
    "Starting from any constants, unpacked, random or previously computed elements, any sequence of public field operations (with no normalization in between, for any length) never overflows machine arithmetic, never indexes out of bounds and never panics. Every produced element again has a representation within the range that all operations accept.",
    ["histories","inputs"], "All finite sequences of public operations in each of the nine fields (bitwise masking primitives applied as documented), all operand values.", "Tests run sequences of two or three operations on small values; the worst-case growth of unreduced top words needs an inductive argument.",
    F9, [("lazy reduction: carry kept in the top word and folded by the next operation", W("carry_out and all arithmetic"))], REPSTATE, ["panic / overflow in the debug build", "top word magnitude"])
add("C11", "Random elements are always valid canonical elements",
    "For each of the nine prime fields, generating a random element yields, whatever the generator returns, a canonical representation of a value at least zero and strictly less than the prime, without panicking.",
    ["inputs"], "Every output sequence of the random number generator.", "Tests use no randomness; out-of-range draws would appear only for particular generator outputs.",
    F9, [("Rand::rand", W("impl Rand"))], REPSTATE, ["the generated element"])
add("C12", "Hexadecimal formatting prints exactly the canonical residue",
    "For each of the nine prime fields, lower- and upper-case hexadecimal formatting of an element in any representation writes exactly two digits per packed byte, most significant byte first, spelling the canonical residue, and does not modify the element.",
    ["inputs","histories"], REPS, "Formatting is never asserted by the tests.",
    F9, [("LowerHex/UpperHex", W("impl LowerHex, impl UpperHex"))], REPSTATE, ["the formatted string"])
add("C13", "Published constants are what their names and documentation say",
    "In each of the nine prime fields the provided zero, one, minus one, minus one half and modulus (through constants and through functions) are canonical representations of those values. Each published curve base point lies on its curve, the published order is a prime that annihilates it, and each published Edwards coefficient equals its documented value, which is a non-square.",
    ["inputs","configurations"], "All published constants of all nine fields and all ten curves, including the type-level bindings of curve to field and coefficient.", "Tests use constants as their own oracles, and no test touches the curve constants.",
    F9 + ED[2:], [("constants", W("pub const ZERO .. *_ORDER")), ("zero/one/m_one/modulus", W("PrimeField")), ("d_val", "src/curve/{e_222,curve1174,e_382,curve41417,e_521}.rs")], None, ["packed() of constants"])
HK = "EdwardsExtended has private coordinates and no accessor; a cfg(verif_hooks) accessor exposes them read-only and builds a point from coordinates"
add("C14", "Edwards point addition computes the group law for all pairs of points",
    "On each of the five Edwards curves, adding any two valid points (including equal points, opposite points and the identity, in any projective scaling and any coordinate representation) yields a valid point whose affine coordinates are those of the Edwards addition law. Valid means non-zero Z, satisfying the curve equation, with the extended coordinate T consistent with T*Z = X*Y; the right operand is not modified.",
    ["inputs","histories"], "All pairs of valid extended points on E-222, Curve1174, E-382, Curve41417 and E-521, in all four operator forms.", "There is no test of any curve operation.",
    ED, [("Add/AddAssign for extended points", "src/curve/edwards.rs"), ("d_val per curve", "src/curve/*.rs")], [("extended coordinates", "X, Y, Z, T with x=X/Z, y=Y/Z, T=XY/Z", "src/curve/edwards.rs EdwardsExtended")], ["affine coordinates of the result"], HK)
add("C15", "Point doubling and tripling equal repeated addition",
    "On each of the five Edwards curves, doubling (tripling) any valid point yields a valid point equal to the point added to itself once (twice) under the Edwards addition law. This holds for every point, projective scaling and coordinate representation, in the in-place and the functional form, the latter leaving its operand unchanged.",
    ["inputs","histories"], "All valid extended points on the five curves.", "There is no test of any curve operation.",
    ED, [("double/doubled/triple/tripled", "src/curve/edwards.rs impl Point")], None, ["affine coordinates of the result"], HK)
add("C16", "The identity and points built from coordinates are valid",
    "On each of the five Edwards curves, the provided zero point is a valid extended representation of the group identity (0, 1). Initializing a point from affine coordinates on the curve yields a valid extended representation of exactly that point, whatever the overwritten point held before; valid includes the consistency T*Z = X*Y.",
    ["inputs"], "All affine points on the five curves in every coordinate representation, all prior contents.", "There is no test of any curve operation.",
    ED, [("Point::zero, Point::init", "src/curve/edwards.rs")], None, ["extended coordinates of the result"], HK)
add("C17", "Scalar multiplication computes the scalar multiple for every scalar and point",
    "On each of the five Edwards curves, multiplying any valid point by a scalar yields a valid point equal to the sum of n copies of it, where n is the canonical integer value of the scalar. This holds for every scalar of the scalar type (any representation for the normalizing form, canonical for the normalized form), zero included, and changes the scalar at most in representation.",
    ["inputs","histories"], "All valid points and all scalars on the five curves (2^222 to 2^521 scalars each).", "There is no test of any curve operation; a ladder can be wrong for a single bit position.",
    ED, [("scalar_mult / scalar_mult_normalized ladder", "src/curve/edwards.rs"), ("bit_normalized, filled, normalized_bitand/bitor", W("PrimeField"))], None, ["affine coordinates of the result"], HK)
add("C18", "All overloads and copy forms of an operation agree and spare their operands",
    "For each of the nine prime fields, every operator form (by value, by reference, assigning, integer on the left) and every in-place/functional pair of the same operation yields congruent results for the same operands, equal to the one mathematical operation it denotes. Functional forms and by-reference right operands leave their operands bit-for-bit unchanged, also when both operands are the same element.",
    ["inputs","histories"], REPS, "There are about 70 overloads per field; tests exercise a few on small values and never check that operands survive.",
    F9, [("operator impls and *_ed / small_* pairs", W("operator impls"))], REPSTATE, ["packed() of results and operands"])
add("C19", "Control flow and memory addresses do not depend on operand values",
    "For each of the nine fields and five Edwards curves, the sequence of basic blocks executed and the memory addresses accessed by arithmetic, inversion, square root, normalization, packing, masking, comparison, point operations and scalar multiplication, as compiled without optimization, do not depend on the values of field elements, small integers, mask bits or scalars. Only public parameters (a bit index, a byte-slice length) and the choice of operation may influence them.",
    ["inputs"], "All operand values; the claim is about the compiler's unoptimized output, not about caches or optimized machine code.", "A data-dependent branch gives correct results, so no functional test can see it.",
    F9 + ED, [("mask-based selection in lieu of branches", "src/field/prime_field.rs PrimeFieldMask, src/curve/edwards.rs scalar_mult_normalized")], None, ["conditional branches and addresses in the compiled code"], HK)
add("C20", "Masks select or clear whole elements in any representation",
    "For each of the nine prime fields, and-ing (without normalization) any element, normalized or not, with an element filled with ones leaves it unchanged, and with one filled with zeros makes it the zero element; or-ing with an all-zero element leaves it unchanged. Consequently (a and mask) or (b and complement mask) is exactly a or b according to the mask bit, for freshly made masks and for masks filled in place, whatever they overwrote.",
    ["inputs","histories"], REPS + " Both values of the mask bit.", "No test uses masks; the square-root correction and the scalar ladder rely on them for unnormalized, negative top words.",
    F9, [("fill/filled", W("PrimeField, PrimeFieldMask")), ("normalized_bitand/normalized_bitor", W("PrimeField"))], REPSTATE, ["resulting element"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")

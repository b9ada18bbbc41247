#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, tech, over=("inputs",), note=""):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, tech=tech, note=note))


prop("C01", "Integer addition, subtraction, multiplication, powers and shifts are exact",
     "For every pair of unsigned or signed big integers, addition, subtraction, multiplication, powers with a machine exponent, multiplication by powers of two, whole-limb shifts and slices, sums, products, negation and absolute value return exactly the mathematical result, whatever the operand lengths, signs and carry patterns, in every variant (returning, in place, big operand, 32-bit operand including the most negative one). Unsigned subtraction below zero panics instead of wrapping.",
     "all operands of any length and sign, including those that cross the Karatsuba threshold, and every 32-bit scalar",
     "the unit tests multiply and subtract a few dozen fixed or random operands; carries through extreme limbs, unbalanced lengths around the switch of algorithm, and scalar extremes are not sampled",
     ["src/ubigint/arith/add.rs", "src/ubigint/arith/sub.rs", "src/ubigint/arith/mul.rs", "src/ubigint/arith/pow.rs", "src/ubigint/funcs/shift.rs", "src/bigint/arith/add.rs", "src/bigint/arith/sub.rs", "src/bigint/arith/mul.rs", "src/bigint/arith/pow.rs"],
     [("limb loops with carries and borrows", "src/ubigint/arith"), ("Karatsuba split above 64 limbs", "src/ubigint/arith/mul.rs"), ("sign rules on top of unsigned arithmetic", "src/bigint/arith")],
     "online reference-model monitor (Python integers) over recorded operations, checked and optimised builds")
prop("C02", "Integer division and remainder satisfy a = q*b + r with truncation",
     "For every dividend and every non-zero divisor, of any length and sign, the quotient is the exact quotient truncated toward zero and the remainder is the dividend minus quotient times divisor, in every variant (returning, in place, big divisor, 32-bit divisor, remainder by a power of two). Division or remainder by zero panics, and every division terminates.",
     "all dividend/divisor pairs, in particular those whose quotient estimate is off by one and those with 32-bit divisors above 2^16",
     "the tests divide a few hundred pairs; wrong quotient digits and non-terminating estimate loops occur only for rare limb patterns",
     ["src/ubigint/arith/div.rs", "src/ubigint/arith/rem.rs", "src/bigint/arith/div.rs", "src/bigint/arith/rem.rs"],
     [("quotient approximation refined in a loop", "src/ubigint/arith/div.rs"), ("single-limb division", "src/ubigint/arith/div.rs")],
     "online reference-model monitor over recorded operations; CPU-time watchdog for termination")
prop("C03", "Values stay canonical along every history; equality, hash and order agree",
     "Whatever sequence of operations produced them, big integers and rationals are in canonical form: no leading zero limb, zero is never negative, rationals are in lowest terms with a positive denominator. Consequently two values are equal, hash alike and compare as equal exactly when they denote the same number, no matter how each was computed.",
     "all finite sequences of in-place and returning operations on a set of values, including results that shrink, vanish or change sign",
     "tests look at single results; a non-canonical value produced by one operation misbehaves only in a later one",
     ["src/ubigint.rs", "src/bigint.rs", "src/ratio.rs", "src/utils.rs", "src/ubigint/arith", "src/bigint/arith", "src/ratio/arith"],
     [("trailing zero limbs removed after each operation", "src/utils.rs"), ("fractions reduced after each operation", "src/ratio.rs")],
     "state monitor over operation histories: canonical-form invariant and model equality after every step", ("inputs", "histories"))
prop("C04", "Comparisons of integers and rationals are the order of the numbers",
     "For every pair of unsigned, signed or rational numbers, all comparison operations (the named ones, the ones with a 32-bit operand, and the standard ordering and equality traits) give the mathematical order. They are total, never panic, and agree with one another.",
     "all pairs of equal and different lengths and signs, equal up to the last limb, and machine-integer extremes",
     "tests compare a few pairs; a comparison that stops early or mishandles a sign is wrong only for operands that share a prefix or for negative numbers of different length",
     ["src/ubigint/comp.rs", "src/bigint/comp.rs", "src/ratio/comp.rs"],
     [("length, then limbs from the top", "src/ubigint/comp.rs"), ("cross multiplication for rationals", "src/ratio/comp.rs")],
     "online reference-model monitor over recorded comparisons")
prop("C05", "Integers and text: parsing and printing are exact inverses",
     "Every big integer prints in decimal, hexadecimal, octal and binary as exactly its digits (with the prefix and sign rules of the formatter), in scientific notation as its leading digits truncated to the requested length, and parsing any of its plain literals (optional minus, optional 0x, 0o or 0b prefix in either case, underscores between digits) gives the number back. Malformed text is rejected with an error, never accepted as another number and never a panic.",
     "all integers and all strings over digits, signs, prefixes, underscores and foreign characters",
     "tests parse and print a few dozen strings; chunk boundaries of the conversion (zeros inside the number, lengths around multiples of 9 digits) are not covered",
     ["src/ubigint/convert.rs", "src/bigint/convert.rs"],
     [("chunked radix conversion with zero padding", "src/ubigint/convert.rs")],
     "online reference-model monitor over recorded conversions (Python int literals as the model)")
prop("C06", "Conversions between big integers and machine numbers keep the value or fail",
     "Converting any machine integer to a big integer and back keeps the value; converting a big integer to a machine integer type succeeds exactly when the value is representable in it and otherwise returns an error. Conversions from floats truncate toward zero and reject NaN and infinities, and conversions to floats give the nearest float.",
     "all values around every type's limits, for all machine integer types up to 128 bits, and both float types",
     "tests convert a handful of values per type; the limits of the types, in particular the most negative ones, are single points",
     ["src/ubigint/convert/from.rs", "src/ubigint/convert/into.rs", "src/bigint/convert/from.rs", "src/bigint/convert/into.rs", "src/bigint/convert.rs", "src/ubigint/convert.rs"],
     [("limb-count checks before narrowing", "src/ubigint/convert.rs"), ("conversion macros", "src/impl_macros.rs")],
     "online reference-model monitor over recorded conversions")
prop("C07", "Integer square root, logarithm, gcd, factorial, Fibonacci and primes are right",
     "For every integer, the square root is the exact integer square root (of the magnitude, with the sign kept), the logarithm is the exact floor of the base-two logarithm, and the greatest common divisor, factorial and Fibonacci numbers are exact. Primality answers and prime factorisations (in ascending order with multiplicity, their product being the number) are right.",
     "all integers, in particular perfect squares and powers of two plus or minus one, numbers just below powers of 2^64, and cofactors above 2^64",
     "tests check a few values; an iteration that starts or stops wrongly fails only near squares or limb boundaries",
     ["src/ubigint/funcs.rs", "src/ubigint/funcs/log.rs", "src/bigint/funcs.rs", "src/utils.rs"],
     [("Newton iteration from a table estimate", "src/ubigint/funcs.rs"), ("Euclid's algorithm with a machine-word fast path", "src/ubigint/funcs.rs")],
     "online reference-model monitor over recorded calls; CPU-time watchdog for termination")
prop("C08", "Rational arithmetic is exact and fully reduced",
     "For every pair of rationals, addition, subtraction, multiplication, division, reciprocal, negation, absolute value, integer powers (negative exponents included) and construction from numerator and denominator return exactly the mathematical result in lowest terms with a positive denominator, in every variant (returning, in place, with a big-integer or 32-bit operand, the most negative one included). Division by zero and construction with denominator zero panic; complex sums are exact componentwise.",
     "all pairs, including those sharing factors, cancelling to zero or to integers, and negative operands on either side",
     "tests compute a few expressions; a missing reduction or sign rule shows only for particular common factors",
     ["src/ratio.rs", "src/ratio/arith/add.rs", "src/ratio/arith/sub.rs", "src/ratio/arith/mul.rs", "src/ratio/arith/div.rs", "src/ratio/arith/pow.rs", "src/ratio/convert/from.rs", "src/complex/arith/add.rs"],
     [("cross multiplication followed by reduction", "src/ratio/arith"), ("reduction by the gcd and sign normalisation", "src/ratio.rs")],
     "online reference-model monitor (Python fractions) over recorded operations")
prop("C09", "Rational rounding and integer conversion are exact",
     "For every rational, truncation, floor, rounding to nearest with halves away from zero, fractional part and the split into both are exact, and conversion to an integer type truncates toward zero or fails when out of range. Bringing two rationals to a common denominator keeps both values, and shrinking a rational keeps it within 2^-60 of its value relative to it.",
     "all rationals, in particular negative ones, exact halves and values next to an integer",
     "tests round a few values; ties and negative values next to integers are single points",
     ["src/ratio/funcs.rs", "src/ratio/convert/into.rs"],
     [("truncating division of numerator by denominator", "src/ratio/funcs.rs")],
     "online reference-model monitor over recorded operations")
prop("C10", "Rationals and IEEE 754 floats: exact in, nearest-even out",
     "Every finite 32-bit or 64-bit float converts to exactly its value as a rational (decomposition into sign, exponent and fraction included), NaN and infinities are rejected with an error. Every rational converts to the nearest float, ties to even, subnormals included; values below the smallest subnormal's half become zero and values that round beyond the largest finite float are an error (for conversions that can fail).",
     "all floats of both formats and all rationals, in particular ties, carries into the next binade, subnormals and the limits of the range",
     "tests round-trip random bit patterns, which almost never hit ties, subnormals or the overflow limit",
     ["src/ratio/convert/ieee754.rs", "src/ratio/convert/from.rs", "src/ratio/convert/into.rs"],
     [("bit-level decomposition and rounding", "src/ratio/convert/ieee754.rs")],
     "online reference-model monitor over recorded conversions, exact rational arithmetic as the oracle")
prop("C11", "Rationals and text: exact parsing, faithful printing",
     "Every valid decimal literal (optional minus, integer part, optional fraction, optional exponent, underscores between digits) and every prefixed integer literal parses to exactly the rational it denotes, and malformed text is an error, never another number and never a panic. Printing as a ratio is exact and parses back; approximate printing shows the value truncated toward zero within the requested length, with the right sign and exponent (values beyond 10^±9990 are shown to four digits, the last off by at most two).",
     "all literals and all rationals with every requested length",
     "tests parse and print a few dozen values; lengths at which the notation switches, leading zeros after the point and large exponents are not covered",
     ["src/ratio/convert.rs"],
     [("digit-scaling by powers of ten", "src/ratio/convert.rs")],
     "online reference-model monitor over recorded conversions")
prop("C12", "Matrix algebra is exact and checks dimensions",
     "For every rational matrix, transposition, sums, products, multiplication by a scalar, determinants, identity and zero construction are exact in every variant, and the inverse exists exactly when the determinant is non-zero and then multiplies with the matrix to the identity. Operations on incompatible dimensions, ragged input and inverses of singular or non-square matrices return an error and leave the operands as they were.",
     "all shapes and contents, including singular, permuted, triangular and zero-pivot matrices",
     "tests invert a few fixed matrices; zero pivots in particular positions and particular sizes go unobserved",
     ["src/matrix.rs", "src/matrix/det.rs", "src/matrix/inv.rs", "src/matrix/utils.rs"],
     [("closed forms for small determinants, expansion beyond", "src/matrix/det.rs"), ("adjugate over determinant: closed forms up to 4x4, cofactors beyond", "src/matrix/inv.rs")],
     "online reference-model monitor (exact fraction matrices) over recorded operations")
prop("C13", "Polynomials and interpolation are exact",
     "For every rational polynomial, construction (leading zeros dropped), equality, evaluation, first and iterated derivatives, scaling, Newton steps and printing are exact. Interpolation through points with distinct abscissae (line, parabola, any number of points, and cubic with given slopes) returns the unique polynomial of lowest degree through them, and repeated abscissae are handled as documented (an error for the general form).",
     "all coefficient vectors and point sets, including data of lower degree, zero leading coefficients and coinciding abscissae",
     "tests interpolate a few fixed sets of points",
     ["src/poly.rs", "src/poly/from_points.rs"],
     [("inverse Vandermonde matrix and closed forms", "src/poly/from_points.rs")],
     "online reference-model monitor (Lagrange and Hermite forms in exact fractions) over recorded operations")
prop("C14", "Series functions of rationals converge within their truncation error",
     "For every rational argument in its domain and every step count, the iterated sine, cosine, tangent, inverse sine, cosine and tangent, exponential, logarithms, power, square root (of the magnitude) and cube root are within the truncation error of their documented series of the true real value, and the iterated constants pi, e and ln 2 are within theirs, so more steps give more correct digits. Logarithms of non-positive numbers and inverse sine or cosine beyond [-1, 1] panic.",
     "all rational arguments (range reduction included: large, negative and near the multiples of pi/4, powers of two and one) and all step counts",
     "tests compare a few arguments with f64; a wrong range-reduction branch or a series that stops converging shows only for particular arguments and step counts",
     ["src/ratio/funcs/trigo.rs", "src/ratio/funcs/atrigo.rs", "src/ratio/funcs/exp.rs", "src/ratio/funcs/ln.rs", "src/ratio/funcs/pow.rs", "src/ratio/funcs/root.rs", "src/ratio/pi.rs", "src/ratio/e.rs", "src/ratio/ln2.rs"],
     [("range reduction followed by a Taylor or Newton iteration", "src/ratio/funcs"), ("tabulated prefixes of the constants' series", "src/ratio/pi.rs")],
     "online error-bound monitor against mpmath at 4000 bits over recorded calls", note="Bounds are the analytic truncation errors with a small margin.")
prop("C15", "192-bit float arithmetic: tight errors, exact where representable, right order",
     "For all 192-bit floats with magnitudes between 2^-(2^37) and 2^(2^37): sums and differences are within 2 units in the last place of the exact result and exact when it is representable, products within 4 (exact when the factors have at most 128 significant bits together), quotients within 10, products and quotients with a 32-bit integer within 1 (exact when representable), integer powers n within 8|n|+40; division by zero panics. Negation, absolute value, shifts, floor, ceil, round (halves away from zero), truncate, fractional part, integrality, the successor and powers of two are exact; comparison is the order of the values.",
     "all operand pairs, in particular near-cancellation, operands far apart, extreme mantissas and extreme exponents",
     "tests compare random expressions with f64 at 53 bits; the last 75 bits, cancellation and extreme exponents are not observed",
     ["src/fp192.rs", "src/fp192/arith/add.rs", "src/fp192/arith/sub.rs", "src/fp192/arith/mul.rs", "src/fp192/arith/div.rs", "src/fp192/comp.rs", "src/fp192/funcs.rs", "src/fp192/funcs/pow.rs"],
     [("128-bit mantissas with explicit normalisation", "src/fp192/arith"), ("division by bisection from a logarithmic estimate", "src/fp192/arith/div.rs")],
     "online error-bound monitor (exact fractions, in units in the last place) over recorded operations")
prop("C16", "192-bit float conversions are exact or correctly rounded",
     "Machine integers up to 128 bits and finite floats convert to a 192-bit float of exactly the same value (NaN and infinities are errors) and a rational converts to the nearest one; conversion back to a rational is exact. Conversion to a machine integer truncates toward zero and is an error when out of range, and conversion to a 32-bit or 64-bit float gives the nearest float, ties to even, subnormals included, infinite beyond the largest.",
     "all values of every type, in particular ties, carries to the next power of two, subnormals, type limits and magnitudes below one",
     "tests convert a few values; ties, carries and limits are single points",
     ["src/fp192/convert.rs", "src/fp192/convert"],
     [("shifts of the mantissa by the exponent", "src/fp192/convert.rs")],
     "online reference-model monitor over recorded conversions, exact rational arithmetic as the oracle")
prop("C17", "192-bit floats and text: accurate parsing, 19-digit printing, invertible code",
     "Every decimal literal (optional minus, fraction, exponent, underscores) parses to within (16 + |e|/8) units in the last place, e being the decimal exponent that remains after taking the digits as an integer; integers of up to 38 digits and prefixed integers of up to 128 bits parse exactly; malformed text is an error. Every value prints as a decimal number within one unit of the 19th significant digit (small numbers written 0.00... may be cut after 20 decimal places). The 13-character code is 1 to 13 alphanumeric characters, decodes to the value within 2^-64 relative for magnitudes between 2^-1900 and 2^1900, fails above 2^1930, and every code text without leading zeros encodes back to itself.",
     "all values, literals and code texts",
     "tests round-trip two dozen short decimals",
     ["src/fp192/convert/string.rs"],
     [("scaling by powers of ten", "src/fp192/convert/string.rs"), ("base-62 packing of sign, exponent and 63 mantissa bits", "src/fp192/convert/string.rs")],
     "online error-bound monitor (exact fractions; mpmath for huge exponents) over recorded conversions")
prop("C18", "192-bit float elementary functions are accurate over their domains",
     "For all arguments with the stated relative or absolute error: square root 2^-125 relative (0 for negatives), base-two and natural logarithm 2^-119*max(1,|result|), integer logarithm and 2^n for integer n exact, 2^x and x^y 2^-48 relative (plus 2^-116 relative per unit of |y|*(1+|log2 x|)), sine and cosine 2^-73 + |x|*2^-122, tangent accordingly, inverse sine, cosine and tangent 2^-70. For |x| <= 1/8 sine, tangent, inverse sine and inverse tangent are within 2^-118 relative. The built-in constants are correct to the last place, and arguments outside the domain (logarithm or power of numbers <= 0, inverse sine or cosine beyond 1) panic.",
     "all arguments, in particular near multiples of pi/4, near 1 and 1/2, powers of two and their neighbours, and negative ones",
     "tests compare a few values with f64; whole intervals of arguments were wrong by percents without any stable test failing",
     ["src/fp192/funcs/sqrt.rs", "src/fp192/funcs/ln.rs", "src/fp192/funcs/pow.rs", "src/fp192/funcs/trigo.rs", "src/fp192/funcs/atrigo.rs", "src/fp192/consts.rs"],
     [("range reduction and fixed-length series", "src/fp192/funcs"), ("tabulated constants", "src/fp192/consts.rs")],
     "online error-bound monitor against mpmath at 420 bits over recorded calls")
prop("C19", "Every variant of an operation agrees, and no call alters its operands",
     "The in-place variant of an operation leaves in its receiver exactly what the returning variant returns (or both panic or fail), and the variant with a 32-bit or big-integer operand does what the general one does with the same number. No operation changes any operand other than the receiver of an in-place one, and a failed in-place operation leaves its receiver as it was.",
     "all operations with variants on integers, rationals, matrices and polynomials, all operands",
     "tests usually exercise one variant of an operation on one operand",
     ["src/ubigint/arith", "src/bigint/arith", "src/ratio/arith", "src/matrix.rs", "src/poly.rs"],
     [("separate implementations of each variant", "src")],
     "differential monitor: both variants of each operation on the same operands, operands compared before and after")
prop("C20", "Fixed-point binary logarithm and exponential",
     "For every integer, the accurate logarithm is exactly floor(log2|x| * 2^32) (0 for 0). The accurate exponential of n is within 1 + 2^-31 * 2^(n/2^32) of 2^(n/2^32), exact when n is a multiple of 2^32, and for 1 <= x <= 2^28 inverts the accurate logarithm exactly.",
     "all integers and all fixed-point exponents, across every segment of the table",
     "tests check two dozen numbers",
     ["src/ubigint/funcs/log.rs", "src/ubigint/funcs/exp.rs", "src/bigint/funcs.rs"],
     [("repeated squaring with truncation", "src/ubigint/funcs/log.rs"), ("table and bisection", "src/ubigint/funcs/exp.rs")],
     "online error-bound monitor against mpmath over recorded calls")
prop("C21", "Results depend on the operands alone",
     "Every deterministic operation returns the same result for the same operands whatever was computed before it, how often it is called, on how many threads the library is used at the same time, and whether it was built with or without overflow checks and optimisation. In particular no operation panics in one build and returns in the other. (192-bit floats: operands and results within 2^±(2^37).)",
     "all call histories, thread schedules and both build profiles",
     "the test suite is one schedule in one build profile and never compares two runs",
     ["src"],
     [("pure functions without global state", "src"), ("arithmetic that never relies on wrapping", "src")],
     "differential monitor over recorded histories: forward, reversed, repeated, multi-threaded, checked and optimised builds", ("inputs", "schedules", "histories", "configurations"))
prop("C22", "Random generators stay in range for every output of the random source",
     "For every sequence of random words, a random unsigned integer of scale s is canonical and between 1 and 2^(32 s) - 1 (0 for scale 0), a random signed one is such a number with a random sign, and a random rational, also as a matrix cell, is in lowest terms and strictly between 0 and 1. The values vary from call to call.",
     "all outputs of the random source, including zero words, and all scales and shapes",
     "a zero word has probability 2^-32, so tests never see one",
     ["src/ubigint/funcs.rs", "src/bigint/funcs.rs", "src/ratio/funcs.rs", "src/matrix.rs"],
     [("random words clamped away from zero", "src/ubigint/funcs.rs")],
     "range monitor with fault injection: a scripted stand-in random source delivers chosen words, plus the real source", ("inputs", "fault_sequences"))
prop("C23", "No memory error, undefined behaviour or data race",
     "No use of the public interface, from any number of threads, reads or writes memory out of bounds, after free or uninitialised, misuses a pointer or value in a way the language leaves undefined, or races.",
     "all calls and all thread schedules",
     "the test suite runs without any sanitizer, and undefined behaviour usually passes tests",
     ["src/ratio/convert/ieee754.rs", "src/ubigint/arith/mul.rs", "src"],
     [("safe code, apart from pointer reinterpretation of floats", "src/ratio/convert/ieee754.rs")],
     "AddressSanitizer, ThreadSanitizer and Miri over mixed workloads", ("inputs", "schedules"))

NOTE = ("Held on every operation observed in the run (counts, operations and samples are in the evidence file); nothing is claimed about operands outside the workload's reach. "
        "Trusts the oracle (CPython integers and fractions, mpmath where reals are involved), the compiler, and the text protocol between harness and monitor. ")
NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=["return value, operands after the call, panics, at the public interface"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="python3-vt check.py --setup",
             checks=[dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']} --tier quick", thorough_cmd=f"python3-vt check.py {p['id']} --tier thorough", technique=p["tech"], level="exploration", level_note=NOTE + p["note"]) for p in P],
             not_applicable=NA, notes="No hooks in /repo are needed: every observation is made at the public interface (raw limbs through the crate's own raw accessors).")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]


main()

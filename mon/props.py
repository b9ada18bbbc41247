"""Per property: workload module, how its cases are made and counted, what the verdict assumes."""
NT = "; non-trivial: distinct (operation, operands) with some operand outside {0, 1, -1, 0/1, 1/1, empty}"
A_PY = ["CPython's arbitrary-precision integers and fractions are correct", "values cross the process boundary as raw limbs (from_raw, the crate's public fields and accessors)"]
A_MP = A_PY + ["mpmath evaluates the elementary functions correctly at the stated precision"]
INT = ("operation lines are generated from the seed: boundary-limb lattice plus shaped operands (carry chains, equal prefixes, q*b+r dividends, "
       "runs of ones, sparse, powers of the base and of ten; 1 to 513 limbs)")


def p(mod, rule, assumptions=A_PY, **kw):
    return dict(mod=mod, rule=rule + NT, assumptions=assumptions, **kw)


PROPS = {
    "C01": p("c01", INT),
    "C02": p("c02", INT),
    "C03": p("c03", INT + "; histories are sequences of in-place and returning operations over a set of registers, the whole state judged after each step"),
    "C04": p("c04", INT + "; pairs sharing a prefix, differing in one limb, in sign or in length by one"),
    "C05": p("c05", INT + "; literals in four radices with signs, prefixes and underscores, mutated literals, lengths around chunk boundaries"),
    "C06": p("c06", "values at and around the limits of every machine type, all binades of both float formats, ties between floats, random values"),
    "C07": p("c07", INT + "; perfect squares and powers of two with small offsets, products of chosen primes, common factors"),
    "C08": p("c08", "rationals from shaped integers, with common factors planted across the operands, cancelling and negative ones, machine-integer extremes"),
    "C09": p("c09", "rationals from shaped integers, exact halves, neighbours of integers, type limits"),
    "C10": p("c10", "float bit patterns over every binade with extreme fractions; rationals at floats, halfway between floats, and next to both"),
    "C11": p("c11", "literals from a grammar and mutations of them; rationals with powers of ten in the denominator, every requested length"),
    "C12": p("c12", "shapes from 1x1 up, dense, sparse, singular, permuted, triangular, zero-pivot contents, incompatible pairs"),
    "C13": p("c13", "coefficient vectors with zero leading terms; point sets sampled from polynomials of lower, equal and no degree, repeated abscissae"),
    "C14": p("c14", "arguments across every range-reduction branch and next to its limits, step counts from 1 up", A_MP),
    "C15": p("c15", "mantissas with extreme bit patterns, exponents over the stated range, cancelling pairs, operands far apart"),
    "C16": p("c16", "values at, halfway between and next to representable ones, type limits, subnormals"),
    "C17": p("c17", "literals from a grammar and mutations of them; values of every decimal magnitude; code texts of every length", A_MP),
    "C18": p("c18", "arguments across and next to every range-reduction limit, neighbours of powers of two and of multiples of pi/4", A_MP),
    "C19": p("c19", "operation pairs (two variants of one operation) on operands of the other workloads"),
    "C20": p("c20", INT + "; powers of two and their neighbours, exponents across every table segment", A_MP),
    "C21": p("c21", "operations mixed from all the other workloads, executed forward, reversed, twice in a row, on several threads, and in both builds; each comparison is one evaluation", A_PY[1:]),
    "C22": p("c22", "scripted sequences of random words (zero, all-ones and boundary words at every position, random ones), and the real source", A_PY[:1] + ["the stand-in `rand` has the interface of the real crate"]),
    "C23": p("c23", "operations mixed from all the other workloads under each sanitizer; one evaluation is one operation completed under a sanitizer", ["AddressSanitizer, ThreadSanitizer and Miri report only real errors"], builds=["asan", "tsan"]),
}

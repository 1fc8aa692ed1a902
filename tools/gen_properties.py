#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long JSON lines stay reviewable)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

S_LSU = {"name": "lsu / intg / frac", "meaning": "base-10^9 units, least significant first; integer and fractional digit counts, sign in the top bit of intg", "where": "src/decimal.rs FixedDecimal"}

prop("C01", "Parsing yields exactly the number that was written",
     "Whenever a byte string is accepted, the decimal obtained is exactly the number written (sign, all digits, decimal point, power-of-ten exponent), with as many fractional digits as the text has after applying the exponent (never fewer than zero). A text whose digits are all zero gives a non-negative zero.",
     ["inputs"], "every accepted numeral: all digit strings up to the 65-digit limit, every position of the point, every sign, every exponent -30..65",
     "The tests parse a few dozen literals; digit/unit alignment differs for each of the ~2000 combinations of integer digits, fraction digits and exponent, and each has 10^65 digit values.",
     ["src/serde.rs", "src/utils.rs"],
     [("unit assembly loops in from_bytes_str", "src/serde.rs:FixedDecimal::from_bytes_str"), ("POW10 / div9 / mod9 tables", "src/utils.rs")],
     ["FixedDecimal::from_bytes_str", "FixedDecimal::from_ascii_str", "FromStr"], [S_LSU])

prop("C02", "Exactly the well-formed numerals in range are accepted",
     "Parsing accepts exactly: an optional sign, digits with at most one decimal point and at least one digit, and an optional e/E exponent (optionally signed, at least one digit, at most 3 digits after leading zeros, between -30 and 65), such that the digits needed (as written, leading zeros included, after applying the exponent) are at most 65. Every other byte string, of any length, is reported as a syntax error, never panics, never wraps around, and leaves a target that was to be reset at zero.",
     ["inputs"], "every byte string (bounded length for arbitrary bytes; long digit runs by length)",
     "Tests try 18 malformed strings; arbitrary bytes, sign/point/exponent interleavings and lengths beyond 127 digits are never tried.",
     ["src/serde.rs"],
     [("syntax scan and limits", "src/serde.rs:FixedDecimal::from_bytes_str")],
     ["FixedDecimal::from_bytes_str", "Error::ConversionSyntax"])

prop("C03", "String output is the exact decimal expansion",
     "The text produced for a decimal is its sign if negative, its integer digits without superfluous leading zeros (at least one digit), and, if fractional digits are to be shown, a point followed by exactly that many digits: all of them by default, or the requested number, cut off without rounding or padded with zeros. Text is appended to the given buffer without touching what is already there and is always plain ASCII.",
     ["inputs"], "every representable decimal (any unit values, any digit counts) and every requested number of fractional digits",
     "Tests print ~50 values; the 3-digit table and the per-unit truncation logic have a separate path for every (fraction length, unit value class).",
     ["src/serde.rs", "src/utils.rs"],
     [("append_str_buf / append_frac", "src/serde.rs"), ("BIN2CHAR table, d3_to_str", "src/utils.rs")],
     ["FixedDecimal::to_string", "FixedDecimal::append_str_buf"], [S_LSU])

prop("C04", "Printing then parsing gives back the same decimal",
     "For every decimal whose text has at most 65 digits, parsing that text succeeds and gives a decimal that is equal to it, has the same number of fractional digits and prints the same text again.",
     ["inputs"], "every decimal with at most 65 digits in any split between integer and fraction",
     "No existing test composes printing with parsing over anything but fixed literals.",
     ["src/serde.rs"], [("append_str_buf", "src/serde.rs"), ("from_bytes_str", "src/serde.rs")],
     ["FixedDecimal::to_string", "FromStr"], [S_LSU])

prop("C05", "Comparison is exactly numeric order",
     "Comparing two decimals gives less, equal or greater exactly according to their numeric values, whatever their numbers of integer and fractional digits and leading or trailing zeros. Hence equality, ordering and their operators form one consistent total order, with a single zero.",
     ["inputs"], "every pair of representable decimals",
     "Tests compare ~50 literal pairs; correctness must hold for all unit alignments of two 9-unit numbers.",
     ["src/cmp.rs"], [("cmp_abs_lsu", "src/cmp.rs"), ("Ord/PartialEq impls", "src/cmp.rs")],
     ["Ord::cmp", "PartialOrd", "PartialEq"], [S_LSU])

prop("C06", "Equal decimals hash equally",
     "Two decimals that compare equal feed the same data to any hasher, however each was obtained (extra leading zeros, extra trailing fractional zeros, conversion, arithmetic). So hash-based collections never lose or duplicate an equal key.",
     ["inputs"], "every pair of equal representable decimals",
     "The test hashes two literal pairs that happen to share one layout.",
     ["src/decimal.rs"], [("Hash impl", "src/decimal.rs"), ("Eq via cmp", "src/cmp.rs")],
     ["Hash::hash", "PartialEq"], [S_LSU])

prop("C07", "Addition is exact or reports overflow",
     "Adding two decimals either returns exactly the mathematical sum, with as many fractional digits as the longer operand (adding zero to a non-zero decimal returns that one unchanged), or reports overflow. It never rounds, wraps or panics, and always succeeds when the exact sum, written with that many fractional digits, needs at most 65 digits.",
     ["inputs"], "every pair of representable decimals, both signs",
     "Tests add ~27 literal pairs; carry chains, unit alignment and the storage limit give thousands of layouts times 10^130 values.",
     ["src/arith.rs"], [("add_abs / sub_abs", "src/arith.rs"), ("add_with_carry / sub_with_borrow", "src/arith.rs")],
     ["FixedDecimal::add_to", "Add"], [S_LSU])

prop("C08", "Subtraction is exact or reports overflow",
     "Subtracting two decimals either returns exactly the mathematical difference, with as many fractional digits as the longer operand (if just one operand is zero, the other one unchanged or negated), or reports overflow. It never rounds, wraps or panics, and always succeeds when the exact difference, written with that many fractional digits, needs at most 65 digits.",
     ["inputs"], "every pair of representable decimals, both signs",
     "Tests subtract a few dozen literal pairs; borrow chains and sign flips depend on every unit of both operands.",
     ["src/arith.rs"], [("sub_abs / add_abs", "src/arith.rs")],
     ["FixedDecimal::sub_to", "Sub"], [S_LSU])

prop("C09", "Multiplication is exact unless digits must be dropped",
     "The product has the right sign and is exact, with as many fractional digits as both operands together, whenever that is at most 36 and the integer and fractional digit counts of both operands together are at most 65. Otherwise fractional digits beyond 36 are, and those beyond the groups of nine (out of nine) that the operands' integer digits leave free may be, dropped at a 9-digit boundary: the result then never exceeds the exact product in magnitude and is off by fewer than 20 units of its last place, or overflow is reported, which happens only if the operands' integer digit counts together exceed 65. It never panics, and the result's reported integer digit count carries no superfluous group of nine leading zeros.",
     ["inputs"], "every pair of representable decimals, both signs",
     "Tests multiply a few dozen literal pairs; row carries, column shifts and truncation depend on all units of both operands.",
     ["src/arith.rs"], [("mul_abs", "src/arith.rs")],
     ["FixedDecimal::mul_to", "Mul"], [S_LSU])

prop("C10", "Division is the exact quotient cut off at the result's scale",
     "Dividing by a non-zero decimal returns the exact mathematical quotient truncated toward zero at the result's own number of fractional digits, with the right sign; that number is at least the operands' fractional digits plus the requested extra digits, as far as 36 fractional digits and the space left by the integer part allow, and never more than 36. Overflow is reported only when the integer part needs more than 81 digits; it never panics.",
     ["inputs"], "every dividend and requested extra scale, for the divisors within the stated bound",
     "Long-division digit estimation fails only for inputs with probability around 10^-9 (too-large trial digit, add-back), which no sampled test reaches.",
     ["src/arith.rs"], [("div_abs (Knuth algorithm D)", "src/arith.rs"), ("units_greater_equal, unit_leading_zeroes", "src/utils.rs")],
     ["FixedDecimal::div_to", "Div"], [S_LSU])

prop("C11", "Remainder satisfies a = b*trunc(a/b) + r",
     "The remainder of a by a non-zero b is exactly a - b*trunc(a/b): smaller than b in magnitude, zero or of a's sign. It always succeeds, and a non-zero remainder has as many fractional digits as the longer operand.",
     ["inputs"], "every dividend, for the divisors within the stated bound",
     "The rare trial-digit corrections (probability around 10^-9) and the unit alignments are not reached by literal tests.",
     ["src/arith.rs"], [("rem_abs (Knuth algorithm D)", "src/arith.rs")],
     ["FixedDecimal::rem_to", "Rem"], [S_LSU])

prop("C12", "Rounding is to nearest, halves away from zero, at any digit",
     "Whenever the result fits the storage (nine groups of nine digits), rounding a decimal to n fractional digits gives the nearest multiple of 10^-n, ties away from zero, with n fractional digits (zero of them when n is negative and integer digits are rounded). Asking for more digits than present keeps the value and only extends it with zeros; a result of zero is never negative.",
     ["inputs"], "every representable decimal and every rounding position for which the result fits the storage",
     "Tests round ~150 literals; the carry chain and unit boundary cases exist for every (digits, position) pair and all unit values.",
     ["src/round.rs"], [("round / round_to / round_half_up", "src/round.rs")],
     ["FixedDecimal::round", "FixedDecimal::round_to"], [S_LSU])

prop("C13", "Rounding in place and rounding into another decimal agree",
     "For every decimal and every rounding position, rounding in place and rounding into a separate result give equal decimals with the same number of fractional digits and the same text. The separate form leaves its source untouched.",
     ["inputs"], "every representable decimal and every rounding position for which the result fits the storage",
     "Two independently written implementations are only compared on literals.",
     ["src/round.rs"], [("round vs round_to", "src/round.rs")],
     ["FixedDecimal::round", "FixedDecimal::round_to"], [S_LSU])

prop("C14", "Conversion from and to i64 is exact",
     "Every i64 converts to a decimal of exactly that value and back to the same i64. Converting a decimal to i64 succeeds exactly when its value lies between the smallest and largest i64, and then gives the value rounded half away from zero; otherwise it reports that the target range is exceeded.",
     ["inputs"], "all 2^64 integers; every representable decimal",
     "Tests convert about 10 values each way; the range limits and rounding interact for all units.",
     ["src/decimal.rs", "src/round.rs"], [("From<i64>, as_i64, MIN_I64/MAX_I64", "src/decimal.rs")],
     ["From<i64>", "FixedDecimal::as_i64"], [S_LSU])

prop("C15", "Conversion from and to u64 is exact",
     "Every u64 converts to a decimal of exactly that value and back to the same u64. Converting a decimal to u64 succeeds exactly when its value is not negative and at most the largest u64, and then gives the value rounded half up; otherwise it reports that the target range is exceeded.",
     ["inputs"], "all 2^64 integers; every representable decimal",
     "Tests convert a handful of values each way.",
     ["src/decimal.rs", "src/round.rs"], [("From<u64>, as_u64, MAX_U64", "src/decimal.rs")],
     ["From<u64>", "FixedDecimal::as_u64"], [S_LSU])

prop("C16", "Every operation yields a well-formed decimal",
     "Starting from well-formed decimals, every parse, conversion, arithmetic and rounding operation that succeeds yields a well-formed decimal again: never a negative zero, no stray digits beyond its reported integer or fractional digit counts, digit counts within storage. So any sequence of operations, of any length, stays within the values the other guarantees speak about.",
     ["histories", "inputs"], "every operation applied to every well-formed decimal (one inductive step, covering histories of any length)",
     "Tests check single operations on parsed literals only; values produced by other operations carry different digit counts.",
     ["src/arith.rs", "src/round.rs", "src/serde.rs", "src/decimal.rs"],
     [("set_neg_and_check_zero", "src/decimal.rs"), ("result trimming in add_abs/sub_abs/mul_abs/div_abs/rem_abs", "src/arith.rs")],
     ["FixedDecimal::is_neg", "is_zero", "intg", "frac", "to_string"], [S_LSU])

prop("C17", "Results depend on the operands only",
     "What an operation writes into its result decimal depends only on its operands, never on what the result decimal held before; operands passed by reference are never modified; and a parse that resets its target does not depend on the target's old content.",
     ["histories", "inputs"], "every prior content of the result decimal, every operands, every operation",
     "Tests reuse one result variable but never check against a fresh one for stale digits.",
     ["src/arith.rs", "src/round.rs", "src/serde.rs"],
     [("set_zero at the start of each kernel", "src/arith.rs, src/round.rs, src/serde.rs")],
     ["add_to", "sub_to", "mul_to", "div_to", "rem_to", "round_to", "from_bytes_str"], [S_LSU])

prop("C18", "Operators agree with the checked operations",
     "The operators + - * / % return exactly what the corresponding checked operation returns (division with 4 extra fractional digits) and panic exactly when that operation reports an error. No other panic occurs.",
     ["inputs"], "every pair of representable decimals",
     "Tests compare operator and checked form on non-failing literals only.",
     ["src/arith.rs"], [("Add/Sub/Mul/Div/Rem impls", "src/arith.rs")],
     ["Add", "Sub", "Mul", "Div", "Rem"], [S_LSU])

prop("C19", "Addition and multiplication are commutative",
     "Swapping the operands of an addition or multiplication never changes the outcome: the same error, or results that are equal, have the same number of fractional digits and print identically, also when digits are dropped. Likewise a-b and b-a are negatives of each other.",
     ["inputs"], "every pair of representable decimals",
     "Asymmetric code paths (which operand is longer, row versus column order) are only hit by a few literal pairs.",
     ["src/arith.rs"], [("add_abs, sub_abs, mul_abs", "src/arith.rs")],
     ["add_to", "sub_to", "mul_to"], [S_LSU])

prop("C20", "Division by zero is always reported",
     "Division and remainder report division by zero exactly when the divisor's value is zero, however that zero is written and whatever the dividend (zero included). Zero divided by anything else is zero.",
     ["inputs"], "every dividend, every divisor (zero in every layout, and every non-zero value of the bounded shapes)",
     "No test in the suite exercises a zero divisor at all.",
     ["src/arith.rs"], [("leading non-zero unit search in div_abs / rem_abs", "src/arith.rs")],
     ["FixedDecimal::div_to", "FixedDecimal::rem_to", "Error::DivisionByZero"], [S_LSU])

prop("C21", "Constructors, predicates, sign setters and clones tell the truth",
     "zero() and one() are exactly 0 and 1, and set_zero / set_one make exactly those of any decimal. is_zero and is_neg hold exactly for zero and for negative decimals. intg and frac report the digit counts the decimal is stored with, whatever its sign, and intg_units / frac_units these counts in groups of nine, rounded up. set_neg / set_pos give -|x| / |x| and change nothing else; zero never gets a sign. A clone is indistinguishable from its original.",
     ["inputs"], "every representable decimal; any content for set_zero, set_one and clone",
     "No test calls the sign setters on zero or looks at digit counts of wide decimals.",
     ["src/decimal.rs"], [("zero, one, set_*, is_*, intg, frac", "src/decimal.rs"), ("get_units", "src/utils.rs")],
     ["FixedDecimal::zero", "one", "set_zero", "set_one", "set_neg", "set_pos", "is_zero", "is_neg", "intg", "frac", "intg_units", "frac_units", "Clone"], [S_LSU])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
AP = "src/apint/"
LEN = ("ApInt.len", "the bit width of the value", "src/apint/mod.rs")
DATA = ("ApInt.data", "inline digit (width <= 64) or pointer to a heap buffer of ceil(width/64) digits", "src/apint/mod.rs")
p("C01", "Bits above the width are always zero",
  "Every ApInt, Int and UInt that any public constructor, conversion, cast, bitwise, shift or arithmetic operation produces or modifies has all stored bits at positions >= its width equal to zero, for every width and every input value. This holds on success and on error, so equality, hashing, comparison, bit counts, formatting and serialization never see stale high bits.",
  ["inputs"], "all widths >= 1, all operand values, all bit positions, shift amounts and target widths, all supported entry points",
  "Tests sample a handful of widths (mostly multiples of 64) and values; a missing mask only shows for widths that are not a multiple of 64 and for specific carries, signs or shift amounts.",
  [AP+"utils.rs", AP+"arithmetic.rs", AP+"bitwise.rs", AP+"shift.rs", AP+"casting.rs", AP+"constructors.rs", AP+"rand_impl.rs", AP+"serde_impl.rs", "src/digit.rs", "src/bitwidth.rs"],
  [("clear_unused_bits after digit-wise writes", AP+"utils.rs"), ("Digit::retain_last_n / truncate_to masks", "src/digit.rs"), ("position check before set/flip", AP+"bitwise.rs")], [LEN, DATA],
  ["return value and &mut operands of every public function"])
p("C02", "Operands of different widths are rejected, never combined",
  "Every fallible two-operand operation (checked comparisons, bit-and/or/xor, add, sub, mul, all signed and unsigned division and remainder forms, strict assign) returns an error and never Ok and never panics when the two widths differ; the error names the width mismatch with both widths, except that a zero divisor may be reported as division by zero. When the widths are equal it never reports a width mismatch.",
  ["inputs"], "all pairs of widths and values, all two-operand entry points of ApInt, Int and UInt in in-place and consuming form",
  "Tests try a few mismatched widths on a few operations; storage classes (<=64, >64, same digit count, different digit count) and operand signs multiply the cases.",
  [AP+"utils.rs", AP+"arithmetic.rs", AP+"relational.rs", AP+"bitwise.rs", AP+"casting.rs", "src/int.rs", "src/uint.rs"],
  [("zip_access_data* width comparison", AP+"utils.rs"), ("strict_assign width comparison", AP+"casting.rs")], [LEN])
p("C03", "A failed operation leaves its operands unchanged",
  "Whenever a public in-place operation on ApInt, Int or UInt returns an error, every operand it was given by mutable reference still has exactly the width and the value it had before the call.",
  ["inputs"], "all inputs that make an operation fail: mismatched widths, zero divisors, invalid positions, shift amounts and target widths",
  "Tests assert that an error is returned but rarely look at the operand afterwards; the failing inputs are a product of widths, signs and values.",
  [AP+"arithmetic.rs", AP+"shift.rs", AP+"casting.rs", AP+"bitwise.rs", AP+"utils.rs", "src/int.rs", "src/uint.rs"],
  [("validation precedes the first write", AP+"*.rs")], [LEN, DATA])
p("C04", "Division fails exactly on a zero divisor, naming operation and dividend",
  "Each of the eight division and remainder operations (signed and unsigned div, rem, div-rem, rem-div), given equal widths, returns the division-by-zero error carrying its own operation tag and the unmodified left operand if the divisor is zero. For every non-zero divisor of equal width it returns Ok.",
  ["inputs"], "all widths, dividends and divisors, all eight operations and their Int/UInt and consuming forms",
  "Tests check a few zero divisors; the zero test runs over a variable number of digits and is separate per storage class and per signedness.",
  [AP+"arithmetic.rs", "src/errors.rs"], [("is_zero guard / divisor scan in the long-division entry", AP+"arithmetic.rs"), ("DivOp tag per operation", "src/errors.rs")])
p("C05", "Bit positions and shift amounts are accepted exactly when below the width",
  "get/set/unset/flip bit and shl/lshr/ashr (and the Int/UInt forms) return Ok for every position or amount smaller than the width, and otherwise return the invalid-bit-access or invalid-shift-amount error carrying the given position or amount and the width.",
  ["inputs"], "all widths, positions and shift amounts, including the digit boundaries and values near usize::MAX",
  "Tests try boundary positions for a few widths only.",
  ["src/checks.rs", "src/bitwidth.rs", AP+"bitwise.rs", AP+"shift.rs"], [("verify_bit_access / verify_shift_amount", "src/checks.rs"), ("BitWidth::is_valid_pos / is_valid_shift_amount", "src/bitwidth.rs")])
p("C06", "Widths: operations preserve them, casts and constructors produce the target",
  "Every arithmetic, bitwise, shift and bit operation leaves the width of its operands unchanged; truncate, extend, resize, zero, one, min/max and random constructors produce exactly the requested width, and assign takes the width of its source. Truncation succeeds exactly when the target is not larger, extension exactly when it is not smaller; otherwise they fail with the error naming target and current width.",
  ["inputs"], "all current and target widths, values and signs",
  "Tests use fixed width tables; the result depends on the relation of two widths and of their digit counts.",
  [AP+"casting.rs", AP+"constructors.rs", AP+"rand_impl.rs", AP+"utils.rs"], [("len is written only by casts and assign", AP+"casting.rs")], [LEN])
p("C07", "Digit storage is owned exactly once and sized by the width",
  "At every point where a value is visible to a user, a value of at most 64 bits owns no heap memory and a wider value owns exactly one heap buffer of exactly ceil(width/64) digits, which no other live value shares; every buffer is released exactly once (no leak, double free or use after free), also on error paths.",
  ["inputs", "histories"], "all sequences of constructions, clones, assignments, casts and drops over all widths",
  "Leaks and double frees are invisible to unit tests, and the storage transition depends on both old and new width.",
  [AP+"constructors.rs", AP+"casting.rs", AP+"mod.rs", AP+"utils.rs"], [("new_ext / drop_digits / Drop", AP+"constructors.rs"), ("assign, Clone", AP+"casting.rs")], [LEN, DATA])
p("C08", "Borrowed operands are never modified and results never alias them",
  "An operation never changes the width or value of an operand it receives by shared reference, and a value returned or assigned from it (clone, assign, strict assign, conversions) is an independent copy: later changes to one are never visible through the other.",
  ["inputs", "histories"], "all operations taking an operand by shared reference, over all widths and values",
  "The code uses raw pointers and a union, so the compiler does not enforce it there; tests seldom re-inspect right-hand operands.",
  [AP+"casting.rs", AP+"utils.rs", AP+"arithmetic.rs"], [("rhs is copied before being negated or divided", AP+"arithmetic.rs"), ("Clone copies digits", AP+"casting.rs")])
p("C09", "Small integers and documented in-place operations never allocate",
  "Successful operations on values of at most 64 bits (arithmetic, division, bitwise, shifts, comparisons, bit access, casts between such widths, cloning) never allocate heap memory. The in-place bit-not/and/or/xor, shift, increment, decrement, negate, add and subtract operations never allocate for any width when they succeed.",
  ["inputs"], "all widths in the stated classes and all values",
  "Allocation is not observed by any test.",
  [AP+"arithmetic.rs", AP+"bitwise.rs", AP+"shift.rs", AP+"relational.rs", AP+"casting.rs"], [("inline storage class", "src/storage.rs"), ("in-place digit updates", AP+"utils.rs")])
p("C10", "Equality, hashing and cloning agree on width and every digit",
  "Two values compare equal exactly when their widths are equal and all their digits are equal; what hashing feeds to the hasher is determined by the width and all digits and distinguishes nothing else; a clone and an assigned value equal their source.",
  ["inputs"], "all pairs of values of all widths",
  "Tests compare a few values; a comparison or copy that skips one digit is right on almost all samples.",
  [AP+"relational.rs", AP+"utils.rs", AP+"casting.rs", "src/int.rs", "src/uint.rs"], [("PartialEq over len and digit slice", AP+"relational.rs"), ("Hash over len and digit slice", AP+"utils.rs"), ("Clone / assign copy all digits", AP+"casting.rs")])
p("C11", "Bitwise operations act on exactly the addressed bits",
  "bit-and, bit-or, bit-xor and bit-not give the respective Boolean combination at every bit position below the width; set-all, unset-all and flip-all change every such position accordingly; set, unset and flip of one position (or of the sign bit) change exactly that bit and no other.",
  ["inputs"], "all widths, values and positions",
  "Tests cover a few values and positions; one skipped digit or wrong mask needs a specific width or position.",
  [AP+"bitwise.rs", AP+"utils.rs", "src/digit.rs"], [("modify_digits / modify_zipped_digits visit every digit", AP+"utils.rs"), ("Digit set/unset/flip masks", "src/digit.rs")])
p("C12", "Whole-value predicates look at every bit below the width",
  "is_zero / is_all_unset hold exactly if every bit is zero, is_one exactly if the value is one, is_all_set exactly if every bit below the width is set, is_even / is_odd / lsb and msb / is_negative report the lowest and the highest bit below the width.",
  ["inputs"], "all widths and values",
  "Tests use few widths; a predicate that ignores one digit is right on almost all of them.",
  [AP+"utils.rs", AP+"bitwise.rs", "src/int.rs", "src/uint.rs"], [("scan over all digits", AP+"utils.rs")])
p("C13", "Comparisons form one consistent total order per signedness and width",
  "For operands of equal width, unsigned less-than is decided by the most significant differing digit and signed less-than additionally by the sign bits; less-or-equal, greater and greater-or-equal are its exact complements and mirror images; the Int (signed) and UInt (unsigned) PartialOrd operators agree with them and with equality, and are false/None for different widths.",
  ["inputs"], "all pairs of values of all widths",
  "The trichotomy and complement laws quantify over all pairs; tests compare a few.",
  [AP+"relational.rs", "src/int.rs", "src/uint.rs"], [("checked_ult scan from the top digit", AP+"relational.rs"), ("derived comparisons", AP+"relational.rs")])
p("C14", "Int behaves signed, UInt unsigned: each forwards to the matching operation",
  "Every Int operation has the effect of the signed ApInt operation and every UInt operation that of the unsigned one (division, remainder, right shift, comparison, extension, resizing, min/max, primitive conversion), applied to the same operands in the same order, with the error passed on unchanged.",
  ["inputs"], "all Int and UInt entry points, all operands",
  "For non-negative operands signed and unsigned agree, so swapped forwarding survives most samples.",
  ["src/int.rs", "src/uint.rs"], [("one-line delegation per method", "src/int.rs, src/uint.rs")])
p("C15", "Consuming, in-place and operator forms of an operation agree",
  "For each operation, the consuming form returns exactly the value (or error) that the in-place form leaves in its operand, and each operator (+ - * / % & | ^ << >> ! unary -, and the assigning forms) has the effect of the wrapping operation of the same name and signedness, panicking exactly when that operation returns an error.",
  ["inputs"], "all operator traits and into_* forms on ApInt, Int, UInt, all operands",
  "Tests mostly exercise one form of each operation.",
  ["src/std_ops.rs", "src/utils.rs", AP+"arithmetic.rs", AP+"bitwise.rs", AP+"shift.rs", AP+"casting.rs", "src/int.rs", "src/uint.rs"], [("forward_* helpers", "src/utils.rs"), ("operator macros", "src/std_ops.rs")])
p("C16", "Primitive conversions use the right width, sign and range test",
  "from_<prim> yields a value of that primitive's width with its bit pattern; try_to_<prim> fails exactly when the unsigned value does not fit the primitive's width, with the error naming that primitive; otherwise it and resize_to_<prim> return the low bits, sign-extended for signed targets wider than the value and zero-extended for unsigned ones.",
  ["inputs"], "all widths and values, all eleven primitive types",
  "Eleven types times four storage classes times sign; tests sample a few values per type.",
  [AP+"to_primitive.rs", AP+"constructors.rs", "src/int.rs", "src/uint.rs"], [("PrimitiveTy tables", AP+"to_primitive.rs"), ("resize_to_primitive_ty / try_cast_to_primitive_ty", AP+"to_primitive.rs")])
p("C17", "Serialization is validated on reading and mirrors what is written",
  "Serializing writes the width and all digits, in the shape the matching reader expects (a struct with fields width and digits for human-readable formats, a pair otherwise). Deserializing arbitrary input never panics: zero widths, wrong digit counts, missing, duplicate or unknown fields and short sequences are errors, and every accepted value has the width that was read, the digits that were read, and no bits above its width.",
  ["inputs", "fault_sequences"], "all serialized inputs, including malformed and hostile ones, in both format families",
  "Tests round-trip valid values; malformed inputs are unbounded.",
  [AP+"serde_impl.rs"], [("visitors and their length checks", AP+"serde_impl.rs"), ("Serialize impl", AP+"serde_impl.rs")])
p("C18", "Text input is accepted exactly when every character is a digit of the radix",
  "A radix is valid exactly from 2 to 36. Parsing a string returns an error, and does not panic, if the string is empty, starts or ends with an underscore, or contains any character other than underscores and 0-9, a-z, A-Z digits whose value is below the radix; the error for a character carries the input, the radix, and its position and the character. A non-empty string of digits of the radix with underscores only inside is never rejected.",
  ["inputs"], "all strings and radices",
  "The input space is unbounded; tests try a few malformed strings.",
  [AP+"serialization.rs", "src/radix.rs", "src/errors.rs"], [("byte classification loop", AP+"serialization.rs"), ("Radix::new / is_valid_byte", "src/radix.rs")])
p("C19", "Values can be shared and sent between threads",
  "ApInt, Int and UInt are Send and Sync, and soundly so: no operation through a shared reference writes to the value, there is no interior mutability in their representation and no mutable global or thread-local state in the crate, and no two values share digit storage.",
  ["schedules", "programs"], "all interleavings of threads using shared values, all client programs",
  "Data races are schedule-dependent and no test uses threads; Send and Sync are asserted with unsafe impls that the compiler does not check.",
  [AP+"mod.rs", AP+"utils.rs"], [("unsafe impl Send / Sync", AP+"mod.rs")])
p("C20", "Resizing keeps low bits and fills the new high bits with zero or the sign",
  "Truncation keeps exactly the low bits; zero-extension and zero-resize fill the added positions with zeros and sign-extension and sign-resize with the old sign bit; all retained positions keep their bits, for every combination of old and new width.",
  ["inputs"], "all current and target widths and values",
  "Digit-boundary combinations of two widths and the sign are sampled by a small table in the tests.",
  [AP+"casting.rs", "src/digit.rs"], [("digit copy plus fill, sign_extend_from on the top digit", AP+"casting.rs")])
p("C21", "Fallible operations report errors instead of panicking",
  "Apart from the operator traits, no public comparison, bitwise, bit-access, shift, increment, negation, addition, subtraction, signed division wrapper, cast, predicate, counting or primitive-conversion function panics, overflows or indexes out of bounds, for any width, value, position, shift amount or target width.",
  ["inputs"], "all inputs of the listed functions",
  "unwrap/expect calls and index expressions fail only on specific width and value combinations.",
  [AP+"*.rs", "src/digit.rs", "src/bitwidth.rs"], [("expect/unwrap guarded by width arithmetic", AP+"*.rs")])
p("C22", "Bounds and unit constructors have the stated bit patterns",
  "For every width zero has no bit set, one only the lowest, all_set/unsigned max all, signed min only the sign bit, signed max all but the sign bit; random values take every digit from the generator (the given one for the _using forms), a fresh word per digit; Int::one of width 1 is None.",
  ["inputs"], "all widths",
  "Tests check widths up to a few digits only.",
  [AP+"constructors.rs", AP+"rand_impl.rs", "src/int.rs", "src/uint.rs"], [("repeat_digit", AP+"constructors.rs")])
p("C23", "Shifts move every bit by exactly the shift amount",
  "After a valid shift by s, bit i of the result is bit i-s of the operand (shl) or bit i+s (lshr, ashr) wherever that position exists below the width, and every vacated position holds zero, or for ashr the operand's sign bit.",
  ["inputs"], "all widths, values and shift amounts below the width, all in-place, consuming, operator and Int/UInt forms",
  "Whole-digit steps, bit steps and their combination over a variable number of digits; tests sample amounts and widths.",
  [AP+"shift.rs", AP+"utils.rs", "src/int.rs", "src/uint.rs", "src/std_ops.rs"], [("digit step then bit step with carries", AP+"shift.rs")])
p("C24", "Signed division, remainder, negation and absolute value follow the sign rules",
  "Signed quotient and remainder are those of the unsigned operation on the magnitudes, the quotient negated exactly when the operand signs differ and the remainder negated exactly when the dividend is negative; negation is bit complement plus one; the absolute value is the operand or, exactly when it is negative, its negation. Combined forms (div-rem, rem-div) put quotient and remainder in the documented operands.",
  ["inputs"], "all widths, all sign combinations and values, including the minimum value",
  "Four sign combinations times storage classes times eight operations; tests use few negative operands.",
  [AP+"arithmetic.rs", "src/int.rs"], [("sign case split around the unsigned operation", AP+"arithmetic.rs")])
p("C25", "Addition, subtraction, negation, increment and decrement are exact modulo 2^width",
  "wrapping add, subtract, negate, increment and decrement return the mathematical result modulo 2 to the width for every pair of operands of equal width: every carry and borrow, including one that runs through a whole chain of digits or out of the top, is passed on exactly once.",
  ["inputs"], "all operands of all widths, all in-place, consuming and operator forms of ApInt, Int and UInt",
  "A carry that is lost, doubled or stopped at one digit boundary needs specific digit values at a specific position; tests use few multi-digit operands.",
  [AP+"arithmetic.rs", "src/digit.rs"], [("carry loops of add, sub, inc, dec", AP+"arithmetic.rs"), ("DoubleDigit split into digit and carry", "src/digit.rs")])
p("C26", "Bit counts are exact",
  "count_ones and count_zeros are the numbers of ones and zeros below the width, leading_zeros and trailing_zeros the lengths of the runs of zeros at the top and the bottom (the whole width for zero); unused bits of the top digit are never counted.",
  ["inputs"], "all widths and values, on ApInt, Int and UInt",
  "Sums and runs over unboundedly many digits with a correction for the unused bits; tests use few widths that are not a multiple of 64.",
  [AP+"bitwise.rs", "src/int.rs", "src/uint.rs"], [("digit sums corrected by the unused bits", AP+"bitwise.rs")])
p("C27", "Parsing a valid string yields the number it denotes",
  "Parsing a valid string in any radix from 2 to 36 does not panic and gives an integer whose unsigned value is exactly the number the digits denote (most significant first, underscores ignored, lower and upper case alike), whether or not the radix is a power of two and however many machine words the number takes.",
  ["inputs"], "all valid strings in all radices, on all types with from_str_radix",
  "Each radix has its own digit packing or multiply-add path and its own chunk boundaries; tests use few radices and short strings.",
  [AP+"serialization.rs", "src/radix.rs"], [("from_bitwise_digits, from_inexact_bitwise_digits, from_radix_digits", AP+"serialization.rs")])
p("C28", "Binary and hexadecimal formatting print exactly the value",
  "Formatting an ApInt, Int or UInt with {:b}, {:x} or {:X} does not panic and writes exactly the unsigned value in base 2 or 16 without leading zeros (0 for zero), in lower or upper case as requested: no digit is dropped, repeated or moved, and inner digits keep their leading zeros.",
  ["inputs"], "all values of all widths, all three types",
  "Zero digits inside or at the top of a value change which pieces are printed and how they are padded; tests print a few one- and two-digit values.",
  [AP+"serialization.rs", "src/digit.rs", "src/int.rs", "src/uint.rs"], [("fmt impls: skip leading zero digits, pad the others", AP+"serialization.rs")])
# not applicable (numeric)
p("C29", "Wrapping multiplication equals multiplication modulo 2^width",
  "Wrapping multiplication of two operands of equal width returns their mathematical product modulo 2 to the width, for every pair of values: every partial product is added at its own place, and every carry of a row and between rows is passed on exactly once, whichever of the operands' digits are zero. The in-place, consuming and operator forms of ApInt, Int and UInt all return it.",
  ["inputs"], "all pairs of values at the analysed widths (up to 448 bits, all storage classes)",
  "Carries out of sums of products need rare digit combinations that random tests do not hit, and the code has six branches by the operands' significant digits.",
  [AP+"arithmetic.rs", "src/digit.rs", "src/int.rs", "src/uint.rs", "src/std_ops.rs"], [("schoolbook multiplication rows, special cases by significant digits", AP+"arithmetic.rs"), ("carrying_mul, carrying_mul_add", "src/digit.rs")])
p("C30", "Unsigned division by short divisors and of short dividends is exact",
  "For a non-zero divisor, unsigned quotient and remainder satisfy dividend = divisor * quotient + remainder with remainder < divisor, each in its documented operand, for all values of widths up to 128 bits, and at larger widths whenever the divisor is below 2^64 or the dividend is below 2^128. The div, rem, divrem and remdiv forms, the consuming forms and the UInt operators all agree.",
  ["inputs"], "all pairs of such values at the analysed widths (up to 1024 bits)",
  "Several kernels by operand size (32-bit, 64-bit and 128-bit steps, early exits) each of which only some values reach.",
  [AP+"arithmetic.rs", "src/digit.rs", "src/uint.rs", "src/std_ops.rs"], [("large_div_by_small, large_div_by_u32, two-digit case, early exits", AP+"arithmetic.rs"), ("wrapping_divrem", "src/digit.rs")])
p("C31", "Widths, positions, shift amounts and radices hold exactly the number they were made from",
  "BitWidth accepts exactly the numbers from 1, Radix exactly 2 to 36, BitPos and ShiftAmount every number: new returns an error naming the number for the others and from panics. to_usize and to_u8 of an accepted one, or of a copy of it, give back the same number, whatever its size; equality and order are those of the numbers; w1 to w128 have the widths in their names.",
  ["inputs"], "all arguments of the constructors and all pairs of values",
  "Every other guarantee is stated in terms of these numbers; a narrowing or an off-by-one shows only at numbers tests never use (beyond 2^32, radix 36).",
  ["src/bitwidth.rs", "src/bitpos.rs", AP+"shift.rs", "src/radix.rs"], [("BitWidth::new, BitPos::new, Radix::new and the From impls", "src/bitwidth.rs"), ("ShiftAmount::from, to_usize", AP+"shift.rs")])
p("N02", "Long division by a divisor of two or more digits satisfies dividend = quotient * divisor + remainder",
  "For a dividend of at least 2^128 and a divisor of at least 2^64 the quotient and remainder satisfy the division identity with remainder smaller than the divisor.",
  ["inputs"], "all operands of all widths", "Long division over unboundedly many digits.",
  [AP+"arithmetic.rs"], [("large_div_by_large", AP+"arithmetic.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
